#include "common.h"
#include "hrm/geometry/SuperEllipse.h"
#include "hrm/geometry/SuperQuadrics.h"
static double ef(double th, double p, bool s) { double v = s ? std::sin(th) : std::cos(th); return (v > 0) - (v < 0) ? ((v > 0) ? 1 : -1) * std::pow(std::fabs(v), p) : 0; }
void run_oracle(double secs) {
    Clock c; c.lim = secs;
    while (c.left() && cases() < 20000) {
        {
            std::vector<double> a{U(0.1, 10), U(0.1, 10)}, p{U(-20, 20), U(-20, 20)}; double e = I(0, 3) ? U(0.1, 1.9) : 1, th = I(0, 5) ? U(-7, 7) : 0; int n = I(2, 60);
            if (I(0, 4) == 0) p[1] = p[0], a[1] = a[0];
            hrm::SuperEllipse s(I(0, 1) ? a : std::vector<double>{1, 2}, I(0, 1) ? e : 0.5, I(0, 1) ? p : std::vector<double>{3, 4}, I(0, 1) ? th : 0.1, n);
            s.setSemiAxis(a); s.setEpsilon(e); s.setPosition(p); s.setAngle(th);
            CASES("superellipse a=" + S(a) + " eps=" + S(e) + " pos=" + S(p) + " angle=" + S(th) + " num=" + std::to_string(n));
            guarded("ellipse-exception", [&] {
                auto B = s.getOriginShape();
                if (B.rows() != 2 || B.cols() != n) { FAIL("ellipse-count", "%ld x %ld points", (long)B.rows(), (long)B.cols()); return; }
                for (int i = 0; i < n; ++i) {
                    double dx = B(0, i) - p[0], dy = B(1, i) - p[1], x = cos(th) * dx + sin(th) * dy, y = -sin(th) * dx + cos(th) * dy;
                    double t = 2 * i * 3.1415926 / (n - 1.0), ex = a[0] * ef(t, e, 0), ey = a[1] * ef(t, e, 1), sc = 1 + std::fabs(p[0]) + std::fabs(p[1]);
                    if (!(std::hypot(x - ex, y - ey) < 1e-9 * sc * (a[0] + a[1] + 1))) { FAIL("ellipse-point", "point %d is (%.17g,%.17g) in the body frame, expected (%.17g,%.17g)", i, x, y, ex, ey); break; }
                    double f = std::pow(std::fabs(ex / a[0]), 2 / e) + std::pow(std::fabs(ey / a[1]), 2 / e);
                    if (std::fabs(f - 1) > 1e-6) { FAIL("ellipse-implicit", "implicit value %.17g", f); break; }
                }
                NT();
            });
        }
        {
            std::vector<double> a{U(0.1, 10), U(0.1, 10), U(0.1, 10)}, p{U(-20, 20), U(-20, 20), U(-20, 20)}, e{I(0, 3) ? U(0.1, 1.9) : 1, I(0, 3) ? U(0.1, 1.9) : 1}; int n = I(2, 14);
            Eigen::Quaterniond q(N(), N(), N(), N()); q.normalize(); if (I(0, 5) == 0) q.setIdentity();
            hrm::SuperQuadrics s(I(0, 1) ? a : std::vector<double>{1, 2, 3}, I(0, 1) ? e : std::vector<double>{1, 1}, I(0, 1) ? p : std::vector<double>{0, 0, 0}, I(0, 1) ? q : Eigen::Quaterniond::Identity(), n);
            s.setSemiAxis(a); s.setEpsilon(e); s.setPosition(p); s.setQuaternion(q);
            CASES("superquadric a=" + S(a) + " eps=" + S(e) + " pos=" + S(p) + " quat=" + S({q.w(), q.x(), q.y(), q.z()}) + " num=" + std::to_string(n));
            guarded("quadric-exception", [&] {
                auto B = s.getOriginShape();
                if (B.rows() != 3 || B.cols() != n * n || (int)s.getNum() != n * n || (int)s.getNumParam() != n) { FAIL("quadric-count", "%ld x %ld points", (long)B.rows(), (long)B.cols()); return; }
                Eigen::Matrix3d R = q.toRotationMatrix();
                for (int k = 0; k < n * n; ++k) {
                    Eigen::Vector3d w = R.transpose() * (B.col(k) - Eigen::Vector3d(p[0], p[1], p[2]));
                    const double HP = 3.1415926 / 2 + 1e-6, PP = 3.1415926 + 1e-6; int i = k % n, j = k / n;
                    double et = -HP + 2 * HP * j / (n - 1.0), om = -PP + 2 * PP * i / (n - 1.0);
                    Eigen::Vector3d x(a[0] * ef(et, e[0], 0) * ef(om, e[1], 0), a[1] * ef(et, e[0], 0) * ef(om, e[1], 1), a[2] * ef(et, e[0], 1));
                    // close to a zero of sine or cosine a rounding error of the angle moves the point by (error)^exponent
                    double sl = 1e-9; for (double v : {std::fabs(cos(et)), std::fabs(sin(et)), std::fabs(cos(om)), std::fabs(sin(om))}) if (v < 1e-3) for (double ee : e) sl = std::max(sl, std::pow(v + 2e-15, ee) - std::pow(std::max(0.0, v - 2e-15), ee) + 1e-9);
                    if (!((w - x).norm() < (sl * 4) * (1 + a[0] + a[1] + a[2] + std::fabs(p[0]) + std::fabs(p[1]) + std::fabs(p[2])))) { FAIL("quadric-point", "point %d is (%.12g,%.12g,%.12g) in the body frame, expected (%.12g,%.12g,%.12g)", k, w[0], w[1], w[2], x[0], x[1], x[2]); break; }
                    double f = std::pow(std::pow(std::fabs(x[0] / a[0]), 2 / e[1]) + std::pow(std::fabs(x[1] / a[1]), 2 / e[1]), e[1] / e[0]) + std::pow(std::fabs(x[2] / a[2]), 2 / e[0]);
                    if (std::fabs(f - 1) > 1e-6) { FAIL("quadric-implicit", "implicit value %.17g", f); break; }
                }
                NT();
            });
        }
    }
}
