#include "common.h"
#include "hrm/geometry/SuperEllipse.h"
#include "hrm/geometry/SuperQuadrics.h"
static double ef(double th, double p, bool s) { double v = s ? std::sin(th) : std::cos(th); return ((v > 0) - (v < 0)) * std::pow(std::fabs(v), p); }
void run_oracle(double secs) {
    Clock c; c.lim = secs;
    while (c.left() && cases() < 20000) {
        int K = I(0, 1) ? 1 : -1;
        {
            std::vector<double> a{U(0.2, 10), U(0.2, 10)}, b{U(0.2, 10), U(0.2, 10)}, p{U(-20, 20), U(-20, 20)}; double e = I(0, 3) ? U(0.2, 1.8) : 1, t1 = U(-4, 4), t2 = I(0, 4) ? U(-4, 4) : 0; int n = I(2, 40);
            hrm::SuperEllipse s(a, e, p, t1, n), o(b, 1, {U(-3, 3), U(-3, 3)}, t2, I(2, 30));
            CASES("minkowski2D a=" + S(a) + " eps=" + S(e) + " angle=" + S(t1) + " pos=" + S(p) + " num=" + std::to_string(n) + " ellipse=" + S(b) + " angle=" + S(t2) + " K=" + std::to_string(K));
            guarded("ellipse-exception", [&] {
                auto M = s.getMinkSum2D(o, K); auto B = s.getOriginShape();
                if (M.rows() != 2 || M.cols() != n) { FAIL("ellipse-count", "%ld x %ld", (long)M.rows(), (long)M.cols()); return; }
                Eigen::Matrix2d R1 = Eigen::Rotation2Dd(t1).matrix(), A = Eigen::Rotation2Dd(t2).matrix() * Eigen::Vector2d(b[0], b[1]).asDiagonal();
                for (int i = 0; i < n; ++i) {
                    double t = 2 * i * 3.1415926 / (n - 1.0); Eigen::Vector2d g(ef(t, 2 - e, 0) / a[0], ef(t, 2 - e, 1) / a[1]); g = R1 * g;
                    Eigen::Vector2d w = A * (A.transpose() * g) / (A.transpose() * g).norm(), x = B.col(i) + K * w;
                    if (!((M.col(i) - x).norm() < 1e-7 * (1 + x.norm()))) { FAIL("ellipse-support", "point %d is (%.12g,%.12g), expected (%.12g,%.12g)", i, M(0, i), M(1, i), x[0], x[1]); break; }
                }
                NT();
            });
        }
        {
            std::vector<double> a{U(0.2, 10), U(0.2, 10), U(0.2, 10)}, b{U(0.2, 10), U(0.2, 10), U(0.2, 10)}, p{U(-20, 20), U(-20, 20), U(-20, 20)}, e{I(0, 3) ? U(0.2, 1.8) : 1, I(0, 3) ? U(0.2, 1.8) : 1}; int n = I(2, 12);
            Eigen::Quaterniond q(N(), N(), N(), N()), r(N(), N(), N(), N()); q.normalize(); r.normalize(); if (I(0, 5) == 0) r.setIdentity();
            hrm::SuperQuadrics s(a, e, p, q, n), o(b, {1, 1}, {U(-3, 3), 1, 2}, r, I(2, 8));
            CASES("minkowski3D a=" + S(a) + " eps=" + S(e) + " quat=" + S({q.w(), q.x(), q.y(), q.z()}) + " num=" + std::to_string(n) + " ellipsoid=" + S(b) + " quat=" + S({r.w(), r.x(), r.y(), r.z()}) + " K=" + std::to_string(K));
            guarded("quadric-exception", [&] {
                auto M = s.getMinkSum3D(o, K); auto B = s.getOriginShape();
                if (M.rows() != 3 || M.cols() != n * n) { FAIL("quadric-count", "%ld x %ld", (long)M.rows(), (long)M.cols()); return; }
                Eigen::Matrix3d R1 = q.toRotationMatrix(), A = r.toRotationMatrix() * Eigen::Vector3d(b[0], b[1], b[2]).asDiagonal();
                for (int k = 0; k < n * n; ++k) {
                    const double HP = 3.1415926 / 2 + 1e-6, PP = 3.1415926 + 1e-6; int i = k % n, j = k / n;
                    double et = -HP + 2 * HP * j / (n - 1.0), om = -PP + 2 * PP * i / (n - 1.0);
                    Eigen::Vector3d g(ef(et, 2 - e[0], 0) * ef(om, 2 - e[1], 0) / a[0], ef(et, 2 - e[0], 0) * ef(om, 2 - e[1], 1) / a[1], ef(et, 2 - e[0], 1) / a[2]); g = R1 * g;
                    Eigen::Vector3d w = A * (A.transpose() * g) / (A.transpose() * g).norm(), x = B.col(k) + K * w;
                    if (!((M.col(k) - x).norm() < 1e-6 * (1 + x.norm()))) { FAIL("quadric-support", "point %d is (%.12g,%.12g,%.12g), expected (%.12g,%.12g,%.12g)", k, M(0, k), M(1, k), M(2, k), x[0], x[1], x[2]); break; }
                }
                NT();
            });
        }
    }
}
