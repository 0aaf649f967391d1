#include "common.h"
#include "hrm/util/EllipsoidSeparation.h"
using namespace hrm;
// eigenvalues of A^-1 B' are the roots of det(lambda A - B'); 1: two distinct negative real ones, 0: not, -1: too close to call
template <int N> static int verdict(const Eigen::Matrix<double, N, N> &A, const Eigen::Matrix<double, N, N> &B, const Eigen::Matrix<double, N, N> &Ta, const Eigen::Matrix<double, N, N> &Tb, std::string *out) {
    Eigen::Matrix<double, N, N> X = Tb.fullPivLu().solve(Ta), M = A.inverse() * X.transpose() * B * X; Eigen::VectorXcd e = M.eigenvalues();
    std::vector<double> neg; bool close = false;
    for (int i = 0; i < N; ++i) {
        *out += "(" + S(e[i].real()) + "," + S(e[i].imag()) + ")"; double im = std::fabs(e[i].imag());
        if (std::fabs(e[i].real()) < 1e-3 && im < 1e-2) close = true;
        if (e[i].real() < 0) { if (im > 1e-12 && im < 1e-2 * (1 + std::abs(e[i]))) close = true; if (im <= 1e-12) neg.push_back(e[i].real()); }
    }
    if (neg.size() >= 2) for (size_t i = 0; i < neg.size(); ++i) for (size_t j = 0; j < i; ++j) if (std::fabs(neg[i] - neg[j]) < 1e-2 * (1 + std::fabs(neg[i]))) close = true;
    double big = 0, small = 1e300; for (int i = 0; i < N; ++i) big = std::max(big, std::abs(e[i])), small = std::min(small, std::abs(e[i]));
    if (big / small > 1e5) close = true;
    return close ? -1 : neg.size() == 2;
}
static Eigen::Quaterniond rq() { Eigen::Quaterniond q(N(), N(), N(), N()); if (I(0, 5) == 0) q.setIdentity(); q.normalize(); return q; }
void run_oracle(double secs) {
    Clock c; c.lim = secs;
    while (c.left() && cases() < 60000) {
        double m = I(0, 2) ? 4 : 12;
        if (cases() % 3 == 0) {   // ellipsoids
            auto ax = [] { std::vector<double> a; for (int i = 0; i < 3; ++i) a.push_back(U(0.4, 4)); return a; }; auto a = ax(), b = ax();
            auto ps = [&] { return std::vector<double>{G(m), G(m), G(m)}; }; auto pa = ps(), pb = ps(); if (I(0, 5) == 0) pb = pa;
            Eigen::Quaterniond qa = rq(), qb = rq(); auto sq = [](const Eigen::Quaterniond &q) { return S(std::vector<double>{q.w(), q.x(), q.y(), q.z()}); };
            CASES("ellipsoids a=" + S(a) + " at " + S(pa) + " q=" + sq(qa) + " b=" + S(b) + " at " + S(pb) + " q=" + sq(qb));
            guarded("ellipsoid-exception", [&] {
                std::vector<double> e{1, 1}; SuperQuadrics A(a, e, pa, qa, 5), B_(b, e, pb, qb, 5);
                bool r = isEllipsoidSeparated(A, B_); Eigen::Matrix4d MA = Eigen::Matrix4d::Zero(), MB = MA, Ta = Eigen::Matrix4d::Identity(), Tb = Ta;
                for (int i = 0; i < 3; ++i) MA(i, i) = 1 / (a[i] * a[i]), MB(i, i) = 1 / (b[i] * b[i]), Ta(i, 3) = pa[i], Tb(i, 3) = pb[i];
                MA(3, 3) = MB(3, 3) = -1; Ta.topLeftCorner(3, 3) = qa.toRotationMatrix(); Tb.topLeftCorner(3, 3) = qb.toRotationMatrix();
                std::string s; int v = verdict<4>(MA, MB, Ta, Tb, &s); if (v >= 0) NT();
                if (v >= 0 && v != r) FAIL("ellipsoid-verdict", "answers %d, roots %s", r, s.c_str());
                double d = 0; for (int i = 0; i < 3; ++i) d += (pa[i] - pb[i]) * (pa[i] - pb[i]); d = std::sqrt(d);
                if (d > 1.1 * (*std::max_element(a.begin(), a.end()) + *std::max_element(b.begin(), b.end())) && v != -1 && !r) FAIL("ellipsoid-apart", "clearly disjoint ellipsoids are not reported separated, roots %s", s.c_str());
                if (d < 0.9 * std::max(*std::min_element(a.begin(), a.end()), *std::min_element(b.begin(), b.end())) && v != -1 && r) FAIL("ellipsoid-overlap", "clearly overlapping ellipsoids are reported separated, roots %s", s.c_str());
            });
        } else if (cases() % 3 == 1) {   // ellipses
            std::vector<double> a{U(0.4, 4), U(0.4, 4)}, b{U(0.4, 4), U(0.4, 4)}, pa{G(m), G(m)}, pb{G(m), G(m)}; if (I(0, 5) == 0) pb = pa;
            double ta = I(0, 3) ? U(-4, 4) : 0, tb = I(0, 3) ? U(-4, 4) : 0;
            CASES("ellipses a=" + S(a) + " at " + S(pa) + " angle " + S(ta) + " b=" + S(b) + " at " + S(pb) + " angle " + S(tb));
            guarded("ellipse-exception", [&] {
                SuperEllipse A(a, 1.0, pa, ta, 5), B_(b, 1.0, pb, tb, 5); bool r = isEllipseSeparated(A, B_);
                Eigen::Matrix3d MA = Eigen::Matrix3d::Zero(), MB = MA, Ta = Eigen::Matrix3d::Identity(), Tb = Ta;
                for (int i = 0; i < 2; ++i) MA(i, i) = 1 / (a[i] * a[i]), MB(i, i) = 1 / (b[i] * b[i]), Ta(i, 2) = pa[i], Tb(i, 2) = pb[i];
                MA(2, 2) = MB(2, 2) = -1; Ta.topLeftCorner(2, 2) << cos(ta), -sin(ta), sin(ta), cos(ta); Tb.topLeftCorner(2, 2) << cos(tb), -sin(tb), sin(tb), cos(tb);
                std::string s; int v = verdict<3>(MA, MB, Ta, Tb, &s); if (v >= 0) NT();
                if (v >= 0 && v != r) FAIL("ellipse-verdict", "answers %d, roots %s", r, s.c_str());
                double d = std::hypot(pa[0] - pb[0], pa[1] - pb[1]);
                if (d > 1.1 * (std::max(a[0], a[1]) + std::max(b[0], b[1])) && v != -1 && !r) FAIL("ellipse-apart", "clearly disjoint ellipses are not reported separated, roots %s", s.c_str());
                if (d < 0.9 * std::max(std::min(a[0], a[1]), std::min(b[0], b[1])) && v != -1 && r) FAIL("ellipse-overlap", "clearly overlapping ellipses are reported separated, roots %s", s.c_str());
            });
        } else {   // root finder
            int n = I(1, 6); std::vector<double> k(n + 1); for (auto &x : k) x = I(0, 5) ? G(5) : 0; while (std::fabs(k[0]) < 0.3) k[0] = G(5);
            CASES("polynomial " + S(k));
            guarded("roots-exception", [&] {
                auto r = getRootsPolynomial(k); if ((int)r.size() != n) { FAIL("roots-count", "%zu roots for degree %d", r.size(), n); return; }
                std::vector<std::complex<double>> p{k[0]}; for (auto z : r) { p.push_back(0); for (size_t i = p.size() - 1; i > 0; --i) p[i] -= z * p[i - 1]; }
                double mx = 0; for (double x : k) mx = std::max(mx, std::fabs(x));
                for (int i = 0; i <= n; ++i) if (!(std::abs(p[i] - k[i]) < 1e-6 * (1 + mx) * (1 + mx / std::fabs(k[0])))) { FAIL("roots-wrong", "coefficient %d of the product of the roots is %g%+gi", i, p[i].real(), p[i].imag()); break; }
                NT();
            });
        }
    }
}
