#include "common.h"
#include "hrm/util/InterpolateSE3.h"
using namespace hrm;
static std::vector<double> conf(int m) {
    std::vector<double> v(m); for (auto &x : v) x = G(20);
    Eigen::Quaterniond q(N(), N(), N(), N()); if (I(0, 5) == 0) q.setIdentity(); q.normalize(); v[3] = q.w(); v[4] = q.x(); v[5] = q.y(); v[6] = q.z(); return v;
}
static double qd(const Eigen::Vector4d &a, const Eigen::Vector4d &b) { return std::min((a - b).norm(), (a + b).norm()); }
static Eigen::Vector4d v4(const std::vector<double> &v) { return {v[3], v[4], v[5], v[6]}; }
static void check(const std::string &k, const std::vector<std::vector<double>> &r, const std::vector<double> &a, const std::vector<double> &b, size_t n, bool quat) {
    if (r.size() != n + 1) { FAIL(k + "-count", "%zu configurations for %zu steps", r.size(), n); return; }
    for (size_t i = 0; i <= n; ++i) {
        if (r[i].size() != a.size()) { FAIL(k + "-dimension", "configuration %zu has dimension %zu", i, r[i].size()); return; }
        double t = double(i) / n;
        for (size_t j = 0; j < a.size(); ++j) {
            if (!std::isfinite(r[i][j])) { FAIL(k + "-finite", "configuration %zu coordinate %zu is %g", i, j, r[i][j]); return; }
            if (quat && j >= 3 && j < 7) continue;
            if (!near(r[i][j], a[j] + (b[j] - a[j]) * t, 1e-9)) { FAIL(k + "-affine", "configuration %zu coordinate %zu is %.15g", i, j, r[i][j]); return; }
        }
        if (quat) { if (std::fabs(v4(r[i]).norm() - 1) > 1e-9) { FAIL(k + "-unit", "configuration %zu has a quaternion of norm %.12g", i, v4(r[i]).norm()); return; } }
    }
    if (quat && (qd(v4(r[0]), v4(a)) > 1e-9 || qd(v4(r[n]), v4(b)) > 1e-9)) FAIL(k + "-ends", "end orientations differ from the inputs");
}
static Eigen::Quaterniond Q(const std::vector<double> &v) { return {v[3], v[4], v[5], v[6]}; }
static Eigen::Vector4d c4(const Eigen::Quaterniond &q) { return {q.w(), q.x(), q.y(), q.z()}; }
void run_oracle(double secs) {
    Clock c; c.lim = secs;
    while (c.left() && cases() < 200000) {
        int m = I(0, 2) ? I(8, 13) : 7; size_t n = I(0, 4) ? I(0, 12) : 1; auto a = conf(m), b = I(0, 7) ? conf(m) : a; if (I(0, 9) == 0) for (int j = 3; j < 7; ++j) b[j] = -a[j];
        CASES("interpolate from=" + S(a) + " to=" + S(b) + " steps=" + std::to_string(n));
        guarded("exception", [&] {
            auto r = interpolateCompoundSE3Rn(a, b, n);
            if (n == 0) { if (r.size() != 2 || r[0] != a || r[1] != b) FAIL("compound-zero", "zero steps do not return the two inputs"); return; }
            check("compound", r, a, b, n, true);
            std::vector<double> p(a.begin() + I(0, 7), a.end()), q(b.begin() + (m - p.size()), b.end());
            check("rn", interpolateRn(p, q, n), p, q, n, false);
            std::vector<double> a7(a.begin(), a.begin() + 7), b7(b.begin(), b.begin() + 7);
            check("se3", interpolateSE3(a7, b7, n), a7, b7, n, true);
            for (int k = 0; k < 2; ++k) {
                auto s = k ? interpolateAngleAxis(Q(a), Q(b), n) : interpolateSlerp(Q(a), Q(b), n); std::string nm = k ? "angleaxis" : "slerp";
                if (s.size() != n + 1) { FAIL(nm + "-count", "%zu rotations", s.size()); continue; }
                for (auto &x : s) if (!(std::fabs(x.norm() - 1) < 1e-9)) { FAIL(nm + "-unit", "norm %.12g", x.norm()); break; }
                if (!(qd(c4(s[0]), v4(a)) < 1e-7) || !(qd(c4(s[n]), v4(b)) < 1e-7)) FAIL(nm + "-ends", "end rotations differ from the inputs");
            }
            NT();
        });
    }
}
