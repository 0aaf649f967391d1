#include "plan.h"
// 2D: margin of a crossing of segment p-q with edge a-b: > 0 clear crossing, < 0 clear miss, in between undecided
static int seg2(const double *p, const double *q, const double *a, const double *b) {
    auto c = [](double x, double y, double z, double w) { return x * w - y * z; };
    double l = std::hypot(q[0] - p[0], q[1] - p[1]), m = std::hypot(b[0] - a[0], b[1] - a[1]); if (l < 1e-9 || m < 1e-9) return m < 1e-9 ? -1 : 0;
    double a1 = c(q[0] - p[0], q[1] - p[1], a[0] - p[0], a[1] - p[1]) / l, a2 = c(q[0] - p[0], q[1] - p[1], b[0] - p[0], b[1] - p[1]) / l;
    double b1 = c(b[0] - a[0], b[1] - a[1], p[0] - a[0], p[1] - a[1]) / m, b2 = c(b[0] - a[0], b[1] - a[1], q[0] - a[0], q[1] - a[1]) / m; double e = 1e-7;
    if ((a1 > e && a2 > e) || (a1 < -e && a2 < -e) || (b1 > e && b2 > e) || (b1 < -e && b2 < -e)) return -1;
    if (((a1 > e && a2 < -e) || (a1 < -e && a2 > e)) && ((b1 > e && b2 < -e) || (b1 < -e && b2 > e)) && std::fabs(c(q[0] - p[0], q[1] - p[1], b[0] - a[0], b[1] - a[1])) > 1e-6 * l * m) return 1;
    return 0;
}
static int tri3(const Eigen::Vector3d &p, const Eigen::Vector3d &q, const Eigen::Vector3d &a, const Eigen::Vector3d &b, const Eigen::Vector3d &c) {
    Eigen::Vector3d n = (b - a).cross(c - a); double A = n.norm(); double e = 1e-6; Eigen::Vector3d d = q - p; double L = d.norm(); if (L < 1e-6) return 0; 
    for (int k = 0; k < 3; ++k) { double lo = std::min({a[k], b[k], c[k]}), hi = std::max({a[k], b[k], c[k]}); if (std::max(p[k], q[k]) < lo - e || std::min(p[k], q[k]) > hi + e) return -1; }
    if (A < 1e-12 * ((b - a).squaredNorm() + (c - a).squaredNorm() + 1e-30)) return -1; n /= A;
    double h0 = n.dot(p - a), h1 = n.dot(q - a); if ((h0 > e && h1 > e) || (h0 < -e && h1 < -e)) return -1;
    if (std::fabs(n.dot(d)) / L < 1e-7) return 0;
    double t = n.dot(a - p) / n.dot(d); if (t < -e || t > 1 + e) return -1; Eigen::Vector3d x = p + t * d; double w[3] = {n.dot((b - a).cross(x - a)) / A, n.dot((c - b).cross(x - b)) / A, n.dot((a - c).cross(x - c)) / A};
    double m = std::min({w[0], w[1], w[2]}); if (m < -e) return -1; if (m > e && t > e && t < 1 - e) return 1; return 0;
}
static void t2() {
    World2 w = world2(4); HRM2D p(w.robot, w.arena, w.obs, w.req); p.sampleOrientations(); int s = I(0, p.headings_.size() - 1); p.constructOneSlice(s);
    if (I(0, 3) == 0) { int n = I(0, 4); p.sliceBound_.obstacle.clear(); for (int i = 0; i < n; ++i) { BoundaryPoints b(2, I(1, 5)); for (int k = 0; k < b.cols(); ++k) { b(0, k) = G(8); b(1, k) = G(8); } p.sliceBound_.obstacle.push_back(b); } w.d = "2D polygons"; for (auto &b : p.sliceBound_.obstacle) { w.d += " ["; for (int k = 0; k < b.cols(); ++k) w.d += S(b(0, k)) + "," + S(b(1, k)) + " "; w.d += "]"; } }
    for (int r = 0; r < 40; ++r) {
        auto &V = p.res_.graphStructure.vertex; V1 a{U(-20, 20), U(-15, 15), p.headings_[s]}, b = a;
        if (!V.empty() && I(0, 1)) a = V[I(0, V.size() - 1)];
        if (!p.sliceBound_.obstacle.empty() && I(0, 1)) { auto &o = p.sliceBound_.obstacle[I(0, p.sliceBound_.obstacle.size() - 1)]; int k = I(0, o.cols() - 1), l = I(0, o.cols() - 1); double t = U(-.2, 1.2); b[0] = (1 - t) * o(0, k) + t * o(0, l); b[1] = (1 - t) * o(1, k) + t * o(1, l); double f = U(0.3, 2); b[0] = a[0] + f * (b[0] - a[0]); b[1] = a[1] + f * (b[1] - a[1]); }
        else { b[0] = I(0, 3) ? U(-20, 20) : a[0]; b[1] = I(0, 3) ? U(-15, 15) : a[1]; }
        CASES(w.d + " slice " + std::to_string(s) + " from " + S(a) + " to " + S(b));
        int hit = -1; for (auto &o : p.sliceBound_.obstacle) for (int k = 0; k < o.cols(); ++k) { double x[2] = {o(0, k), o(1, k)}, y[2] = {o(0, (k + 1) % o.cols()), o(1, (k + 1) % o.cols())}; hit = std::max(hit, seg2(a.data(), b.data(), x, y)); }
        bool f = p.isSameSliceTransitionFree(a, b);
        if (hit == 1 && f) { FAIL("2D-approved-crossing", "a motion crossing a boundary is approved"); return; }
        if (hit == -1 && !f && std::hypot(a[0] - b[0], a[1] - b[1]) > 1e-6) { FAIL("2D-refused-free", "a motion crossing no boundary is refused"); return; }
        if (hit == 1) NT();
    }
}
template <class PL> static void t3(PL &p, const World3 &w, int s, std::function<V1(V1)> fit) {
    for (int r = 0; r < 25; ++r) {
        auto &V = p.res_.graphStructure.vertex; V1 a = fit(vq(p.q_[s], {U(-15, 15), U(-12, 12), U(-8, 8)})), b;
        if (!V.empty() && I(0, 1)) a = V[I(0, V.size() - 1)]; b = a; auto &M = p.sliceBoundMesh_.obstacle;
        if (!M.empty() && I(0, 2)) { auto &o = M[I(0, M.size() - 1)]; int k = I(0, o.vertices.cols() - 1), l = I(0, o.vertices.cols() - 1); double t = U(-.2, 1.2), f = U(0.3, 2); for (int c = 0; c < 3; ++c) b[c] = a[c] + f * ((1 - t) * o.vertices(c, k) + t * o.vertices(c, l) - a[c]); if (I(0, 3) == 0) b[I(0, 2)] = a[I(0, 2)]; }
        else { b[0] = I(0, 3) ? U(-15, 15) : a[0]; b[1] = I(0, 3) ? U(-12, 12) : a[1]; b[2] = I(0, 3) ? U(-8, 8) : a[2]; }
        CASES(w.d + " slice " + std::to_string(s) + " from " + S(a) + " to " + S(b));
        Eigen::Vector3d x(a[0], a[1], a[2]), y(b[0], b[1], b[2]); if ((x - y).norm() < 1e-3) continue; int hit = -1;
        for (auto &o : M) for (int k = 0; k < o.faces.rows(); ++k) hit = std::max(hit, tri3(x, y, o.vertices.col(o.faces(k, 0)), o.vertices.col(o.faces(k, 1)), o.vertices.col(o.faces(k, 2))));
        bool f = p.isSameSliceTransitionFree(a, b);
        if (hit == 1 && f) { FAIL("3D-approved-crossing", "a motion crossing a boundary is approved"); return; }
        if (hit == -1 && !f) { FAIL("3D-refused-free", "a motion crossing no boundary is refused"); return; }
        if (hit == 1) NT();
    }
}
static void r3() { World3 w = world3(4, 5); HRM3D p(w.robot, w.arena, w.obs, w.req); p.sampleOrientations(); int s = I(0, p.q_.size() - 1); p.constructOneSlice(s); t3(p, w, s, [](V1 v) { return v; }); }
static void rA() { World3 w = worldA(2, 5); ProbHRM3D p(w.robot, "x", w.arena, w.obs, w.req); p.param_.numSlice = 0; int n = I(1, 2); for (int i = 0; i < n; ++i) { p.sampleOrientations(); p.constructOneSlice(i); p.param_.numSlice++; } auto c = p.v_.back(); t3(p, w, n - 1, [&](V1 v) { for (size_t k = 7; k < c.size(); ++k) v.push_back(c[k]); return v; }); }
void run_oracle(double secs) {
    orc::Clock c; c.lim = secs;
    while (c.left() && cases() < 200000) { guarded("2D-exception", t2); guarded("3D-exception", r3); if (I(0, 2) == 0) guarded("articulated-exception", rA); }
}
