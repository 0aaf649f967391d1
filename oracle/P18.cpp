#include "plan.h"
#include "hrm/planners/HRM3DAblation.h"
// multi-slice transitions recomputed step by step on the real planners
static int inPoly(const BoundaryPoints &P, double x, double y) {          // 1 strictly between the extreme crossings, -1 not, 0 too close to call
    double lo = 1e300, hi = -1e300; size_t n = P.cols();
    for (size_t i = 0; i < n; ++i) { auto a = P.col(i), b = P.col((i + 1) % n); if (std::fabs(a[1] - y) < 1e-7) return 0; if ((a[1] < y) != (b[1] < y)) { double t = a[0] + (y - a[1]) / (b[1] - a[1]) * (b[0] - a[0]); lo = std::min(lo, t); hi = std::max(hi, t); } }
    if (lo > hi) return -1; if (std::fabs(x - lo) < 1e-6 || std::fabs(x - hi) < 1e-6) return 0; return lo < x && x < hi ? 1 : -1;
}
static int inMesh(const MeshMatrix &M, const V1 &p) {
    double lo = 1e300, hi = -1e300;
    for (int k = 0; k < M.faces.rows(); ++k) {
        Eigen::Vector3d q[3]; for (int j = 0; j < 3; ++j) q[j] = M.vertices.col((int)M.faces(k, j)); double w[3], s = 0;
        for (int j = 0; j < 3; ++j) { auto &a = q[(j + 1) % 3], &b = q[(j + 2) % 3]; w[j] = (a[0] - p[0]) * (b[1] - p[1]) - (a[1] - p[1]) * (b[0] - p[0]); s += w[j]; }
        double m = std::min({w[0], w[1], w[2]}), n = std::max({w[0], w[1], w[2]}); if (m < -1e-9 && n > 1e-9) continue;
        if (std::fabs(s) < 1e-6 || std::min({std::fabs(w[0]), std::fabs(w[1]), std::fabs(w[2])}) < 1e-9) return 0;
        double z = (w[0] * q[0][2] + w[1] * q[1][2] + w[2] * q[2][2]) / s; lo = std::min(lo, z); hi = std::max(hi, z);
    }
    if (lo > hi) return -1; if (std::fabs(p[2] - lo) < 1e-6 || std::fabs(p[2] - hi) < 1e-6) return 0; return lo < p[2] && p[2] < hi ? 1 : -1;
}
static bool same(const Eigen::MatrixXd &x, const Eigen::MatrixXd &y) { return x.rows() == y.rows() && x.cols() == y.cols() && (x - y).norm() <= 1e-8 * (1 + x.norm()); }
static V2 path3(const V1 &a, const V1 &b, int n) {
    Eigen::Quaterniond p(a[3], a[4], a[5], a[6]), q(b[3], b[4], b[5], b[6]); V2 r;
    for (int i = 0; i <= n; ++i) { double t = double(i) / n; V1 v(a.size()); for (size_t k = 0; k < a.size(); ++k) v[k] = (1 - t) * a[k] + t * b[k]; auto s = p.slerp(t, q); v[3] = s.w(); v[4] = s.x(); v[5] = s.y(); v[6] = s.z(); r.push_back(v); }
    return r;
}
static void verdict(const std::string &nm, int worst, bool r) {           // worst: 1 some body inside, -1 all outside
    if (worst == 1 && r) FAIL(nm + "-approved-inside", "a transition with a body inside a boundary is approved");
    if (worst == -1 && !r) FAIL(nm + "-refused-free", "a transition with every body outside every boundary is refused");
    if (worst == 1) NT();
}
static void t2() {
    World2 w = world2(3); for (auto &o : w.obs) if (I(0, 2) == 0) o = e2(0.4, 3, 8, false); HRM2D p(w.robot, w.arena, w.obs, w.req); double h1 = U(-3, 3), h2 = U(-3, 3); std::vector<SuperEllipse> tfe; p.tfe_.clear();
    p.computeTFE(h1, h2, p.tfe_); p.bridgeSlice(); std::string d = w.d + " headings " + S(h1) + "," + S(h2); CASES(d);
    if (p.bridgeSliceBound_.size() != p.tfe_.size() || p.tfe_.size() != w.robot.getNumLinks() + 1) { FAIL("2D-slices", "%zu bridge slices for %zu bodies", p.bridgeSliceBound_.size(), (size_t)w.robot.getNumLinks() + 1); return; }
    for (size_t i = 0; i < p.tfe_.size(); ++i) { auto &B = p.bridgeSliceBound_[i].obstacle; if (B.size() != w.obs.size()) { FAIL("2D-boundaries", "%zu boundaries for %zu obstacles", B.size(), w.obs.size()); return; }
        for (size_t j = 0; j < B.size(); ++j) if (!same(B[j], w.obs[j].getMinkSum2D(p.tfe_[i], 1))) { FAIL("2D-boundary", "boundary of body %zu, obstacle %zu differs", i, j); return; } }
    for (int rep = 0; rep < 30; ++rep) {
        V1 a = {U(-15, 15), U(-10, 10), I(0, 2) ? h1 : U(-3, 3)}, b = {I(0, 3) ? a[0] + G(3) : U(-15, 15), I(0, 3) ? a[1] + G(3) : U(-10, 10), I(0, 2) ? h2 : U(-3, 3)};
        int n = I(0, 2) ? p.param_.numPoint : (p.param_.numPoint = I(2, 9)); CASES(d + " points " + std::to_string(n) + " from " + S(a) + " to " + S(b)); int worst = -1;
        for (int s = 0; s < n && worst != 1; ++s) {
            double t = double(s) / (n - 1); MultiBodyTree2D r = w.robot; double th = (1 - t) * a[2] + t * b[2]; Eigen::Matrix3d g = Eigen::Matrix3d::Identity(); g.topLeftCorner(2, 2) = Eigen::Rotation2Dd(th).toRotationMatrix(); g(0, 2) = (1 - t) * a[0] + t * b[0]; g(1, 2) = (1 - t) * a[1] + t * b[1]; r.robotTF(g);
            for (size_t k = 0; k <= r.getNumLinks(); ++k) { auto x = k ? r.getLinks()[k - 1].getPosition() : r.getBase().getPosition(); for (auto &o : p.bridgeSliceBound_[k].obstacle) worst = std::max(worst, inPoly(o, x[0], x[1])); }
        }
        verdict("2D", worst, p.isMultiSliceTransitionFree(a, b));
        // one point against one body's bridge slice
        size_t k = I(0, p.tfe_.size() - 1); int in = -1; V1 x = {a[0], a[1]}; for (auto &o : p.bridgeSliceBound_[k].obstacle) in = std::max(in, inPoly(o, x[0], x[1])); bool f = p.isPtInCFree(k, x);
        if (in == 1 && f) FAIL("2D-point-inside", "a point inside a boundary of body %zu is accepted", k); if (in == -1 && !f) FAIL("2D-point-outside", "a point outside every boundary of body %zu is refused", k);
    }
}
template <class P, class Pl> static void t3(const std::string &nm, World3 &w, P &p, P &aux, Pl tfe, V1 c1, V1 c2) {
    tfe(p); p.bridgeSlice(); CASES(w.d + " between " + S(c1) + " and " + S(c2));
    if (p.bridgeSliceBound_.size() != p.tfe_.size() || p.tfe_.size() != w.robot.getNumLinks() + 1) { FAIL(nm + "-slices", "%zu bridge slices for %zu bodies", p.bridgeSliceBound_.size(), (size_t)w.robot.getNumLinks() + 1); return; }
    for (size_t i = 0; i < p.tfe_.size(); ++i) { auto &B = p.bridgeSliceBound_[i]; if (B.size() != w.obs.size()) { FAIL(nm + "-boundaries", "%zu boundaries for %zu obstacles", B.size(), w.obs.size()); return; }
        for (size_t j = 0; j < B.size(); ++j) { auto m = getMeshFromParamSurface(w.obs[j].getMinkSum3D(p.tfe_[i], 1), w.obs[j].getNumParam()); if (!same(B[j].vertices, m.vertices) || !same(B[j].faces.template cast<double>(), m.faces.template cast<double>())) { FAIL(nm + "-boundary", "boundary of body %zu, obstacle %zu differs: %s vs %s, %ldx%ld vs %ldx%ld; body %s", i, j, S(B[j].vertices.norm()).c_str(), S(m.vertices.norm()).c_str(), B[j].vertices.cols(), B[j].faces.rows(), m.vertices.cols(), m.faces.rows(), desc(p.tfe_[i]).c_str()); return; } } }
    for (int rep = 0; rep < 20; ++rep) {
        V1 a = c1, b = c2; double l[3] = {13, 10, 8}; for (int k = 0; k < 3; ++k) { a[k] = U(-l[k], l[k]); b[k] = I(0, 3) ? a[k] + G(3) : U(-l[k], l[k]); }
        int n = I(0, 2) ? p.param_.numPoint : (p.param_.numPoint = I(2, 8)), worst = -1; CASES(w.d + " points " + std::to_string(n) + " from " + S(a) + " to " + S(b));
        for (auto &v : path3(a, b, n)) { if (worst == 1) break; aux.setTransform(v); auto &r = aux.robot_; for (size_t k = 0; k <= r.getNumLinks(); ++k) for (auto &o : p.bridgeSliceBound_[k]) worst = std::max(worst, inMesh(o, k ? r.getLinks()[k - 1].getPosition() : r.getBase().getPosition())); }
        verdict(nm, worst, p.isMultiSliceTransitionFree(a, b));
        size_t k = I(0, p.tfe_.size() - 1); int in = -1; V1 x = {a[0], a[1], a[2]}; for (auto &o : p.bridgeSliceBound_[k]) in = std::max(in, inMesh(o, x)); bool f = p.isPtInCFree(k, x);
        if (in == 1 && f) FAIL(nm + "-point-inside", "a point inside a boundary of body %zu is accepted", k); if (in == -1 && !f) FAIL(nm + "-point-outside", "a point outside every boundary of body %zu is refused", k);
    }
}
static void r3() { World3 w = world3(3, 5); HRM3D p(w.robot, w.arena, w.obs, w.req), x(w.robot, w.arena, w.obs, w.req); auto q1 = rq(), q2 = rq(); t3("3D", w, p, x, [&](HRM3D &h) { h.computeTFE(q1, q2, h.tfe_); }, vq(q1), vq(q2)); }
static void rA() {
    World3 w = worldA(2, 5); ProbHRM3D p(w.robot, "x", w.arena, w.obs, w.req), x(w.robot, "x", w.arena, w.obs, w.req); auto q1 = rq(), q2 = rq(); V1 a = vq(q1), b = vq(q2); for (size_t j = 0; j < w.robot.getNumLinks(); ++j) { a.push_back(U(-1.5, 1.5)); b.push_back(U(-1.5, 1.5)); }
    t3("articulated", w, p, x, [&](ProbHRM3D &h) { h.computeTFE(a, b, h.tfe_); }, a, b);
}
static fcl::CollisionObjectd object(const SuperQuadrics &s) {
    auto e = s.getEpsilon(), a = s.getSemiAxis(); return std::fabs(e[0] - 1) < 1e-6 && std::fabs(e[1] - 1) < 1e-6 ? fcl::CollisionObjectd(std::make_shared<fcl::Ellipsoidd>(a[0], a[1], a[2])) : setCollisionObjectFromSQ(s); }
template <class A, class X> static void ab(const std::string &nm, World3 &w, A &p, X &aux, V1 c1, V1 c2) {
    std::vector<fcl::CollisionObjectd> ro{object(w.robot.getBase())}, oo; for (auto &l : w.robot.getLinks()) ro.push_back(object(l)); for (auto &o : w.obs) oo.push_back(object(o));
    for (int rep = 0; rep < 8; ++rep) {
        V1 a = c1, b = c2; double l[3] = {13, 10, 8}; for (int k = 0; k < 3; ++k) { a[k] = U(-l[k], l[k]); b[k] = I(0, 3) ? a[k] + G(3) : U(-l[k], l[k]); }
        int n = p.param_.numPoint = I(2, 5); CASES(w.d + " ablation points " + std::to_string(n) + " from " + S(a) + " to " + S(b)); bool hit = false;
        for (auto &v : path3(a, b, n)) { if (hit) break; aux.setTransform(v); auto &r = aux.robot_; for (size_t k = 0; k <= r.getNumLinks(); ++k) for (size_t j = 0; j < oo.size(); ++j) hit = hit || isCollision(k ? r.getLinks()[k - 1] : r.getBase(), ro[k], w.obs[j], oo[j]); }
        bool f = p.isMultiSliceTransitionFree(a, b);
        if (hit && f) { FAIL(nm + "-approved-contact", "a transition with a body in contact with an obstacle is approved"); return; } if (!hit && !f) { FAIL(nm + "-refused-free", "a transition without contact is refused"); return; } if (hit) NT();
    }
}
static void a3() { World3 w = world3(3, 5); HRM3DAblation<HRM3D> p(w.robot, w.arena, w.obs, w.req); HRM3D x(w.robot, w.arena, w.obs, w.req); ab("ablation3D", w, p, x, vq(rq()), vq(rq())); }
static void aA() {
    World3 w = worldA(2, 5); HRM3DAblation<ProbHRM3D> p(w.robot, "x", w.arena, w.obs, w.req); ProbHRM3D x(w.robot, "x", w.arena, w.obs, w.req); V1 a = vq(rq()), b = vq(rq()); for (size_t j = 0; j < w.robot.getNumLinks(); ++j) { a.push_back(U(-1.5, 1.5)); b.push_back(U(-1.5, 1.5)); }
    ab("ablationArticulated", w, p, x, a, b);
}
void run_oracle(double secs) {
    orc::Clock c; c.lim = secs;
    while (c.left() && cases() < 200000) { for (int i = 0; i < 6; ++i) guarded("2D-exception", t2); guarded("3D-exception", r3); guarded("articulated-exception", rA); guarded("ablation-exception", a3); guarded("ablation-exception", aA); }
}
