#include "plan.h"
static FreeSegment2D seg(int nl) { FreeSegment2D s; for (int i = 0; i < nl; ++i) { s.ty.push_back(U(-20, 20)); V1 l, u, m; for (int j = I(0, 3); j > 0; --j) { double a = U(-10, 10), b = a + U(0, 5); l.push_back(a); u.push_back(b); m.push_back(I(0, 3) ? (a + b) / 2 : U(a, b)); } s.xL.push_back(l); s.xU.push_back(u); s.xM.push_back(m); } return s; }
static std::string S2(const FreeSegment2D &s) { std::string d = " ty=" + S(s.ty); for (auto &m : s.xM) d += " xM=" + S(m); return d; }
// vertices of one plane of sweep lines, appended at v0; returns one past the last of them, or -1
static long plane(const std::string &nm, const V2 &vtx, size_t v0, const std::vector<Index> &pl, const FreeSegment2D &s, const std::function<V1(double, double)> &mk) {
    if (pl.size() != s.ty.size()) { FAIL(nm + "-lines", "%zu line indices for %zu lines", pl.size(), s.ty.size()); return -1; }
    size_t k = v0;
    for (size_t i = 0; i < s.ty.size(); ++i) {
        if (pl[i] != k) { FAIL(nm + "-index", "line %zu starts at vertex %zu, recorded %zu", i, k, (size_t)pl[i]); return -1; }
        for (double m : s.xM[i]) { if (k >= vtx.size()) { FAIL(nm + "-count", "only %zu vertices", vtx.size()); return -1; } V1 e = mk(s.ty[i], m); const V1 &v = vtx[k];
            bool same = v.size() == e.size(); for (size_t c = 0; same && c < e.size(); ++c) same = near(v[c], e[c], 1e-9);
            if (!same) { FAIL(nm + "-vertex", "vertex %zu is %s, expected %s", k, S(v).c_str(), S(e).c_str()); return -1; } ++k; }
    }
    return (long)k;
}
static bool spacing(const std::string &nm, const V1 &t, size_t n, double lo, double hi) {
    if (t.size() != n) { FAIL(nm + "-lines", "%zu sweep lines, requested %zu", t.size(), n); return false; }
    for (size_t i = 0; i < n; ++i) { double e = n > 1 ? lo + (hi - lo) * i / (n - 1.0) : t[0]; if (!std::isfinite(t[i]) || t[i] < lo - 1e-9 || t[i] > hi + 1e-9 || !near(t[i], e, 1e-9)) { FAIL(nm + "-spacing", "sweep line %zu at %g, expected %g", i, t[i], e); return false; } }
    return true;
}
template <class P> static bool ranges(const std::string &nm, P &p) {
    size_t prev = 0; for (size_t i = 0; i < p.vertexIdx_.size(); ++i) { auto &x = p.vertexIdx_[i];
        if (x.startId != prev || x.slice < x.startId || x.slice > p.res_.graphStructure.vertex.size()) { FAIL(nm + "-slice-range", "slice %zu records [%zu, %zu), expected to start at %zu", i, (size_t)x.startId, (size_t)x.slice, prev); return false; } prev = x.slice; }
    if (p.vertexIdx_.size() != p.param_.numSlice || prev != p.res_.graphStructure.vertex.size()) { FAIL(nm + "-slices", "%zu slice records ending at %zu, %zu vertices", p.vertexIdx_.size(), prev, p.res_.graphStructure.vertex.size()); return false; }
    return true;
}
static void gen2() {
    World2 w = world2(1); HRM2D p(w.robot, w.arena, w.obs, w.req); double th = U(-3, 3); int pre = I(0, 4); auto s = seg(I(0, 4));
    CASES("2D vertices " + w.d + " heading=" + S(th) + S2(s) + " before=" + std::to_string(pre));
    for (int i = 0; i < pre; ++i) p.res_.graphStructure.vertex.push_back({U(-1, 1), U(-1, 1), U(-1, 1)});
    auto before = p.res_.graphStructure.vertex; if (I(0, 1)) { p.numVertex_.line.push_back({7}); p.numVertex_.plane = {3, 4}; }
    p.setTransform({U(-1, 1), U(-1, 1), th}); p.generateVertices(0.0, s); auto &V = p.res_.graphStructure.vertex;
    long k = plane("2D", V, pre, p.numVertex_.plane, s, [&](double y, double x) { return V1{x, y, p.robot_.getBase().getAngle()}; });
    if (k < 0) return; if ((size_t)k != V.size()) { FAIL("2D-count", "%zu vertices, expected %ld", V.size(), k); return; }
    if (!std::equal(before.begin(), before.end(), V.begin())) FAIL("2D-kept", "earlier vertices changed");
    if (p.numVertex_.startId != (size_t)pre) FAIL("2D-start", "slice starts at %zu, expected %d", (size_t)p.numVertex_.startId, pre);
    if (p.numVertex_.line != std::vector<std::vector<Index>>{p.numVertex_.plane}) FAIL("2D-line", "line indices differ from the plane's");
    if (!near(p.robot_.getBase().getAngle(), th)) FAIL("2D-heading", "robot at heading %g", p.robot_.getBase().getAngle());
    if (k > pre) NT();
}
template <class P> static void gen3(const std::string &nm, P &p, const V1 &cfg, const std::string &d) {
    int pre = I(0, 4); auto s = seg(I(0, 4)); double tx = U(-5, 5); CASES(nm + " vertices " + d + " configuration=" + S(cfg) + " tx=" + S(tx) + S2(s) + " before=" + std::to_string(pre));
    for (int i = 0; i < pre; ++i) p.res_.graphStructure.vertex.push_back(V1(cfg.size(), U(-1, 1)));
    auto before = p.res_.graphStructure.vertex; std::vector<std::vector<Index>> lines; if (I(0, 1)) lines = {{7}}; p.numVertex_.line = lines; p.numVertex_.plane = {3, 4};
    p.setTransform(cfg); p.generateVertices(tx, s); auto &V = p.res_.graphStructure.vertex; auto q = p.robot_.getBase().getQuaternion();
    long k = plane(nm, V, pre, p.numVertex_.plane, s, [&](double y, double z) { V1 e{tx, y, z, q.w(), q.x(), q.y(), q.z()}; for (size_t i = 7; i < cfg.size(); ++i) e.push_back(cfg[i]); return e; });
    if (k < 0) return; if ((size_t)k != V.size()) { FAIL(nm + "-count", "%zu vertices, expected %ld", V.size(), k); return; }
    if (!std::equal(before.begin(), before.end(), V.begin())) FAIL(nm + "-kept", "earlier vertices changed");
    lines.push_back(p.numVertex_.plane); if (p.numVertex_.line != lines) FAIL(nm + "-line", "line indices are not appended");
    if (!(q.angularDistance(Eigen::Quaterniond(cfg[3], cfg[4], cfg[5], cfg[6])) < 1e-6)) FAIL(nm + "-orientation", "robot not at the requested orientation");
    if (k > pre) NT();
}
static void road2() {
    World2 w = world2(3); if (I(0, 5) == 0) w.req.parameters.numLineY = 1; CASES("2D roadmap " + w.d); HRM2D p(w.robot, w.arena, w.obs, w.req); auto &b = p.param_.boundaryLimits; p.sampleOrientations(); size_t n0 = p.headings_.size();
    for (size_t i = 0; i < n0; ++i) { size_t v0 = p.res_.graphStructure.vertex.size(); p.constructOneSlice(i);
        if (!spacing("2D", p.freeSegOneSlice_.ty, p.param_.numLineY, b[2], b[3])) return;
        if (plane("2D", p.res_.graphStructure.vertex, v0, p.numVertex_.plane, p.freeSegOneSlice_, [&](double y, double x) { return V1{x, y, p.headings_[i]}; }) < 0) return; }
    HRM2D r(w.robot, w.arena, w.obs, w.req); r.buildRoadmap(); if (!ranges("2D", r)) return;
    if (r.res_.graphStructure.vertex.size() > 1) NT();
}
static void road3() {
    World3 w = world3(2, 5); if (I(0, 5) == 0) w.req.parameters.numLineY = 1; if (I(0, 5) == 0) w.req.parameters.numLineX = 1; CASES("3D roadmap " + w.d); HRM3D p(w.robot, w.arena, w.obs, w.req); auto &b = p.param_.boundaryLimits; p.sampleOrientations(); size_t n0 = p.q_.size();
    for (size_t i = 0; i < n0; ++i) { size_t v0 = p.res_.graphStructure.vertex.size(); p.constructOneSlice(i); auto &F = p.freeSegOneSlice_;
        if (!spacing("3D-x", F.tx, p.param_.numLineX, b[0], b[1])) return;
        if (F.freeSegmentYZ.size() != F.tx.size() || p.numVertex_.line.size() != F.tx.size()) { FAIL("3D-planes", "%zu planes, %zu line records for %zu coordinates", F.freeSegmentYZ.size(), p.numVertex_.line.size(), F.tx.size()); return; }
        if (p.numVertex_.startId != v0) { FAIL("3D-start", "slice starts at %zu, recorded %zu", v0, (size_t)p.numVertex_.startId); return; }
        for (size_t k = 0; k < F.tx.size(); ++k) {
            if (!spacing("3D-y", F.freeSegmentYZ[k].ty, p.param_.numLineY, b[2], b[3])) return; auto &pl = p.numVertex_.line[k]; if (pl.empty()) { FAIL("3D-lines", "no line indices"); return; }
            auto q = p.q_[i]; auto Q = p.robot_.getBase().getQuaternion(); if (Q.dot(q) < 0) q.coeffs() *= -1;
            if (plane("3D", p.res_.graphStructure.vertex, pl[0], pl, F.freeSegmentYZ[k], [&](double y, double z) { return V1{F.tx[k], y, z, q.w(), q.x(), q.y(), q.z()}; }) < 0) return; } }
    HRM3D r(w.robot, w.arena, w.obs, w.req); r.buildRoadmap(); if (!ranges("3D", r)) return; if (r.res_.graphStructure.vertex.size() > 1) NT();
}
void run_oracle(double secs) {
    orc::Clock c; c.lim = secs;
    while (c.left() && cases() < 60000) {
        guarded("2D-exception", gen2);
        guarded("3D-exception", [] { World3 w = world3(1, 4); HRM3D p(w.robot, w.arena, w.obs, w.req); gen3("3D", p, vq(rq(), {U(-1, 1), U(-1, 1), U(-1, 1)}), w.d); });
        guarded("articulated-exception", [] { World3 w = worldA(1, 4); ProbHRM3D p(w.robot, "x", w.arena, w.obs, w.req); gen3("articulated", p, w.req.start, w.d); });
        if (cases() % 15 == 0) { guarded("2D-exception", road2); guarded("3D-exception", road3); }
    }
}
