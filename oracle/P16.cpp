#include "plan.h"
#include <set>
#include <map>
// a reported path against the definition: start, neighbour of start, edges, neighbour of goal, goal; cost = weights of the edges
static double dist(const V1 &a, const V1 &b) { double s = 0; for (size_t i = 0; i < std::min(a.size(), b.size()); ++i) s += (a[i] - b[i]) * (a[i] - b[i]); return std::sqrt(s); }
template <class P> static void check(const std::string &nm, P &p, const V1 &start, const V1 &goal, size_t pose) {
    auto &id = p.res_.solutionPath.PathId; auto &gs = p.res_.graphStructure;
    auto ns = p.getNearestNeighborsOnGraph(start, p.param_.numSearchNeighbor, p.param_.searchRadius), ng = p.getNearestNeighborsOnGraph(goal, p.param_.numSearchNeighbor, p.param_.searchRadius);
    std::map<std::pair<size_t, size_t>, std::pair<double, double>> W;
    for (size_t e = 0; e < gs.edge.size(); ++e) { auto k = std::minmax<size_t>(gs.edge[e].first, gs.edge[e].second); auto it = W.find(k); if (it == W.end()) W[k] = {gs.weight[e], gs.weight[e]}; else { it->second.first = std::min(it->second.first, gs.weight[e]); it->second.second = std::max(it->second.second, gs.weight[e]); } }
    if (!p.res_.solved) {
        // no solution reported: then no offered start neighbour reaches an offered goal neighbour
        if (!id.empty()) { FAIL(nm + "-unsolved-path", "%zu path vertices left behind without a solution", id.size()); return; }
        std::vector<size_t> c(gs.vertex.size()); for (size_t i = 0; i < c.size(); ++i) c[i] = i;
        auto find = [&](size_t x) { while (c[x] != x) x = c[x] = c[c[x]]; return x; };
        for (auto &w : W) c[find(w.first.first)] = find(w.first.second);
        for (auto a : ns) for (auto b : ng) if (find(a) == find(b)) { FAIL(nm + "-missed", "vertices %zu and %zu are connected but no path is reported", (size_t)a, (size_t)b); return; }
        return;
    }
    if (id.empty()) { FAIL(nm + "-solved-empty", "a solution is reported without path vertices"); return; }
    NT();
    for (auto v : id) if (v < 0 || size_t(v) >= gs.vertex.size()) { FAIL(nm + "-vertex", "path vertex %d of %zu", (int)v, gs.vertex.size()); return; }
    if (std::find(ns.begin(), ns.end(), size_t(id.front())) == ns.end()) { FAIL(nm + "-start-neighbour", "the path begins at vertex %d, which is not offered for the start", (int)id.front()); return; }
    if (std::find(ng.begin(), ng.end(), size_t(id.back())) == ng.end()) { FAIL(nm + "-goal-neighbour", "the path ends at vertex %d, which is not offered for the goal", (int)id.back()); return; }
    double lo = 0, hi = 0;
    for (size_t i = 0; i + 1 < id.size(); ++i) { auto it = W.find(std::minmax<size_t>(id[i], id[i + 1])); if (it == W.end()) { FAIL(nm + "-edge", "path vertices %d and %d are not joined", (int)id[i], (int)id[i + 1]); return; } lo += it->second.first; hi += it->second.second; }
    double c = p.res_.solutionPath.cost; if (!(c >= lo - 1e-9 - 1e-9 * lo && c <= hi + 1e-9 + 1e-9 * hi)) { FAIL(nm + "-cost", "reported cost %.12g, edges sum to %.12g", c, lo); return; }
    auto s = p.getSolutionPath(); auto cut = [&](V1 v) { v.resize(pose); return v; };
    if (s.size() != id.size() + 2) { FAIL(nm + "-length", "%zu poses for %zu vertices", s.size(), id.size()); return; }
    if (cut(s.front()) != cut(start)) { FAIL(nm + "-start", "path begins with %s, start %s", S(s.front()).c_str(), S(start).c_str()); return; }
    if (cut(s.back()) != cut(goal)) { FAIL(nm + "-goal", "path ends with %s, goal %s", S(s.back()).c_str(), S(goal).c_str()); return; }
    for (size_t i = 0; i < id.size(); ++i) if (s[i + 1] != gs.vertex[id[i]]) { FAIL(nm + "-pose", "pose %zu of the path is not roadmap vertex %d", i + 1, (int)id[i]); return; }
}
// random graph over the given vertices: weights at least the straight-line distance
template <class P> static std::string graph(P &p, const V2 &v) {
    auto &gs = p.res_.graphStructure; gs.vertex = v; std::string d = " vertices=" ; for (auto &x : v) d += S(x); d += " edges=";
    double dens = U(0, 3); int n = v.size(); bool eu = I(0, 1);
    auto add = [&](int a, int b, double w) { if (I(0, 1)) std::swap(a, b); gs.edge.push_back({a, b}); gs.weight.push_back(w); char t[80]; snprintf(t, 80, "(%d,%d,%.17g)", a, b, w); d += t; };
    if (n > 1) for (int i = int(dens * n); i > 0; --i) { int a = I(0, n - 1), b = I(0, n - 1); if (I(0, 1)) b = std::min(a + 1, n - 1); if (a == b) continue; double w = dist(v[a], v[b]) * (eu ? 1 : U(1, 3)); add(a, b, w); if (!I(0, 9)) add(a, b, w); }
    return d;
}
static void g2() {
    World2 w = world2(0); int n = I(1, 6); V2 vs; V1 hs; for (int i = 0; i < n; ++i) hs.push_back(-3 + 6.0 * i / n);
    for (int i = I(1, 14); i > 0; --i) vs.push_back({U(-5, 5), U(-5, 5), hs[I(0, n - 1)]});
    w.req.start = {U(-5, 5), U(-5, 5), U(-3, 3)}; w.req.goal = {U(-5, 5), U(-5, 5), U(-3, 3)}; if (!I(0, 3)) w.req.goal = w.req.start; if (!I(0, 3)) w.req.start = I(0, 1) ? vs.front() : vs.back();
    w.req.parameters.numSearchNeighbor = I(1, 4); w.req.parameters.searchRadius = U(0, 4);
    HRM2D p(w.robot, w.arena, w.obs, w.req); p.headings_ = hs; std::string d = "2D headings=" + S(hs) + graph(p, vs);
    CASES(d + " start=" + S(w.req.start) + " goal=" + S(w.req.goal) + " neighbours=" + std::to_string(w.req.parameters.numSearchNeighbor) + " radius=" + S(w.req.parameters.searchRadius));
    p.search(); check("graph2D", p, w.req.start, w.req.goal, 3);
}
static void g3() {
    World3 w = world3(0, 3); int n = I(1, 5); V2 vs, qs; std::vector<Eigen::Quaterniond> o; for (int i = 0; i < n; ++i) { auto q = rq(); if (i) q = o[0].slerp(U(0, 1), q); o.push_back(q); }
    for (int i = I(1, 14); i > 0; --i) vs.push_back(vq(o[I(0, n - 1)], {U(-5, 5), U(-5, 5), U(-5, 5)}));
    w.req.start = vq(rq(), {U(-5, 5), U(-5, 5), U(-5, 5)}); w.req.goal = vq(rq(), {U(-5, 5), U(-5, 5), U(-5, 5)}); if (!I(0, 3)) w.req.start = I(0, 1) ? vs.front() : vs.back();
    w.req.parameters.numSearchNeighbor = I(1, 4); w.req.parameters.searchRadius = U(0, 4);
    HRM3D p(w.robot, w.arena, w.obs, w.req); p.q_ = o; std::string d = "3D" + graph(p, vs);
    CASES(d + " start=" + S(w.req.start) + " goal=" + S(w.req.goal) + " neighbours=" + std::to_string(w.req.parameters.numSearchNeighbor) + " radius=" + S(w.req.parameters.searchRadius));
    p.search(); check("graph3D", p, w.req.start, w.req.goal, 7);
}
static void r2() {
    World2 w = world2(I(0, 2)); HRM2D p(w.robot, w.arena, w.obs, w.req); CASES("roadmap2D " + w.d + " start=" + S(w.req.start) + " goal=" + S(w.req.goal));
    p.buildRoadmap(); if (p.res_.graphStructure.vertex.empty()) return; p.search(); check("roadmap2D", p, w.req.start, w.req.goal, 3);
}
static void pl2() {
    World2 w = world2(I(0, 2)); HRM2D p(w.robot, w.arena, w.obs, w.req); CASES("plan2D " + w.d + " start=" + S(w.req.start) + " goal=" + S(w.req.goal));
    p.plan(0); if (p.res_.graphStructure.vertex.empty()) return; auto sp = p.res_.solutionPath.solvedPath; check("plan2D", p, w.req.start, w.req.goal, 3);
    if (p.res_.solved && sp != p.getSolutionPath()) FAIL("plan2D-stored", "the stored solved path differs from the path vertices");
}
static void r3() {
    World3 w = world3(I(0, 1), 5); w.req.parameters.numLineX = I(1, 3); w.req.parameters.numLineY = I(1, 3);
    HRM3D p(w.robot, w.arena, w.obs, w.req); CASES("plan3D " + w.d + " start=" + S(w.req.start) + " goal=" + S(w.req.goal));
    p.plan(0); if (p.res_.graphStructure.vertex.empty()) return; auto sp = p.res_.solutionPath.solvedPath; check("plan3D", p, w.req.start, w.req.goal, 7);
    if (p.res_.solved && sp != p.getSolutionPath()) FAIL("plan3D-stored", "the stored solved path differs from the path vertices");
}
void run_oracle(double secs) { orc::Clock c; c.lim = secs; int i = 0; while (c.left() && cases() < 300000) { for (int k = 0; k < 10; ++k) { guarded("graph2D-exception", g2); guarded("graph3D-exception", g3); } guarded("roadmap2D-exception", r2); guarded("plan2D-exception", pl2); if (++i % 8 == 0) guarded("plan3D-exception", r3); } }
