#include "plan.h"
#include <set>
#include <functional>
// nearest neighbours on random roadmaps against the definition
static double dist(const V1 &a, const V1 &b) { double s = 0; for (size_t i = 0; i < std::min(a.size(), b.size()); ++i) s += (a[i] - b[i]) * (a[i] - b[i]); return std::sqrt(s); }
template <class P, class Gap> static void check(const std::string &nm, P &p, const V1 &q, Index k, double rad, const std::vector<V1> &ori, const std::vector<V1> &closestOver, const V1 &qo, Gap gap, std::function<V1(const V1 &)> of) {
    auto r = p.getNearestNeighborsOnGraph(q, k, rad); auto &V = p.res_.graphStructure.vertex;
    if (r.size() > k) { FAIL(nm + "-too-many", "%zu vertices offered, %zu requested", r.size(), (size_t)k); return; }
    double best = 1e300; for (auto &c : closestOver) best = std::min(best, gap(qo, c));
    std::set<size_t> used;
    for (auto v : r) {
        if (v >= V.size()) { FAIL(nm + "-missing", "vertex %zu of %zu offered", (size_t)v, V.size()); return; }
        bool slice = false, near = false; for (size_t h = 0; h < ori.size(); ++h) if (gap(of(V[v]), ori[h]) < 1e-5) { bool ok = true; for (auto &x : V) if (gap(of(x), ori[h]) < 1e-7 && dist(q, x) < dist(q, V[v]) - 1e-9) ok = false; slice = slice || ok; if (ok) for (auto &c : closestOver) if (gap(qo, c) <= best + 1e-9 && gap(c, ori[h]) < rad + 1e-9) near = true; }
        if (!slice) { FAIL(nm + "-not-nearest", "vertex %zu is not the nearest vertex of its slice", (size_t)v); return; }
        if (!near) { FAIL(nm + "-far-slice", "vertex %zu belongs to a slice outside the radius", (size_t)v); return; }
    }
    if (r.size() > 0) NT();
}
static void t2() {
    World2 w = world2(0); HRM2D p(w.robot, w.arena, w.obs, w.req); int n = I(1, 9); p.headings_.clear(); for (int i = 0; i < n; ++i) p.headings_.push_back(I(0, 3) ? -3 + 6.0 * i / n : U(-3, 3)); std::vector<V1> o; for (double h : p.headings_) o.push_back({h});
    std::vector<V1> vs; for (int i = I(0, 25); i > 0; --i) { V1 v = {U(-5, 5), U(-5, 5), p.headings_[I(0, n - 1)]}; p.res_.graphStructure.vertex.push_back(v); vs.push_back({v[2]}); }
    for (int t = 0; t < 5; ++t) {
        V1 q = {U(-5, 5), U(-5, 5), U(-3.2, 3.2)}; Index k = I(1, 6); double rad = I(0, 2) ? U(0, 3) : U(0, .5); std::string d = "2D headings=" + S(p.headings_) + " vertices="; for (auto &v : p.res_.graphStructure.vertex) d += S(v); CASES(d + " query=" + S(q) + " k=" + std::to_string(k) + " radius=" + S(rad));
        check("2D", p, q, k, rad, o, vs, V1{q[2]}, [](const V1 &a, const V1 &b) { return std::fabs(a[0] - b[0]); }, [](const V1 &v) { return V1{v[2]}; });
    }
}
static double ang(const V1 &a, const V1 &b) { return Eigen::Quaterniond(a[0], a[1], a[2], a[3]).angularDistance(Eigen::Quaterniond(b[0], b[1], b[2], b[3])); }
static void t3() {
    World3 w = world3(0, 5); HRM3D p(w.robot, w.arena, w.obs, w.req); int n = I(1, 9); p.q_.clear(); std::vector<V1> o; for (int i = 0; i < n; ++i) { auto q = rq(); if (i && I(0, 1)) q = p.q_[0].slerp(U(0, 1), q); p.q_.push_back(q); o.push_back({q.w(), q.x(), q.y(), q.z()}); }
    for (int i = I(0, 25); i > 0; --i) { auto &q = o[I(0, n - 1)]; p.res_.graphStructure.vertex.push_back({U(-5, 5), U(-5, 5), U(-5, 5), q[0], q[1], q[2], q[3]}); }
    for (int t = 0; t < 5; ++t) {
        V1 q = vq(I(0, 1) ? rq() : p.q_[0].slerp(U(0, 1), p.q_[n - 1]), {U(-5, 5), U(-5, 5), U(-5, 5)}); Index k = I(1, 6); double rad = U(0, 3.2); std::string d = "3D orientations="; for (auto &x : o) d += S(x); d += " vertices="; for (auto &v : p.res_.graphStructure.vertex) d += S(v); CASES(d + " query=" + S(q) + " k=" + std::to_string(k) + " radius=" + S(rad));
        check("3D", p, q, k, rad, o, o, V1{q[3], q[4], q[5], q[6]}, ang, [](const V1 &v) { return V1{v[3], v[4], v[5], v[6]}; });
    }
}
void run_oracle(double secs) { orc::Clock c; c.lim = secs; while (c.left() && cases() < 200000) { guarded("2D-exception", t2); guarded("3D-exception", t3); } }
