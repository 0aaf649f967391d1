#include "plan.h"
// refinement rounds of the real planners, compared with a fresh planner that sweeps the same slice with the doubled line counts
template <class P, class Mk> static void rounds(const std::string &nm, P &p, Mk mk, const std::string &d, bool prob = false) {
    int n = I(1, 2); for (int r = 0; r < n; ++r) {
        CASES(d + " round " + std::to_string(r)); auto &g = p.res_.graphStructure; auto v0 = g.vertex; auto e0 = g.edge; auto w0 = g.weight; size_t x = p.param_.numLineX, y = p.param_.numLineY; auto old = p.vertexIdx_; size_t na = p.vertexIdxAll_.size(); size_t nb = p.sliceBoundAll_.size();
        double lim = I(0, 4) ? 1e9 : 0; p.res_.solved = false; p.res_.planningTime.totalTime = p.res_.planningTime.buildTime = p.res_.planningTime.searchTime = 0; p.refineExistRoadmap(lim);
        if (p.param_.numLineX != 2 * x || p.param_.numLineY != 2 * y) { FAIL(nm + "-lines", "%zux%zu lines became %zux%zu", x, y, (size_t)p.param_.numLineX, (size_t)p.param_.numLineY); return; }
        if (g.vertex.size() < v0.size() || !std::equal(v0.begin(), v0.end(), g.vertex.begin())) { FAIL(nm + "-vertices", "existing vertices changed (%zu, now %zu)", v0.size(), g.vertex.size()); return; }
        if (g.edge.size() < e0.size() || g.weight.size() != g.edge.size() || !std::equal(e0.begin(), e0.end(), g.edge.begin()) || !std::equal(w0.begin(), w0.end(), g.weight.begin())) { FAIL(nm + "-edges", "existing edges or weights changed (%zu, now %zu, %zu weights)", e0.size(), g.edge.size(), g.weight.size()); return; }
        if (p.sliceBoundAll_.size() != nb) { FAIL(nm + "-records", "%zu boundary records became %zu", nb, p.sliceBoundAll_.size()); return; }
        size_t done = p.vertexIdx_.size(); if (done > p.param_.numSlice || (done < p.param_.numSlice && !p.res_.solved && lim > 0)) { FAIL(nm + "-slices", "%zu of %zu slices rebuilt", done, (size_t)p.param_.numSlice); return; }
        for (size_t k = 0; k < done; ++k) {
            auto q = mk(); q->param_ = p.param_; q->headings_from(p); for (size_t i = 0; i < k; ++i) q->sliceBoundAll_.push_back({}); q->constructOneSlice(k);
            auto &h = q->res_.graphStructure.vertex; size_t a = p.vertexIdx_[k].startId, b = p.vertexIdx_[k].slice; if (b < a || b > g.vertex.size() || b - a != h.size()) { FAIL(nm + "-rebuilt-count", "slice %zu rebuilt with %zu vertices, its own boundaries give %zu", k, b - a, h.size()); return; }
            for (size_t i = 0; i < h.size(); ++i) for (size_t c = 0; c < h[i].size(); ++c) if (g.vertex[a + i].size() != h[i].size() || !near(g.vertex[a + i][c], h[i][c], 1e-9)) { FAIL(nm + "-rebuilt", "slice %zu vertex %zu coordinate %zu is %s, its own boundaries give %s", k, i, c, S(g.vertex[a + i][c]).c_str(), S(h[i][c]).c_str()); return; }
            if (h.size()) NT();
        }
        if (p.res_.solved || done < p.param_.numSlice) return;
    }
}
struct R2 : HRM2D { using HRM2D::HRM2D; void headings_from(HRM2D &p) { headings_ = p.headings_; } };
struct R3 : HRM3D { using HRM3D::HRM3D; void headings_from(HRM3D &p) { q_ = p.q_; } };
struct RA : ProbHRM3D { using ProbHRM3D::ProbHRM3D; void headings_from(ProbHRM3D &p) { q_ = p.q_; v_ = p.v_; } };
static void t2() { World2 w = world2(3); w.req.parameters.numLineY = I(1, 9); CASES(w.d); HRM2D p(w.robot, w.arena, w.obs, w.req); p.buildRoadmap(); rounds("2D", p, [&] { return std::make_shared<R2>(w.robot, w.arena, w.obs, w.req); }, w.d + desc(w.req.parameters)); }
static void t3() { World3 w = world3(2, 5); w.req.parameters.numLineY = I(1, 3); w.req.parameters.numLineX = I(1, 3); CASES(w.d); HRM3D p(w.robot, w.arena, w.obs, w.req); p.buildRoadmap(); rounds("3D", p, [&] { return std::make_shared<R3>(w.robot, w.arena, w.obs, w.req); }, w.d + desc(w.req.parameters)); }
static void tA() { World3 w = worldA(2, 5); w.req.parameters.numLineY = I(1, 3); w.req.parameters.numLineX = I(1, 3); CASES(w.d); ProbHRM3D p(w.robot, "x", w.arena, w.obs, w.req); p.param_.numSlice = 0; int n = I(1, 3);
    for (int i = 0; i < n; ++i) { p.sampleOrientations(); p.constructOneSlice(i); p.param_.numSlice++; p.numVertex_.slice = p.res_.graphStructure.vertex.size(); p.vertexIdx_.push_back(p.numVertex_); p.connectMultiSlice(); }
    rounds("articulated", p, [&] { return std::make_shared<RA>(w.robot, "x", w.arena, w.obs, w.req); }, w.d + desc(w.req.parameters)); }
void run_oracle(double secs) { orc::Clock c; c.lim = secs; while (c.left() && cases() < 20000) { guarded("2D-exception", t2); guarded("2D-exception", t2); guarded("3D-exception", t3); guarded("articulated-exception", tA); } }
