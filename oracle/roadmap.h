// random construction histories of the real planners with recorded (real or arbitrary) answers of the transition checks; MODE 14 or 15
#include "plan.h"
#include <set>
struct Ask { V1 a, b; bool multi; std::vector<double> tfe, bridge; };
static std::vector<Ask> yes; static double pYes; static unsigned salt; static bool realAnswers;
static bool answer(const V1 &a, const V1 &b) { size_t h = salt; for (auto *v : {&a, &b}) for (double x : *v) h = h * 1000003u ^ std::hash<double>()(x); h ^= h >> 29; h *= 0x9E3779B97F4A7C15ull; return double(h >> 11) / double(1ull << 53) < pYes; }
template <class G> static std::vector<double> code(const std::vector<G> &t) { std::vector<double> r; for (auto &g : t) { for (double x : g.getSemiAxis()) r.push_back(x); } return r; }
static std::vector<double> sum(const BoundaryPoints &m) { return {m.sum(), m.norm()}; }
static std::vector<double> bcode(const std::vector<BoundaryInfo> &b) { std::vector<double> r; for (auto &x : b) for (auto &m : x.obstacle) for (double v : sum(m)) r.push_back(v); return r; }
static std::vector<double> bcode(const std::vector<std::vector<MeshMatrix>> &b) { std::vector<double> r; for (auto &x : b) for (auto &m : x) for (double v : sum(m.vertices)) r.push_back(v); return r; }
template <class P> struct Spy : P {
    using P::P;
    bool isSameSliceTransitionFree(const V1 &a, const V1 &b) override { bool r = realAnswers ? P::isSameSliceTransitionFree(a, b) : answer(a, b); if (r) yes.push_back({a, b, false, {}, {}}); return r; }
    bool isMultiSliceTransitionFree(const V1 &a, const V1 &b) override { bool r = realAnswers ? P::isMultiSliceTransitionFree(a, b) : answer(a, b); if (r) yes.push_back({a, b, true, code(this->tfe_), bcode(this->bridgeSliceBound_)}); return r; }
};
struct Snap { V2 v; std::vector<std::pair<Index, Index>> e; std::vector<double> w; };
template <class P> static Snap snap(P &p) { auto &g = p.res_.graphStructure; Snap s; s.v = g.vertex; for (auto &e : g.edge) s.e.push_back({e.first, e.second}); s.w = g.weight; return s; }
template <class P> static bool wellformed(const std::string &nm, const Snap &o, P &p) {
    Snap s = snap(p); if (MODE != 14) return true;
    if (s.e.size() != s.w.size()) { FAIL(nm + "-weights", "%zu edges, %zu weights", s.e.size(), s.w.size()); return false; }
    if (s.v.size() < o.v.size() || s.e.size() < o.e.size() || !std::equal(o.v.begin(), o.v.end(), s.v.begin()) || !std::equal(o.e.begin(), o.e.end(), s.e.begin()) || !std::equal(o.w.begin(), o.w.end(), s.w.begin())) { FAIL(nm + "-rewritten", "earlier roadmap content changed"); return false; }
    for (size_t i = o.e.size(); i < s.e.size(); ++i) {
        auto e = s.e[i]; if (e.first >= s.v.size() || e.second >= s.v.size()) { FAIL(nm + "-dangling", "edge %zu joins %zu and %zu of %zu vertices", i, (size_t)e.first, (size_t)e.second, s.v.size()); return false; }
        double d = 0; auto &a = s.v[e.first], &b = s.v[e.second]; if (a.size() != b.size()) { FAIL(nm + "-dimension", "edge between configurations of different length"); return false; } for (size_t k = 0; k < a.size(); ++k) d += (a[k] - b[k]) * (a[k] - b[k]);
        if (!(std::fabs(std::sqrt(d) - s.w[i]) < 1e-9 * (1 + d))) { FAIL(nm + "-weight", "edge %zu has weight %s, its ends are %s apart", i, S(s.w[i]).c_str(), S(std::sqrt(d)).c_str()); return false; }
    }
    if (s.e.size() > o.e.size()) NT(); return true;
}
static const Ask *approved(const V1 &a, const V1 &b, bool multi) { for (auto &q : yes) if (q.multi == multi && ((q.a == a && q.b == b) || (q.a == b && q.b == a))) return &q; return nullptr; }
using Touch = std::set<std::pair<Index, Index>>; using Gen = std::vector<std::pair<Index, Index>>;
// MODE 15: edges added inside one slice
template <class P> static bool sliceEdges(const std::string &nm, const Snap &o, P &p, const Touch &t, const Gen &gen) {
    if (MODE != 15) return true; Snap s = snap(p);
    for (size_t i = o.e.size(); i < s.e.size(); ++i) { auto e = s.e[i]; if (e.first >= s.v.size() || e.second >= s.v.size()) continue; if (t.count({std::min(e.first, e.second), std::max(e.first, e.second)})) continue; if (!approved(s.v[e.first], s.v[e.second], false)) { FAIL(nm + "-unapproved", "edge %zu between %zu and %zu was never approved", i, (size_t)e.first, (size_t)e.second); return false; } }
    for (Index b = o.v.size(); b < s.v.size(); ++b) {
        bool g = false; for (auto &q : gen) g = g || (b >= q.first && b < q.second); if (g) continue; int n = 0; for (size_t i = o.e.size(); i < s.e.size(); ++i) n += (s.e[i].first == b) + (s.e[i].second == b);
        if (n != 2) { FAIL(nm + "-bridge", "bridge vertex %zu has %d edges", (size_t)b, n); return false; }
    }
    if (s.e.size() > o.e.size()) NT(); return true;
}
static FreeSegment2D segs(int lines, const V1 &ty) {
    FreeSegment2D f; f.ty = ty; for (int i = 0; i < lines; ++i) { V1 l, u, m; double x = U(-9, 0); for (int k = I(0, 4); k > 0; --k) { double w = U(.2, 3); l.push_back(x); u.push_back(x + w); m.push_back(x + w / 2); x += w; if (I(0, 2)) x += U(.1, 2); } f.xL.push_back(l); f.xU.push_back(u); f.xM.push_back(m); } return f; }
static void touches(const FreeSegment2D &f, const std::vector<Index> &plane, Touch &t, Gen &g) { for (size_t i = 0; i < f.ty.size() && i < plane.size(); ++i) { g.push_back({plane[i], plane[i] + f.xM[i].size()}); for (size_t j = 0; j + 1 < f.xM[i].size(); ++j) if (std::fabs(f.xU[i][j] - f.xL[i][j + 1]) < 1e-6) t.insert({plane[i] + j, plane[i] + j + 1}); } }
static V1 lines(int n) { V1 t; for (int i = 0; i < n; ++i) t.push_back(-5 + 10.0 * i / std::max(1, n - 1)); return t; }
static bool close(const std::vector<double> &a, const std::vector<double> &b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (!(std::fabs(a[i] - b[i]) <= 1e-7 * (1 + std::fabs(a[i])))) return false; return true; }
// MODE 15: edges between slices, approved with the bridge slice of their own two slices
template <class P, class T> static bool multiEdges(const std::string &nm, const Snap &o, P &p, P &aux, T tfe) {
    if (MODE != 15) return true; Snap s = snap(p); auto sl = [&](Index v) { for (size_t i = 0; i < p.vertexIdx_.size(); ++i) if (v >= p.vertexIdx_[i].startId && v < p.vertexIdx_[i].slice) return (int)i; return -1; };
    for (size_t i = o.e.size(); i < s.e.size(); ++i) {
        auto e = s.e[i]; if (e.first >= s.v.size() || e.second >= s.v.size()) continue; int a = sl(e.first), b = sl(e.second); bool any = false, own = false;
        for (int w = 0; w < 2 && !own; ++w) { auto t = tfe(aux, w ? b : a, w ? a : b); aux.tfe_ = t; aux.bridgeSlice(); auto tc = code(t), bc = bcode(aux.bridgeSliceBound_);
            for (auto &q : yes) if (q.multi && ((q.a == s.v[e.first] && q.b == s.v[e.second]) || (q.b == s.v[e.first] && q.a == s.v[e.second]))) { any = true; own = own || (close(q.tfe, tc) && close(q.bridge, bc)); } }
        if (!any) { FAIL(nm + "-unapproved", "edge %zu between vertices of slices %d and %d was never approved", i, a, b); return false; }
        if (!own) { FAIL(nm + "-wrong-bridge", "edge %zu between vertices of slices %d and %d was not checked against their bridge slice", i, a, b); return false; }
    }
    if (s.e.size() > o.e.size()) NT(); return true;
}
template <class P> static bool exist(const std::string &nm, P &p, size_t i) { Snap o = snap(p); yes.clear(); p.connectExistSlice(i); return wellformed(nm + "-refine", o, p) && sliceEdges(nm + "-refine", o, p, {}, {}); }
static void fresh() { yes.clear(); pYes = I(0, 3) ? U(0, 1) : I(0, 1); salt = I(1, 1 << 30); realAnswers = I(0, 3) == 0; }
static void h2() {
    fresh(); World2 w = world2(2); Spy<HRM2D> p(w.robot, w.arena, w.obs, w.req); HRM2D aux(w.robot, w.arena, w.obs, w.req); Spy<HRM2D> sx(w.robot, w.arena, w.obs, w.req); CASES(w.d + " answers " + S(pYes) + (realAnswers ? " real" : "") + " salt " + std::to_string(salt));
    p.sampleOrientations();
    for (int round = 0; round < 2; ++round) {
        for (size_t i = 0; i < p.param_.numSlice; ++i) {
            Snap o = snap(p); yes.clear(); Touch t; Gen g;
            if (realAnswers) { p.constructOneSlice(i); touches(p.freeSegOneSlice_, p.numVertex_.plane, t, g); }
            else { Eigen::Matrix3d m = Eigen::Matrix3d::Identity(); m.topLeftCorner(2, 2) = Eigen::Rotation2Dd(p.headings_[i]).toRotationMatrix(); p.robot_.robotTF(m); int n = I(1, 4); auto f = segs(n, lines(n)); p.generateVertices(0, f); touches(f, p.numVertex_.plane, t, g); p.connectOneSlice2D(f); }
            p.numVertex_.slice = p.res_.graphStructure.vertex.size(); p.vertexIdx_.push_back(p.numVertex_);
            if (!wellformed("2D-slice", o, p) || !sliceEdges("2D-slice", o, p, t, g)) return;
            if (round && !exist("2D", p, i)) return;
        }
        if (!round) { Snap o = snap(p); yes.clear(); p.connectMultiSlice(); if (!wellformed("2D-multi", o, p)) return; if (!multiEdges("2D-multi", o, p, sx, [&](Spy<HRM2D> &x, int a, int b) { std::vector<SuperEllipse> t; x.computeTFE(p.headings_[a], p.headings_[b], t); return t; })) return; p.vertexIdxAll_.push_back(p.vertexIdx_); p.vertexIdx_.clear(); p.param_.numLineY *= 2; }
    }
}
template <class P> static FreeSegment3D segs3(P &p) { FreeSegment3D f; int nx = I(1, 3), ny = I(1, 4); for (int i = 0; i < nx; ++i) { f.tx.push_back(-4 + 3 * i); f.freeSegmentYZ.push_back(segs(ny, lines(ny))); } return f; }
template <class P> static bool slice3(const std::string &nm, P &p, size_t i) {
    Snap o = snap(p); yes.clear(); Touch t; Gen g; FreeSegment3D f;
    if (realAnswers) { p.constructOneSlice(i); f = p.freeSegOneSlice_; } else { f = segs3(p); p.numVertex_.line.clear(); p.connectOneSlice3D(f); }
    for (size_t k = 0; k < f.tx.size() && k < p.numVertex_.line.size(); ++k) touches(f.freeSegmentYZ[k], p.numVertex_.line[k], t, g);
    p.numVertex_.slice = p.res_.graphStructure.vertex.size(); p.vertexIdx_.push_back(p.numVertex_); return wellformed(nm, o, p) && sliceEdges(nm, o, p, t, g);
}
static void h3() {
    fresh(); World3 w = world3(2, 5); Spy<HRM3D> p(w.robot, w.arena, w.obs, w.req), sx(w.robot, w.arena, w.obs, w.req); CASES(w.d + " answers " + S(pYes) + (realAnswers ? " real" : "") + " salt " + std::to_string(salt));
    p.sampleOrientations();
    for (int round = 0; round < 2; ++round) {
        for (size_t i = 0; i < p.param_.numSlice; ++i) { Eigen::Matrix4d m = Eigen::Matrix4d::Identity(); m.topLeftCorner(3, 3) = p.q_[i].toRotationMatrix(); p.robot_.robotTF(m); if (!slice3("3D-slice", p, i)) return; if (round && !exist("3D", p, i)) return; }
        if (!round) { Snap o = snap(p); yes.clear(); p.connectMultiSlice(); if (!wellformed("3D-multi", o, p)) return; if (!multiEdges("3D-multi", o, p, sx, [&](Spy<HRM3D> &x, int a, int b) { std::vector<SuperQuadrics> t; x.computeTFE(p.q_[a], p.q_[b], t); return t; })) return; p.vertexIdxAll_.push_back(p.vertexIdx_); p.vertexIdx_.clear(); p.param_.numLineX *= 2; p.param_.numLineY *= 2; }
    }
}
static void hA() {
    fresh(); World3 w = worldA(2, 5); Spy<ProbHRM3D> p(w.robot, "x", w.arena, w.obs, w.req), sx(w.robot, "x", w.arena, w.obs, w.req); p.param_.numSlice = 0; int n = I(1, 4); CASES(w.d + " answers " + S(pYes) + (realAnswers ? " real" : "") + " salt " + std::to_string(salt));
    for (int i = 0; i < n; ++i) {
        p.sampleOrientations(); if (!realAnswers) { p.vCur_ = p.v_.back(); p.setTransform(p.vCur_); } if (!slice3("articulated-slice", p, i)) return; p.param_.numSlice++;
        Snap o = snap(p); yes.clear(); p.connectMultiSlice(); if (!wellformed("articulated-multi", o, p)) return;
        if (!multiEdges("articulated-multi", o, p, sx, [&](Spy<ProbHRM3D> &x, int a, int b) { std::vector<SuperQuadrics> t; x.computeTFE(p.v_[a], p.v_[b], t); return t; })) return;
    }
}
void run_oracle(double secs) { orc::Clock c; c.lim = secs; while (c.left() && cases() < 60000) { for (int i = 0; i < 4; ++i) guarded("2D-exception", h2); guarded("3D-exception", h3); guarded("articulated-exception", hA); } }
