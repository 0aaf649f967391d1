#include "common.h"
#include "kdl_stub.h"
#include "hrm/datastructure/FreeSpace2D.h"
#include "hrm/datastructure/FreeSpace3D.h"
#include "hrm/geometry/LineIntersection.h"
#include "hrm/geometry/MeshGenerator.h"
using namespace hrm;
static bool same(double a, double b) { return (std::isnan(a) && std::isnan(b)) || near(a, b, 1e-9); }
template <class FS> static bool table(const std::string &nm, FS &fs, int n, size_t na, size_t no, double lo, double up, const std::function<std::vector<double>(int, bool, size_t)> &cross) {
    const auto &T = fs.getIntersectionInterval();
    if (T.arenaLow.size() != (size_t)n || T.arenaUpp.size() != (size_t)n || T.obstacleLow.size() != (size_t)n || T.obstacleUpp.size() != (size_t)n) { FAIL(nm + "-rows", "%zu rows for %d lines", T.arenaLow.size(), n); return false; }
    for (int i = 0; i < n; ++i) {
        if (T.arenaLow[i].size() != na || T.arenaUpp[i].size() != na || T.obstacleLow[i].size() != no || T.obstacleUpp[i].size() != no) { FAIL(nm + "-columns", "line %d: %zu arena and %zu obstacle columns", i, T.arenaLow[i].size(), T.obstacleLow[i].size()); return false; }
        for (int ar = 1; ar >= 0; --ar) for (size_t j = 0; j < (ar ? na : no); ++j) {
            auto c = cross(i, ar, j); double a = ar ? lo : NAN, b = ar ? up : NAN; for (double x : c) { a = std::fmin(a, x); b = std::fmax(b, x); }
            double ra = ar ? T.arenaLow[i][j] : T.obstacleLow[i][j], rb = ar ? T.arenaUpp[i][j] : T.obstacleUpp[i][j];
            if (!same(ra, a) || !same(rb, b)) { FAIL(nm + (ar ? "-arena" : "-obstacle"), "line %d boundary %zu: recorded [%.17g, %.17g], crossings span [%.17g, %.17g]", i, j, ra, rb, a, b); return false; }
        }
    }
    return true;
}
static SuperEllipse e2(bool ell, bool o) { return SuperEllipse({G(4) + 5, G(4) + 5}, ell ? 1 : U(0.4, 1.6), {o ? 0 : G(10), o ? 0 : G(10)}, I(0, 1) ? 0 : U(-3, 3), I(3, 12)); }
static SuperQuadrics e3(bool ell, bool o) { Eigen::Quaterniond q(N(), N(), N(), N()); if (I(0, 2) == 0) q.setIdentity(); q.normalize(); return SuperQuadrics({G(3) + 4, G(3) + 4, G(3) + 4}, {ell ? 1 : U(0.4, 1.6), ell ? 1 : U(0.4, 1.6)}, {o ? 0 : G(8), o ? 0 : G(8), o ? 0 : G(8)}, q, I(3, 7)); }
// crossings of a horizontal line with a closed polygon: one per non-horizontal edge whose closed height range contains the line
static std::vector<double> poly(double y, const BoundaryPoints &s) {
    std::vector<double> r; int n = s.cols(); for (int i = 0; i < n; ++i) { auto a = s.col(i), b = s.col((i + 1) % n); if (a(1) == b(1) || y < std::min(a(1), b(1)) || y > std::max(a(1), b(1))) continue; r.push_back(b(0) + (y - b(1)) * (a(0) - b(0)) / (a(1) - b(1))); } return r; }
static void go2() {
    MultiBodyTree2D r(e2(true, true)); int nl = I(0, 2); for (int i = 0; i < nl; ++i) r.addBody(e2(true, false)); std::vector<SuperEllipse> ar, ob; for (int i = I(1, 2); i > 0; --i) ar.push_back(e2(false, false)); for (int i = I(0, 3); i > 0; --i) ob.push_back(e2(false, false));
    FreeSpace2D fs(r, ar, ob); double lo = -I(5, 20), up = I(5, 20); std::string d = "2D bodies=" + std::to_string(nl + 1);
    for (int rep = I(1, 3); rep > 0; --rep) {
        int n = I(1, 6); fs.setup(n, lo, up); if (rep == 1 || I(0, 1)) fs.computeCSpaceBoundary(); auto B = fs.getCSpaceBoundary();
        if (B.arena.empty()) { fs.computeCSpaceBoundary(); B = fs.getCSpaceBoundary(); }
        std::vector<double> ty; for (int i = 0; i < n; ++i) { double y = G(15); if (I(0, 1)) { auto &all = !B.obstacle.empty() && I(0, 2) ? B.obstacle : B.arena; auto &b = all[I(0, all.size() - 1)]; y = b(1, I(0, b.cols() - 1)); } ty.push_back(y); }
        d += " round: lines " + S(ty); for (auto &a : ar) d += " arena " + S(a.getSemiAxis()) + "@" + S(a.getPosition()); for (auto &a : ob) d += " obstacle " + S(a.getSemiAxis()) + "@" + S(a.getPosition()); CASES(d);
        fs.computeIntersectionInterval({ty});
        if (!table("2D", fs, n, B.arena.size(), B.obstacle.size(), lo, up, [&](int i, bool a, size_t j) { return poly(ty[i], a ? B.arena[j] : B.obstacle[j]); })) return;
    }
    if (!ob.empty()) NT();
}
static void go3() {
    MultiBodyTree3D r(e3(true, true)); int nl = I(0, 1); for (int i = 0; i < nl; ++i) r.addBody(e3(true, false)); std::vector<SuperQuadrics> ar, ob; for (int i = I(1, 2); i > 0; --i) ar.push_back(e3(false, false)); for (int i = I(0, 2); i > 0; --i) ob.push_back(e3(false, false));
    FreeSpace3D fs(r, ar, ob); double lo = -I(5, 20), up = I(5, 20); std::string d = "3D bodies=" + std::to_string(nl + 1);
    for (auto &a : ar) d += " arena " + S(a.getSemiAxis()) + "@" + S(a.getPosition()) + "/" + std::to_string(a.getNumParam()); for (auto &a : ob) d += " obstacle " + S(a.getSemiAxis()) + "@" + S(a.getPosition()) + "/" + std::to_string(a.getNumParam());
    fs.computeCSpaceBoundary(); auto B = fs.getCSpaceBoundary(); CASES(d); fs.computeCSpaceBoundaryMesh(B); const auto &M = fs.getCSpaceBoundaryMesh();
    if (M.arena.size() != B.arena.size() || M.obstacle.size() != B.obstacle.size()) { FAIL("3D-meshes", "%zu arena and %zu obstacle meshes", M.arena.size(), M.obstacle.size()); return; }
    for (int a = 0; a < 2; ++a) { auto &bs = a ? B.arena : B.obstacle; auto &ms = a ? M.arena : M.obstacle; for (size_t j = 0; j < bs.size(); ++j) {
        auto &s = a ? ar[j / (nl + 1)] : ob[j / (nl + 1)]; MeshMatrix x = getMeshFromParamSurface(bs[j], s.getNumParam());
        if (x.vertices.cols() != ms[j].vertices.cols() || x.faces.rows() != ms[j].faces.rows() || !(x.vertices - ms[j].vertices).isZero(1e-12) || !(x.faces - ms[j].faces).isZero(0)) { FAIL("3D-mesh", "%s mesh %zu is not that of its boundary", a ? "arena" : "obstacle", j); return; } } }
    for (int rep = I(1, 3); rep > 0; --rep) {
        int n = I(1, 5); fs.setup(n, lo, up); double tx = G(8); if (I(0, 1)) { auto &b = B.arena[0]; tx = b(0, I(0, b.cols() - 1)); } std::vector<double> xs; for (int i = I(0, 2); i > 0; --i) xs.push_back(G(9)); xs.push_back(tx);
        std::vector<double> ty; for (int i = 0; i < n; ++i) { double y = G(8); if (I(0, 2) == 0) { auto &all = !B.obstacle.empty() && I(0, 2) ? B.obstacle : B.arena; auto &b = all[I(0, all.size() - 1)]; y = b(1, I(0, b.cols() - 1)); } ty.push_back(y); }
        CASES(d + " x " + S(xs) + " lines " + S(ty)); fs.computeIntersectionInterval({xs, ty});
        if (!table("3D", fs, n, B.arena.size(), B.obstacle.size(), lo, up, [&](int i, bool a, size_t j) { Line3D l(6); l << tx, ty[i], 0, 0, 0, 1; std::vector<double> r; for (auto &p : intersectVerticalLineMesh3D(l, a ? M.arena[j] : M.obstacle[j])) r.push_back(p(2)); return r; })) return;
    }
    if (!ob.empty()) NT();
}
void run_oracle(double secs) { Clock c; c.lim = secs; while (c.left() && cases() < 200000) { guarded("2D-exception", go2); guarded("3D-exception", go3); } }
