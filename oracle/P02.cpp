#include "common.h"
#include "kdl_stub.h"
#include "hrm/datastructure/FreeSpace2D.h"
#include "hrm/datastructure/FreeSpace3D.h"
using namespace hrm;
using V2 = std::vector<std::vector<double>>;
static bool has(const std::vector<double> &v, double x) { for (double y : v) if (near(x, y, 1e-12)) return true; return false; }
template <class FS> static void go(const std::string &nm, FS &fs, bool bad) {
    int n = I(0, 2) ? 1 : I(2, 4), na = I(0, 3), no = I(0, 6); auto &T = fs.intersect_; auto fill = [&](V2 &lo, V2 &up, int c, bool arena) {
        lo.assign(n, std::vector<double>(c)); up = lo;
        for (int i = 0; i < n; ++i) for (int j = 0; j < c; ++j) { double a = arena ? G(3) - 8 : G(10), b = arena ? G(3) + 8 : G(10); if (I(0, 5) == 0) b = a; lo[i][j] = std::min(a, b); up[i][j] = std::max(a, b);
            int k = I(0, 9); if (k == 0 || k == 1) lo[i][j] = NAN; if (k == 0 || k == 2) up[i][j] = NAN; } };
    fill(T.arenaLow, T.arenaUpp, na, true); fill(T.obstacleLow, T.obstacleUpp, no, false);
    std::string d = nm; for (int i = 0; i < n; ++i) { d += " line " + std::to_string(i) + ": arena " + S(T.arenaLow[i]) + ".." + S(T.arenaUpp[i]) + " obstacles " + S(T.obstacleLow[i]) + ".." + S(T.obstacleUpp[i]); } CASES(d);
    auto def = [](double a, double b) { return !std::isnan(a) && !std::isnan(b); };
    std::vector<std::vector<Interval>> segs; bool nt = false;
    for (int i = 0; i < n; ++i) {
        auto r = fs.computeSweepLineFreeSegment(i); segs.push_back(r); bool some = false;
        std::set<double> ev{-20, 20}; for (int j = 0; j < na; ++j) if (def(T.arenaLow[i][j], T.arenaUpp[i][j])) { some = true; ev.insert(T.arenaLow[i][j]); ev.insert(T.arenaUpp[i][j]); }
        for (int j = 0; j < no; ++j) if (def(T.obstacleLow[i][j], T.obstacleUpp[i][j])) { ev.insert(T.obstacleLow[i][j]); ev.insert(T.obstacleUpp[i][j]); }
        std::vector<double> xs; double last = NAN; for (double e : ev) { if (!std::isnan(last)) xs.push_back((last + e) / 2); xs.push_back(e); last = e; }
        for (double x : xs) {
            bool in = false, all = some, interior = false, closed = false; for (auto &s : r) in |= s.s() <= x && x <= s.e();
            for (int j = 0; j < na; ++j) if (def(T.arenaLow[i][j], T.arenaUpp[i][j])) all &= T.arenaLow[i][j] <= x && x <= T.arenaUpp[i][j];
            for (int j = 0; j < no; ++j) if (def(T.obstacleLow[i][j], T.obstacleUpp[i][j])) { interior |= T.obstacleLow[i][j] < x && x < T.obstacleUpp[i][j]; closed |= T.obstacleLow[i][j] <= x && x <= T.obstacleUpp[i][j]; }
            if (in && !(all && !interior)) { FAIL(nm + "-not-free", "line %d: point %.17g reported free", i, x); return; }
            if (!in && all && !closed) { FAIL(nm + "-missed", "line %d: free point %.17g not reported", i, x); return; }
        }
        if (!r.empty() && no > 0) nt = true;
    }
    std::vector<double> ty; for (int i = 0; i < n; ++i) ty.push_back(i * 1.5 - 1);
    fs.computeFreeSegment(ty); const FreeSegment2D &s = fs.segment_;
    if (s.ty != ty || s.xL.size() != (size_t)n || s.xU.size() != (size_t)n || s.xM.size() != (size_t)n) { FAIL(nm + "-lines", "%zu %zu %zu lists for %d lines", s.xL.size(), s.xU.size(), s.xM.size(), n); return; }
    for (int i = 0; i < n; ++i) for (size_t j = 0; j < segs[i].size(); ++j) {
        double a = segs[i][j].s(), b = segs[i][j].e();
        if (!has(s.xL[i], a) || !has(s.xU[i], b) || !has(s.xM[i], (a + b) / 2)) { FAIL(nm + "-lists", "line %d segment %zu is missing from the stored lists", i, j); return; }
        if (n == 1 && (s.xL[i].size() != segs[i].size() || s.xU[i].size() != segs[i].size() || s.xM[i].size() != segs[i].size() || s.xL[i][j] != a || s.xU[i][j] != b || !near(s.xM[i][j], (a + b) / 2, 1e-12))) { FAIL(nm + "-order", "line %d segment %zu is stored wrongly", i, j); return; }
    }
    (void)bad; if (nt) NT();
}
void run_oracle(double secs) {
    Clock c; c.lim = secs; SuperEllipse e({1, 1}, 1, {0, 0}, 0, 5); SuperQuadrics q({1, 1, 1}, {1, 1}, {0, 0, 0}, Eigen::Quaterniond(1, 0, 0, 0), 5);
    std::vector<SuperEllipse> ve{e}; std::vector<SuperQuadrics> vq{q}; FreeSpace2D f2(MultiBodyTree2D(e), ve, ve); FreeSpace3D f3(MultiBodyTree3D(q), vq, vq);
    while (c.left() && cases() < 400000) { guarded("2D-exception", [&] { go("2D", f2, false); }); guarded("3D-exception", [&] { go("3D", f3, false); }); }
}
