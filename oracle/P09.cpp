#include "plan.h"
static SuperEllipse se(bool ell, bool origin = false) { return SuperEllipse({U(0.2, 10), U(0.2, 10)}, ell || I(0, 2) == 0 ? 1.0 : U(0.2, 1.8), {origin ? 0 : G(20), origin ? 0 : G(20)}, I(0, 4) ? U(-4, 4) : 0.0, I(2, 20)); }
static SuperQuadrics sq(bool ell, bool origin = false) { return SuperQuadrics({U(0.2, 10), U(0.2, 10), U(0.2, 10)}, {ell ? 1.0 : U(0.3, 1.7), 1.0}, {origin ? 0 : G(20), origin ? 0 : G(20), origin ? 0 : G(20)}, rq(), I(2, 8)); }
static void place(MultiBodyTree2D &r) { double a = I(0, 3) ? U(-4, 4) : 0; Eigen::Matrix3d g = Eigen::Matrix3d::Identity(); g.topLeftCorner(2, 2) = Eigen::Rotation2Dd(a).toRotationMatrix(); r.robotTF(g); }
static void place(MultiBodyTree3D &r) { Eigen::Matrix4d g = Eigen::Matrix4d::Identity(); g.topLeftCorner(3, 3) = rq().toRotationMatrix(); r.robotTF(g); }
static SuperEllipse mk(const MultiBodyTree2D *, bool ell, bool o = false) { return se(ell, o); }
static SuperQuadrics mk(const MultiBodyTree3D *, bool ell, bool o = false) { return sq(ell, o); }
static BoundaryPoints mink(const SuperEllipse &s, const SuperEllipse &b, int k) { return s.getMinkSum2D(b, k); }
static BoundaryPoints mink(const SuperQuadrics &s, const SuperQuadrics &b, int k) { return s.getMinkSum3D(b, k); }
template <class T, class Gm> static bool check(const std::string &key, const std::vector<BoundaryPoints> &r, size_t off, const T &robot, const Gm &s, int k) {
    for (size_t b = 0; b <= robot.getNumLinks(); ++b) {
        const Gm &body = b ? robot.getLinks().at(b - 1) : robot.getBase();
        BoundaryPoints x = mink(s, body, k); if (b) for (int d = 0; d < x.rows(); ++d) x.row(d).array() -= body.getPosition().at(d) - robot.getBase().getPosition().at(d);
        const auto &y = r.at(off + b);
        if (x.rows() != y.rows() || x.cols() != y.cols() || !((x - y).norm() < 1e-7 * (1 + x.norm()))) { FAIL(key, "boundary of body %zu differs (%s)", b, x.cols() == y.cols() && x.rows() == y.rows() ? S((x - y).norm()).c_str() : "size"); return false; }
    }
    return true;
}
template <class T, class Gm, class FS> static void go(const std::string &nm) {
    T robot(mk((T *)0, true, true)); int nl = I(0, 3); std::string d;
    for (int i = 0; i < nl; ++i) robot.addBody(mk((T *)0, true));
    place(robot); if (I(0, 1)) { place(robot); }
    std::vector<Gm> arena, obs; int na = I(0, 2), no = I(0, 3); for (int i = 0; i < na; ++i) arena.push_back(mk((T *)0, false)); for (int i = 0; i < no; ++i) obs.push_back(mk((T *)0, false));
    auto desc = [](const Gm &g) { return S(g.getSemiAxis()) + "@" + S(g.getPosition()); };
    d = nm + " base=" + desc(robot.getBase()); for (auto &l : robot.getLinks()) d += " link=" + desc(l); for (auto &l : arena) d += " arena=" + desc(l); for (auto &l : obs) d += " obstacle=" + desc(l); CASES(d);
    auto s = mk((T *)0, false); int k = I(0, 1) ? 1 : -1; auto r = robot.minkSum(s, k);
    if (r.size() != (size_t)nl + 1) { FAIL(nm + "-count", "%zu boundaries for %d bodies", r.size(), nl + 1); return; }
    if (!check(nm + "-body", r, 0, robot, s, k)) return;
    FS fs(robot, arena, obs); int rep = I(1, 2); for (int i = 0; i < rep; ++i) fs.computeCSpaceBoundary();
    const auto &B = fs.getCSpaceBoundary();
    if (B.arena.size() != arena.size() * (nl + 1) || B.obstacle.size() != obs.size() * (nl + 1)) { FAIL(nm + "-collect-count", "%zu arena and %zu obstacle boundaries", B.arena.size(), B.obstacle.size()); return; }
    for (size_t i = 0; i < arena.size(); ++i) if (!check(nm + "-arena", B.arena, i * (nl + 1), robot, arena[i], -1)) return;
    for (size_t i = 0; i < obs.size(); ++i) if (!check(nm + "-obstacle", B.obstacle, i * (nl + 1), robot, obs[i], +1)) return;
    NT();
}
template <class T, class Gm, class P> static bool record(const std::string &nm, P &p, size_t i, const T &robot, const std::vector<Gm> &arena, const std::vector<Gm> &obs) {
    size_t nb = robot.getNumLinks() + 1; if (p.sliceBoundAll_.size() <= i) { FAIL(nm + "-slices", "%zu boundary records for slice %zu", p.sliceBoundAll_.size(), i); return false; }
    const auto &B = p.sliceBoundAll_.at(i); if (B.arena.size() != arena.size() * nb || B.obstacle.size() != obs.size() * nb) { FAIL(nm + "-slice-count", "slice %zu records %zu arena and %zu obstacle boundaries", i, B.arena.size(), B.obstacle.size()); return false; }
    for (size_t k = 0; k < arena.size(); ++k) if (!check(nm + "-slice-arena", B.arena, k * nb, robot, arena[k], -1)) return false;
    for (size_t k = 0; k < obs.size(); ++k) if (!check(nm + "-slice-obstacle", B.obstacle, k * nb, robot, obs[k], +1)) return false;
    return true;
}
static void slices2() {
    World2 w = world2(2); CASES(w.d); HRM2D p(w.robot, w.arena, w.obs, w.req); p.sampleOrientations();
    for (size_t i = 0; i < p.headings_.size(); ++i) p.constructOneSlice(i);
    for (size_t i = 0; i < p.headings_.size(); ++i) {
        MultiBodyTree2D r = w.robot; Eigen::Matrix3d g = Eigen::Matrix3d::Identity(); g.topLeftCorner(2, 2) = Eigen::Rotation2Dd(p.headings_[i]).toRotationMatrix(); r.robotTF(g);
        if (!record("planner2D", p, i, r, w.arena, w.obs)) return;
    }
    if (!w.obs.empty()) NT();
}
static void slices3() {
    World3 w = world3(2, 5); CASES(w.d); HRM3D p(w.robot, w.arena, w.obs, w.req); p.sampleOrientations();
    for (size_t i = 0; i < p.q_.size(); ++i) p.constructOneSlice(i);
    for (size_t i = 0; i < p.q_.size(); ++i) {
        MultiBodyTree3D r = w.robot; Eigen::Matrix4d g = Eigen::Matrix4d::Identity(); g.topLeftCorner(3, 3) = p.q_[i].toRotationMatrix(); r.robotTF(g);
        if (!record("planner3D", p, i, r, w.arena, w.obs)) return;
    }
    if (!w.obs.empty()) NT();
}
static void slicesA() {
    World3 w = worldA(1, 5); CASES(w.d); ProbHRM3D p(w.robot, "x", w.arena, w.obs, w.req); p.param_.numSlice = 0; int n = I(1, 3);
    for (int i = 0; i < n; ++i) { p.sampleOrientations(); p.constructOneSlice(i); p.param_.numSlice++; }
    for (int i = 0; i < n; ++i) {
        ParseURDF k("x"); MultiBodyTree3D r = w.robot; const auto &v = p.v_.at(i); Eigen::VectorXd jc(v.size() - 7); for (size_t j = 7; j < v.size(); ++j) jc[j - 7] = v[j];
        Eigen::Matrix4d g = Eigen::Matrix4d::Identity(); g.topLeftCorner(3, 3) = Eigen::Quaterniond(v[3], v[4], v[5], v[6]).toRotationMatrix();
        r.robotTF(k, g, jc);
        if (!record("plannerArticulated", p, i, r, w.arena, w.obs)) return;
    }
    if (!w.obs.empty()) NT();
}
void run_oracle(double secs) {
    orc::Clock c; c.lim = secs;
    while (c.left() && cases() < 30000) {
        guarded("2D-exception", [] { go<MultiBodyTree2D, SuperEllipse, FreeSpace2D>("2D"); });
        guarded("3D-exception", [] { go<MultiBodyTree3D, SuperQuadrics, FreeSpace3D>("3D"); });
        if (cases() % 8 == 0) { guarded("planner2D-exception", slices2); guarded("planner3D-exception", slices3); guarded("plannerArticulated-exception", slicesA); }
    }
}
