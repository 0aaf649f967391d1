#include "common.h"
#include "kdl_stub.h"
#include "hrm/datastructure/MultiBodyTree2D.h"
#include "hrm/datastructure/MultiBodyTree3D.h"
using namespace hrm;
static std::string str(const Eigen::MatrixXd &m) { std::vector<double> v(m.data(), m.data() + m.size()); return S(v); }
static Eigen::Matrix3d pose(const SuperEllipse &e) {
    Eigen::Matrix3d g = Eigen::Matrix3d::Identity(); double a = e.getAngle(); g(0, 0) = g(1, 1) = std::cos(a); g(1, 0) = std::sin(a); g(0, 1) = -g(1, 0);
    g(0, 2) = e.getPosition().at(0); g(1, 2) = e.getPosition().at(1); return g;
}
static Eigen::Matrix4d pose(const SuperQuadrics &e) {
    Eigen::Matrix4d g = Eigen::Matrix4d::Identity(); g.topLeftCorner(3, 3) = e.getQuaternion().toRotationMatrix();
    for (int i = 0; i < 3; ++i) g(i, 3) = e.getPosition().at(i); return g;
}
static bool same(const SuperEllipse &a, const SuperEllipse &b) { return a.getSemiAxis() == b.getSemiAxis() && a.getEpsilon() == b.getEpsilon() && a.getNum() == b.getNum(); }
static bool same(const SuperQuadrics &a, const SuperQuadrics &b) { return a.getSemiAxis() == b.getSemiAxis() && a.getEpsilon() == b.getEpsilon() && a.getNum() == b.getNum(); }
static SuperEllipse shape2() { return SuperEllipse({U(0.2, 10), U(0.2, 10)}, I(0, 3) ? 1.0 : U(0.2, 1.8), {G(20), G(20)}, I(0, 4) ? U(-7, 7) : 0.0, I(2, 20)); }
static Eigen::Quaterniond rq() { Eigen::Quaterniond q(N(), N(), N(), N()); if (I(0, 6) == 0) q = Eigen::Quaterniond(0, I(0, 1), 1, 0); if (I(0, 9) == 0) q.setIdentity(); q.normalize(); return q; }
static SuperQuadrics shape3() { return SuperQuadrics({U(0.2, 10), U(0.2, 10), U(0.2, 10)}, {I(0, 3) ? 1.0 : U(0.2, 1.8), 1.0}, {G(20), G(20), G(20)}, rq(), I(2, 9)); }
static Eigen::Matrix3d rp(const SuperEllipse &) { return pose(shape2()); }
static Eigen::Matrix4d rp(const SuperQuadrics &) { return pose(shape3()); }
template <class T, class G, class M, class F> static void history(const std::string &nm, F mk) {
    auto base = mk(); T robot(base); std::vector<G> links; std::vector<M> tf; std::string log = nm;
    M cur = pose(base); bool placed = false; int ops = I(1, 9);
    auto checkall = [&](const char *op) {
        if (robot.getNumLinks() != links.size() || robot.getLinks().size() != links.size()) { FAIL(nm + "-count", "%zu links reported, %zu stored, %zu added after %s", (size_t)robot.getNumLinks(), robot.getLinks().size(), links.size(), op); return; }
        auto near_ = [&](const M &a, const M &b) { return (a - b).norm() < 1e-8 * (1 + b.norm()); };
        if (!near_(pose(robot.getBase()), cur)) FAIL(nm + "-base", "base pose %s, expected %s after %s", str(pose(robot.getBase())).c_str(), str(cur).c_str(), op);
        if (!same(robot.getBase(), base)) FAIL(nm + "-base-shape", "base shape changed after %s", op);
        for (size_t i = 0; i < links.size(); ++i) {
            if (!same(robot.getLinks()[i], links[i])) { FAIL(nm + "-shape", "shape of link %zu changed after %s", i, op); break; }
        }
    };
    for (int k = 0; k < ops; ++k) {
        if (I(0, 1)) {
            auto l = mk(); links.push_back(l); tf.push_back(pose(l)); log += " add" + str(tf.back()); CASES(log);
            robot.addBody(l); checkall("addBody");
            if (!((pose(robot.getLinks().back()) - pose(l)).norm() < 1e-9)) FAIL(nm + "-added", "added link is not stored as given");
        } else {
            M g = rp(base); int rep = I(1, 2); log += " place" + str(g); CASES(log); cur = g; placed = true;
            for (int r = 0; r < rep; ++r) robot.robotTF(g);
            checkall("robotTF");
            for (size_t i = 0; i < links.size() && i < robot.getLinks().size(); ++i) {
                M x = g * tf[i], y = pose(robot.getLinks()[i]);
                if (!((x - y).norm() < 1e-8 * (1 + x.norm()))) { FAIL(nm + "-link", "link %zu pose %s, expected %s", i, str(y).c_str(), str(x).c_str()); break; }
            }
            if (!links.empty()) NT();
        }
    }
    (void)placed;
}
void run_oracle(double secs) {
    Clock c; c.lim = secs;
    while (c.left() && cases() < 60000) {
        guarded("exception-2D", [] { history<MultiBodyTree2D, SuperEllipse, Eigen::Matrix3d>("2D", shape2); });
        guarded("exception-3D", [] { history<MultiBodyTree3D, SuperQuadrics, Eigen::Matrix4d>("3D", shape3); });
    }
}
