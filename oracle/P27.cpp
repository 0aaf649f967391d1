#include "common.h"
#include <kdl/tree.hpp>
static KDL::Tree gTree; static int gJoints;
namespace kdl_parser { bool treeFromFile(const std::string &, KDL::Tree &t) { t = gTree; return true; } }   // the harness supplies the kinematic tree
#include "hrm/planners/ProbHRM3D.h"
using namespace hrm;
static Eigen::Quaterniond rq() { Eigen::Quaterniond q(N(), N(), N(), N()); if (I(0, 5) == 0) q = Eigen::Quaterniond(0, 0, I(0, 1), 1); if (I(0, 5) == 0) q.setIdentity(); q.normalize(); return q; }
static SuperQuadrics shape() { return SuperQuadrics({U(0.2, 10), U(0.2, 10), U(0.2, 10)}, {1, 1}, {G(5), G(5), G(5)}, rq(), I(3, 8)); }
static Eigen::Matrix4d mat(const KDL::Frame &f) { Eigen::Matrix4d m = Eigen::Matrix4d::Identity(); for (int i = 0; i < 3; ++i) { for (int j = 0; j < 3; ++j) m(i, j) = f.M(i, j); m(i, 3) = f.p(i); } return m; }
static Eigen::Matrix4d pose(const SuperQuadrics &e) { Eigen::Matrix4d g = Eigen::Matrix4d::Identity(); g.topLeftCorner(3, 3) = e.getQuaternion().toRotationMatrix(); for (int i = 0; i < 3; ++i) g(i, 3) = e.getPosition().at(i); return g; }
static Eigen::Matrix4d axis(int ax, double a, bool slide) {
    Eigen::Vector3d u = Eigen::Vector3d::Unit(ax); Eigen::Matrix4d m = Eigen::Matrix4d::Identity();
    if (slide) m.topRightCorner(3, 1) = a * u; else m.topLeftCorner(3, 3) = Eigen::AngleAxisd(a, u).toRotationMatrix(); return m;
}
void run_oracle(double secs) {
    Clock c; c.lim = secs;
    while (c.left() && cases() < 30000) {
        int n = I(1, 4); gTree = KDL::Tree("world"); std::vector<int> parent(n + 1), ax(n + 1), sl(n + 1); std::vector<Eigen::Matrix4d> off(n + 1), fk(n + 1), tf(n + 1);
        gTree.addSegment(KDL::Segment("body0", KDL::Joint(KDL::Joint::None), KDL::Frame::Identity()), "world"); fk[0].setIdentity(); parent[0] = -1;
        std::string d = "articulated bodies=" + std::to_string(n);
        // the tree's order of joint indices is the order in which the segments are added; "body<i>" are added in a random order
        std::vector<int> order(n); for (int i = 0; i < n; ++i) order[i] = i + 1; 
        std::vector<int> jidx(n + 1);
        for (int i = 1; i <= n; ++i) parent[i] = I(0, i - 1);
        if (I(0, 2) == 0) { for (int i = 1; i <= n; ++i) parent[i] = 0; std::shuffle(order.begin(), order.end(), rng()); }
        int nj = 0;
        for (int i : order) {
            ax[i] = I(0, 2); sl[i] = I(0, 4) == 0; Eigen::Matrix4d o = pose(shape()); off[i] = o;
            KDL::Frame f(KDL::Rotation(o(0, 0), o(0, 1), o(0, 2), o(1, 0), o(1, 1), o(1, 2), o(2, 0), o(2, 1), o(2, 2)), KDL::Vector(o(0, 3), o(1, 3), o(2, 3)));
            KDL::Joint::JointType t = sl[i] ? (ax[i] == 0 ? KDL::Joint::TransX : ax[i] == 1 ? KDL::Joint::TransY : KDL::Joint::TransZ) : (ax[i] == 0 ? KDL::Joint::RotX : ax[i] == 1 ? KDL::Joint::RotY : KDL::Joint::RotZ);
            bool fixed = I(0, 5) == 0 && (nj || i != order[n - 1]);
            gTree.addSegment(KDL::Segment("body" + std::to_string(i), fixed ? KDL::Joint(KDL::Joint::None) : KDL::Joint(t), f), "body" + std::to_string(parent[i]));
            jidx[i] = fixed ? -1 : nj++;
        }
        { KDL::Tree t(gTree); gTree = t; for (int i = 1; i <= n; ++i) if (jidx[i] >= 0) jidx[i] = GetTreeElementQNr(gTree.getSegment("body" + std::to_string(i))->second); }   // copying a KDL tree renumbers its joints in depth-first order
        gJoints = nj; std::vector<double> V(7 + nj); for (auto &x : V) x = U(-3, 3); auto q = rq(); V[3] = q.w(); V[4] = q.x(); V[5] = q.y(); V[6] = q.z(); for (int i = 0; i < 3; ++i) V[i] = G(20);
        auto base = shape(); MultiBodyTree3D robot(base); std::vector<SuperQuadrics> links; for (int i = 1; i <= n; ++i) { auto l = shape(); links.push_back(l); robot.addBody(l); tf[i] = pose(l); }
        for (int i = 1; i <= n; ++i) d += " parent" + std::to_string(parent[i]) + "/joint" + std::to_string(jidx[i]);
        CASES(d + " V=" + S(V));
        std::function<Eigen::Matrix4d(int)> FK = [&](int i) -> Eigen::Matrix4d { if (i == 0) return Eigen::Matrix4d::Identity(); Eigen::Matrix4d J = jidx[i] < 0 ? Eigen::Matrix4d(Eigen::Matrix4d::Identity()) : axis(ax[i], V[7 + jidx[i]], sl[i]); return FK(parent[i]) * J * off[i]; };
        auto expect = [&](const std::string &key, const MultiBodyTree3D &r, const Eigen::Matrix4d &g) {
            auto ok = [](const Eigen::Matrix4d &a, const Eigen::Matrix4d &b) { return (a - b).norm() < 1e-7 * (1 + b.norm()); };
            if (!ok(pose(r.getBase()), g)) { FAIL(key + "-base", "base pose differs"); return; }
            if (r.getNumLinks() != (size_t)n || r.getLinks().size() != (size_t)n) { FAIL(key + "-count", "link count changed"); return; }
            for (int i = 1; i <= n; ++i) {
                if (!ok(pose(r.getLinks()[i - 1]), g * FK(i) * tf[i])) { FAIL(key + "-link", "pose of link %d differs by %g", i, (pose(r.getLinks()[i - 1]) - g * FK(i) * tf[i]).norm()); return; }
                if (r.getLinks()[i - 1].getSemiAxis() != links[i - 1].getSemiAxis()) { FAIL(key + "-shape", "shape of link %d changed", i); return; }
            }
        };
        Eigen::Matrix4d g = Eigen::Matrix4d::Identity(); g.topLeftCorner(3, 3) = q.toRotationMatrix(); for (int i = 0; i < 3; ++i) g(i, 3) = V[i];
        guarded("exception", [&] {
            Eigen::VectorXd jc(nj); for (int i = 0; i < nj; ++i) jc(i) = V[7 + i];
            ParseURDF p(gTree); KDL::JntArray ja; ja.data = jc;
            for (int i = 1; i <= n; ++i) { Eigen::Matrix4d t = p.getTransform(ja, "body" + std::to_string(i)); if (!((t - FK(i)).norm() < 1e-8 * (1 + t.norm()))) { FAIL("transform", "transform of body %d differs by %g", i, (t - FK(i)).norm()); return; } }
            auto r = robot; r.robotTF(p, g, jc); expect("kdl", r, g); r.robotTF(p, Eigen::Matrix4d::Identity(), Eigen::VectorXd::Zero(nj)); r.robotTF("file", g, jc); expect("file", r, g);
            PlanningRequest req; req.start = V; req.goal = V; req.parameters.boundaryLimits = {-30, 30, -30, 30, -30, 30}; static std::vector<SuperQuadrics> none; 
            hrm::planners::ProbHRM3D pl(robot, "file", none, none, req);
            pl.setTransform(V); expect("planner", pl.robot_, g); NT();
        });
    }
}
