// random planners for the replay harnesses (built with -fno-access-control)
#pragma once
#include "common.h"
#include <kdl/tree.hpp>
static KDL::Tree gTree;
namespace kdl_parser { bool treeFromFile(const std::string &, KDL::Tree &t) { t = gTree; return true; } }   // the harness supplies the kinematic tree
#include "hrm/planners/HRM2D.h"
#include "hrm/planners/HRM3D.h"
#include "hrm/planners/ProbHRM3D.h"
using namespace hrm; using namespace hrm::planners;
using V1 = std::vector<double>;
using V2 = std::vector<V1>;
inline Eigen::Quaterniond rq() { Eigen::Quaterniond q(N(), N(), N(), N()); if (I(0, 9) == 0) q.setIdentity(); q.normalize(); return q; }
inline V1 vq(const Eigen::Quaterniond &q, const V1 &p = {0, 0, 0}) { return {p[0], p[1], p[2], q.w(), q.x(), q.y(), q.z()}; }
inline SuperEllipse e2(double lo, double hi, double sp, bool ell, int num = 20) { return SuperEllipse({U(lo, hi), U(lo, hi)}, ell || I(0, 2) == 0 ? 1.0 : U(0.4, 1.6), {U(-sp, sp), U(-sp, sp)}, I(0, 4) ? U(-4, 4) : 0.0, num); }
inline SuperQuadrics e3(double lo, double hi, double sp, bool ell, int num = 6) { return SuperQuadrics({U(lo, hi), U(lo, hi), U(lo, hi)}, {ell ? 1.0 : U(0.4, 1.6), ell ? 1.0 : U(0.4, 1.6)}, {U(-sp, sp), U(-sp, sp), U(-sp, sp)}, rq(), num); }
inline MultiBodyTree2D robot2(int nl, int num = 20) { auto b = e2(0.3, 3, 0, true, num); MultiBodyTree2D r(b); for (int i = 0; i < nl; ++i) r.addBody(e2(0.3, 2, 3, true, num)); return r; }
inline MultiBodyTree3D robot3(int nl, int num = 6) { auto b = e3(0.3, 3, 0, true, num); MultiBodyTree3D r(b); for (int i = 0; i < nl; ++i) r.addBody(e3(0.3, 2, 3, true, num)); return r; }
inline std::string desc(const SuperEllipse &g) { return S(g.getSemiAxis()) + "e" + S(g.getEpsilon()) + "@" + S(g.getPosition()) + "/" + S(g.getAngle()); }
inline std::string desc(const SuperQuadrics &g) { auto q = g.getQuaternion(); return S(g.getSemiAxis()) + "e" + S(g.getEpsilon()) + "@" + S(g.getPosition()) + "/" + S(V1{q.w(), q.x(), q.y(), q.z()}); }
template <class T, class Gm> inline std::string descAll(const T &r, const std::vector<Gm> &ar, const std::vector<Gm> &ob) {
    std::string d = " base=" + desc(r.getBase()); for (auto &l : r.getLinks()) d += " link=" + desc(l); for (auto &l : ar) d += " arena=" + desc(l); for (auto &l : ob) d += " obstacle=" + desc(l); return d; }
inline std::string desc(const PlannerParameter &p) { return " slices=" + std::to_string(p.numSlice) + " lines=" + std::to_string(p.numLineX) + "x" + std::to_string(p.numLineY) + " points=" + std::to_string(p.numPoint) + " neighbours=" + std::to_string(p.numSearchNeighbor) + " radius=" + S(p.searchRadius) + " limits=" + S(p.boundaryLimits); }
struct World2 { MultiBodyTree2D robot; std::vector<SuperEllipse> arena, obs; PlanningRequest req; std::string d; };
struct World3 { MultiBodyTree3D robot; std::vector<SuperQuadrics> arena, obs; PlanningRequest req; std::string d; };
inline World2 world2(int maxObs = 3) {
    World2 w{robot2(I(0, 2)), {}, {}, {}, ""}; w.arena.push_back(SuperEllipse({30, 20}, 1, {0, 0}, 0, 50)); for (int i = I(0, maxObs); i > 0; --i) w.obs.push_back(e2(1, 6, 14, false));
    auto &p = w.req.parameters; p.boundaryLimits = {-30, 30, -20, 20}; p.numSlice = I(1, 5); p.numLineY = I(2, 12); p.numPoint = I(2, 6); p.numSearchNeighbor = I(1, 6); p.searchRadius = I(0, 1) ? HALF_PI : U(0.2, 3);
    w.req.start = {U(-20, 20), U(-12, 12), U(-3, 3)}; w.req.goal = {U(-20, 20), U(-12, 12), U(-3, 3)};
    w.d = "2D" + descAll(w.robot, w.arena, w.obs) + desc(p) + " start=" + S(w.req.start) + " goal=" + S(w.req.goal); return w; }
inline World3 world3(int maxObs = 2, int num = 6) {
    World3 w{robot3(I(0, 1), num), {}, {}, {}, ""}; w.arena.push_back(SuperQuadrics({30, 20, 15}, {1, 1}, {0, 0, 0}, Eigen::Quaterniond(1, 0, 0, 0), num)); for (int i = I(0, maxObs); i > 0; --i) w.obs.push_back(e3(1, 6, 12, false, num));
    auto &p = w.req.parameters; p.boundaryLimits = {-30, 30, -20, 20, -15, 15}; p.numSlice = I(1, 4); p.numLineX = I(2, 4); p.numLineY = I(2, 5); p.numPoint = I(2, 5); p.numSearchNeighbor = I(1, 6); p.searchRadius = I(0, 1) ? HALF_PI : U(0.2, 3);
    if (I(0, 1)) { std::vector<Eigen::Quaterniond> qs; for (int i = I(1, 4); i > 0; --i) qs.push_back(rq()); auto b = w.robot.getBase(); b.setQuatSamples(qs); MultiBodyTree3D r(b); for (auto &l : w.robot.getLinks()) r.addBody(l); w.robot = r; }
    w.req.start = vq(rq(), {U(-20, 20), U(-12, 12), U(-8, 8)}); w.req.goal = vq(rq(), {U(-20, 20), U(-12, 12), U(-8, 8)});
    w.d = "3D" + descAll(w.robot, w.arena, w.obs) + desc(p) + " start=" + S(w.req.start) + " goal=" + S(w.req.goal); return w; }
// articulated chain base-link1-..-linkn (n >= 1 revolute/prismatic joints) matching the robot's bodies
inline World3 worldA(int maxObs = 2, int num = 6) {
    World3 w = world3(maxObs, num); int n = I(1, 2); auto b = e3(0.3, 3, 0, true, num); MultiBodyTree3D r(b); gTree = KDL::Tree("world"); gTree.addSegment(KDL::Segment("body0", KDL::Joint(KDL::Joint::None), KDL::Frame::Identity()), "world");
    for (int i = 1; i <= n; ++i) { r.addBody(e3(0.3, 2, 1, true, num)); auto q = rq(); gTree.addSegment(KDL::Segment("body" + std::to_string(i), KDL::Joint(I(0, 3) ? KDL::Joint::RotZ : KDL::Joint::RotX), KDL::Frame(KDL::Rotation::Quaternion(q.x(), q.y(), q.z(), q.w()), KDL::Vector(U(-2, 2), U(-2, 2), U(-2, 2)))), "body" + std::to_string(i - 1)); }
    w.robot = r; w.req.isRobotRigid = false; for (auto *v : {&w.req.start, &w.req.goal}) for (int i = 0; i < n; ++i) v->push_back(U(-1.5, 1.5));
    w.d = "articulated" + descAll(w.robot, w.arena, w.obs) + desc(w.req.parameters) + " start=" + S(w.req.start) + " goal=" + S(w.req.goal); return w; }
