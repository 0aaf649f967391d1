#include "plan.h"
#include "cover.h"
#include "hrm/geometry/TightFitEllipsoid.h"
#include "hrm/util/InterpolateSE3.h"
static void c2(const std::string &nm, const V1 &a, double ta, double tb, int n, const SuperEllipse &e) {
    V1 c = e.getSemiAxis(); if (!sane(c, 2)) { FAIL(nm + "-axes", "semi-axes %s", S(c).c_str()); return; } NT();
    for (int i = 0; i < n; ++i) { double t = ta + (tb - ta) * i / (n - 1), x = excess<2>(a, rot(t), c, rot(e.getAngle())); if (x > 1 + 1e-6) { FAIL(nm + "-cover", "at step %d of %d (angle %.9g) the body reaches %.9g times the result %s at angle %.9g", i, n, t, x, S(c).c_str(), e.getAngle()); return; } }
}
static void c3(const std::string &nm, const V1 &a, const Eigen::Quaterniond &qa, const Eigen::Quaterniond &qb, int n, const SuperQuadrics &e) {
    V1 c = e.getSemiAxis(); if (!sane(c, 3)) { FAIL(nm + "-axes", "semi-axes %s", S(c).c_str()); return; } NT();
    for (int i = 0; i <= n; ++i) { auto q = qa.slerp(double(i) / n, qb); double x = excess<3>(a, rot(q), c, rot(e.getQuaternion())); if (x > 1 + 1e-6) { FAIL(nm + "-cover", "at step %d of %d the body reaches %.9g times the result %s", i, n, x, S(c).c_str()); return; } }
}
static void t2() { V1 a = ax(2); double ta = U(-4, 4), tb = I(0, 3) ? U(-4, 4) : ta + U(-.3, .3); int n = I(2, 9); CASES("2D a=" + S(a) + " thetaA=" + S(ta) + " thetaB=" + S(tb) + " steps=" + std::to_string(n)); c2("2D", a, ta, tb, n, getTFE2D(a, ta, tb, n, 10)); }
static void t3() { V1 a = ax(3); auto qa = rq(), qb = I(0, 2) ? rq() : qa.slerp(U(0, .3), rq()); if (!I(0, 3)) qb.coeffs() *= -1; int n = I(2, 7); CASES("3D a=" + S(a) + " quatA=" + S(vq(qa)) + " quatB=" + S(vq(qb)) + " steps=" + std::to_string(n)); c3("3D", a, qa, qb, n, getTFE3D(a, qa, qb, n, 5)); }
static void p2() {
    World2 w = world2(0); HRM2D p(w.robot, w.arena, w.obs, w.req); double ta = U(-4, 4), tb = I(0, 2) ? U(-4, 4) : ta + U(-.4, .4); CASES("planner " + w.d + " thetaA=" + S(ta) + " thetaB=" + S(tb)); auto ref = w.robot;
    if (I(0, 1)) p.setTransform({U(-5, 5), U(-5, 5), U(-3, 3)});
    std::vector<SuperEllipse> t = {w.arena[0]}; p.computeTFE(ta, tb, t); size_t n = w.robot.getNumLinks(); if (t.size() != n + 1) { FAIL("planner2D-count", "%zu fitted ellipses for %zu bodies", t.size(), n + 1); return; }
    c2("planner2D-base", w.robot.getBase().getSemiAxis(), ta, tb, w.req.parameters.numPoint, t[0]);
    for (size_t i = 0; i < n; ++i) { double o = w.robot.getLinks()[i].getAngle(); c2("planner2D-link", w.robot.getLinks()[i].getSemiAxis(), ta + o, tb + o, w.req.parameters.numPoint, t[i + 1]); }
}
static void p3() {
    World3 w = world3(0, 4); HRM3D p(w.robot, w.arena, w.obs, w.req); auto qa = rq(), qb = I(0, 2) ? rq() : qa.slerp(U(0, .3), rq()); CASES("planner " + w.d + " quatA=" + S(vq(qa)) + " quatB=" + S(vq(qb)));
    if (I(0, 1)) p.setTransform(vq(rq(), {1, 2, 3}));
    std::vector<SuperQuadrics> t = {w.arena[0]}; p.computeTFE(qa, qb, t); size_t n = w.robot.getNumLinks(), st = w.req.parameters.numPoint; if (t.size() != n + 1) { FAIL("planner3D-count", "%zu fitted ellipsoids for %zu bodies", t.size(), n + 1); return; }
    for (size_t b = 0; b <= n; ++b) { Eigen::Quaterniond o(1, 0, 0, 0); V1 a = w.robot.getBase().getSemiAxis(); if (b) { o = w.robot.getLinks()[b - 1].getQuaternion(); a = w.robot.getLinks()[b - 1].getSemiAxis(); } c3(b ? "planner3D-link" : "planner3D-base", a, qa * o, qb * o, st, t[b]); }
}
static void pa() {
    World3 w = worldA(0, 4); ProbHRM3D p(w.robot, "x", w.arena, w.obs, w.req); V1 v1 = w.req.start, v2 = w.req.goal; if (!I(0, 2)) for (size_t i = 0; i < v1.size(); ++i) if (i < 3 || i > 6) v2[i] = v1[i] + U(-.3, .3); else v2[i] = v1[i]; CASES("planner " + w.d + " first=" + S(v1) + " second=" + S(v2));
    std::vector<SuperQuadrics> t = {w.arena[0]}; p.computeTFE(v1, v2, t); size_t n = w.robot.getNumLinks(); if (t.size() != n + 1) { FAIL("plannerProb-count", "%zu fitted ellipsoids for %zu bodies", t.size(), n + 1); return; } NT();
    for (size_t b = 0; b <= n; ++b) if (!sane(t[b].getSemiAxis(), 3)) { FAIL("plannerProb-axes", "body %zu: semi-axes %s", b, S(t[b].getSemiAxis()).c_str()); return; }
    auto steps = interpolateCompoundSE3Rn(v1, v2, w.req.parameters.numPoint); steps.push_back(v1); steps.push_back(v2);
    for (auto &v : steps) { p.setTransform(v); auto bs = p.robot_.getBodyShapes(); for (size_t b = 0; b <= n; ++b) { double x = excess<3>(bs[b].getSemiAxis(), rot(bs[b].getQuaternion()), t[b].getSemiAxis(), rot(t[b].getQuaternion())); if (x > 1 + 1e-6) { FAIL("plannerProb-cover", "body %zu at %s reaches %.9g times the result", b, S(v).c_str(), x); return; } } }
}
void run_oracle(double secs) { orc::Clock c; c.lim = secs; while (c.left() && cases() < 400000) { for (int i = 0; i < 20; ++i) { guarded("2D-exception", t2); guarded("3D-exception", t3); } guarded("planner2D-exception", p2); guarded("planner3D-exception", p3); guarded("plannerProb-exception", pa); } }
