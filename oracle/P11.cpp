#include "plan.h"
#include "cover.h"
#include "hrm/geometry/TightFitEllipsoid.h"
static void m2() {
    V1 a = ax(2), b = I(0, 3) ? ax(2) : a; double ta = I(0, 3) ? U(-4, 4) : I(-4, 4) * M_PI / 2, tb = I(0, 3) ? U(-4, 4) : I(0, 1) ? ta : ta + I(-3, 3) * M_PI / 2; int n = I(3, 30);
    CASES("2D a=" + S(a) + " b=" + S(b) + " thetaA=" + S(ta) + " thetaB=" + S(tb)); auto e = getMVCE2D(a, b, ta, tb, n); V1 c = e.getSemiAxis();
    if (!sane(c, 2) || !std::isfinite(e.getAngle())) { FAIL("2D-axes", "semi-axes %s, angle %g", S(c).c_str(), e.getAngle()); return; }
    double ea = excess<2>(a, rot(ta), c, rot(e.getAngle())), eb = excess<2>(b, rot(tb), c, rot(e.getAngle())); NT();
    if (ea > 1 + 1e-6) FAIL("2D-first", "the first ellipse reaches %.9g times the result %s at angle %.9g", ea, S(c).c_str(), e.getAngle());
    if (eb > 1 + 1e-6) FAIL("2D-second", "the second ellipse reaches %.9g times the result %s at angle %.9g", eb, S(c).c_str(), e.getAngle());
}
static Eigen::Quaterniond oq() { if (I(0, 3)) return rq(); Eigen::Quaterniond q(Eigen::AngleAxisd(I(-2, 2) * M_PI / 2, Eigen::Vector3d::Unit(I(0, 2)))); return I(0, 1) ? q : q * Eigen::Quaterniond(Eigen::AngleAxisd(U(-3, 3), Eigen::Vector3d::Unit(I(0, 2)))); }
static void m3() {
    V1 a = ax(3), b = I(0, 3) ? ax(3) : a; auto qa = oq(), qb = I(0, 4) ? oq() : qa; int n = I(3, 12);
    CASES("3D a=" + S(a) + " b=" + S(b) + " quatA=" + S(vq(qa)) + " quatB=" + S(vq(qb))); auto e = getMVCE3D(a, b, qa, qb, n); V1 c = e.getSemiAxis(); auto q = e.getQuaternion();
    if (!sane(c, 3) || !(std::fabs(q.norm() - 1) < 1e-6)) { FAIL("3D-axes", "semi-axes %s, quaternion %s", S(c).c_str(), S(vq(q)).c_str()); return; }
    double ea = excess<3>(a, rot(qa), c, rot(q)), eb = excess<3>(b, rot(qb), c, rot(q)); NT();
    if (ea > 1 + 1e-6) FAIL("3D-first", "the first ellipsoid reaches %.9g times the result %s", ea, S(c).c_str());
    if (eb > 1 + 1e-6) FAIL("3D-second", "the second ellipsoid reaches %.9g times the result %s", eb, S(c).c_str());
}
void run_oracle(double secs) { orc::Clock c; c.lim = secs; while (c.left() && cases() < 400000) for (int i = 0; i < 20; ++i) { guarded("2D-exception", m2); guarded("3D-exception", m3); } }
