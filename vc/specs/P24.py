"""P24: orientation samples are complete and well-formed (HRM2D::sampleOrientations, HRM3D::sampleSO3, ProbHRM3D::sampleOrientations)."""
from ..unit import *
from ..lib import *
from ..eigen import quat
from .srcs import *
TUS = ["src/planners/HRM2D.cpp", "src/planners/HRM3D.cpp", "src/planners/ProbHRM3D.cpp", "src/geometry/SuperQuadrics.cpp"]
ORACLE_SRC = PLANA; ORACLE_LIBS = ALL
ASSUMPTIONS = ["the sampling functions are called once per planner, on an empty sample list (constructor)"]
P = "hrm::planners::"
def planner(U, cls):
    o = U.obj(P + cls, "planner"); n = U.int("n", 1); U.assume(n < 2**40)
    return o.with_("param_", o.f["param_"].with_("numSlice", n)), n
def unit_planar(U):
    """HRM2D::sampleOrientations, any slice count n >= 1: n finite headings, -PI + 2 PI i / (n-1); one heading in [-PI, PI] for n = 1"""
    o, n = planner(U, "HRM2D"); o = o.with_("headings_", U.vec(REAL, "h", 0)); p = U.loc(o)
    U.cover("precondition")
    U.call(P + "HRM2D::sampleOrientations", p, [])
    r = U.rd(p); h = r.f["headings_"]; i = U.forall("i", 0, n); pi = z3.RealVal("3.1415926535897932")
    U.prove(z3.And(zi(h.len) == n, zi(r.f["param_"].f["numSlice"]) == n), "one heading per requested slice")
    x = h.get(i); d = U.real("d").v; U.assume(z3.Implies(n > 1, d * z3.ToReal(n - 1) == 2 * pi))
    U.prove(zb(is_fin(x)), "headings are finite")
    e = z3.RealVal("1/1000000")
    U.prove(z3.And(x.v >= -pi - e, x.v <= pi + e), "headings lie between -pi and pi")
    U.prove(z3.Implies(n > 1, z3.And(h.get(0).v <= -pi + e, h.get(0).v >= -pi - e, h.get(n - 1).v <= pi + e, h.get(n - 1).v >= pi - e)), "the first heading is -pi, the last one is pi")
    j = U.forall("j", 0, n - 2)
    U.prove(h.get(j + 1).v - h.get(j).v == h.get(j + 2).v - h.get(j + 1).v, "headings are evenly spaced")
def sphere(U, pre):
    o, n = planner(U, "HRM3D")
    o = o.with_("q_", Vec(0, ("lit", ()), o.f["q_"].et))
    m = U.int("m", 1 if pre else 0, None if pre else 0)
    rb = o.f["robot_"]; b = rb.f["base_"]; qs = b.f["qSample_"]; qs = Vec(m, qs.node, qs.et)
    o = o.with_("robot_", rb.with_("base_", b.with_("qSample_", qs))); p = U.loc(o)
    U.cover("precondition")
    U.call(P + "HRM3D::sampleOrientations", p, [])
    r = U.rd(p); q = r.f["q_"]; i = U.forall("i", 0); k = m if pre else n
    U.assume(i < k)
    U.prove(z3.And(zi(q.len) == k, zi(r.f["param_"].f["numSlice"]) == k), "one orientation per slice, slice count in step")
    c = [U.ex.real(q.get(i).f[x]).v for x in "wxyz"]
    if pre:
        for x in "wxyz": U.prove(U.ex.real(q.get(i).f[x]).v == U.ex.real(qs.get(i).f[x]).v, "the predefined orientations, in order (%s)" % x)
    else: U.prove(z3.Sum(*[x * x for x in c]) == 1, "unit quaternions")
def unit_random(U):
    """HRM3D::sampleOrientations without predefined orientations: n unit quaternions"""
    sphere(U, False)
def unit_predefined(U):
    """HRM3D::sampleOrientations with m >= 1 predefined orientations: exactly these, slice count m"""
    sphere(U, True)
def prob(U, which):
    o = U.obj(P + "ProbHRM3D", "planner"); s = z3.IntVal(which) if which < 2 else U.int("slices", 2); nj = U.int("joints", 0); U.assume(z3.And(nj < 2**20, zi(s) < 2**40))
    st = U.vec(REAL, "start", nj + 7); gl = U.vec(REAL, "goal", nj + 7)
    Q = o.f["q_"]; V = o.f["v_"]; Q = Vec(s, Q.node, Q.et); V = Vec(s, V.node, V.et)
    o = o.with_("param_", o.f["param_"].with_("numSlice", s)).with_("start_", st).with_("goal_", gl).with_("q_", Q).with_("v_", V)
    o = o.with_("maxJointAngle_", R(z3.RealVal("3.1415926") / 2))
    U.ex.contracts["m:KDL::Tree::getNrOfJoints"] = lambda ex, e: nj
    def uniform(ex, e):
        a, b = [ex.real(ex.ev(x)) for x in e["args"]]; ex.oblige(a.v <= b.v, "uniformReal bounds")
        x = ex.ctx.fresh("uniform", z3.RealSort()); ex.assume(z3.And(x >= a.v, x <= b.v)); return R(x)
    U.ex.contracts["m:ompl::RNG::uniformReal"] = uniform
    U.ex.contracts["construct:ompl::RNG"] = lambda ex, e: ex.opaque(e["t"])
    for w in (st, gl): U.assume(z3.Sum(*[w.get(3 + k).v * w.get(3 + k).v for k in range(4)]) == 1)
    p = U.loc(o)
    U.cover("precondition")
    U.call(P + "ProbHRM3D::sampleOrientations", p, [])
    r = U.rd(p); q, v = r.f["q_"], r.f["v_"]
    U.prove(z3.And(zi(q.len) == zi(s) + 1, zi(v.len) == zi(s) + 1), "one more orientation and one more configuration")
    i = U.forall("i", 0); U.assume(i < zi(s)); j = U.forall("j", 0, nj)
    for x in "wxyz": U.prove(U.ex.real(q.get(i).f[x]).v == U.ex.real(Q.get(i).f[x]).v, "earlier orientations are kept (%s)" % x)
    e = U.forall("e", 0); U.assume(e < zi(V.get(i).len))
    U.prove(z3.And(zi(v.get(i).len) == zi(V.get(i).len), v.get(i).get(e).v == V.get(i).get(e).v), "earlier configurations are kept")
    n = q.get(s); c = v.get(s); qc = [U.ex.real(n.f[x]).v for x in "wxyz"]
    U.prove(zi(c.len) == nj + 7, "the configuration has the position, the orientation and one value per joint")
    U.prove(z3.Sum(*[x * x for x in qc]) == 1, "the new orientation is a unit quaternion")
    for k in range(4): U.prove(c.get(3 + k).v == qc[k], "the configuration holds the new orientation (%d)" % k)
    for k in range(3): U.prove(c.get(k).v == 0, "the configuration is at the origin of the slice (%d)" % k)
    x = c.get(7 + j).v
    if which < 2:
        w = (st, gl)[which]; nm = ("start", "goal")[which]
        U.prove(x == w.get(7 + j).v, "joint values of the " + nm)
        for k in range(4): U.prove(qc[k] == w.get(3 + k).v, "orientation of the %s (%d)" % (nm, k))
    else: U.prove(z3.And(x >= -z3.RealVal("3.1415926") / 2, x <= z3.RealVal("3.1415926") / 2), "joint values within the joint range")
def unit_prob_start(U):
    """ProbHRM3D::sampleOrientations, first slice: the start's orientation and joints"""
    prob(U, 0)
def unit_prob_goal(U):
    """ProbHRM3D::sampleOrientations, second slice: the goal's orientation and joints"""
    prob(U, 1)
def unit_prob_random(U):
    """ProbHRM3D::sampleOrientations, later slices: a unit quaternion and joint values in range; earlier samples kept"""
    prob(U, 2)
UNITS = [unit_planar, unit_random, unit_predefined, unit_prob_start, unit_prob_goal, unit_prob_random]
