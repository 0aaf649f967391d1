"""P12: the tightly-fitted ellipsoid covers every interpolated orientation (src/geometry/TightFitEllipsoid.cpp getTFE2D, getTFE3D; computeTFE of HRM2D, HRM3D and ProbHRM3D)."""
from ..unit import *
from ..lib import *
from .srcs import *
from .P02 import arg
from .P07 import SE, SQ, unit_quat, rotq
from .P10 import tree
TUS = ["src/geometry/TightFitEllipsoid.cpp", "src/planners/HRM2D.cpp", "src/planners/HRM3D.cpp", "src/planners/ProbHRM3D.cpp"]
ORACLE_SRC = PLANA; ORACLE_LIBS = ALL
ASSUMPTIONS = ["the bodies of a robot are ellipsoids (exponent one); the number of interpolation steps is at least two",
               "covering is stated pointwise: an arbitrary fixed point that lies in the body at an interpolated orientation lies in the result; getMVCE2D/3D cover both inputs (P11)"]
LIM = 2**31
IS, RS, BS = z3.IntSort(), z3.RealSort(), z3.BoolSort()
def shape(U, d):
    """IN(axes, orientation): the arbitrary point, relative to the common centre, lies in the ellipsoid; M*: what getMVCE returns, a function of its arguments"""
    no = 1 if d == 2 else 4
    IN = z3.Function("pointIn%d" % d, *[RS] * (d + no), BS); sh = d + no
    M = [z3.Function("covering%d_%d" % (d, k), *[RS] * (2 * sh), RS) for k in range(sh)]
    return IN, M
def axes(U, ex, v, d, what):
    ex.oblige(zi(v.len) == d, what + ": %d semi-axes" % d); return [ex.real(v.get(k)).v for k in range(d)]
def rot(ex, x, d):
    if d == 2: return [ex.real(x).v]
    return [ex.real(x.f[k]).v for k in "wxyz"]
def mvce(U, d, IN, M, see=None):
    def h(ex, this, args, f):
        a, b = axes(U, ex, arg(ex, args[0]), d, "first ellipsoid"), axes(U, ex, arg(ex, args[1]), d, "second ellipsoid"); ta, tb = rot(ex, arg(ex, args[2]), d), rot(ex, arg(ex, args[3]), d)
        for x in a + b: ex.oblige(x > 0, "covering ellipsoid: positive semi-axes")
        for t in (ta, tb):
            if see: see(ex, t)
        v = a + ta + b + tb; r = [m(*v) for m in M]
        for k in range(d): ex.assume(r[k] > 0)
        if d == 3: ex.assume(z3.Sum(*[x * x for x in r[3:]]) == 1)
        ex.assume(z3.Implies(z3.Or(IN(*a, *ta), IN(*b, *tb)), IN(*r)))
        n = ex.int(arg(ex, args[4]))
        if d == 2: return U.obj(SE, "cover", semiAxis_=lit_vec([R(x) for x in r[:2]], REAL), epsilon_=R(1), position_=lit_vec([R(0), R(0)], REAL), angle_=R(r[2]), num_=n)
        from ..eigen import quat
        return U.obj(SQ, "cover", semiAxis_=lit_vec([R(x) for x in r[:3]], REAL), epsilon_=lit_vec([R(1), R(1)], REAL), position_=lit_vec([R(0)] * 3, REAL), quat_=quat(*[R(x) for x in r[3:]]), num_=n)
    return h
def ints(t, seen=None, out=None):
    out = [] if out is None else out; seen = set() if seen is None else seen
    if t.get_id() in seen: return out
    seen.add(t.get_id())
    if t.decl().kind() == z3.Z3_OP_TO_REAL: out.append(t.arg(0))
    for c in t.children(): ints(c, seen, out)
    return out
def unit_tfe2(U):
    """getTFE2D, any ellipse, any two angles, any number n >= 2 of steps: the result contains the ellipse at angle tA + i (tB - tA)/(n-1) for every i < n, both ends included"""
    IN, M = shape(U, 2); a = [U.real("a%d" % k) for k in range(2)]; ta, tb = U.real("thetaA"), U.real("thetaB"); n = U.int("steps", 2); U.assume(n < LIM); num = U.int("num", 2, LIM)
    for x in a: U.assume(x.v > 0)
    ANG = z3.Function("angleAt", IS, RS); U.assume(z3.And(ANG(0) == ta.v, ANG(n - 1) == tb.v))
    def see(ex, t):
        c = [x for x in ints(t[0]) if not x.eq(n)]; c = [x for k, x in enumerate(c) if not any(x.eq(y) for y in c[:k])]
        if len(c) == 1: U.prove_alg(t[0] == ta.v + (tb.v - ta.v) * (z3.ToReal(c[0]) / (z3.ToReal(n) - 1)), "angle of a step"); U.assume(ANG(c[0]) == t[0])
    U.ex.contracts["hrm::getMVCE2D"] = mvce(U, 2, IN, M, see); A = [x.v for x in a]
    def hook(L):
        if not L.fn["q"].endswith("getTFE2D"): return
        g = [l for l in L.leaves.values() if ("f", "angle_") in tuple(l.path)]
        if len(g) != 1: return
        def cur(st): return L.get(st, g[0].root, tuple(g[0].path)[:list(g[0].path).index(("f", "angle_"))])
        def body(kk, st, j):
            o = cur(st); s = o.f["semiAxis_"]
            return z3.Implies(z3.And(j >= 0, j < kk, IN(*A, ANG(j))), IN(s.get(0).v, s.get(1).v, U.ex.real(o.f["angle_"]).v))
        L.prove_invariants([("the ellipse at every angle so far is covered", ["j"], body)])
    U.ex.loop_specs.append(hook)
    U.cover("precondition")
    r = U.val(U.call("hrm::getTFE2D", None, [U.loc(lit_vec(a, REAL)), ta, tb, n, num]))
    j = U.forall("j", 0, n); s = r.f["semiAxis_"]
    U.prove(z3.Implies(IN(*A, ANG(j)), IN(s.get(0).v, s.get(1).v, U.ex.real(r.f["angle_"]).v)), "the ellipse at every interpolated angle is covered")
    U.prove(z3.And(s.get(0).v > 0, s.get(1).v > 0), "positive semi-axes"); U.prove(zi(r.f["num_"]) == num, "sample count")
def unit_tfe3(U):
    """getTFE3D, any ellipsoid, any two orientations, any number n >= 2 of steps: the result contains the ellipsoid at every one of the n + 1 interpolated orientations, both ends included; contract of interpolateSlerp: n + 1 unit quaternions, the first and the last the two inputs up to sign (P13)"""
    IN, M = shape(U, 3); a = [U.real("a%d" % k) for k in range(3)]; qa, qb = unit_quat(U, "A"), unit_quat(U, "B"); n = U.int("steps", 2); U.assume(n < LIM); num = U.int("num", 2, LIM)
    for x in a: U.assume(x.v > 0)
    A = [x.v for x in a]; c = lambda q: [U.ex.real(q.f[k]).v for k in "wxyz"]; neg = lambda q: [-x for x in q]
    Q = [z3.Function("slerp" + k, IS, RS) for k in "wxyz"]; at = lambda i: [f(i) for f in Q]
    for q in (c(qa), c(qb)): U.assume(IN(*A, *q) == IN(*A, *neg(q)))     # q and -q are the same rotation
    same = lambda p, q: z3.Or(z3.And(*[x == y for x, y in zip(p, q)]), z3.And(*[x == -y for x, y in zip(p, q)]))
    U.assume(z3.And(same(at(0), c(qa)), same(at(n), c(qb))))
    from ..eigen import quat
    def slerp(ex, this, args, f):
        x, y = arg(ex, args[0]), arg(ex, args[1]); m = zi(ex.int(arg(ex, args[2])))
        U.prove(z3.And(*[p == q for p, q in zip(c(x) + c(y), c(qa) + c(qb))]), "interpolation between the two given orientations"); U.prove(m == n, "interpolation with the given number of steps")
        return Vec(m + 1, ("fn", lambda i: quat(*[R(t) for t in at(zi(i))])), x.cls if hasattr(x, "cls") else None)
    C = U.ex.contracts; C["hrm::getMVCE3D"] = mvce(U, 3, IN, M); C["hrm::interpolateSlerp"] = slerp
    def hook(L):
        if not L.fn["q"].endswith("getTFE3D"): return
        g = [l for l in L.leaves.values() if ("f", "quat_") in tuple(l.path)]
        if not g: return
        def cur(st): return L.get(st, g[0].root, tuple(g[0].path)[:list(g[0].path).index(("f", "quat_"))])
        def body(kk, st, j):
            o = cur(st); s = o.f["semiAxis_"]
            return z3.Implies(z3.And(j >= 0, j <= kk, IN(*A, *at(j))), IN(*[s.get(k).v for k in range(3)], *c(o.f["quat_"])))
        L.prove_invariants([("the ellipsoid at every orientation so far is covered", ["j"], body),
            ("the ellipsoid at the last orientation is covered", (), lambda kk, st: z3.Implies(IN(*A, *at(n)), IN(*[cur(st).f["semiAxis_"].get(k).v for k in range(3)], *c(cur(st).f["quat_"]))))])
    U.ex.loop_specs.append(hook)
    U.cover("precondition")
    r = U.val(U.call("hrm::getTFE3D", None, [U.loc(lit_vec(a, REAL)), U.loc(qa), U.loc(qb), n, num]))
    j = U.forall("j", 0, n + 1); s = r.f["semiAxis_"]
    U.prove(z3.Implies(IN(*A, *at(j)), IN(*[s.get(k).v for k in range(3)], *c(r.f["quat_"]))), "the ellipsoid at every interpolated orientation is covered")
    U.prove(z3.And(*[s.get(k).v > 0 for k in range(3)]), "positive semi-axes")
def bodies(U, cls, d):
    """arbitrary robot whose body shapes are told apart: AX(-1, k) are the base's semi-axes, AX(i, k) those of link i"""
    n = U.int("links", 0); U.assume(n < LIM); t, tf = tree(U, cls, n, d); AX = z3.Function("bodyAxis", IS, IS, RS)
    U.schema(["i", "k"], lambda i, k: AX(i, k) > 0)
    ax = lambda b, i: b.with_("semiAxis_", lit_vec([R(AX(i, k)) for k in range(d)], REAL)); old = t.f["link_"]
    t = t.with_("base_", ax(t.f["base_"], z3.IntVal(-1))).with_("link_", fn_vec(n, lambda i: ax(U.ex.res(old.get(i)), zi(i)), old.et))
    return t, tf, n, AX
def body_of(U, ex, a, AX, d):
    """which body the semi-axes handed over belong to"""
    x = [ex.real(a.get(k)).v for k in range(d)]
    if zi(a.len).eq(z3.IntVal(d)) is False and ex.quick(zi(a.len) == d) is False: raise Unsupported("semi-axes of unknown length")
    i = next((t.arg(0) for t in x if z3.is_app(t) and t.decl().eq(AX)), None)
    if i is None: raise Unsupported("semi-axes of an unknown body")
    for k in range(d): U.prove(x[k] == AX(i, k), "the fitted ellipsoid is that of one body: semi-axis %d" % k)
    return i
def rigid(U, cls, d):
    o = U.obj("hrm::planners::" + cls, "planner"); t, tf, n, AX = bodies(U, "hrm::MultiBodyTree%dD" % d, d); np_ = U.int("numPoint", 2); U.assume(np_ < LIM)
    o = o.with_("robot_", t).with_("param_", o.f["param_"].with_("numPoint", np_))
    T = [z3.Function("tightFit%d" % k, IS, RS) for k in range(d + (1 if d == 2 else 4))]; log = []
    for k in range(d): U.schema(["i"], lambda i, k=k: T[k](i) > 0)
    if d == 2:
        ta, tb = U.real("thetaA"), U.real("thetaB"); ends = [ta, tb]
        R0 = lambda th: [[F_COS(th.v), -F_SIN(th.v)], [F_SIN(th.v), F_COS(th.v)]]
    else:
        ta, tb = unit_quat(U, "q1"), unit_quat(U, "q2"); ends = [U.loc(ta), U.loc(tb)]; R0 = rotq
    def fit(ex, this, args, f):
        a, x, y, m = arg(ex, args[0]), arg(ex, args[1]), arg(ex, args[2]), zi(ex.int(arg(ex, args[3]))); i = body_of(U, ex, a, AX, d); log.append(i)
        base = i.eq(z3.IntVal(-1)); g = [] if base else tf(i)
        want = lambda e: R0(e) if base else [[z3.Sum(*[R0(e)[r][k] * g.get(k, c).v for k in range(d)]) for c in range(d)] for r in range(d)]
        U.prove(m == np_, "with the requested number of interpolation steps")
        if d == 2:
            x, y = ex.real(x), ex.real(y)
            U.prove_alg(y.v - x.v == tb.v - ta.v, "sweep of the body's angle = sweep of the heading")
            for e, got, w in ((ta, x, "first"), (tb, y, "second")):
                c, s_ = MATH["cos"](ex, got).v, MATH["sin"](ex, got).v; W = want(e)
                U.prove_alg(c == W[0][0], "%s orientation of the body = heading composed with the body's own (cos)" % w); U.prove_alg(s_ == W[1][0], "%s orientation of the body = heading composed with the body's own (sin)" % w)
        else:
            from ..eigen import quat_rot
            for e, got, w in ((ta, x, "first"), (tb, y, "second")):
                G, W = quat_rot(ex, got), want(e)
                for r in range(3):
                    for c in range(3): U.prove_alg(ex.real(G.get(r, c)).v == W[r][c], "%s orientation of the body = orientation of the base composed with the body's own (%d,%d)" % (w, r, c))
        v = [R(t_(i)) for t_ in T]
        if d == 2: return U.obj(SE, "fit", semiAxis_=lit_vec(v[:2], REAL), epsilon_=R(1), position_=lit_vec([R(0)] * 2, REAL), angle_=v[2])
        from ..eigen import quat
        return U.obj(SQ, "fit", semiAxis_=lit_vec(v[:3], REAL), epsilon_=lit_vec([R(1), R(1)], REAL), position_=lit_vec([R(0)] * 3, REAL), quat_=quat(*v[3:]))
    U.ex.contracts["hrm::getTFE%dD" % d] = fit
    U.cover("precondition")
    out = U.loc(o.f["tfe_"]); U.call("hrm::planners::%s::computeTFE" % cls, U.loc(o), ends + [out]); r = U.rd(out)
    if not log: raise Unsupported("no fitted ellipsoid computed")
    U.prove(zi(r.len) == n + 1, "one fitted ellipsoid per body")
    j = U.forall("j", 0, n)
    for k, w, e in ((0, "the first is the base's", z3.IntVal(-1)), (j + 1, "number j+1 is link j's", j)):
        b = U.ex.res(r.get(k)); U.prove(z3.And(*[b.f["semiAxis_"].get(x).v == T[x](e) for x in range(d)]), w + ": semi-axes")
        got = [U.ex.real(b.f["angle_"]).v] if d == 2 else [U.ex.real(b.f["quat_"].f[x]).v for x in "wxyz"]
        U.prove(z3.And(*[p_ == T[d + x](e) for x, p_ in enumerate(got)]), w + ": orientation")
def unit_planner2(U):
    """HRM2D::computeTFE, any robot with any number of links and any two headings: one fitted ellipse per body, base first then the links in order, each computed from that body's semi-axes over the heading composed with the body's own orientation, with the requested number of steps"""
    rigid(U, "HRM2D", 2)
def unit_planner3(U):
    """HRM3D::computeTFE: the same, for quaternions"""
    rigid(U, "HRM3D", 3)
def unit_planner_prob(U):
    """ProbHRM3D::computeTFE, any articulated robot and any two configurations: one ellipsoid per body, base first then the links in order; that of body i contains body i, as the robot is placed there, at every one of the interpolated configurations; contracts: interpolateCompoundSE3Rn returns numPoint + 1 configurations (P13), setTransform places the robot (P27), getBodyShapes lists the placed bodies, base first (P27)"""
    PR = "hrm::planners::ProbHRM3D"; o = U.obj(PR, "planner"); t, tf, n, AX = bodies(U, "hrm::MultiBodyTree3D", 3); np_ = U.int("numPoint", 1); U.assume(np_ < LIM)
    o = o.with_("robot_", t).with_("param_", o.f["param_"].with_("numPoint", np_)); IN, M = shape(U, 3); C = U.ex.contracts
    START, STEP = z3.Real("firstConfiguration"), z3.Function("interpolated", IS, RS); ORI = [z3.Function("bodyOrientation" + k, RS, IS, RS) for k in "wxyz"]; ori = lambda m, i: [f(m, i) for f in ORI]
    A = lambda i: [AX(i - 1, k) for k in range(3)]
    v1, v2 = U.vec(REAL, "v1"), U.vec(REAL, "v2"); v1 = Vec(v1.len, ("fn", lambda i: R(z3.If(zi(i) == 0, START, START))), REAL)
    U.assume(z3.And(zi(v1.len) >= 8, zi(v2.len) == zi(v1.len)))
    from ..eigen import quat
    def interp(ex, this, args, f):
        a, b, m = arg(ex, args[0]), arg(ex, args[1]), zi(ex.int(arg(ex, args[2]))); U.prove(m == np_, "with the requested number of interpolation steps")
        j = U.forall("c"); U.prove(z3.And(zi(a.len) == zi(v1.len), zi(b.len) == zi(v2.len), z3.Implies(z3.And(j >= 0, j < zi(v1.len)), z3.And(ex.real(a.get(j)).v == v1.get(j).v, ex.real(b.get(j)).v == v2.get(j).v))), "interpolated between the two given configurations")
        return Vec(m + 1, ("fn", lambda i: Vec(v1.len, ("fn", lambda j, i=i: R(STEP(zi(i)))), REAL)), tvec(REAL))
    def place(ex, this, args, f):
        me = ex.rd(this); v = arg(ex, args[0]); rb = me.f["robot_"]
        ex.wr(this, me.with_("robot_", rb.with_("base_", rb.f["base_"].with_("position_", lit_vec([R(ex.real(v.get(0)).v)], REAL))))); return VOID
    def shapes(ex, this, args, f):
        rb = ex.rd(this); m = ex.real(rb.f["base_"].f["position_"].get(0)).v; b = rb.f["base_"]
        def el(i):
            i = zi(i); return b.with_("semiAxis_", lit_vec([R(x) for x in A(i)], REAL)).with_("quat_", quat(*[R(x) for x in ori(m, i)])).with_("position_", lit_vec([R(0)] * 3, REAL))
        return Vec(zi(rb.f["numLinks_"]) + 1, ("fn", el), t.f["link_"].et)
    C[PR + "::setTransform"] = place; C["hrm::planners::HRM3D::setTransform"] = place; C["hrm::MultiBodyTree3D::getBodyShapes"] = shapes; C["hrm::interpolateCompoundSE3Rn"] = interp; C["hrm::getMVCE3D"] = mvce(U, 3, IN, M)
    sh = lambda b: [U.ex.real(b.f["semiAxis_"].get(k)).v for k in range(3)] + [U.ex.real(b.f["quat_"].f[k]).v for k in "wxyz"]
    def hook(L):
        if not L.fn["q"].endswith("computeTFE"): return
        for l in L.leaves.values():
            if not isinstance(l.init, Vec) or l.how != "recursion": continue
            L.prove_invariants([("one ellipsoid per body", (), lambda kk, st, l=l: zi(L.get(st, l.root, l.path).len) == n + 1),
               ("every body is covered at every configuration so far", ["j", "i"], lambda kk, st, j, i, l=l: z3.Implies(z3.And(j >= 0, j < kk, i >= 0, i <= n, IN(*A(i), *ori(STEP(j), i))), IN(*sh(U.ex.res(L.get(st, l.root, l.path).get(i))))))])
    U.ex.loop_specs.append(hook)
    U.cover("precondition")
    out = U.loc(o.f["tfe_"]); U.call(PR + "::computeTFE", U.loc(o), [U.loc(v1), U.loc(v2), out]); r = U.rd(out)
    U.prove(zi(r.len) == n + 1, "one fitted ellipsoid per body")
    i = U.forall("i", 0, n + 1); j = U.forall("j", 0, np_ + 1)
    U.prove(z3.Implies(IN(*A(i), *ori(STEP(j), i)), IN(*sh(U.ex.res(r.get(i))))), "body i is covered at every interpolated configuration")
UNITS = [unit_tfe2, unit_tfe3, unit_planner2, unit_planner3, unit_planner_prob]
