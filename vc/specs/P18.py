"""P18: multi-slice transition checks test every body at every step (isMultiSliceTransitionFree, isPtInCFree, bridgeSlice of HRM2D, HRM3D; HRM2D::setTransform)."""
from ..unit import *
from ..lib import *
from ..eigen import mat
from .P02 import arg
from .P10 import rot2, M2
from .srcs import *
TUS = ["src/planners/HRM2D.cpp", "src/planners/HRM3D.cpp", "src/planners/ProbHRM3D.cpp", "src/geometry/SuperEllipse.cpp", "src/geometry/SuperQuadrics.cpp"]
ORACLE_SRC = PLANA + ["src/util/EllipsoidSQCollisionFCL.cpp"]; ORACLE_LIBS = ALL
ASSUMPTIONS = ["crossings of a ray with one boundary by contract: intersectHorizontalLinePolygon2D (P04), intersectVerticalLineMesh3D (P05)", "interpolated configurations by contract: interpolateCompoundSE3Rn (P13)",
               "placing a 3D robot by contract: setTransform (P10, P27)", "getMinkSum2D / getMinkSum3D / getMeshFromParamSurface by contract (P08, P06)", "at least two interpolation points (numPoint >= 2; default 5)",
               "hrm::isCollision by contract: it decides contact of two bodies with the given collision objects (FCL)"]
IS, RS, BS = z3.IntSort(), z3.RealSort(), z3.BoolSort()
P = "hrm::planners::"; LIM = 2**31
def meshId(c): return Struct("hrm::MeshMatrix", {"vertices": Mat(1, 1, None, ("fn", lambda r, s: R(c))), "faces": Mat(1, 1, None, ("fn", lambda r, s: R(0)))})
def boundId(c): return Mat(1, 1, None, ("fn", lambda r, s: R(c)))
def code(ex, v, d): v = arg(ex, v); return ex.real((v.f["vertices"] if d == 3 else v).get(0, 0)).v
# ------------------------------------------------------------------ one point against one bridge slice
def inside(U, d):
    cls = P + "HRM%dD" % d; o = U.obj(cls, "planner"); nb, no = U.int("bodies", 1), z3.Function("cnt!obstacles", IS, IS); id = z3.Function("boundaryId", IS, IS, RS); b = U.int("body", 0); U.assume(z3.And(b < nb, nb < LIM))
    U.schema(["i"], lambda i: z3.And(no(i) >= 0, no(i) < LIM), None); et = o.f["bridgeSliceBound_"].et
    row = lambda i: Vec(no(zi(i)), ("fn", lambda j, i=i: boundId(id(zi(i), zi(j))) if d == 2 else meshId(id(zi(i), zi(j)))), None)
    bi = lambda i: row(i) if d == 3 else Struct("hrm::BoundaryInfo", {"arena": Vec(0, ("lit", ()), None), "obstacle": row(i)})
    o = o.with_("bridgeSliceBound_", Vec(nb, ("fn", bi), et)); p = U.vec(REAL, "point", d); x = [p.get(k).v for k in range(d)]
    cnt = z3.Function("cnt!crossings", *([RS] * d + [IS])); X = z3.Function("crossing", *([RS] * d + [IS, RS]))          # boundary, fixed coordinates of the ray, index
    def cross(ex, this, args, fn):
        if d == 2: c = code(ex, args[1], 2); f = [ex.real(ex.rd(args[0]) if isinstance(args[0], LV) else args[0]).v]
        else:
            l = arg(ex, args[0]); c = code(ex, args[1], 3); f = [ex.real(l.get(k, 0)).v for k in range(2)]; dz = [ex.real(l.get(k, 0)).v for k in range(3, 6)]
            for k in range(2): ex.oblige(dz[k] == 0, "the ray is vertical", "pre")
            ex.oblige(dz[2] != 0, "the ray has a direction", "pre")
        n = cnt(c, *f); ex.ctx.add_fact(z3.And(n >= 0, n < LIM))
        if d == 2: return Vec(n, ("fn", lambda j: R(X(c, *f, zi(j)))), REAL)
        pz = lambda j: mat(3, 1, lambda r, s: R([*f, X(c, *f, zi(j))][r]) if isinstance(r, int) else R(z3.If(r == 0, f[0], z3.If(r == 1, f[1], X(c, *f, zi(j))))))
        return Vec(n, ("fn", pz), None)
    U.ex.contracts["hrm::intersectHorizontalLinePolygon2D" if d == 2 else "hrm::intersectVerticalLineMesh3D"] = cross
    ray = [x[1]] if d == 2 else x[:2]; h = x[0] if d == 2 else x[2]
    C = lambda i, k: X(id(b, i), *ray, k); N = lambda i: cnt(id(b, i), *ray)
    ins = lambda i, k, m: z3.And(C(i, k) < h, h < C(i, m))
    out = U.bool("outside"); U.schema(["i", "k", "m"], lambda i, k, m: z3.Implies(z3.And(out, i >= 0, i < no(b), k >= 0, k < N(i), m >= 0, m < N(i)), z3.Not(ins(i, k, m))), None)
    U.cover("precondition")
    r = zb(U.val(U.call(cls + "::isPtInCFree", U.loc(o), [b, U.loc(p)])))
    i = U.forall("i", 0, no(b)); k, m = U.forall("k", 0), U.forall("m", 0); U.assume(z3.And(k < N(i), m < N(i)))
    U.prove(z3.Implies(r, z3.Not(ins(i, k, m))), "a point accepted for body b does not lie strictly between two crossings of any boundary of body b's bridge slice")
    U.prove(z3.Implies(out, r), "a point outside every boundary is accepted")
def unit_point2(U):
    """HRM2D::isPtInCFree, any number of boundaries and crossings: accepted exactly when the point lies strictly between no two crossings (hence not between the extreme ones) of any boundary of the body's bridge slice"""
    inside(U, 2)
def unit_point3(U):
    """HRM3D::isPtInCFree: the same with vertical rays and meshes"""
    inside(U, 3)
# ------------------------------------------------------------------ bodies of a placed robot
def placed(U, cls, d, dim, ident=False):
    """setTransform as a contract: body 0 is the base, body j+1 link j; positions are functions of body and configuration"""
    o = U.obj(P + cls, "planner"); nl = U.int("links", 0); U.assume(nl < LIM); r = o.f["robot_"]; L = r.f["link_"]; r = r.with_("numLinks_", nl).with_("link_", Vec(nl, L.node, L.et)); o = o.with_("robot_", r)
    POS = [z3.Function("position%d" % k, *([IS] + [RS] * dim + [RS])) for k in range(d)]
    if ident: POS = POS[:1] * d          # one code for the whole pose
    U.ex.loop_specs.append(lambda L: U.ctx.hints.append(L.E) if is_z3(L.E) and z3.is_const(L.E) else None)
    def place(ex, this, args, fn):
        v = arg(ex, args[0]); me = ex.rd(this); x = [ex.real(v.get(k)).v for k in range(dim)]
        pos = lambda b: Vec(d, ("fn", lambda c: R(POS[c](zi(b), *x)) if isinstance(c, int) else R(sel([POS[t](zi(b), *x) for t in range(d)], c))), REAL)
        rb = me.f["robot_"]; ol = rb.f["link_"]
        nr = rb.with_("base_", rb.f["base_"].with_("position_", pos(0))).with_("link_", Vec(ol.len, ("fn", lambda j: ol.get(j).with_("position_", pos(i_add(j, 1)))), ol.et))
        ex.wr(this, me.with_("robot_", nr)); return VOID
    U.ex.contracts[P + cls + "::setTransform"] = place
    return o, nl, POS
def sel(xs, c):
    r = xs[-1]
    for k in range(len(xs) - 2, -1, -1): r = z3.If(c == k, xs[k], r)
    return r
def steps(U, cls, d, dim, qual=None):
    o, nl, POS = placed(U, cls, d, dim); n = U.int("points", 2); U.assume(n < LIM); o = o.with_("param_", o.f["param_"].with_("numPoint", n))
    v1, v2 = U.vec(REAL, "v1", dim), U.vec(REAL, "v2", dim); F = z3.Function("outsideBridge", *([IS] + [RS] * d + [BS]))
    def free(ex, this, args, fn):
        v = arg(ex, args[1]); return F(zi(ex.int(ex.rd(args[0]) if isinstance(args[0], LV) else args[0])), *[ex.real(v.get(k)).v for k in range(d)])
    U.ex.contracts[P + "HRM%dD::isPtInCFree" % d] = U.ex.contracts[P + cls + "::isPtInCFree"] = free
    if d == 2: cnt = n; dt = U.real("dt").v; U.assume(dt * (z3.ToReal(n) - 1) == 1); at = lambda i: [(1 - z3.ToReal(zi(i)) * dt) * v1.get(k).v + z3.ToReal(zi(i)) * dt * v2.get(k).v for k in range(3)]
    else:
        cnt = n + 1; IV = z3.Function("interpolated", IS, IS, RS); at = lambda i: [IV(zi(i), z3.IntVal(k)) for k in range(dim)]
        interp(U, v1, v2, n, dim, IV)
    free_at = lambda i, b: F(zi(b), *[POS[c](zi(b), *at(i)) for c in range(d)])
    all_ = U.bool("allFree"); U.schema(["i", "b"], lambda i, b: z3.Implies(z3.And(all_, i >= 0, i < cnt, b >= 0, b <= nl), free_at(i, b)), None)
    U.cover("precondition")
    r = zb(U.val(U.call(P + "HRM%dD::isMultiSliceTransitionFree" % d, U.loc(o), [U.loc(v1), U.loc(v2)])))
    for _, q, a, b in list(U.ctx.__dict__.get("quots", {}).values()):
        if z3.is_const(q) and z3.simplify(b - (z3.ToReal(n) - 1)).eq(z3.RealVal(0)) and d == 2: U.prove(z3.Implies(a == 1, q == dt), "length of one step"); U.assume(z3.Implies(a == 1, q == dt))
    i = U.forall("i", 0, cnt); b = U.forall("b", 0, nl + 1)
    U.prove(z3.Implies(r, free_at(i, 0)), "approved: at every interpolated step the base is outside every boundary of its bridge slice")
    U.prove(z3.Implies(z3.And(r, b > 0), free_at(i, b)), "approved: at every interpolated step every link is outside every boundary of its bridge slice")
    if d == 3: U.prove(z3.Implies(all_, r), "transitions whose steps are all outside are approved")
def interp(U, v1, v2, n, dim, IV):
    def h(ex, this, args, fn):
        a, b = arg(ex, args[0]), arg(ex, args[1]); m = zi(ex.int(ex.rd(args[2]) if isinstance(args[2], LV) else args[2]))
        for k in range(dim): ex.oblige(z3.And(ex.real(a.get(k)).v == v1.get(k).v, ex.real(b.get(k)).v == v2.get(k).v), "interpolated from the first to the second configuration (%d)" % k, "pre")
        ex.oblige(m == n, "with the requested number of steps", "pre")
        return Vec(i_add(n, 1), ("fn", lambda i: Vec(dim, ("fn", lambda k: R(IV(zi(i), zi(k)))), REAL)), tvec(REAL))
    U.ex.contracts["hrm::interpolateCompoundSE3Rn"] = h
def unit_steps2(U):
    """HRM2D::isMultiSliceTransitionFree, any numPoint >= 2 and number of links: approved only when at each of the numPoint linear steps from v1 to v2 every placed body passes isPtInCFree for its own bridge slice"""
    steps(U, "HRM2D", 2, 3)
def unit_steps3(U):
    """HRM3D::isMultiSliceTransitionFree (rigid): the same for the numPoint+1 interpolated poses"""
    steps(U, "HRM3D", 3, 7)
def unit_stepsA(U):
    """HRM3D::isMultiSliceTransitionFree as used by ProbHRM3D (two joints)"""
    steps(U, "ProbHRM3D", 3, 9)
# ------------------------------------------------------------------ bridge slices
def bridge(U, d):
    cls = P + "HRM%dD" % d; S = "hrm::SuperEllipse" if d == 2 else "hrm::SuperQuadrics"; o = U.obj(cls, "planner"); nt, no = U.int("bodies", 0), U.int("obstacles", 0); U.assume(z3.And(nt < LIM, no < LIM))
    et = o.f["tfe_"].et; tid, oid = z3.Function("tfeId", IS, RS), z3.Function("obstacleId", IS, RS); sh = U.havoc(et, "shape")
    # shapes carry their identity in the first semi-axis
    shape = lambda c: sh.with_("semiAxis_", Vec(d, ("fn", lambda k: R(c)), REAL))
    pos = z3.Function("tfePosition", IS, IS, RS); par = z3.Function("parameterCount", RS, IS)
    tfe = Vec(nt, ("fn", lambda i: shape(tid(zi(i))).with_("position_", Vec(d, ("fn", lambda k, i=i: R(pos(zi(i), zi(k)))), REAL))), et)
    cnt = (lambda c: {"num_": par(c)}) 
    def ob(j): x = shape(oid(zi(j))); return x.with_("num_", par(oid(zi(j))))
    o = o.with_("tfe_", tfe).with_("obs_", Vec(no, ("fn", ob), et)); old = o.f["bridgeSliceBound_"]
    MK = z3.Function("minkowski", RS, RS, IS, RS); MS = z3.Function("meshOf", RS, IS, RS); first = lambda s: U.ex.real(s.f["semiAxis_"].get(0)).v
    def mink(ex, this, args, fn):
        a, b = arg(ex, this), arg(ex, args[0]); p = b.f["position_"]
        ex.oblige(zi(p.len) == d, "tfe position: dimension", "pre")
        for k in range(d): ex.oblige(ex.real(p.get(k)).v == 0, "the tightly fitted body is centred at the origin (%d)" % k, "pre")
        return boundId(MK(first(a), first(b), zi(ex.int(ex.rd(args[1]) if isinstance(args[1], LV) else args[1]))))
    def mesh(ex, this, args, fn): return meshId(MS(code(ex, args[0], 2), zi(ex.int(ex.rd(args[1]) if isinstance(args[1], LV) else args[1]))))
    U.ex.contracts[S + "::getMinkSum%dD" % d] = mink; U.ex.contracts["hrm::getMeshFromParamSurface"] = mesh
    U.cover("precondition")
    p = U.loc(o); U.call(cls + "::bridgeSlice", p, []); B = U.rd(p).f["bridgeSliceBound_"]; i, j = U.forall("i", 0, nt), U.forall("j", 0, no)
    U.prove(zi(B.len) == nt, "one bridge slice per tightly fitted body")
    w = B.get(i) if d == 3 else B.get(i).f["obstacle"]
    U.prove(zi(w.len) == no, "one boundary per obstacle")
    v = w.get(j); x = MK(oid(j), tid(i), 1)
    if d == 3: x = MS(x, par(oid(j))); v = v.f["vertices"]
    U.prove(U.ex.real(v.get(0, 0)).v == x, "boundary j of body i's bridge slice is that of obstacle j with tightly fitted body i, in order")
def unit_bridge2(U):
    """HRM2D::bridgeSlice, any number of bodies and obstacles: body i's bridge slice holds, for every obstacle in order, its outer Minkowski boundary with tightly fitted body i at the origin"""
    bridge(U, 2)
def unit_bridge3(U):
    """HRM3D::bridgeSlice: the same, as meshes with the obstacle's parameter count"""
    bridge(U, 3)
def unit_transform2(U):
    """HRM2D::setTransform: the robot is placed with the rotation by v[2] and the translation (v[0], v[1])"""
    o = U.obj(P + "HRM2D", "planner"); V = U.vec(REAL, "v", 3); log = []
    def tf(ex, this, args, fn): log.append(arg(ex, args[0])); return VOID
    U.ex.contracts[M2 + "::robotTF"] = tf; U.cover("precondition"); U.call(P + "HRM2D::setTransform", U.loc(o), [U.loc(V)])
    if len(log) != 1: raise Unsupported("the robot is not placed by one call of robotTF")
    th = V.get(2).v; W = [r + [V.get(k).v] for k, r in enumerate(rot2(F_COS(th), F_SIN(th)))] + [[0, 0, 1]]
    for a in range(3):
        for b in range(3): U.prove(U.ex.real(log[0].get(a, b)).v == W[a][b], "transform entry %d,%d" % (a, b))
UNITS = [unit_bridge2, unit_bridge3, unit_transform2, unit_point2, unit_point3, unit_steps2, unit_steps3, unit_stepsA]
