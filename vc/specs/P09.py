"""P09: configuration-space boundaries, one per body, correctly shifted (MultiBodyTree2D/3D::minkSum, FreeSpaceComputator::computeCSpaceBoundary)."""
from ..unit import *
from ..lib import *
from ..eigen import quat, mat, quat_rot
from .P07 import rotq
from .P10 import rot2, tree, M2, M3
from .srcs import *
TUS = ["src/datastructure/MultiBodyTree2D.cpp", "src/datastructure/MultiBodyTree3D.cpp", "src/planners/HRM2D.cpp", "src/planners/HRM3D.cpp", "src/planners/ProbHRM3D.cpp", "src/geometry/SuperEllipse.cpp", "src/geometry/SuperQuadrics.cpp"]
ORACLE_SRC = PLANA; ORACLE_LIBS = ALL
ASSUMPTIONS = ["SuperEllipse::getMinkSum2D / SuperQuadrics::getMinkSum3D by contract: a matrix with the first shape's number of points whose value depends on the second body only through its size and its orientation (proved in P08)",
               "the robot is placed with the base at the origin of the slice and every link at the base pose composed with its stored transform (class invariant established by robotTF, proved in P10)"]
RS = z3.RealSort(); IS = z3.IntSort()
def dims(cls): return (2, "hrm::SuperEllipse", "getMinkSum2D") if cls == M2 else (3, "hrm::SuperQuadrics", "getMinkSum3D")
def orient(U, d, body):
    """what the Minkowski boundary depends on: the orientation as rotation entries"""
    if d == 2: return [F_COS(body.f["angle_"].v), F_SIN(body.f["angle_"].v)]
    m = quat_rot(U.ex, body.f["quat_"]); return [U.ex.real(m.get(i, j)).v for i in range(3) for j in range(3)]
def mink_fn(d): return z3.Function("minkowski%dD" % d, *([IS, RS] * 1 + [RS] * (d + (2 if d == 2 else 9)) + [IS, IS, RS]))
def mink_val(U, d, K, eps, ax, ori, r, j): return mink_fn(d)(zi(K), eps, *ax, *ori, zi(r), zi(j))
def contract(U, cls, s1):
    d, S, g = dims(cls)
    def h(ex, this, args, f):
        s = ex.res(ex.rd(this) if isinstance(this, LV) else this); b = ex.res(ex.rd(args[0]) if isinstance(args[0], LV) else args[0]); K = ex.int(args[1])
        for k in s.f:
            if s.f[k] is not s1.f[k] and not same_val(s.f[k], s1.f[k]): raise Unsupported("Minkowski operation applied to another shape")
        ax = [ex.real(b.f["semiAxis_"].get(k)).v for k in range(d)]
        e = b.f["epsilon_"]; e = e.v if d == 2 else ex.real(e.get(0)).v
        ori = orient(U, d, b)
        num = s1.f["num_"] if d == 2 else s1.f["Num_"]
        return mat(d, num, lambda r, j: R(mink_val(U, d, K, e, ax, ori, r, j)))
    return h
def used(U, d, v, i):
    """orientations at which the boundary of link i in the term v was computed"""
    f = mink_fn(d); out = {}; st = [U.ex.real(v).v]
    while st:
        t = st.pop()
        if is_uf_app(t) and t.decl().eq(f):
            if occurs(t, i): out[t.get_id()] = t.children()[2 + d:-2]
        else: st.extend(t.children())
    return list(out.values())
def same_val(a, b):
    if isinstance(a, R) and isinstance(b, R): return same(a.v, b.v)
    if isinstance(a, Vec) and isinstance(b, Vec): return a.node is b.node and same(a.len, b.len)
    if isinstance(a, Mat) and isinstance(b, Mat): return a.node is b.node or a.cells is not None and a.cells is b.cells
    if isinstance(a, Struct) and isinstance(b, Struct): return all(same_val(a.f[k], b.f[k]) for k in a.f)
    return (is_z3(a) or isinstance(a, int)) and same(a, b)
def minkowski(U, cls):
    d, S, g = dims(cls)
    n = U.int("n", 0); t, tf = tree(U, cls, n, d)
    b0 = t.f["base_"]
    if d == 2: th = U.real("th"); b0 = b0.with_("angle_", th); RB = rot2(F_COS(th.v), F_SIN(th.v))
    else:
        q = [U.real("b" + k) for k in "wxyz"]; U.assume(z3.Sum(*[x.v * x.v for x in q]) == 1); b0 = b0.with_("quat_", quat(*q)); RB = rotq(quat(*q))
    b0 = b0.with_("position_", lit_vec([R(0)] * d, REAL))
    t = t.with_("base_", b0)
    # class invariant after placing: link i has orientation RB * R(tf_i) and position RB * p(tf_i)
    rot = lambda i: [[z3.Sum(*[RB[r][k] * tf(i).get(k, c).v for k in range(d)]) for c in range(d)] for r in range(d)]
    pos = lambda i: [z3.Sum(*[RB[r][k] * tf(i).get(k, d).v for k in range(d)]) for r in range(d)]
    L = t.f["link_"]; k = z3.Int("k")
    pv = [z3.Function(fresh_name("linkpos"), IS, RS) for _ in range(d)]
    et = L.et
    if d == 2:
        an = z3.Function(fresh_name("linkang"), IS, RS)
        U.schema(["i"], lambda i: z3.And(F_COS(an(i)) == rot(i)[0][0], F_SIN(an(i)) == rot(i)[1][0]), None)
        ov = lambda i: ("angle_", R(an(i)))
    else:
        qf = [z3.Function(fresh_name("linkq"), IS, RS) for _ in range(4)]
        ql = lambda i: quat(*[R(f(i)) for f in qf])
        U.schema(["i"], lambda i: z3.And(z3.Sum(*[f(i) * f(i) for f in qf]) == 1, *[rotq(ql(i))[r][c] == rot(i)[r][c] for r in range(3) for c in range(3)]))
        ov = lambda i: ("quat_", ql(i))
    U.schema(["i"], lambda i: z3.And(*[pv[r](i) == pos(i)[r] for r in range(d)]))
    t = t.with_("link_", fn_vec(n, lambda i: L.get(i).with_("position_", lit_vec([R(p(zi(i))) for p in pv], REAL)).with_(*ov(zi(i))), et))
    # every body has one size per dimension
    ln = lambda v: zi(v.f["semiAxis_"].len) == d
    if d == 3: ln = lambda v: z3.And(zi(v.f["semiAxis_"].len) == d, zi(v.f["epsilon_"].len) == 2)
    U.assume(ln(b0)); U.schema(["i"], lambda i: z3.Implies(z3.And(i >= 0, i < n), ln(L.get(i))))
    s1 = U.obj(S, "shape"); K = U.int("K"); num = s1.f["num_"] if d == 2 else s1.f["Num_"]; U.assume(z3.And(zi(num) >= 0, zi(num) < 2**40))
    U.cover("precondition")
    U.ex.contracts[S + "::" + g] = contract(U, cls, s1)
    r = U.val(U.call(cls + "::minkSum", U.loc(t), [U.loc(s1), K]))
    U.prove(zi(r.len) == n + 1, "one boundary per body")
    i = U.forall("i", 0, n); j = U.forall("j", 0, num)
    eps = lambda b: b.f["epsilon_"].v if d == 2 else b.f["epsilon_"].get(0).v
    axs = lambda b: [b.f["semiAxis_"].get(k).v for k in range(d)]
    fl = lambda M: [M[0][0], M[1][0]] if d == 2 else [M[r][c] for r in range(3) for c in range(3)]
    m = r.get(0); U.prove(z3.And(zi(m.r) == d, zi(m.c) == zi(num)), "base: one point per sample")
    for x in range(d): U.prove(U.ex.real(m.get(x, j)).v == mink_val(U, d, K, eps(b0), axs(b0), fl(RB), x, j), "base first, coordinate %d" % x)
    m = r.get(i + 1); U.prove(z3.And(zi(m.r) == d, zi(m.c) == zi(num)), "link i: one point per sample")
    l = L.get(i)
    # orientation used for link i equals the placed one
    for ori in used(U, d, m.get(0, j), i):
        for c, (x, y) in enumerate(zip(ori, fl(rot(i)))):
            U.prove_alg(x == y, "link i: orientation entry %d" % c); U.assume(x == y)
    for x in range(d):
        off = U.ghost(pos(i)[x]); A = U.ex.real(m.get(x, j)).v; B = mink_val(U, d, K, eps(l), axs(l), fl(rot(i)), x, j)
        U.prove(A == B - off, "link i: boundary at the current orientation, shifted by minus the offset, coordinate %d" % x)
def unit_mink2(U):
    """MultiBodyTree2D::minkSum: n+1 boundaries; base first; link i is the Minkowski boundary with the link at its current orientation, shifted by minus its offset"""
    minkowski(U, M2)
def unit_mink3(U):
    """MultiBodyTree3D::minkSum"""
    minkowski(U, M3)
FIELDS = {2: lambda s: [s.f["semiAxis_"].get(0).v, s.f["semiAxis_"].get(1).v, s.f["epsilon_"].v, s.f["position_"].get(0).v, s.f["position_"].get(1).v, s.f["angle_"].v],
          3: lambda s: [s.f["semiAxis_"].get(k).v for k in range(3)] + [s.f["epsilon_"].get(k).v for k in range(2)] + [s.f["position_"].get(k).v for k in range(3)] + [s.f["quat_"].f[k].v for k in "wxyz"]}
def collect(U, d):
    cls, FS, S = (M2, "hrm::FreeSpace2D", "hrm::SuperEllipse") if d == 2 else (M3, "hrm::FreeSpace3D", "hrm::SuperQuadrics")
    nl = U.int("links", 0); o = U.obj(FS, "fs"); rb = o.f["robot_"].with_("numLinks_", nl); o = o.with_("robot_", rb)
    na, no = U.int("na", 0), U.int("no", 0)
    et = U.ty(S); ar, ob = U.vec(et, "arena", na), U.vec(et, "obstacle", no)
    o = o.with_("arena_", RefVal(U.loc(ar))).with_("obstacle_", RefVal(U.loc(ob)))
    U.cover("precondition")
    nf = 6 if d == 2 else 12
    F = z3.Function("bodyBoundary%d" % d, *([RS] * nf + [IS] * 5 + [RS]))
    def h(ex, this, args, f):
        s = ex.res(ex.rd(args[0]) if isinstance(args[0], LV) else args[0]); K = zi(ex.int(args[1])); num = zi(s.f["num_"])
        fl = FIELDS[d](s)
        return fn_vec(nl + 1, lambda b: mat(d, num if d == 2 else zi(s.f["Num_"]), lambda r, j: R(F(*fl, num, K, zi(b), zi(r), zi(j)))), None)
    U.ex.contracts[cls + "::minkSum"] = h
    p = U.loc(o); U.call(next(q for q in U.prog.byq if q.startswith("hrm::FreeSpaceComputator") and q.endswith("computeCSpaceBoundary") and S in q and cls in q), p, [])
    B = U.rd(p).f["cSpaceBoundary_"]
    for nm, v, cnt, K in (("arena", ar, na, -1), ("obstacle", ob, no, 1)):
        w = B.f[nm]; i = U.forall("i", 0, cnt); b = U.forall("b", 0, nl + 1); r = U.forall("r", 0, d)
        U.prove(zi(w.len) == cnt * (nl + 1), "%s: nothing else is collected" % nm)
        m = w.get(i * (nl + 1) + b); s = v.get(i); num = zi(s.f["num_"]); j = U.forall("j", 0)
        U.assume(j < (num if d == 2 else zi(s.f["Num_"])))
        U.prove(U.ex.real(m.get(r, j)).v == F(*FIELDS[d](s), num, z3.IntVal(K), b, r, j), "%s: boundary of body b for shape i at position i (links+1) + b, with its sign" % nm)
def unit_collect2(U):
    """computeCSpaceBoundary, 2D: for every arena (sign -1) and obstacle (sign +1) the boundaries of all bodies, in order, and nothing else; earlier contents are discarded"""
    collect(U, 2)
def unit_collect3(U):
    """computeCSpaceBoundary, 3D"""
    collect(U, 3)
HP = "hrm::planners::"
def slice_planner(U, pl, articulated=False, refine=False):
    """a planner about to build one slice, with contracts for the parts of constructOneSlice that other properties decide; returns it and the record of calls"""
    d = 2 if pl.startswith("HRM2D") else 3
    fs = U.loc(U.obj("hrm::FreeSpace%dD" % d, "freeSpace")); o = U.obj(HP + pl, "planner")
    o = o.with_("freeSpacePtr_", Ptr(fs)).with_("isRefine_", refine)
    if d == 3: o = o.with_("isRobotRigid_", not articulated)
    p = U.loc(o); log = []
    C = U.ex.contracts; HRM = "HRM2D" if d == 2 else "HRM3D"
    # configuration -> what the placement depends on, as a code for the position of the robot
    code = z3.Function("placement", *([RS] * (1 if d == 2 else 4) + [IS, RS]))
    def place(ex, this, args, f):
        v = ex.res(ex.rd(args[0]) if isinstance(args[0], LV) else args[0]); me = ex.rd(this)
        if articulated: k = ("v", v)
        elif d == 2:
            U.prove(z3.And(zi(v.len) == 3, zb(i_eq(v.len, 3)), ex.real(v.get(0)).v == 0, ex.real(v.get(1)).v == 0), "placed at the slice's origin")
            k = code(ex.real(v.get(2)).v, 0)
        else:
            U.prove(z3.And(zi(v.len) == 7, *[ex.real(v.get(i)).v == 0 for i in range(3)]), "placed at the slice's origin")
            k = code(*[ex.real(v.get(3 + i)).v for i in range(4)], 0)
        if articulated: k = U.ghost(U.real("articulatedPlacement").v); log.append(("config", k, v))
        b = me.f["robot_"].f["base_"]
        ex.wr(this, me.with_("robot_", me.f["robot_"].with_("base_", b.with_("semiAxis_", lit_vec([R(k)], REAL))))); log.append(("place", k)); return VOID
    mark = lambda rb: U.ex.real(rb.f["base_"].f["semiAxis_"].get(0)).v      # the placed robot, as recorded by the placement contract
    val = z3.Function("collectedBoundary", RS, IS, IS, IS, RS)
    def bound(ex, this, args, f):
        me = ex.rd(this); k = mark(me.f["robot_"]); B = me.f["cSpaceBoundary_"]
        et = B.f["arena"].et
        nb = lambda nm, c: Vec(1, ("fn", lambda i: Mat(1, 1, None, ("fn", lambda r, j: R(val(k, c, zi(i), 0))))), et)
        ex.wr(this, me.with_("cSpaceBoundary_", B.with_("arena", nb("arena", 0)).with_("obstacle", nb("obstacle", 1)))); log.append(("bound", k)); return VOID
    key = next(q for q in U.prog.byq if q.startswith("hrm::FreeSpaceComputator") and q.endswith("computeCSpaceBoundary") and "MultiBodyTree%dD" % d in q)
    C[key] = bound
    C[HP + pl + "::setTransform"] = C[HP + HRM + "::setTransform"] = place
    C[HP + pl + "::sweepLineProcess"] = C[HP + HRM + "::sweepLineProcess"] = lambda ex, this, args, f: (log.append(("sweep", ex.rd(this))), VOID)[1]
    C[HP + pl + "::generateVertices"] = C[HP + HRM + "::generateVertices"] = lambda ex, this, args, f: VOID
    if d == 3:
        C["hrm::FreeSpace3D::computeCSpaceBoundaryMesh"] = lambda ex, this, args, f: (log.append(("mesh", args[0])), VOID)[1]
        C[HP + "HRM3D::connectOneSlice3D"] = lambda ex, this, args, f: VOID
    C[next(q for q in U.prog.byq if q.endswith("::connectOneSlice2D") and "MultiBodyTree%dD" % d in q)] = lambda ex, this, args, f: VOID
    return p, log, code, val
def one_slice(U, pl, articulated=False):
    d = 2 if pl.startswith("HRM2D") else 3
    p, log, code, val = slice_planner(U, pl, articulated); o = U.rd(p)
    cfg = o.f["v_"] if articulated else o.f["headings_"] if d == 2 else o.f["q_"]
    s = U.int("slice", 0); U.assume(s < zi(cfg.len)); n0 = o.f["sliceBoundAll_"].len
    U.cover("precondition")
    U.call(HP + ("HRM2D" if d == 2 else "HRM3D") + "::constructOneSlice", p, [s])
    r = U.rd(p); A = r.f["sliceBoundAll_"]
    k = next((x[1] for x in log if x[0] == "place"), None)
    if k is None: raise Unsupported("the robot is not placed by setTransform")
    if articulated:
        v = next(x[2] for x in log if x[0] == "config"); w = cfg.get(s); j = U.forall("j", 0)
        U.prove(zi(v.len) == zi(w.len), "placed at the slice's configuration: dimension"); U.assume(z3.And(j < zi(w.len)))
        U.prove(U.ex.real(v.get(j)).v == U.ex.real(w.get(j)).v, "placed at the slice's configuration")
        K = k
    elif d == 2: K = code(U.ex.real(cfg.get(s)).v, 0)
    else: K = code(*[U.ex.real(cfg.get(s).f[c]).v for c in "wxyz"], 0)
    U.prove(zi(A.len) == zi(n0) + 1, "one boundary record per slice")
    for nm, c in (("arena", 0), ("obstacle", 1)):
        for what, B in (("recorded", A.get(n0)), ("used in this slice", r.f["sliceBound_"])):
            w = B.f[nm]; U.prove(zi(w.len) == 1, "%s boundaries %s: count" % (nm, what))
            U.prove(U.ex.real(w.get(0).get(0, 0)).v == val(K, c, 0, 0), "%s boundaries %s are those of the robot at the slice's orientation and joint values" % (nm, what))
    i = U.forall("i", 0, n0); w0, w1 = o.f["sliceBoundAll_"].get(i).f["obstacle"], A.get(i).f["obstacle"]; j = U.forall("j", 0); U.assume(j < zi(w0.len))
    U.prove(z3.And(zi(w1.len) == zi(w0.len), U.ex.real(w1.get(j).get(0, 0)).v == U.ex.real(w0.get(j).get(0, 0)).v), "records of earlier slices are kept")
    sw = [x[1] for x in log if x[0] == "sweep"]
    if len(sw) != 1: raise Unsupported("the slice is not swept by one call of sweepLineProcess")
    U.prove(U.ex.real(sw[0].f["sliceBound_"].f["obstacle"].get(0).get(0, 0)).v == val(K, 1, 0, 0), "the sweep runs with the boundaries of this slice")
def unit_slice2(U):
    """HRM2D::constructOneSlice, any slice: the robot is placed at the origin with the slice's heading before the boundaries are collected; these are appended to the record and swept; earlier records are kept"""
    one_slice(U, "HRM2D")
def unit_slice3(U):
    """HRM3D::constructOneSlice, rigid robot: the same with the slice's orientation"""
    one_slice(U, "HRM3D")
def unit_slice3a(U):
    """HRM3D::constructOneSlice, articulated robot (ProbHRM3D): the same with the slice's orientation and joint values"""
    one_slice(U, "ProbHRM3D", True)
UNITS = [unit_mink2, unit_mink3, unit_collect2, unit_collect3, unit_slice2, unit_slice3, unit_slice3a]
