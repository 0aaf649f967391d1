"""P06: recorded chords cover every boundary crossing (FreeSpace2D/3D::computeIntersectionInterval, FreeSpaceComputator::setup, FreeSpace3D::computeCSpaceBoundaryMesh)."""
from ..unit import *
from ..lib import *
from ..eigen import mat
from .P02 import FSC
from .srcs import *
TUS = ["src/datastructure/FreeSpace2D.cpp", "src/datastructure/FreeSpace3D.cpp", "src/planners/HRM2D.cpp", "src/planners/HRM3D.cpp"]
ORACLE_SRC = SPACE + GEOM + BODY; ORACLE_LIBS = FCL + KDL
ASSUMPTIONS = ["the crossings of a line with a boundary are those returned by intersectHorizontalLinePolygon2D / intersectVerticalLineMesh3D (P04, P05)",
               "the intersection tables hold one row per line and one column per boundary (established by setup, unit_setup*)"]
IS, RS = z3.IntSort(), z3.RealSort()
def arg(ex, a): return ex.res(ex.rd(a) if isinstance(a, LV) else a)
def tab(U, o, lines, cnt):
    it = o.f["intersect_"]
    for k, c in cnt.items():
        for b in ("Low", "Upp"):
            f = U.ctx.fresh_fn("old" + k + b, [IS, IS], RS)
            it = it.with_(k + b, Vec(lines, ("fn", lambda i, f=f, c=c: Vec(c, ("fn", lambda j, f=f, i=i: R(f(zi(i), zi(j)))), REAL)), tvec(REAL)))
    return o.with_("intersect_", it)
def chords(U, d):
    o = U.obj("hrm::FreeSpace%dD" % d, "freeSpace"); n = U.int("lines", 0); rows = U.int("rows", 0); U.assume(z3.And(rows < 2**31, n <= rows)); cnt = {"arena": U.int("na", 0), "obstacle": U.int("no", 0)}
    for c in cnt.values(): U.assume(c < 2**31)
    o = tab(U, o, rows, cnt)
    # a boundary is known to the contract of the line test by its identity
    B = o.f["cSpaceBoundary_"]; code = {}
    for k, c in cnt.items():
        f = code[k] = U.ctx.fresh_fn("boundary." + k, [IS], RS)
        B = B.with_(k, Vec(c, ("fn", lambda j, f=f: Mat(1, 1, None, ("fn", lambda r, s, j=j, f=f: R(f(zi(j)))))), B.f[k].et))
    o = o.with_("cSpaceBoundary_", B)
    if d == 3:
        M = o.f["cSpaceBoundaryMesh_"]
        for k, c in cnt.items():
            f = code[k]
            M = M.with_(k, Vec(c, ("fn", lambda j, f=f: Struct("hrm::MeshMatrix", {"vertices": Mat(1, 1, None, ("fn", lambda r, s, j=j, f=f: R(f(zi(j))))), "faces": Mat(1, 1, None, ("fn", lambda r, s: R(0)))})), M.f[k].et))
        o = o.with_("cSpaceBoundaryMesh_", M)
    tx, ty = U.vec(REAL, "tx"), U.vec(REAL, "ty", n)
    if d == 3: U.assume(zi(tx.len) >= 1)
    t = lit_vec([ty] if d == 2 else [tx, ty], tvec(REAL))
    C = U.ctx.fresh_fn("crossings", [RS] * (d - 1) + [RS], IS); X = U.ctx.fresh_fn("crossing", [RS] * (d - 1) + [RS, IS], RS)
    def at(i): return [ty.get(i).v] if d == 2 else [tx.get(i_sub(tx.len, 1)).v, ty.get(i).v]
    for k in cnt: U.schema(["i", "j"], lambda i, j: C(*at(i), code[k](j)) >= 0, None)
    def c2(ex, this, args, fn):
        y = ex.real(arg(ex, args[0])).v; b = arg(ex, args[1]); m = ex.real(b.get(0, 0)).v
        U.assume(C(y, m) >= 0); return Vec(C(y, m), ("fn", lambda k: R(X(y, m, zi(k)))), REAL)
    def c3(ex, this, args, fn):
        l = arg(ex, args[0]); b = arg(ex, args[1]); m = ex.real(b.f["vertices"].get(0, 0)).v; e = [ex.real(l.get(k, 0)).v for k in range(6)]
        U.prove(z3.And(e[3] == 0, e[4] == 0, e[5] != 0), "the sweep line is vertical")
        U.assume(C(e[0], e[1], m) >= 0); fx = [U.ctx.fresh_fn("px", [IS], RS) for _ in range(2)]
        return Vec(C(e[0], e[1], m), ("fn", lambda k: mat(3, 1, lambda r, s: R(X(e[0], e[1], m, zi(k))) if r == 2 else R(fx[r](zi(k))) if isinstance(r, int) else R(z3.If(r == 2, X(e[0], e[1], m, zi(k)), fx[0](zi(k)))))), None)
    U.ex.contracts["hrm::intersectHorizontalLinePolygon2D" if d == 2 else "hrm::intersectVerticalLineMesh3D"] = c2 if d == 2 else c3
    U.cover("precondition")
    p = U.loc(o); U.call("hrm::FreeSpace%dD::computeIntersectionInterval" % d, p, [U.loc(t)])
    r = U.rd(p).f["intersect_"]; lb, ub = o.f["lowBound_"].v, o.f["upBound_"].v
    for nm, c in cnt.items():
        i = U.forall("i", 0, n); j = U.forall("j", 0, c); a = at(i); m = code[nm](j); K = C(*a, m); k = U.forall("k", 0, K)
        L, Up = (r.f[nm + b].get(i).get(j) for b in ("Low", "Upp"))
        Q = z3.Function(fresh_name("isCrossing"), RS, z3.BoolSort())
        U.schema(["k"], lambda k: z3.Implies(z3.And(k >= 0, k < K), Q(X(*a, m, k))))
        if nm == "arena":
            U.prove(z3.Implies(K == 0, z3.And(zb(is_fin(L)), zb(is_fin(Up)), L.v == lb, Up.v == ub)), "arena: the planning limits where the line does not meet the boundary")
            U.prove(z3.And(zb(is_fin(L)), zb(is_fin(Up)), L.v <= lb, Up.v >= ub, z3.Implies(K > 0, z3.And(L.v <= X(*a, m, k), X(*a, m, k) <= Up.v))), "arena: the interval spans the planning limits and every crossing")
            U.prove(z3.And(z3.Or(L.v == lb, Q(L.v)), z3.Or(Up.v == ub, Q(Up.v))), "arena: and nothing more")
        else:
            U.prove(zb(is_nan(L)) == (K == 0), "obstacle: undefined exactly when there is no crossing (lower end)"); U.prove(zb(is_nan(Up)) == (K == 0), "obstacle: undefined exactly when there is no crossing (upper end)")
            U.prove(z3.Implies(K > 0, z3.And(zb(is_fin(L)), zb(is_fin(Up)), L.v <= X(*a, m, k), X(*a, m, k) <= Up.v)), "obstacle: the interval covers every crossing of its own line and boundary")
            U.prove(z3.Implies(K > 0, z3.And(Q(L.v), Q(Up.v))), "obstacle: the interval ends at crossings")
def unit_chords2(U):
    """FreeSpace2D::computeIntersectionInterval, any lines and boundaries: every entry (i, j) holds the smallest and largest crossing of line i with boundary j (arena: and the planning limits), undefined exactly when there is none"""
    chords(U, 2)
def unit_chords3(U):
    """FreeSpace3D::computeIntersectionInterval: the same for vertical lines at (last x, y_i) and the boundary meshes"""
    chords(U, 3)
def setup(U, d):
    nl = U.int("links", 0); na, no = U.int("na", 0), U.int("no", 0); rows = U.int("rows", 0); n = U.int("lines", 0)
    U.assume(z3.And(nl < 2**10, na < 2**20, no < 2**20, rows < 2**31, n < 2**31))
    o = U.obj("hrm::FreeSpace%dD" % d, "freeSpace"); o = o.with_("robot_", o.f["robot_"].with_("numLinks_", nl))
    et = U.ty("hrm::SuperEllipse" if d == 2 else "hrm::SuperQuadrics")
    o = o.with_("arena_", RefVal(U.loc(U.vec(et, "arena", na)))).with_("obstacle_", RefVal(U.loc(U.vec(et, "obstacle", no))))
    cnt = {"arena": (1 + nl) * na, "obstacle": (1 + nl) * no}; o = tab(U, o, rows, cnt)
    lb, ub = U.real("low"), U.real("upp")
    U.cover("precondition")
    p = U.loc(o); U.call(FSC[d] + "::setup", p, [n, lb, ub]); r = U.rd(p); it = r.f["intersect_"]
    U.prove(z3.And(r.f["lowBound_"].v == lb.v, r.f["upBound_"].v == ub.v), "the planning limits are recorded")
    i = U.forall("i", 0, n)
    for nm, c in cnt.items():
        for b in ("Low", "Upp"):
            U.prove(zi(it.f[nm + b].len) == n, nm + b + ": one row per line"); U.prove(zi(it.f[nm + b].get(i).len) == c, nm + b + ": one column per boundary")
            v = it.f[nm + b].get(i).get(U.forall("j", 0, c))
            if nm == "obstacle": U.prove(z3.Implies(i >= rows, zb(is_nan(v))), nm + b + ": new entries are undefined")
            else: U.prove(z3.Implies(i >= rows, z3.And(zb(is_fin(v)), v.v == (lb if b == "Low" else ub).v)), nm + b + ": new entries are the planning limits")
def unit_setup2(U):
    """setup, planar, from any earlier table with the same columns: one row per line, one column per boundary of every body"""
    setup(U, 2)
def unit_setup3(U):
    """setup, spatial"""
    setup(U, 3)
def unit_mesh(U):
    """FreeSpace3D::computeCSpaceBoundaryMesh: one mesh per boundary, made of that boundary with the sampling numbers of the shape it belongs to"""
    nl = U.int("links", 0); na, no = U.int("na", 0), U.int("no", 0); U.assume(z3.And(nl < 2**10, na < 2**20, no < 2**20))
    o = U.obj("hrm::FreeSpace3D", "freeSpace"); o = o.with_("robot_", o.f["robot_"].with_("numLinks_", nl)); et = U.ty("hrm::SuperQuadrics")
    ar, ob = U.vec(et, "arena", na), U.vec(et, "obstacle", no)
    o = o.with_("arena_", RefVal(U.loc(ar))).with_("obstacle_", RefVal(U.loc(ob)))
    B = U.havoc(U.ptypes("hrm::FreeSpace3D::computeCSpaceBoundaryMesh")[0].noref(), "bound"); cnt = {"arena": (1 + nl) * na, "obstacle": (1 + nl) * no}; code = {}
    for k, c in cnt.items():
        f = code[k] = U.ctx.fresh_fn("boundary." + k, [IS], RS)
        B = B.with_(k, Vec(c, ("fn", lambda j, f=f: Mat(1, 1, None, ("fn", lambda r, s, j=j, f=f: R(f(zi(j)))))), B.f[k].et))
    G = U.ctx.fresh_fn("meshOf", [RS, IS], RS)
    def c(ex, this, args, fn):
        b = arg(ex, args[0]); k = zi(ex.int(arg(ex, args[1]))); m = ex.real(b.get(0, 0)).v
        return Struct("hrm::MeshMatrix", {"vertices": Mat(1, 1, None, ("fn", lambda r, s: R(G(m, k)))), "faces": Mat(1, 1, None, ("fn", lambda r, s: R(0)))})
    U.ex.contracts["hrm::getMeshFromParamSurface"] = c
    U.cover("precondition")
    p = U.loc(o); U.call("hrm::FreeSpace3D::computeCSpaceBoundaryMesh", p, [U.loc(B)]); M = U.rd(p).f["cSpaceBoundaryMesh_"]
    for nm, v, m in (("arena", ar, na), ("obstacle", ob, no)):
        i = U.forall("i", 0, m); b = U.forall("b", 0, nl + 1); w = M.f[nm]; x = U.ghost(i * (nl + 1) + b)
        U.prove(zi(w.len) == cnt[nm], nm + ": one mesh per boundary")
        U.prove(U.ex.real(w.get(x).f["vertices"].get(0, 0)).v == G(code[nm](x), zi(v.get(i).f["num_"])), nm + ": the mesh of boundary b of shape i uses that boundary and that shape's sampling number")
UNITS = [unit_chords2, unit_chords3, unit_setup2, unit_setup3, unit_mesh]
