"""P19: roadmap vertices are the free-segment midpoints, indexed exactly (generateVertices, sweepLineProcess, connectOneSlice3D, buildRoadmap)."""
from ..unit import *
from ..lib import *
from ..eigen import quat, mat
from .P02 import FSC, arg
from .srcs import *
TUS = ["src/planners/HRM2D.cpp", "src/planners/HRM3D.cpp", "src/planners/ProbHRM3D.cpp"]
ORACLE_SRC = PLANA; ORACLE_LIBS = ALL
ASSUMPTIONS = ["free segments of a sweep line have equally long coordinate lists (P03)", "the articulated planner's current configuration has at least seven entries (set by setTransform)"]
IS, RS = z3.IntSort(), z3.RealSort()
P = "hrm::planners::"
LIM = 2**31
def segments(U, n, nm="seg", code=None):
    """free segments of n lines: xM[i] has c(i) entries m(i, j)"""
    s = U.obj("hrm::FreeSegment2D", nm); c = U.ctx.fresh_fn(nm + ".len", [IS], IS); m = U.ctx.fresh_fn(nm + ".mid", [IS, IS], RS)
    U.schema(["i"], lambda i: z3.And(c(i) >= 0, c(i) < LIM), None)
    return s.with_("ty", U.vec(REAL, nm + ".ty", n)).with_("xM", Vec(n, ("fn", lambda i: Vec(c(zi(i)), ("fn", lambda j: R(m(zi(i), zi(j)))), REAL)), tvec(REAL))), c, m
def vlist(o): return o.f["res_"].f["graphStructure"].f["vertex"]
def gen(U, cls, d, joints=False):
    o = U.obj(P + cls, "planner"); n = U.int("lines", 0); U.assume(n < LIM); s, c, m = segments(U, n); ty = s.f["ty"]; tx = U.real("tx")
    V0 = vlist(o); N0 = zi(V0.len); U.assume(N0 < LIM); L0 = o.f["numVertex_"].f["line"]
    nj = U.int("joints", 0) if joints else 0
    if joints: U.assume(nj < LIM); o = o.with_("vCur_", U.vec(REAL, "vCur", nj + 7))
    dim = 3 if d == 2 else 7 + nj
    U.cover("precondition")
    p = U.loc(o); U.call(P + cls + "::generateVertices", p, [tx, U.loc(s)]); r = U.rd(p); V = vlist(r); nv = r.f["numVertex_"]; pl = nv.f["plane"]
    i = U.forall("i", 0, n); j = U.forall("j", 0); U.assume(j < c(i)); a = U.forall("a", 0, N0); e = U.forall("e", 0); U.assume(e < zi(V0.get(a).len))
    U.prove(zi(pl.len) == n, "one index per line")
    f = lambda k: zi(pl.get(k))
    U.prove(z3.Implies(n > 0, f(0) == N0), "the first line starts at the first new vertex")
    U.prove(f(i) + c(i) == z3.If(i + 1 < n, f(i + 1), zi(V.len)), "each line's vertices end where the next line's begin, the last line's at the end of the list: one vertex per stored segment")
    U.prove(z3.Implies(n == 0, zi(V.len) == N0), "no lines: no vertices")
    U.prove(z3.And(f(i) >= N0, f(i) + c(i) <= zi(V.len)), "the index of a line's first vertex lies in the new part of the list")
    U.prove(z3.And(zi(V.get(a).len) == zi(V0.get(a).len), U.ex.real(V.get(a).get(e)).v == U.ex.real(V0.get(a).get(e)).v), "earlier vertices are kept")
    x = V.get(f(i) + j); b = r.f["robot_"].f["base_"]; b0 = o.f["robot_"].f["base_"]
    U.prove(zi(x.len) == dim, "dimension of a vertex")
    if d == 2: want = [m(i, j), ty.get(i).v, b0.f["angle_"].v]
    else: want = [tx.v, ty.get(i).v, m(i, j)] + [b0.f["quat_"].f[k].v for k in "wxyz"]
    for k, w in enumerate(want): U.prove(U.ex.real(x.get(k)).v == w, "vertex j of line i: coordinate %d is the line's coordinate, the segment's middle, the robot's orientation in their places" % k)
    if joints:
        q = U.forall("q", 7, nj + 7); U.prove(U.ex.real(x.get(q)).v == o.f["vCur_"].get(q).v, "vertex j of line i holds the joint values")
    ln = nv.f["line"]; l0 = 0 if d == 2 else zi(L0.len)
    U.prove(zi(ln.len) == l0 + 1, "one more record of line indices" if d == 3 else "one record of line indices")
    w = ln.get(l0); U.prove(z3.And(zi(w.len) == n, zi(w.get(i)) == f(i)), "the record holds the index of every line's first vertex")
    if d == 3:
        t = U.forall("t", 0, l0); y = U.forall("y", 0); U.assume(y < zi(L0.get(t).len)); U.prove(z3.And(zi(ln.get(t).len) == zi(L0.get(t).len), zi(ln.get(t).get(y)) == zi(L0.get(t).get(y))), "records of earlier planes are kept")
        U.prove(zi(nv.f["startId"]) == zi(o.f["numVertex_"].f["startId"]), "the slice's first index is kept")
    else: U.prove(zi(nv.f["startId"]) == N0, "the slice's first index is the number of vertices before")
def unit_vertices2(U):
    """HRM2D::generateVertices, any lines and segments: one vertex (middle, line coordinate, heading) per stored segment in line order; indices of every line's and the slice's first vertex"""
    gen(U, "HRM2D", 2)
def unit_vertices3(U):
    """HRM3D::generateVertices: the same with (x, y, middle, orientation)"""
    gen(U, "HRM3D", 3)
def unit_verticesA(U):
    """ProbHRM3D::generateVertices: the same with the joint values"""
    gen(U, "ProbHRM3D", 3, True)
def spaced(U, t, n, lo, hi, nm):
    """t covers [lo, hi] from end to end with n equally spaced values"""
    U.prove(zi(t.len) == n, nm + ": one per requested line")
    at = lambda i: U.ex.real(t.get(i)).v
    i = U.forall("i", 0, n); j = U.forall("j", 0, n - 2)
    U.prove(zb(is_fin(U.ex.real(t.get(i)))), nm + ": finite")
    U.prove(z3.Implies(n > 0, at(0) == lo), nm + ": starts at the lower limit"); U.prove(z3.Implies(n > 1, at(n - 1) == hi), nm + ": ends at the upper limit")
    U.prove(at(j + 1) - at(j) == at(j + 2) - at(j + 1), nm + ": equally spaced")
def sweep(U, d):
    """contracts: setup/computeIntersectionInterval/computeFreeSegment record what they are given; the free segments carry the identity of the tables they are computed from"""
    cls = "HRM%dD" % d; fs = U.obj("hrm::FreeSpace%dD" % d, "freeSpace"); f = U.loc(fs); o = U.obj(P + cls, "planner")
    nx, ny = U.int("numLineX", 1), U.int("numLineY", 1); U.assume(z3.And(nx < LIM, ny < LIM)); pr = o.f["param_"]; bl = pr.f["boundaryLimits"]; bl = Vec(2 * d, bl.node, bl.et)
    o = o.with_("param_", pr.with_("numLineX", nx).with_("numLineY", ny).with_("boundaryLimits", bl)).with_("freeSpacePtr_", Ptr(f))
    C = U.ex.contracts; log = {}; B = {}
    # identity of the slice's boundaries
    for k in ("arena", "obstacle"):
        b = U.real("boundaries." + k).v; B[k] = b
        sb = o.f["sliceBound_"]; o = o.with_("sliceBound_", sb.with_(k, Vec(1, ("fn", lambda i, b=b: Mat(1, 1, None, ("fn", lambda r, s: R(b)))), sb.f[k].et)))
        if d == 3:
            sm = o.f["sliceBoundMesh_"]; o = o.with_("sliceBoundMesh_", sm.with_(k, Vec(1, ("fn", lambda i, b=b: Struct("hrm::MeshMatrix", {"vertices": Mat(1, 1, None, ("fn", lambda r, s: R(b))), "faces": Mat(1, 1, None, ("fn", lambda r, s: R(0)))})), sm.f[k].et)))
    T = z3.Function("tablesOf", RS, RS, RS, RS, RS, RS)     # x, arena, obstacle, low, upp
    SG = z3.Function("middleOf", RS, RS, RS)                # tables, line coordinate
    def setup(ex, this, args, fn):
        me = ex.rd(this); n = zi(ex.int(arg(ex, args[0])))
        U.prove(n == ny, "the tables are made for the requested number of lines"); log["setup"] = 1
        ex.wr(this, me.with_("lowBound_", ex.real(arg(ex, args[1]))).with_("upBound_", ex.real(arg(ex, args[2])))); return VOID
    def ident(ex, me, k):
        if d == 3: v = me.f["cSpaceBoundaryMesh_"].f[k]; U.prove(zi(v.len) == 1, "the slice's " + k + " meshes are used"); return ex.real(v.get(0).f["vertices"].get(0, 0)).v
        v = me.f["cSpaceBoundary_"].f[k]; U.prove(zi(v.len) == 1, "the slice's " + k + " boundaries are used"); return ex.real(v.get(0).get(0, 0)).v
    def inter(ex, this, args, fn):
        if "setup" not in log: raise Unsupported("tables used before setup")
        me = ex.rd(this); t = arg(ex, args[0]); U.prove(zi(t.len) == d - 1, "line coordinates: one list per dimension")
        y = t.get(d - 2); U.prove(zi(y.len) == ny, "one y-coordinate per line"); i = U.forall("i", 0, ny)
        lim = lambda k: U.ex.real(bl.get(k)).v
        U.prove(z3.Implies(ny > 1, (U.ex.real(y.get(i)).v - lim(2)) * z3.ToReal(ny - 1) == z3.ToReal(i) * (lim(3) - lim(2))), "the lines of the tables are the sweep lines")
        x = z3.RealVal(0)
        if d == 3: x = ex.real(t.get(0).get(i_sub(t.get(0).len, 1))).v
        v = T(x, ident(ex, me, "arena"), ident(ex, me, "obstacle"), me.f["lowBound_"].v, me.f["upBound_"].v)
        it = me.f["intersect_"]; it = it.with_("arenaLow", Vec(1, ("fn", lambda i: Vec(1, ("fn", lambda j: R(v)), REAL)), tvec(REAL)))
        ex.wr(this, me.with_("intersect_", it)); log["inter"] = 1; return VOID
    def free(ex, this, args, fn):
        if "inter" not in log: raise Unsupported("free segments computed before the tables")
        me = ex.rd(this); y = arg(ex, args[0]); m = ex.real(me.f["intersect_"].f["arenaLow"].get(0).get(0)).v
        g = me.f["segment_"]
        g = g.with_("ty", y).with_("xM", Vec(y.len, ("fn", lambda i: Vec(1, ("fn", lambda j: R(SG(m, ex.real(y.get(i)).v))), REAL)), tvec(REAL)))
        ex.wr(this, me.with_("segment_", g)); return VOID
    C[FSC[d] + "::setup"] = setup; C["hrm::FreeSpace%dD::computeIntersectionInterval" % d] = C[FSC[d] + "::computeIntersectionInterval"] = inter; C[FSC[d] + "::computeFreeSegment"] = free
    U.cover("precondition")
    p = U.loc(o); U.call(P + cls + "::sweepLineProcess", p, []); r = U.rd(p); F = r.f["freeSegOneSlice_"]
    lim = lambda k: U.ex.real(bl.get(k)).v
    want = lambda x: T(x, B["arena"], B["obstacle"], lim(2 * d - 4 if d == 2 else 4), lim(1 if d == 2 else 5))
    i = U.forall("i", 0, ny)
    if d == 2:
        spaced(U, F.f["ty"], ny, lim(2), lim(3), "sweep lines")
        U.prove(zi(F.f["xM"].len) == ny, "free segments for every line")
        U.prove(U.ex.real(F.f["xM"].get(i).get(0)).v == SG(want(z3.RealVal(0)), U.ex.real(F.f["ty"].get(i)).v), "the segments of every line come from the slice's boundaries and the planning limits")
    else:
        spaced(U, F.f["tx"], nx, lim(0), lim(1), "planes of sweep lines")
        yz = F.f["freeSegmentYZ"]; k = U.forall("k", 0, nx); U.prove(zi(yz.len) == nx, "free segments for every plane")
        g = yz.get(k); spaced(U, g.f["ty"], ny, lim(2), lim(3), "sweep lines of a plane")
        U.prove(zi(g.f["xM"].len) == ny, "free segments for every line")
        U.prove(U.ex.real(g.f["xM"].get(i).get(0)).v == SG(want(U.ex.real(F.f["tx"].get(k)).v), U.ex.real(g.f["ty"].get(i)).v), "the segments of every line of plane k come from that plane's coordinate, the slice's boundaries and the planning limits")
def unit_sweep2(U):
    """HRM2D::sweepLineProcess, any line count >= 1: equally spaced lines from limit to limit; the stored segments are those of these lines, the slice's boundaries and the planning limits"""
    sweep(U, 2)
def unit_sweep3(U):
    """HRM3D::sweepLineProcess, any line counts >= 1: the same for the planes and the lines in each plane"""
    sweep(U, 3)
UNITS = [unit_vertices2, unit_vertices3, unit_verticesA, unit_sweep2, unit_sweep3]
