"""P28: refinement rounds (HighwayRoadMap::refineExistRoadmap, constructOneSlice in refinement mode, sweepLineProcess)."""
from ..unit import *
from ..lib import *
from .P02 import arg, FSC
from .P09 import slice_planner
from .srcs import *
TUS = ["src/planners/HRM2D.cpp", "src/planners/HRM3D.cpp", "src/planners/ProbHRM3D.cpp"]
ORACLE_SRC = PLANA; ORACLE_LIBS = ALL
P = "hrm::planners::"
RS = z3.RealSort(); IS = z3.IntSort(); LIM = 2**40
ASSUMPTIONS = ["constructOneSlice and connectExistSlice only append to the roadmap (proved in P14 for the functions that write it); search does not write it",
               "clock readings are arbitrary"]
def bounds(F, et): return Vec(1, ("fn", lambda i: Mat(1, 1, None, ("fn", lambda r, j: R(F)))), et)
def rebuilt(U, pl, articulated=False):
    d = 2 if pl.startswith("HRM2D") else 3
    p, log, code, val = slice_planner(U, pl, articulated, refine=True); o = U.rd(p)
    cfg = o.f["v_"] if articulated else o.f["headings_"] if d == 2 else o.f["q_"]
    s = U.int("slice", 0); U.assume(s < zi(cfg.len)); n0 = zi(o.f["sliceBoundAll_"].len); U.assume(s < n0)
    REC = z3.Function("recorded", IS, IS, RS); MSH = z3.Function("recordedMesh", IS, IS, RS)
    A = o.f["sliceBoundAll_"]; et = A.et; bt = o.f["sliceBound_"]
    bd = lambda k, c: Vec(1, ("fn", lambda i: Mat(1, 1, None, ("fn", lambda r, j: R(REC(k, c))))), bt.f["arena"].et)
    o = o.with_("sliceBoundAll_", Vec(n0, ("fn", lambda k: bt.with_("arena", bd(zi(k), 0)).with_("obstacle", bd(zi(k), 1))), et))
    if d == 3:
        M = o.f["sliceBoundMeshAll_"]; mt = o.f["sliceBoundMesh_"]; U.assume(zi(M.len) == n0)
        mm = lambda k, c: Vec(1, ("fn", lambda i: Struct("hrm::MeshMatrix", {"vertices": Mat(1, 1, None, ("fn", lambda r, j: R(MSH(k, c)))), "faces": Mat(1, 1, None, ("fn", lambda r, j: R(0)))})), mt.f["arena"].et)
        o = o.with_("sliceBoundMeshAll_", Vec(n0, ("fn", lambda k: mt.with_("arena", mm(zi(k), 0)).with_("obstacle", mm(zi(k), 1))), M.et))
    U.ex.wr(p, o)
    U.cover("precondition")
    U.call(P + ("HRM2D" if d == 2 else "HRM3D") + "::constructOneSlice", p, [s]); r = U.rd(p)
    sw = [x[1] for x in log if x[0] == "sweep"]; k = next((x[1] for x in log if x[0] == "place"), None)
    if len(sw) != 1 or k is None: raise Unsupported("the slice is not placed and swept by one call of setTransform and sweepLineProcess")
    if articulated:
        v = next(x[2] for x in log if x[0] == "config"); w = cfg.get(s); j = U.forall("j", 0); U.prove(zi(v.len) == zi(w.len), "placed at the slice's configuration: dimension"); U.assume(j < zi(w.len))
        U.prove(U.ex.real(v.get(j)).v == U.ex.real(w.get(j)).v, "placed at the slice's configuration")
    else:
        K = code(U.ex.real(cfg.get(s)).v, 0) if d == 2 else code(*[U.ex.real(cfg.get(s).f[c]).v for c in "wxyz"], 0)
        U.prove(k == K, "the robot is placed at the slice's orientation")
    for nm, c in (("arena", 0), ("obstacle", 1)):
        w = sw[0].f["sliceBound_"].f[nm]; U.prove(z3.And(zi(w.len) == 1, U.ex.real(w.get(0).get(0, 0)).v == REC(s, c)), nm + ": the sweep uses the boundaries recorded for this slice")
        if d == 3: w = sw[0].f["sliceBoundMesh_"].f[nm]; U.prove(z3.And(zi(w.len) == 1, U.ex.real(w.get(0).f["vertices"].get(0, 0)).v == MSH(s, c)), nm + ": the sweep uses the meshes recorded for this slice")
        i = U.forall("i", 0, n0); w = r.f["sliceBoundAll_"]
        U.prove(z3.And(zi(w.len) == n0, zi(w.get(i).f[nm].len) == 1, U.ex.real(w.get(i).f[nm].get(0).get(0, 0)).v == REC(i, c)), nm + ": every record is kept")
        if d == 3: w = r.f["sliceBoundMeshAll_"]; U.prove(z3.And(zi(w.len) == n0, U.ex.real(w.get(i).f[nm].get(0).f["vertices"].get(0, 0)).v == MSH(i, c)), nm + ": every mesh record is kept")
def unit_slice2(U):
    """HRM2D::constructOneSlice in a refinement round, any slice: the robot is placed at the slice's heading and the slice is swept once with the boundaries recorded for it; records unchanged"""
    rebuilt(U, "HRM2D")
def unit_slice3(U):
    """HRM3D::constructOneSlice in a refinement round: the same, boundaries and meshes"""
    rebuilt(U, "HRM3D")
def unit_slice3a(U):
    """HRM3D::constructOneSlice in a refinement round, articulated robot"""
    rebuilt(U, "ProbHRM3D", True)
def sweep(U, d):
    cls = "HRM%dD" % d; fs = U.obj("hrm::FreeSpace%dD" % d, "freeSpace"); f = U.loc(fs); o = U.obj(P + cls, "planner")
    nx, ny = U.int("numLineX", 1), U.int("numLineY", 1); U.assume(z3.And(nx < LIM, ny < LIM)); pr = o.f["param_"]; bl = pr.f["boundaryLimits"]; bl = Vec(2 * d, bl.node, bl.et)
    o = o.with_("param_", pr.with_("numLineX", nx).with_("numLineY", ny).with_("boundaryLimits", bl)).with_("freeSpacePtr_", Ptr(f))
    B = {k: U.real("boundaries." + k).v for k in ("arena", "obstacle")}; M = {k: U.real("meshes." + k).v for k in B}; S0 = {k: U.real("size." + k).v for k in B}
    for k in B:
        sb = o.f["sliceBound_"]; o = o.with_("sliceBound_", sb.with_(k, bounds(B[k], sb.f[k].et)))
        if d == 3: sm = o.f["sliceBoundMesh_"]; o = o.with_("sliceBoundMesh_", sm.with_(k, Vec(1, ("fn", lambda i, b=M[k]: Struct("hrm::MeshMatrix", {"vertices": Mat(1, 1, None, ("fn", lambda r, s: R(b))), "faces": Mat(1, 1, None, ("fn", lambda r, s: R(0)))})), sm.f[k].et)))
    C = U.ex.contracts; log = {}
    def current(ex, me, what):
        for k in B:
            v = me.f["cSpaceBoundary_"].f[k]; U.prove(z3.And(zi(v.len) == 1, ex.real(v.get(0).get(0, 0)).v == B[k]), "%s: the free-space computation holds this slice's %s boundaries" % (what, k))
            if d == 3: v = me.f["cSpaceBoundaryMesh_"].f[k]; U.prove(z3.And(zi(v.len) == 1, ex.real(v.get(0).f["vertices"].get(0, 0)).v == M[k]), "%s: the free-space computation holds this slice's %s meshes" % (what, k))
    mk = lambda n: Vec(n, ("fn", lambda i: Vec(0, ("lit", ()), REAL)), tvec(REAL))
    def setup(ex, this, args, fn):
        me = ex.rd(this); n = zi(ex.int(arg(ex, args[0]))); it = me.f["intersect_"]
        for k in ("arenaLow", "arenaUpp"): it = it.with_(k, mk(n))
        log["setup"] = 1; ex.wr(this, me.with_("intersect_", it)); return VOID
    def inter(ex, this, args, fn):
        if "setup" not in log: U.prove(False, "the tables are prepared before they are filled"); return VOID
        me = ex.rd(this); t = arg(ex, args[0]); current(ex, me, "tables")
        U.prove(zi(t.get(d - 2).len) == ny, "one coordinate per line of the current round")
        U.prove(zi(me.f["intersect_"].f["arenaLow"].len) == ny, "the tables have one row per line of the current round"); log["inter"] = 1; return VOID
    def free(ex, this, args, fn):
        me = ex.rd(this); y = arg(ex, args[0]); U.prove(zi(y.len) == ny, "free segments: one coordinate per line of the current round")
        U.prove(zi(me.f["intersect_"].f["arenaLow"].len) == ny, "free segments: the tables have one row per line of the current round"); log["free"] = 1
        g = me.f["segment_"]; ex.wr(this, me.with_("segment_", g.with_("ty", y).with_("xM", mk(y.len)))); return VOID
    C[FSC[d] + "::setup"] = setup; C["hrm::FreeSpace%dD::computeIntersectionInterval" % d] = C[FSC[d] + "::computeIntersectionInterval"] = inter; C[FSC[d] + "::computeFreeSegment"] = free
    U.cover("precondition")
    p = U.loc(o); U.call(P + cls + "::sweepLineProcess", p, []); r = U.rd(p)
    if "free" not in log: raise Unsupported("no free segments computed")
    U.prove(z3.And(zi(r.f["param_"].f["numLineX"]) == nx, zi(r.f["param_"].f["numLineY"]) == ny), "line counts unchanged")
    for k in B: U.prove(U.ex.real(r.f["sliceBound_"].f[k].get(0).get(0, 0)).v == B[k], "the slice's %s boundaries unchanged" % k)
def unit_sweep2(U):
    """HRM2D::sweepLineProcess, any line count and whatever the free-space object held before: its boundaries are those of the slice and its tables are made anew with the current line count before they are filled"""
    sweep(U, 2)
def unit_sweep3(U):
    """HRM3D::sweepLineProcess: the same, boundaries and meshes, in every plane of lines"""
    sweep(U, 3)
def rounds(U, cls):
    """contracts: constructOneSlice appends vertices and edges, connectExistSlice appends edges, search decides res_.solved; each checks that the round is in the state it relies on"""
    o = U.obj(P + cls, "planner"); n = U.int("numSlice", 0); U.assume(n < LIM); nx, ny = U.int("numLineX", 1), U.int("numLineY", 1); U.assume(z3.And(nx < LIM, ny < LIM))
    o = o.with_("param_", o.f["param_"].with_("numSlice", n).with_("numLineX", nx).with_("numLineY", ny))
    g = o.f["res_"].f["graphStructure"]; nv, ne = U.int("vertices", 0, LIM), U.int("edges", 0, LIM)
    d = 3 if cls == "HRM2D" else 7
    VX = z3.Function("vertexOf", IS, IS, RS); EA, EB = z3.Function("edgeFrom", IS, IS), z3.Function("edgeTo", IS, IS); WT = z3.Function("weightOf", IS, RS)
    vv = lambda k: Vec(k, ("fn", lambda i: Vec(d, ("fn", lambda j: R(VX(zi(i), zi(j)))), REAL)), g.f["vertex"].et)
    ee = lambda k: Vec(k, ("fn", lambda i: Struct(PAIR, {"first": EA(zi(i)), "second": EB(zi(i))})), g.f["edge"].et)
    PAIR = U.ex.res(g.f["edge"].get(0)).cls
    ww = lambda k: Vec(k, ("fn", lambda i: R(WT(zi(i)))), g.f["weight"].et)
    g = g.with_("vertex", vv(nv)).with_("edge", ee(ne)).with_("weight", ww(ne)); o = o.with_("res_", o.f["res_"].with_("graphStructure", g))
    old = o.f["vertexIdx_"]; na = zi(o.f["vertexIdxAll_"].len)
    MV = z3.Function("newVertices", IS, IS, IS); ME = z3.Function("newEdges", IS, IS, IS, IS); CODE = z3.Function("constructed", IS, IS); SV = z3.Function("solvedWith", IS, IS, z3.BoolSort())
    U.schema(["a", "b"], lambda a, b: z3.And(MV(a, b) >= 0, MV(a, b) < LIM)); U.schema(["t", "a", "b"], lambda t, a, b: z3.And(ME(t, a, b) >= 0, ME(t, a, b) < LIM))
    U.schema(["a"], lambda a: CODE(a) >= 0)
    sz = lambda me: (zi(me.f["res_"].f["graphStructure"].f["vertex"].len), zi(me.f["res_"].f["graphStructure"].f["edge"].len), zi(me.f["res_"].f["graphStructure"].f["weight"].len))
    def sane(ex, me, what):
        U.prove(z3.And(zb(me.f["isRefine_"])), what + ": in refinement mode")
        U.prove(z3.And(zi(me.f["param_"].f["numLineX"]) == 2 * nx, zi(me.f["param_"].f["numLineY"]) == 2 * ny), what + ": with doubled line counts")
    def grow(me, v, e):
        h = me.f["res_"].f["graphStructure"]; return me.with_("res_", me.f["res_"].with_("graphStructure", h.with_("vertex", vv(v)).with_("edge", ee(e)).with_("weight", ww(e))))
    def construct(ex, this, args, fn):
        me = ex.rd(this); s = zi(ex.int(arg(ex, args[0]))); sane(ex, me, "slice construction"); a, b, c = sz(me)
        me = grow(me, a + MV(a, s), b + ME(0, b, s)); ex.wr(this, me.with_("numVertex_", me.f["numVertex_"].with_("startId", CODE(s)))); return VOID
    def connect(ex, this, args, fn):
        me = ex.rd(this); s = zi(ex.int(arg(ex, args[0]))); sane(ex, me, "connection to the existing slice"); a, b, c = sz(me); x = me.f["vertexIdx_"]
        U.prove(zi(x.len) == s + 1, "connection to the existing slice: the new record of the slice is the last one")
        U.prove(zi(x.get(s).f["slice"]) == a, "connection to the existing slice: the slice's vertices end where the vertex list ends")
        ex.wr(this, grow(me, a, b + ME(1, b, s))); return VOID
    def search(ex, this, args, fn):
        me = ex.rd(this); a, b, c = sz(me); ex.wr(this, me.with_("res_", me.f["res_"].with_("solved", SV(a, b)))); return VOID
    C = U.ex.contracts
    key = lambda m: next(q for q in U.prog.byq if q.startswith(P + "HighwayRoadMap<") and q.endswith("::" + m) and ("2D" in q) == (cls == "HRM2D"))
    for m, h in (("constructOneSlice", construct), ("connectExistSlice", connect), ("search", search)):
        C[P + cls + "::" + m] = h
        try: C[key(m)] = h
        except StopIteration: pass
    def hook(L):
        if not L.fn["q"].endswith("refineExistRoadmap"): return
        for l in L.leaves.values():
            k = next((y[1] for y in l.path if y in (("f", "vertex"), ("f", "edge"), ("f", "weight"))), None)
            if k and isinstance(l.init, Vec): L.prove_invariants([("the roadmap only grows: " + k, (), lambda kk, st, l=l, n0=nv if k == "vertex" else ne: zi(L.get(st, l.root, l.path).len) >= n0)])
    U.ex.loop_specs.append(hook)
    U.cover("precondition")
    p = U.loc(o); U.call(key("refineExistRoadmap"), p, [U.real("timeLimit")]); r = U.rd(p)
    h = r.f["res_"].f["graphStructure"]; q = r.f["param_"]
    U.prove(z3.And(zi(q.f["numLineX"]) == 2 * nx, zi(q.f["numLineY"]) == 2 * ny, zi(q.f["numSlice"]) == n), "one round doubles both line counts and keeps the slice count")
    i = U.forall("i", 0, nv); j = U.forall("j", 0, d); e = U.forall("e", 0, ne)
    U.prove(z3.And(zi(h.f["vertex"].len) >= nv), "no vertex is dropped"); U.prove(z3.And(zi(h.f["edge"].len) >= ne, zi(h.f["weight"].len) == zi(h.f["edge"].len)), "no edge is dropped")
    U.prove(U.ex.real(h.f["vertex"].get(i).get(j)).v == VX(i, j), "existing vertices unchanged")
    U.prove(z3.And(zi(h.f["edge"].get(e).f["first"]) == EA(e), zi(h.f["edge"].get(e).f["second"]) == EB(e), U.ex.real(h.f["weight"].get(e)).v == WT(e)), "existing edges and weights unchanged")
    A = r.f["vertexIdxAll_"]; k = U.forall("k", 0); U.assume(k < zi(old.len)); x = A.get(na)
    U.prove(z3.And(zi(A.len) == na + 1, zi(x.len) == zi(old.len)), "the slice records of the previous round are kept")
    U.prove(z3.And(*[zi(x.get(k).f[c]) == zi(old.get(k).f[c]) for c in ("startId", "slice")]), "the slice records of the previous round are unchanged")
    x = r.f["vertexIdx_"]; k = U.forall("k2", 0); U.assume(k < zi(x.len))
    U.prove(zi(x.get(k).f["startId"]) == CODE(k), "record k is that of slice k, constructed in this round")
    U.prove(z3.Or(z3.Not(zb(r.f["isRefine_"])), zi(x.len) >= 1), "a round that stops early has rebuilt at least one slice")
    U.prove(z3.Implies(z3.Not(zb(r.f["isRefine_"])), zi(x.len) == n), "a completed round has rebuilt every slice")
def unit_round2(U):
    """HighwayRoadMap::refineExistRoadmap (planar), any roadmap, slice count, line counts and time limit: doubles the line counts, keeps the roadmap, rebuilds and connects the slices in order until solved or out of time; a completed round has rebuilt every slice"""
    rounds(U, "HRM2D")
def unit_round3(U):
    """HighwayRoadMap::refineExistRoadmap (spatial)"""
    rounds(U, "HRM3D")
UNITS = [unit_slice2, unit_slice3, unit_slice3a, unit_sweep2, unit_sweep3, unit_round2, unit_round3]
