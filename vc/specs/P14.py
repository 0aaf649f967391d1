"""P14: the roadmap stays well-formed under every construction step (bridgeVertex, connectOneSlice2D, connectOneSlice3D, connectMultiSlice, connectExistSlice)."""
from ..unit import *
from ..lib import *
from .P02 import arg
from .srcs import *
TUS = ["src/planners/HRM2D.cpp", "src/planners/HRM3D.cpp", "src/planners/ProbHRM3D.cpp"]
ORACLE_SRC = PLANA; ORACLE_LIBS = ALL
BOUNDED = "connectOneSlice2D, connectOneSlice3D, HRM3D::connectMultiSlice, and the second end of the edges of HRM2D::connectMultiSlice: random construction histories of the real planners only"
ASSUMPTIONS = ["the recorded index range of every slice lies inside the vertex list (P19)", "all configurations of a roadmap have the same number of coordinates (P19)"]
IS, RS, BS = z3.IntSort(), z3.RealSort(), z3.BoolSort()
P = "hrm::planners::"; LIM = 2**31
BASE = {"HRM2D": P + "HighwayRoadMap<hrm::MultiBodyTree2D, hrm::SuperEllipse>", "HRM3D": P + "HighwayRoadMap<hrm::MultiBodyTree3D, hrm::SuperQuadrics>", "ProbHRM3D": P + "HighwayRoadMap<hrm::MultiBodyTree3D, hrm::SuperQuadrics>"}
class Roadmap:
    """A planner with an arbitrary well-formed roadmap.  Configurations are only ever appended by the functions that have the
    append contracts below, so that entry i of the list is one ghost configuration VX(i) for all states that have it."""
    def __init__(self, U, cls, dim=None):
        self.U = U; self.cls = cls; d = self.d = 2 if cls == "HRM2D" else 3
        self.D = 3 if d == 2 else 7
        o = U.obj(P + cls, "planner"); g = o.f["res_"].f["graphStructure"]; nv, ne = U.int("vertices", 0), U.int("edges", 0); U.assume(z3.And(nv < LIM, ne < LIM))
        self.nv, self.ne = nv, ne; self.VX = z3.Function("configuration", IS, IS, RS)
        self.E0, self.W0 = Vec(ne, g.f["edge"].node, g.f["edge"].et), Vec(ne, g.f["weight"].node, g.f["weight"].et)
        self.vet = g.f["vertex"].et
        g = g.with_("vertex", self.vlist(nv)).with_("edge", self.E0).with_("weight", self.W0)
        self.o = o.with_("res_", o.f["res_"].with_("graphStructure", g))
        n = 2 * self.D
        self.SAME, self.MULTI, self.DIST = z3.Function("sameSliceFree", *([RS] * n + [BS])), z3.Function("multiSliceFree", *([RS] * (n + 1) + [BS])), z3.Function("euclidean", *([RS] * n + [RS]))
        C = U.ex.contracts
        C["hrm::vectorEuclidean"] = lambda ex, this, args, fn: R(self.DIST(*self.co(ex, args[0]), *self.co(ex, args[1])))
        C[P + cls + "::isSameSliceTransitionFree"] = C[BASE[cls] + "::isSameSliceTransitionFree"] = lambda ex, this, args, fn: self.SAME(*self.co(ex, args[0]), *self.co(ex, args[1]))
        if cls == "ProbHRM3D": C[P + "HRM3D::isSameSliceTransitionFree"] = C[P + cls + "::isSameSliceTransitionFree"]
    def vlist(self, n): return Vec(n, ("fn", lambda i: Vec(self.D, ("fn", lambda c: R(self.VX(zi(i), zi(c)))), REAL)), self.vet)
    def co(self, ex, a):
        v = arg(ex, a)
        if not same(v.len, self.D): ex.oblige(zi(v.len) == self.D, "configurations of the roadmap's dimension")
        return [ex.real(v.get(k)).v for k in range(self.D)]
    def x(self, i): return [self.VX(zi(i), z3.IntVal(k)) for k in range(self.D)]
    def graph(self, r): return r.f["res_"].f["graphStructure"]
    def kept(self, r):
        """earlier content is kept"""
        U = self.U; g = self.graph(r); V, E, W = g.f["vertex"], g.f["edge"], g.f["weight"]
        a = U.forall("a", 0, self.nv); e = U.forall("e", 0, self.ne)
        U.prove(z3.And(zi(V.len) >= self.nv, zi(E.len) >= self.ne), "the lists only grow")
        for k in range(self.D): U.prove(U.ex.real(V.get(a).get(k)).v == self.VX(a, z3.IntVal(k)), "earlier configurations are kept (coordinate %d)" % k)
        U.prove(zi(V.get(a).len) == self.D, "earlier configurations keep their length")
        x, y = E.get(e), self.E0.get(e)
        U.prove(z3.And(zi(x.f["first"]) == zi(y.f["first"]), zi(x.f["second"]) == zi(y.f["second"])), "earlier edges are kept")
        U.prove(U.ex.real(W.get(e)).v == U.ex.real(self.W0.get(e)).v, "earlier weights are kept")
        U.prove(zi(E.len) == zi(W.len), "one weight per edge")
    def new_edges(self, r, approved=None, ends=True):
        U = self.U; g = self.graph(r); V, E, W = g.f["vertex"], g.f["edge"], g.f["weight"]
        e = U.forall("n", self.ne); U.assume(e < zi(E.len)); x = E.get(e); f, s = zi(x.f["first"]), zi(x.f["second"])
        if approved is None:
            U.prove(z3.And(f >= 0, f < zi(V.len)), "a new edge starts at an existing vertex"); 
            if ends: U.prove(s >= 0, "a new edge ends at a vertex number"); U.prove(s < zi(V.len), "a new edge ends at an existing vertex")
            U.prove(U.ex.real(W.get(e)).v == self.DIST(*self.x(f), *self.x(s)), "the weight of a new edge is the distance of its ends")
        else: U.prove(approved(r, f, s), "a new edge was approved")
    def slices(self, n=None):
        """recorded index ranges of n slices"""
        U = self.U; n = U.int("slices", 0) if n is None else n; a, b = U.ctx.fresh_fn("start", [IS], IS), U.ctx.fresh_fn("end", [IS], IS)
        U.schema(["i"], lambda i: z3.Implies(z3.And(i >= 0, i < n), z3.And(a(i) >= 0, a(i) <= b(i), b(i) <= self.nv)))
        ty = self.o.f["vertexIdx_"].et
        idx = lambda i: self.U.havoc(ty, "idx").with_("startId", a(zi(i))).with_("slice", b(zi(i)))
        h = self.U.havoc(ty, "idx")
        return Vec(n, ("fn", lambda i: h.with_("startId", a(zi(i))).with_("slice", b(zi(i)))), ty), a, b, n
def multi(U, cls, check):
    log = []
    m = Roadmap(U, cls); o = m.o; vi, a, b, n = m.slices(); U.assume(z3.And(n >= 1, n < LIM)); pr = o.f["param_"]; bl = pr.f["boundaryLimits"]; bl = Vec(2 * m.d, bl.node, bl.et)
    ny, nx = U.int("ny", 1), U.int("nx", 1)
    o = o.with_("vertexIdx_", vi).with_("param_", pr.with_("numSlice", n).with_("boundaryLimits", bl).with_("numLineY", ny).with_("numLineX", nx))
    C = U.ex.contracts; BR = z3.Function("bridgeOf", RS, RS, RS); CODE = z3.Function("orientationOf", IS, RS)      # orientation of slice i
    # slice orientations
    if cls == "HRM2D": h = o.f["headings_"]; o = o.with_("headings_", Vec(n, ("fn", lambda i: R(CODE(zi(i)))), REAL))
    else:
        f = "q_" if cls == "HRM3D" else "v_"; o = o.with_(f, Vec(n, ("fn", lambda i: Vec(1, ("fn", lambda k, i=i: R(CODE(zi(i)))), REAL)), None))
        AD = z3.Function("orientationDistance", RS, RS, RS)
        if cls == "ProbHRM3D":
            inner = C["hrm::vectorEuclidean"]
            def dist(ex, this, args, fn):
                x, y = [arg(ex, q) for q in args]
                return R(AD(ident(x), ident(y))) if same(x.len, 1) else inner(ex, this, args, fn)
            C["hrm::vectorEuclidean"] = dist
        else: C["eigen:angularDistance"] = lambda ex, e, lv, v: R(AD(ident(v), ident(ex.ev(e["args"][0]))))
    ident = lambda v: U.ex.real(v.get(0) if isinstance(v, Vec) else v).v
    shape = U.havoc(o.f["tfe_"].et, "tfe")
    def tfe(ex, this, args, fn):
        x, y = [ident(arg(ex, q)) for q in args[:2]]; c = BR(x, y); log.append((x, y))
        ex.wr(args[2], Vec(1, ("fn", lambda i: shape.with_("epsilon_", R(c))), o.f["tfe_"].et)); return VOID
    def bridge(ex, this, args, fn):
        me = ex.rd(this); c = me.f["tfe_"].get(0).f["epsilon_"].v; bs = me.f["bridgeSliceBound_"]
        bi = U.havoc(bs.et, "bound") if False else Struct("hrm::BoundaryInfo", {"arena": Vec(0, ("lit", ()), None), "obstacle": Vec(1, ("fn", lambda i: Mat(1, 1, None, ("fn", lambda r, s: R(c)))), None)})
        ex.wr(this, me.with_("bridgeSliceBound_", Vec(1, ("fn", lambda i: bi), bs.et))); return VOID
    def free(ex, this, args, fn):
        me = ex.rd(this); c = ex.real(me.f["bridgeSliceBound_"].get(0).f["obstacle"].get(0).get(0, 0)).v
        return m.MULTI(*m.co(ex, args[0]), *m.co(ex, args[1]), c)
    C[P + cls + "::computeTFE"] = tfe; C[P + cls + "::bridgeSlice"] = C[P + "HRM%dD::bridgeSlice" % m.d] = bridge; C[P + cls + "::isMultiSliceTransitionFree"] = C[P + "HRM%dD::isMultiSliceTransitionFree" % m.d] = free
    U.ex.loop_specs.append(position(m))
    U.cover("precondition")
    p = U.loc(o); U.call(P + cls + "::connectMultiSlice", p, []); r = U.rd(p)
    if check == 14: m.kept(r); m.new_edges(r, ends=cls != "HRM2D")
    else:
        if len(log) != 1: raise Unsupported("not exactly one bridge slice")
        x, y = log[0]; U.prove(x == CODE(n - 1), "the bridge slice belongs to the newest slice")
        if y.decl().name() != "orientationOf": raise Unsupported("orientation of the other slice")
        j = y.arg(0); U.prove(z3.Implies(n >= 2, z3.And(j >= 0, j < n - 1)), "and to an earlier slice")
        m.new_edges(r, lambda r, f, s: z3.And(m.MULTI(*m.x(f), *m.x(s), BR(x, y)), f >= a(j), f < b(j), s >= a(n - 1), s < b(n - 1)))
def bridge(U, cls, check):
    m = Roadmap(U, cls); o = m.o; i1, i2 = U.int("idx1", 0), U.int("idx2", 0); U.assume(z3.And(i1 < m.nv, i2 < m.nv)); x, y = m.x(i1), m.x(i2)
    n1, n2 = x[:2] + [y[2]] + x[3:], y[:2] + [x[2]] + y[3:]
    U.cover("precondition"); p = U.loc(o); U.call(BASE[cls] + "::bridgeVertex", p, [i1, i2]); r = U.rd(p); g = m.graph(r); V, E, W = g.f["vertex"], g.f["edge"], g.f["weight"]
    if check == 14: m.kept(r)
    a1, a2 = z3.And(m.SAME(*x, *n1), m.SAME(*n1, *y)), z3.And(m.SAME(*x, *n2), m.SAME(*n2, *y)); grown = zi(V.len) > m.nv
    if check == 14:
        U.prove(z3.Or(zi(V.len) == m.nv, zi(V.len) == m.nv + 1), "at most one vertex is added")
        U.prove(zi(E.len) == m.ne + z3.If(grown, 2, 0), "two edges with the new vertex, none without it")
        nx = [U.ex.real(V.get(m.nv).get(k)).v for k in range(m.D)]
        for t, (f, s) in enumerate(((i1, m.nv), (m.nv, i2))):
            e = E.get(m.ne + t); U.prove(z3.Implies(grown, z3.And(zi(e.f["first"]) == f, zi(e.f["second"]) == s)), "edge %d joins the new vertex and an end of the failed connection" % t)
            U.prove(z3.Implies(grown, U.ex.real(W.get(m.ne + t)).v == (m.DIST(*x, *nx) if t == 0 else m.DIST(*nx, *y))), "weight %d is the distance of the edge's ends" % t)
    else:
        nx = [U.ex.real(V.get(m.nv).get(k)).v for k in range(m.D)]
        U.prove(z3.Implies(grown, m.SAME(*x, *nx)), "the edge from the first end to the new vertex was approved"); U.prove(z3.Implies(grown, m.SAME(*nx, *y)), "the edge from the new vertex to the second end was approved")
        U.prove(z3.Implies(z3.Not(grown), z3.And(zi(E.len) == m.ne)), "no edge without the new vertex"); U.prove(zi(E.len) <= m.ne + 2, "at most the two edges")
def exist(U, cls, check):
    m = Roadmap(U, cls); o = m.o; c, a, b, n = m.slices(); q, a2, b2, _ = m.slices(n); U.assume(z3.And(n >= 1, n < LIM)); pr = o.f["param_"]; bl = pr.f["boundaryLimits"]; bl = Vec(2 * m.d, bl.node, bl.et); all_ = o.f["vertexIdxAll_"]; k = U.int("rounds", 1)
    o = o.with_("vertexIdx_", c).with_("vertexIdxAll_", Vec(k, ("fn", lambda i: q), all_.et)).with_("param_", pr.with_("boundaryLimits", bl).with_("numLineY", U.int("ny", 1)).with_("numLineX", U.int("nx", 1)))
    s = U.int("slice", 0); U.assume(s < n)
    U.ex.loop_specs.append(position(m))
    U.cover("precondition"); p = U.loc(o); U.call(P + cls + "::connectExistSlice", p, [s]); r = U.rd(p)
    if check == 14: m.kept(r); m.new_edges(r)
    else: m.new_edges(r, lambda r, f, s: m.SAME(*m.x(f), *m.x(s)))
def position(m):
    def hook(L):
        nearest = any(isinstance(l.hav, R) for l in L.leaves.values())          # the loop that finds the nearest slice
        for l in L.leaves.values():
            if nearest and is_z3(l.hav) and z3.is_int(l.hav) and l.how == "recursion":
                L.prove_invariants([("nearest slice so far", (), lambda kk, st, l=l: z3.And(zi(L.get(st, l.root, l.path)) >= 0, z3.Or(zi(L.get(st, l.root, l.path)) < kk, zi(L.get(st, l.root, l.path)) == 0)))])
            elif l.how == "recursion" and is_z3(l.hav) and z3.is_int(l.hav):
                i0 = zi(l.init)
                L.prove_invariants([("position in the adjacent slice", (), lambda kk, st, l=l, i0=i0: z3.And(zi(L.get(st, l.root, l.path)) >= i0, z3.Or(zi(L.get(st, l.root, l.path)) <= m.nv, zi(L.get(st, l.root, l.path)) == i0)))])
    return hook
def unit_bridge2(U):
    """HighwayRoadMap::bridgeVertex (2D), any well-formed roadmap and answers of the check: earlier content is kept; either nothing is added, or one vertex with exactly two edges to the two ends, weighted by distance"""
    bridge(U, "HRM2D", 14)
def unit_bridge3(U):
    """HighwayRoadMap::bridgeVertex (3D)"""
    bridge(U, "HRM3D", 14)
def unit_exist2(U):
    """HRM2D::connectExistSlice, any roadmap, index ranges and answers: earlier content kept, one weight per edge, new edges between existing vertices with the distance of their ends as weight"""
    exist(U, "HRM2D", 14)
def unit_exist3(U):
    """HRM3D::connectExistSlice: the same"""
    exist(U, "HRM3D", 14)
def unit_multi2(U):
    """HRM2D::connectMultiSlice, any number of slices: earlier content kept, one weight per edge, new edges start at an existing vertex and carry the distance of their ends"""
    multi(U, "HRM2D", 14)
def unit_multiA(U):
    """ProbHRM3D::connectMultiSlice, any number of slices: the same, and new edges end at an existing vertex"""
    multi(U, "ProbHRM3D", 14)
UNITS = [unit_bridge2, unit_bridge3, unit_exist2, unit_exist3, unit_multi2, unit_multiA]
