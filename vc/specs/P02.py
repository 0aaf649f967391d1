"""P02: free segments on a sweep line are arena minus obstacles (FreeSpaceComputator::computeSweepLineFreeSegment, computeFreeSegment)."""
from ..unit import *
from ..lib import *
from ..ctx import consts_of
from .P01 import S_, E_, inn, DMAX, IV
from .srcs import *
TUS = ["src/planners/HRM2D.cpp", "src/planners/HRM3D.cpp", "src/datastructure/Interval.cpp"]
ORACLE_SRC = SPACE + GEOM + BODY; ORACLE_LIBS = FCL + KDL
ASSUMPTIONS = ["recorded interval bounds are finite doubles or NaN, lower <= upper where both are numbers (P06)"]
IS, RS = z3.IntSort(), z3.RealSort()
FSC = {2: "hrm::FreeSpaceComputator<hrm::MultiBodyTree2D, hrm::SuperEllipse>", 3: "hrm::FreeSpaceComputator<hrm::MultiBodyTree3D, hrm::SuperQuadrics>"}
def ival(U): return U.ty(IV)
def arg(ex, a): return ex.res(ex.rd(a) if isinstance(a, LV) else a)
class Alg:
    """contracts of the interval operations (proved in P01), instantiated at the points xs"""
    def __init__(self, U, xs):
        self.U, self.xs = U, xs; C = U.ex.contracts; self.un = []; self.it = []; self.co = []
        C["hrm::Interval::unions"] = self.unions; C["hrm::Interval::intersects"] = self.intersects; C["hrm::Interval::complements"] = self.complements
    def fresh(self, nm):
        v = self.U.vec(ival(self.U), nm); return v
    def sch(self, n, f): self.U.schema(["i"], lambda i: z3.Implies(z3.And(i >= 0, i < zi(n)), f(i)))
    def unions(self, ex, this, args, fn):
        U = self.U; ins = arg(ex, args[0]); n = zi(ins.len); i = U.forall("i", 0, n)
        U.prove(S_(ins.get(i)) <= E_(ins.get(i)), "unions: the intervals are valid")
        r = self.fresh("union"); m = zi(r.len)
        W = U.ctx.fresh_fn("inUnion", [IS], IS)
        self.sch(n, lambda i: z3.And(W(i) >= 0, W(i) < m, S_(r.get(W(i))) <= S_(ins.get(i)), E_(ins.get(i)) <= E_(r.get(W(i)))))
        self.sch(m, lambda j: S_(r.get(j)) <= E_(r.get(j)))
        U.schema(["i", "j"], lambda i, j: z3.Implies(z3.And(i >= 0, i < m, j >= 0, j < m, i != j), z3.Or(E_(r.get(i)) < S_(r.get(j)), E_(r.get(j)) < S_(r.get(i)))))
        for x in self.xs:
            V = U.ctx.fresh_fn("fromInput", [IS], IS)
            self.sch(m, lambda j: z3.Implies(inn(x, r.get(j)), z3.And(V(j) >= 0, V(j) < n, inn(x, ins.get(V(j))))))
        # the ends of a result interval are ends of inputs
        A, B = U.ctx.fresh_fn("startOf", [IS], IS), U.ctx.fresh_fn("endOf", [IS], IS)
        self.sch(m, lambda j: z3.And(A(j) >= 0, A(j) < n, S_(r.get(j)) == S_(ins.get(A(j))), B(j) >= 0, B(j) < n, E_(r.get(j)) == E_(ins.get(B(j)))))
        self.un.append((ins, r, W)); return r
    def intersects(self, ex, this, args, fn):
        U = self.U; ins = arg(ex, args[0]); n = zi(ins.len); r = self.fresh("common"); m = zi(r.len)
        U.assume(z3.And(m <= 1, z3.Implies(n == 0, m == 0)))
        self.sch(m, lambda j: S_(r.get(j)) <= E_(r.get(j)))
        # every input contains the result; its ends are ends of inputs; a common point of all inputs is in it
        a, b = U.int("startOf"), U.int("endOf")
        U.assume(z3.Implies(m > 0, z3.And(a >= 0, a < n, b >= 0, b < n, S_(r.get(0)) == S_(ins.get(a)), E_(r.get(0)) == E_(ins.get(b)))))
        U.schema(["i"], lambda i: z3.Implies(z3.And(i >= 0, i < n, m > 0), z3.And(S_(ins.get(i)) <= S_(r.get(0)), E_(r.get(0)) <= E_(ins.get(i)))))
        for x in self.xs:
            k = U.int("outside"); U.assume(z3.Implies(n > 0, z3.Or(z3.And(m > 0, inn(x, r.get(0))), z3.And(k >= 0, k < n, z3.Not(inn(x, ins.get(k)))))))
        self.it.append((ins, r)); return r
    def complements(self, ex, this, args, fn):
        U = self.U; outer, inner = arg(ex, args[0]), arg(ex, args[1]); n = zi(inner.len); no = zi(outer.len); i = U.forall("i", 0, n); j = U.forall("j", 0, n)
        o = outer.get(0)
        U.prove(no <= 1, "complements: one outer interval")
        U.prove(z3.Implies(no > 0, z3.And(S_(o) <= E_(o), S_(o) >= -DMAX, E_(o) <= DMAX)), "complements: the outer interval is valid and finite")
        U.prove(z3.And(S_(inner.get(i)) <= E_(inner.get(i)), S_(inner.get(i)) >= -DMAX, E_(inner.get(i)) <= DMAX), "complements: the inner intervals are valid and finite")
        U.prove(z3.Implies(i != j, z3.Or(E_(inner.get(i)) < S_(inner.get(j)), E_(inner.get(j)) < S_(inner.get(i)))), "complements: the inner intervals are disjoint")
        r = self.fresh("free"); m = zi(r.len)
        U.assume(z3.Implies(no == 0, m == 0)); self.sch(m, lambda j: S_(r.get(j)) <= E_(r.get(j)))
        for x in self.xs:
            V = U.ctx.fresh_fn("blocking", [], IS) if False else U.int("blocking"); Wx = U.int("freeAt")
            U.schema(["j", "i"], lambda j, i: z3.Implies(z3.And(j >= 0, j < m, inn(x, r.get(j))), z3.And(inn(x, o), z3.Implies(z3.And(i >= 0, i < n), z3.Not(z3.And(S_(inner.get(i)) < x, x < E_(inner.get(i))))))))
            U.assume(z3.Implies(z3.And(no > 0, inn(x, o)), z3.Or(z3.And(Wx >= 0, Wx < m, inn(x, r.get(Wx))), z3.And(V >= 0, V < n, S_(inner.get(V)) < x, x < E_(inner.get(V))))))
        self.co.append((outer, inner, r)); return r
def table(U, nm, lines, per, fV, fS):
    row = lambda i: Vec(per, ("fn", lambda j: R(fV(zi(i), zi(j)), fS(zi(i), zi(j)))), REAL)
    return Vec(lines, ("fn", row), tvec(REAL))
def line(U, d):
    o = U.obj("hrm::FreeSpace%dD" % d, "freeSpace"); n = U.int("lines", 1); U.assume(n < 2**31); cnt = {"arena": U.int("na", 0), "obstacle": U.int("no", 0)}
    for c in cnt.values(): U.assume(c < 2**31)
    T = {}; it = o.f["intersect_"]
    for k, c in cnt.items():
        for b in ("Low", "Upp"):
            fV = U.ctx.fresh_fn(k + b, [IS, IS], RS); fS = U.ctx.fresh_fn(k + b + ".nan", [IS, IS], IS)
            U.schema(["i", "j"], lambda i, j: z3.And(z3.Or(fS(i, j) == 0, fS(i, j) == 1), fV(i, j) >= -DMAX, fV(i, j) <= DMAX), None)
            T[k + b] = (fV, fS); it = it.with_(k + b, table(U, k + b, n, c, fV, fS))
        (lv, ls), (uv, us) = T[k + "Low"], T[k + "Upp"]
        U.schema(["i", "j"], lambda i, j: z3.Implies(z3.And(ls(i, j) == 0, us(i, j) == 0), lv(i, j) <= uv(i, j)))
    l = U.int("line", 0); U.assume(l < n)
    defd = lambda k, j: z3.And(T[k + "Low"][1](l, j) == 0, T[k + "Upp"][1](l, j) == 0)
    lo = lambda k, j: T[k + "Low"][0](l, j); up = lambda k, j: T[k + "Upp"][0](l, j)
    return o.with_("intersect_", it), cnt, l, defd, lo, up
def ghosts(U, **ix):
    """positions of the table entries in the filtered lists (prefix counts)"""
    for k, i in ix.items():
        for t, C in U.ctx.__dict__.get("sums", []):
            if any(n.startswith(k) for n in consts_of(t)): U.ghost(C(i)); U.ghost(C(i + 1))
def run(U, d, o, l):
    return U.val(U.call(FSC[d] + "::computeSweepLineFreeSegment", U.loc(o), [U.loc(l)]))
def sound(U, d):
    x = U.real("x").v; o, cnt, l, defd, lo, up = line(U, d); Alg(U, [x])
    a = U.exists("a", 0, cnt["arena"]); b = U.exists("b", 0, cnt["obstacle"])
    U.cover("precondition")
    r = run(U, d, o, l); j = U.exists("j", 0, r.len); U.assume(inn(x, r.get(j)))
    ghosts(U, arena=a, obstacle=b)
    U.cover("a free point")
    U.prove(z3.Implies(defd("arena", a), z3.And(lo("arena", a) <= x, x <= up("arena", a))), "a free point lies in every recorded arena interval")
    U.prove(z3.Implies(defd("obstacle", b), z3.Not(z3.And(lo("obstacle", b) < x, x < up("obstacle", b)))), "a free point lies in the interior of no recorded obstacle interval")
def complete(U, d):
    x = U.real("x").v; o, cnt, l, defd, lo, up = line(U, d); A = Alg(U, [x])
    a0 = U.exists("a", 0, cnt["arena"]); U.assume(defd("arena", a0))
    U.schema(["i"], lambda i: z3.Implies(z3.And(i >= 0, i < cnt["arena"], defd("arena", i)), z3.And(lo("arena", i) <= x, x <= up("arena", i))))
    U.schema(["i"], lambda i: z3.Implies(z3.And(i >= 0, i < cnt["obstacle"], defd("obstacle", i)), z3.Not(z3.And(lo("obstacle", i) <= x, x <= up("obstacle", i)))))
    U.cover("precondition")
    r = run(U, d, o, l); ghosts(U, arena=a0)
    U.cover("a common point that hits no obstacle")
    U.schema(["j"], lambda j: z3.Implies(z3.And(j >= 0, j < zi(r.len)), z3.Not(inn(x, r.get(j)))))
    U.prove(z3.BoolVal(False), "a point common to all recorded arena intervals and in no recorded obstacle interval is free")
def unit_sound2(U):
    """computeSweepLineFreeSegment, planar: every free point lies in all defined arena intervals and in the interior of no defined obstacle interval"""
    sound(U, 2)
def unit_sound3(U):
    """computeSweepLineFreeSegment, spatial"""
    sound(U, 3)
def unit_complete2(U):
    """computeSweepLineFreeSegment, planar: every point of all defined arena intervals (at least one) in no defined obstacle interval is free"""
    complete(U, 2)
def unit_complete3(U):
    """computeSweepLineFreeSegment, spatial"""
    complete(U, 3)
def lists(U, d):
    o = U.obj("hrm::FreeSpace%dD" % d, "freeSpace"); ty = U.vec(REAL, "ty"); n = zi(ty.len)
    ln = U.ctx.fresh_fn("segments", [IS], IS); s = U.ctx.fresh_fn("start", [IS, IS], RS); e = U.ctx.fresh_fn("end", [IS, IS], RS)
    U.schema(["i"], lambda i: ln(i) >= 0, None)
    U.assume(n < 2**31); et = ival(U)
    def seg(ex, this, args, fn):
        i = zi(ex.int(ex.rd(args[0]) if isinstance(args[0], LV) else args[0]))
        return Vec(ln(i), ("fn", lambda j: Struct(et.key, {"start_": R(s(i, zi(j))), "end_": R(e(i, zi(j)))})), et)
    U.ex.contracts[FSC[d] + "::computeSweepLineFreeSegment"] = seg
    fin = []
    U.ex.contracts[FSC[d] + "::enhanceFreeSegment"] = lambda ex, this, args, fn: (fin.append(ex.rd(this)), VOID)[1]
    U.cover("precondition")
    p = U.loc(o); U.call(FSC[d] + "::computeFreeSegment", p, [U.loc(ty)])
    if len(fin) != 1: raise Unsupported("the segments are not enhanced once")
    g = fin[0].f["segment_"]; i = U.forall("i", 0, n); j = U.forall("j", 0); U.assume(j < ln(i))
    U.prove(zi(g.f["ty"].len) == n, "one line per requested coordinate"); U.prove(g.f["ty"].get(i).v == ty.get(i).v, "the line coordinates are the requested ones")
    for nm, want in (("xL", s(i, j)), ("xU", e(i, j)), ("xM", None)):
        v = g.f[nm]; U.prove(zi(v.len) == n, nm + ": one list per line"); w = v.get(i)
        U.prove(zi(w.len) == ln(i), nm + ": one entry per free segment")
        U.prove(U.ex.real(w.get(j)).v == want if want is not None else 2 * U.ex.real(w.get(j)).v == s(i, j) + e(i, j), nm + ": lower end, upper end, midpoint of the segment, in order")
def unit_lists2(U):
    """computeFreeSegment, planar: for every line, the three lists handed to the enhancement hold lower end, upper end and midpoint of every free segment of that line, in order"""
    lists(U, 2)
def unit_lists3(U):
    """computeFreeSegment, spatial"""
    lists(U, 3)
UNITS = [unit_sound2, unit_sound3, unit_complete2, unit_complete3, unit_lists2, unit_lists3]
