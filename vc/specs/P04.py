"""P04: line / segment versus polygon intersection (src/geometry/LineIntersection.cpp)."""
from ..unit import *
from ..lib import *
TUS = ["src/geometry/LineIntersection.cpp"]
HL = "hrm::intersectHorizontalLinePolygon2D"; SP = "hrm::isIntersectSegPolygon2D"
def polygon(U, q, n, k):
    """an arbitrary 2 x n vertex matrix"""
    m = U.havoc(U.ptypes(q)[k].noref(), "shape")
    return Mat(2, n, None, m.node if m.node is not None else ("fn", m.get), m.arr)
def nxt(n, i): return z3.If(i == n - 1, z3.IntVal(0), i + 1)
def P(s, i): return s.get(0, i).v, s.get(1, i).v
def edge(s, n, i): return P(s, i) + P(s, nxt(n, i))
def hit(s, n, ty, i):
    """edge i is not horizontal and its closed vertical range contains ty"""
    x1, y1, x2, y2 = edge(s, n, i)
    return z3.And(y1 != y2, z3.Or(z3.And(y1 <= ty, ty <= y2), z3.And(y2 <= ty, ty <= y1)))
def on_edge(s, n, ty, i, x):
    """(x, ty) is the point of edge i at height ty"""
    x1, y1, x2, y2 = edge(s, n, i)
    return (x - x2) * (y1 - y2) == (ty - y2) * (x1 - x2)
def hook(U, s, n, ty, i0=None):
    """loop contract: after kk edges the result holds, for every hit edge i < kk, at position count(i) the point of edge i"""
    def h(L):
        if L.fn["q"] != HL: return
        ls = L.vec_leaves(lambda v: v.et is not None and v.et.k == "real")
        if len(ls) != 1: raise Unsupported("the loop contract of %s does not apply to this loop" % HL)
        root, path = ls[0]; res = lambda st: L.get(st, root, path)
        C = U.C
        L.prove_invariants([
            ("one point per hit edge so far", [], lambda kk, st: zi(res(st).len) == C(kk)),
            ("the points are those of the hit edges, in order", ["i"], lambda kk, st, i: z3.Implies(z3.And(i >= 0, i < kk, hit(s, n, ty, i)),
                z3.And(C(i) >= 0, C(i) < res(st).len, zb(is_fin(res(st).get(C(i)))), on_edge(s, n, ty, i, res(st).get(C(i)).v))), lambda i: [C(i)])])
    return h
def count(U, s, n, ty):
    """spec function: number of hit edges before edge k"""
    k = z3.Int(fresh_name("k"))
    C = prefix_sum(U.ctx, z3.If(hit(s, n, ty, k), z3.IntVal(1), z3.IntVal(0)), k)
    return C
def unit_horizontal(U):
    """for all polygons with n >= 1 vertices and all heights: exactly one point per hit edge, each on its edge at the line's height, in edge order"""
    n = U.int("n", 1); s = polygon(U, HL, n, 1); ty = U.real("ty")
    U.cover("precondition")
    U.C = count(U, s, n, ty.v); U.ex.ieee = True
    U.ex.loop_specs.append(hook(U, s, n, ty.v))
    r = U.val(U.call(HL, None, [ty, U.loc(s)]))
    # a positive count has a witness (induction on the defining equations)
    w = U.int("wit")
    U.assume(z3.Implies(U.C(n) > 0, z3.And(w >= 0, w < n, hit(s, n, ty.v, w))))
    i = U.forall("i", 0, n)
    U.prove(z3.Implies(hit(s, n, ty.v, i), z3.And(U.C(i) < r.len, on_edge(s, n, ty.v, i, r.get(U.C(i)).v))), "every non-horizontal edge reaching the line contributes its point, at the position given by the edge order")
    U.prove(zi(r.len) == U.C(n), "there are no other points")
# ---------------------------------------------------------------- segments
def cross(ax, ay, bx, by): return ax * by - ay * bx
def proper(s, n, p, q, i):
    """the open segments (p,q) and edge i cross in one point: each segment's ends lie strictly on different sides of the other"""
    x1, y1, x2, y2 = edge(s, n, i)
    a1 = cross(q[0] - p[0], q[1] - p[1], x1 - p[0], y1 - p[1]); a2 = cross(q[0] - p[0], q[1] - p[1], x2 - p[0], y2 - p[1])
    b1 = cross(x2 - x1, y2 - y1, p[0] - x1, p[1] - y1); b2 = cross(x2 - x1, y2 - y1, q[0] - x1, q[1] - y1)
    return z3.And(z3.Or(z3.And(a1 > 0, a2 < 0), z3.And(a1 < 0, a2 > 0)), z3.Or(z3.And(b1 > 0, b2 < 0), z3.And(b1 < 0, b2 > 0)))
def parallel(s, n, p, q, i):
    x1, y1, x2, y2 = edge(s, n, i)
    return cross(q[0] - p[0], q[1] - p[1], x2 - x1, y2 - y1) == 0
def seg_setup(U):
    n = U.int("n", 1); s = polygon(U, SP, n, 1)
    a, b = U.vec(REAL, "p", 2), U.vec(REAL, "q", 2)
    p = (a.get(0).v, a.get(1).v); q = (b.get(0).v, b.get(1).v)
    return n, s, Struct("std::pair", {"first": a, "second": b}), p, q
def unit_segment_yes(U):
    """some edge properly crosses the segment -> answer yes"""
    n, s, sg, p, q = seg_setup(U); i0 = U.int("i0", 0); U.assume(i0 < n)
    U.assume(proper(s, n, p, q, i0)); U.ctx.hints.append(i0)
    U.cover("precondition")
    r = zb(U.val(U.call(SP, None, [U.loc(sg), U.loc(s)])))
    U.prove(r, "a proper crossing is never missed")
def unit_segment_no(U):
    """no edge properly crosses or is parallel to the segment -> answer no"""
    n, s, sg, p, q = seg_setup(U)
    U.schema(["i"], lambda i: z3.Implies(z3.And(i >= 0, i < n), z3.Not(z3.Or(proper(s, n, p, q, i), parallel(s, n, p, q, i)))))
    U.cover("precondition")
    r = zb(U.val(U.call(SP, None, [U.loc(sg), U.loc(s)])))
    U.prove(z3.Not(r), "without a proper crossing or a parallel edge the answer is no")
UNITS = [unit_horizontal, unit_segment_yes, unit_segment_no]
