"""P17: same-slice transition checks reject every crossing motion (HRM2D/HRM3D::isSameSliceTransitionFree)."""
from ..unit import *
from ..lib import *
from ..eigen import mat
from .P02 import arg
from .srcs import *
TUS = ["src/planners/HRM2D.cpp", "src/planners/HRM3D.cpp", "src/planners/ProbHRM3D.cpp"]
ORACLE_SRC = PLANA; ORACLE_LIBS = ALL
ASSUMPTIONS = ["isIntersectSegPolygon2D decides whether a segment crosses one boundary (P04); intersectLineMesh3D returns the piercing points of a line with one mesh (P05)"]
IS, RS, BS = z3.IntSort(), z3.RealSort(), z3.BoolSort()
P = "hrm::planners::"
def conf(U, nm, dim): v = U.vec(REAL, nm, dim); return v, [v.get(k).v for k in range(dim)]
def unit_2d(U):
    """HRM2D, any number of boundaries: the answer is free exactly when no boundary of the slice is crossed by the segment of the two positions"""
    o = U.obj(P + "HRM2D", "planner"); n = U.int("obstacles", 0); U.assume(n < 2**31); id = z3.Function("boundaryId", IS, RS); X = z3.Function("crosses", *([RS] * 5 + [BS]))
    sb = o.f["sliceBound_"]; o = o.with_("sliceBound_", sb.with_("obstacle", Vec(n, ("fn", lambda i: Mat(1, 1, None, ("fn", lambda r, s: R(id(zi(i)))))), sb.f["obstacle"].et)))
    (a, x), (b, y) = conf(U, "v1", 3), conf(U, "v2", 3)
    def cross(ex, this, args, fn):
        s = arg(ex, args[0]); p, q = [[ex.real(arg(ex, s.f[k]).get(c)).v for c in range(2)] for k in ("first", "second")]; return X(*p, *q, ex.real(arg(ex, args[1]).get(0, 0)).v)
    U.ex.contracts["hrm::isIntersectSegPolygon2D"] = cross
    none = U.bool("noneCrossed"); U.schema(["i"], lambda i: z3.Implies(z3.And(none, i >= 0, i < n), z3.Not(X(x[0], x[1], y[0], y[1], id(i)))))
    U.cover("precondition")
    r = zb(U.val(U.call(P + "HRM2D::isSameSliceTransitionFree", U.loc(o), [U.loc(a), U.loc(b)])))
    i = U.forall("i", 0, n)
    U.prove(z3.Implies(r, z3.Not(X(x[0], x[1], y[0], y[1], id(i)))), "approved motions cross no boundary of the slice")
    U.prove(z3.Implies(none, r), "motions that cross no boundary are approved")
def unit_3d(U):
    """HRM3D, any number of meshes with any number of piercing points: the line handed to the intersection routine is the line through the two positions; free exactly when no piercing point of any mesh lies strictly between them"""
    o = U.obj(P + "HRM3D", "planner"); n = U.int("obstacles", 0); U.assume(n < 2**31); id = z3.Function("meshId", IS, RS)
    sm = o.f["sliceBoundMesh_"]; o = o.with_("sliceBoundMesh_", sm.with_("obstacle", Vec(n, ("fn", lambda i: Struct("hrm::MeshMatrix", {"vertices": Mat(1, 1, None, ("fn", lambda r, s: R(id(zi(i))))), "faces": Mat(1, 1, None, ("fn", lambda r, s: R(0)))})), sm.f["obstacle"].et)))
    (a, x), (b, y) = conf(U, "v1", 7), conf(U, "v2", 7); x, y = x[:3], y[:3]; d = [q - p for p, q in zip(x, y)]
    ptf = [z3.Function("piercingPoint%d" % k, RS, IS, RS) for k in range(3)]; cf = z3.Function("cnt!mesh", RS, IS)
    def meshes(ex, this, args, fn):
        l = arg(ex, args[0]); L = [ex.real(l.get(k, 0)).v for k in range(6)]; m = ex.real(arg(ex, args[1]).f["vertices"].get(0, 0)).v
        for k in range(3): ex.oblige(L[k] == x[k], "the line starts at the first position (%d)" % k, "pre")
        e = L[3:]
        for i, j in ((0, 1), (1, 2), (2, 0)): U.prove_alg(e[i] * d[j] == e[j] * d[i], "the line's direction is that of the motion (%d%d)" % (i, j))
        c = cf(m); ex.ctx.add_fact(z3.And(c >= 0, c < 2**31))
        return Vec(c, ("fn", lambda j: mat(3, 1, lambda r, s: R(ptf[r](m, zi(j))) if isinstance(r, int) else R(z3.If(r == 0, ptf[0](m, zi(j)), z3.If(r == 1, ptf[1](m, zi(j)), ptf[2](m, zi(j))))))), None)
    U.ex.contracts["hrm::intersectLineMesh3D"] = meshes
    inside = lambda i, j: z3.Sum(*[(ptf[k](id(i), j) - x[k]) * (ptf[k](id(i), j) - y[k]) for k in range(3)]) < 0
    none = U.bool("noneCrossed"); U.schema(["i", "j"], lambda i, j: z3.Implies(z3.And(none, i >= 0, i < n, j >= 0, j < cf(id(i))), z3.Not(inside(i, j))), None)
    U.cover("precondition")
    r = zb(U.val(U.call(P + "HRM3D::isSameSliceTransitionFree", U.loc(o), [U.loc(a), U.loc(b)])))
    i = U.forall("i", 0, n); j = U.forall("j", 0); U.assume(j < cf(id(i)))
    U.prove(z3.Implies(r, z3.Not(inside(i, j))), "approved motions have no piercing point strictly between their ends")
    U.prove(z3.Implies(none, r), "motions without a piercing point strictly between their ends are approved")
def unit_between(U):
    """lemma: for a point p = x + t (y - x) of the line, (p - x).(p - y) < 0 exactly when 0 < t < 1 (x != y)"""
    t = U.real("t").v; x, y = [[U.real(n + k).v for k in "xyz"] for n in "ab"]; D = z3.Sum(*[(q - p) * (q - p) for p, q in zip(x, y)]); U.assume(D > 0); U.cover("lemma")
    p = [a + t * (b - a) for a, b in zip(x, y)]; s = z3.Sum(*[(c - a) * (c - b) for a, b, c in zip(x, y, p)])
    U.prove_alg(s == t * (t - 1) * D, "value of the product"); g = U.ghost(t * (t - 1)); Dg = U.ghost(D); sg = U.real("s").v; U.assume(sg == g * Dg)
    U.assume(z3.Implies(z3.And(g < 0, Dg > 0), g * Dg < 0)); U.assume(z3.Implies(z3.And(g >= 0, Dg > 0), g * Dg >= 0))
    U.prove((sg < 0) == z3.And(t > 0, t < 1), "strictly between")
UNITS = [unit_2d, unit_3d, unit_between]
