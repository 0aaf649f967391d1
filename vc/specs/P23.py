"""P23: a point is inside a polyhedron exactly when it lies in some simplex (src/geometry/PointInPoly.cpp)."""
from ..unit import *
from ..lib import *
TUS = ["src/geometry/PointInPoly.cpp"]
def inside(U, poly, pt, i):
    m = poly.f["matrixInverse"].get(i)
    p = [pt.get(0).v, pt.get(1).v, pt.get(2).v, z3.RealVal(1)]
    # matrices are stored column by column
    al = [z3.Sum(*[m.get(4 * c + r).v * p[c] for c in range(4)]) for r in range(4)]
    return z3.And(*[z3.And(a >= 0, a <= 1) for a in al])
def setup(U, n):
    T = U.ptypes("hrm::isPtInPoly")
    poly = U.havoc(T[0].noref(), "poly")
    inv = poly.f["matrixInverse"]
    poly = poly.with_("matrixInverse", Vec(n, inv.node, inv.et))
    U.schema(["i"], lambda i: z3.Implies(z3.And(i >= 0, i < zi(n)), zi(poly.f["matrixInverse"].get(i).len) == 16))
    pt = U.vec(REAL, "pt", 3)
    return poly, pt
def call(U, poly, pt): return zb(U.val(U.call("hrm::isPtInPoly", None, [U.loc(poly), U.loc(pt)])))
def unit_sound(U):
    """answer yes -> some simplex has all four barycentric coordinates in [0,1]"""
    n = U.int("n", 0); poly, pt = setup(U, n)
    U.schema(["i"], lambda i: z3.Implies(z3.And(i >= 0, i < n), z3.Not(inside(U, poly, pt, i))))
    U.cover("precondition")
    r = call(U, poly, pt)
    U.prove(z3.Not(r), "a point in no simplex is outside")
def unit_complete(U):
    """the point lies in simplex i0 -> answer yes"""
    n = U.int("n", 1); poly, pt = setup(U, n); i0 = U.int("i0", 0); U.assume(i0 < n)
    U.assume(inside(U, poly, pt, i0))
    U.cover("precondition")
    U.ctx.hints.append(i0)
    r = call(U, poly, pt)
    U.prove(r, "a point in some simplex is inside")
def unit_empty(U):
    poly, pt = setup(U, 0)
    r = call(U, poly, pt)
    U.prove(z3.Not(r), "with no simplex every point is outside")
UNITS = [unit_sound, unit_complete, unit_empty]
