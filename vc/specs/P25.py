"""P25: Euclidean distance is exact."""
from ..unit import *
from ..lib import *
TUS = ["src/util/DistanceMetric.cpp"]
TITLE = "Euclidean distance is exact"

def dist(U, a, b):
    return U.val(U.call("hrm::vectorEuclidean", None, [U.loc(a), U.loc(b)]))
def unit_def(U):
    """for all n and all v1, v2 of length n: result is finite, >= 0 and its square is the spec sum of squared differences"""
    n = U.int("n", 0)
    a = U.vec(REAL, "v1", n); b = U.vec(REAL, "v2", n)
    U.cover("precondition")
    k = z3.Int(fresh_name("k"))
    d = a.get(k).v - b.get(k).v
    S = prefix_sum(U.ctx, d * d, k)                     # spec function: sum_{i<n} (v1_i - v2_i)^2
    r = dist(U, a, b)
    U.prove(is_fin(r), "distance is finite")
    U.prove(r.v >= 0, "distance is never negative")
    U.prove(r.v * r.v == S(n), "squared distance is the sum of squared differences over all coordinates")
def unit_zero(U):
    n = U.int("n", 0)
    a = U.vec(REAL, "v", n)
    U.cover("precondition")
    r = dist(U, a, a)
    U.prove(r.v == 0, "distance of equal vectors is zero")
def unit_sym(U):
    n = U.int("n", 0)
    a = U.vec(REAL, "v1", n); b = U.vec(REAL, "v2", n)
    r1, r2 = dist(U, a, b), dist(U, b, a)
    U.prove(r1.v == r2.v, "distance is symmetric")
UNITS = [unit_def, unit_zero, unit_sym]
