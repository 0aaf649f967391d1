"""P13: interpolated configurations are finite, affine and end-exact (src/util/InterpolateSE3.cpp)."""
from ..unit import *
from ..lib import *
from ..eigen import quat, quat_rot, aa_rot
from .P07 import rotq, unit_quat
TUS = ["src/util/InterpolateSE3.cpp"]
def conf(U, nm, m): return U.vec(REAL, nm, m)
def affine(a, b, i, n): return a + (b - a) * (z3.ToReal(i) / z3.ToReal(n))
def same_or_neg(q, c):
    """the same orientation: quaternion up to sign"""
    return z3.Or(z3.And(*[x == y for x, y in zip(q, c)]), z3.And(*[x == -y for x, y in zip(q, c)]))
def unit_rn(U):
    """interpolateRn, any dimension, any n >= 1: n+1 points, point i coordinate j is the affine combination at i/n"""
    m = U.int("m", 0); n = U.int("n", 1); a, b = conf(U, "a", m), conf(U, "b", m)
    U.cover("precondition")
    r = U.val(U.call("hrm::interpolateRn", None, [U.loc(a), U.loc(b), n]))
    U.prove(zi(r.len) == n + 1, "n+1 configurations")
    i = U.forall("i", 0, n + 1); j = U.forall("j", 0, m)
    U.prove(zi(r.get(i).len) == m, "same dimension")
    x = U.ex.real(r.get(i).get(j)); U.prove(zb(is_fin(x)), "finite coordinates")
    U.prove_alg(x.v == affine(a.get(j).v, b.get(j).v, i, n), "affine combination at i/n")
def rn_contract(U):
    """contract proved by unit_rn"""
    def h(ex, this, args, f):
        a, b, n = ex.res(ex.rd(args[0]) if isinstance(args[0], LV) else args[0]), ex.res(ex.rd(args[1]) if isinstance(args[1], LV) else args[1]), zi(ex.int(args[2]))
        ex.oblige(zi(a.len) == zi(b.len), "interpolateRn: equal dimensions"); ex.oblige(n >= 1, "interpolateRn: at least one step")
        return fn_vec(n + 1, lambda i: fn_vec(a.len, lambda j: R(affine(a.get(j).v, b.get(j).v, zi(i), n)), REAL), tvec(REAL))
    return h
def compound(U, m):
    n = U.int("n", 0); a, b = conf(U, "a", m), conf(U, "b", m)
    for v in (a, b): U.assume(z3.Sum(*[v.get(k).v * v.get(k).v for k in range(3, 7)]) == 1)
    return n, a, b
def check_compound(U, n, a, b, m, r):
    U.prove(zi(r.len) == n + 1, "n+1 configurations")
    i = U.forall("i", 0, n + 1)
    U.prove(zi(r.get(i).len) == m, "same dimension")
    for j in range(3): U.prove_alg(U.ex.real(r.get(i).get(j)).v == affine(a.get(j).v, b.get(j).v, i, n), "position coordinate %d is affine" % j)
    for j in range(7): U.prove(zb(is_fin(U.ex.real(r.get(i).get(j)))), "coordinate %d is finite" % j)
    q = lambda v, k: [U.ex.real(v.get(j)).v for j in range(3, 7)]
    U.prove(same_or_neg(q(r.get(0), 0), q(a, 0)), "first orientation"); U.prove(same_or_neg(q(r.get(n), 0), q(b, 0)), "last orientation")
    for e, v, w in ((0, a, "first"), (n, b, "last")):
        for j in range(3): U.prove_alg(U.ex.real(r.get(e).get(j)).v == v.get(j).v, "%s configuration, position %d" % (w, j))
    if not isinstance(m, int):
        j = U.forall("j", 7, m)
        x = U.ex.real(r.get(i).get(j)); U.prove(zb(is_fin(x)), "joint values are finite")
        U.prove_alg(x.v == affine(a.get(j).v, b.get(j).v, i, n), "joint value j is affine")
def unit_se3(U):
    """interpolateSE3 for any two poses and any n >= 1"""
    n, a, b = compound(U, 7); U.assume(n >= 1)
    U.cover("precondition"); U.ex.contracts["hrm::interpolateRn"] = rn_contract(U)
    r = U.val(U.call("hrm::interpolateSE3", None, [U.loc(a), U.loc(b), n]))
    check_compound(U, n, a, b, 7, r)
def unit_compound(U):
    """interpolateCompoundSE3Rn for any dimension > 7 and any n >= 1"""
    m = U.int("m", 8); n, a, b = compound(U, m); U.assume(n >= 1)
    U.cover("precondition"); U.ex.contracts["hrm::interpolateRn"] = rn_contract(U)
    r = U.val(U.call("hrm::interpolateCompoundSE3Rn", None, [U.loc(a), U.loc(b), n]))
    check_compound(U, n, a, b, m, r)
def unit_compound7(U):
    """interpolateCompoundSE3Rn for a rigid configuration and any n >= 1"""
    n, a, b = compound(U, 7); U.assume(n >= 1)
    U.cover("precondition"); U.ex.contracts["hrm::interpolateRn"] = rn_contract(U)
    r = U.val(U.call("hrm::interpolateCompoundSE3Rn", None, [U.loc(a), U.loc(b), n]))
    check_compound(U, n, a, b, 7, r)
def unit_zero(U):
    """interpolateCompoundSE3Rn with zero steps returns exactly the two inputs"""
    m = U.int("m", 7); n, a, b = compound(U, m); U.assume(n == 0)
    U.cover("precondition")
    r = U.val(U.call("hrm::interpolateCompoundSE3Rn", None, [U.loc(a), U.loc(b), n]))
    U.prove(zi(r.len) == 2, "two configurations"); j = U.forall("j", 0, m)
    for k, v in ((0, a), (1, b)):
        U.prove(z3.And(zi(r.get(k).len) == m, zb(is_fin(r.get(k).get(j))), r.get(k).get(j).v == v.get(j).v), "configuration %d is the input" % k)
def same_factors(U, r, x, y, ij):
    """sum r_k x_k == sum r_k y_k from x_k == y_k: three congruence steps on named products"""
    for k in range(3):
        p, q = z3.Real("prod!p%d%d%d" % (k, *ij)), z3.Real("prod!q%d%d%d" % (k, *ij))
        z = z3.Real("any!%d%d%d" % (k, *ij))
        U.prove(z3.Implies(x[k] == y[k], z * x[k] == z * y[k]), "angle-axis: last rotation (%d,%d), factor %d" % (*ij, k))
def unit_rotations(U):
    """interpolateSlerp and interpolateAngleAxis for any two unit quaternions, n >= 1: n+1 rotations, the ends are the inputs"""
    n = U.int("n", 1); A, B = unit_quat(U, "A"), unit_quat(U, "B")
    U.cover("precondition")
    r = U.val(U.call("hrm::interpolateSlerp", None, [U.loc(A), U.loc(B), n]))
    c = lambda q: [U.ex.real(q.f[k]).v for k in "wxyz"]
    U.prove(zi(r.len) == n + 1, "slerp: n+1 rotations")
    U.prove(same_or_neg(c(r.get(0)), c(A)), "slerp: first rotation"); U.prove(same_or_neg(c(r.get(n)), c(B)), "slerp: last rotation")
    r = U.val(U.call("hrm::interpolateAngleAxis", None, [U.loc(A), U.loc(B), n]))
    U.prove(zi(r.len) == n + 1, "angle-axis: n+1 rotations")
    Ra, Rb = rotq(A), rotq(B)
    M0 = quat_rot(U.ex, r.get(0))
    for i in range(3):
        for j in range(3): U.prove_alg(U.ex.real(M0.get(i, j)).v == Ra[i][j], "angle-axis: first rotation (%d,%d)" % (i, j))
    # last: result = Ra N with N the rotation of the relative angle-axis, and N = Ra^T Rb
    (an, ax, M), = U.ctx.aa_known
    N = aa_rot(U.ex, Struct("AA", {"angle": an, "axis": ax})); Mn = quat_rot(U.ex, r.get(n)); S = z3.Sum
    nm = [[U.ghost(N.get(k, j).v) for j in range(3)] for k in range(3)]; tk = [[U.ghost(S(*[Ra[l][k] * Rb[l][j] for l in range(3)])) for j in range(3)] for k in range(3)]
    for k in range(3):
        for j in range(3):
            if M.get(k, j).v is not None: U.prove_alg(M.get(k, j).v == tk[k][j], "relative rotation (%d,%d)" % (k, j)); U.assume(M.get(k, j).v == tk[k][j])
            U.assume(nm[k][j] == M.get(k, j).v)      # contract of Eigen::AngleAxis(R)
            U.prove(nm[k][j] == tk[k][j], "relative rotation (%d,%d), named" % (k, j)); U.assume(nm[k][j] == tk[k][j])
    for i in range(3):
        for j in range(3):
            m_ = U.ghost(U.ex.real(Mn.get(i, j)).v); g = U.ghost(S(*[Ra[i][k] * nm[k][j] for k in range(3)])); h = U.ghost(S(*[Ra[i][k] * tk[k][j] for k in range(3)])); b_ = U.ghost(Rb[i][j])
            for x, y, st in ((m_, g, "composed"), (h, b_, "equals the second input")):
                U.prove_alg(x == y, "angle-axis: last rotation (%d,%d) %s" % (i, j, st)); U.assume(x == y)
            same_factors(U, [Ra[i][k] for k in range(3)], [nm[k][j] for k in range(3)], [tk[k][j] for k in range(3)], (i, j)); U.assume(g == h)
            U.prove(m_ == b_, "angle-axis: last rotation (%d,%d)" % (i, j))
UNITS = [unit_rn, unit_se3, unit_compound, unit_compound7, unit_zero, unit_rotations]
