"""P08: Minkowski boundary = surface point +- ellipsoid support point (SuperEllipse::getMinkSum2D, SuperQuadrics::getMinkSum3D)."""
from .P07 import *
def support(U, n, D, R2, y):
    """support point of the ellipsoid A B (A = R2 diag(D), B the unit ball) in direction y:  A A^T y / |A^T y|.
    It is the point of the ellipsoid furthest along y (lemma unit_support)."""
    z = [z3.Sum(*[R2[k][c] * y[k] for k in range(n)]) * D[c] for c in range(n)]      # A^T y
    l2 = z3.Sum(*[x * x for x in z])
    U.assume(l2 > 0)                                                                 # the normal is not zero
    U.ctx.__dict__.setdefault("alg_seed", []).append(F_SQRT(l2))
    return [z3.Sum(*[R2[r][c] * D[c] * z[c] for c in range(n)]) / F_SQRT(l2) for r in range(n)]
def unit_mink2(U):
    """for all superellipses, ellipses, signs and sample indices i: result(i) = boundary(i) + K support(R1 grad_i)"""
    o, a, e, p, th, n = ellipse(U); b, ba, be, bp, bth, bn = ellipse(U, "o")
    K = U.int("K"); U.assume(z3.Or(K == 1, K == -1)); U.assume(be.v == 1)
    U.cover("precondition")
    lo, lb = U.loc(o), U.loc(b)
    base = U.val(U.call(SE + "::getOriginShape", lo, []))
    m = U.val(U.call(SE + "::getMinkSum2D", lo, [lb, K]))
    U.prove(z3.And(zi(m.r) == 2, zi(m.c) == n), "one point per boundary point")
    i = U.forall("i", 0, n)
    t = 2 * z3.ToReal(i) * PI / (z3.ToReal(n) - 1)
    g = [ef(t, 2 - e.v, F_COS) / a[0].v, ef(t, 2 - e.v, F_SIN) / a[1].v]             # outward normal of the canonical shape
    c, s = F_COS(th.v), F_SIN(th.v); y = [c * g[0] - s * g[1], s * g[0] + c * g[1]]
    c2, s2 = F_COS(bth.v), F_SIN(bth.v)
    U.ex.ieee = False
    w = support(U, 2, [x.v for x in ba], [[c2, -s2], [s2, c2]], y)
    for r in range(2):
        U.prove_alg(U.ex.real(m.get(r, i)).v == U.ex.real(base.get(r, i)).v + K * w[r], "coordinate %d: boundary point plus signed support point" % r)
def unit_mink3(U):
    """for all superquadrics, ellipsoids, signs and grid cells (i,j): result(i + j n) = boundary(i + j n) + K support(R1 grad_ij)"""
    o, a, e, p, q, n = quadric(U); bo, ba, be, bp, bq, bn = quadric(U, "o")
    K = U.int("K"); U.assume(z3.Or(K == 1, K == -1)); U.assume(z3.And(be[0].v == 1, be[1].v == 1))
    U.cover("precondition")
    base = U.val(U.call(SQ + "::getOriginShape", o, []))
    m = U.val(U.call(SQ + "::getMinkSum3D", o, [bo, K]))
    U.prove(z3.And(zi(m.r) == 3, zi(m.c) == n * n), "one point per boundary point")
    i = U.forall("i", 0, n); j = U.forall("j", 0, n)
    k = col_index(U, n, i, j); et, om = angles(U, n, i, j)
    p1, p2 = 2 - e[0].v, 2 - e[1].v
    g = [ef(et, p1, F_COS) * ef(om, p2, F_COS) / a[0].v, ef(et, p1, F_COS) * ef(om, p2, F_SIN) / a[1].v, ef(et, p1, F_SIN) / a[2].v]
    R1, R2 = rotq(q), rotq(bq)
    y = [z3.Sum(*[R1[r][c] * g[c] for c in range(3)]) for r in range(3)]
    w = support(U, 3, [x.v for x in ba], R2, y)
    for r in range(3):
        v = split_index(U.ex.real(m.get(r, k)), n, k, i, j); b = split_index(U.ex.real(base.get(r, k)), n, k, i, j)
        U.prove_alg(v.v == b.v + K * w[r], "coordinate %d: boundary point plus signed support point" % r)
def unit_support(U):
    """lemma: A z/|z| with z = A^T y is a point of the ellipsoid furthest along y: |z/|z|| = 1 and y.(A u) = z.u <= |z| = y.(A z/|z|) for |u| <= 1"""
    U.cover("lemma")
    for n in (2, 3):
        z = [U.real("z").v for _ in range(n)]; u = [U.real("u").v for _ in range(n)]
        l2 = z3.Sum(*[x * x for x in z]); s = U.real("s").v; dot = z3.Sum(*[x * y for x, y in zip(z, u)]); uu = z3.Sum(*[x * x for x in u])
        U.assume(z3.And(l2 > 0, s > 0, s * s == l2, uu <= 1))
        lag = z3.Sum(*[(z[i] * u[j] - z[j] * u[i]) * (z[i] * u[j] - z[j] * u[i]) for i in range(n) for j in range(i)])
        U.prove_alg(l2 * uu - dot * dot == lag, "Lagrange identity (%dD)" % n); U.assume(l2 * uu - dot * dot == lag)
        U.prove(lag >= 0, "sum of squares (%dD)" % n); U.assume(lag >= 0)
        U.assume(z3.Implies(uu <= 1, l2 * (1 - uu) >= 0))
        L, D = U.real("L").v, U.real("D").v; U.assume(z3.And(L == l2, D == dot)); U.prove(D * D <= L, "Cauchy-Schwarz (%dD)" % n)
        D2, S2 = U.real("D").v, U.real("S").v; U.assume(z3.And(S2 > 0, D2 * D2 <= S2 * S2)); U.prove(D2 <= S2, "no point of the ellipsoid is further along y (%dD)" % n)
        zz = [U.real("z").v for _ in range(n)]; S3 = U.real("S").v; U.assume(z3.And(S3 > 0, S3 * S3 == z3.Sum(*[x * x for x in zz])))
        U.prove(z3.Sum(*[x * (x / S3) for x in zz]) == S3, "the support value is |z| (%dD)" % n)
UNITS = [unit_mink2, unit_mink3, unit_support]
