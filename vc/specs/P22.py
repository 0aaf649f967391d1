"""P22: the ellipse / ellipsoid separation test uses the exact characteristic polynomial (src/util/EllipsoidSeparation.cpp)."""
from ..unit import *
from ..lib import *
from ..eigen import quat, mat
from .P07 import rotq, unit_quat
from .P10 import rot2
from .srcs import *
TUS = ["src/util/EllipsoidSeparation.cpp", "src/geometry/SuperEllipse.cpp", "src/geometry/SuperQuadrics.cpp"]
ORACLE_SRC = GEOM + ["src/util/EllipsoidSeparation.cpp"]; ORACLE_LIBS = FCL
ASSUMPTIONS = ["Eigen eigenvalues(): one complex number per row of the (companion) matrix, its eigenvalues; the eigenvalues of the companion matrix are the polynomial's roots (linear algebra)"]
S = z3.Sum
def det_poly(A, B):
    """coefficients, highest power first, of det(lambda diag(A) - B), by cofactor expansion over polynomials in lambda"""
    n = len(A)
    def mul(p, q):
        r = [None] * (len(p) + len(q) - 1)
        for i, x in enumerate(p):
            for j, y in enumerate(q): r[i + j] = x * y if r[i + j] is None else r[i + j] + x * y
        return r
    def add(p, q, s):
        m = max(len(p), len(q)); z = z3.RealVal(0); p = [z] * (m - len(p)) + p; q = [z] * (m - len(q)) + q
        return [x + s * y for x, y in zip(p, q)]
    def ent(i, j): return [A[i], -B[i][j]] if i == j else [-B[i][j]]
    def rec(rows, cols):
        if len(rows) == 1: return ent(rows[0], cols[0])
        r = [z3.RealVal(0)]
        for k, c in enumerate(cols): r = add(r, mul(ent(rows[0], c), rec(rows[1:], cols[:k] + cols[k + 1:])), 1 if k % 2 == 0 else -1)
        return r
    return rec(list(range(n)), list(range(n)))
def shapes(U, d):
    out = []
    for nm in "AB":
        o = U.obj("hrm::SuperEllipse" if d == 2 else "hrm::SuperQuadrics", nm); ax = [U.real(nm + "a%d" % i) for i in range(d)]; p = [U.real(nm + "p%d" % i) for i in range(d)]
        for x in ax: U.assume(x.v > 0)
        o = o.with_("semiAxis_", lit_vec(ax, REAL)).with_("position_", lit_vec(p, REAL))
        if d == 2: th = U.real(nm + "t"); o = o.with_("angle_", th).with_("epsilon_", R(1)); rot = lambda M=None, th=th: rot2(F_COS(th.v), F_SIN(th.v))
        else: q = unit_quat(U, nm + "q"); o = o.with_("quat_", q); rot = lambda M=None, q=q: rotq(q)
        out.append((o, [x.v for x in ax], [x.v for x in p], rot))
    return out
def relative(U, d, sh):
    """B' = X^T diag(1/b^2, -1) X with X = Tb^-1 Ta = [Rb^T Ra, Rb^T (pa - pb)]"""
    (_, a, pa, ra), (_, b, pb, rb) = sh; Ra, Rb = ra(), rb()
    X = [[S(*[Rb[k][i] * Ra[k][j] for k in range(d)]) for j in range(d)] + [S(*[Rb[k][i] * (pa[k] - pb[k]) for k in range(d)])] for i in range(d)]
    w = [1 / (x * x) for x in b]
    return [[S(*[w[k] * X[k][i] * X[k][j] for k in range(d)]) - (1 if i == j == d else 0) for j in range(d + 1)] for i in range(d + 1)]
def test(U, d):
    sh = shapes(U, d); U.cover("precondition"); ex = U.ex; ex.name_mats = []; ex.rigid_inverse = True
    n = d + 1; A = [1 / (x * x) for x in sh[0][1]] + [z3.RealVal(-1)]; calls = []
    def roots(ex, this, args, f):
        v = ex.res(ex.rd(args[0]) if isinstance(args[0], LV) else args[0]); calls.append(v)
        ex.oblige(z3.BoolVal(same(v.len, n + 1)), "one coefficient per power", "pre")
        T = [ex.real(v.get(k)).v for k in range(n + 1)]
        named = [m for nm, m in ex.name_mats if m.r == m.c == n and nm == "b"]
        B = relative(U, d, sh)
        if named:
            M = named[-1]
            for i in range(n):
                for j in range(n):
                    U.prove_alg(M.get(i, j).v == B[i][j], "entry (%d,%d) of B'" % (i, j)); U.assume(M.get(i, j).v == B[i][j])
            for i in range(n):
                for j in range(i): U.prove_alg(B[i][j] == B[j][i], "B' is symmetric (%d,%d)" % (i, j)); U.assume(M.get(i, j).v == M.get(j, i).v)
            # the coefficient identities hold for every symmetric matrix: its entries are generalised to fresh constants
            g = [[z3.Real("entry%d%d" % (min(i, j), max(i, j))) for j in range(n)] for i in range(n)]
            gen = [(M.get(i, j).v, g[i][j]) for i in range(n) for j in range(n) if z3.is_const(M.get(i, j).v) and not z3.is_rational_value(M.get(i, j).v)]
            T = [z3.substitute(t, *gen) for t in T]; B = [[z3.substitute(M.get(i, j).v, *gen) for j in range(n)] for i in range(n)]
        D = det_poly(A, B)
        ex.oblige(T[0] != 0, "leading coefficient is not zero", "pre")
        for k in range(1, n + 1): U.prove_alg(T[k] * D[0] == D[k] * T[0], "coefficient %d of det(lambda A - B')" % k)
        r = U.vec(U.prog.fn("hrm::getRootsPolynomial")["ret"].a[0], "root", n)
        U.roots = r
        return r
    ex.contracts["hrm::getRootsPolynomial"] = roots
    q = "hrm::isEllipseSeparated" if d == 2 else "hrm::isEllipsoidSeparated"
    res = U.val(U.call(q, None, [U.loc(sh[0][0]), U.loc(sh[1][0])]))
    U.prove(z3.BoolVal(len(calls) == 1), "the roots of exactly one polynomial decide")
    T = z3.RealVal(Fraction(1, 1000000)); re = [U.roots.get(i).f["re"].v for i in range(n)]; im = [U.roots.get(i).f["im"].v for i in range(n)]
    neg = [z3.And(im[i] < T, im[i] > -T, re[i] < 0) for i in range(n)]
    apart = lambda i, j: (re[i] - re[j]) * (re[i] - re[j]) + (im[i] - im[j]) * (im[i] - im[j]) > T * T
    two = z3.Or(*[z3.And(neg[i], neg[j], apart(i, j), *[z3.Not(neg[k]) for k in range(n) if k not in (i, j)]) for i in range(n) for j in range(i)])
    U.prove(zb(res) == two, "separated exactly when two distinct negative real roots")
def unit_ellipse(U):
    """isEllipseSeparated, any two ellipses and poses: the coefficients are those of det(lambda A - B') up to a common non-zero factor, and the verdict is 'exactly two negative real roots, distinct' of the roots returned"""
    test(U, 2)
def unit_ellipsoid(U):
    """isEllipsoidSeparated: the same in space"""
    test(U, 3)
def unit_roots(U):
    """getRootsPolynomial, any degree >= 1 and any non-zero leading coefficient: the eigenvalues, one per degree, of the companion matrix [-c_(i+1)/c_0; I 0]"""
    n = U.int("n", 1); c = U.vec(REAL, "c", n + 1); U.assume(n < 2**31 - 1); U.assume(c.get(0).v != 0)
    U.cover("precondition"); seen = []
    RE, IM = [z3.Function("eigenvalue_" + k, z3.IntSort(), z3.RealSort()) for k in ("re", "im")]
    def eig(ex, e, lv, m):
        seen.append(m)
        return Mat(m.r, 1, None, ("fn", lambda i, j: Struct("std::complex", {"re": R(RE(zi(i))), "im": R(IM(zi(i)))})))
    U.ex.contracts["eigen:eigenvalues"] = eig
    r = U.val(U.call("hrm::getRootsPolynomial", None, [U.loc(c)]))
    U.prove(z3.BoolVal(len(seen) == 1), "eigenvalues of one matrix"); m = seen[0]; i = U.forall("i", 0, n); j = U.forall("j", 0, n)
    U.prove(z3.And(zi(m.r) == n, zi(m.c) == n), "companion matrix of the degree's size")
    U.prove(U.ex.real(m.get(0, j)).v * c.get(0).v == -c.get(j + 1).v, "first row")
    U.prove(z3.Implies(i > 0, U.ex.real(m.get(i, j)).v == z3.If(j == i - 1, z3.RealVal(1), z3.RealVal(0))), "the rows below the first are the shifted identity")
    U.prove(zi(r.len) == n, "one root per degree"); x = r.get(i)
    U.prove(z3.And(U.ex.real(x.f["re"]).v == RE(i), U.ex.real(x.f["im"]).v == IM(i)), "root i is eigenvalue i")
UNITS = [unit_ellipse, unit_ellipsoid, unit_roots]
