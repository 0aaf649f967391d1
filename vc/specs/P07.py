"""P07: sampled boundary points lie on the posed surface (SuperEllipse::getOriginShape, SuperQuadrics::getOriginShape)."""
from ..unit import *
from ..lib import *
from ..eigen import quat, quat_rot
TUS = ["src/geometry/SuperEllipse.cpp", "src/geometry/SuperQuadrics.cpp", "src/util/ExponentialFunction.cpp"]
SE, SQ = "hrm::SuperEllipse", "hrm::SuperQuadrics"
def sgn(x): return z3.If(x > 0, z3.RealVal(1), z3.If(x < 0, z3.RealVal(-1), z3.RealVal(0)))
def absv(x): return z3.If(x >= 0, x, -x)
def ef(th, p, F):
    """signed power of sine/cosine, the defining parametrisation"""
    v = F(th); return sgn(v) * F_POW(absv(v), p)
PI = z3.RealVal("3.1415926"); EPS = z3.RealVal("0.000001")
def ellipse(U, nm="s"):
    a = [U.real(nm + "a%d" % i) for i in range(2)]; e = U.real(nm + "eps"); p = [U.real(nm + "p%d" % i) for i in range(2)]; th = U.real(nm + "th"); n = U.int(nm + "num", 2)
    U.assume(z3.And(a[0].v > 0, a[1].v > 0, e.v > 0, e.v < 2, n <= 2**31 - 1))
    o = U.obj(SE, nm, semiAxis_=vecr(U, a), epsilon_=e, position_=vecr(U, p), angle_=th, num_=n)
    return o, a, e, p, th, n
def vecr(U, xs): return lit_vec(xs, REAL)
def unit_ellipse(U):
    """for all shapes, poses and sample counts: num points, point i is R(angle) (a cos^eps, b sin^eps) + position at angle 2 pi i/(num-1)"""
    o, a, e, p, th, n = ellipse(U)
    U.cover("precondition")
    m = U.val(U.call(SE + "::getOriginShape", U.loc(o), []))
    U.prove(z3.And(zi(m.r) == 2, zi(m.c) == n), "exactly the requested number of points")
    i = U.forall("i", 0, n)
    t = 2 * z3.ToReal(i) * PI / (z3.ToReal(n) - 1)
    t = U.real("t").v; U.assume(t * (z3.ToReal(n) - 1) == 2 * z3.ToReal(i) * PI)
    x, y = a[0].v * ef(t, e.v, F_COS), a[1].v * ef(t, e.v, F_SIN)
    c, s = F_COS(th.v), F_SIN(th.v)
    q = [U.ex.real(m.get(k, i)) for k in range(2)]
    U.prove(q[0].v == c * x - s * y + p[0].v, "x coordinate: posed parametric point")
    U.prove(q[1].v == s * x + c * y + p[1].v, "y coordinate: posed parametric point")
def unit_quat(U, nm):
    w, x, y, z = [U.real(nm + k) for k in "wxyz"]
    U.assume(w.v * w.v + x.v * x.v + y.v * y.v + z.v * z.v == 1)
    return quat(w, x, y, z)
def rotq(q):
    """rotation matrix of a unit quaternion"""
    w, x, y, z = [q.f[k].v for k in "wxyz"]
    return [[1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)], [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)], [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)]]
def quadric(U, nm="s", eps=True):
    """a superquadric built by its constructor and then given arbitrary shape and pose by its setters"""
    n = U.int(nm + "num", 2, 40000)
    v = lambda k, t: [U.real(nm + t + str(i)) for i in range(k)]
    mk = lambda xs: U.loc(lit_vec(xs, REAL))
    a, e, p = v(3, "a"), v(2, "e"), v(3, "p"); q = unit_quat(U, nm + "q")
    o = U.loc(U.obj(SQ, nm)); ctor = SQ + "::SuperQuadrics"
    U.call(ctor, o, [mk(v(3, "a0")), mk(v(2, "e0")), mk(v(3, "p0")), U.loc(unit_quat(U, nm + "q0")), n], pred=lambda f: len(f["params"]) == 5)
    for x in a: U.assume(x.v > 0)
    for x in e: U.assume(z3.And(x.v > 0, x.v < 2))
    for s, x in (("setSemiAxis", a), ("setEpsilon", e), ("setPosition", p)): U.call(SQ + "::" + s, o, [mk(x)])
    U.call(SQ + "::setQuaternion", o, [U.loc(q)])
    return o, a, e, p, q, n
def angles(U, n, i, j):
    """sampling angles: eta_j = -(pi/2+eps) + j/(n-1) (pi+2eps), omega_i = -(pi+eps) + i/(n-1) (2pi+2eps)"""
    H, W = PI / 2 + EPS, PI + EPS; N = z3.ToReal(n) - 1
    return -H + 2 * H * (z3.ToReal(j) / N), -W + 2 * W * (z3.ToReal(i) / N)
def col_index(U, n, i, j):
    """column k = i + j n of the n x n grid; the two facts are unit_index"""
    k = i + j * n
    U.assume(z3.And(*index_lemma(n, i, j)))
    return k
def split_index(v, n, k, i, j):
    """rewrite with the two equations of unit_index"""
    return R(z3.substitute(v.v, (k % n, i), (k / n, j)), v.st)
def index_lemma(n, i, j):
    k = i + j * n
    return [z3.And(k >= 0, k < n * n), k % n == i, k / n == j]
def unit_index(U):
    """lemma: every column below n^2 is i + j n for exactly one grid cell (i,j), and splitting it gives i and j back"""
    n = U.int("n", 2); i = U.int("i", 0); j = U.int("j", 0); U.assume(z3.And(i < n, j < n))
    U.cover("lemma")
    U.assume((n - 1 - j) * n >= 0); U.assume(j * n >= 0)
    for f, w in zip(index_lemma(n, i, j), ("column in range", "row of the cell", "column of the cell")): U.prove(f, w)
    k = U.int("k", 0); U.assume(k < n * n)
    U.prove(z3.And(k % n >= 0, k % n < n, k / n >= 0, k == k % n + (k / n) * n), "every column is a cell")
    d = U.int("d"); U.assume(z3.And(d == k / n, d * n <= k)); U.assume(z3.Implies(d >= n, (d - n) * n >= 0))
    U.prove(d < n, "every column is a cell of the grid")
def unit_quadric(U):
    """for all shapes, poses and sample counts: num^2 points, column i + j num is R(q) x(eta_j, omega_i) + position"""
    o, a, e, p, q, n = quadric(U)
    U.cover("precondition")
    m = U.val(U.call(SQ + "::getOriginShape", o, []))
    U.prove(z3.And(zi(m.r) == 3, zi(m.c) == n * n), "exactly num^2 points")
    i = U.forall("i", 0, n); j = U.forall("j", 0, n)
    k = col_index(U, n, i, j); et, om = angles(U, n, i, j)
    ce, co, so, se = ef(et, e[0].v, F_COS), ef(om, e[1].v, F_COS), ef(om, e[1].v, F_SIN), ef(et, e[0].v, F_SIN)
    x = [a[0].v * (ce * co), a[1].v * (ce * so), a[2].v * se]
    Rm = rotq(q)
    for r in range(3):
        v = split_index(U.ex.real(m.get(r, k)), n, k, i, j)
        U.prove(v.v == Rm[r][0] * x[0] + Rm[r][1] * x[1] + Rm[r][2] * x[2] + p[r].v, "coordinate %d: posed parametric point" % r)
UNITS = [unit_ellipse, unit_quadric, unit_index]
