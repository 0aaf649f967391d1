"""Trusted contracts of Eigen: dense matrices/arrays over exact reals, quaternions, rotations."""
import z3
from .vals import *
from .ctx import *
from .lib import *
from . import lib

def T(ex): trust(ex, "Eigen dense arithmetic over exact reals")
def scalar(v): return isinstance(v, (R, int, bool)) or (is_z3(v))
def size(m): 
    return i_mul(m.r, m.c)
def lin(ex, m, i):
    """linear (vector) access"""
    if isinstance(m.c, int) and m.c == 1: return m.get(i, 0)
    if isinstance(m.r, int) and m.r == 1: return m.get(0, i)
    if isinstance(i, int) and isinstance(m.r, int): return m.get(i % m.r, i // m.r)
    raise Unsupported("linear access of a matrix")
def shape_vec(m, n): return (n, 1) if isinstance(m.c, int) and m.c == 1 else (1, n)
def lz(ex, f, *vs):
    """apply f to real cells; an uninitialised cell stays uninitialised (its later use is the error)"""
    vs = [ex.res(v) for v in vs]
    for n, v in enumerate(vs):
        if isinstance(v, Uninit): return UNINIT
        if isinstance(v, Maybe): return ite(v.c, lz(ex, f, *vs[:n], v.a, *vs[n + 1:]), lz(ex, f, *vs[:n], v.b, *vs[n + 1:]))
    return f(*[ex.real(v) for v in vs])
def cw(ex, m, f): return mat(m.r, m.c, lambda i, j: lz(ex, f, m.get(i, j)), m.arr)
def same_dim(ex, a, b, what):
    ok = b_and(i_eq(a.r, b.r), i_eq(a.c, b.c))
    if ok is not True: ex.oblige(ok, "Eigen operand sizes agree (%s)" % what)
def cw2(ex, a, b, f, what="cwise"):
    if not isinstance(a, Mat): return mat(b.r, b.c, lambda i, j: lz(ex, f, a, b.get(i, j)), b.arr)
    if not isinstance(b, Mat): return mat(a.r, a.c, lambda i, j: lz(ex, f, a.get(i, j), b), a.arr)
    same_dim(ex, a, b, what)
    r = a.r if isinstance(a.r, int) else b.r; c = a.c if isinstance(a.c, int) else b.c
    return mat(r, c, lambda i, j: lz(ex, f, a.get(i, j), b.get(i, j)), a.arr)
def matmul(ex, a, b):
    ok = i_eq(a.c, b.r)
    if ok is not True: ex.oblige(ok, "Eigen operand sizes agree (product)")
    n = a.c if isinstance(a.c, int) else b.r
    if not isinstance(n, int): raise Unsupported("matrix product with symbolic inner dimension")
    def f(i, j):
        s = R(0)
        for k in range(n): s = r_add(s, r_mul(ex.real(a.get(i, k)), ex.real(b.get(k, j))))
        return s
    return mat(a.r, b.c, f)
def mat_op(ex, op, a, b):
    T(ex)
    a = ex.res(a); b = ex.res(b)
    if op in ("+", "-"):
        f = r_add if op == "+" else r_sub
        return cw2(ex, a, b, f, op)
    if op == "*":
        if isinstance(a, Mat) and isinstance(b, Mat):
            if a.arr or b.arr: return cw2(ex, a, b, r_mul, op)
            return matmul(ex, a, b)
        return cw2(ex, a, b, r_mul, op)
    if op == "/": return cw2(ex, a, b, lambda x, y: ex.div(x, y), op)
    raise Unsupported("matrix operator " + op)
def mat_cmp(ex, op, a, b):
    if op in ("==", "!=") and isinstance(a, Mat) and isinstance(b, Mat) and not a.arr:
        if not (isinstance(a.r, int) and isinstance(a.c, int) and a.cells is not None):
            if isinstance(a.c, int) and a.c == 1:
                r = b_not(exists_in(ex, a.r, lambda k: b_not(ex.compare("==", a.get(k, 0), b.get(k, 0)))))
            else: raise Unsupported("matrix equality")
        else: r = b_and(*[ex.compare("==", a.get(i, j), b.get(i, j)) for i in range(a.r) for j in range(a.c)])
        return r if op == "==" else b_not(r)
    m = a if isinstance(a, Mat) else b
    return mat(m.r, m.c, lambda i, j: ex.compare(op, a.get(i, j) if isinstance(a, Mat) else a, b.get(i, j) if isinstance(b, Mat) else b), True)
def fold(ex, m, f, init=None):
    if not (isinstance(m.r, int) and isinstance(m.c, int)): raise Unsupported("reduction over a symbolic dimension")
    out = init
    for j in range(m.c):
        for i in range(m.r):
            v = ex.real(m.get(i, j)); out = v if out is None else f(out, v)
    return out
SUMS = {}
def sq(a): return r_mul(a, a)
def sum_sym(ex, ln, term, tag):
    k = z3.Int(fresh_name("sk"))
    t = term(k)
    if not fin(t): raise Unsupported("sum of non-finite terms")
    return R(prefix_sum(ex.ctx, t.v, k)(zi(ln)))
def msum(ex, m, tag="sum"):
    if isinstance(m.r, int) and isinstance(m.c, int): return fold(ex, m, r_add, R(0))
    if isinstance(m.c, int) and m.c == 1: return sum_sym(ex, m.r, lambda k: ex.real(m.get(k, 0)), tag)
    if isinstance(m.r, int) and m.r == 1: return sum_sym(ex, m.c, lambda k: ex.real(m.get(0, k)), tag)
    raise Unsupported("sum over symbolic dimensions")
def dot(ex, a, b):
    if isinstance(a.r, int) and isinstance(a.c, int) or isinstance(b.r, int) and isinstance(b.c, int):
        n = a.r * a.c if isinstance(a.r, int) and isinstance(a.c, int) else b.r * b.c
        s = R(0)
        for i in range(n): s = r_add(s, r_mul(ex.real(lin(ex, a, i)), ex.real(lin(ex, b, i))))
        return s
    return msum(ex, cw2(ex, a, b, r_mul), "dot")
def sqnorm(ex, a): return msum(ex, cw(ex, a, sq), "sqn")
def norm(ex, a): return m_sqrt(ex, sqnorm(ex, a))
def det(ex, m, n=None):
    n = m.r if n is None else n
    g = lambda i, j: ex.real(m.get(i, j))
    def rec(rows, cols):
        if len(rows) == 1: return g(rows[0], cols[0])
        s = R(0)
        for k, c in enumerate(cols):
            x = r_mul(g(rows[0], c), rec(rows[1:], cols[:k] + cols[k + 1:]))
            s = r_add(s, x) if k % 2 == 0 else r_sub(s, x)
        return s
    return rec(list(range(n)), list(range(n)))
def cofactor(ex, m, i, j):
    n = m.r
    if n == 1: return R(1)
    rows = [a for a in range(n) if a != i]; cols = [b for b in range(n) if b != j]
    sub = mat(n - 1, n - 1, lambda a, b: m.get(rows[a], cols[b]))
    d = det(ex, sub)
    return d if (i + j) % 2 == 0 else r_neg(d)
def inverse(ex, m):
    if not isinstance(m.r, int) or m.r != m.c: raise Unsupported("inverse of symbolic matrix")
    n = m.r
    diag = all(num(ex.real(m.get(i, j)).v) == 0 for i in range(n) for j in range(n) if i != j)
    if diag: return mat(n, n, lambda i, j: ex.div(R(1), ex.real(m.get(i, i))) if i == j else R(0))
    if n in (3, 4) and all(num(ex.real(m.get(n - 1, j)).v) == (1 if j == n - 1 else 0) for j in range(n)):
        d = n - 1; A = mat(d, d, lambda i, j: m.get(i, j)); Ai = inverse(ex, A)
        t = mat(d, 1, lambda i, j: m.get(i, d)); q = matmul(ex, Ai, t)
        def f(i, j):
            if i == d: return R(1 if j == d else 0)
            return Ai.get(i, j) if j < d else r_neg(q.get(i, 0))
        return mat(n, n, f)
    if getattr(ex, "rigid_inverse", False):
        # the matrix is shown to be orthonormal; its inverse is then its transpose
        for i in range(n):
            for j in range(i, n):
                s = R(0)
                for k in range(n): s = r_add(s, r_mul(ex.real(m.get(k, i)), ex.real(m.get(k, j))))
                ex.oblige(s.v == (1 if i == j else 0), "the inverted matrix is orthonormal (%d,%d)" % (i, j), "rotation")
        return mat(n, n, lambda i, j: m.get(j, i))
    hook = getattr(ex, "inverse_hook", None)
    if hook:
        r = hook(ex, m)
        if r is not None: return r
    d = det(ex, m)
    if n <= 2 or (n == 3 and getattr(ex, "explicit_inverse", False)):
        return mat(n, n, lambda i, j: ex.div(cofactor(ex, m, j, i), d))
    ex.oblige(z3.BoolVal(True) if ex.quick(d.v != 0) else d.v != 0, "inverse of a singular matrix")
    X = mat(n, n, lambda i, j: R(ex.ctx.fresh("inv", z3.RealSort())))
    for P in (matmul(ex, m, X), matmul(ex, X, m)):
        for i in range(n):
            for j in range(n): ex.assume(P.get(i, j).v == (1 if i == j else 0))
    return X
# ---- quaternions (Struct "Quat")
def quat(w, x, y, z): return Struct("Quat", {"w": w, "x": x, "y": y, "z": z})
def qs(ex, q):
    q = ex.res(q)
    if isinstance(q, Maybe): q = ite(q.c, q.a, q.b)
    return [ex.real(q.f[k]) for k in "wxyz"]
def quat_rot(ex, q):
    """Eigen's toRotationMatrix formula"""
    w, x, y, z = qs(ex, q)
    if z3.is_app(w.v) and z3.is_app(x.v):
        for (ps, M) in ex.ctx.__dict__.get("rotq_decl", {}).get(w.v.decl().get_id(), []):
            # a quaternion obtained from the rotation M
            a = w.v.children()
            if all(k.v.decl().get_id() == p.decl().get_id() and all(u.get_id() == v.get_id() for u, v in zip(k.v.children(), a)) for k, p in zip((w, x, y, z), ps)):
                sub = list(zip(ps[0].children(), a))
                return mat(3, 3, lambda i, j: R(z3.substitute(M[i][j], *sub)) if sub else R(M[i][j]))
    two = R(2); m, a, s = r_mul, r_add, r_sub
    tx, ty, tz = m(two, x), m(two, y), m(two, z)
    twx, twy, twz = m(tx, w), m(ty, w), m(tz, w)
    txx, txy, txz = m(tx, x), m(ty, x), m(tz, x)
    tyy, tyz, tzz = m(ty, y), m(tz, y), m(tz, z)
    o = R(1)
    C = [[s(o, a(tyy, tzz)), s(txy, twz), a(txz, twy)], [a(txy, twz), s(o, a(txx, tzz)), s(tyz, twx)], [s(txz, twy), a(tyz, twx), s(o, a(txx, tyy))]]
    M = mat(3, 3, lambda i, j: C[i][j])
    if ex.name_mats is None: return M
    key = tuple(x.v.get_id() for x in (w, x, y, z)); reg = ex.__dict__.setdefault("rot_names", {})
    if key in reg: return reg[key][0]
    if all(num(c.v) is not None for c in (w, x, y, z)): return M
    N = ex.named(M, "rotation"); reg[key] = (N, w, x, y, z)
    # a rotation by a unit quaternion is orthonormal (lemma unit_rotation of the specs that switch naming on)
    unit = w.v * w.v + x.v * x.v + y.v * y.v + z.v * z.v == 1
    ex.ctx.add_fact(z3.Implies(unit, z3.And(*orthonormal(N))))
    return N
def orthonormal(M, n=3):
    g = lambda i, j: M.get(i, j).v
    return [z3.Sum(*[g(k, i) * g(k, j) for k in range(n)]) == (1 if i == j else 0) for i in range(n) for j in range(i, n)]
def quat_mul(ex, p, q):
    a, b, c, d = qs(ex, p); e, f, g, h = qs(ex, q)
    m, ad, s = r_mul, r_add, r_sub
    return quat(s(s(s(m(a, e), m(b, f)), m(c, g)), m(d, h)), s(ad(ad(m(a, f), m(b, e)), m(c, h)), m(d, g)),
                s(ad(ad(m(a, g), m(c, e)), m(d, f)), m(b, h)), s(ad(ad(m(a, h), m(d, e)), m(b, g)), m(c, f)))
def rot_to_quat(ex, M):
    """Quaternion(R): some unit quaternion whose rotation matrix is R (for a proper rotation R)"""
    trust(ex, "Eigen::Quaternion(R): for a proper rotation R, a unit quaternion q with q.toRotationMatrix() == R")
    h = getattr(ex, "rotq_hook", None)
    if h is not None:
        r = h(ex, M)
        if r is not None: return r
    key = tuple((ex.real(M.get(i, j)).v).get_id() for i in range(3) for j in range(3))
    reg = ex.ctx.__dict__.setdefault("rotq", {})
    keep = ex.ctx.__dict__.setdefault("rotq_keep", [])
    if key in reg: return reg[key]
    q = quat(*[R(ex.ctx.fresh("rq." + k, z3.RealSort())) for k in "wxyz"])
    proper = proper_rotation(ex, M)
    Rm = quat_rot(ex, q)
    w, x, y, z = qs(ex, q)
    ex.oblige(proper, "matrix converted to a quaternion is a proper rotation", kind="rotation")
    ex.assume(w.v * w.v + x.v * x.v + y.v * y.v + z.v * z.v == 1)
    for i in range(3):
        for j in range(3): ex.assume(Rm.get(i, j).v == ex.real(M.get(i, j)).v)
    keep.append(M); reg[key] = q
    if all(z3.is_app(k.v) for k in (w, x, y, z)):
        ex.ctx.__dict__.setdefault("rotq_decl", {}).setdefault(w.v.decl().get_id(), []).append(([w.v, x.v, y.v, z.v], [[ex.real(M.get(i, j)).v for j in range(3)] for i in range(3)]))
    return q
def rot2_angle(ex, M):
    """Rotation2D(R): an angle whose rotation matrix is R (for a proper rotation R)"""
    trust(ex, "Eigen::Rotation2D(R): for a proper rotation R, an angle a with (cos a, sin a) the first column of R")
    c, s = ex.real(M.get(0, 0)), ex.real(M.get(1, 0))
    key = (c.v.get_id(), s.v.get_id()); reg = ex.ctx.__dict__.setdefault("rot2", {})
    if key in reg: return reg[key][0]
    a = ex.ctx.fresh("rot.a", z3.RealSort())
    ex.oblige(proper_rotation(ex, M), "matrix converted to a planar rotation is a proper rotation", kind="rotation")
    ex.assume(z3.And(F_COS(a) == c.v, F_SIN(a) == s.v, a >= -z3.RealVal(PI_HI), a <= z3.RealVal(PI_HI)))
    ex.ctx.__dict__.setdefault("trigdefs", {})[a.decl().get_id()] = (a, c.v, s.v)
    reg[key] = (R(a), M)
    return R(a)
def proper_rotation(ex, M):
    n = M.r
    out = []
    for i in range(n):
        for j in range(i, n):
            s = R(0)
            for k in range(n): s = r_add(s, r_mul(ex.real(M.get(i, k)), ex.real(M.get(j, k))))
            out.append(s.v == (1 if i == j else 0))
    out.append(det(ex, M).v > 0)
    return z3.And(*out)
def to_rot(ex, v):
    v = ex.res(v)
    if isinstance(v, Mat): return v
    if isinstance(v, Struct):
        if v.cls == "Quat": return quat_rot(ex, v)
        if v.cls == "AA": return aa_rot(ex, v)
        if v.cls == "Rot2":
            a = v.f["angle"]; c, s = MATH["cos"](ex, a), MATH["sin"](ex, a)
            C = [[c, r_neg(s)], [s, c]]
            return mat(2, 2, lambda i, j: C[i][j])
        if v.cls == "Diag":
            d = v.f["d"]; n = d.r if not (isinstance(d.r, int) and d.r == 1) else d.c
            return mat(n, n, lambda i, j: lin(ex, d, i) if isinstance(i, int) and isinstance(j, int) and i == j else (R(0) if isinstance(i, int) and isinstance(j, int) else ite(i_eq(i, j), lin(ex, d, i), R(0))))
        if v.cls == "Perm": raise Unsupported("permutation")
    raise Unsupported("rotation of " + kind(v))
def aa_of(ex, M):
    """AngleAxis(R): an angle and unit axis whose rotation matrix is R (for a proper rotation R)"""
    trust(ex, "Eigen::AngleAxis(R): for a proper rotation R, an angle and a unit axis whose rotation matrix is R")
    ex.oblige(proper_rotation(ex, M), "matrix converted to an angle-axis is a proper rotation", kind="rotation")
    a = R(ex.ctx.fresh("aa.angle", z3.RealSort())); ax = mat(3, 1, lambda i, j, g=[R(ex.ctx.fresh("aa.axis", z3.RealSort())) for _ in range(3)]: g[i])
    v = Struct("AA", {"angle": a, "axis": ax})
    ex.assume(z3.Sum(*[ax.get(k, 0).v * ax.get(k, 0).v for k in range(3)]) == 1)
    ex.ctx.__dict__.setdefault("aa_known", []).append((a, ax, M))
    N = aa_rot(ex, v)
    for i in range(3):
        for j in range(3): ex.assume(N.get(i, j).v == ex.real(M.get(i, j)).v)
    return v
def aa_rot(ex, v):
    a = v.f["angle"]; ax = v.f["axis"]
    s, c = MATH["sin"](ex, a), MATH["cos"](ex, a)
    x = [ex.real(lin(ex, ax, i)) for i in range(3)]
    oc = r_sub(R(1), c)
    def f(i, j):
        b = r_mul(r_mul(oc, x[i]), x[j])
        if i == j: return r_add(b, c)
        sg = {(0, 1): (2, -1), (0, 2): (1, 1), (1, 0): (2, 1), (1, 2): (0, -1), (2, 0): (1, -1), (2, 1): (0, 1)}[(i, j)]
        t = r_mul(s, x[sg[0]])
        return r_add(b, t) if sg[1] > 0 else r_sub(b, t)
    return mat(3, 3, f)
def aa_quat(ex, v):
    h = r_mul(R(Fraction(1, 2)), v.f["angle"]); s, c = MATH["sin"](ex, h), MATH["cos"](ex, h)
    return quat(c, *[r_mul(s, ex.real(lin(ex, v.f["axis"], i))) for i in range(3)])
# ---------------------------------------------------------------- construction
def construct(ex, e):
    t = e["t"]; n = t.n; args = e["args"]
    T(ex)
    if n in ("Eigen::Matrix", "Eigen::Array"):
        r, c = t.a[1], t.a[2]; arr = n == "Eigen::Array"
        if not args: return ex.default(t)
        vs = [ex.res(ex.ev(a)) for a in args]
        if len(vs) == 1:
            v = vs[0]
            if isinstance(v, Mat):
                if r != -1 and not isinstance(v.r, int): ex.oblige(i_eq(v.r, r), "Eigen operand sizes agree")
                if v.c == 1 and r == 1 and v.r != 1: return mat(1, v.r if c == -1 else c, lambda i, j: v.get(j, 0), arr)
                return Mat(v.r, v.c, v.cells, v.node, arr) if (r == -1 or r == v.r) and (c == -1 or c == v.c) else mat(r if r != -1 else v.r, c if c != -1 else v.c, v.get, arr)
            if isinstance(v, Struct): return to_rot(ex, v)
            if isinstance(v, Vec) and isinstance(v.len, int):   # initializer list
                if v.len and isinstance(v.get(0), Vec): return mat(v.len, v.get(0).len, lambda i, j: ex.real(v.get(i).get(j)), arr)
                return mat(v.len, 1, lambda i, j: ex.real(v.get(i)), arr)
            if isinstance(v, Iter) and r != -1 and c != -1:   # pointer to the coefficients
                w = ex.res(ex.rd(v.lv))
                if not isinstance(w, Vec): raise Unsupported("matrix from a pointer to " + kind(w))
                ex.oblige(i_le(i_add(v.idx, r * c), w.len), "coefficients read stay within their storage")
                return mat(r, c, lambda i, j: ex.real(w.get(i_add(v.idx, i_add(i_mul(j, r), i)))), arr)
            k = ex.int(v) if args[0]["t"].noref().k == "int" else None
            if k is not None and (r == -1 or c == -1):   # VectorX(n)
                rr, cc = (k, c) if c != -1 else ((r, k) if r != -1 else (k, 1))
                return Mat(rr, cc, None, ("fn", lambda i, j: UNINIT), arr) if not isinstance(k, int) else mat(rr, cc, lambda i, j: UNINIT, arr)
            if r == 1 and c == 1: return mat(1, 1, lambda i, j: ex.real(v), arr)
            raise Unsupported("Eigen constructor")
        if len(vs) == 2 and (r == -1 or c == -1) and all(a["t"].noref().k == "int" for a in args):
            a, b = ex.int(vs[0]), ex.int(vs[1])
            ok = True
            return mat(a, b, lambda i, j: UNINIT, arr) if isinstance(a, int) and isinstance(b, int) else Mat(a, b, None, ("fn", lambda i, j: UNINIT), arr)
        cells = [ex.real(v) for v in vs]
        if r != -1 and c != -1 and r * c == len(cells): return Mat(r, c, tuple(cells), None, arr)
        raise Unsupported("Eigen constructor arity")
    if n == "Eigen::Quaternion":
        if not args: return ex.default(t)
        vs = [ex.res(ex.ev(a)) for a in args]
        if len(vs) == 4: return quat(*[ex.real(v) for v in vs])
        v = vs[0]
        if isinstance(v, Struct) and v.cls == "Quat": return v
        if isinstance(v, Struct) and v.cls == "AA": return aa_quat(ex, v)
        if isinstance(v, Mat) and v.r == 3 and v.c == 3: return rot_to_quat(ex, v)
        if isinstance(v, Mat): return quat(lin(ex, v, 3), lin(ex, v, 0), lin(ex, v, 1), lin(ex, v, 2))
        raise Unsupported("quaternion constructor")
    if n == "Eigen::AngleAxis":
        vs = [ex.res(ex.ev(a)) for a in args]
        if len(vs) == 2: return Struct("AA", {"angle": ex.real(vs[0]), "axis": vs[1]})
        if len(vs) == 1 and isinstance(vs[0], Struct) and vs[0].cls == "AA": return vs[0]
        if len(vs) == 1 and isinstance(vs[0], Mat): return aa_of(ex, vs[0])
        raise Unsupported("AngleAxis constructor")
    if n == "Eigen::Rotation2D":
        vs = [ex.res(ex.ev(a)) for a in args]
        if not vs: return Struct("Rot2", {"angle": UNINIT})
        if len(vs) == 1 and not isinstance(vs[0], Mat): return vs[0] if isinstance(vs[0], Struct) else Struct("Rot2", {"angle": ex.real(vs[0])})
        if len(vs) == 1 and isinstance(vs[0], Mat) and vs[0].c == 2: return Struct("Rot2", {"angle": rot2_angle(ex, vs[0])})
        raise Unsupported("Rotation2D constructor")
    if n == "Eigen::DiagonalMatrix":
        vs = [ex.res(ex.ev(a)) for a in args]
        if not vs and isinstance(t.a[1], int) and t.a[1] > 0: return Struct("Diag", {"d": mat(t.a[1], 1, lambda i, j: UNINIT)})
        if len(vs) == 1 and isinstance(vs[0], Struct) and vs[0].cls == "Diag": return vs[0]
        if len(vs) == 1 and isinstance(vs[0], Mat): return Struct("Diag", {"d": vs[0]})
        if vs: return Struct("Diag", {"d": mat(len(vs), 1, lambda i, j: ex.real(vs[i]))})
    if n == "Eigen::Map":
        return map_construct(ex, t, args)
    if len(args) == 1: return ex.ev(args[0])
    h = ex.contracts.get("construct:" + n)
    if h: return h(ex, e)
    raise Unsupported("constructor of " + n)

def map_construct(ex, t, args):
    """Map<Matrix>(pointer into a vector of reals[, rows[, cols]]): column-major read-only view"""
    trust(ex, "Eigen::Map: column-major view of contiguous storage")
    if len(t.a) > 2 and not (t.a[2].n == "Eigen::Stride" and list(t.a[2].a) in ([0, 0], [])): raise Unsupported("Map with strides %r" % (t.key,))
    args = [a for a in args if a["t"].noref().n != "Eigen::Stride"]
    mt = t.a[0]; vs = [ex.res(ex.ev(a)) for a in args]; p = vs[0]
    dims = [ex.int(v) for v in vs[1:]]; r, c = mt.a[1], mt.a[2]
    if len(dims) == 2: 
        if r != -1 and not same(r, dims[0]) or c != -1 and not same(c, dims[1]): ex.oblige(b_and(i_eq(r, dims[0]) if r != -1 else True, i_eq(c, dims[1]) if c != -1 else True), "Map dimensions agree with the matrix type")
        r, c = dims
    elif len(dims) == 1: r, c = (dims[0], c) if c == 1 else (r, dims[0])
    if not isinstance(p, Iter): raise Unsupported("Map over " + kind(p))
    v = ex.res(ex.rd(p.lv))
    if not isinstance(v, Vec) or r == -1 or c == -1: raise Unsupported("Map over " + kind(v))
    ex.oblige(i_le(i_add(p.idx, i_mul(r, c)), v.len), "Map stays within its storage")
    return mat(r, c, lambda i, j: v.get(i_add(p.idx, i_add(i_mul(j, r), i))), mt.n == "Eigen::Array")
def cell_lv(ex, lv, m, i, j):
    ex.oblige(b_and(i_ge(i, 0), i_lt(i, m.r), i_ge(j, 0), i_lt(j, m.c)), "matrix element access within bounds")
    if all(isinstance(x, int) for x in (i, j)) and (isinstance(m.r, int) and not 0 <= i < m.r or isinstance(m.c, int) and not 0 <= j < m.c):
        raise Unsupported("constant index out of range")
    return lv.c(i, j)
def opcall(ex, e):
    op = e["op"]; args = e["args"]; T(ex)
    if op in ("()", "[]"):
        lv = ex.lv(args[0]); m = ex.res(ex.rd(lv))
        ix = [ex.int(ex.ev(a)) for a in args[1:]]
        if not isinstance(m, Mat): raise Unsupported("element access of " + kind(m))
        if len(ix) == 2: return cell_lv(ex, lv, m, *ix)
        if isinstance(m.c, int) and m.c == 1: return cell_lv(ex, lv, m, ix[0], 0)
        if isinstance(m.r, int) and m.r == 1: return cell_lv(ex, lv, m, 0, ix[0])
        if isinstance(ix[0], int) and isinstance(m.r, int): return cell_lv(ex, lv, m, ix[0] % m.r, ix[0] // m.r)
        raise Unsupported("linear element access")
    if op == "=":
        v = ex.res(ex.ev(args[1])); 
        return assign(ex, args[0], v)
    if op == "<<" : return comma_start(ex, args)
    if op == ",": return comma_next(ex, args)
    if op in ("+=", "-=", "*=", "/="):
        b = ex.res(ex.ev(args[1])); lv = ex.lv_strict(args[0]); a = ex.res(ex.rd(lv))
        if isinstance(a, Struct) and a.cls == "Quat" and op == "*=":
            ex.wr(lv, quat_mul(ex, a, b)); return lv
        b = to_rot(ex, b) if isinstance(b, Struct) else b
        ex.wr(lv, mat_op(ex, op[0], a, b)); return lv
    a = ex.res(ex.ev(args[0]))
    if len(args) == 1:
        if op == "-": return cw(ex, a, r_neg)
        if op == "+": return a
        if op == "*": return a
        raise Unsupported("Eigen unary " + op)
    b = ex.res(ex.ev(args[1]))
    if op in ("<", "<=", ">", ">=", "==", "!="):
        if isinstance(a, Struct): return ex.compare(op, a, b)
        return mat_cmp(ex, op, a, b)
    if op in ("&&", "||"):
        f = b_and if op == "&&" else b_or
        return mat(a.r, a.c, lambda i, j: f(a.get(i, j), b.get(i, j)), True)
    if isinstance(a, Struct) or isinstance(b, Struct):
        ca = a.cls if isinstance(a, Struct) else None; cb = b.cls if isinstance(b, Struct) else None
        if op == "*":
            if ca in ("Quat", "AA") and cb in ("Quat", "AA"):
                return quat_mul(ex, a if ca == "Quat" else aa_quat(ex, a), b if cb == "Quat" else aa_quat(ex, b))
            if ca == "Rot2" and cb == "Rot2": return Struct("Rot2", {"angle": r_add(a.f["angle"], b.f["angle"])})
            return matmul(ex, to_rot(ex, a), to_rot(ex, b))
        if ca == "Diag" and scalar(b): return Struct("Diag", {"d": mat_op(ex, op, a.f["d"], b)})
        if ca == "Wise" and op in "+-" and isinstance(b, Mat):
            m = a.f["m"]; f = r_add if op == "+" else r_sub
            return mat(m.r, m.c, (lambda i, j: lz(ex, f, m.get(i, j), lin(ex, b, i))) if a.f["col"] else (lambda i, j: lz(ex, f, m.get(i, j), lin(ex, b, j))), m.arr)
        raise Unsupported("Eigen operator on rotations")
    return mat_op(ex, op, a, b)
def assign(ex, lhs, v):
    lv = ex.lv_strict(lhs); t = lhs["t"].noref()
    old = ex.res(ex.rd(lv))
    if isinstance(old, Struct) and old.cls == "Quat":
        if isinstance(v, Struct) and v.cls == "Quat": ex.wr(lv, v)
        elif isinstance(v, Struct) and v.cls == "AA": ex.wr(lv, aa_quat(ex, v))
        else: ex.wr(lv, rot_to_quat(ex, v))
        return lv
    if isinstance(old, Struct) and old.cls == "Rot2":
        if isinstance(v, Struct) and v.cls == "Rot2": ex.wr(lv, v)
        else: ex.wr(lv, Struct("Rot2", {"angle": rot2_angle(ex, to_rot(ex, v))}))
        return lv
    if isinstance(v, Struct) and v.cls in ("Quat", "AA", "Rot2", "Diag"): v = to_rot(ex, v)
    if isinstance(v, Mat) and isinstance(old, Mat):
        is_plain = t.n in ("Eigen::Matrix", "Eigen::Array")
        dyn = is_plain and -1 in t.a[1:3]
        if not dyn:
            # vectors may be assigned across orientation
            if old.r == v.c and old.c == v.r and not (old.r == v.r): v = mat(old.r, old.c, lambda i, j, v=v: v.get(j, i))
            same_dim(ex, old, v, "assignment")
            if isinstance(old.r, int) and isinstance(old.c, int) and not (isinstance(v.r, int) and isinstance(v.c, int)):
                v = mat(old.r, old.c, v.get)
        else:
            if is_plain and t.a[2] == 1 and v.r == 1 and v.c != 1: v = mat(v.c, 1, lambda i, j, v=v: v.get(0, i))
            if is_plain and t.a[1] == 1 and v.c == 1 and v.r != 1: v = mat(1, v.r, lambda i, j, v=v: v.get(j, 0))
        # concretise lazily referenced cells so that later writes do not alias
        ex.wr(lv, Mat(v.r, v.c, v.cells, v.node, old.arr))
        return lv
    ex.wr(lv, v)
    return lv
# comma initialiser: state object kept in the store
def comma_start(ex, args):
    lv = ex.lv_strict(args[0]); v = ex.res(ex.ev(args[1]))
    c = ["comma", lv, 0, 0, 1]
    return comma_put(ex, c, v)
class Comma:
    __slots__ = ("c",)
    def __init__(self, c): self.c = c
def comma_put(ex, c, v):
    _, lv, r, col, h = c
    m = ex.res(ex.rd(lv))
    v = v if isinstance(v, Mat) else mat(1, 1, lambda i, j: ex.real(v))
    if same(col, m.c): r = i_add(r, h); col = 0
    h = v.r
    if v.r == 1 and v.c == 1: 
        if not (isinstance(m.r, int) and isinstance(m.c, int)): ex.oblige(b_and(i_lt(r, m.r), i_lt(col, m.c)), "comma initialiser within bounds")
        elif not (r < m.r and col < m.c): ex.oblige(False, "comma initialiser within bounds"); raise Unsupported("comma overflow")
        ex.wr(lv.c(r, col), v.get(0, 0))
    else:
        ex.oblige(b_and(i_le(i_add(r, v.r), m.r), i_le(i_add(col, v.c), m.c)), "comma initialiser within bounds")
        ex.wr(lv.b(r, col, v.r, v.c), v)
    return Comma(["comma", lv, r, i_add(col, v.c), h])
def comma_next(ex, args):
    c = ex.ev(args[0]); v = ex.res(ex.ev(args[1]))
    if not isinstance(c, Comma): raise Unsupported("comma operator")
    return comma_put(ex, c.c, v)

import re
def static_dims(q):
    m = re.search(r"(Matrix|Array)<double, (-?\d+), (-?\d+)", q)
    if not m: return None
    return int(m.group(2)), int(m.group(3)), m.group(1) == "Array"
def static_call(ex, e):
    fn = e["fn"]; n = fn["n"]; args = e["args"]; q = fn["q"]
    T(ex)
    if "Quaternion" in q:
        if n == "Identity": return quat(R(1), R(0), R(0), R(0))
        if n == "UnitRandom":
            trust(ex, "Eigen UnitRandom: a unit quaternion")
            qv = quat(*[R(ex.ctx.fresh("rnd." + k, z3.RealSort())) for k in "wxyz"])
            w, x, y, z = [v.v for v in qs(ex, qv)]
            ex.assume(w * w + x * x + y * y + z * z == 1)
            return qv
        raise Unsupported("static " + q)
    d = static_dims(q)
    if d is None: raise Unsupported("static Eigen function " + q[:120])
    r, c, arr = d
    vs = [ex.res(ex.ev(a)) for a in args]
    if n in ("Zero", "Ones", "Constant", "Identity"):
        nd = [ex.int(v) for v in (vs[:-1] if n == "Constant" else vs)]
        if len(nd) == 2: r, c = nd
        elif len(nd) == 1:
            if c == 1: r = nd[0]
            else: c = nd[0]
        if r == -1 or c == -1: raise Unsupported("static size")
        if n == "Identity": return ident(r, c)
        val = R(0) if n == "Zero" else (R(1) if n == "Ones" else ex.real(vs[-1]))
        return mat(r, c, lambda i, j: val, arr)
    if n in ("UnitX", "UnitY", "UnitZ", "UnitW", "Unit"):
        k = "XYZW".index(n[4]) if n != "Unit" else ex.int(vs[-1])
        if n == "Unit" and len(vs) == 2: r = ex.int(vs[0])
        return mat(r, c, lambda i, j: R(1 if i == k else 0), arr)
    if n == "LinSpaced":
        if len(vs) == 3 or len(vs) == 2:
            cnt = ex.int(vs[0]) if len(vs) == 3 else (r if c == 1 else c)
            return linspaced(ex, cnt, ex.real(vs[-2]), ex.real(vs[-1]), c == 1, arr)
    if n == "Random":
        raise Unsupported("Eigen Random")
    raise Unsupported("static Eigen function " + n)

BLOCKS = {"topLeftCorner": lambda m, r, c: (0, 0, r, c), "topRightCorner": lambda m, r, c: (0, i_sub(m.c, c), r, c),
          "bottomLeftCorner": lambda m, r, c: (i_sub(m.r, r), 0, r, c), "bottomRightCorner": lambda m, r, c: (i_sub(m.r, r), i_sub(m.c, c), r, c)}
def sub_lv(ex, lv, m, blk):
    r0, c0, nr, nc = blk
    ex.oblige(b_and(i_ge(r0, 0), i_ge(c0, 0), i_le(i_add(r0, nr), m.r), i_le(i_add(c0, nc), m.c)), "matrix block within bounds")
    return lv.b(r0, c0, nr, nc)
def mcall(ex, e, name):
    T(ex)
    fn = e["fn"]; args = e["args"]; ta = fn.get("ta") or []
    lv = ex.obj_lv(e); v = ex.res(ex.rd(lv))
    if isinstance(v, Comma):
        if name == "finished": return VOID
    h = ex.contracts.get("eigen:" + name)
    if h:
        r = h(ex, e, lv, v)
        if r is not NotImplemented: return r
    if isinstance(v, Maybe): v = ite(v.c, v.a, v.b)
    if isinstance(v, Mat): return mat_mcall(ex, e, name, lv, v, args, ta)
    if isinstance(v, Struct): return rot_mcall(ex, e, name, lv, v, args)
    raise Unsupported("Eigen method %s on %s" % (name, kind(v)))
def tai(ta, i):
    return ta[i] if i < len(ta) and isinstance(ta[i], int) and ta[i] != -1 else None
def mat_mcall(ex, e, name, lv, m, args, ta):
    av = None
    def A(i): return ex.ev(args[i])
    def AI(i): return ex.int(ex.ev(args[i]))
    if name in ("rows",): return m.r
    if name in ("cols",): return m.c
    if name in ("size",): return size(m)
    if name in ("operator()", "operator[]", "coeff", "coeffRef"):
        return opcall(ex, {"op": "()", "args": [e["obj"]] + args})
    if name in ("x", "y", "z", "w"): 
        i = "xyzw".index(name)
        return cell_lv(ex, lv, m, i, 0) if isinstance(m.c, int) and m.c == 1 else cell_lv(ex, lv, m, 0, i)
    if name in ("eval", "derived", "noalias", "const_cast_derived"): return lv
    if name in ("array", "matrix"):
        from .exec import LV
        return LV(lv.root, lv.path + (("a", name == "array"),))
    if name in ("transpose", "adjoint"): return mat(m.c, m.r, lambda i, j: m.get(j, i), m.arr)
    if name in ("norm", "stableNorm"): return norm(ex, m)
    if name == "squaredNorm": return sqnorm(ex, m)
    if name == "dot": return dot(ex, m, ex.res(A(0)))
    if name == "cross":
        b = ex.res(A(0)); g = lambda k: ex.real(lin(ex, m, k)); h = lambda k: ex.real(lin(ex, b, k))
        c = [r_sub(r_mul(g((i + 1) % 3), h((i + 2) % 3)), r_mul(g((i + 2) % 3), h((i + 1) % 3))) for i in range(3)]
        r, cc = shape_vec(m, 3)
        return mat(r, cc, lambda i, j: c[i] if cc == 1 else c[j])
    if name in ("normalized", "normalize"):
        n = norm(ex, m); 
        nz = sqnorm(ex, m)
        # Eigen: divides by the norm only when the squared norm is positive
        if ex.quick(nz.v > 0): r = mat(m.r, m.c, lambda i, j: R(ex.real(m.get(i, j)).v / n.v), m.arr)
        else: r = mat(m.r, m.c, lambda i, j: R(z3.If(nz.v > 0, ex.real(m.get(i, j)).v / n.v, ex.real(m.get(i, j)).v)), m.arr)
        if name == "normalize": ex.wr(lv, r); return VOID
        return r
    if name == "inverse":
        if m.arr: return cw(ex, m, lambda a: ex.div(R(1), a))
        return inverse(ex, m)
    if name in ("colPivHouseholderQr", "fullPivHouseholderQr", "householderQr", "fullPivLu", "partialPivLu", "lu"): return Struct("Dec", {"m": m})
    if name == "determinant": return det(ex, m)
    if name == "trace": 
        s = R(0)
        for i in range(m.r): s = r_add(s, ex.real(m.get(i, i)))
        return s
    if name == "sum": return msum(ex, m)
    if name == "mean":
        return ex.div(msum(ex, m), ex.real(size(m)))
    if name == "prod": return fold(ex, m, r_mul, R(1))
    if name in ("minCoeff", "maxCoeff"):
        mx = name == "maxCoeff"
        if isinstance(m.r, int) and isinstance(m.c, int) and not args: return fold(ex, m, lambda a, b: r_min(a, b, mx))
        if isinstance(m.r, int) and isinstance(m.c, int) and len(args) in (1,):
            n = m.r * m.c; bi = 0; bv = ex.real(lin(ex, m, 0))
            for i in range(1, n):
                x = ex.real(lin(ex, m, i)); c = r_lt(bv, x) if mx else r_lt(x, bv)
                bi = i_ite(c, i, bi); bv = r_ite(zb(c), x, bv)
            p = ex.res(A(0)); ex.wr(p.lv, bi); return bv
        n = m.r if isinstance(m.c, int) and m.c == 1 else (m.c if isinstance(m.r, int) and m.r == 1 else None)
        if n is None: raise Unsupported("minCoeff over a symbolic matrix")
        g = lambda i: ex.real(m.get(i, 0) if isinstance(m.c, int) and m.c == 1 else m.get(0, i))
        ex.oblige(i_gt(n, 0), "minCoeff/maxCoeff of a non-empty object")
        w = ex.ctx.fresh("ext", z3.IntSort()); ex.assume(z3.And(w >= 0, w < n))
        r = g(w)
        k = z3.Int(fresh_name("k")); x = g(k)
        ex.ctx.add_schema([k], z3.Implies(z3.And(k >= 0, k < n), (x.v <= r.v) if mx else (r.v <= x.v)), ex.pc)
        if args: p = ex.res(A(0)); ex.wr(p.lv, w)
        return r
    if name in ("col", "row"):
        i = AI(0)
        return sub_lv(ex, lv, m, (0, i, m.r, 1) if name == "col" else (i, 0, 1, m.c))
    if name in ("leftCols", "rightCols", "topRows", "bottomRows", "middleCols", "middleRows"):
        n = AI(len(args) - 1) if args and tai(ta, 0) is None else tai(ta, 0)
        if name == "leftCols": return sub_lv(ex, lv, m, (0, 0, m.r, n))
        if name == "rightCols": return sub_lv(ex, lv, m, (0, i_sub(m.c, n), m.r, n))
        if name == "topRows": return sub_lv(ex, lv, m, (0, 0, n, m.c))
        if name == "bottomRows": return sub_lv(ex, lv, m, (i_sub(m.r, n), 0, n, m.c))
        s = AI(0)
        return sub_lv(ex, lv, m, (0, s, m.r, n) if name == "middleCols" else (s, 0, n, m.c))
    if name in ("head", "tail", "segment"):
        n = tai(ta, 0); ai = [AI(i) for i in range(len(args))]
        col = isinstance(m.c, int) and m.c == 1
        L = m.r if col else m.c
        if name == "segment": s = ai[0]; n = n if n is not None else ai[1]
        else:
            n = n if n is not None else ai[0]; s = 0 if name == "head" else i_sub(L, n)
        return sub_lv(ex, lv, m, (s, 0, n, 1) if col else (0, s, 1, n))
    if name == "block":
        ai = [AI(i) for i in range(len(args))]
        nr, nc = (ai[2], ai[3]) if len(ai) == 4 else (ta[0], ta[1])
        return sub_lv(ex, lv, m, (ai[0], ai[1], nr, nc))
    if name in BLOCKS:
        ai = [AI(i) for i in range(len(args))]
        nr, nc = (ai[0], ai[1]) if len(ai) == 2 else (ta[0], ta[1])
        return sub_lv(ex, lv, m, BLOCKS[name](m, nr, nc))
    if name == "diagonal":
        return mat(m.r, 1, lambda i, j: m.get(i, i))
    if name == "asDiagonal": return Struct("Diag", {"d": m})
    if name in ("sqrt", "sin", "cos", "tan", "abs", "acos", "asin", "exp", "log", "floor", "ceil", "round", "cwiseSqrt", "cwiseAbs"):
        f = MATH[{"cwiseSqrt": "sqrt", "cwiseAbs": "abs"}.get(name, name)]
        return cw(ex, m, lambda a: f(ex, a))
    if name in ("square", "cwiseAbs2", "abs2"): return cw(ex, m, sq)
    if name == "cube": return cw(ex, m, lambda a: r_mul(a, r_mul(a, a)))
    if name in ("cwiseInverse",): return cw(ex, m, lambda a: ex.div(R(1), a))
    if name == "pow":
        p = ex.real(A(0)); return cw(ex, m, lambda a: m_pow(ex, a, p))
    if name == "sign": return cw(ex, m, lambda a: r_ite(zb(r_lt(R(0), a)), R(1), r_ite(zb(r_lt(a, R(0))), R(-1), R(0))))
    if name in ("cwiseProduct", "cwiseQuotient", "cwiseMin", "cwiseMax", "min", "max"):
        b = ex.res(A(0))
        f = {"cwiseProduct": r_mul, "cwiseQuotient": lambda x, y: ex.div(x, y), "cwiseMin": lambda x, y: r_min(x, y), "cwiseMax": lambda x, y: r_min(x, y, True),
             "min": lambda x, y: r_min(x, y), "max": lambda x, y: r_min(x, y, True)}[name]
        return cw2(ex, m, b, f, name)
    if name == "unaryExpr":
        clo = ex.res(A(0))
        return mat(m.r, m.c, lambda i, j: ex.real(ex.closure_call(clo, [m.get(i, j)])), m.arr)
    if name == "cast": return m
    if name in ("operator+", "operator-", "operator*", "operator/"):
        return mat_op(ex, name[-1], m, ex.res(A(0)))
    if name in ("resize", "conservativeResize"):
        ai = [AI(i) for i in range(len(args))]
        t = e["obj"]["t"].noref()
        if len(ai) == 1: nr, nc = (ai[0], m.c) if t.a[2] == 1 else (m.r, ai[0])
        else: nr, nc = ai
        if same(nr, m.r) and same(nc, m.c): return VOID
        if name == "resize" and not isinstance(m.r, int) and m.cells is None and ex.quick(zi(i_mul(nr, nc)) == zi(i_mul(m.r, m.c))):
            # same number of coefficients: the column-major storage is reinterpreted
            def g(i, j, m=m, nr=nr):
                k = i_add(i, i_mul(j, nr)); r = zi(m.r); k = zi(k)
                return m.get(k % r, k / r)
            ex.wr(lv, mat(nr, nc, g, m.arr)); return VOID
        if name == "resize":
            ex.wr(lv, mat(nr, nc, lambda i, j: UNINIT, m.arr) if isinstance(nr, int) and isinstance(nc, int) else Mat(nr, nc, None, ("fn", lambda i, j: UNINIT), m.arr))
        else:
            def g(i, j):
                c = b_and(i_lt(i, m.r), i_lt(j, m.c))
                return ite(c, m.get(i, j), UNINIT) if not isinstance(c, bool) else (m.get(i, j) if c else UNINIT)
            ex.wr(lv, mat(nr, nc, g, m.arr))
        return VOID
    if name in ("setZero", "setOnes", "setConstant", "fill", "setIdentity", "setLinSpaced"):
        ai = [ex.res(A(i)) for i in range(len(args))]
        nr, nc = m.r, m.c
        if name == "setLinSpaced":
            n = ex.int(ai[0]) if len(ai) == 3 else (size(m)); lo, hi = [ex.real(x) for x in ai[-2:]]
            ex.wr(lv, linspaced(ex, n, lo, hi, col=isinstance(m.c, int) and m.c == 1)); return lv
        if name in ("setZero", "setOnes", "setIdentity") and ai:
            t = e["obj"]["t"].noref(); ii = [ex.int(x) for x in ai]
            nr, nc = (ii[0], m.c) if len(ii) == 1 and t.a[2] == 1 else ((m.r, ii[0]) if len(ii) == 1 else ii)
        val = ex.real(ai[-1]) if name in ("setConstant", "fill") else R(1 if name == "setOnes" else 0)
        if name == "setIdentity": r = ident(nr, nc)
        else: r = mat(nr, nc, lambda i, j: val, m.arr)
        ex.wr(lv, r); return lv
    if name == "replicate":
        ai = [AI(i) for i in range(len(args))] if args else ta
        if isinstance(m.c, int) and m.c == 1 and ai[0] == 1: return mat(m.r, ai[1], lambda i, j: m.get(i, 0), m.arr)
        if isinstance(m.r, int) and m.r == 1 and ai[1] == 1: return mat(ai[0], m.c, lambda i, j: m.get(0, j), m.arr)
    if name in ("colwise", "rowwise"): return Struct("Wise", {"lv": LVBox(lv), "m": m, "col": name == "colwise"})
    if name in ("all", "any") and isinstance(m.r, int) and isinstance(m.c, int):
        xs = [m.get(i, j) for i in range(m.r) for j in range(m.c)]
        return b_and(*xs) if name == "all" else b_or(*xs)
    if name in ("isApprox", "isZero"):
        b = ex.res(A(0)) if name == "isApprox" else None
        raise Unsupported("Eigen " + name)
    if name == "homogeneous" and isinstance(m.c, int) and m.c == 1:
        return mat(m.r + 1, 1, lambda i, j: m.get(i, 0) if i < m.r else R(1))
    if name == "hnormalized":
        n = m.r - 1
        return mat(n, 1, lambda i, j: ex.div(ex.real(m.get(i, 0)), ex.real(m.get(n, 0))))
    if name == "swap":
        l2 = ex.lv(args[0]); b = ex.rd(l2); ex.wr(l2, m); ex.wr(lv, b); return VOID
    if name in ("begin", "end") : raise Unsupported("Eigen iterators")
    if name == "select": raise Unsupported("Eigen select")
    if name == "value": return m.get(0, 0)
    if name == "toRotationMatrix": return m
    if name == "hasNaN":
        raise Unsupported("hasNaN")
    raise Unsupported("Eigen method " + name)
class LVBox:
    def __init__(self, lv): self.lv = lv
def ident(r, c): return mat(r, c, lambda i, j: (R(1) if i == j else R(0)) if isinstance(i, int) and isinstance(j, int) else ite(i_eq(i, j), R(1), R(0)))
def linspaced(ex, n, lo, hi, col=True, arr=False):
    trust(ex, "Eigen LinSpaced(n,a,b): element i is a+(b-a)*i/(n-1), and b for n=1")
    if isinstance(n, int) and n == 1: return mat(1, 1, lambda i, j: hi, arr)
    def f(i):
        if isinstance(n, int): return r_add(lo, r_mul(r_sub(hi, lo), R(Fraction(i, n - 1)) if isinstance(i, int) else R(z3.ToReal(i) / z3.RealVal(n - 1))))
        step = z3.ToReal(zi(i)) / z3.ToReal(zi(n) - 1)
        d = r_sub(hi, lo)
        return R(z3.If(zi(n) == 1, hi.v, lo.v + d.v * step))
    return mat(n, 1, lambda i, j: f(i), arr) if col else mat(1, n, lambda i, j: f(j), arr)
def rot_mcall(ex, e, name, lv, v, args):
    c = v.cls
    if c == "Dec" and name == "solve":
        trust(ex, "Eigen decomposition solve(b): the exact solution of A x = b for an invertible A, an arbitrary vector otherwise")
        m = v.f["m"]; b = ex.res(ex.ev(args[0]))
        if not (isinstance(m.r, int) and isinstance(m.c, int) and m.r == m.c): raise Unsupported("solve with a non-square matrix")
        x = mat(m.c, b.c, lambda i, j: R(ex.ctx.fresh("sol", z3.RealSort())))
        d = det(ex, m); px = matmul(ex, m, x)
        if m.r <= 3:   # Cramer's rule: a consequence of A x = b
            D = ex.ctx.fresh("det", z3.RealSort()); ex.assume(D == d.v)
            for jj in range(b.c):
                for kk in range(m.c):
                    dk = det(ex, mat(m.r, m.c, lambda i, j: b.get(i, jj) if j == kk else m.get(i, j)))
                    Nk = ex.ctx.fresh("num", z3.RealSort()); ex.assume(Nk == dk.v)
                    ex.assume(z3.Implies(D != 0, x.get(kk, jj).v * D == Nk))
            return x
        for i in range(m.r):
            for j in range(b.c): ex.assume(z3.Implies(d.v != 0, px.get(i, j).v == ex.real(b.get(i, j)).v))
        return x
    if c == "Quat":
        if name in ("w", "x", "y", "z"): return lv.f(name)
        if name in ("toRotationMatrix", "matrix"): return quat_rot(ex, v)
        if name in ("conjugate",):
            w, x, y, z = qs(ex, v); return quat(w, r_neg(x), r_neg(y), r_neg(z))
        if name == "inverse":
            w, x, y, z = qs(ex, v); n = r_add(r_add(sq(w), sq(x)), r_add(sq(y), sq(z)))
            return quat(ex.div(w, n), ex.div(r_neg(x), n), ex.div(r_neg(y), n), ex.div(r_neg(z), n))
        if name == "coeffs": 
            w, x, y, z = qs(ex, v); C = [x, y, z, w]
            return mat(4, 1, lambda i, j: C[i])
        if name == "vec":
            w, x, y, z = qs(ex, v); C = [x, y, z]; return mat(3, 1, lambda i, j: C[i])
        if name in ("norm", "squaredNorm"):
            w, x, y, z = qs(ex, v); n = r_add(r_add(sq(w), sq(x)), r_add(sq(y), sq(z)))
            return n if name == "squaredNorm" else m_sqrt(ex, n)
        if name in ("normalized", "normalize"):
            w, x, y, z = qs(ex, v); n2 = r_add(r_add(sq(w), sq(x)), r_add(sq(y), sq(z))); 
            if not ex.quick(n2.v > 0): ex.oblige(n2.v > 0, "normalisation of a non-zero quaternion")
            n = m_sqrt(ex, n2); ex.assume(z3.Implies(n2.v > 0, n.v > 0))
            q = quat(*[R(k.v / n.v) for k in (w, x, y, z)])
            if name == "normalize": ex.wr(lv, q); return VOID
            return q
        if name == "dot":
            a, b = qs(ex, v), qs(ex, ex.ev(args[0])); s = R(0)
            for x, y in zip(a, b): s = r_add(s, r_mul(x, y))
            return s
        if name == "setIdentity": ex.wr(lv, quat(R(1), R(0), R(0), R(0))); return lv
        if name == "angularDistance":
            trust(ex, "Eigen angularDistance: a function of the two quaternions, non-negative, zero for equal unit quaternions")
            a, b = qs(ex, v), qs(ex, ex.ev(args[0]))
            F = z3.Function("quat_angdist", *([z3.RealSort()] * 9))
            r = F(*[x.v for x in a + b]); ex.ctx.add_fact(r >= 0)
            return R(r)
        if name == "slerp":
            t = ex.real(ex.ev(args[0])); b = ex.res(ex.ev(args[1]))
            trust(ex, "Eigen slerp(t,q): slerp(0)=p; slerp(1)=+-q with the sign of p.q; unit for unit inputs; componentwise a function of t,p,q")
            pa, pb = qs(ex, v), qs(ex, b)
            Fs = [z3.Function("slerp_" + k, *([z3.RealSort()] * 10)) for k in "wxyz"]
            a_ = [t.v] + [x.v for x in pa + pb]
            out = [ex.ctx.fresh("slerp." + k, z3.RealSort()) for k in "wxyz"]
            for o, F in zip(out, Fs): ex.assume(o == F(*a_))
            d = sum([x.v * y.v for x, y in zip(pa, pb)][1:], pa[0].v * pb[0].v)
            for o, x, y in zip(out, pa, pb):
                ex.assume(z3.Implies(t.v == 0, o == x.v))
                ex.assume(z3.Implies(t.v == 1, o == z3.If(d < 0, -y.v, y.v)))
            un = lambda xs: sum([x * x for x in xs][1:], xs[0] * xs[0]) == 1
            ex.assume(z3.Implies(z3.And(un([x.v for x in pa]), un([x.v for x in pb]), t.v >= 0, t.v <= 1), un(out)))
            return quat(*[R(o) for o in out])
        if name in ("operator=",): 
            return assign(ex, e["obj"], ex.res(ex.ev(args[0])))
        if name == "cast": return v
    if c == "AA":
        if name in ("toRotationMatrix", "matrix"): return aa_rot(ex, v)
        if name == "angle": return lv.f("angle")
        if name == "axis": return lv.f("axis")
    if c == "Rot2":
        if name in ("toRotationMatrix", "matrix"): return to_rot(ex, v)
        if name == "angle": return lv.f("angle")
        if name == "inverse": return Struct("Rot2", {"angle": r_neg(v.f["angle"])})
    if c == "Diag":
        if name == "diagonal": return lv.f("d")
        if name == "inverse": return Struct("Diag", {"d": cw(ex, v.f["d"], lambda a: ex.div(R(1), a))})
        if name in ("toDenseMatrix",): return to_rot(ex, v)
        if name == "determinant": return fold(ex, v.f["d"], r_mul, R(1))
    if c == "Wise":
        m = v.f["m"]; col = v.f["col"]
        av = [ex.res(ex.ev(a)) for a in args]
        if name in ("sum", "mean", "norm", "squaredNorm", "minCoeff", "maxCoeff", "prod"):
            def one(k):
                s = get_block(m, 0, k, m.r, 1) if col else get_block(m, k, 0, 1, m.c)
                return {"sum": lambda: msum(ex, s), "norm": lambda: norm(ex, s), "squaredNorm": lambda: sqnorm(ex, s), "prod": lambda: fold(ex, s, r_mul, R(1)),
                        "mean": lambda: ex.div(msum(ex, s), ex.real(m.r if col else m.c)),
                        "minCoeff": lambda: fold(ex, s, lambda a, b: r_min(a, b)), "maxCoeff": lambda: fold(ex, s, lambda a, b: r_min(a, b, True))}[name]()
            return mat(1, m.c, lambda i, j: one(j)) if col else mat(m.r, 1, lambda i, j: one(i))
        if name in ("operator+", "operator-"):
            f = r_add if name[-1] == "+" else r_sub; b = av[0]
            return mat(m.r, m.c, lambda i, j: f(ex.real(m.get(i, j)), ex.real(lin(ex, b, i if col else j))), m.arr)
        if name == "homogeneous" and col: return mat(i_add(m.r, 1), m.c, lambda i, j: m.get(i, j) if isinstance(i, int) and i < m.r else R(1))
    raise Unsupported("Eigen method %s on %s" % (name, c))
