"""Symbolic values: exact reals with an explicit non-finite status, mathematical integers, persistent
vectors / matrices and structs.  All values are immutable; z3 terms at the leaves."""
import z3
from fractions import Fraction

class Unsupported(Exception):
    """construct outside the verifier's fragment (never a violation)"""

# ---------------------------------------------------------------- scalars
def is_z3(x): return isinstance(x, z3.ExprRef)
def rv(x):
    if isinstance(x, z3.ExprRef):
        return z3.ToReal(x) if z3.is_int(x) else x
    if isinstance(x, float): x = Fraction(repr(x))
    if isinstance(x, bool): x = int(x)
    if isinstance(x, (int, Fraction)):
        f = Fraction(x)
        return z3.Q(f.numerator, f.denominator) if f.denominator != 1 else z3.RealVal(f.numerator)
    raise Unsupported("real value %r" % (x,))
def num(x):
    """python Fraction if x is a numeral, else None"""
    if isinstance(x, bool): return None
    if isinstance(x, (int, Fraction)): return Fraction(x)
    if isinstance(x, z3.ExprRef):
        if z3.is_int_value(x): return Fraction(x.as_long())
        if z3.is_rational_value(x): return Fraction(x.numerator_as_long(), x.denominator_as_long())
    return None

class R:
    """double: exact real v plus status st (None = finite; else z3 Int: 0 finite, 1 NaN, 2 +inf, 3 -inf)"""
    __slots__ = ("v", "st")
    def __init__(self, v, st=None):
        self.v = rv(v); self.st = st
    def __repr__(self): return "R(%s%s)" % (self.v, "" if self.st is None else "," + str(self.st))
NAN = lambda: R(0, 1)
PINF = lambda: R(0, 2)
NINF = lambda: R(0, 3)

def b_not(a):
    if isinstance(a, bool): return not a
    if z3.is_not(a): return a.arg(0)
    return z3.Not(a)
def b_and(*xs):
    out = []
    for x in xs:
        if x is True: continue
        if x is False: return False
        if z3.is_true(x): continue
        if z3.is_false(x): return False
        out.append(x)
    if not out: return True
    if len(out) == 1: return out[0]
    return z3.And(*out)
def b_or(*xs):
    out = []
    for x in xs:
        if x is False: continue
        if x is True: return True
        if z3.is_false(x): continue
        if z3.is_true(x): return True
        out.append(x)
    if not out: return False
    if len(out) == 1: return out[0]
    return z3.Or(*out)
def b_imp(a, b): return b_or(b_not(a), b)
def zb(x): return z3.BoolVal(x) if isinstance(x, bool) else x
def same(a, b):
    if a is b: return True
    if is_z3(a) and is_z3(b): return a.eq(b)
    if is_z3(a) or is_z3(b): 
        na, nb = num(a), num(b)
        return na is not None and na == nb and type(a) != bool and type(b) != bool
    return type(a) == type(b) and a == b
def b_ite(c, a, b):
    if isinstance(c, bool): return a if c else b
    if z3.is_true(c): return a
    if z3.is_false(c): return b
    if same(a, b): return a
    if a is True and b is False: return c
    if a is False and b is True: return b_not(c)
    return z3.If(c, zb(a), zb(b))
def zi(x): return z3.IntVal(x) if isinstance(x, int) and not isinstance(x, bool) else x
def i_ite(c, a, b):
    if isinstance(c, bool): return a if c else b
    if z3.is_true(c): return a
    if z3.is_false(c): return b
    if same(a, b): return a
    return z3.If(c, zi(a), zi(b))
def _norm(x):
    if is_z3(x) and z3.is_int_value(x): return x.as_long()
    return x
def i_add(a, b):
    if isinstance(a, int) and isinstance(b, int): return a + b
    if isinstance(a, int) and a == 0: return b
    if isinstance(b, int) and b == 0: return a
    return _norm(z3.simplify(zi(a) + zi(b)))
def i_sub(a, b):
    if isinstance(a, int) and isinstance(b, int): return a - b
    if isinstance(b, int) and b == 0: return a
    return _norm(z3.simplify(zi(a) - zi(b)))
def i_mul(a, b):
    if isinstance(a, int) and isinstance(b, int): return a * b
    if (isinstance(a, int) and a == 0) or (isinstance(b, int) and b == 0): return 0
    if isinstance(a, int) and a == 1: return b
    if isinstance(b, int) and b == 1: return a
    return _norm(z3.simplify(zi(a) * zi(b)))
def _cmp(op):
    def f(a, b):
        if isinstance(a, int) and isinstance(b, int): return op(a, b)
        if is_z3(a) and is_z3(b) and a.eq(b): return op(0, 0)
        r = z3.simplify(op(zi(a), zi(b)))
        if z3.is_true(r): return True
        if z3.is_false(r): return False
        return op(zi(a), zi(b))
    return f
i_lt = _cmp(lambda a, b: a < b); i_le = _cmp(lambda a, b: a <= b)
i_gt = _cmp(lambda a, b: a > b); i_ge = _cmp(lambda a, b: a >= b)
i_eq = _cmp(lambda a, b: a == b)
def i_ne(a, b): return b_not(i_eq(a, b))

# ---- real arithmetic on R
def fin(a): return a.st is None
def st_of(a): return z3.IntVal(0) if a.st is None else (z3.IntVal(a.st) if isinstance(a.st, int) else a.st)
def is_nan(a):
    if a.st is None: return False
    if isinstance(a.st, int): return a.st == 1
    return a.st == 1
def is_fin(a):
    if a.st is None: return True
    if isinstance(a.st, int): return a.st == 0
    return a.st == 0
def _mk(v, st):
    st = z3.simplify(st) if is_z3(st) else st
    if is_z3(st) and z3.is_int_value(st): st = st.as_long()
    if isinstance(st, int) and st == 0: st = None
    return R(v, st)
def r_neg(a):
    v = num(a.v); v = rv(-v) if v is not None else -a.v
    if fin(a): return R(v)
    s = st_of(a)
    return _mk(v, z3.If(s == 2, 3, z3.If(s == 3, 2, s)))
def r_add(a, b):
    na, nb = num(a.v), num(b.v)
    if na is not None and nb is not None: v = rv(na + nb)
    elif na == 0: v = b.v
    elif nb == 0: v = a.v
    else: v = a.v + b.v
    if fin(a) and fin(b): return R(v)
    s, t = st_of(a), st_of(b)
    return _mk(v, z3.If(z3.Or(s == 1, t == 1), 1, z3.If(s == 0, t, z3.If(t == 0, s, z3.If(s == t, s, 1)))))
def r_sub(a, b): 
    if fin(a) and fin(b):
        na, nb = num(a.v), num(b.v)
        if na is not None and nb is not None: return R(rv(na - nb))
        if nb == 0: return a
        if na == 0: return R(-b.v)
        if a.v.eq(b.v): return R(0)
        return R(a.v - b.v)
    return r_add(a, r_neg(b))
def r_mul(a, b):
    na, nb = num(a.v), num(b.v)
    if na is not None and nb is not None: v = rv(na * nb)
    elif na == 0 or nb == 0: v = rv(0)
    elif na == 1: v = b.v
    elif nb == 1: v = a.v
    else: v = a.v * b.v
    if fin(a) and fin(b): return R(v)
    s, t = st_of(a), st_of(b)
    sa = z3.If(s == 2, 1, z3.If(s == 3, -1, z3.If(a.v > 0, 1, z3.If(a.v < 0, -1, 0))))
    sb = z3.If(t == 2, 1, z3.If(t == 3, -1, z3.If(b.v > 0, 1, z3.If(b.v < 0, -1, 0))))
    inf = z3.If(sa * sb == 0, 1, z3.If(sa == sb, 2, 3))
    return _mk(v, z3.If(z3.Or(s == 1, t == 1), 1, z3.If(z3.And(s == 0, t == 0), 0, inf)))
def r_div(a, b, nonzero):
    """nonzero: callback deciding whether b.v != 0 is implied (then the quotient is finite)"""
    na, nb = num(a.v), num(b.v)
    if nb is not None and nb != 0 and fin(a) and fin(b):
        return R(rv(na / nb)) if na is not None else (a if nb == 1 else R(a.v / rv(nb)))
    if fin(a) and fin(b):
        if nb != 0 and nonzero(b.v):
            return R(rv(0)) if na == 0 else R(a.v / b.v)
        st = z3.If(b.v == 0, z3.If(a.v == 0, 1, z3.If(a.v > 0, 2, 3)), 0)
        return _mk(a.v / b.v, st)
    s, t = st_of(a), st_of(b)
    st = z3.If(z3.Or(s == 1, t == 1, z3.And(s >= 2, t >= 2)), 1,
               z3.If(t >= 2, 0, z3.If(s >= 2, z3.If(b.v >= 0, s, z3.If(s == 2, 3, 2)),
                     z3.If(b.v == 0, z3.If(a.v == 0, 1, z3.If(a.v > 0, 2, 3)), 0))))
    return _mk(z3.If(t >= 2, z3.RealVal(0), a.v / b.v), st)
def r_lt(a, b):
    if fin(a) and fin(b):
        na, nb = num(a.v), num(b.v)
        if na is not None and nb is not None: return na < nb
        return a.v < b.v
    s, t = st_of(a), st_of(b)
    return z3.simplify(z3.And(s != 1, t != 1, z3.If(s == 0, z3.If(t == 0, a.v < b.v, t == 2), z3.If(s == 3, t != 3, False))))
def r_le(a, b):
    if fin(a) and fin(b):
        na, nb = num(a.v), num(b.v)
        if na is not None and nb is not None: return na <= nb
        return a.v <= b.v
    s, t = st_of(a), st_of(b)
    return z3.simplify(z3.And(s != 1, t != 1, z3.If(s == 0, z3.If(t == 0, a.v <= b.v, t == 2), z3.If(s == 3, True, t == 2))))
def r_eq(a, b):
    if fin(a) and fin(b):
        na, nb = num(a.v), num(b.v)
        if na is not None and nb is not None: return na == nb
        return a.v == b.v
    s, t = st_of(a), st_of(b)
    return z3.simplify(z3.And(s != 1, t != 1, s == t, z3.Or(s != 0, a.v == b.v)))
def r_ite(c, a, b):
    if isinstance(c, bool): return a if c else b
    if same(a.v, b.v) and same(a.st, b.st): return a
    v = a.v if same(a.v, b.v) else z3.If(c, a.v, b.v)
    if fin(a) and fin(b): return R(v)
    return _mk(v, z3.If(c, st_of(a), st_of(b)))
def r_abs(a):
    n = num(a.v)
    v = rv(abs(n)) if n is not None else z3.If(a.v >= 0, a.v, -a.v)
    if fin(a): return R(v)
    s = st_of(a)
    return _mk(v, z3.If(s == 3, 2, s))
def r_fmin(a, b, mx=False):
    if fin(a) and fin(b):
        c = r_lt(b, a) if not mx else r_lt(a, b)
        return r_ite(c, b, a)
    # fmin/fmax ignore a NaN argument
    return ite(is_nan(a), b, ite(is_nan(b), a, r_ite(zb(r_lt(b, a) if not mx else r_lt(a, b)), b, a)))
def r_min(a, b, mx=False):   # std::min(a,b): (b<a)?b:a ; std::max: (a<b)?b:a
    return r_ite(zb(r_lt(b, a) if not mx else r_lt(a, b)), b, a)

# ---------------------------------------------------------------- aggregates
class Struct:
    __slots__ = ("cls", "f")
    def __init__(self, cls, f): self.cls = cls; self.f = dict(f)
    def __repr__(self): return "%s{%s}" % (self.cls, ", ".join("%s=%r" % kv for kv in self.f.items()))
    def get(self, n): return self.f[n]
    def with_(self, n, v):
        d = dict(self.f); d[n] = v
        return Struct(self.cls, d)
class Ptr:
    __slots__ = ("lv",)
    def __init__(self, lv): self.lv = lv
class Iter:
    __slots__ = ("lv", "idx", "rev")
    def __init__(self, lv, idx, rev=False): self.lv = lv; self.idx = idx; self.rev = rev
class Clo:
    __slots__ = ("node", "env", "this")
    def __init__(self, node, env, this): self.node = node; self.env = env; self.this = this
class Opq:
    """opaque object of a library type: z3 constant of sort Obj (value identity)"""
    __slots__ = ("t", "tag", "x")
    def __init__(self, t, tag="", x=None): self.t = t; self.tag = tag; self.x = x
    def __repr__(self): return "Opq(%s)" % self.t
class Str:
    """string: literal s, or a term t of sort Obj (value identity; concatenation and to_string are uninterpreted functions)"""
    __slots__ = ("s", "t")
    def __init__(self, s=None, t=None): self.s = s; self.t = t
    def term(self): return self.t if self.t is not None else z3.Const("str:" + self.s, Obj) if self.s is not None else None
class Void: pass
VOID = Void()
class Uninit:
    """indeterminate value: any use is reported"""
    def __repr__(self): return "<uninit>"
UNINIT = Uninit()
Obj = z3.DeclareSort("Obj")

# ---- vectors: persistent node trees
class Vec:
    __slots__ = ("len", "node", "et")
    def __init__(self, ln, node, et): self.len = ln; self.node = node; self.et = et
    def get(self, i): return _vget(self.node, i)
    def push(self, v):
        if self.node[0] == "lit" and isinstance(self.len, int) and self.len == len(self.node[1]):
            return Vec(self.len + 1, ("lit", self.node[1] + (v,)), self.et)
        return Vec(i_add(self.len, 1), ("push", self.node, self.len, v), self.et)
    def set(self, i, v):
        if self.node[0] == "lit" and isinstance(i, int) and 0 <= i < len(self.node[1]):
            l = list(self.node[1]); l[i] = v
            return Vec(self.len, ("lit", tuple(l)), self.et)
        if self.node[0] == "push" and same(self.node[2], i):
            return Vec(self.len, ("push", self.node[1], self.node[2], v), self.et)
        return Vec(self.len, ("set", self.node, i, v), self.et)
    def __repr__(self): return "Vec(len=%s,%s)" % (self.len, self.node[0])
def lit_vec(items, et): return Vec(len(items), ("lit", tuple(items)), et)
def fn_vec(ln, fn, et): return Vec(ln, ("fn", fn), et)
def _vget(n, i):
    k = n[0]
    if k == "fn": return n[1](i)
    if k == "lit":
        items = n[1]
        if isinstance(i, int):
            if 0 <= i < len(items): return items[i]
            if items: return items[0]
            raise EmptyRead()
        if not items: raise EmptyRead()
        r = items[-1]
        for j in range(len(items) - 2, -1, -1): r = ite(i_eq(i, j), items[j], r)
        return r
    if k == "push":
        e = i_eq(i, n[2])
        if e is True: return n[3]
        if e is False: return _vget(n[1], i)
        try: o = _vget(n[1], i)
        except EmptyRead: return n[3]
        return ite(e, n[3], o)
    if k == "set":
        e = i_eq(i, n[2])
        if e is True: return n[3]
        if e is False: return _vget(n[1], i)
        return ite(e, n[3], _vget(n[1], i))
    if k == "ite":
        try: a = _vget(n[2], i)
        except EmptyRead: return _vget(n[3], i)
        try: b = _vget(n[3], i)
        except EmptyRead: return a
        return ite(n[1], a, b)
    if k == "cat":      # (cat, A, lenA, B, lenB)
        c = i_lt(i, n[2])
        if c is True: return _vget(n[1], i)
        if c is False: return _vget(n[3], i_sub(i, n[2]))
        try: a = _vget(n[1], i)
        except EmptyRead: return _vget(n[3], i_sub(i, n[2]))
        try: b = _vget(n[3], i_sub(i, n[2]))
        except EmptyRead: return a
        return ite(c, a, b)
    if k == "reg":      # (reg, base, i0, n, valfn): positions [i0,i0+n) hold valfn(i)
        c = b_and(i_ge(i, n[2]), i_lt(i, i_add(n[2], n[3])))
        if c is False: return _vget(n[1], i)
        v = n[4](i)
        if c is True: return v
        try: return ite(c, v, _vget(n[1], i))
        except EmptyRead: return v
    raise Unsupported("vec node " + k)
class EmptyRead(Unsupported):
    def __init__(self): Unsupported.__init__(self, "read of an empty vector")

# ---- matrices
class Mat:
    """Eigen matrix/array: cells tuple (row-major) if both dims are python ints, else node tree."""
    __slots__ = ("r", "c", "cells", "node", "arr")
    def __init__(self, r, c, cells=None, node=None, arr=False):
        self.r = r; self.c = c; self.cells = cells; self.node = node; self.arr = arr
    def get(self, i, j):
        if self.cells is not None:
            if isinstance(i, int) and isinstance(j, int): return self.cells[i * self.c + j]
            out = None
            for a in range(self.r):
                ca = i_eq(i, a)
                if ca is False: continue
                for b in range(self.c):
                    cb = i_eq(j, b)
                    if cb is False: continue
                    v = self.cells[a * self.c + b]
                    out = v if out is None else ite(b_and(ca, cb), v, out)
            if out is None: raise Unsupported("matrix index")
            return out
        return _mget(self.node, i, j)
    def set(self, i, j, v):
        if self.cells is not None:
            if isinstance(i, int) and isinstance(j, int):
                l = list(self.cells); l[i * self.c + j] = v
                return Mat(self.r, self.c, tuple(l), None, self.arr)
            l = [ite(b_and(i_eq(i, a), i_eq(j, b)), v, self.cells[a * self.c + b]) for a in range(self.r) for b in range(self.c)]
            return Mat(self.r, self.c, tuple(l), None, self.arr)
        return Mat(self.r, self.c, None, ("set", self.node, i, j, v), self.arr)
    def __repr__(self): return "Mat(%sx%s)" % (self.r, self.c)
def mat(r, c, fn, arr=False):
    if isinstance(r, int) and isinstance(c, int) and r * c <= 64:
        return Mat(r, c, tuple(fn(i, j) for i in range(r) for j in range(c)), None, arr)
    cache = {}
    def g(i, j):
        key = (i if isinstance(i, int) else ("t", i.get_id()), j if isinstance(j, int) else ("t", j.get_id()))
        if key not in cache: cache[key] = (fn(i, j), i, j)
        return cache[key][0]
    return Mat(r, c, None, ("fn", g), arr)
def _mget(n, i, j):
    k = n[0]
    if k == "fn": return n[1](i, j)
    if k == "set":
        e = b_and(i_eq(i, n[2]), i_eq(j, n[3]))
        if e is True: return n[4]
        if e is False: return _mget(n[1], i, j)
        return ite(e, n[4], _mget(n[1], i, j))
    if k == "blk":     # (blk, base, r0, c0, nr, nc, M)
        _, base, r0, c0, nr, nc, M = n
        e = b_and(i_ge(i, r0), i_lt(i, i_add(r0, nr)), i_ge(j, c0), i_lt(j, i_add(c0, nc)))
        if e is False: return _mget(base, i, j)
        v = M.get(i_sub(i, r0), i_sub(j, c0))
        if e is True: return v
        return ite(e, v, _mget(base, i, j))
    if k == "ite": return ite(n[1], _mget(n[2], i, j), _mget(n[3], i, j))
    if k == "reg":     # (reg, base, r0, nr, c0, nc, valfn)
        _, base, r0, nr, c0, nc, vf = n
        e = b_and(i_ge(i, r0), i_lt(i, i_add(r0, nr)), i_ge(j, c0), i_lt(j, i_add(c0, nc)))
        if e is False: return _mget(base, i, j)
        v = vf(i, j)
        if e is True: return v
        return ite(e, v, _mget(base, i, j))
    raise Unsupported("mat node " + k)
def set_block(m, r0, c0, nr, nc, M):
    if m.cells is not None and all(isinstance(x, int) for x in (r0, c0, nr, nc)):
        l = list(m.cells)
        for a in range(nr):
            for b in range(nc): l[(r0 + a) * m.c + c0 + b] = M.get(a, b)
        return Mat(m.r, m.c, tuple(l), None, m.arr)
    if m.cells is not None: raise Unsupported("symbolic block of fixed matrix")
    return Mat(m.r, m.c, None, ("blk", m.node, r0, c0, nr, nc, M), m.arr)
def get_block(m, r0, c0, nr, nc):
    return mat(nr, nc, lambda i, j: m.get(i_add(r0, i), i_add(c0, j)), m.arr)

# ---------------------------------------------------------------- generic ops
def kind(v):
    if isinstance(v, bool) or (is_z3(v) and z3.is_bool(v)): return "bool"
    if isinstance(v, int) or (is_z3(v) and z3.is_int(v)): return "int"
    if isinstance(v, R): return "real"
    return type(v).__name__
def ite(c, a, b):
    if c is True or (is_z3(c) and z3.is_true(c)): return a
    if c is False or (is_z3(c) and z3.is_false(c)): return b
    if a is b: return a
    if isinstance(a, R) and isinstance(b, R): return r_ite(c, a, b)
    if isinstance(a, Uninit) or isinstance(b, Uninit):
        # indeterminate on one side: stays indeterminate (use is an obligation failure)
        return Maybe(c, a, b)
    if isinstance(a, Maybe) or isinstance(b, Maybe): return Maybe(c, a, b)
    ka, kb = kind(a), kind(b)
    if ka == "bool" and kb == "bool": return b_ite(c, a, b)
    if ka in ("int", "bool") and kb in ("int", "bool"): return i_ite(c, a, b)
    if isinstance(a, Struct) and isinstance(b, Struct):
        keys = list(a.f)
        if set(keys) != set(b.f): raise Unsupported("merge of different structs %s/%s" % (a.cls, b.cls))
        f = {k: ite(c, a.f[k], b.f[k]) for k in keys}
        if all(f[k] is a.f[k] for k in keys): return a
        return Struct(a.cls, f)
    if isinstance(a, Vec) and isinstance(b, Vec):
        if a.node is b.node: return a if same(a.len, b.len) else Vec(i_ite(c, a.len, b.len), a.node, a.et if a.et is not None else b.et)
        if a.node[0] == "lit" and b.node[0] == "lit" and same(a.len, b.len) and len(a.node[1]) == len(b.node[1]) == a.len:
            return Vec(a.len, ("lit", tuple(ite(c, x, y) for x, y in zip(a.node[1], b.node[1]))), a.et if a.et is not None else b.et)
        return Vec(i_ite(c, a.len, b.len), ("ite", c, a.node, b.node), a.et if a.et is not None else b.et)
    if isinstance(a, Mat) and isinstance(b, Mat):
        if a.node is not None and a.node is b.node and same(a.r, b.r) and same(a.c, b.c): return a
        if a.cells is not None and b.cells is not None and a.r == b.r and a.c == b.c:
            return Mat(a.r, a.c, tuple(ite(c, x, y) for x, y in zip(a.cells, b.cells)), None, a.arr)
        na = a.node if a.node is not None else ("fn", a.get)
        nb = b.node if b.node is not None else ("fn", b.get)
        return Mat(i_ite(c, a.r, b.r), i_ite(c, a.c, b.c), None, ("ite", c, na, nb), a.arr)
    if isinstance(a, Opq) and isinstance(b, Opq):
        if a.x is not None and b.x is not None: return Opq(a.t, a.tag, z3.If(c, a.x, b.x))
        return a if a is b else Maybe(c, a, b)
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.lv == b.lv: return a
    if isinstance(a, Iter) and isinstance(b, Iter) and a.lv == b.lv: return Iter(a.lv, i_ite(c, a.idx, b.idx), a.rev)
    if isinstance(a, Str) and isinstance(b, Str):
        if a.s is not None and a.s == b.s: return a
        ta, tb = a.term(), b.term()
        return Str(None, z3.If(c, ta, tb) if ta is not None and tb is not None else None)
    if isinstance(a, Void) or isinstance(b, Void): return VOID
    return Maybe(c, a, b)
class Maybe:
    """unresolved merge (resolved by the path condition if it is decided later)"""
    __slots__ = ("c", "a", "b")
    def __init__(self, c, a, b): self.c = c; self.a = a; self.b = b

_fresh_n = [0]
def fresh_name(p):
    _fresh_n[0] += 1
    return "%s!%d" % (p, _fresh_n[0])

def subst(v, pairs):
    """substitute z3 constants in a value; pairs: list of (const, term)"""
    if not pairs: return v
    if isinstance(v, Uninit): return v
    if isinstance(v, (bool, int, Fraction, str)) or v is None: return v
    if is_z3(v): 
        r = z3.substitute(v, *pairs)
        if z3.is_int_value(r): return r.as_long()
        if z3.is_true(r): return True
        if z3.is_false(r): return False
        return r
    if isinstance(v, R): return R(z3.substitute(v.v, *pairs), v.st if v.st is None or isinstance(v.st, int) else z3.substitute(v.st, *pairs))
    if isinstance(v, Struct): return Struct(v.cls, {k: subst(x, pairs) for k, x in v.f.items()})
    if isinstance(v, Vec): return Vec(subst(v.len, pairs), subst_vnode(v.node, pairs), v.et)
    if isinstance(v, Mat):
        if v.cells is not None: return Mat(v.r, v.c, tuple(subst(x, pairs) for x in v.cells), None, v.arr)
        return Mat(subst(v.r, pairs), subst(v.c, pairs), None, subst_mnode(v.node, pairs), v.arr)
    if isinstance(v, Opq): return Opq(v.t, v.tag, subst(v.x, pairs) if v.x is not None else None)
    if isinstance(v, Iter): return Iter(subst_lv(v.lv, pairs), subst(v.idx, pairs), v.rev)
    if isinstance(v, Ptr): return Ptr(subst_lv(v.lv, pairs) if v.lv is not None else None)
    if isinstance(v, Maybe): return Maybe(subst(v.c, pairs), subst(v.a, pairs), subst(v.b, pairs))
    if isinstance(v, Str) and v.t is not None: return Str(None, z3.substitute(v.t, *pairs))
    return v
def subst_lv(lv, pairs):
    return type(lv)(lv.root, tuple(tuple(subst(x, pairs) if (is_z3(x)) else x for x in s) for s in lv.path))
def subst_vnode(n, pairs, keep=None):
    """keep: node that does not depend on the substituted symbols"""
    k = n[0]
    if n is keep: return n
    if k == "lit": return ("lit", tuple(subst(x, pairs) for x in n[1]))
    if k == "push": return ("push", subst_vnode(n[1], pairs, keep), subst(n[2], pairs), subst(n[3], pairs))
    if k == "set": return ("set", subst_vnode(n[1], pairs, keep), subst(n[2], pairs), subst(n[3], pairs))
    if k == "ite": return ("ite", subst(n[1], pairs), subst_vnode(n[2], pairs, keep), subst_vnode(n[3], pairs, keep))
    if k == "reg": return ("reg", subst_vnode(n[1], pairs, keep), subst(n[2], pairs), subst(n[3], pairs), subst_fn1(n[4], pairs))
    if k == "cat": return ("cat", subst_vnode(n[1], pairs, keep), subst(n[2], pairs), subst_vnode(n[3], pairs, keep), subst(n[4], pairs))
    return ("fn", subst_fn1(n[1], pairs))
def subst_fn1(f, pairs):
    cache = {}
    def g(i):
        if isinstance(i, int): return subst(f(i), pairs)
        key = i.get_id()
        if key in cache: return cache[key][0]
        z = z3.Int(fresh_name("z"))
        v = subst(subst(f(z), pairs), [(z, i)])
        cache[key] = (v, i)
        return v
    return g
def subst_mnode(n, pairs, keep=None):
    k = n[0]
    if n is keep: return n
    if k == "set": return ("set", subst_mnode(n[1], pairs, keep), subst(n[2], pairs), subst(n[3], pairs), subst(n[4], pairs))
    if k == "blk": return ("blk", subst_mnode(n[1], pairs, keep)) + tuple(subst(x, pairs) for x in n[2:6]) + (subst(n[6], pairs),)
    if k == "ite": return ("ite", subst(n[1], pairs), subst_mnode(n[2], pairs, keep), subst_mnode(n[3], pairs, keep))
    if k == "reg": return ("reg", subst_mnode(n[1], pairs, keep)) + tuple(subst(x, pairs) for x in n[2:6]) + (subst_fn2(n[6], pairs),)
    return ("fn", subst_fn2(n[1], pairs))
def subst_fn2(f, pairs):
    def g(i, j):
        z, w = z3.Int(fresh_name("z")), z3.Int(fresh_name("w"))
        a = i if isinstance(i, int) else z; b = j if isinstance(j, int) else w
        return subst(subst(f(a, b), pairs), [(z, zi(i)), (w, zi(j))])
    return g
