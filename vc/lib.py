"""Trusted contracts of library functions (C++ standard library, libm); Eigen is in eigen.py, OMPL/FCL/KDL/Boost contracts
are registered by the specs that need them."""
import z3
from .vals import *
from .ctx import *
from .ast import REAL, INT, BOOL, SIZE, tvec
from . import ast as A

RS = z3.RealSort()
def ufn(name, n=1): return z3.Function(name, *([RS] * (n + 1)))
F_SQRT, F_SIN, F_COS, F_TAN = ufn("sqrt"), ufn("sin"), ufn("cos"), ufn("tan")
F_ACOS, F_ASIN, F_ATAN, F_EXP, F_LOG = ufn("acos"), ufn("asin"), ufn("atan"), ufn("exp"), ufn("log")
F_POW, F_ATAN2, F_FMOD = ufn("pow", 2), ufn("atan2", 2), ufn("fmod", 2)
PI_LO, PI_HI = "3.14159265358979", "3.14159265358980"

def trust(ex, what): ex.ctx.trusted[what] = ex.ctx.trusted.get(what, 0) + 1

def m_sqrt(ex, a):
    a = ex.real(a); n = num(a.v)
    if fin(a) and n is not None and n >= 0:
        import math
        p, q = math.isqrt(n.numerator), math.isqrt(n.denominator)
        if p * p == n.numerator and q * q == n.denominator: return R(Fraction(p, q))
    if not fin(a): raise Unsupported("sqrt of a possibly non-finite value")
    if not ex.quick(a.v >= 0): ex.oblige(a.v >= 0, "square root of a negative value")
    return R(F_SQRT(a.v))
def m_fn1(F, dom=None):
    def g(ex, a):
        a = ex.real(a)
        if not fin(a): 
            ex.oblige(is_fin(a), "finite argument of " + F.name())
        n = num(a.v)
        if n is not None and n == 0:
            if F is F_SIN or F is F_TAN or F is F_ASIN or F is F_ATAN: return R(0)
            if F is F_COS or F is F_EXP: return R(1)
        if dom: dom(ex, a)
        return R(F(a.v))
    return g
def dom_acos(ex, a):
    if not ex.quick(z3.And(a.v >= -1, a.v <= 1)): ex.oblige(z3.And(a.v >= -1, a.v <= 1), "argument of acos/asin within [-1,1]")
def m_pow(ex, a, b):
    a, b = ex.real(a), ex.real(b)
    n = num(b.v)
    if fin(a) and fin(b) and n is not None and n.denominator == 1 and 0 <= n <= 8:
        r = R(1)
        for _ in range(int(n)): r = r_mul(r, a)
        return r
    if not (fin(a) and fin(b)): ex.oblige(b_and(is_fin(a), is_fin(b)), "finite argument of pow")
    if n is not None and n.denominator == 1 and n < 0: return ex.div(R(1), m_pow(ex, a, R(-n)))
    if n == Fraction(1, 2): return m_sqrt(ex, a)
    if n is not None and num(a.v) == 1: return R(1)
    ex.oblige(z3.Or(a.v > 0, z3.And(a.v == 0, b.v > 0)), "pow of a negative base")
    return R(F_POW(a.v, b.v))
def m_atan2(ex, a, b):
    a, b = ex.real(a), ex.real(b)
    if not (fin(a) and fin(b)): raise Unsupported("atan2 of non-finite")
    return R(F_ATAN2(a.v, b.v))
def m_abs(ex, a):
    a = ex.use(a)
    if isinstance(a, R): return r_abs(a)
    a = ex.int(a)
    return abs(a) if isinstance(a, int) else z3.If(a >= 0, a, -a)
def m_floor(ex, a, ceil=False):
    a = ex.real(a); n = num(a.v)
    if not fin(a): raise Unsupported("floor of non-finite")
    if n is not None: return R((-((-n.numerator) // n.denominator)) if ceil else n.numerator // n.denominator)
    return R(z3.ToReal(-z3.ToInt(-a.v))) if ceil else R(z3.ToReal(z3.ToInt(a.v)))
def m_round(ex, a):
    a = ex.real(a)
    if not fin(a): raise Unsupported("round of non-finite")
    h = z3.RealVal("1/2")
    return R(z3.If(a.v >= 0, z3.ToReal(z3.ToInt(a.v + h)), -z3.ToReal(z3.ToInt(-a.v + h))))
MATH = {"sqrt": m_sqrt, "sin": m_fn1(F_SIN), "cos": m_fn1(F_COS), "tan": m_fn1(F_TAN), "acos": m_fn1(F_ACOS, dom_acos), "asin": m_fn1(F_ASIN, dom_acos),
        "atan": m_fn1(F_ATAN), "exp": m_fn1(F_EXP), "log": m_fn1(F_LOG), "pow": m_pow, "atan2": m_atan2, "fabs": m_abs, "abs": m_abs,
        "floor": m_floor, "ceil": lambda ex, a: m_floor(ex, a, True), "round": m_round,
        "fmin": lambda ex, a, b: r_fmin(ex.real(a), ex.real(b)), "fmax": lambda ex, a, b: r_fmin(ex.real(a), ex.real(b), True),
        "hypot": lambda ex, a, b: m_sqrt(ex, r_add(r_mul(ex.real(a), ex.real(a)), r_mul(ex.real(b), ex.real(b)))),
        "isnan": lambda ex, a: is_nan(ex.real(a)), "isfinite": lambda ex, a: is_fin(ex.real(a)),
        "isinf": lambda ex, a: (lambda r: b_not(b_or(is_fin(r), is_nan(r))))(ex.real(a)),
        "signbit": lambda ex, a: r_lt(ex.real(a), R(0)),
        "copysign": lambda ex, a, b: r_ite(zb(r_lt(ex.real(b), R(0))), r_neg(r_abs(ex.real(a))), r_abs(ex.real(a)))}
for k in list(MATH): MATH[k + "f"] = MATH[k]; MATH["__builtin_" + k] = MATH[k]

class generic:
    """context manager: arbitrary index k with lo <= k < n"""
    def __init__(self, ex, name, n, extra=()):
        self.ex = ex; self.k = ex.ctx.fresh(name, z3.IntSort()) if False else z3.Int(fresh_name(name)); self.n = n; self.extra = extra
    def __enter__(self):
        self.ex.ctx.params.append(self.k)
        self.save = list(self.ex.pc)
        self.ex.pc = self.ex.pc + [self.k >= 0, self.k < zi(self.n)] + list(self.extra)
        return self.k
    def __exit__(self, *a):
        self.ex.ctx.params.pop(); self.ex.pc = self.save
        return False

def is_it(v): return isinstance(v, Iter)
def full_range(ex, b, e):
    b, e = ex.res(b), ex.res(e)
    if not (is_it(b) and is_it(e)) or b.lv != e.lv: raise Unsupported("iterator range")
    return b, e
def rng_vec(ex, b, e):
    """vector value of an iterator range"""
    b, e = full_range(ex, b, e)
    v = ex.rd(b.lv)
    ex.oblige(b_and(i_ge(b.idx, 0), i_le(b.idx, e.idx), i_le(e.idx, v.len)), "valid iterator range")
    if b.rev:
        n = v.len
        return Vec(i_sub(e.idx, b.idx), ("fn", lambda i: v.get(i_sub(i_sub(n, 1), i_add(b.idx, i)))), v.et)
    if same(b.idx, 0) and same(e.idx, v.len): return v
    if v.node[0] == "lit" and isinstance(b.idx, int) and isinstance(e.idx, int): return lit_vec(v.node[1][b.idx:e.idx], v.et)
    return Vec(i_sub(e.idx, b.idx), ("fn", lambda i: v.get(i_add(b.idx, i))), v.et)

def vcat(a, b):
    if isinstance(a.len, int) and isinstance(b.len, int) and a.node[0] == "lit" and b.node[0] == "lit":
        return lit_vec(a.node[1] + b.node[1], a.et)
    if isinstance(b.len, int) and b.node[0] == "lit":
        for x in b.node[1]: a = a.push(x)
        return a
    if isinstance(a.len, int) and a.len == 0: return Vec(b.len, b.node, a.et)
    return Vec(i_add(a.len, b.len), ("cat", a.node, a.len, b.node, b.len), a.et)

def call_pred(ex, clo, vals):
    clo = ex.res(clo)
    if isinstance(clo, Opq) and clo.tag == "less": return ex.compare("<", vals[0], vals[1])
    if isinstance(clo, Opq) and clo.tag == "greater": return ex.compare(">", vals[0], vals[1])
    return ex.bool(ex.closure_call(clo, list(vals)))

def elem_pats(v, k):
    """patterns matching a mention of element k of v"""
    out = []
    def go(x):
        if is_z3(x):
            st = [x]
            while st:
                y = st.pop()
                if is_uf_app(y) and any(c.eq(k) for c in y.children()): out.append([y])
                if z3.is_app(y): st.extend(y.children())
        elif isinstance(x, R): go(x.v)
        elif isinstance(x, Struct): [go(y) for y in x.f.values()]
        elif isinstance(x, Vec): go(x.len)
        elif isinstance(x, Mat) and x.cells is not None: [go(y) for y in x.cells]
    try: go(v.get(k))
    except EmptyRead: pass
    seen = {}
    for p in out: seen.setdefault(p[0].decl().name(), p)
    return list(seen.values())
def sort_vec(ex, v, clo):
    trust(ex, "std::sort: permutation, ordered by the comparator")
    less = (lambda a, b: call_pred(ex, clo, [a, b])) if clo is not None else (lambda a, b: ex.compare("<", a, b))
    if isinstance(v.len, int) and v.len <= 4:
        items = [v.get(i) for i in range(v.len)]
        for i in range(1, len(items)):
            for j in range(i, 0, -1):
                c = less(items[j], items[j - 1])
                items[j], items[j - 1] = ite(c, items[j - 1], items[j]), ite(c, items[j], items[j - 1])
        return lit_vec(items, v.et)
    I = z3.IntSort(); n = v.len
    p = ex.ctx.fresh_fn("perm", [I], I); q = ex.ctx.fresh_fn("permi", [I], I)
    k, j = z3.Int(fresh_name("k")), z3.Int(fresh_name("j"))
    # permutation: p and q are inverse bijections of [0,n)
    ex.ctx.add_schema([k], z3.Implies(z3.And(k >= 0, k < zi(n)), z3.And(p(k) >= 0, p(k) < zi(n), q(p(k)) == k)), ex.pc, pats=[[p(k)]])
    ex.ctx.add_schema([k], z3.Implies(z3.And(k >= 0, k < zi(n)), z3.And(q(k) >= 0, q(k) < zi(n), p(q(k)) == k)), ex.pc, pats=[[q(k)]] + elem_pats(v, k))
    out = Vec(n, ("fn", lambda i: v.get(p(zi(i)))), v.et)
    if not ex.ctx.params and not ex.ctx.mute: ex.__dict__.setdefault("perms", {})[len(ex.__dict__.get("perms", {}))] = (p, q, v)
    save = ex.pc; st = dict(ex.store)
    ex.pc = ex.pc + [k >= 0, k < j, j < zi(n)]
    ex.ctx.params += [k, j]; ex.ctx.mute += 1
    try: lt = less(out.get(j), out.get(k))
    finally: ex.pc = save; ex.ctx.params[-2:] = []; ex.ctx.mute -= 1; ex.store = st
    ex.ctx.add_schema([k, j], z3.Implies(z3.And(k >= 0, k < j, j < zi(n)), zb(b_not(lt))), ex.pc, pats=[[p(k), p(j)]])
    return out

def exists_in(ex, n, pred, name="any"):
    """Boolean 'pred holds for some index < n' with a witness function"""
    if isinstance(n, int) and n <= 6: return b_or(*[pred(i) for i in range(n)])
    r = ex.ctx.fresh(name, z3.BoolSort()); w = ex.ctx.fresh(name + ".w", z3.IntSort())
    g = generic(ex, "q", n)
    with g as k: c = zb(pred(k))
    ex.ctx.add_schema([k], z3.Implies(z3.And(k >= 0, k < zi(n), z3.Not(r)), z3.Not(c)), ex.pc)
    cw = zb(subst(c, [(k, w)]))
    ex.assume(z3.Implies(r, z3.And(w >= 0, w < zi(n), cw)))
    return r

# ---------------------------------------------------------------- dispatch
def construct(ex, e):
    t = e["t"]; n = t.n; args = e["args"]
    if n == "std::vector":
        et = t.a[0]
        a = [x for x in args if not (x["t"].k == "rec" and x["t"].n in ("std::allocator",))]
        if not a: return lit_vec([], et)
        if len(a) == 1 and a[0]["k"] in ("StdInit", "InitList") or (len(a) == 1 and a[0]["t"].k == "rec" and a[0]["t"].n == "std::initializer_list"):
            v = ex.ev(a[0])
            if isinstance(v, Vec): return Vec(v.len, v.node, et)
            raise Unsupported("vector initialiser")
        vs = [ex.ev(x) for x in a]
        if len(vs) == 1 and isinstance(vs[0], Vec): return vs[0]
        if len(vs) == 2 and is_it(ex.res(vs[0])): 
            v = rng_vec(ex, vs[0], vs[1]); return Vec(v.len, v.node, et)
        cnt = ex.int(vs[0])
        ex.oblige(i_le(cnt, 2 ** 62), "vector size")
        val = (lambda: ex.conv(vs[1], et)) if len(vs) == 2 else (lambda: ex.zero(et))
        if isinstance(cnt, int) and cnt <= 64: return lit_vec([val()] * cnt, et)
        v0 = val()
        return fn_vec(cnt, lambda i: v0, et)
    if n == "std::pair":
        if len(args) == 2: return Struct("std::pair", {"first": ex.conv(ex.ev(args[0]), t.a[0]), "second": ex.conv(ex.ev(args[1]), t.a[1])})
        if not args: return ex.zero(t)
        v = ex.ev(args[0])
        return Struct("std::pair", {"first": ex.conv(v.f["first"], t.a[0]), "second": ex.conv(v.f["second"], t.a[1])})
    if n == "std::complex":
        vs = [ex.res(ex.ev(a)) for a in args]
        if len(vs) == 1 and isinstance(vs[0], Struct): return vs[0]
        return Struct(n, {"re": ex.real(vs[0]) if vs else R(0), "im": ex.real(vs[1]) if len(vs) > 1 else R(0)})
    if n.startswith("Eigen::"):
        from . import eigen
        return eigen.construct(ex, e)
    if n in ("std::shared_ptr", "std::unique_ptr"):
        if not args: return Ptr(None)
        v = ex.res(ex.ev(args[0]))
        return v
    if n in ("std::basic_string", "std::__cxx11::basic_string"):
        if args and args[0]["k"] in ("Str", "Cast"):
            v = ex.ev(args[0])
            if isinstance(v, Str): return v
        if len(args) >= 1 and args[0]["t"].noref().n in ("std::basic_string", "std::__cxx11::basic_string"):
            v = ex.ev(args[0]); v = ex.res(ex.rd(v)) if not isinstance(v, (Str,)) and hasattr(v, "root") else v
            if isinstance(v, Str): return v
        return Str("") if not args else Str(None)
    if n in ("std::function",) and len(args) == 1: return ex.ev(args[0])
    if n in ("std::less", "std::greater"): return Opq(n, n[5:])
    if n == "__gnu_cxx::__normal_iterator" or n == "std::reverse_iterator": return ex.ev(args[0])
    if n == "std::allocator": return VOID
    if n.startswith("std::chrono::"): 
        for a in args: ex.ev(a)
        return Opq(t.key, "chrono")
    if n == "std::array" and not args: return ex.default(t)
    if t.k == "arr":
        return lit_vec([ex.default(t.to) for _ in range(t.len)], t.to)
    h = ex.contracts.get("construct:" + n)
    if h: return h(ex, e)
    if all_opaque(n):
        for a in args: ex.ev(a)
        trust(ex, "opaque library object " + n)
        return ex.opaque(t)
    raise Unsupported("constructor of " + t.key[:120])
def all_opaque(n):
    return n.startswith(("std::ostringstream", "std::basic_ofstream", "std::basic_ostream"))

def opcall(ex, e):
    op = e["op"]; args = e["args"]; fn = e.get("fn") or {}
    t0 = args[0]["t"]; t0 = t0.noref()
    q = fn.get("q", "")
    h = ex.contracts.get("op:" + q)
    if h: return h(ex, e)
    if t0.k == "rec" and t0.n in ("std::basic_ostream", "std::basic_ofstream", "std::basic_ostringstream") or op == "<<" and q.startswith("std::"):
        for a in args[1:]:
            if a["k"] != "FnRef":
                try: ex.ev(a)
                except Unsupported: pass
        return Opq("ostream", "ostream")
    if t0.k == "rec" and t0.n == "std::vector" or t0.k == "rec" and t0.n in ("std::array", "std::deque"):
        if op == "[]":
            lv = ex.lv(args[0]); return ex.index(lv, ex.int(ex.ev(args[1])))
        if op == "=":
            v = ex.ev(args[1]); lv = ex.lv(args[0])
            if isinstance(v, Vec): ex.wr(lv, Vec(v.len, v.node, t0.a[0])); return lv
        if op in ("==", "!="):
            a, b = ex.ev(args[0]), ex.ev(args[1])
            r = vec_eq(ex, a, b)
            return r if op == "==" else b_not(r)
        raise Unsupported("vector operator " + op)
    if t0.n.startswith("Eigen::") or any(a["t"].noref().n.startswith("Eigen::") for a in args):
        from . import eigen
        return eigen.opcall(ex, e)
    if t0.n == "std::complex" and len(args) == 2 and op in ("+", "-", "*", "=="):
        a, b = [ex.res(ex.ev(x)) for x in args]
        (p, q_), (r, s_) = [(ex.real(x.f["re"]), ex.real(x.f["im"])) if isinstance(x, Struct) else (ex.real(x), R(0)) for x in (a, b)]
        if op == "==": return b_and(r_eq(p, r), r_eq(q_, s_))
        if op == "*": return Struct(t0.n, {"re": r_sub(r_mul(p, r), r_mul(q_, s_)), "im": r_add(r_mul(p, s_), r_mul(q_, r))})
        f = r_add if op == "+" else r_sub
        return Struct(t0.n, {"re": f(p, r), "im": f(q_, s_)})
    if t0.n in ("__gnu_cxx::__normal_iterator", "std::reverse_iterator"):
        if op in ("++", "--"):
            lv = ex.lv(args[0]); it = ex.res(ex.rd(lv))
            ni = Iter(it.lv, (i_add if op == "++" else i_sub)(it.idx, 1), it.rev); ex.wr(lv, ni)
            return it if len(args) == 2 else lv
        a = ex.res(ex.ev(args[0]))
        if op == "*": return ex.iter_lv(a)
        if op == "->": return Ptr(ex.iter_lv(a))
        if op == "[]": return ex.iter_lv(Iter(a.lv, i_add(a.idx, ex.int(ex.ev(args[1]))), a.rev))
        if op in ("=",):
            lv = ex.lv(args[0]); ex.wr(lv, ex.ev(args[1])); return lv
        b = ex.res(ex.ev(args[1]))
        if op in ("+", "-"):
            if is_it(b): return i_sub(a.idx, b.idx)
            return Iter(a.lv, (i_add if op == "+" else i_sub)(a.idx, ex.int(b)), a.rev)
        if op in ("+=", "-="):
            lv = ex.lv(args[0]); ex.wr(lv, Iter(a.lv, (i_add if op == "+=" else i_sub)(a.idx, ex.int(b)), a.rev)); return lv
        return ex.compare(op, a, b)
    if op == "=":
        v = ex.ev(args[1]); lv = ex.lv(args[0]); ex.wr(lv, ex.conv(v, t0)); return lv
    if op == "->" or op == "*" and len(args) == 1:
        p = ex.res(ex.ev(args[0]))
        if isinstance(p, Ptr):
            if op == "->": return p
            return ex.deref(p)
        if isinstance(p, Opq): return p
    if op in ("==", "!=", "<", "<=", ">", ">=") and len(args) == 2: return ex.compare(op, ex.ev(args[0]), ex.ev(args[1]))
    if op == "()" and t0.n in ("std::function",):
        return ex.closure_call(ex.res(ex.ev(args[0])), [ex.ev(a) for a in args[1:]])
    if op == "-" and "chrono" in q: return Opq("chrono", "chrono")
    if op == "+" and "basic_string" in str(e["t"]):
        ts = [v.term() if isinstance(v, Str) else None for v in (ex.res(ex.ev(a)) for a in args)]
        return Str(None, F_CAT(*ts) if all(t is not None for t in ts) else None)
    h = ex.contracts.get("op:" + t0.n)
    if h: return h(ex, e)
    raise Unsupported("operator %s on %s" % (op, t0.key[:100]))
F_CAT = z3.Function("strcat", Obj, Obj, Obj); F_TOSTR = z3.Function("to_string", z3.IntSort(), Obj)
def vec_eq(ex, a, b):
    if isinstance(a.len, int) and isinstance(b.len, int):
        if a.len != b.len: return False
        return b_and(*[ex.compare("==", a.get(i), b.get(i)) for i in range(a.len)])
    ne = exists_in(ex, a.len, lambda k: b_not(ex.compare("==", a.get(k), b.get(k))), "vecne")
    return b_and(i_eq(a.len, b.len), b_not(ne))

def mcall(ex, e):
    fn = e["fn"]; name = fn["n"]; t = e["obj"]["t"].noref()
    if e["arrow"]: 
        t = t.to.noref() if t.k == "ptr" else t
    h = ex.contracts.get("m:" + t.n + "::" + name) or ex.contracts.get("m:" + fn["q"])
    if h: return h(ex, e)
    if t.n in ("std::vector", "std::array", "std::deque", "std::initializer_list"): return vec_mcall(ex, e, name, t)
    if t.n == "std::complex" and name in ("real", "imag") and not e["args"]:
        v = ex.res(ex.ev(e["obj"])); return ex.real(v.f["re" if name == "real" else "im"])
    if t.n.startswith("Eigen::"):
        from . import eigen
        return eigen.mcall(ex, e, name)
    if "shared_ptr" in t.n or t.n == "std::unique_ptr":
        if name in ("operator->", "get"):
            p = ex.res(ex.ev(e["obj"])); return p
        if name in ("operator*",): return ex.deref(ex.ev(e["obj"]))
        if name == "operator bool": return ex.bool(ex.ev(e["obj"]))
        if name == "reset":
            lv = ex.obj_lv(e); ex.wr(lv, ex.ev(e["args"][0]) if e["args"] else Ptr(None)); return VOID
    if "chrono" in fn["q"]:
        if name == "count": return R(ex.ctx.fresh("clock", RS))
        return Opq("chrono", "chrono")
    if t.n in ("std::basic_string", "std::__cxx11::basic_string"):
        if name in ("size", "length"): 
            r = ex.ctx.fresh("strlen", z3.IntSort()); ex.ctx.add_fact(r >= 0); return r
        if name == "empty": return ex.ctx.fresh("strempty", z3.BoolSort())
        if name == "c_str": return ex.ev(e["obj"])
    if t.n in ("__gnu_cxx::__normal_iterator", "std::reverse_iterator") and name == "base": return ex.ev(e["obj"])
    raise Unsupported("method %s" % fn["q"][:140])

def vec_mcall(ex, e, name, t):
    lv = ex.obj_lv(e); args = e["args"]
    v = ex.res(ex.rd(lv))
    if not isinstance(v, Vec): raise Unsupported("vector method on " + kind(v))
    et = t.a[0] if t.a else v.et
    if name in ("size", "length"): return v.len
    if name == "empty": return i_eq(v.len, 0)
    if name in ("at", "operator[]"):
        return ex.index(lv, ex.int(ex.ev(args[0])), "vector access within bounds")
    if name == "push_back":
        x = ex.conv(ex.ev(args[0]), et); v = ex.rd(lv)
        ex.wr(lv, v.push(x)); return VOID
    if name == "emplace_back":
        if len(args) == 1 and (et.k != "rec" or args[0]["t"].noref() == et): x = ex.conv(ex.ev(args[0]), et)
        elif et.k == "rec" and ex.rec(et):
            vs = [ex.lv(a) if a.get("lv") else ex.ev(a) for a in args]
            if not vs: x = ex.default_struct(et)
            else:
                c = [f for f in ex.prog.fns.values() if f.get("ctor") and f["clst"].key == et.key and len(f["params"]) == len(args)]
                if len(c) != 1: raise Unsupported("emplace_back constructor")
                this = ex.tmp(ex.default_struct(et))
                ex.run_fn(c[0], this, vs); x = ex.store.pop(this.root)
        elif et.n == "std::pair":
            x = Struct("std::pair", {"first": ex.conv(ex.ev(args[0]), et.a[0]), "second": ex.conv(ex.ev(args[1]), et.a[1])})
        elif et.n == "std::vector":
            x = construct(ex, {"t": et, "args": args, "fn": e["fn"]})
        elif et.n.startswith("Eigen::"):
            x = construct(ex, {"t": et, "args": args, "fn": e["fn"], "copy": False})
        else: raise Unsupported("emplace_back of " + et.key)
        v = ex.rd(lv); ex.wr(lv, v.push(x)); return lv.i(v.len)
    if name in ("back", "front"):
        ex.oblige(i_gt(v.len, 0), name + "() of a non-empty vector")
        if isinstance(v.len, int) and v.len == 0: raise Unsupported("constant index out of range")
        return lv.i(i_sub(v.len, 1) if name == "back" else 0)
    if name in ("begin", "cbegin", "data"): return Iter(lv, 0)
    if name in ("end", "cend"): return Iter(lv, v.len)
    if name in ("rbegin", "crbegin"): return Iter(lv, 0, True)
    if name in ("rend", "crend"): return Iter(lv, v.len, True)
    if name == "clear": ex.wr(lv, lit_vec([], et)); return VOID
    if name in ("reserve", "shrink_to_fit"):
        for a in args: ex.ev(a)
        return VOID
    if name == "pop_back":
        ex.oblige(i_gt(v.len, 0), "pop_back of a non-empty vector")
        if v.node[0] == "push": ex.wr(lv, Vec(i_sub(v.len, 1), v.node[1], et)); return VOID
        if v.node[0] == "lit" and isinstance(v.len, int): ex.wr(lv, lit_vec(v.node[1][:v.len - 1], et)); return VOID
        ex.wr(lv, Vec(i_sub(v.len, 1), v.node, et)); return VOID
    if name in ("resize", "assign"):
        n = ex.int(ex.ev(args[0]))
        fill = ex.conv(ex.ev(args[1]), et) if len(args) > 1 else ex.zero(et)
        if name == "assign" or isinstance(v.len, int) and v.len == 0:
            if isinstance(n, int) and n <= 64: ex.wr(lv, lit_vec([fill] * n, et))
            else: ex.wr(lv, fn_vec(n, lambda i: fill, et))
            return VOID
        if isinstance(n, int) and isinstance(v.len, int) and v.node[0] == "lit":
            l = v.node[1][:v.len]
            ex.wr(lv, lit_vec(l[:n] if n <= len(l) else l + (fill,) * (n - len(l)), et)); return VOID
        def g(i, v=v):
            c = i_lt(i, v.len)
            if c is True: return v.get(i)
            if c is False: return fill
            try: return ite(c, v.get(i), fill)
            except EmptyRead: return fill
        ex.wr(lv, fn_vec(n, g, et)); return VOID
    if name == "insert":
        pos = ex.res(ex.ev(args[0]))
        vs = [ex.ev(a) for a in args[1:]]
        if is_it(pos) and same(pos.idx, v.len) and len(vs) == 2 and is_it(ex.res(vs[0])):
            ex.wr(lv, vcat(v, rng_vec(ex, vs[0], vs[1]))); return VOID
        if is_it(pos) and same(pos.idx, v.len) and len(vs) == 1 and not is_it(vs[0]):
            ex.wr(lv, v.push(ex.conv(vs[0], et))); return Iter(lv, v.len)
        if is_it(pos) and same(pos.idx, 0) and len(vs) == 2 and is_it(ex.res(vs[0])):
            ex.wr(lv, vcat(rng_vec(ex, vs[0], vs[1]), v)); return VOID
        if is_it(pos) and same(pos.idx, 0) and len(vs) == 1:
            ex.wr(lv, vcat(lit_vec([ex.conv(vs[0], et)], et), v)); return Iter(lv, 0)
        raise Unsupported("vector insert")
    if name == "swap":
        l2 = ex.lv(args[0]); a, b = ex.rd(lv), ex.rd(l2); ex.wr(lv, b); ex.wr(l2, a); return VOID
    if name == "fill":
        x = ex.conv(ex.ev(args[0]), et); ex.wr(lv, fn_vec(v.len, lambda i: x, et)); return VOID
    raise Unsupported("vector method " + name)

class BackIns:
    def __init__(self, lv): self.lv = lv
def algo_loop(ex, e, n):
    """element-wise standard algorithms, executed as the loop that defines them"""
    from .loops import loop
    args = [ex.lv(a) if n in ("for_each",) and False else ex.ev(a) for a in e["args"]]
    b, en = full_range(ex, args[0], args[1])
    v = rng_vec(ex, b, en)
    trust(ex, "std::" + n + ": definitional loop")
    ix = ex.tmp(0); rest = args[2:]
    def cond(): return i_lt(ex.rd(ix), v.len)
    def inc(): ex.wr(ix, i_add(ex.rd(ix), 1))
    def elem_lv(i): return b.lv.i(i_add(b.idx, i)) if not b.rev else b.lv.i(i_sub(i_sub(ex.rd(b.lv).len, 1), i_add(b.idx, i)))
    acc = None; out = VOID
    def put(dst, i, val):
        if isinstance(dst, BackIns):
            w = ex.rd(dst.lv); ex.wr(dst.lv, w.push(ex.conv(val, w.et)))
        else:
            dst = ex.res(dst); it = Iter(dst.lv, i_add(dst.idx, i), dst.rev); ex.wr(ex.iter_lv(it), ex.conv(val, ex.rd(dst.lv).et))
    if n == "accumulate":
        acc = ex.tmp(ex.conv(rest[0], e["t"])); op = rest[1] if len(rest) > 1 else None
        def body():
            x = v.get(ex.rd(ix)); a = ex.rd(acc)
            ex.wr(acc, ex.conv(ex.closure_call(ex.res(op), [a, x]) if op is not None else ex.arith("+", a, x, e["t"]), e["t"])); return True
    elif n == "inner_product":
        acc = ex.tmp(ex.conv(rest[1], e["t"])); w = ex.res(rest[0])
        if len(rest) > 2: raise Unsupported("inner_product with operators")
        def body():
            i = ex.rd(ix); y = ex.rd(ex.iter_lv(Iter(w.lv, i_add(w.idx, i), w.rev))); a = ex.rd(acc)
            ex.wr(acc, ex.conv(ex.arith("+", a, ex.arith("*", v.get(i), y, e["t"]), e["t"]), e["t"])); return True
    elif n == "for_each":
        clo = ex.res(rest[0])
        def body(): ex.closure_call(clo, [elem_lv(ex.rd(ix))]); return True
    elif n == "transform":
        if len(rest) == 2: dst, op, w = rest[0], ex.res(rest[1]), None
        else: w, dst, op = ex.res(rest[0]), rest[1], ex.res(rest[2])
        def body():
            i = ex.rd(ix); xs = [v.get(i)]
            if w is not None: xs.append(ex.rd(ex.iter_lv(Iter(w.lv, i_add(w.idx, i), w.rev))))
            r = ex.closure_call(op, xs); put(dst, i, ex.rd(r) if type(r).__name__ == "LV" else r); return True
    elif n in ("copy", "copy_if"):
        dst = rest[0]
        if n == "copy_if" and not isinstance(dst, BackIns): raise Unsupported("copy_if")
        def body():
            i = ex.rd(ix)
            if n == "copy": put(dst, i, v.get(i)); return True
            c = ex.bool(ex.closure_call(ex.res(rest[1]), [v.get(i)])); w = ex.rd(dst.lv)
            ex.wr(dst.lv, ite(c, w.push(v.get(i)), w)); return True
    elif n in ("count_if", "count"):
        acc = ex.tmp(0)
        def body():
            x = v.get(ex.rd(ix)); c = ex.bool(ex.closure_call(ex.res(rest[0]), [x])) if n == "count_if" else ex.compare("==", x, rest[0])
            ex.wr(acc, i_add(ex.rd(acc), i_ite(c, 1, 0))); return True
    elif n in ("find_if", "find"):
        acc = ex.tmp(Iter(b.lv, b.idx, b.rev))
        r = ex.ctx.fresh("found", z3.IntSort())
        pred = lambda k: zb(ex.bool(ex.closure_call(ex.res(rest[0]), [v.get(k)])) if n == "find_if" else ex.compare("==", v.get(k), rest[0]))
        g = generic(ex, "q", v.len)
        with g as k: c = pred(k)
        ex.assume(z3.And(r >= 0, r <= zi(v.len), z3.Implies(r < zi(v.len), zb(subst(c, [(k, r)])))))
        ex.ctx.add_schema([k], z3.Implies(z3.And(k >= 0, k < r), z3.Not(c)), ex.pc)
        return Iter(b.lv, i_add(b.idx, r), b.rev)
    elif n == "generate":
        def body(): ex.wr(elem_lv(ex.rd(ix)), ex.closure_call(ex.res(rest[0]), [])); return True
    loop(ex, cond, body, inc, e)
    if acc is not None: return ex.rd(acc)
    return VOID

def call(ex, e):
    fn = e["fn"]; q = fn["q"]; n = fn["n"]; args = e["args"]
    h = ex.contracts.get("c:" + q)
    if h: return h(ex, e)
    if q.startswith("Eigen::"):
        from . import eigen
        return eigen.static_call(ex, e)
    base = q[5:] if q.startswith("std::") else q
    if base in MATH:
        vs = [ex.ev(a) for a in args]
        if vs and args[0]["t"].noref().n == "std::complex":
            z = ex.res(vs[0]); z = z if isinstance(z, Struct) else ex.res(ex.rd(z)); x, y = ex.real(z.f["re"]), ex.real(z.f["im"])
            if base == "abs": return m_sqrt(ex, r_add(r_mul(x, x), r_mul(y, y)))
            raise Unsupported("complex " + base)
        trust(ex, "libm " + base.rstrip("f"))
        return MATH[base](ex, *vs)
    if q in ("std::real", "std::imag", "std::norm") and args[0]["t"].noref().n == "std::complex":
        z = ex.res(ex.ev(args[0])); x, y = ex.real(z.f["re"]), ex.real(z.f["im"])
        return {"std::real": x, "std::imag": y, "std::norm": r_add(r_mul(x, x), r_mul(y, y))}[q]
    if q in ("__builtin_nanf", "__builtin_nan", "nan", "nanf", "std::nan"): return NAN()
    if q in ("__builtin_inff", "__builtin_inf", "__builtin_huge_val"): return PINF()
    if q.startswith("std::numeric_limits<double>::"):
        return {"max": R(Fraction(float("1.7976931348623157e308"))), "lowest": R(-Fraction(1.7976931348623157e308)), "infinity": PINF(), "quiet_NaN": NAN(),
                "epsilon": R(Fraction(2) ** -52), "min": R(Fraction(2) ** -1022)}[n]
    if q.startswith("std::numeric_limits<int>::"): return {"max": 2 ** 31 - 1, "min": -2 ** 31, "lowest": -2 ** 31}[n]
    if q.startswith("std::numeric_limits<unsigned long>::"): return {"max": 2 ** 64 - 1, "min": 0, "lowest": 0}[n]
    if q.startswith("std::numeric_limits<float>::"): return {"max": R(Fraction(3.4028234663852886e38)), "infinity": PINF(), "quiet_NaN": NAN()}[n]
    if q in ("std::min", "std::max"):
        if len(args) == 1:
            v = ex.ev(args[0]); items = [v.get(i) for i in range(v.len)]
        else: items = [ex.use(ex.ev(a)) for a in args]
        r = items[0]
        for x in items[1:]:
            if isinstance(r, R) or isinstance(x, R): r = r_min(ex.real(r), ex.real(x), q == "std::max")
            else: r = i_ite(i_lt(x, r) if q == "std::min" else i_lt(r, x), ex.int(x), ex.int(r))
        return r
    if q in ("std::move", "std::forward", "std::as_const", "std::ref", "std::cref", "std::make_move_iterator"): return ex.lv(args[0]) if args[0].get("lv") else ex.ev(args[0])
    if q == "std::make_pair": return Struct("std::pair", {"first": ex.ev(args[0]), "second": ex.ev(args[1])})
    if q == "std::clamp":
        v, lo, hi = [ex.real(ex.ev(a)) for a in args[:3]]
        return r_ite(zb(r_lt(v, lo)), lo, r_ite(zb(r_lt(hi, v)), hi, v))
    if q == "std::swap":
        a, b = ex.lv(args[0]), ex.lv(args[1]); x, y = ex.rd(a), ex.rd(b); ex.wr(a, y); ex.wr(b, x); return VOID
    if q in ("std::begin", "std::cbegin"): return Iter(ex.lv(args[0]), 0)
    if q in ("std::end", "std::cend"): lv = ex.lv(args[0]); return Iter(lv, ex.rd(lv).len)
    if q in ("std::size",): return ex.rd(ex.lv(args[0])).len
    if q in ("std::next", "std::prev"):
        it = ex.res(ex.ev(args[0])); d = ex.int(ex.ev(args[1])) if len(args) > 1 else 1
        return Iter(it.lv, (i_add if n == "next" else i_sub)(it.idx, d), it.rev)
    if q == "std::advance":
        lv = ex.lv(args[0]); it = ex.res(ex.rd(lv)); ex.wr(lv, Iter(it.lv, i_add(it.idx, ex.int(ex.ev(args[1]))), it.rev)); return VOID
    if q == "std::distance":
        a, b = full_range(ex, ex.ev(args[0]), ex.ev(args[1])); return i_sub(b.idx, a.idx)
    if q in ("std::sort", "std::stable_sort"):
        b, en = full_range(ex, ex.ev(args[0]), ex.ev(args[1])); v = ex.rd(b.lv)
        if not (same(b.idx, 0) and same(en.idx, v.len)) or b.rev: raise Unsupported("partial sort")
        ex.wr(b.lv, sort_vec(ex, v, ex.ev(args[2]) if len(args) > 2 else None)); return VOID
    if q == "std::reverse":
        b, en = full_range(ex, ex.ev(args[0]), ex.ev(args[1])); v = ex.rd(b.lv)
        if not (same(b.idx, 0) and same(en.idx, v.len)) or b.rev: raise Unsupported("partial reverse")
        if v.node[0] == "lit" and isinstance(v.len, int): ex.wr(b.lv, lit_vec(v.node[1][:v.len][::-1], v.et))
        else: ex.wr(b.lv, Vec(v.len, ("fn", lambda i: v.get(i_sub(i_sub(v.len, 1), i))), v.et))
        return VOID
    if q in ("std::any_of", "std::all_of", "std::none_of"):
        v = rng_vec(ex, ex.ev(args[0]), ex.ev(args[1])); clo = ex.ev(args[2])
        neg = q == "std::all_of"
        r = exists_in(ex, v.len, lambda k: (b_not if neg else (lambda x: x))(call_pred(ex, clo, [v.get(k)])))
        return r if q == "std::any_of" else b_not(r)
    if q in ("std::min_element", "std::max_element"):
        b, en = full_range(ex, ex.ev(args[0]), ex.ev(args[1])); v = rng_vec(ex, b, en)
        clo = ex.ev(args[2]) if len(args) > 2 else None
        less = (lambda a, c: call_pred(ex, clo, [a, c])) if clo is not None else (lambda a, c: ex.compare("<", a, c))
        if isinstance(v.len, int) and 1 <= v.len <= 4:
            bi = 0; bv = v.get(0)
            for i in range(1, v.len):
                c = less(v.get(i), bv) if q.endswith("min_element") else less(bv, v.get(i))
                bi = i_ite(c, i, bi); bv = ite(c, v.get(i), bv)
            return Iter(b.lv, i_add(b.idx, bi), b.rev)
        w = ex.ctx.fresh("arg", z3.IntSort())
        ex.assume(z3.And(w >= 0, w <= zi(v.len), z3.Implies(zi(v.len) > 0, w < zi(v.len))))
        g = generic(ex, "q", v.len)
        with g as k: c = zb(less(v.get(k), v.get(w)) if q.endswith("min_element") else less(v.get(w), v.get(k)))
        ex.ctx.add_schema([k], z3.Implies(z3.And(k >= 0, k < zi(v.len)), z3.Not(c)), ex.pc)
        return Iter(b.lv, i_add(b.idx, w), b.rev)
    if q == "std::iota":
        b, en = full_range(ex, ex.ev(args[0]), ex.ev(args[1])); v = ex.rd(b.lv); x0 = ex.ev(args[2])
        if not (same(b.idx, 0) and same(en.idx, v.len)): raise Unsupported("partial iota")
        ex.wr(b.lv, fn_vec(v.len, lambda i: i_add(ex.int(x0), i), v.et)); return VOID
    if q in ("std::fill",):
        b, en = full_range(ex, ex.ev(args[0]), ex.ev(args[1])); v = ex.rd(b.lv); x0 = ex.conv(ex.ev(args[2]), v.et)
        if not (same(b.idx, 0) and same(en.idx, v.len)): raise Unsupported("partial fill")
        ex.wr(b.lv, fn_vec(v.len, lambda i: x0, v.et)); return VOID
    if q in ("std::accumulate", "std::inner_product", "std::for_each", "std::transform", "std::count_if", "std::count", "std::find_if", "std::find", "std::copy", "std::copy_if", "std::generate"):
        return algo_loop(ex, e, n)
    if q in ("std::back_inserter",): return BackIns(ex.lv(args[0]))
    if q in ("std::make_shared", "std::make_unique"):
        ty = e["t"].a[0]
        if ex.rec(ty):
            c = [f for f in ex.prog.fns.values() if f.get("ctor") and f["clst"].key == ty.key and len(f["params"]) == len(args)]
            if len(args) == 0 and not c: return Ptr(ex.heap(ex.default_struct(ty)))
            if len(args) == 1 and args[0]["t"].noref() == ty: return Ptr(ex.heap(ex.ev(args[0])))
            if len(c) == 1:
                vs = [ex.arg(a, p) for a, p in zip(args, c[0]["params"])]
                this = ex.heap(ex.default_struct(ty)); ex.run_fn(c[0], this, vs)
                return Ptr(this)
        h = ex.contracts.get("make:" + ty.n)
        if h: return h(ex, e)
        raise Unsupported("make_shared of " + ty.key)
    if q in ("time", "std::time", "srand", "std::srand", "rand"):
        for a in args:
            if a["k"] != "Null": ex.ev(a)
        r = ex.ctx.fresh("rand", z3.IntSort())
        if n == "rand": ex.ctx.add_fact(z3.And(r >= 0, r <= 2 ** 31 - 1))
        return r
    if "chrono" in q: return Opq("chrono", "chrono")
    if q in ("std::to_string",):
        x = ex.res(ex.ev(args[0]))
        return Str(None, F_TOSTR(zi(x)) if isinstance(x, int) or is_z3(x) and z3.is_int(x) else None)
    if q in ("std::get",) and fn.get("ta") is not None:
        lv = ex.lv(args[0]); i = fn["ta"][0]
        v = ex.rd(lv)
        return lv.f(["first", "second"][i]) if isinstance(v, Struct) else lv.i(i)
    raise Unsupported("call of " + q[:140])
