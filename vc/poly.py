"""Algebraic back end: decides equalities of real terms as identities of rational functions, modulo definitions (ghost
quotients, named cells), x^2 rules (sine/cosine, unit quaternions, square roots) and case-normalised conditionals.
Every division by a term needs a separate proof that the term is not zero."""
import z3
from fractions import Fraction
from math import isqrt

class Fail(Exception): pass
SH = 8; MASK = 255
LIMIT = 400000
def padd(a, b, s=1):
    if len(a) < len(b) and s == 1: a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v == 0: r.pop(m, None)
        else: r[m] = v
    return r
def pmul(a, b):
    if len(a) > len(b): a, b = b, a
    if len(a) * len(b) > 20 * LIMIT: raise Fail("polynomial too large")
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = m1 + m2; r[m] = r.get(m, 0) + c1 * c2
    return {m: c for m, c in r.items() if c != 0}
def pconst(c):
    c = Fraction(c); c = int(c) if c.denominator == 1 else c
    return {0: c} if c != 0 else {}
def exps(m):
    i = 0; out = []
    while m:
        e = m & MASK
        if e: out.append((i, e))
        m >>= SH; i += 1
    return out
def mono_content(p):
    """largest monomial dividing every term"""
    it = iter(p); c = next(it)
    for m in it:
        if not c: return 0
        r = 0
        for i, e in exps(c):
            f = (m >> (SH * i)) & MASK
            if f: r |= min(e, f) << (SH * i)
        c = r
    return c
class RF:
    __slots__ = ("n", "d")
    def __init__(self, n, d=()): self.n = n; self.d = d      # d: tuple of (denominator index, multiplicity), sorted
ZERO = RF({})

class Alg:
    def __init__(self, ctx, prove, budget=2500):
        self.ctx = ctx; self._prove = prove; self.memo = {}; self.names = []; self.varid = {}; self.rules = {}
        self.dens = []; self.denkey = {}; self.apps = {}; self.need = {}; self.keep = []; self.ites = []; self.conds = {}; self.sqrts = []
        self.defs = {}; self.budget = budget; self.pcache = {}
        for v in ctx.__dict__.get("quots", {}).values(): self.defs[v[1].decl().get_id()] = ("q", v[1], v[2], v[3])
        for g, t in ctx.__dict__.get("defs", []): self.defs[g.decl().get_id()] = ("d", g, t)
        self.trig = {}; self.intdefs = []
    def prove(self, f, b=6000):
        f = z3.simplify(f)
        if z3.is_true(f): return True
        if z3.is_false(f): return False
        k = f.get_id()
        if k not in self.pcache: self.keep.append(f); self.pcache[k] = self._prove(f, b)
        return self.pcache[k]
    # ---- variables
    def var(self, key, term):
        if key not in self.varid: self.varid[key] = len(self.names); self.names.append(term)
        return self.varid[key]
    def vpoly(self, key, term): return {1 << (SH * self.var(key, term)): 1}
    def reduce(self, p):
        if len(p) > LIMIT: raise Fail("polynomial too large")
        again = True
        while again:
            again = False
            for v, rhs in self.rules.items():
                sh = SH * v; hit = [m for m in p if ((m >> sh) & MASK) >= 2]
                if not hit: continue
                again = True
                q = {m: c for m, c in p.items() if ((m >> sh) & MASK) < 2}; groups = {}
                for m in hit:
                    e = (m >> sh) & MASK; k, r = divmod(e, 2)
                    groups.setdefault(k, {})[m - (e << sh) + (r << sh)] = p[m]
                for k, g in groups.items():
                    for _ in range(k): g = pmul(g, rhs)
                    q = padd(q, g)
                p = q
        return p
    # ---- rational functions
    def den(self, p):
        """index of a denominator polynomial"""
        k = frozenset(p.items())
        if k not in self.denkey: self.denkey[k] = len(self.dens); self.dens.append(p)
        return self.denkey[k]
    def add(self, a, b, s=1):
        if not a.n and s == 1: return b
        if not b.n: return a
        if a.d == b.d: return RF(self.reduce(padd(a.n, b.n, s)), a.d)
        da, db = dict(a.d), dict(b.d); L = dict(da)
        for k, e in db.items(): L[k] = max(L.get(k, 0), e)
        na, nb = a.n, b.n
        for k, e in L.items():
            for _ in range(e - da.get(k, 0)): na = self.reduce(pmul(na, self.dens[k]))
            for _ in range(e - db.get(k, 0)): nb = self.reduce(pmul(nb, self.dens[k]))
        return RF(self.reduce(padd(na, nb, s)), tuple(sorted(L.items())))
    def mul(self, a, b):
        if not a.n or not b.n: return ZERO
        d = dict(a.d)
        for k, e in b.d: d[k] = d.get(k, 0) + e
        return self.cancel(RF(self.reduce(pmul(a.n, b.n)), tuple(sorted(d.items()))))
    def cancel(self, r):
        """cancel single-variable denominators against the content of the numerator"""
        if not r.d or not r.n: return r if r.n else ZERO
        c = mono_content(r.n); out = []; div = 0
        for k, e in r.d:
            p = self.dens[k]
            if len(p) == 1:
                (m, co), = p.items(); ex_ = exps(m)
                if co == 1 and len(ex_) == 1 and ex_[0][1] == 1:
                    i = ex_[0][0]; f = min((c >> (SH * i)) & MASK, e)
                    if f: c -= f << (SH * i); div += f << (SH * i); e -= f
            elif len(r.n) == len(p) and e and r.n == p: r = RF({0: 1}, r.d); e -= 1
            if e: out.append((k, e))
        n = {m - div: co for m, co in r.n.items()} if div else r.n
        return RF(n, tuple(out))
    def inv(self, a, term=None):
        if not a.n: raise Fail("division by zero")
        # 1/(n/d) = d/n ; n split into constant, monomial and rest
        n = {0: 1}
        for k, e in a.d:
            for _ in range(e): n = self.reduce(pmul(n, self.dens[k]))
        p = a.n; c = mono_content(p); d = {}
        rest = {m - c: co for m, co in p.items()}; lead = rest[max(rest)]
        n = {m: Fraction(co) / lead for m, co in n.items()}; rest = {m: Fraction(co) / lead for m, co in rest.items()}
        for i, e in exps(c): d[self.den({1 << (SH * i): 1})] = e
        if rest != {0: 1}: k = self.den(rest); d[k] = d.get(k, 0) + 1
        return self.cancel(RF(n, tuple(sorted(d.items()))))
    def eq(self, a, b):
        return not self.add(a, b, -1).n
    # ---- terms
    def nonzero(self, t):
        r = self.rf(t)
        if r.n and self.nz_poly(r.n): return
        if not self.prove(t != 0): raise Fail("denominator may be zero: %s" % str(t)[:80])
    def nz_poly(self, p):
        """p is a monomial in variables that are provably not zero"""
        if len(p) != 1: return False
        return all(self.names[i] is not None and self.prove(self.real(i) != 0) for i, _ in exps(next(iter(p))))
    def term(self, p):
        out = []
        for m, c in p.items():
            x = z3.RealVal(str(Fraction(c)))
            for i, e in exps(m):
                if self.names[i] is None: return None
                for _ in range(e): x = x * self.real(i)
            out.append(x)
        return z3.Sum(*out) if out else z3.RealVal(0)
    def rf(self, t):
        k = t.get_id()
        if k in self.memo: return self.memo[k]
        self.keep.append(t); r = self._rf(t); self.memo[k] = r
        return r
    def _rf(self, t):
        if z3.is_rational_value(t): return RF(pconst(Fraction(t.numerator_as_long(), t.denominator_as_long())))
        if z3.is_int_value(t): return RF(pconst(t.as_long()))
        if not z3.is_app(t): raise Fail("term")
        d = t.decl(); K = d.kind(); ch = t.children()
        if K == z3.Z3_OP_ADD:
            r = self.rf(ch[0])
            for c in ch[1:]: r = self.add(r, self.rf(c))
            return r
        if K == z3.Z3_OP_SUB:
            r = self.rf(ch[0])
            for c in ch[1:]: r = self.add(r, self.rf(c), -1)
            return r
        if K == z3.Z3_OP_UMINUS: r = self.rf(ch[0]); return RF({m: -c for m, c in r.n.items()}, r.d)
        if K == z3.Z3_OP_MUL:
            r = self.rf(ch[0])
            for c in ch[1:]: r = self.mul(r, self.rf(c))
            return r
        if K == z3.Z3_OP_DIV:
            self.nonzero(ch[1]); return self.mul(self.rf(ch[0]), self.inv(self.rf(ch[1])))
        if K == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) and ch[1].denominator_as_long() == 1 and 0 <= ch[1].numerator_as_long() <= 12:
            r = RF({0: 1}); b = self.rf(ch[0])
            for _ in range(ch[1].numerator_as_long()): r = self.mul(r, b)
            return r
        if K == z3.Z3_OP_TO_REAL: return self.rf(ch[0])
        if K == z3.Z3_OP_ITE: return self.ite(t)
        if K == z3.Z3_OP_UNINTERPRETED: return self.app(t, d, ch)
        # integer division and the like: an opaque value, identified up to provable equality
        return self.opaque(t)
    def opaque(self, t):
        reg = self.apps.setdefault(("op", t.decl().kind()), [])
        for l, r in self.intdefs:
            if l.decl().kind() == t.decl().kind() and (l.get_id() == t.get_id() or self.prove(l == t, 1500)): return self.rf(r)
        for u, v in reg:
            if self.prove(u == t): return v
        v = RF(self.vpoly(("t", t.get_id()), t)); reg.append((t, v)); return v
    def app(self, t, d, ch):
        df = self.defs.get(d.get_id())
        if df is not None:
            sub = list(zip(df[1].children(), ch))
            s = lambda x: z3.substitute(x, *sub) if sub else x
            if df[0] == "d": return self.rf(s(df[2]))
            a, b = s(df[2]), s(df[3])
            self.nonzero(b); return self.mul(self.rf(a), self.inv(self.rf(b)))
        if not ch: return RF(self.vpoly(("t", t.get_id()), t))
        if d.range() == z3.RealSort() and all(c.sort() == z3.RealSort() for c in ch):
            nm = d.name(); args = [self.rf(c) for c in ch]
            if nm == "sqrt": return self.sqrt(t, args[0])
            if nm in ("sin", "cos"):
                td = self.ctx.__dict__.get("trigdefs", {}).get(ch[0].decl().get_id()) if z3.is_app(ch[0]) else None
                if td is not None:
                    sub = list(zip(td[0].children(), ch[0].children())); x = td[1 if nm == "cos" else 2]
                    return self.rf(z3.substitute(x, *sub) if sub else x)
                if not args[0].n: return RF({0: 1}) if nm == "cos" else ZERO
                tds = self.ctx.__dict__.get("trigdefs", {})
                if z3.is_app(ch[0]) and ch[0].decl().kind() == z3.Z3_OP_ADD and any(z3.is_app(c) and c.decl().get_id() in tds for c in ch[0].children()):
                    # a sum with an addend whose sine and cosine are known: angle addition
                    cs = ch[0].children(); tr = lambda f, x: self.rf(f(x))
                    x, y = cs[0], cs[1] if len(cs) == 2 else z3.Sum(*cs[1:]); from .lib import F_COS, F_SIN
                    cx, sx, cy, sy = tr(F_COS, x), tr(F_SIN, x), tr(F_COS, y), tr(F_SIN, y)
                    if nm == "sin": return self.add(self.mul(sx, cy), self.mul(cx, sy))
                    return self.add(self.mul(cx, cy), self.mul(self.rf(z3.RealVal(-1)), self.mul(sx, sy)))
                # sin(-x) = -sin x, cos(-x) = cos x
                neg = RF({m: -c for m, c in args[0].n.items()}, args[0].d)
                for tt, aa, pair in self.trig.setdefault("all", []):
                    if self.eq(aa, args[0]): return pair[nm]
                    if self.eq(aa, neg): return pair[nm] if nm == "cos" else RF({m: -c for m, c in pair[nm].n.items()}, pair[nm].d)
                cv, sv = self.var(("cos", t.get_id()), t if nm == "cos" else None), self.var(("sin", t.get_id()), t if nm == "sin" else None)
                self.rules[cv] = {0: 1, 2 << (SH * sv): -1}
                pair = {"cos": RF({1 << (SH * cv): 1}), "sin": RF({1 << (SH * sv): 1})}
                self.trig["all"].append((t, args[0], pair)); return pair[nm]
            reg = self.apps.setdefault(d.get_id(), [])
            for u, aa, v in reg:
                if all(self.eq(x, y) for x, y in zip(aa, args)): return v
            v = RF(self.vpoly(("t", t.get_id()), t)); reg.append((t, args, v)); return v
        # array/vector elements: identified up to provable equality of the index arguments
        reg = self.apps.setdefault(d.get_id(), [])
        for u, v in reg:
            if all(x.get_id() == y.get_id() for x, y in zip(u.children(), ch)) or self.prove(z3.And(*[x == y for x, y in zip(u.children(), ch)])): return v
        v = RF(self.vpoly(("t", t.get_id()), t)); reg.append((t, v)); return v
    def whole(self, r):
        """r = N/D with polynomials N, D"""
        D = {0: 1}
        for k, e in r.d:
            for _ in range(e): D = self.reduce(pmul(D, self.dens[k]))
        return r.n, D
    def sqrt(self, t, x):
        if not x.n: return ZERO
        N, D = self.whole(x)
        if set(N) == {0} and D == {0: 1} and Fraction(N[0]) > 0:
            k = Fraction(N[0]); p, q = isqrt(k.numerator), isqrt(k.denominator)
            if p * p == k.numerator and q * q == k.denominator: return RF({0: Fraction(p, q)})
        for (u, y, v) in self.sqrts:
            if self.eq(x, y): return v
            yn, yd = self.whole(y)
            A, B = self.reduce(pmul(N, yd)), self.reduce(pmul(yn, D))
            ca, cb = mono_content(A), mono_content(B)
            A2 = {m - ca: c for m, c in A.items()}; B2 = {m - cb: c for m, c in B.items()}
            if len(A2) != len(B2) or A2.keys() != B2.keys(): continue
            m0 = max(A2); k = Fraction(A2[m0]) / Fraction(B2[m0])
            if k <= 0 or any(Fraction(c) != k * B2[m] for m, c in A2.items()): continue
            p, q = isqrt(k.numerator), isqrt(k.denominator)
            if p * p != k.numerator or q * q != k.denominator: continue
            ea, eb = dict(exps(ca)), dict(exps(cb)); num_, den_ = [], []
            ok = True
            for i in set(ea) | set(eb):
                e = ea.get(i, 0) - eb.get(i, 0)
                if e % 2: ok = False; break
                if e > 0: num_.append((i, e // 2))
                elif e < 0: den_.append((i, -e // 2))
            if not ok or any(self.names[i] is None for i, e in num_ + den_): continue
            prod = z3.RealVal(1); sg = 1
            for i, e in num_ + den_:
                if e % 2 == 0:
                    if (i, e) in den_ and not self.prove(self.real(i) != 0): ok = False
                    continue
                if self.prove(self.real(i) > 0): continue
                if self.prove(self.real(i) < 0): sg = -sg; continue
                ok = False; break
            if not ok: continue
            f = RF({sum(e << (SH * i) for i, e in num_): sg * Fraction(p, q)}, tuple(sorted((self.den({1 << (SH * i): 1}), e) for i, e in den_)))
            return self.mul(f, v)
        Dt = self.term(D); i = self.var(("sqrt", t.get_id()), t * Dt if Dt is not None else None)
        # sqrt(N/D) = s/D with s^2 = N D
        self.rules[i] = self.reduce(pmul(N, D))
        v = RF({1 << (SH * i): 1}) if D == {0: 1} else self.mul(RF({1 << (SH * i): 1}), self.inv(RF(D)))
        self.sqrts.append((t, x, v)); return v
    def real(self, i):
        t = self.names[i]; return z3.ToReal(t) if t.sort() == z3.IntSort() else t
    # ---- conditionals
    def cond(self, c):
        """-> list of (atom key, polarity) structure: returns a python predicate over an assignment and the atoms used"""
        if z3.is_true(c): return ("k", True)
        if z3.is_false(c): return ("k", False)
        K = c.decl().kind(); ch = c.children()
        if K == z3.Z3_OP_NOT: return ("not", self.cond(ch[0]))
        if K in (z3.Z3_OP_AND, z3.Z3_OP_OR): return ("and" if K == z3.Z3_OP_AND else "or", [self.cond(x) for x in ch])
        if K in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT) or (K in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and z3.is_arith(ch[0]) and len(ch) == 2):
            p = self.add(self.rf(ch[0]), self.rf(ch[1]), -1)
            N, D = self.whole(p)
            if D != {0: 1}:
                ks = 1
                for k, e in p.d:
                    q = self.dens[k]
                    if e % 2 == 0: continue
                    if len(q) == 1 and all(self.names[i] is not None for i, _ in exps(next(iter(q)))) and all(self.prove(self.real(i) > 0) for i, _ in exps(next(iter(q)))) and next(iter(q.values())) > 0: continue
                    raise Fail("sign of a denominator in a condition")
            if not N: s = 0
            elif set(N) == {0}: s = 1 if N[0] > 0 else -1
            else: s = None
            neg = {m: -x for m, x in N.items()}
            if K in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT):
                r = ("k", s == 0) if s is not None else ("not", ("or", [("lt", self.lt(N)), ("lt", self.lt(neg))]))
                return r if K == z3.Z3_OP_EQ else ("not", r)
            if s is not None: return ("k", {z3.Z3_OP_LE: s <= 0, z3.Z3_OP_LT: s < 0, z3.Z3_OP_GE: s >= 0, z3.Z3_OP_GT: s > 0}[K])
            if K == z3.Z3_OP_LT: return ("lt", self.lt(N))
            if K == z3.Z3_OP_GT: return ("lt", self.lt(neg))
            if K == z3.Z3_OP_LE: return ("not", ("lt", self.lt(neg)))
            return ("not", ("lt", self.lt(N)))
        return ("lt", self.boolatom(c))
    def lt(self, N):
        s = max(abs(Fraction(c)) for c in N.values())
        return ("p", frozenset((m, Fraction(c) / s) for m, c in N.items()))
    def boolatom(self, c): self.keep.append(c); return ("b", c.get_id())
    def atoms(self, c):
        if c[0] == "lt": return {c[1]}
        if c[0] == "not": return self.atoms(c[1])
        if c[0] in ("and", "or"): return set().union(*[self.atoms(x) for x in c[1]]) if c[1] else set()
        return set()
    def evalc(self, c, a):
        if c[0] == "k": return c[1]
        if c[0] == "lt": return a[c[1]]
        if c[0] == "not": return not self.evalc(c[1], a)
        return all(self.evalc(x, a) for x in c[1]) if c[0] == "and" else any(self.evalc(x, a) for x in c[1])
    def tree(self, t):
        """conditional term -> nested (cond, a, b) with rational-function leaves"""
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_TO_REAL: t = t.children()[0]
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
            c, a, b = t.children()
            if not has_fn(c):
                if self.prove(c, 250): return self.tree(a)
                if self.prove(z3.Not(c), 250): return self.tree(b)
            return ("if", self.cond(c), self.tree(a), self.tree(b))
        return ("leaf", self.rf(t))
    def ite(self, t):
        tr = self.tree(t)
        if tr[0] == "leaf": return tr[1]
        ats = set()
        def coll(x):
            if x[0] == "if": ats.update(self.atoms(x[1])); coll(x[2]); coll(x[3])
        coll(tr)
        ats = sorted(ats, key=lambda k: (k[0], sorted(k[1]) if k[0] == "p" else k[1]))
        if len(ats) > 6: raise Fail("too many conditions")
        neg = {}
        for k in ats:
            if k[0] == "p":
                o = ("p", frozenset((m, -c) for m, c in k[1]))
                if o in ats: neg[k] = o
        rows = []
        for bits in range(1 << len(ats)):
            a = {k: bool(bits >> i & 1) for i, k in enumerate(ats)}
            if any(a[k] and a[o] for k, o in neg.items()): continue
            x = tr
            while x[0] == "if": x = x[2] if self.evalc(x[1], a) else x[3]
            rows.append((a, x[1]))
        if all(self.eq(rows[0][1], r) for _, r in rows[1:]): return rows[0][1]
        for u, at2, rows2, v in self.ites:
            if at2 == ats and len(rows2) == len(rows) and all(self.eq(x[1], y[1]) for x, y in zip(rows, rows2)): return v
            if at2 == ats and len(rows2) == len(rows) and all(self.eq(x[1], RF({m: -c for m, c in y[1].n.items()}, y[1].d)) for x, y in zip(rows, rows2)): return RF({m: -c for m, c in v.n.items()}, v.d)
        for u, at2, rows2, v in self.ites:
            s = z3.Solver(); s.set("timeout", 400); s.add(z3.simplify(asreal(u) != asreal(t)))
            if s.check() == z3.unsat: return v
        v = RF(self.vpoly(("t", t.get_id()), t)); self.ites.append((t, ats, rows, v)); return v
    # ---- rules from facts
    def scan(self, facts):
        """unit-length facts  v1^2 + ... + vk^2 = 1  become rules"""
        self.intdefs = []
        for f in facts:
            for g in (f.children() if z3.is_and(f) else [f]):
                if z3.is_eq(g) and g.arg(0).sort() == z3.IntSort() and z3.is_app(g.arg(0)) and g.arg(0).decl().kind() in (z3.Z3_OP_MOD, z3.Z3_OP_IDIV): self.intdefs.append((g.arg(0), g.arg(1)))
            if not (z3.is_app(f) and f.decl().kind() == z3.Z3_OP_EQ and f.arg(0).sort() == z3.RealSort()): continue
            vs = squares(f.arg(0)) if is_one(f.arg(1)) else (squares(f.arg(1)) if is_one(f.arg(0)) else None)
            if not vs or len(vs) > 4: continue
            ids = []
            for v in vs:
                r = self.rf(v)
                if r.d or len(r.n) != 1 or list(r.n.values()) != [1]: ids = None; break
                e = exps(next(iter(r.n)))
                if len(e) != 1 or e[0][1] != 1: ids = None; break
                ids.append(e[0][0])
            if not ids or len(set(ids)) != len(ids): continue
            used = set(self.rules)
            if used & set(ids): continue
            lead = ids[0]; rhs = {0: 1}
            for i in ids[1:]: rhs[2 << (SH * i)] = -1
            self.rules[lead] = rhs
def has_fn(c):
    """the condition depends on a transcendental function (then it is not decided by the facts)"""
    st = [c]; seen = set()
    while st:
        t = st.pop()
        if t.get_id() in seen: continue
        seen.add(t.get_id())
        if z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() and t.decl().name() in ("sin", "cos", "pow", "sqrt", "atan2", "acos"): return True
            st += t.children()
    return False
def asreal(t): return z3.ToReal(t) if t.sort() == z3.IntSort() else t
def is_one(t): return z3.is_rational_value(t) and t.numerator_as_long() == 1 and t.denominator_as_long() == 1
def squares(t):
    if not z3.is_app(t): return None
    ts = t.children() if t.decl().kind() == z3.Z3_OP_ADD else [t]
    flat = []
    while ts:
        x = ts.pop(0)
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ADD: ts = x.children() + ts
        else: flat.append(x)
    out = []
    for x in flat:
        if not z3.is_app(x): return None
        if x.decl().kind() == z3.Z3_OP_MUL and x.num_args() == 2 and x.arg(0).get_id() == x.arg(1).get_id(): out.append(x.arg(0))
        elif x.decl().kind() == z3.Z3_OP_POWER and z3.is_rational_value(x.arg(1)) and x.arg(1).numerator_as_long() == 2: out.append(x.arg(0))
        else: return None
    return out
def prove_eq(ctx, facts, goal, prove):
    """True iff goal (an equality of reals, or a conjunction) is an identity"""
    a = Alg(ctx, prove)
    a.scan(facts)
    for t in ctx.__dict__.get("alg_seed", []): a.rf(t)
    gs = [goal]; 
    while gs:
        g = gs.pop()
        if z3.is_and(g): gs += list(g.children()); continue
        if z3.is_distinct(g) or (z3.is_not(g) and z3.is_eq(g.arg(0))):
            e = g if z3.is_distinct(g) else g.arg(0)
            r = a.add(a.rf(e.arg(0)), a.rf(e.arg(1)), -1)
            if not r.n or not a.nz_poly(r.n): return False
            continue
        if z3.is_true(g): continue
        if z3.is_app(g) and g.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT):
            c = a.cond(g)
            if c == ("k", True): continue
            return False
        if not (z3.is_app(g) and g.decl().kind() == z3.Z3_OP_EQ and z3.is_arith(g.arg(0))): raise Fail("not an equality")
        l, r = a.rf(g.arg(0)), a.rf(g.arg(1))
        if not a.eq(l, r): return False
    return True
