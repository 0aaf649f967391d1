"""Discharging obligations: ground instantiation of the schemas, then z3 (several tactics) and cvc5."""
import itertools, z3, time, subprocess, tempfile, os
from .vals import *
from .ctx import *

# axioms of function symbols: instantiated for every ground occurrence
def ax_sqrt(t):
    x = t.arg(0); return [z3.Implies(x >= 0, z3.And(t >= 0, t * t == x)), z3.Implies(x > 0, t > 0), z3.Implies(x == 0, t == 0)]
def ax_trig(t):
    x = t.arg(0); s, c = z3.Function("sin", z3.RealSort(), z3.RealSort()), z3.Function("cos", z3.RealSort(), z3.RealSort())
    return [s(x) * s(x) + c(x) * c(x) == 1, s(x) <= 1, s(x) >= -1, c(x) <= 1, c(x) >= -1, z3.Implies(x == 0, z3.And(s(x) == 0, c(x) == 1))]
def ax_exp(t): return [t > 0]
def ax_pow(t):
    b, e = t.arg(0), t.arg(1)
    return [z3.Implies(b > 0, t > 0), z3.Implies(z3.And(b == 0, e > 0), t == 0), z3.Implies(b == 1, t == 1), z3.Implies(b >= 0, t >= 0)]
def ax_acos(t):
    x = t.arg(0); s, c = z3.Function("sin", z3.RealSort(), z3.RealSort()), z3.Function("cos", z3.RealSort(), z3.RealSort())
    return [z3.Implies(z3.And(x >= -1, x <= 1), z3.And(c(t) == x, s(t) >= 0, t >= 0, t <= z3.RealVal("3.1415926536"))), z3.Implies(x == 1, t == 0),
            z3.Implies(z3.And(x >= -1, x < 1), t > 0), z3.Implies(z3.And(x > -1, x < 1), s(t) > 0)]
def ax_atan2(t):
    y, x = t.arg(0), t.arg(1); s, c = z3.Function("sin", z3.RealSort(), z3.RealSort()), z3.Function("cos", z3.RealSort(), z3.RealSort())
    rr = z3.Function("sqrt", z3.RealSort(), z3.RealSort())(y * y + x * x)
    return [c(t) * rr == x, s(t) * rr == y]
DECL_AX = {"sqrt": ax_sqrt, "sin": ax_trig, "cos": ax_trig, "exp": ax_exp, "pow": ax_pow, "acos": ax_acos, "atan2": ax_atan2}

class Inst:
    """incremental ground instantiation"""
    def __init__(self, ctx, max_inst=4000, rounds=6):
        self.ctx = ctx; self.seen = set(); self.apps = {}; self.new = []; self.out = []; self.done = set(); self.max = max_inst; self.rounds = rounds
        self.terms = set(); self.cn = {}; self.blk = {}
        self.keep = []
    def scan(self, f):
        st = [f]
        while st:
            x = st.pop(); i = x.get_id()
            if i in self.seen: continue
            self.seen.add(i); self.keep.append(x)
            if is_uf_app(x):
                self.apps.setdefault(x.decl().get_id(), []).append(x); self.new.append(x)
            if z3.is_app(x): st.extend(x.children())
    def canon(self, t):
        """normalise integer arguments of applications (1 + i - 1 becomes i): fewer, shared ground terms"""
        C = self.cn; i = t.get_id()
        r = C.get(i)
        if r is not None: return r[0]
        if not z3.is_app(t) or t.num_args() == 0: r = t
        else:
            ch = t.children(); n = [self.canon(c) for c in ch]
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                n = [z3.simplify(c, som=True) if z3.is_int(c) and z3.is_app(c) and c.num_args() else c for c in n]
            if all(a.eq(b) for a, b in zip(ch, n)): r = t
            else:
                k = t.decl().kind()
                r = (z3.And(*n) if k == z3.Z3_OP_AND else z3.Or(*n) if k == z3.Z3_OP_OR else z3.Sum(*n) if k == z3.Z3_OP_ADD and len(n) > 2 else t.decl()(*n))
        C[i] = (r, t)
        return r
    def add(self, f, block=None):
        f = self.canon(f)
        i = f.get_id()
        if i in self.done: return
        self.done.add(i); self.keep.append(f); self.out.append(f)
        if block is None: self.scan(f)
        else:
            n = len(self.new); self.scan(f)
            for t in self.new[n:]: self.blk.setdefault(t.get_id(), block)
    def match_pat(self, ids, p, t, b):
        for k in range(p.num_args()):
            a = p.arg(k); av = arg_var(a, ids)
            if av is None:
                if has_var(a, ids):
                    continue
                if not a.eq(t.arg(k)): 
                    continue_ok = z3.is_int_value(a) is False
                    if not continue_ok and z3.is_int_value(t.arg(k)): return None
                continue
            vid, c = av
            val = t.arg(k) if c == 0 else z3.simplify(t.arg(k) - c, som=True)
            if vid in b:
                if not b[vid].eq(val): return None
            else:
                b = dict(b); b[vid] = val
        return b
    def run(self, schemas, rounds=None):
        """instantiation rounds; resumable.  Returns False when saturated or the instance limit is reached"""
        n0 = self.__dict__.setdefault("n0", 0)
        inst_keys = self.__dict__.setdefault("keys", set())
        for rnd in range(self.rounds if rounds is None else rounds):
            news = self.new; self.new = []
            if not news: return False
            newids = set(t.get_id() for t in news)
            for t in news:
                ax = DECL_AX.get(t.decl().name())
                if ax:
                    for f in ax(t): self.add(z3.simplify(f) if False else f)
            bydecl = {}
            for t in news: bydecl.setdefault(t.decl().get_id(), []).append(t)
            names = set(ts[0].decl().name() for ts in self.apps.values() if ts)
            for si, s in enumerate(schemas):
                if s.defines is not None and not (s.defines & names): continue
                ids = {v.get_id() for v in s.vs}
                for mp in s.patterns():
                    if not any(p.decl().get_id() in bydecl for p in mp): continue
                    binds = [({}, False)]
                    for p in mp:
                        nb = []
                        for t in self.apps.get(p.decl().get_id(), []):
                            isnew = t.get_id() in newids
                            for b, fl in binds:
                                m = self.match_pat(ids, p, t, b)
                                if m is not None: nb.append((m, fl or isnew))
                        binds = nb
                        if not binds: break
                    for b, fl in binds:
                        if not fl or len(b) != len(s.vs): continue
                        if too_deep(mp, b): continue
                        key = (si, tuple(sorted((k, v.get_id()) for k, v in b.items())))
                        if key in inst_keys: continue
                        inst_keys.add(key)
                        self.keep.extend(b.values())
                        self.n0 += 1
                        if self.n0 > self.max: return False
                        if s.norec and any(self.blk.get(t.get_id()) == si for t in self.apps.get(mp[0].decl().get_id(), []) if self.match_pat(ids, mp[0], t, {}) == b): continue
                        body = z3.substitute(s.body, *[(v, b[v.get_id()]) for v in s.vs])
                        self.add(body, si if s.norec else None)
        return True
_cnt = {}
def count_decl(t, did):
    """maximal nesting of applications of a function symbol in t"""
    key = (t.get_id(), did)
    if key in _cnt: return _cnt[key][0]
    m = 0
    if z3.is_app(t):
        for c in t.children(): m = max(m, count_decl(c, did))
        if t.num_args() and t.decl().get_id() == did: m += 1
    _cnt[key] = (m, t)
    return m
def too_deep(mp, b):
    for p in mp:
        d = p.decl().get_id()
        for v in b.values():
            if count_decl(v, d) >= 2: return True
    return False
def has_var(t, ids):
    st = [t]; seen = set()
    while st:
        x = st.pop(); i = x.get_id()
        if i in ids: return True
        if i in seen: continue
        seen.add(i); st.extend(x.children())
    return False

def symbols(t): return consts_of(t)
_symc = {}
def syms(t):
    i = t.get_id()
    if i not in _symc: _symc[i] = (frozenset(consts_of(t)), t)
    return _symc[i][0]
COMMON = {"sqrt", "sin", "cos", "pow", "acos", "atan2", "exp", "log", "tan"}
def relevant(facts, goals):
    """cone of influence: facts connected to the goal through shared symbols (sound: drops hypotheses only)"""
    S = set()
    for g in goals: S |= syms(g)
    S -= COMMON
    rest = list(facts); out = []
    changed = True
    while changed:
        changed = False; nr = []
        for f in rest:
            fs = syms(f)
            if fs - COMMON and not (fs & S): nr.append(f); continue
            out.append(f); 
            if not (fs <= S): S |= (fs - COMMON); changed = True
        rest = nr
    return out

def nonlinear(t, seen=None):
    st = [t]; seen = set()
    while st:
        x = st.pop(); i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_app(x):
            k = x.decl().kind()
            if k == z3.Z3_OP_MUL and sum(1 for c in x.children() if not z3.is_rational_value(c) and not z3.is_int_value(c)) > 1: return True
            if k == z3.Z3_OP_DIV and not z3.is_rational_value(x.arg(1)): return True
            st.extend(x.children())
    return False

QUICK_MS = 150
def consts_cached(ctx, g):
    c = ctx.__dict__.setdefault("_cc", {}); r = c.get(g.get_id())
    if r is None: r = (frozenset(consts_of(g)), g); c[g.get_id()] = r
    return r[0]
def quick_prove(ctx, pc, f):
    key = (f.get_id(), tuple(zb(p).get_id() for p in pc), len(ctx.facts))
    c = ctx._qc.get(key)
    if c is not None: return c[0]
    t0 = time.time(); ctx.quick_calls += 1
    hyps = [zb(p) for p in pc]
    # first from the facts about the same constants only
    syms = consts_of(f)
    near = [g for g in ctx.facts if consts_cached(ctx, g) <= syms]
    s = z3.Solver(); s.set("timeout", 100); s.add(z3.Not(f), *near)
    if s.check() == z3.unsat:
        ctx._qc[key] = (True, f, pc); ctx.quick_time += time.time() - t0
        return True
    fs = in_scope(ctx, ctx.facts, hyps + [f])
    fs = relevant(fs, hyps + [f]) if len(fs) > 20 else list(fs)
    ins = Inst(ctx, 300, 3)
    for h in hyps + [z3.Not(f)] + fs: ins.add(h)
    ins.run(in_scope(ctx, ctx.schemas, hyps + [f], lambda s: s.body))
    s = z3.SolverFor("QF_UFNIRA") if False else z3.Solver()
    s.set("timeout", QUICK_MS)
    s.add(*ins.out)
    r = s.check() == z3.unsat
    ctx._qc[key] = (r, f, pc)
    ctx.quick_time += time.time() - t0
    return r

def polyzero(a):
    r = z3.simplify(a, som=True, sort_sums=True, hoist_mul=False, max_degree=64) if False else z3.simplify(a, som=True)
    return z3.is_rational_value(r) and r.as_fraction() == 0
def ring(goal):
    """polynomial identity by normalisation"""
    if z3.is_and(goal): return all(ring(c) for c in goal.children())
    if z3.is_eq(goal) and z3.is_arith(goal.arg(0)): return polyzero(goal.arg(0) - goal.arg(1))
    return False

def purify(fs):
    """replace every maximal uninterpreted application / constant by a fresh constant, dropping congruence
    (sound for unsat answers): gives a pure (non)linear arithmetic problem"""
    cache = {}; keep = []
    def go(t):
        i = t.get_id()
        if i in cache: return cache[i]
        if is_uf_app(t): r = z3.Const("pz!%d" % len(cache), t.sort())
        elif z3.is_app(t) and t.num_args():
            ch = [go(c) for c in t.children()]
            r = t.decl()(*ch) if any(not a.eq(b) for a, b in zip(ch, t.children())) else t
        else: r = t
        cache[i] = r; keep.append(t)
        return r
    return [go(f) for f in fs]

def check(fs, ms, how="smt"):
    if how == "smt": s = z3.Solver()
    elif how == "nlsat": s = z3.Then("simplify", "solve-eqs", "purify-arith", "elim-term-ite", "solve-eqs", "smt").solver() if False else z3.SolverFor("QF_NRA")
    elif how == "nra":
        s = z3.SolverFor("QF_NRA")
    s.set("timeout", ms)
    s.add(*fs)
    r = s.check()
    return r, (s.model() if r == z3.sat else None)

def cvc5_check(fs, ms):
    s = z3.Solver(); s.add(*fs)
    txt = "(set-logic ALL)\n" + s.sexpr() + "\n(check-sat)\n"
    fd, p = tempfile.mkstemp(suffix=".smt2"); os.write(fd, txt.encode()); os.close(fd)
    try:
        r = subprocess.run(["cvc5", "--tlimit=%d" % ms, "--nl-cov", p], capture_output=True, text=True, timeout=ms / 1000 + 5)
        return r.stdout.strip().split("\n")[0] if r.stdout else "unknown"
    except subprocess.TimeoutExpired: return "unknown"
    finally: os.unlink(p)

# ---- propagation of unit facts and splitting over the integer conditions of conditional terms
def is_int_atom(a):
    """comparison of integer terms without real sub-terms, or a boolean constant/application"""
    if not z3.is_bool(a): return False
    if is_uf_app(a) or z3.is_const(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED: return True
    if z3.is_app(a) and a.num_args() == 2 and a.decl().kind() in (z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_DISTINCT): return z3.is_int(a.arg(0))
    return False
def norm(f): return z3.simplify(f, som=True, arith_lhs=True)
def flat(fs):
    out = []; st = list(fs)[::-1]
    while st:
        f = st.pop()
        if z3.is_and(f): st.extend(f.children()[::-1])
        elif z3.is_not(f) and z3.is_or(f.arg(0)): st.extend(z3.Not(c) for c in f.arg(0).children()[::-1])
        elif z3.is_not(f) and z3.is_not(f.arg(0)): st.append(f.arg(0).arg(0))
        elif z3.is_not(f) and z3.is_implies(f.arg(0)): st.extend([z3.Not(f.arg(0).arg(1)), f.arg(0).arg(0)])
        elif z3.is_true(f): pass
        else: out.append(f)
    return out
def atoms_of(fs):
    """integer atoms in non-unit position with a weight (occurrences as conditions of real-valued conditionals count most)"""
    w = {}; seen = set(); st = list(fs)
    while st:
        x = st.pop(); i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE and not z3.is_bool(x):
            for a in bool_atoms(x.arg(0)):
                k = a.get_id(); w.setdefault(k, [a, 0]); w[k][1] += 10 if is_int_atom(a) else 3
        elif z3.is_bool(x) and is_int_atom(x):
            k = x.get_id(); w.setdefault(k, [x, 0]); w[k][1] += 1
        st.extend(x.children())
    return w
def bool_atoms(c):
    if z3.is_app(c) and c.decl().kind() in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT) : return [a for x in c.children() for a in bool_atoms(x)]
    return [c]
def propagate(fs, t_end):
    """equivalent set of facts with decided atoms replaced; None when contradictory"""
    fs = [norm(f) for f in fs]; kept = {}
    for rnd in range(14):
        fs = flat(fs); seen = set(); u = []
        for f in fs:
            if f.get_id() not in seen: seen.add(f.get_id()); u.append(f)
        fs = u
        if any(z3.is_false(f) for f in fs): return None
        if time.time() > t_end: return fs
        # integer equalities: eliminate a constant
        sub = None
        for n, f in enumerate(fs):
            if z3.is_eq(f) and z3.is_int(f.arg(0)):
                a, b = f.arg(0), f.arg(1); r = solve_int_eq(a, b)
                if r is not None and z3.is_const(r[0]): sub = (n, r); break
                if r is not None and f.get_id() not in kept and any(occurs(g, r[0]) for i, g in enumerate(fs) if i != n): sub = (n, r); kept[f.get_id()] = f; break
        if sub is not None:
            n, (x, t) = sub
            fs = [norm(z3.substitute(f, (x, t))) if i != n else f for i, f in enumerate(fs)]
            # keep the definition out of further rounds by marking it solved
            if z3.is_const(x): fs = fs[:n] + fs[n + 1:]
            continue
        units = {}
        for f in fs:
            if z3.is_not(f) and bool_unit(f.arg(0)): units[f.arg(0).get_id()] = (f.arg(0), z3.BoolVal(False))
            elif bool_unit(f): units[f.get_id()] = (f, z3.BoolVal(True))
        ats = [a for a, _ in atoms_of([f for f in fs if not (f.get_id() in units or z3.is_not(f) and f.arg(0).get_id() in units)]).values() if is_int_atom(a) and a.get_id() not in units]
        ints = [f for f in fs if bool_unit(f) and is_int_atom(f) or z3.is_not(f) and is_int_atom(f.arg(0))]
        pairs = [p for p in units.values()]
        if ats and (ints or rnd > 2):
            s = z3.Solver(); s.set("timeout", 60); s.add(*ints)
            if s.check() == z3.unsat: return None
            for a in ats[:60]:
                if time.time() > t_end: break
                s.push(); s.add(z3.Not(a)); r = s.check(); s.pop()
                if r == z3.unsat: pairs.append((a, z3.BoolVal(True))); continue
                s.push(); s.add(a); r = s.check(); s.pop()
                if r == z3.unsat: pairs.append((a, z3.BoolVal(False)))
        if not pairs or not any(contains(f, [p[0] for p in pairs]) for f in fs if not (f.get_id() in units or z3.is_not(f) and f.arg(0).get_id() in units)):
            r = lin_step(fs, ats, t_end, kept)
            if r == "unsat": return None
            if r:
                fs = [norm(z3.substitute(f, *r)) if f.get_id() not in kept else f for f in fs] + [norm(a if z3.is_true(b) else z3.Not(a)) for a, b in r if z3.is_bool(a)]
                continue
        new = []; ch = False
        for f in fs:
            if f.get_id() in units or z3.is_not(f) and f.arg(0).get_id() in units: new.append(f); continue
            g = z3.substitute(f, *pairs) if pairs else f
            if not g.eq(f): ch = True; g = norm(g)
            new.append(g)
        fs = new
        if not ch: break
    fs = flat(fs)
    return None if any(z3.is_false(f) for f in fs) else fs
def contains(t, xs):
    ids = set(x.get_id() for x in xs); st = [t]; seen = set()
    while st:
        x = st.pop(); i = x.get_id()
        if i in ids: return True
        if i in seen: continue
        seen.add(i); st.extend(x.children())
    return False
def linearise(fs):
    """non-linear products as opaque constants (a weakening): congruence and linear arithmetic only"""
    cache = {}; keep = []
    def go(t):
        i = t.get_id()
        if i in cache: return cache[i]
        r = t
        if z3.is_app(t) and t.num_args():
            k = t.decl().kind()
            if (k == z3.Z3_OP_MUL and sum(1 for c in t.children() if not z3.is_rational_value(c) and not z3.is_int_value(c)) > 1) or k == z3.Z3_OP_POWER or (k == z3.Z3_OP_DIV and not z3.is_rational_value(t.arg(1))):
                r = z3.Const("nl!%d" % i, t.sort())
            else:
                ch = [go(c) for c in t.children()]
                if any(not a.eq(b) for a, b in zip(ch, t.children())):
                    r = z3.And(*ch) if k == z3.Z3_OP_AND else z3.Or(*ch) if k == z3.Z3_OP_OR else z3.Sum(*ch) if k == z3.Z3_OP_ADD and len(ch) > 2 else t.decl()(*ch)
        cache[i] = r; keep.append(t)
        return r
    return [go(f) for f in fs]
def index_terms(fs):
    out = {}; seen = set(); st = list(fs)
    while st:
        x = st.pop(); i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if is_uf_app(x):
            for c in x.children():
                if z3.is_int(c): out[c.get_id()] = c
        st.extend(x.children())
    return list(out.values())
def lin_step(fs, ats, t_end, kept):
    """consequences in linear arithmetic with congruence: contradiction, an entailed equality of index terms, decided integer atoms"""
    if len(fs) > 400 or time.time() > t_end: return None
    s = z3.Solver(); s.set("timeout", 400); s.add(*linearise(fs))
    r = s.check()
    if r == z3.unsat: return "unsat"
    if r != z3.sat: return None
    m = s.model(); s.set("timeout", 150)
    ix = index_terms(fs)
    val = [(t, m.eval(t, model_completion=True)) for t in ix]
    n = 0; eqs = []; used = set()
    for t, v in val:
        if not is_uf_app(t) or t.get_id() in used: continue
        for u, w in val:
            if u is t or not v.eq(w) or contains(u, [t]): continue
            key = ("eq", t.get_id(), u.get_id())
            if key in kept: continue
            kept[key] = (t, u); n += 1
            if n > 25 or time.time() > t_end: break
            s.push(); s.add(t != u); q = s.check(); s.pop()
            if q == z3.unsat: eqs.append((t, u)); used.add(u.get_id()); used.add(t.get_id()); break
    if eqs: return eqs
    out = []
    for a in ats[:40]:
        if time.time() > t_end: break
        if ("at", a.get_id()) in kept: continue
        b = linearise([a])[0]
        mv = m.eval(b, model_completion=True)
        s.push(); s.add(z3.Not(b) if z3.is_true(mv) else b); q = s.check(); s.pop()
        if q == z3.unsat: kept[("at", a.get_id())] = a; out.append((a, z3.BoolVal(z3.is_true(mv))))
    return out
def bool_unit(f):
    return z3.is_app(f) and f.decl().kind() not in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_ITE, z3.Z3_OP_TRUE, z3.Z3_OP_FALSE) and not (z3.is_eq(f) and z3.is_bool(f.arg(0)))
def solve_int_eq(a, b):
    """x == t with x an integer constant not occurring in t"""
    e = z3.simplify(a - b, som=True)
    terms = e.children() if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ADD else [e]
    for t in terms:
        c, x = 1, t
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_MUL and t.num_args() == 2 and z3.is_int_value(t.arg(0)): c, x = t.arg(0).as_long(), t.arg(1)
        if c in (1, -1) and z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            rest = [y for y in terms if y is not t]
            if any(occurs(y, x) for y in rest): continue
            r = z3.Sum(*rest) if len(rest) > 1 else (rest[0] if rest else z3.IntVal(0))
            return x, z3.simplify(-r if c == 1 else r, som=True)
    return None
def ms_left(t_end, ms): return max(1, min(ms, int((t_end - time.time()) * 1000)))
def split_prove(fs, t_end, depth=6):
    if time.time() > t_end: return False
    fs = propagate(fs, t_end)
    if fs is None: return True
    r, _ = check(fs, ms_left(t_end, 250))
    if r == z3.unsat: return True
    if r == z3.sat: return False
    r, _ = check(purify(fs), ms_left(t_end, 500), "nlsat")
    if r == z3.unsat: return True
    ats = []
    if depth:
        w = atoms_of(fs)
        # conditions inside negated equations (usually the negated goal) come first
        for k, v in atoms_of([f for f in fs if z3.is_not(f) and z3.is_eq(f.arg(0)) and nonlinear(f)]).items():
            if k in w and is_int_atom(v[0]): w[k][1] += 1000
        ats = sorted([v for v in w.values() if v[1] >= 3], key=lambda v: -v[1])
    if not ats:
        if time.time() > t_end: return False
        r, _ = check(purify(fs), ms_left(t_end, 4000), "nlsat")
        if r == z3.unsat: return True
        r, _ = check(fs, ms_left(t_end, 2000))
        return r == z3.unsat
    a = ats[0][0]
    return split_prove(fs + [a], t_end, depth - 1) and split_prove(fs + [z3.Not(a)], t_end, depth - 1)

def split_goal(g):
    if z3.is_and(g): return [x for c in g.children() for x in split_goal(c)]
    if z3.is_implies(g): return [z3.Implies(g.arg(0), x) for x in split_goal(g.arg(1))]
    return [g]

def inst_of(ctx, o, goal, max_inst=4000, rel=True):
    facts = ctx.facts[:o.nf]
    seed = list(o.pc) + [goal]
    if z3.is_false(goal): rel = False
    facts = in_scope(ctx, no_stale(ctx, facts, seed), seed)
    fs = relevant(facts, seed) if rel else facts
    ins = Inst(ctx, max_inst)
    for h in list(o.pc) + [z3.Not(goal)] + fs: ins.add(h)
    for n, sc in ctx.exit_schemas:
        if n >= o.ns: continue
        for i in exit_insts(ctx, sc, seed): ins.add(i)
    for S in [S for _, S in ctx.__dict__.get("sums", [])]:
        if S.params: continue
        for h in ctx.hints: ins.scan(S(h))
    return ins

def exit_insts(ctx, sc, seed):
    """instances of a no-early-exit schema at the witnesses and the goal's own index constants"""
    hs = ctx.hints + ctx.skolems
    if len(sc.vs) > 1:
        hs = ctx.hints + [h for h in ctx.skolems if any(occurs(x, h) for x in seed)]
        if len(hs) ** len(sc.vs) > 64: return
    for c in itertools.product(hs, repeat=len(sc.vs)): yield z3.substitute(sc.body, *zip(sc.vs, c))
def in_scope(ctx, facts, seed, body=lambda f: f):
    """drop facts about goal quantifier constants (U.forall) that the goal does not mention, directly or through ghost constants:
    a range that may be empty must not make the other obligations vacuous"""
    sk = ctx.scoped
    if not sk: return facts
    dep = {i: {i} for i in sk}
    defs = ctx.__dict__.get("defs", []); quots = list(ctx.__dict__.get("quots", {}).values())
    sc = ctx.__dict__.setdefault("_scope", {})
    def deps(t):
        key = (t.get_id(), len(sk), len(defs), len(quots)); c = sc.get(key)
        if c is not None: return c[0]
        out = set(); st = [t]; seen = set()
        while st:
            x = st.pop(); i = x.get_id()
            if i in seen: continue
            seen.add(i)
            if i in dep: out |= dep[i]
            st.extend(x.children())
        sc[key] = (out, t); return out
    for g, t in sorted([(g, [t]) for g, t in defs] + [(q, [a, b]) for _, q, a, b in quots if z3.is_const(q)], key=lambda gt: decl_no(gt[0])):
        d = set().union(*[deps(t) for t in t])
        if d: dep[g.get_id()] = d
    used = set()
    for g in seed: used |= deps(zb(g))
    return facts if len(used) == len(sk) else [f for f in facts if deps(body(f)) <= used]
_freec = {}
def free_ids(t, ids):
    """ids of the given constants occurring in t"""
    key = t.get_id()
    c = _freec.get(key)
    if c is not None and c[1] == len(ids): return c[0]
    out = set(); st = [t]; seen = set()
    while st:
        x = st.pop(); i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if i in ids: out.add(i)
        st.extend(x.children())
    _freec[key] = (out, len(ids), t)
    return out
def no_stale(ctx, facts, seed):
    """drop facts about a generic iteration the goal does not mention (their universal versions remain available as schemas)"""
    ids = ctx.all_params
    if not ids: return facts
    used = set()
    for g in seed: used |= free_ids(zb(g), ids)
    if len(used) == len(ids): return facts
    return [f for f in facts if free_ids(f, ids) <= used]
def no_stale_schemas(ctx, schemas, seed):
    schemas = in_scope(ctx, schemas, seed, lambda s: s.body)
    ids = ctx.all_params
    if not ids: return schemas
    used = set()
    for g in seed: used |= free_ids(zb(g), ids)
    return [s for s in schemas if free_ids(s.body, ids) - {v.get_id() for v in s.vs} <= used]
def newest(ctx, f, bound=()):
    """(symbols of f, its most recently created ghost symbols): a fact is first taken to be about the latter"""
    c = ctx.__dict__.setdefault("_nw", {}); r = c.get(f.get_id())
    if r is None:
        b = set(v.decl().name() for v in bound)
        ss = frozenset(x for x in consts_of(f) if x not in b); n = max([no_of(x) for x in ss], default=-1)
        r = (ss, frozenset(x for x in ss if no_of(x) == n) if n >= 0 else ss, f); c[f.get_id()] = r
    return r[0], r[1]
def no_of(x):
    if "!" in x:
        try: return int(x.rsplit("!", 1)[1])
        except ValueError: return -1
    return -1
def def_cone(ctx, facts, schemas, seed):
    """the facts and schemas whose newest symbol is (transitively) mentioned: leaves out the ghosts of unrelated loop leaves"""
    syms = set()
    for g in seed: syms |= consts_of(zb(g))
    items = [(f, newest(ctx, f)) for f in facts] + [(s, newest(ctx, s.body, s.vs)) for s in schemas]
    out = set(); work = True
    while work:
        work = False
        for n, (x, (ss, nw)) in enumerate(items):
            if n in out: continue
            if nw & syms or not ss: out.add(n); syms |= ss; work = True
    return [items[n][0] for n in range(len(facts)) if n in out], [items[n][0] for n in range(len(facts), len(items)) if n in out]
def prove_one(ctx, o, goal, budget=20000):
    n = len(ctx.facts[:o.nf]) + len(ctx.schemas[:o.ns]); big = n > 600
    if big and not z3.is_true(z3.simplify(goal)):
        r = prove_one_(ctx, o, goal, budget / 2, cone=True)
        if r[0] == "proved": return r
    r = prove_one_(ctx, o, goal, budget)
    if r[0] in ("sat", "unknown") and n > 150 and not big:
        r2 = prove_one_(ctx, o, goal, budget / 2, cone=True)
        if r2[0] == "proved": return r2
    if r[0] == "sat":       # once more with every fact (the cone of influence is computed before the schemas are instantiated)
        r2 = prove_one_(ctx, o, goal, budget, False, 12000)
        if r2[0] in ("proved", "sat"): return r2
    return r
def prove_one_(ctx, o, goal, budget=20000, rel=True, limit=4000, cone=False):
    """returns (status, backend, model): status in proved / sat / unknown"""
    g = z3.simplify(goal)
    if z3.is_true(g): return "proved", "simplify", None
    if ring(goal): return "proved", "ring", None
    t_end = time.time() + budget / 1000
    schemas = no_stale_schemas(ctx, ctx.schemas[:o.ns], list(o.pc) + [goal])
    if cone:
        seed = list(o.pc) + [goal]; fs, schemas = def_cone(ctx, in_scope(ctx, no_stale(ctx, ctx.facts[:o.nf], seed), seed), schemas, seed)
        ins = Inst(ctx, limit)
        for h in list(o.pc) + [z3.Not(goal)] + fs: ins.add(h)
        ok = set(id(s) for s in schemas)
        for n, sc in ctx.exit_schemas:
            if n < o.ns and id(sc) in ok:
                for i in exit_insts(ctx, sc, seed): ins.add(i)
        for S in [S for _, S in ctx.__dict__.get("sums", [])]:
            if not S.params:
                for h in ctx.hints: ins.scan(S(h))
    else: ins = inst_of(ctx, o, goal, limit, rel=rel)
    more = True; last = -1; model = None; st = "unknown"; late = False; tried = False; small = None
    # cheap attempts first: few instantiation rounds
    for rnd in range(6):
        more = ins.run(schemas, 1)
        if len(ins.out) == last and rnd: continue
        last = len(ins.out)
        if rnd == 0 and more: continue
        if time.time() > t_end: late = True; break
        r, m = check(ins.out, 600 if more else 2500)
        if r == z3.unsat: return "proved", "z3", None
        st, model = ("sat", m) if r == z3.sat else ("unknown", None)
        if r != z3.sat and more and len(ins.out) < 700 and not tried and any(nonlinear(f) for f in list(o.pc) + [goal]) and rnd:
            tried = True; small = list(ins.out)
            if split_prove(list(ins.out), time.time() + 5): return "proved", "z3-split", None
        if not more: break
        if time.time() > t_end: late = True; break
    if st == "sat" and not late: return "sat", "z3", model
    fs = ins.out
    nl = any(nonlinear(f) for f in fs)
    plan = [("nlsat", 1500), ("split", 25000), ("smt", 5000), ("cvc5", 6000), ("nlsat", 15000), ("smt", 15000)] if nl else [("smt", 6000), ("split", 5000), ("cvc5", 8000)]
    for how, ms in plan:
        left = int((t_end - time.time()) * 1000)
        if left <= 100: break
        ms = min(ms, left)
        if how == "smt":
            r, m = check(fs, ms)
            if r == z3.unsat: return "proved", "z3", None
            if r == z3.sat and not late: return "sat", "z3", m
        elif how == "split":
            if split_prove(small or fs, time.time() + ms / 1000): return "proved", "z3-split", None
        elif how == "nlsat":
            r, m = check(purify(fs), ms, "nlsat")
            if r == z3.unsat: return "proved", "z3-nlsat", None
        else:
            r = cvc5_check(fs, ms)
            if r == "unsat": return "proved", "cvc5", None
    return "unknown", None, None

def discharge(ctx, o, budget=20000):
    t0 = time.time()
    alg = o.alg or o.kind == "rotation" or ("alg_seed" in ctx.__dict__ and o.label == "division by zero")
    if alg:
        from . import poly
        def sub(f, b=6000): return prove_one(ctx, o, f, b)[0] == "proved"
        try:
            ins = inst_of(ctx, o, o.goal); ins.run(no_stale_schemas(ctx, ctx.schemas[:o.ns], list(o.pc) + [o.goal]), 2)
            if poly.prove_eq(ctx, ins.out, o.goal, sub):
                o.status = "proved"; o.backend = "algebra"; o.secs = time.time() - t0; return "proved"
            o.model = "not an identity of rational functions"
        except poly.Fail as e: o.model = "algebra: %s" % e
    goals = split_goal(o.goal)
    st = "proved"; be = set(); model = None
    for g in goals:
        s, b, m = prove_one(ctx, o, g, budget)
        if b: be.add(b)
        if s != "proved":
            st = s; model = m; break
    o.status = st; o.backend = "+".join(sorted(be)); o.secs = time.time() - t0; o.model = model
    return st
