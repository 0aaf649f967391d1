"""Verification context: facts, schemas (universal facts instantiated at ground terms), obligations."""
import z3, time
from .vals import *

class Oblig:
    __slots__ = ("pc", "nf", "goal", "label", "line", "fn", "status", "backend", "secs", "model", "exact", "kind", "ns", "alg")
    def __init__(self, pc, nf, goal, label, line, fn, exact, kind, ns):
        self.ns = ns; self.alg = False
        self.pc = pc; self.nf = nf; self.goal = goal; self.label = label; self.line = line; self.fn = fn
        self.status = None; self.backend = None; self.secs = 0.0; self.model = None; self.exact = exact; self.kind = kind

class Schema:
    """universally quantified fact over integer/real variables `vs`, instantiated by trigger matching"""
    __slots__ = ("vs", "body", "pats", "g0", "syms", "free", "norec", "defines")
    def __init__(self, vs, body, pats=None, g0=None):
        self.vs = vs; self.body = body; self.pats = pats; self.g0 = g0; self.free = None; self.norec = False; self.defines = None
    def patterns(self):
        if self.pats is None:
            if self.g0 is not None: self.pats = infer_patterns(self.vs, self.body, self.g0)
            if not self.pats: self.pats = infer_patterns(self.vs, self.body)
        return self.pats

def is_uf_app(t):
    return z3.is_app(t) and t.num_args() > 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED
def arg_var(a, ids):
    """a is var or var+const -> (varid, const)"""
    if a.get_id() in ids: return a.get_id(), 0
    if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ADD and a.num_args() == 2:
        x, y = a.arg(0), a.arg(1)
        if z3.is_int_value(x) and y.get_id() in ids: return y.get_id(), x.as_long()
        if z3.is_int_value(y) and x.get_id() in ids: return x.get_id(), y.as_long()
    return None
def decl_no(t):
    n = t.decl().name()
    if "!" in n:
        try: return int(n.rsplit("!", 1)[1])
        except ValueError: return -1
    return -1
def infer_patterns(vs, body, g0=None):
    """list of alternative multi-patterns; a multi-pattern is a list of (app) terms covering vs"""
    ids = {v.get_id(): v for v in vs}
    cands = []; seen = set()
    def walk(t):
        if t.get_id() in seen: return
        seen.add(t.get_id())
        if is_uf_app(t) and (g0 is None or decl_no(t) > g0):
            cov = {}
            for i in range(t.num_args()):
                av = arg_var(t.arg(i), ids)
                if av: cov[av[0]] = 1
            if cov: cands.append((frozenset(cov), t))
        if z3.is_app(t):
            for c in t.children(): walk(c)
    walk(body)
    full = frozenset(ids)
    singles = [t for c, t in cands if c == full]
    if singles:
        by = {}
        for t in singles:
            key = (t.decl().get_id(), tuple((arg_var(t.arg(i), ids) or (None,))[0] for i in range(t.num_args())))
            by.setdefault(key, t)
        # prefer occurrences whose arguments are plain variables
        return [[t] for t in by.values()]
    # greedy multi-pattern
    rest = set(full); mp = []
    for c, t in sorted(cands, key=lambda ct: -len(ct[0])):
        if c & rest: mp.append(t); rest -= c
        if not rest: break
    return [mp] if not rest else []

class Ctx:
    def __init__(self):
        self.facts = []          # ground (or const-parametric) formulas
        self.schemas = []        # Schema
        self.obls = []
        self.g0 = []             # symbol counters at the start of the enclosing generic iterations (loop runs)
        self.all_params = {}     # every generic-iteration constant ever used
        self.params = []         # enclosing generic-iteration index constants
        self.mute = 0            # >0: do not record obligations
        self.decl_axioms = {}    # function-symbol name -> callable(args) -> formula list
        self.assumptions = set(); self.functions = {}; self.trusted = {}
        self.approx = []         # reasons for over-approximation
        self._qc = {}
        self.quick_time = 0.0; self.quick_calls = 0
        self.exit_schemas = []   # "no early exit before iteration E": also instantiated at the hints and the goal's own index constants
        self.skolems = []
        self.scoped = {}         # goal quantifier constants (U.forall): facts about them only serve obligations that mention them
        self.hints = []          # ground integer terms used as witnesses (instantiation only)
    # ---- symbols
    def fresh(self, name, sort):
        n = fresh_name(name)
        if not self.params: return z3.Const(n, sort)
        f = z3.Function(n, *([p.sort() for p in self.params] + [sort]))
        return f(*self.params)
    def fresh_fn(self, name, dom, rng):
        """fresh function of (params..., dom...); returns python callable"""
        n = fresh_name(name); ps = list(self.params)
        if not ps and not dom: 
            c = z3.Const(n, rng); return lambda: c
        f = z3.Function(n, *([p.sort() for p in ps] + list(dom) + [rng]))
        def g(*a): return f(*(ps + [zi(x) for x in a]))
        g.decl = f; g.params = ps
        return g
    # ---- facts
    def mark(self): return len(self.facts), len(self.schemas), len(self.__dict__.get("sums", [])), dict(self.__dict__.get("srcs", {})), dict(self.__dict__.get("quots", {})), len(self.exit_schemas)
    def reset(self, m):
        del self.facts[m[0]:]; del self.schemas[m[1]:]; del self.exit_schemas[m[5]:]
        if "sums" in self.__dict__: del self.sums[m[2]:]
        if "srcs" in self.__dict__: self.srcs = m[3]
        if "quots" in self.__dict__: self.quots = m[4]
    def add_fact(self, f, pc=()):
        f = b_imp(b_and(*pc), f) if pc else f
        if f is True: return
        f = zb(f)
        if z3.is_true(f): return
        self.facts.append(f)
        if self.params:
            vs = [p for p in self.params if occurs(f, p)]
            for p in vs: self.all_params[p.get_id()] = p
            if vs: self.schemas.append(Schema(vs, f, None, self.g0[-1] if self.g0 else None))
    def add_schema(self, vs, body, pc=(), pats=None, norec=False):
        n0 = len(self.schemas)
        self.add_schema_(vs, body, pc, pats)
        if norec:
            for s in self.schemas[n0:]: s.norec = True
    def add_schema_(self, vs, body, pc=(), pats=None):
        body = zb(b_imp(b_and(*pc), body) if pc else body)
        if z3.is_true(body): return
        allv = list(vs) + [p for p in self.params if occurs(body, p)]
        for p in allv[len(vs):]: self.all_params[p.get_id()] = p
        self.schemas.append(Schema(allv, body, pats, self.g0[-1] if self.g0 and len(allv) > len(vs) else None))
        if self.params and len(allv) > len(vs):      # also for the current generic iteration
            self.schemas.append(Schema(list(vs), body, pats))

def occurs(t, c):
    seen = set(); cid = c.get_id(); st = [t]
    while st:
        x = st.pop(); i = x.get_id()
        if i == cid: return True
        if i in seen: continue
        seen.add(i)
        st.extend(x.children())
    return False
def consts_of(t, acc=None, seen=None):
    """ids of uninterpreted decl names in term"""
    acc = set() if acc is None else acc; seen = set() if seen is None else seen; st = [t]
    while st:
        x = st.pop(); i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED: acc.add(x.decl().name())
            st.extend(x.children())
    return acc

def pzero(a):
    r = z3.simplify(a, som=True)
    return (z3.is_rational_value(r) or z3.is_int_value(r)) and r.as_fraction() == 0 if not z3.is_int_value(r) else r.as_long() == 0
def prefix_sum(ctx, term, k):
    """prefix sum S(n) = sum_{0<=j<n} term[k:=j]: ghost function with its defining equations, shared between terms that are
    equal as polynomials; lemmas (by induction on the equations) for terms that are non-negative by construction"""
    term = z3.simplify(term)
    isint = z3.is_int(term)
    cz = z3.Int("sum#k"); tc = z3.substitute(term, (k, cz))
    reg = ctx.__dict__.setdefault("sums", [])
    for t2, S in reg:
        if z3.is_int(t2) != isint: continue
        if t2.eq(tc) or pzero(t2 - tc): return S
    I = z3.IntSort()
    S = ctx.fresh_fn("cnt" if isint else "sum", [I], I if isint else z3.RealSort())
    j = z3.Int(fresh_name("j")); j2 = z3.Int(fresh_name("j"))
    ctx.add_schema([j], z3.Implies(j > 0, S(j) == S(j - 1) + z3.substitute(term, (k, j - 1))), pats=[[S(j)]], norec=True)
    ctx.add_schema([j], z3.Implies(j <= 0, S(j) == 0), pats=[[S(j)]])
    if nonneg_term(term):
        ctx.add_schema([j], S(j) >= 0, pats=[[S(j)]])
        ctx.add_schema([j, j2], z3.Implies(z3.And(j <= j2, j >= 0), S(j) <= S(j2)), pats=[[S(j), S(j2)]])
        if isint and le_one(term): ctx.add_schema([j], z3.Implies(j >= 0, S(j) <= j), pats=[[S(j)]])
    if pzero(term): ctx.add_schema([j], S(j) == 0, pats=[[S(j)]])
    reg.append((tc, S))
    ctx.trusted["prefix-sum lemmas (sign, monotonicity; induction on the defining equations)"] = 1
    return S
def nonneg_term(t):
    if z3.is_int_value(t): return t.as_long() >= 0
    if z3.is_rational_value(t): return t.as_fraction() >= 0
    if not z3.is_app(t): return False
    k = t.decl().kind()
    if k == z3.Z3_OP_ITE: return nonneg_term(t.arg(1)) and nonneg_term(t.arg(2))
    if k == z3.Z3_OP_ADD: return all(nonneg_term(c) for c in t.children())
    if k == z3.Z3_OP_MUL: return t.num_args() == 2 and t.arg(0).eq(t.arg(1)) or all(nonneg_term(c) for c in t.children())
    if k == z3.Z3_OP_POWER: return z3.is_rational_value(t.arg(1)) and t.arg(1).as_fraction() == 2
    if k == z3.Z3_OP_UNINTERPRETED:
        n = t.decl().name()
        return n.startswith("cnt!") or ".len!" in n or n == "sqrt"
    return False
def le_one(t):
    if z3.is_int_value(t): return t.as_long() <= 1
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE: return le_one(t.arg(1)) and le_one(t.arg(2))
    return False
