"""Proof units: a spec module's function gets a Unit, runs repository functions symbolically and states obligations."""
import z3, time, os, sys, traceback, signal
import concurrent.futures as cf, multiprocessing as mp
from . import ast as A
from .vals import *
from .ctx import *
from .exec import Exec, LV, Frame, RefVal
from .ast import Ty, REAL, INT, BOOL, SIZE, tvec

class Unit:
    def __init__(self, prog, name="unit"):
        self.prog = prog; self.name = name
        self.ctx = Ctx(); self.ex = Exec(prog, self.ctx); self.ex.top()
        self.covers = []
    # ---- symbolic inputs
    def real(self, n): return R(self.ctx.fresh(n, z3.RealSort()))
    def int(self, n, lo=None, hi=None):
        x = self.ctx.fresh(n, z3.IntSort())
        if lo is not None: self.assume(x >= zi(lo))
        if hi is not None: self.assume(x <= zi(hi))
        return x
    def bool(self, n): return self.ctx.fresh(n, z3.BoolSort())
    def havoc(self, ty, n): return self.ex.havoc_ty(ty, n)
    def vec(self, et, n, ln=None): return self.ex.havoc_vec(et, n, ln)
    def obj(self, cls, n="obj", **over):
        """arbitrary object of a repository class"""
        v = self.ex.havoc_gen(self.ty(cls), n)(())
        for k, x in over.items(): v = v.with_(k, x)
        return v
    def ty(self, cls):
        r = self.prog.recs.get(cls)
        if r is None: raise Unsupported("no record " + cls)
        return r["t"]
    def loc(self, v): return self.ex.tmp(v)
    def fn(self, q, **kw): return self.prog.fn(q, **kw)
    def ptypes(self, q, **kw): return [p["t"] for p in self.prog.fn(q, **kw)["params"]]
    # ---- logic
    def assume(self, f): self.ctx.add_fact(f, self.ex.pc)
    def prove(self, f, label, hint=()): 
        self.ex.line = 0
        self.ex.oblige(f, label, "post")
    def prove_alg(self, goal, label):
        """an equality of real terms, first tried as an identity of rational functions"""
        n = len(self.ctx.obls); self.prove(goal, label)
        for o in self.ctx.obls[n:]: o.alg = True
    def rewrite(self, term, targets, env=None, label="value", limit=40):
        from .rewrite import rewrite
        return rewrite(self, term, targets, env, label, limit)
    def ghost(self, t, nm="t"):
        """ghost constant equal to t"""
        g = self.ctx.fresh(nm, t.sort()); self.ctx.add_fact(g == t); self.ctx.__dict__.setdefault("defs", []).append((g, t))
        return g
    def case(self, f):
        """path condition for the following calls"""
        self.ex.pc = self.ex.pc + [zb(f)]
    def cover(self, label, wit=()):
        """the assumptions so far are satisfiable; wit: equations of a witness that help the solver find a model"""
        self.covers.append((label, tuple(zb(x) for x in self.ex.pc) + tuple(zb(x) for x in wit), len(self.ctx.facts), len(self.ctx.schemas)))
    def call(self, q, this=None, args=(), **kw):
        r = self.ex.call_q(q, this, args, **kw)
        return r
    def val(self, r): return self.ex.rd(r) if isinstance(r, LV) else r
    def rd(self, lv): return self.ex.rd(lv)
    def forall(self, name="i", lo=None, hi=None):
        """fresh constant standing for an arbitrary index (goal quantifier)"""
        x = z3.Int(fresh_name(name)); self.ctx.skolems.append(x); self.ctx.scoped[x.get_id()] = x
        if lo is not None: self.ctx.add_fact(x >= zi(lo))
        if hi is not None: self.ctx.add_fact(x < zi(hi))
        return x
    def exists(self, name="i", lo=None, hi=None):
        """fresh constant for an index whose existence is part of the premise"""
        x = self.ctx.fresh(name, z3.IntSort()); self.ctx.skolems.append(x)
        if lo is not None: self.assume(x >= zi(lo))
        if hi is not None: self.assume(x < zi(hi))
        return x
    def least(self, n, pred, name="least"):
        """ghost: the least m in [0,n] with m == n or not pred(m)   (exists by the least-number principle)"""
        m = self.ctx.fresh(name, z3.IntSort()); i = z3.Int(fresh_name("i"))
        self.ctx.add_fact(z3.And(m >= 0, m <= zi(n)))
        self.ctx.add_fact(z3.Implies(m < zi(n), z3.Not(zb(pred(m)))))
        self.ctx.add_schema([i], z3.Implies(z3.And(i >= 0, i < m), zb(pred(i))))
        self.ctx.hints += [m]
        return m
    def schema(self, names, f, pats=None):
        """universally quantified assumption of the unit (precondition)"""
        vs = [z3.Int(fresh_name(n)) for n in names]
        self.ctx.add_schema(vs, zb(f(*vs)), self.ex.pc, [[t] for t in pats(*vs)] if callable(pats) else pats)
    def forall_prove(self, names, f, label, hints=True):
        vs = [z3.Int(fresh_name(n)) for n in names]
        self.prove(f(*vs), label)

# ---------------------------------------------------------------- parallel discharge
_G = {}
def _work(a):
    ui, oi, budget = a
    from .solve import discharge
    u = _G["units"][ui]; o = u.ctx.obls[oi]
    t0 = time.time()
    try:
        st = discharge(u.ctx, o, budget)
        m = None
        if o.model is not None:
            try: m = str(o.model)[:3000]
            except Exception: m = None
        return ui, oi, st, o.backend, time.time() - t0, m, None
    except Exception as e:
        return ui, oi, "unknown", None, time.time() - t0, None, "%s: %s" % (type(e).__name__, e)
def _cover(a):
    ui, ci = a
    from .solve import Inst, check, relevant
    u = _G["units"][ui]; label, pc, nf, ns = u.covers[ci]
    ins = Inst(u.ctx, 600, 3)
    for f in list(pc) + u.ctx.facts[:nf]: ins.add(f)
    ins.run(u.ctx.schemas[:ns])
    r, _ = check(ins.out, 4000)
    return ui, ci, str(r)
def dedup(u):
    """drop duplicate obligations (same goal and path condition)"""
    seen = {}; out = []
    for o in u.ctx.obls:
        key = (zb(o.goal).get_id(), tuple(p.get_id() for p in o.pc))
        if key in seen: continue
        seen[key] = o; out.append(o)
    u.ctx.obls = out
def discharge_all(units, budget=20000, jobs=8, deadline=None):
    """units: list of Unit; fills obligations' status; returns cover results"""
    _G["units"] = units
    tasks = []
    for ui, u in enumerate(units):
        dedup(u)
        for oi, o in enumerate(u.ctx.obls):
            g = z3.simplify(o.goal)
            if z3.is_true(g): o.status = "proved"; o.backend = "simplify"; continue
            tasks.append((ui, oi, budget))
    covers = []
    ctx = mp.get_context("fork")
    with cf.ProcessPoolExecutor(jobs, mp_context=ctx) as ex:
        cfs = [ex.submit(_cover, (ui, ci)) for ui, u in enumerate(units) for ci in range(len(u.covers))]
        fs = {ex.submit(_work, t): t for t in tasks}
        todo = list(fs.items()); retried = set()
        while todo:
            f, t = todo.pop(0)
            left = None if deadline is None else max(0.5, deadline - time.time())
            try:
                ui, oi, st, be, secs, m, err = f.result(timeout=left)
                o = units[ui].ctx.obls[oi]
                o.status, o.backend, o.secs, o.model = st, be, secs, m
                if err: o.model = err
                if st == "unknown" and (ui, oi) not in retried:
                    # one escalated attempt with three times the budget before an obligation counts as not accepted
                    retried.add((ui, oi)); t2 = (ui, oi, budget * 3); todo.append((ex.submit(_work, t2), t2))
            except cf.TimeoutError:
                o = units[t[0]].ctx.obls[t[1]]; o.status = "timeout"; o.backend = None; f.cancel()
            except cf.process.BrokenProcessPool:
                o = units[t[0]].ctx.obls[t[1]]; o.status = "timeout"
        for f in cfs:
            try: ui, ci, r = f.result(timeout=60); covers.append((units[ui].name, units[ui].covers[ci][0], r))
            except Exception as e: covers.append(("?", "?", "unknown"))
        for p in list(getattr(ex, "_processes", {}).values()):
            if deadline is not None and time.time() > deadline: p.kill()
    return covers
