"""Loops.  The state at the start of iteration k is expressed exactly as a function of k: by a closed form where the
transition has a recognised shape (counters, temporaries, appends, indexed writes), and otherwise by ghost functions of k
defined by the loop's own transition (base and step equations).  Universal facts about them are obtained only from the
equations, from lemma schemas over counting functions, or from spec-provided invariants proved by induction."""
import z3
from .vals import *
from .ctx import *
from .lib import generic

UNROLL = 64
class Leaf:
    __slots__ = ("root", "path", "init", "hav", "closed", "how", "syms")
    def __init__(self, root, path): self.root = root; self.path = path; self.closed = None; self.hav = None; self.how = None
    @property
    def key(self): return (self.root, self.path)

def getp(ex, store, root, path):
    v = store[root]
    for s in path: v = ex.step(v, s) if not isinstance(v, Uninit) else v
    return v
def setp(ex, store, root, path, val):
    store[root] = ex.upd(store[root], path, val)

def set_positions(n, base, acc):
    """positions written between the nodes base and n, or None if something else happened"""
    while n is not base:
        if n[0] == "set": acc.append(n[2]); n = n[1]
        elif n[0] == "ite":
            return acc if set_positions(n[2], base, acc) is not None and set_positions(n[3], base, acc) is not None else None
        else: return None
    return acc
def diff(a, b, path, out, inv=None):
    """paths at which a and b differ; inv(i): the index is the same in every iteration, so that element i is a place of its own"""
    if a is b: return
    if inv is not None and isinstance(a, Vec) and isinstance(b, Vec) and a.node is not b.node and same(a.len, b.len) and a.et is not None and a.et.k not in ("real", "int", "bool"):
        ps = set_positions(b.node, a.node, [])
        if ps and all(same(q, ps[0]) for q in ps) and inv(ps[0]):
            diff(a.get(ps[0]), b.get(ps[0]), path + (("i", ps[0]),), out, inv); return
    if isinstance(a, Struct) and isinstance(b, Struct) and set(a.f) == set(b.f):
        for k in a.f: diff(a.f[k], b.f[k], path + (("f", k),), out, inv)
        return
    if isinstance(a, Mat) and isinstance(b, Mat):
        if a.cells is not None and b.cells is not None and a.r == b.r and a.c == b.c:
            for i in range(a.r):
                for j in range(a.c): diff(a.get(i, j), b.get(i, j), path + (("c", i, j),), out)
            return
        if a.cells is None and b.cells is None and a.node is b.node and same(a.r, b.r) and same(a.c, b.c): return
    if isinstance(a, Vec) and isinstance(b, Vec):
        if a.node is b.node and same(a.len, b.len): return
        if a.node[0] == "lit" and b.node[0] == "lit" and isinstance(a.len, int) and a.len == b.len and 0 < a.len <= 16:
            for i in range(a.len): diff(a.get(i), b.get(i), path + (("i", i),), out)
            return
    if isinstance(a, R) and isinstance(b, R):
        if same(a.v, b.v) and same(a.st, b.st): return
    elif isinstance(a, (bool, int)) or is_z3(a):
        if (isinstance(b, (bool, int)) or is_z3(b)) and same(a, b): return
    elif isinstance(a, Opq) and isinstance(b, Opq) and a.x is not None and b.x is not None and a.x.eq(b.x): return
    elif isinstance(a, Iter) and isinstance(b, Iter) and a.lv == b.lv and same(a.idx, b.idx): return
    elif isinstance(a, Ptr) and isinstance(b, Ptr) and a.lv == b.lv: return
    elif isinstance(a, Str) and isinstance(b, Str) and a.term() is not None and b.term() is not None and a.term().eq(b.term()): return
    elif isinstance(a, Opq) and isinstance(b, Opq) and a.tag in ("chrono", "ostream"): return
    out.append(path)

def join(ex, base_len, states):
    """merge alternative (pc, store) states"""
    if not states: return None
    pc, st = states[-1]
    conds = [b_and(*p[base_len:]) for p, _ in states]
    for (p, s), c in list(zip(states, conds))[-2::-1]: st = ex.merge_store(c, s, st)
    base = states[0][0][:base_len]
    return base + ([b_or(*conds)] if len(states) > 1 else list(pc[base_len:])), st

class Iteration: pass
def one_iteration(ex, cond, body, inc):
    """run cond/body/inc from the current store; returns Iteration with everything relative to the entry pc"""
    fr = ex.frames[-1]; base = len(ex.pc)
    it = Iteration()
    it.base = base
    c = True if cond is None else cond()
    it.cond = c; it.cond_store = dict(ex.store)
    it.rets = []; it.brk = []; it.out = None
    if c is False: return it
    if c is not True: ex.pc = ex.pc + [c]
    fr.loops.append({"brk": [], "cont": []})
    nex = len(fr.exits)
    live = body()
    lp = fr.loops.pop()
    it.rets = fr.exits[nex:]; del fr.exits[nex:]
    it.brk = lp["brk"]
    states = list(lp["cont"])
    if live: states.append((list(ex.pc), ex.store))
    j = join(ex, base, states)
    if j is not None:
        ex.pc, ex.store = j
        ex.store = dict(ex.store)
        if inc is not None: inc()
        it.out = (list(ex.pc), ex.store)
    return it

def run_loop(ex, cnode, bnode, incnode, node):
    cond = (lambda: ex.bool(ex.ev(cnode))) if cnode is not None else None
    inc = (lambda: ex.stmt({"k": "Expr", "e": incnode})) if incnode is not None else None
    return loop(ex, cond, lambda: ex.stmt(bnode), inc, node)

def run_range(ex, s):
    fr = ex.frames[-1]
    lv = ex.lv(s["r"])
    v = ex.res(ex.rd(lv))
    if not isinstance(v, Vec): raise Unsupported("range-for over " + kind(v))
    n = v.len
    ix = ex.tmp(0)
    var = s["var"]
    def cond(): return i_lt(ex.rd(ix), n)
    def body():
        i = ex.rd(ix)
        if var["t"].k == "ref": fr.refs[var["id"]] = lv.i(i)
        else: ex.store[("l", fr.no, var["id"])] = ex.conv(ex.rd(lv.i(i)), var["t"])
        return ex.stmt(s["b"])
    def inc(): ex.wr(ix, i_add(ex.rd(ix), 1))
    r = loop(ex, cond, body, inc, s)
    return r

def simp_bool(c):
    if isinstance(c, bool): return c
    s = z3.simplify(c)
    if z3.is_true(s): return True
    if z3.is_false(s): return False
    return c

def loop(ex, cond, body, inc, node):
    """returns True if live afterwards"""
    fr = ex.frames[-1]; base = len(ex.pc); base_pc = list(ex.pc)
    exits = []     # states leaving the loop (normal or break)
    n = 0
    line = ex.line
    while True:
        # concrete unrolling as long as the condition is decided
        save = dict(ex.store); pcs = list(ex.pc); no = len(ex.ctx.obls); nf = len(ex.ctx.facts)
        c = True if cond is None else simp_bool(cond())
        if c is False:
            exits.append((list(ex.pc), ex.store)); break
        if c is True and n < UNROLL and not getattr(ex, "no_unroll", False):
            del ex.ctx.obls[no:]
            ex.store = dict(save); ex.pc = pcs
            it = one_iteration(ex, cond, body, inc)
            fr.exits += it.rets; exits += it.brk
            if it.out is None: break
            n += 1
            if n == UNROLL: raise Unsupported("loop unrolling bound")
            continue
        # symbolic
        del ex.ctx.obls[no:]
        ex.store = dict(save); ex.pc = pcs
        ex.line = line
        summarise(ex, cond, body, inc, node, exits, base)
        break
    j = join(ex, base, exits)
    if j is None: return False
    pc, st = j
    ex.store = dict(st)
    if len(pc) == base + 1 and simp_bool(pc[-1]) is True: pc = base_pc
    ex.pc = pc
    return True

class LoopInfo:
    def vec_leaves(self, pred=lambda v: True):
        """modified leaves holding vectors: (root, path) list"""
        return [(l.root, l.path) for l in self.leaves.values() if isinstance(l.init, Vec) and pred(l.init)]
    def get(self, st, root, path=()): return getp(self.ex, st, root, path)
    def init(self, root, path=()): return getp(self.ex, self.base_store, root, path)
    def prove_invariants(self, invs):
        """invs: list of (label, bound-variable names, fn(kk, store, *vars) -> formula).  Each is proved by induction over the
        iteration number (base obligation, step obligation from all invariants at the earlier iteration) and then available as
        a universal fact for every iteration number 0..E."""
        ex = self.ex; ctx = ex.ctx; save = list(ex.pc)
        H = ctx.fresh("IH", z3.BoolSort()); K = ctx.fresh("K", z3.IntSort()); kk = z3.Int(fresh_name("kk"))
        E = zi(self.E)
        st0, stK, stK1, stk = self.state(0), self.state(K), self.state(K + 1), self.state(kk)
        insts = []
        pt = {}
        for label, names, f, *pf in invs:
            vs = [z3.Int(fresh_name(n)) for n in names]; insts.append((label, vs, f))
            if pf: pt[label] = pf[0]
        def pats(label, vs): return [[t] for t in pt[label](*vs)] if label in pt else None
        # base (a run whose obligations are not recorded only needs the resulting facts)
        live = [] if ctx.mute else insts
        ex.pc = list(self.base_pc)
        for label, vs, f in live: ex.oblige(zb(f(z3.IntVal(0), st0, *vs)), "invariant holds initially: " + label, "invariant")
        # step
        for label, vs, f in live:
            b = zb(f(K, stK, *vs))
            ctx.add_schema(vs, b, list(self.base_pc) + [H, K >= 0, K < E], pats(label, vs)) if vs else ctx.add_fact(b, list(self.base_pc) + [H, K >= 0, K < E])
        ex.pc = list(self.base_pc) + [H, K >= 0, K < E]
        for label, vs, f in live:
            ws = [z3.Int(fresh_name(v.decl().name().split("!")[0])) for v in vs]
            if len(ws) == 1:
                # by cases: the index of this iteration, the other indices
                ex.oblige(zb(f(K + 1, stK1, K)), "invariant is preserved: " + label + " (new index)", "invariant")
                ex.oblige(z3.Implies(ws[0] != K, zb(f(K + 1, stK1, *ws))), "invariant is preserved: " + label + " (earlier index)", "invariant")
            else: ex.oblige(zb(f(K + 1, stK1, *ws)), "invariant is preserved: " + label, "invariant")
        ex.pc = save
        for label, vs, f in insts:
            if label not in pt: ctx.add_schema([kk] + vs, z3.Implies(z3.And(kk >= 0, kk <= E), zb(f(kk, stk, *vs))), self.base_pc)
            # the final state is always relevant
            b = zb(f(E, self.state(self.E), *vs))
            if vs: ctx.add_schema(vs, b, self.base_pc, pats(label, vs))
            else: ctx.add_fact(b, self.base_pc)

def val_syms(ex, v, acc=None):
    """names of uninterpreted symbols a value depends on (vectors/matrices probed at generic indices)"""
    acc = set() if acc is None else acc
    if v is None or isinstance(v, (bool, int, Fraction, str, Uninit, Void)): return acc
    if is_z3(v): consts_of(v, acc); return acc
    if isinstance(v, R):
        consts_of(v.v, acc)
        if v.st is not None and is_z3(v.st): consts_of(v.st, acc)
    elif isinstance(v, Struct):
        for x in v.f.values(): val_syms(ex, x, acc)
    elif isinstance(v, Vec):
        val_syms(ex, v.len, acc); vnode_syms(ex, v.node, acc)
    elif isinstance(v, Mat):
        if v.cells is not None:
            for x in v.cells: val_syms(ex, x, acc)
        else:
            val_syms(ex, v.r, acc); val_syms(ex, v.c, acc)
            i = z3.Int("probe#i"); j = z3.Int("probe#j")
            for a in (range(v.r) if isinstance(v.r, int) and v.r <= 4 else [i]):
                for b in (range(v.c) if isinstance(v.c, int) and v.c <= 4 else [j]): val_syms(ex, v.get(a, b), acc)
    elif isinstance(v, Opq):
        if v.x is not None: consts_of(v.x, acc)
    elif isinstance(v, Str):
        if v.t is not None: consts_of(v.t, acc)
    elif isinstance(v, Maybe):
        val_syms(ex, v.c, acc); val_syms(ex, v.a, acc); val_syms(ex, v.b, acc)
    elif isinstance(v, Iter): val_syms(ex, v.idx, acc)
    return acc
def vnode_syms(ex, n, acc):
    if n[0] == "lit":
        for x in n[1]: val_syms(ex, x, acc)
        return acc
    try: val_syms(ex, _probe(n), acc)
    except EmptyRead: pass
    return acc
def _probe(n):
    from .vals import _vget
    return _vget(n, z3.Int("probe#i"))

class Deps:
    """dependency closure of ghost symbols through the facts added since the start of a run"""
    def __init__(self, ctx, nf, ns):
        self.idx = {}
        for f in ctx.facts[nf:]:
            ss = consts_of(f)
            for x in ss: self.idx.setdefault(x, []).append(ss)
        for s in ctx.schemas[ns:]:
            ss = consts_of(s.body)
            for x in ss: self.idx.setdefault(x, []).append(ss)
    def close(self, names, created):
        """closure only through ghosts created in this run"""
        out = set(names); work = list(names)
        while work:
            x = work.pop()
            if x not in created: continue
            for ss in self.idx.get(x, []):
                for y in ss:
                    if y not in out: out.add(y); work.append(y)
        return out
def ghost_no(name):
    if "!" in name:
        try: return int(name.rsplit("!", 1)[1])
        except ValueError: return -1
    return -1

def summarise(ex, cond, body, inc, node, exits, exit_base):
    ctx = ex.ctx; fr = ex.frames[-1]
    base_store = dict(ex.store); base_pc = list(ex.pc)
    k = z3.Int(fresh_name("k"))
    refs0 = dict(fr.refs)
    leaves = {}
    from . import vals as _v0
    no0 = _v0._fresh_n[0]; kname = k.decl().name()
    def inv(i): return isinstance(i, int) or (is_z3(i) and all(x != kname and ghost_no(x) <= no0 for x in consts_of(i)))
    def in_store(closed_only=False):
        st = dict(base_store)
        for l in leaves.values():
            setp(ex, st, l.root, l.path, l.closed(k) if l.closed is not None else l.hav)
        return st
    def run(extra=(), store=None):
        ex.store = dict(store) if store is not None else in_store(); ex.pc = base_pc + [k >= 0] + list(extra); fr.refs = dict(refs0)
        ctx.params.append(k)
        from . import vals as _vv
        ctx.g0.append(_vv._fresh_n[0])
        try: return one_iteration(ex, cond, body, inc)
        finally:
            ctx.params.pop(); ctx.g0.pop(); ex.pc = list(base_pc); ex.store = dict(base_store); fr.refs = dict(refs0)
    # ---- 1. which leaves does an iteration modify (fixpoint, over-approximate)
    ctx.mute += 1
    qk = ex.__dict__.get("no_quick", False); ex.no_quick = True
    try:
        for _ in range(12):
            mk = ctx.mark()
            cur = in_store()
            it = run(store=cur)
            ctx.reset(mk)
            new = []
            for stt in ([it.out[1]] if it.out else []) + [it.cond_store]:
                for root in base_store:
                    if root in stt:
                        out = []
                        diff(cur[root], stt[root], (), out, inv)
                        for p in out: new.append((root, p))
            added = False
            for root, p in new:
                # an ancestor already present?
                if any((root, p[:i]) in leaves for i in range(len(p) + 1)): continue
                for q in [q for q in leaves if q[0] == root and q[1][:len(p)] == p]: del leaves[q]
                l = Leaf(root, p); l.init = getp(ex, base_store, root, p)
                ctx.params.append(k)
                from . import vals as _v
                g0 = _v._fresh_n[0]
                l.hav = ex.havoc_like(l.init, "h"); ctx.params.pop()
                l.syms = set(s for s in val_syms(ex, l.hav) if ghost_no(s) > g0)      # only the symbols created here (dimensions are shared with the initial value)
                leaves[(root, p)] = l; added = True
            if not added: break
        else: raise Unsupported("modified-leaf fixpoint")
    finally: ctx.mute -= 1; ex.no_quick = qk
    # ---- 2. solve the transition
    ctx.mute += 1
    try:
        for rnd in range(14):
            unsolved = [l for l in leaves.values() if l.closed is None]
            if not unsolved: break
            nf, ns = len(ctx.facts), len(ctx.schemas)
            from . import vals
            g0 = vals._fresh_n[0]
            it = run()
            if it.out is None:
                # the body never completes normally: at most one iteration
                for l in unsolved: l.closed = (lambda kk, l=l: l.init); l.how = "single"
                break
            names = set()
            deps = Deps(ctx, nf, ns)
            outst = it.out[1]
            uns = {}
            for l in unsolved:
                for s in l.syms: uns[s] = l
            created = set(x for x in deps.idx if ghost_no(x) > g0)
            def depends(v):
                ss = deps.close(val_syms(ex, v), created)
                return set(id(uns[s]) for s in ss if s in uns)
            prog = False
            # the state after an iteration that completes normally; it.out pc gives the completion condition
            for l in unsolved:
                o = getp(ex, outst, l.root, l.path)
                if try_simple(ex, l, o, k, depends): prog = True
            if prog: continue
            for l in unsolved:
                o = getp(ex, outst, l.root, l.path)
                if try_structured(ex, l, o, k, depends, run, leaves): prog = True
            if prog: continue
            # vectors that keep their length
            for l in unsolved:
                o = getp(ex, outst, l.root, l.path)
                if isinstance(l.hav, Vec) and isinstance(l.init, Vec) and isinstance(o, Vec) and not same(l.hav.len, l.init.len) and (same(o.len, l.hav.len) or is_z3(zi(o.len)) and z3.simplify(zi(o.len)).eq(z3.simplify(zi(l.hav.len)))):
                    l.hav = Vec(l.init.len, l.hav.node, l.hav.et); prog = True
            if prog: continue
            # exact recursion for a leaf that depends on no other open one: the others may have a closed form then
            own = []
            for l in unsolved:
                try:
                    if depends(getp(ex, outst, l.root, l.path)) <= {id(l)}: own.append(l)
                except EmptyRead: pass
            if own and len(own) < len(unsolved):
                if ex.__dict__.get("lw"): print("RECURSION (own)", fr.fn["q"], [(l.root, l.path) for l in own], "of", [(l.root, l.path) for l in unsolved])
                recursion(ex, own, outst, k, base_pc); continue
            # exact recursion over ghost functions for everything still open
            if ex.__dict__.get("lw"): print("RECURSION", fr.fn["q"], [(l.root, l.path, [x.path for x in unsolved if id(x) in depends(getp(ex, outst, l.root, l.path))]) for l in unsolved])
            recursion(ex, unsolved, outst, k, base_pc)
            break
        else: raise Unsupported("loop summary did not converge")
    finally: ctx.mute -= 1
    # ---- 3. trip count and early exits (muted run to obtain the conditions)
    ctx.mute += 1
    try: it = run()
    finally: ctx.mute -= 1
    L = LoopInfo()
    N = trip_count(ex, it.cond, k, base_pc)
    if z3.is_expr(N) and not z3.is_const(N) :
        pass
    econd = b_or(*[b_and(*p[it.base + 1 if False else it.base:]) for p, _ in it.brk] + [b_and(*r[1][it.base:]) for r in it.rets])
    # conditions are relative to pc at iteration entry (they include the loop condition itself)
    has_exit = not (econd is False)
    if has_exit:
        E = ctx.fresh("E", z3.IntSort())
        ctx.add_fact(z3.And(E >= 0, E <= zi(N)), base_pc)
        # no exit before E; exit at E if E < N
        n0 = len(ctx.schemas); ctx.add_schema([k], z3.Implies(z3.And(k >= 0, k < E), z3.Not(zb(econd))), base_pc, pats=exit_pats(k, econd))
        ctx.exit_schemas += [(n, ctx.schemas[n]) for n in range(n0, len(ctx.schemas)) if len(ctx.schemas[n].vs) <= 3]
        ctx.add_fact(z3.Implies(E < zi(N), zb(subst(econd, [(k, E)]))), base_pc)
    else: E = N
    # ---- spec-provided invariants (proved by induction here)
    L.k = k; L.N = N; L.E = E; L.leaves = leaves; L.node = node; L.base_store = base_store; L.base_pc = base_pc; L.ex = ex; L.fn = fr.fn
    def state(kk):
        st = dict(base_store)
        for l in leaves.values(): setp(ex, st, l.root, l.path, l.closed(kk))
        return st
    L.state = state
    L.out_store = it.out[1] if it.out else None
    L.in_store = in_store()
    for hook in ex.loop_specs: hook(L)
    # ---- 4. the generic iteration, with obligations
    rng = [k < zi(N)] + ([k <= E] if has_exit else [])
    it = run(rng)
    off = it.base
    if has_exit:
        # the same execution seen through the symbols of this run: the first exit is at E here too
        m = len(base_pc) + 1 + len(rng)
        econd4 = b_or(*[b_and(*p[m:]) for p, _ in it.brk] + [b_and(*r[1][m:]) for r in it.rets])
        if econd4 is not False and econd4 is not True and not zb(econd4).eq(zb(econd)):
            n0 = len(ctx.schemas); ctx.add_schema([k], z3.Implies(z3.And(k >= 0, k < E), z3.Not(zb(econd4))), base_pc)
            ctx.exit_schemas += [(n, ctx.schemas[n]) for n in range(n0, len(ctx.schemas)) if len(ctx.schemas[n].vs) <= 3]
            ctx.add_fact(z3.Implies(E < zi(N), zb(subst(econd4, [(k, E)]))), base_pc)
    if not has_exit:
        st = state(N)
        # an iteration that never completes normally has no state after it
        exits.append((list(base_pc), st))
    else:
        exits.append((base_pc + [zb(i_eq(E, N))], state(N if isinstance(N, int) else E)))
        for p, s in it.brk:
            c = subst(b_and(*p[len(base_pc) + 1 + len(rng):]), [(k, E)])
            exits.append((base_pc + [E < zi(N), c], subst_store(ex, s, base_store, [(k, E)])))
        for r in it.rets:
            c = subst(b_and(*r[1][len(base_pc) + 1 + len(rng):]), [(k, E)])
            v = r[2]
            if v is not None: v = subst_lv(v, [(k, E)]) if hasattr(v, "root") else subst(v, [(k, E)])
            fr.exits.append((r[0], base_pc + [E < zi(N), c], v, subst_store(ex, r[3], base_store, [(k, E)])))
    ex.pc = list(base_pc)

def exit_pats(k, c): return None
def subst_rel(v, b, pairs):
    """substitution that keeps the parts of a value that the loop did not change"""
    if v is b: return v
    if isinstance(v, Struct) and isinstance(b, Struct) and set(v.f) == set(b.f):
        f = {k: subst_rel(v.f[k], b.f[k], pairs) for k in v.f}
        return b if all(f[k] is b.f[k] for k in f) else Struct(v.cls, f)
    if isinstance(v, Vec) and isinstance(b, Vec):
        if v.node is b.node and same(v.len, b.len): return b
        return Vec(subst(v.len, pairs), subst_vnode(v.node, pairs, b.node), v.et)
    if isinstance(v, Mat) and isinstance(b, Mat) and v.cells is None and b.cells is None: return Mat(subst(v.r, pairs), subst(v.c, pairs), None, subst_mnode(v.node, pairs, b.node), v.arr)
    return subst(v, pairs)
def subst_store(ex, st, base, pairs):
    out = {}
    for r, v in st.items():
        if r in base:
            out[r] = subst_rel(v, base[r], pairs)
        elif r[0] in ("h", "t"): out[r] = subst(v, pairs)
    return out

# ---------------------------------------------------------------- solving leaves
def delta(t, s):
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        a, b = delta(t.arg(1), s), delta(t.arg(2), s)
        if a.eq(b): return a
        return z3.If(t.arg(0), a, b)
    return z3.simplify(t - s)
def as_scalar(v):
    if isinstance(v, R): return v.v if v.st is None else None
    if isinstance(v, bool): return z3.BoolVal(v)
    if isinstance(v, int): return z3.IntVal(v)
    if is_z3(v): return v
    return None
def wrap_like(init, t):
    if z3.is_real(t): return R(t)
    return _normi(t)
def _normi(t):
    if z3.is_int_value(t): return t.as_long()
    if z3.is_true(t): return True
    if z3.is_false(t): return False
    return t
def try_simple(ex, l, o, k, depends):
    """counters and temporaries"""
    ini = l.init
    if isinstance(ini, Iter) and isinstance(o, Iter) and isinstance(l.hav, Iter):
        d = z3.simplify(zi(o.idx) - zi(l.hav.idx))
        if z3.is_int_value(d):
            c = d.as_long(); l.closed = lambda kk: Iter(ini.lv, i_add(ini.idx, i_mul(c, kk)), ini.rev); l.how = "counter"; return True
        return False
    t = as_scalar(o); h = as_scalar(l.hav) if not isinstance(l.hav, Uninit) else None
    if t is not None and h is not None and z3.is_arith(t) and z3.is_arith(h):
        if z3.is_real(h) and z3.is_int(t): t = z3.ToReal(t)
        d = delta(t, h)
        kn = k.decl().name()
        if not depends(d) and kn not in consts_of(d):
            i0 = as_scalar(ini)
            if i0 is not None:
                if z3.is_int(h):
                    c = _normi(z3.simplify(d)); i0 = _normi(i0)
                    l.closed = lambda kk: i_add(i0, i_mul(c, kk))
                else: l.closed = lambda kk: R(z3.simplify(i0 + d * z3.ToReal(zi(kk))))
                l.how = "counter"; return True
    if not depends(o):
        # value computed afresh in every iteration
        def closed(kk, o=o, ini=ini):
            if isinstance(kk, int):
                return ini if kk == 0 else subst(o, [(k, z3.IntVal(kk - 1))])
            prev = z3.simplify(kk - 1)
            try: return ite(i_le(kk, 0), ini, subst(o, [(k, prev)]))
            except Unsupported:
                return Maybe(i_le(kk, 0), ini, subst(o, [(k, prev)]))
        l.closed = closed; l.how = "temp"
        return True
    return False

def try_structured(ex, l, o, k, depends, run, leaves):
    ini = l.init
    # sums
    t = as_scalar(o); h = as_scalar(l.hav) if not isinstance(l.hav, Uninit) else None
    if t is not None and h is not None and z3.is_arith(t) and z3.is_arith(h):
        if z3.is_real(h) and z3.is_int(t): t = z3.ToReal(t)
        d = delta(t, h)
        if not depends(d):
            S = sum_fn(ex, d, k)
            i0 = as_scalar(ini)
            l.closed = (lambda kk: i_add(_normi(i0), S(zi(kk)))) if z3.is_int(h) else (lambda kk: R(i0 + S(zi(kk))))
            l.how = "sum"; return True
    if isinstance(o, Vec) and isinstance(l.hav, Vec):
        a = analyse(o.node, l.hav.node, l.hav.len)
        if a is not None and a[0] == "app":
            _, blk_len, elem = a
            probe = elem(z3.Int("probe#i")) if blk_len is not None else None
            try:
                if not depends(blk_len if is_z3(blk_len) else None) and not depends(probe):
                    l.closed = append_closed(ex, ini, blk_len, elem, k); l.how = "append"; return True
            except EmptyRead: pass
        if a is not None and a[0] == "set" and same(o.len, l.hav.len):
            return try_overwrite(l, o, k, depends) or try_regions(ex, l, o, a[1], k, depends, run, leaves, vec=True)
    if isinstance(o, Mat) and isinstance(l.hav, Mat) and o.cells is None and l.hav.cells is None:
        regs = mat_regions(o.node, l.hav.node)
        if regs is not None and same(o.r, l.hav.r if not isinstance(ini.r, int) else ini.r) :
            return try_regions(ex, l, o, regs, k, depends, run, leaves, vec=False)
    return False

def sum_fn(ex, d, k): return prefix_sum(ex.ctx, d, k)
def src_fn(ex, S, L, k):
    """ghost: the iteration that appended position j (S: prefix sum of block lengths L)"""
    ctx = ex.ctx
    reg = ctx.__dict__.setdefault("srcs", {})
    if id(S) in reg: return reg[id(S)][0]
    I = z3.IntSort()
    o = ctx.fresh_fn("src", [I], I)
    j = z3.Int(fresh_name("j")); n = z3.Int(fresh_name("n"))
    # for every n: a position j < S(n) was appended by an iteration o(j) < n
    ctx.add_schema([j, n], z3.Implies(z3.And(j >= 0, j < S(n), n >= 0), z3.And(o(j) >= 0, o(j) < n, S(o(j)) <= j, j < S(o(j) + 1))), pats=[[o(j), S(n)]])
    Lk = z3.substitute(L, (k, n))
    ctx.add_schema([n, j], z3.Implies(z3.And(n >= 0, S(n) <= j, j < S(n) + Lk), o(j) == n), pats=[[S(n), o(j)]])
    ctx.add_schema([n], z3.Implies(z3.And(n >= 0, Lk > 0), o(S(n)) == n), pats=[[S(n)]])
    j2 = z3.Int(fresh_name("j"))
    ctx.add_schema([j, j2], z3.Implies(z3.And(j >= 0, j <= j2), z3.Implies(z3.And(o(j) >= 0, o(j2) >= 0, S(o(j)) <= j, j < S(o(j) + 1), S(o(j2)) <= j2, j2 < S(o(j2) + 1)), o(j) <= o(j2))), pats=[[o(j), o(j2)]])
    reg[id(S)] = (o, S)
    return o

def analyse(n, base, blen):
    """structure of an out-node relative to the in-node: ('app', L, elem) or ('set', regions) or None"""
    if n is base: return ("app", 0, lambda i: (_ for _ in ()).throw(EmptyRead()))
    k = n[0]
    if k == "push":
        a = analyse(n[1], base, blen)
        if a is None or a[0] != "app": return None
        _, L, el = a; v = n[3]
        def elem(i, L=L, el=el, v=v):
            c = i_eq(i, L)
            if c is True: return v
            if c is False: return el(i)
            try: return ite(c, v, el(i))
            except EmptyRead: return v
        if not same(z3.simplify(zi(n[2]) - zi(blen)), zi(L)) and not z3.simplify(zi(n[2]) - zi(blen) - zi(L)).eq(z3.IntVal(0)): 
            d = z3.simplify(zi(n[2]) - zi(blen) - zi(L))
            s = z3.Solver(); s.add(d != 0); s.set("timeout", 200)
            if s.check() != z3.unsat: return None
        return ("app", i_add(L, 1), elem)
    if k == "cat":
        a = analyse(n[1], base, blen)
        if a is None or a[0] != "app": return None
        _, L, el = a; B = n[3]
        from .vals import _vget
        def elem(i, L=L, el=el):
            c = i_lt(i, L)
            if c is True: return el(i)
            if c is False: return _vget(B, i_sub(i, L))
            try: x = el(i)
            except EmptyRead: return _vget(B, i_sub(i, L))
            return ite(c, x, _vget(B, i_sub(i, L)))
        return ("app", i_add(L, n[4]), elem)
    if k == "ite":
        a = analyse(n[2], base, blen); b = analyse(n[3], base, blen)
        if a is None or b is None: return None
        c = n[1]
        if a[0] == "app" and b[0] == "app":
            def elem(i):
                try: x = a[2](i)
                except EmptyRead: return b[2](i)
                try: y = b[2](i)
                except EmptyRead: return x
                return ite(c, x, y)
            return ("app", i_ite(c, a[1], b[1]), elem)
        ra = [] if a[0] == "app" and same(a[1], 0) else (a[1] if a[0] == "set" else None)
        rb = [] if b[0] == "app" and same(b[1], 0) else (b[1] if b[0] == "set" else None)
        if ra is None or rb is None: return None
        return ("set", ra + rb)
    if k == "set":
        a = analyse(n[1], base, blen)
        if a is None: return None
        if a[0] == "app":
            if same(a[1], 0): return ("set", [(n[2], 1)])
            return None
        return ("set", a[1] + [(n[2], 1)])
    if k == "reg":
        a = analyse(n[1], base, blen)
        if a is None: return None
        if a[0] == "app":
            if same(a[1], 0): return ("set", [(n[2], n[3])])
            return None
        return ("set", a[1] + [(n[2], n[3])])
    return None
def mat_regions(n, base):
    """list of (r0,nr,c0,nc) written since base"""
    out = []
    while n is not base:
        k = n[0]
        if k == "set": out.append((n[2], 1, n[3], 1)); n = n[1]
        elif k == "blk": out.append((n[2], n[4], n[3], n[5])); n = n[1]
        elif k == "reg": out.append((n[2], n[3], n[4], n[5])); n = n[1]
        elif k == "ite":
            a = mat_regions(n[2], base); b = mat_regions(n[3], base)
            if a is None or b is None: return None
            return out + a + b
        else: return None
    return out
def name_nonlinear(ex, v, k):
    """give the non-linear real components of an appended element a ghost name el(k), defined by an equation"""
    from .solve import nonlinear
    if isinstance(v, R):
        if not is_z3(v.v) or not nonlinear(v.v): return v
        g = ex.ctx.fresh_fn("el", [z3.IntSort()], z3.RealSort())
        ex.ctx.add_schema([k], g(k) == v.v, pats=[[g(k)]])
        return R(g(k), v.st)
    if isinstance(v, Mat) and v.cells is not None: return Mat(v.r, v.c, tuple(name_nonlinear(ex, x, k) for x in v.cells), None, v.arr)
    return v
def append_closed(ex, ini, L, elem, k):
    if isinstance(L, int) and L == 0: return lambda kk: ini
    if isinstance(L, int):
        def closed(kk):
            l0 = ini.len
            def get(i):
                j = i_sub(i, l0)
                it, r = (j, 0) if L == 1 else (zi(j) / z3.IntVal(L), zi(j) % z3.IntVal(L))
                return subst(elem(r), [(k, zi(it))])
            total = i_mul(L, kk)
            if isinstance(l0, int) and l0 == 0: return Vec(total, ("fn", get), ini.et)
            return Vec(i_add(l0, total), ("cat", ini.node, l0, ("fn", lambda j: get(i_add(j, l0))), total), ini.et)
        return closed
    if not occurs(zi(L), k) and not le_one(z3.simplify(zi(L))): return append_const(ex, ini, L, elem, k)
    S = sum_fn(ex, L, k)
    o = src_fn(ex, S, L, k)
    unit = le_one(z3.simplify(L))
    if unit:
        try: v0 = name_nonlinear(ex, elem(0), k)
        except EmptyRead: v0 = None
        if v0 is not None: elem = lambda r: v0
    def closed(kk):
        l0 = ini.len
        def get(j):
            it = o(zi(j))
            if unit: v = elem(0)
            else:
                r = z3.Int(fresh_name("r")); v = elem(r)
                v = subst(v, [(r, zi(i_sub(j, S(it))))])
            return subst(v, [(k, it)])
        total = S(zi(kk))
        if isinstance(l0, int) and l0 == 0: return Vec(total, ("fn", get), ini.et)
        return Vec(i_add(l0, total), ("cat", ini.node, l0, ("fn", get), total), ini.et)
    return closed
def divide(j, L):
    """syntactic division of a polynomial index by L = c*x + d with a symbol x: (q, r) with j = q*L + r, or None"""
    L = z3.simplify(L)
    xs = [x for x in ([L] + (L.children() if z3.is_app(L) else [])) if is_uf_app(x) or z3.is_const(x) and not z3.is_int_value(x)]
    for x in xs:
        c, d = z3.simplify(z3.substitute(L, (x, z3.IntVal(1))) - z3.substitute(L, (x, z3.IntVal(0)))), z3.simplify(z3.substitute(L, (x, z3.IntVal(0))))
        if not (z3.is_int_value(c) and c.as_long() == 1) or occurs(c, x): continue
        a = z3.simplify(z3.substitute(j, (x, z3.IntVal(1))) - z3.substitute(j, (x, z3.IntVal(0))), som=True)
        r = z3.simplify(z3.substitute(j, (x, -d)), som=True)
        if not pzero(j - (a * L + r)): continue
        return a, r
    return None
def append_const(ex, ini, L, elem, k):
    """blocks of one symbolic length L (the same in every iteration): position j belongs to iteration q with q*L <= j < (q+1)*L"""
    ctx = ex.ctx; I = z3.IntSort(); Lz = zi(L)
    q = ctx.fresh_fn("blk", [I], I); j_ = z3.Int(fresh_name("j"))
    ctx.add_schema([j_], z3.Implies(z3.And(j_ >= 0, Lz > 0), z3.And(q(j_) >= 0, q(j_) * Lz <= j_, j_ < q(j_) * Lz + Lz)), pats=[[q(j_)]])
    def closed(kk):
        l0 = ini.len; total = i_mul(L, kk)
        def get(j):
            j = zi(j); dv = divide(j, Lz)
            if dv is not None: ctx.add_fact(z3.Implies(z3.And(dv[0] >= 0, dv[1] >= 0, dv[1] < Lz), z3.And(q(j) == dv[0], j - q(j) * Lz == dv[1])))
            r = z3.Int(fresh_name("r")); it = q(j)
            if dv is not None:
                # the block and the offset of this position, named so that they can be replaced
                g = ctx.fresh("off", I); ctx.add_fact(g == j - q(j) * Lz)
                ctx.add_fact(z3.Implies(z3.And(dv[0] >= 0, dv[1] >= 0, dv[1] < Lz), g == dv[1])); off = g
            else: off = j - q(j) * Lz
            return subst(subst(elem(r), [(r, off)]), [(k, it)])
        if isinstance(l0, int) and l0 == 0: return Vec(total, ("fn", get), ini.et)
        return Vec(i_add(l0, total), ("cat", ini.node, l0, ("fn", get), total), ini.et)
    return closed
def affine(t, k):
    """t = a + s*k -> (a, s) with s free of k"""
    t = zi(t) 
    if not is_z3(t): return None
    s = z3.simplify(z3.substitute(t, (k, k + 1)) - t, som=True)
    if occurs(s, k): return None
    a = z3.simplify(z3.substitute(t, (k, z3.IntVal(0))))
    return _normi(a), _normi(s)
def try_overwrite(l, o, k, depends):
    """every iteration writes the same positions, with values that do not depend on the vector: the last iteration's values remain"""
    ini = l.init; kn = k.decl().name(); own = set(l.syms)
    def fixed(t): return not is_z3(t) or not depends(t) and not (consts_of(t) & own) and kn not in consts_of(t)
    def fresh_val(v):
        x = as_scalar(v)
        if is_z3(x): x = z3.simplify(x, som=True)
        return x is not None and not depends(x) and not (is_z3(x) and consts_of(x) & own)
    w = []; n = o.node; z = z3.Int("probe#i")
    while n is not l.hav.node:
        if n[0] == "set":
            if not fixed(n[2]) or not fresh_val(n[3]): return False
        elif n[0] == "reg":
            if not fixed(n[2]) or not fixed(n[3]) or not fresh_val(n[4](z)): return False
        else: return False
        w.append(n); n = n[1]
    def closed(kk):
        if isinstance(kk, int) and kk == 0: return ini
        at = [(k, zi(i_sub(kk, 1)))]; node = ini.node
        for n in reversed(w):
            if n[0] == "set": node = ("set", node, n[2], subst(n[3], at))
            else: node = ("reg", node, n[2], n[3], lambda i, f=n[4]: subst(f(i), at))
        v = Vec(ini.len, node, ini.et)
        return v if isinstance(kk, int) else ite(i_le(kk, 0), ini, v)
    l.closed = closed; l.how = "overwrite"; return True
def try_regions(ex, l, o, regs, k, depends, run, leaves, vec):
    """indexed writes: iteration k writes only positions determined by an injective affine function of k"""
    ini = l.init
    if not regs: return False
    axis = None
    cand = [0] if vec else [0, 1]
    for ax in cand:
        ok = True; desc = None
        for rg in regs:
            st, n = (rg[0], rg[1]) if vec else ((rg[0], rg[1]) if ax == 0 else (rg[2], rg[3]))
            af = affine(st, k)
            if af is None or same(af[1], 0): ok = False; break
            a, s = af
            if depends(zi(a)) or (is_z3(s) and depends(s)) or (is_z3(n) and depends(n)): ok = False; break
            if desc is None: desc = (a, s, n)
            else:
                if not same(desc[0], a) and not (is_z3(zi(desc[0])) and z3.simplify(zi(desc[0]) - zi(a)).eq(z3.IntVal(0))): ok = False; break
                if not same(desc[1], s) or not same(desc[2], n): ok = False; break
        if not ok: continue
        a, s, n = desc
        if same(n, 1) and s in (1, -1): axis = ax; break
        if same(s, n) or (is_z3(zi(s)) and is_z3(zi(n)) and z3.simplify(zi(s) - zi(n)).eq(z3.IntVal(0))): axis = ax; break
    if axis is None: return False
    # other coordinates / values may depend on the own base only at the written positions: evaluate with base := init
    l.closed = lambda kk: ini; 
    try: it = run()
    finally: l.closed = None
    if it.out is None: return False
    o2 = getp(ex, it.out[1], l.root, l.path)
    # own reads outside the written position would see earlier writes: check in the havoc'ed value
    if own_reads_elsewhere(ex, l, o, k, a, s, n, axis, vec): return False
    def idx_of(i):
        if same(s, 1): return i_sub(i, a)
        if same(s, -1): return i_sub(a, i)
        return zi(i_sub(i, a)) / zi(s)
    un = set(id(x) for x in leaves.values() if x.closed is None and x is not l)
    i_ = z3.Int("probe#i")
    if depends_any(depends, o2, un): return False
    if vec:
        def closed(kk):
            def val(i):
                q = idx_of(i)
                z = z3.Int(fresh_name("z"))
                return subst(subst(o2.get(z), [(k, zi(q))]), [(z, zi(i))])
            lo, cnt = (a, i_mul(s, kk)) if not same(s, -1) else (i_add(i_sub(a, kk), 1), kk)
            return Vec(ini.len, ("reg", ini.node, lo, cnt, val), ini.et)
    else:
        ini_node = ini.node if ini.node is not None else ("fn", ini.get)
        # extent in the other axis
        oth = None
        for rg in regs:
            e = (rg[2], rg[3]) if axis == 0 else (rg[0], rg[1])
            if is_z3(e[0]) and occurs(e[0], k) or is_z3(e[1]) and occurs(e[1], k): oth = None; break
            if oth is None: oth = e
            elif not (same(oth[0], e[0]) and same(oth[1], e[1])):
                # union of constant extents
                if all(isinstance(x, int) for x in oth + e):
                    lo = min(oth[0], e[0]); hi = max(oth[0] + oth[1], e[0] + e[1]); oth = (lo, hi - lo)
                else: oth = (0, ini.c if axis == 0 else ini.r); break
        if oth is None: oth = (0, ini.c if axis == 0 else ini.r)
        def closed(kk):
            def val(i, j):
                q = idx_of(i if axis == 0 else j)
                z, w = z3.Int(fresh_name("z")), z3.Int(fresh_name("w"))
                za = i if isinstance(i, int) else z; wa = j if isinstance(j, int) else w
                return subst(subst(o2.get(za, wa), [(k, zi(q))]), [(z, zi(i)), (w, zi(j))])
            lo, cnt = (a, i_mul(s, kk)) if not same(s, -1) else (i_add(i_sub(a, kk), 1), kk)
            if axis == 0: return Mat(ini.r, ini.c, None, ("reg", ini_node, lo, cnt, oth[0], oth[1], val), ini.arr)
            return Mat(ini.r, ini.c, None, ("reg", ini_node, oth[0], oth[1], lo, cnt, val), ini.arr)
    l.closed = closed; l.how = "indexed"
    return True
def depends_any(depends, o2, un):
    try: return bool(depends(o2) & un)
    except EmptyRead: return False
def own_reads_elsewhere(ex, l, o, k, a, s, n, axis, vec):
    """do the values written in iteration k read positions of the own base other than the written ones?"""
    own = l.syms
    apps = []
    def collect(t):
        st = [t]; seen = set()
        while st:
            x = st.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if is_uf_app(x) and x.decl().name() in own: apps.append(x)
            st.extend(x.children())
    p = z3.Int(fresh_name("pos")); w = z3.Int(fresh_name("pos"))
    terms = []
    def walk(v):
        if is_z3(v): terms.append(v)
        elif isinstance(v, R): terms.append(v.v); (terms.append(v.st) if is_z3(v.st) else None)
        elif isinstance(v, Struct): [walk(x) for x in v.f.values()]
        elif isinstance(v, Vec): walk(v.len); walk(v.get(w)) if v.node[0] != "lit" or v.node[1] else None
        elif isinstance(v, Mat):
            for i in (range(v.r) if isinstance(v.r, int) else [w]):
                for j in (range(v.c) if isinstance(v.c, int) else [w]): walk(v.get(i, j))
        elif isinstance(v, Maybe): walk(v.c); walk(v.a); walk(v.b)
    try:
        if vec: walk(o.get(p))
        else: walk(o.get(p, w))
    except EmptyRead: return False
    for t in terms: collect(t)
    ok_idx = [p, w] 
    np_ = 1 + len([q for q in ex.ctx.params])
    for x in apps:
        args = x.children()
        # leading arguments are loop parameters; then the position
        good = False
        for y in args:
            if y.eq(p) or y.eq(w): good = True
            else:
                z = z3.simplify(y - (zi(a) + zi(s) * k)) if z3.is_int(y) else None
                if z is not None and z3.is_int_value(z) and same(n, 1) and z.as_long() == 0: good = True
        if not good: return True
    return False

def recursion(ex, unsolved, outst, k, base_pc):
    """exact definition of the remaining leaves as ghost functions of the iteration number"""
    ctx = ex.ctx; I = z3.IntSort()
    pairs = []      # z3 function substitutions havoc-symbol(k, ..) -> ghost(k, ..)
    # the havoc symbols already are functions of (enclosing params, k): use them directly as ghost functions
    for l in unsolved:
        h, ini = l.hav, l.init
        o = getp(ex, outst, l.root, l.path)
        l.closed = (lambda kk, l=l: subst(l.hav, [(k, zi(kk))])); l.how = "recursion"
        n0 = len(ctx.schemas)
        eqs(ex, l.hav, o, ini, k, base_pc)
        # these equations are only of use where the leaf itself is mentioned
        ids = set(l.syms)
        if ids:
            for s in ctx.schemas[n0:]: s.defines = ids
def eqs(ex, h, o, ini, k, pc):
    ctx = ex.ctx
    nxt = lambda x: subst(x, [(k, k + 1)])
    zero = lambda x: subst(x, [(k, z3.IntVal(0))])
    g = pc + [k >= 0]
    if isinstance(h, Uninit): return        # stays unreadable: any later read is refused
    o = ex.res(o)
    if isinstance(h, R):
        if not isinstance(o, R): o = ex.real(o)
        if not isinstance(ini, R): raise Unsupported("recursion init")
        if h.st is not None:      # statuses (NaN, infinities) are part of the recursion; the value only matters while finite
            so, si = (z3.IntVal(0) if x.st is None else zi(x.st) for x in (o, ini))
            ctx.add_fact(z3.And(zero(h.st) == si, z3.Implies(si == 0, zero(h).v == ini.v)), pc)
            n = nxt(h); add_step(ctx, k, z3.And(n.st == so, z3.Implies(so == 0, n.v == o.v)), g)
            return
        if not fin(o) or not fin(ini): raise Unsupported("recursion over non-finite values")
        ctx.add_fact(zero(h).v == ini.v, pc)
        add_step(ctx, k, nxt(h).v == o.v, g)
        minmax_lemma(ex, h.v, o.v, ini.v, k, pc)
        return
    if is_z3(h):
        oz, iz = as_scalar(o), as_scalar(ini)
        ctx.add_fact(zero(h) == iz, pc)
        add_step(ctx, k, nxt(h) == oz, g)
        last_lemma(ex, h, oz, iz, k, pc)
        return
    if isinstance(h, Struct):
        for f in h.f: eqs(ex, h.f[f], o.f[f], ini.f[f], k, pc)
        return
    if isinstance(h, Mat) and h.cells is not None:
        for a, b, c in zip(h.cells, o.cells, ini.cells): eqs(ex, a, b, c, k, pc)
        return
    if isinstance(h, Vec):
        hl, ol, il = zi(h.len), zi(o.len), zi(ini.len)
        ctx.add_fact(zero(hl) == il, pc)
        add_step(ctx, k, nxt(hl) == ol, g)
        i = z3.Int(fresh_name("i"))
        eq_elem(ex, h, o, ini, i, k, pc, [i])
        return
    raise Unsupported("recursion over " + kind(h))
def add_step(ctx, k, body, pc):
    # instantiate where the successor state or the state itself is mentioned
    ctx.add_schema([k], body, pc)
def eq_elem(ex, h, o, ini, i, k, pc, vs):
    ctx = ex.ctx
    hi = h.get(i)
    try: oi = o.get(i)
    except EmptyRead: oi = None
    try: ii = ini.get(i)
    except EmptyRead: ii = None
    def go(a, b, c):
        if isinstance(a, R):
            a_, b_, c_ = a.v, (ex.real(b).v if b is not None else None), (ex.real(c).v if c is not None else None)
        elif is_z3(a): a_, b_, c_ = a, (as_scalar(b) if b is not None else None), (as_scalar(c) if c is not None else None)
        elif isinstance(a, Struct):
            for f in a.f: go(a.f[f], b.f[f] if b is not None else None, c.f[f] if c is not None else None)
            return
        elif isinstance(a, Mat) and a.cells is not None:
            for n in range(len(a.cells)): go(a.cells[n], b.cells[n] if b is not None else None, c.cells[n] if c is not None else None)
            return
        elif isinstance(a, Vec):
            if b is not None: ctx.add_schema(vs + [k], subst(zi(a.len), [(k, k + 1)]) == zi(b.len), pc + [k >= 0])
            if c is not None: ctx.add_schema(vs, subst(zi(a.len), [(k, z3.IntVal(0))]) == zi(c.len), pc)
            j = z3.Int(fresh_name("i"))
            eq_elem(ex, a, b if b is not None else a, c if c is not None else a, j, k, pc, vs + [j]) if b is not None else None
            return
        elif isinstance(a, Mat):
            for d in ("r", "c"): go(z3.IntVal(getattr(a, d)) if isinstance(getattr(a, d), int) else getattr(a, d), getattr(b, d) if b is not None else None, getattr(c, d) if c is not None else None)
            r, s = z3.Int(fresh_name("r")), z3.Int(fresh_name("c")); x = a.get(r, s)
            y, z = (ex.real(b.get(r, s)).v if b is not None else None), (ex.real(c.get(r, s)).v if c is not None else None)
            if y is not None: ctx.add_schema(vs + [r, s, k], subst(ex.real(x).v, [(k, k + 1)]) == y, pc + [k >= 0])
            if z is not None: ctx.add_schema(vs + [r, s], subst(ex.real(x).v, [(k, z3.IntVal(0))]) == z, pc)
            return
        else: raise Unsupported("recursion element " + kind(a))
        if b_ is not None: ctx.add_schema(vs + [k], subst(a_, [(k, k + 1)]) == b_, pc + [k >= 0])
        if c_ is not None: ctx.add_schema(vs, subst(a_, [(k, z3.IntVal(0))]) == c_, pc)
    go(hi, oi, ii)
def minmax_lemma(ex, h, o, ini, k, pc):
    """m(k+1) = If(t(k) < m(k), t(k), m(k)) (either direction, strict or not): m(k) bounds every earlier t(j), and is attained.
    Guarded form If(c(k) and t(k) < m(k), ...) bounds the t(j) with c(j)."""
    ctx = ex.ctx
    o = z3.simplify(o)
    if not (z3.is_app(o) and o.decl().kind() == z3.Z3_OP_ITE): return
    c, a, b = o.children()
    if b.eq(h): t, hit = a, c
    elif a.eq(h): t, hit = b, z3.Not(c)
    else: return
    if occurs_app(t, h): return
    n = z3.Int(fresh_name("n")); H = lambda x: z3.substitute(h, (k, x))
    # direction: does a hit imply t < m or t > m ?
    for sgn in (-1, 1):
        s = z3.Solver(); s.set("timeout", 500)
        s.add(hit, (t > h) if sgn < 0 else (t < h))
        if s.check() == z3.unsat:
            w = ctx.fresh_fn("argw", [z3.IntSort()], z3.IntSort())
            # monotone, attained (lemmas by induction on the defining equation)
            ctx.add_schema([n], z3.Implies(n >= 0, (H(n) <= ini) if sgn < 0 else (H(n) >= ini)), pc, pats=[[H(n)]])
            hw = z3.substitute(hit, (k, w(n))); tw = z3.substitute(t, (k, w(n)))
            ctx.add_schema([n], z3.Implies(n >= 0, z3.Or(z3.And(H(n) == ini, w(n) == -1), z3.And(w(n) >= 0, w(n) < n, hw, H(n) == tw))), pc, pats=[[H(n)]])
            # bound: if, for the guard part g(k) of the condition, (g and not hit) implies t >= m
            g = guard_part(hit, h)
            s2 = z3.Solver(); s2.set("timeout", 500)
            s2.add(g, z3.Not(hit), (t < h) if sgn < 0 else (t > h))
            if s2.check() == z3.unsat:
                j = z3.Int(fresh_name("j"))
                gj = z3.substitute(g, (k, j)); tj = z3.substitute(t, (k, j))
                ctx.add_schema([n, j], z3.Implies(z3.And(j >= 0, j < n, gj), (H(n) <= tj) if sgn < 0 else (H(n) >= tj)), pc)
            return
def guard_part(c, h):
    if z3.is_and(c):
        gs = [x for x in c.children() if not occurs_app(x, h)]
        return z3.And(*gs) if gs else z3.BoolVal(True)
    return z3.BoolVal(True)
def occurs_app(t, h): return occurs(t, h)
def last_lemma(ex, h, o, ini, k, pc):
    """x(k+1) = If(c(k), v(k), x(k)): x(n) is the value written by the last j<n with c(j), or the initial value"""
    ctx = ex.ctx
    o = z3.simplify(o)
    c = None
    if z3.is_bool(h):
        # flag := flag or c  /  flag := flag and c
        if z3.is_or(o) and any(x.eq(h) for x in o.children()):
            rest = [x for x in o.children() if not x.eq(h)]; c = z3.Or(*rest); v = z3.BoolVal(True)
        elif z3.is_and(o) and any(x.eq(h) for x in o.children()):
            rest = [x for x in o.children() if not x.eq(h)]; c = z3.Not(z3.And(*rest)); v = z3.BoolVal(False)
    if c is None and z3.is_app(o) and o.decl().kind() == z3.Z3_OP_ITE:
        cc, a, b = o.children()
        if b.eq(h): c, v = cc, a
        elif a.eq(h): c, v = z3.Not(cc), b
    if c is None or occurs(v, h) or occurs(c, h): return
    n = z3.Int(fresh_name("n")); j = z3.Int(fresh_name("j")); H = lambda x: z3.substitute(h, (k, x))
    w = ctx.fresh_fn("last", [z3.IntSort()], z3.IntSort())
    cw, vw, cj = z3.substitute(c, (k, w(n))), z3.substitute(v, (k, w(n))), z3.substitute(c, (k, j))
    ctx.add_schema([n], z3.Implies(n >= 0, z3.Or(z3.And(w(n) == -1, H(n) == ini), z3.And(w(n) >= 0, w(n) < n, cw, H(n) == vw))), pc, pats=[[H(n)]])
    ctx.add_schema([n, j], z3.Implies(z3.And(j > w(n), j >= 0, j < n), z3.Not(cj)), pc)

# ---------------------------------------------------------------- trip count
def trip_count(ex, c, k, pc):
    ctx = ex.ctx
    if c is True: c = z3.BoolVal(True)
    if c is False: return 0
    # conjunction of several conditions: general case
    cs = c
    op = cs.decl().kind() if z3.is_app(cs) else None
    def lin(t):
        s = z3.simplify(z3.substitute(t, (k, k + 1)) - t, som=True)
        if z3.is_int_value(s) and s.as_long() != 0: return z3.simplify(z3.substitute(t, (k, z3.IntVal(0)))), s.as_long()
        return None
    neg = False
    if z3.is_not(cs): neg = True; cs = cs.arg(0); op = cs.decl().kind()
    if op in (z3.Z3_OP_LT, z3.Z3_OP_LE, z3.Z3_OP_GT, z3.Z3_OP_GE, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and z3.is_int(cs.arg(0)):
        t = cs.arg(0) - cs.arg(1)
        if op in (z3.Z3_OP_GT, z3.Z3_OP_GE): t = -t; op = z3.Z3_OP_LT if op == z3.Z3_OP_GT else z3.Z3_OP_LE
        if neg and op in (z3.Z3_OP_LT, z3.Z3_OP_LE): t = -t; op = z3.Z3_OP_LE if op == z3.Z3_OP_LT else z3.Z3_OP_LT
        elif neg and op == z3.Z3_OP_EQ: op = z3.Z3_OP_DISTINCT
        elif neg: op = None
        l = lin(t)
        if l and op in (z3.Z3_OP_LT, z3.Z3_OP_LE):
            t0, s = l
            if s > 0:
                up = -t0 if op == z3.Z3_OP_LT else 1 - t0      # iterations while s*k < up
                n = up if s == 1 else (up + (s - 1)) / z3.IntVal(s)
                n = z3.simplify(n)
                if z3.is_int_value(n): return max(0, n.as_long())
                # in the muted runs a form that could not be decided before is not tried again
                import re
                tried = ctx.__dict__.setdefault("_trips", {}); key = re.sub(r"!\d+", "", n.sexpr()[:400])
                if not (ctx.mute and tried.get(key, 0) >= 2):
                    if ex.quick(n >= 0): return name_n(ex, n, pc)
                    tried[key] = tried.get(key, 0) + 1
                return name_n(ex, z3.If(n >= 0, n, z3.IntVal(0)), pc)
        if l and op == z3.Z3_OP_DISTINCT and l[1] in (1, -1):
            n = z3.simplify(-l[0] if l[1] == 1 else l[0])
            save = ex.pc; ex.pc = list(pc)
            if z3.is_int_value(n): return n.as_long()
            ex.oblige(n >= 0, "loop termination")
            ex.pc = save
            return name_n(ex, n, pc)
    N = ctx.fresh("N", z3.IntSort())
    ctx.add_fact(N >= 0, pc)
    ctx.add_schema([k], z3.Implies(z3.And(k >= 0, k < N), c), pc)
    ctx.add_fact(z3.Not(z3.substitute(c, (k, N))), pc)
    ctx.assumptions.add("termination of loops without a recognised counter is assumed (partial correctness)")
    return N
def name_n(ex, n, pc): return _normi(n)
