"""Lemma-directed rewriting: sub-terms that agree with a target at random points are replaced by the target after an
obligation (decided by the algebraic back end) shows them equal.  The numeric evaluation only selects candidates."""
import z3, math, random
class Bad(Exception): pass
class Num:
    def __init__(self, ctx, rnd, env=None):
        self.ctx = ctx; self.rnd = rnd; self.env = dict(env or {}); self.memo = {}; self.keep = []; self.uf = []
        self.defs = {}
        for v in ctx.__dict__.get("quots", {}).values(): self.defs[v[1].decl().get_id()] = (v[1], lambda s, v=v: self.ev(s(v[2])) / self.ev(s(v[3])))
        for g, t in ctx.__dict__.get("defs", []): self.defs[g.decl().get_id()] = (g, lambda s, t=t: self.ev(s(t)))
    def ev(self, t):
        k = t.get_id()
        if k not in self.memo: self.keep.append(t); self.memo[k] = self._ev(t)
        return self.memo[k]
    def _ev(self, t):
        if z3.is_rational_value(t): return t.numerator_as_long() / t.denominator_as_long()
        if z3.is_int_value(t): return t.as_long()
        if z3.is_true(t): return True
        if z3.is_false(t): return False
        if not z3.is_app(t): raise Bad
        K = t.decl().kind(); c = t.children(); e = self.ev
        if K == z3.Z3_OP_ADD: return sum(e(x) for x in c)
        if K == z3.Z3_OP_SUB: return e(c[0]) - sum(e(x) for x in c[1:])
        if K == z3.Z3_OP_UMINUS: return -e(c[0])
        if K == z3.Z3_OP_MUL:
            r = 1
            for x in c: r *= e(x)
            return r
        if K in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD):
            a, b = e(c[0]), e(c[1])
            if b == 0: raise Bad
            return a / b if K == z3.Z3_OP_DIV else a // b if K == z3.Z3_OP_IDIV else a % b
        if K == z3.Z3_OP_POWER: return e(c[0]) ** e(c[1])
        if K == z3.Z3_OP_TO_REAL: return e(c[0])
        if K == z3.Z3_OP_ITE: return e(c[1]) if e(c[0]) else e(c[2])
        if K == z3.Z3_OP_NOT: return not e(c[0])
        if K == z3.Z3_OP_AND: return all(e(x) for x in c)
        if K == z3.Z3_OP_OR: return any(e(x) for x in c)
        if K == z3.Z3_OP_IMPLIES: return not e(c[0]) or e(c[1])
        if K == z3.Z3_OP_LE: return e(c[0]) <= e(c[1])
        if K == z3.Z3_OP_LT: return e(c[0]) < e(c[1])
        if K == z3.Z3_OP_GE: return e(c[0]) >= e(c[1])
        if K == z3.Z3_OP_GT: return e(c[0]) > e(c[1])
        if K == z3.Z3_OP_EQ: return e(c[0]) == e(c[1])
        if K == z3.Z3_OP_DISTINCT: return e(c[0]) != e(c[1])
        if K == z3.Z3_OP_UNINTERPRETED:
            d = self.defs.get(t.decl().get_id())
            if d is not None:
                sub = list(zip(d[0].children(), c))
                return d[1](lambda x: z3.substitute(x, *sub) if sub else x)
            n = t.decl().name()
            if n in self.env and not c: return self.env[n]
            if len(c) == 1 and t.sort() == z3.RealSort() and c[0].sort() == z3.RealSort() and n in ("sqrt", "sin", "cos"):
                x = e(c[0])
                if n == "sqrt" and x < 0: raise Bad
                return getattr(math, n)(x)
            if n == "atan2" and len(c) == 2: return math.atan2(e(c[0]), e(c[1]))
            a = tuple(e(x) for x in c)
            for u, b, v in self.uf:
                if u == t.decl().get_id() and b == a: return v
            s = t.sort(); v = self.rnd.uniform(-2, 2) if s == z3.RealSort() else self.rnd.randint(0, 5) if s == z3.IntSort() else self.rnd.random() < .5
            self.uf.append((t.decl().get_id(), a, v)); return v
        raise Bad
def close(a, b): return math.isfinite(a) and math.isfinite(b) and abs(a - b) <= 1e-8 * (1 + abs(a) + abs(b))
def rewrite(U, term, targets, env=None, label="value", limit=40):
    """term with its sub-terms replaced by equal targets (list of terms); emits one lemma obligation per replaced sub-term"""
    ctx = U.ctx; pts = []; rnd = random.Random(7); tries = 0
    while len(pts) < 6 and tries < 60:
        tries += 1
        n = Num(ctx, rnd, env(rnd) if callable(env) else env)
        try: pts.append((n, [n.ev(t) for t in targets]))
        except (Bad, ZeroDivisionError, OverflowError): continue
    if not pts: return term
    memo = {}; keep = []; cnt = [0]; ids = {t.get_id(): t for t in targets}
    def match(t):
        try: vs = [n.ev(t) for n, _ in pts]
        except (Bad, ZeroDivisionError, OverflowError, RecursionError): return None
        for k, g in enumerate(targets):
            if all(close(v, w[k]) for v, (_, w) in zip(vs, pts)): return g
        return None
    def go(t):
        i = t.get_id()
        if i in memo: return memo[i]
        keep.append(t); r = t
        if z3.is_app(t):
            simple = t.num_args() == 0 and t.decl().get_id() not in pts[0][0].defs
            if t.sort() == z3.RealSort() and not simple and i not in ids and not z3.is_rational_value(t) and t.decl().kind() != z3.Z3_OP_ITE and cnt[0] < limit:
                g = match(t)
                if g is not None:
                    cnt[0] += 1; U.prove_alg(t == g, "%s: %s" % (label, str(g)[:40])); memo[i] = g; return g
            if t.num_args():
                ch = t.children(); nc = [go(c) for c in ch]
                if any(a.get_id() != b.get_id() for a, b in zip(ch, nc)): r = z3.substitute(t, *[(a, b) for a, b in zip(ch, nc) if a.get_id() != b.get_id()]) if t.decl().kind() != z3.Z3_OP_ITE else z3.If(*nc)
        memo[i] = r; return r
    return go(term)
