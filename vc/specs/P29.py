"""P29: start and goal attach only to near, same-slice vertices (getNearestNeighborsOnGraph of HRM2D and HRM3D)."""
from ..unit import *
from ..lib import *
from .P02 import arg
from .P14 import Roadmap, P, LIM
from .srcs import *
from ..eigen import quat, qs
from ..ctx import consts_of
TUS = ["src/planners/HRM2D.cpp", "src/planners/HRM3D.cpp", "src/planners/ProbHRM3D.cpp"]
ORACLE_SRC = PLANA; ORACLE_LIBS = ALL
ASSUMPTIONS = ["all configurations of a roadmap have the same number of coordinates (P19)", "at least one neighbour is requested"]
IS, RS, BS = z3.IntSort(), z3.RealSort(), z3.BoolSort()
def az(x): return z3.If(x >= 0, x, -x)
def near(U, cls):
    m = Roadmap(U, cls); o = m.o; d = m.d; n = U.int("slices", 1); k = U.int("k", 1); U.assume(z3.And(n < LIM, k < LIM)); rad = U.real("radius").v
    q = U.vec(REAL, "query", m.D); pr = o.f["param_"]; bl = pr.f["boundaryLimits"]; o = o.with_("param_", pr.with_("boundaryLimits", Vec(2 * d, bl.node, bl.et)).with_("numLineY", U.int("ny", 1)).with_("numLineX", U.int("nx", 1)))
    x = [q.get(c).v for c in range(m.D)]; dist = lambda i: m.DIST(*x, *m.x(i)); c = 1 if d == 2 else 4; col = [2] if d == 2 else [3, 4, 5, 6]
    HD = [z3.Function("orientation%d" % j, IS, RS) for j in range(c)]; H = lambda i: [f(zi(i)) for f in HD]; V = lambda i: [m.VX(zi(i), z3.IntVal(j)) for j in col]; Q = [x[j] for j in col]
    if d == 2: o = o.with_("headings_", Vec(n, ("fn", lambda i: R(HD[0](zi(i)))), REAL)); gap = lambda a, b: az(a[0] - b[0]); cand, N = V, m.nv
    else:
        o = o.with_("q_", Vec(n, ("fn", lambda i: quat(*[R(v) for v in H(i)])), None)); AD = z3.Function("angularDistance", *([RS] * 9)); cand, N = H, n
        gap = lambda a, b: AD(*a, *b); qs4 = lambda ex, v: [ex.real(y).v for y in qs(ex, v)]
        U.ex.contracts["eigen:angularDistance"] = lambda ex, e, lv, v: R(AD(*qs4(ex, v), *qs4(ex, ex.ev(e["args"][0]))))
    EPS = z3.Q(1, 10 ** 6); W = U.ctx.fresh_fn("closest", [IS], IS); done = []
    val = lambda v: [U.ex.real(v).v] if isinstance(v, R) else [U.ex.real(y).v for y in qs(U.ex, v)]
    def hook(L):
        G = lambda st, l: L.get(st, l.root, l.path); ls = [l for l in L.leaves.values() if l.how in ("recursion", "append")]
        rl = [l for l in ls if isinstance(l.hav, R) and l.how == "recursion"]; bo = [l for l in ls if is_z3(l.hav) and z3.is_bool(l.hav)]; it = [l for l in ls if is_z3(l.hav) and z3.is_int(l.hav)]
        if bo and it and rl:                                    # nearest vertex of one slice
            refs = [("l", U.ex.rd(x)) for x in U.ex.frames[-1].refs.values() if isinstance(x, LV) and x.path]          # range-for variable bound by reference
            lits = [v for key, v in list(L.state(z3.IntVal(0)).items()) + [((r[0],), r[1]) for r in refs] if key[0] == "l" and (isinstance(v, R) or isinstance(v, Struct) and v.cls == "Quat") and "orientation0" in consts_of(z3.And(*[y == 0 for y in val(v)]))]
            if len(lits) != 1: raise Unsupported("orientation of the current slice")
            cur = val(lits[0]); U.ctx.slice_of = (cur[0], list(U.ctx.params)); b, i = bo[0], it[0]; r = [l for l in rl if l.init.st is not None][0]; ins = lambda j: gap(cur, V(j)) < EPS if d == 3 else az(V(j)[0] - cur[0]) < EPS
            L.prove_invariants([("nearest so far: found", (), lambda kk, st: z3.And(zb(G(st, b)) == (G(st, r).st == 0), z3.Or(G(st, r).st == 0, G(st, r).st == 2), z3.Implies(zb(G(st, b)), z3.And(zi(G(st, i)) >= 0, zi(G(st, i)) < kk, ins(G(st, i)), G(st, r).v == dist(zi(G(st, i))))))),
                ("nearest so far: minimal", ("j",), lambda kk, st, j: z3.Implies(z3.And(j >= 0, j < kk, ins(j)), z3.And(zb(G(st, b)), G(st, r).v <= dist(j))))])
        elif any(l.how == "append" for l in ls) and not rl and not done_list and L.fn["q"].endswith("getNearestNeighborsOnGraph"):
            l = [l for l in ls if l.how == "append"][0]; done_list.append(1)
            L.prove_invariants([("the list is not yet full", (), lambda kk, st: zi(G(st, l).len) < k)])
        elif rl and not done:                                   # closest orientation
            done.append(1); ix = lambda l: next((a for a, y in enumerate(cand(0)) if val(l.init)[0].eq(y)), None); ds = [l for l in rl if isinstance(l.hav, R) and ix(l) is None]; qs_ = sorted([l for l in ls if l not in ds], key=ix)
            if len(ds) != 1: raise Unsupported("closest slice loop")
            cur = lambda st: sum([val(G(st, l)) for l in qs_], []); D = lambda st: G(st, ds[0]).v
            kk = z3.Int("kk!w"); U.ctx.add_fact(W(z3.IntVal(0)) == 0); U.ctx.add_schema([kk], z3.Implies(kk >= 0, W(kk + 1) == z3.If(gap(Q, cand(kk)) < D(L.state(kk)), kk, W(kk))))
            L.prove_invariants([("closest so far", (), lambda kk, st: z3.And(W(kk) >= 0, z3.Or(W(kk) < kk, W(kk) == 0), D(st) == gap(Q, cand(W(kk))), *[a == b for a, b in zip(cur(st), cand(W(kk)))])),
                ("no closer one so far", ("j",), lambda kk, st, j: z3.Implies(z3.And(j >= 0, j < kk), D(st) <= gap(Q, cand(j))))])
    done_list = []; U.ex.loop_specs.append(hook)
    U.cover("precondition"); p = U.loc(o); res = U.val(U.call(P + cls + "::getNearestNeighborsOnGraph", p, [U.loc(q), k, R(rad)]))
    t = U.forall("t", 0); U.assume(t < zi(res.len)); v = zi(res.get(t)); C = W(N); j = U.forall("j", 0, N)
    U.prove(z3.And(v >= 0, v < m.nv), "an offered vertex exists"); U.prove(zi(res.len) <= k, "at most the requested number")
    U.prove(z3.Implies(m.nv > 0, z3.And(C >= 0, C < N, gap(Q, cand(C)) <= gap(Q, cand(j)))), "the reference orientation is the closest one")
    c0, ps = U.ctx.__dict__.get("slice_of", (None, [])); a = v
    while z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ITE: a = a.arg(1) if not z3.is_app(a.arg(2)) or a.arg(2).num_args() != 2 else a.arg(2)
    if c0 is None or len(ps) != 1 or not (z3.is_app(a) and a.num_args() == 2): raise Unsupported("origin of an offered vertex")
    def index(x):
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE: return z3.If(x.arg(0), index(x.arg(1)), index(x.arg(2)))
        if z3.is_app(x) and x.decl().name() == "orientation0": return x.arg(0)
        return z3.IntVal(-1)
    h = z3.substitute(index(c0), (ps[0], a.arg(0))); j2 = U.forall("other", 0, m.nv); ins = lambda j: gap(H(h), V(j)) < EPS if d == 3 else az(V(j)[0] - H(h)[0]) < EPS
    U.prove(z3.And(h >= 0, h < n), "an offered vertex comes from a slice"); U.prove(gap(cand(C), H(h)) < rad, "whose orientation is within the radius of the closest one")
    U.prove(ins(v), "and has that slice's orientation"); U.prove(z3.Implies(ins(j2), dist(v) <= dist(j2)), "and is the nearest vertex of that slice")
def unit_near2(U):
    """HRM2D::getNearestNeighborsOnGraph, any roadmap, headings, query, k >= 1 and radius: every offered vertex exists and is the nearest vertex of a slice whose heading is within the radius of the orientation closest to the query; at most k are offered"""
    near(U, "HRM2D")
def unit_near3(U):
    """HRM3D::getNearestNeighborsOnGraph: the same with angular distances of the sampled orientations"""
    near(U, "HRM3D")
UNITS = [unit_near2, unit_near3]
