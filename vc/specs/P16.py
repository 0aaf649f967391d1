"""P16: a reported path is a walk of the roadmap from start to goal (HighwayRoadMap::search, getSolutionPath, AStarGoalVisitor)."""
from ..unit import *
from ..lib import *
from .P02 import arg
from .srcs import *
TUS = ["src/planners/HRM2D.cpp", "src/planners/HRM3D.cpp"]
ORACLE_SRC = PLANA; ORACLE_LIBS = ALL
P = "hrm::planners::"
RS = z3.RealSort(); IS = z3.IntSort(); LIM = 2**31
ASSUMPTIONS = ["boost::astar_search: when the visitor stops at the goal, following predecessors from the goal reaches the start in fewer steps than there are vertices, over edges of the given graph, and the distance of the goal is the sum of their weights",
               "the roadmap has fewer than 2^31 vertices; edges join existing vertices and each edge has a weight (P14)",
               "no path is recorded before a search (fresh result, or left by an unsuccessful search)",
               "getNearestNeighborsOnGraph returns existing vertices (P29)"]
def walk(e, f):
    if isinstance(e, dict):
        if f(e): yield e
        for v in e.values(): yield from walk(v, f)
    elif isinstance(e, list):
        for v in e: yield from walk(v, f)
def named(e, n): return next(walk(e, lambda x: x.get("k") in ("Call", "MCall") and isinstance(x.get("fn"), dict) and x["fn"].get("n") == n), None)
def vec_var(e): return next(walk(e, lambda x: x.get("k") == "Var" and str(x.get("t", "")).startswith("std::vector<")), None)
def searching(U, cls):
    o = U.obj(P + cls, "planner"); g = o.f["res_"].f["graphStructure"]; nv, ne = U.int("vertices", 1), U.int("edges", 0); U.assume(z3.And(nv < LIM - 8, ne < 2**40)); d = 3 if cls == "HRM2D" else 7
    VX = z3.Function("vertexOf", IS, IS, RS); EA, EB = z3.Function("edgeFrom", IS, IS), z3.Function("edgeTo", IS, IS); WT = z3.Function("weightOf", IS, RS)
    PAIR = U.ex.res(g.f["edge"].get(0)).cls
    U.schema(["i"], lambda i: z3.Implies(z3.And(i >= 0, i < ne), z3.And(EA(i) >= 0, EA(i) < nv, EB(i) >= 0, EB(i) < nv)))
    g = g.with_("vertex", Vec(nv, ("fn", lambda i: Vec(d, ("fn", lambda j: R(VX(zi(i), zi(j)))), REAL)), g.f["vertex"].et)).with_("edge", Vec(ne, ("fn", lambda i: Struct(PAIR, {"first": EA(zi(i)), "second": EB(zi(i))})), g.f["edge"].et)).with_("weight", Vec(ne, ("fn", lambda i: R(WT(zi(i)))), REAL))
    sp = o.f["res_"].f["solutionPath"]; INT = sp.f["PathId"].et
    o = o.with_("res_", o.f["res_"].with_("graphStructure", g).with_("solutionPath", sp.with_("PathId", Vec(0, ("lit", ()), INT)).with_("cost", R(U.real("cost").v, U.int("costStatus", 0, 3)))).with_("solved", False))
    for k in ("start_", "goal_"): o = o.with_(k, U.vec(REAL, k, d))
    tag = {k: o.f[k].get(0).v for k in ("start_", "goal_")}
    # selected neighbours of a configuration (by its first coordinate), A* outcome for a pair of them
    NN = z3.Function("neighbour", RS, IS, IS); CN = z3.Function("neighbours", RS, IS)
    U.schema(["i"], lambda i: z3.And(*[z3.And(NN(t, i) >= 0, NN(t, i) < nv) for t in tag.values()]))
    for t in tag.values(): U.assume(z3.And(CN(t) >= 0, CN(t) < 2**40))
    FOUND = z3.Function("reaches", IS, IS, z3.BoolSort()); PRED = z3.Function("predecessor", IS, IS, IS, IS); DIST = z3.Function("distance", IS, IS, IS, RS)
    CH = z3.Function("trace", IS, IS, IS, IS); K = z3.Function("traceLength", IS, IS, IS); EDG = z3.Function("traceEdge", IS, IS, IS, IS)
    def joined(e, a, b): return z3.And(e >= 0, e < ne, z3.Or(z3.And(EA(e) == a, EB(e) == b), z3.And(EA(e) == b, EB(e) == a)))
    ok = lambda s, t, k: z3.And(k >= 0, FOUND(s, t))
    U.schema(["s", "t"], lambda s, t: z3.Implies(FOUND(s, t), z3.And(CH(s, t, 0) == t, K(s, t) >= 0, K(s, t) < nv, CH(s, t, K(s, t)) == s)), lambda s, t: [FOUND(s, t)])
    U.schema(["s", "t", "k"], lambda s, t, k: z3.Implies(ok(s, t, k), z3.And(CH(s, t, k) >= 0, CH(s, t, k) < nv)), lambda s, t, k: [CH(s, t, k)])
    U.schema(["s", "t", "k"], lambda s, t, k: z3.And(EDG(s, t, k) >= 0, z3.Implies(ok(s, t, k), CH(s, t, k + 1) == PRED(s, t, CH(s, t, k)))), lambda s, t, k: [EDG(s, t, k)])
    U.schema(["s", "t", "k"], lambda s, t, k: z3.Implies(z3.And(ok(s, t, k), k < K(s, t)), joined(EDG(s, t, k), CH(s, t, k), CH(s, t, k + 1))), lambda s, t, k: [EDG(s, t, k)])
    INS, ING = z3.Function("selectedStart", IS, z3.BoolSort()), z3.Function("selectedGoal", IS, z3.BoolSort()); JOIN = z3.Function("joinedByEdge", IS, IS, z3.BoolSort()); SUM = z3.Function("costOfTrace", IS, IS, RS, z3.BoolSort())
    # predicates known only of the selected neighbours, of the ends of roadmap edges and of the distances A* reports
    U.schema(["i"], lambda i: z3.And(z3.Implies(z3.And(i >= 0, i < CN(tag["start_"])), INS(NN(tag["start_"], i))), z3.Implies(z3.And(i >= 0, i < CN(tag["goal_"])), ING(NN(tag["goal_"], i)))))
    U.schema(["s", "t", "k"], lambda s, t, k: z3.Implies(z3.And(ok(s, t, k), k < K(s, t)), z3.And(JOIN(CH(s, t, k), CH(s, t, k + 1)), JOIN(CH(s, t, k + 1), CH(s, t, k)))), lambda s, t, k: [EDG(s, t, k)])
    U.schema(["s", "t"], lambda s, t: z3.Implies(FOUND(s, t), SUM(s, t, DIST(s, t, t))), lambda s, t: [FOUND(s, t)])
    C = U.ex.contracts; ex = U.ex
    ex.contracts["construct:boost::adjacency_list"] = lambda ex, e: Struct("Graph", {"n": ex.int(ex.ev(e["args"][0])), **{k: Vec(0, ("lit", ()), INT if k != "w" else REAL) for k in "abw"}})
    ex.contracts["construct:boost::property"] = lambda ex, e: ex.real(ex.ev(e["args"][0]))
    def add(ex, e):
        a, b = [ex.int(ex.ev(x)) for x in e["args"][:2]]; w = ex.real(ex.ev(e["args"][2])); lv = ex.lv(e["args"][3]); gr = ex.rd(lv)
        U.prove(z3.And(zi(a) < zi(gr.f["n"]), zi(b) < zi(gr.f["n"])), "edges join vertices of the search graph")
        for k, y in (("a", a), ("b", b), ("w", w)): gr = gr.with_(k, gr.f[k].push(y))
        ex.wr(lv, gr); return VOID
    C["c:boost::add_edge"] = add
    C["c:boost::num_vertices"] = lambda ex, e: ex.rd(ex.lv(e["args"][0])).f["n"]
    def near(ex, this, args, fn):
        me = ex.rd(this); q = arg(ex, args[0]); t = ex.real(q.get(0)).v
        U.prove(z3.And(zi(arg(ex, args[1])) == zi(me.f["param_"].f["numSearchNeighbor"])), "the requested number of neighbours is looked up")
        U.assume(z3.And(CN(t) >= 0, CN(t) < 2**40)); return Vec(CN(t), ("fn", lambda i: NN(t, zi(i))), None)
    key = lambda m: next(q for q in U.prog.byq if q.startswith(P + "HighwayRoadMap<") and q.endswith("::" + m) and ("2D" in q) == (cls == "HRM2D"))
    C[P + cls + "::getNearestNeighborsOnGraph"] = near
    try: C[key("getNearestNeighborsOnGraph")] = near
    except StopIteration: pass
    C["hrm::vectorEuclidean"] = lambda ex, this, args, fn: R(z3.Function("euclid", RS, RS, RS)(ex.real(arg(ex, args[0]).get(0)).v, ex.real(arg(ex, args[1]).get(0)).v))
    def astar(ex, e):
        gr = ex.rd(ex.lv(e["args"][0])); s = zi(ex.int(ex.ev(e["args"][1]))); par = e["args"][3]
        pm, dm, vi = named(par, "predecessor_map"), named(par, "distance_map"), named(par, "visitor")
        if not (pm and dm and vi): raise Unsupported("A* without predecessor map, distance map and visitor")
        gv = next(walk(vi["args"], lambda x: x.get("k") == "Construct" and "AStarGoalVisitor" in str(x.get("t", "")) and len(x.get("args", [])) == 1 and not str(x["args"][0].get("t", "")).count("AStarGoalVisitor")), None)
        pv, dv = vec_var(pm["args"]), vec_var(dm["args"])
        if not (gv and pv and dv): raise Unsupported("A* parameters of unexpected form")
        t = zi(ex.int(ex.ev(gv["args"][0])))
        U.prove(z3.And(zi(gr.f["n"]) == nv, *[zi(gr.f[k].len) == ne for k in "abw"]), "A* runs on a graph with the roadmap's vertices and edges: counts")
        i = U.forall("i", 0, ne)
        U.prove(z3.And(zi(gr.f["a"].get(i)) == EA(i), zi(gr.f["b"].get(i)) == EB(i), ex.real(gr.f["w"].get(i)).v == WT(i)), "A* runs on a graph with the roadmap's edges and weights")
        pl, dl = ex.lv(pv), ex.lv(dv)
        U.prove(z3.And(zi(ex.rd(pl).len) == nv, zi(ex.rd(dl).len) == nv), "A* maps have one entry per vertex")
        h = ex.ev(e["args"][2]); v = z3.Int(fresh_name("v"))
        ex.wr(pl, Vec(nv, ("fn", lambda i: PRED(s, t, zi(i))), None)); ex.wr(dl, Vec(nv, ("fn", lambda i: R(DIST(s, t, zi(i)))), REAL))
        U.cur = (s, t); ex.thrown = FOUND(s, t); return VOID
    C["c:boost::astar_search"] = astar
    def hook(L):
        if not L.fn["q"].endswith("::search"): return
        st = list(ex.frames[-1].refs.items())
        for l in L.leaves.values():
            if l.path and l.path[-1] == ("f", "PathId"): path = l; break
        else: return
        pth = lambda st: L.get(st, path.root, path.path)
        num = next((l for l in L.leaves.values() if not l.path and is_z3(l.hav) and z3.is_int(l.hav) and l.how in ("recursion", "counter", "sum", "append")), None)
        import os
        if os.environ.get("DBG"): print([(l.path, l.how, type(l.init).__name__) for l in L.leaves.values()], L.node.get("k"))
        if L.node.get("k") != "While": L.prove_invariants([("no path recorded so far", (), lambda kk, s_: zi(pth(s_).len) == 0)]); return
        S, T = U.cur
        L.prove_invariants([("the trace so far: length", (), lambda kk, s_: zi(pth(s_).len) == kk + 1), ("the next vertex of the trace", (), lambda kk, s_: z3.And(z3.If(EDG(S, T, kk) >= 0, CH(S, T, kk + 1), -1) == PRED(S, T, CH(S, T, kk)), CH(S, T, kk + 1) >= 0, CH(S, T, kk + 1) < nv, kk <= K(S, T), z3.Implies(kk < K(S, T), z3.If(EDG(S, T, kk) >= 0, JOIN(CH(S, T, kk), CH(S, T, kk + 1)), False)), z3.Implies(kk < K(S, T), z3.If(EDG(S, T, kk) >= 0, JOIN(CH(S, T, kk + 1), CH(S, T, kk)), False))), lambda: []), ("the last vertex of the trace", (), lambda kk, s_: zi(pth(s_).get(kk)) == CH(S, T, kk)), ("the trace so far", ("j",), lambda kk, s_, j: z3.Implies(z3.And(j >= 0, j <= kk), zi(pth(s_).get(j)) == CH(S, T, j))), ("consecutive vertices of the trace are joined", ("j",), lambda kk, s_, j: z3.Implies(z3.And(j >= 0, j < kk), z3.And(JOIN(zi(pth(s_).get(j)), zi(pth(s_).get(j + 1))), JOIN(zi(pth(s_).get(j + 1)), zi(pth(s_).get(j))))))])
    ex.loop_specs.append(hook)
    ex.no_quick = True
    U.cover("precondition")
    p = U.loc(o); U.call(key("search"), p, []); r = U.rd(p); R_ = r.f["res_"]; I = R_.f["solutionPath"].f["PathId"]; n = zi(I.len); ok = zb(R_.f["solved"])
    U.prove(z3.Implies(z3.Not(ok), n == 0), "no path is recorded unless solved")
    U.prove(z3.Implies(ok, n >= 1), "a reported path visits at least one vertex")
    U.prove(z3.Implies(ok, INS(zi(I.get(0)))), "a reported path begins at a selected start neighbour"); U.prove(z3.Implies(ok, ING(zi(I.get(n - 1)))), "a reported path ends at a selected goal neighbour")
    i = U.forall("i", 0); U.assume(i + 1 < n)
    U.prove(z3.Implies(ok, JOIN(zi(I.get(i)), zi(I.get(i + 1)))), "consecutive vertices of a reported path are joined by a roadmap edge")
    U.prove(z3.Implies(ok, z3.And(zi(I.get(i)) >= 0, zi(I.get(i)) < nv)), "a reported path visits existing vertices")
    c = R_.f["solutionPath"].f["cost"]
    U.prove(z3.Implies(ok, z3.And(zb(is_fin(c)), SUM(zi(I.get(0)), zi(I.get(n - 1)), c.v))), "the reported cost is the sum of the weights of the edges used")
def unit_search2(U):
    """HighwayRoadMap::search (planar), any roadmap, any lists of start and goal neighbours: A* runs on exactly the roadmap's vertices, edges and weights; whenever solved is set the recorded path begins at a selected start neighbour, ends at a selected goal neighbour, consecutive vertices are joined by a roadmap edge and the cost is A*'s distance of the goal"""
    searching(U, "HRM2D")
def unit_search3(U):
    """HighwayRoadMap::search (spatial)"""
    searching(U, "HRM3D")
def assembled(U, cls):
    o = U.obj(P + cls, "planner"); d = 3 if cls == "HRM2D" else 7; nv = U.int("vertices", 1); n = U.int("steps", 0); U.assume(z3.And(nv < LIM, n < LIM))
    VX = z3.Function("vertexOf", IS, IS, RS); ID = z3.Function("pathVertex", IS, IS); U.schema(["i"], lambda i: z3.And(ID(i) >= 0, ID(i) < nv))
    res = o.f["res_"]; g = res.f["graphStructure"]; sp = res.f["solutionPath"]
    g = g.with_("vertex", Vec(nv, ("fn", lambda i: Vec(d, ("fn", lambda j: R(VX(zi(i), zi(j)))), REAL)), g.f["vertex"].et))
    o = o.with_("res_", res.with_("graphStructure", g).with_("solutionPath", sp.with_("PathId", Vec(n, ("fn", lambda i: ID(zi(i))), sp.f["PathId"].et))))
    for k in ("start_", "goal_"): o = o.with_(k, U.vec(REAL, k, d))
    key = next(q for q in U.prog.byq if q.startswith(P + "HighwayRoadMap<") and q.endswith("::getSolutionPath") and ("2D" in q) == (cls == "HRM2D"))
    U.cover("precondition")
    r = U.val(U.call(key, U.loc(o), [])); U.prove(zi(r.len) == n + 2, "start, path vertices, goal")
    j = U.forall("j", 0, d); i = U.forall("i", 0, n)
    for nm, v, w in (("start", r.get(0), o.f["start_"]), ("goal", r.get(n + 1), o.f["goal_"])):
        U.prove(zi(v.len) == d, "the requested %s: dimension" % nm); U.prove(U.ex.real(v.get(j)).v == U.ex.real(w.get(j)).v, "the path %s the requested %s" % ("begins with" if nm == "start" else "ends with", nm))
    U.prove(z3.And(zi(r.get(i + 1).len) == d, U.ex.real(r.get(i + 1).get(j)).v == VX(ID(i), j)), "in between: the vertices of the recorded path, in order")
def unit_path2(U):
    """HighwayRoadMap::getSolutionPath (planar): the requested start, the recorded vertices in order, the requested goal"""
    assembled(U, "HRM2D")
def unit_path3(U):
    """HighwayRoadMap::getSolutionPath (spatial)"""
    assembled(U, "HRM3D")
def unit_visitor(U):
    """AStarGoalVisitor::examine_vertex: stops the search exactly when the examined vertex is the goal"""
    q = next((q for q in U.prog.byq if "AStarGoalVisitor" in q and "examine_vertex" in q), None)
    if q is None: raise Unsupported("no visitor body")
    cls = q[:q.rindex("::examine_vertex")]
    g, v = U.int("goal", 0), U.int("vertex", 0); o = Struct(cls, {"goal_": g}); U.ex.throws = []
    U.cover("precondition")
    U.call(q, U.loc(o), [v, U.loc(Struct("Graph", {}))]); t = z3.Or(*[z3.And(*[zb(c) for c in pc]) for pc in U.ex.throws]) if U.ex.throws else z3.BoolVal(False)
    U.ex.pc = []
    U.prove(t == (v == g), "the search stops exactly at the goal")
UNITS = [unit_search2, unit_path2, unit_path3, unit_visitor]
BOUNDED = "that a path is found whenever selected neighbours are connected, and the same contract on 3D planners and whole plan() runs, are exercised by the replay harness on random roadmaps (bounded, never counted as proved)"
