"""hist.py P14 unit "label substr": which schemas produce how many instances for one obligation"""
import sys, time, importlib, collections
sys.path.insert(0, "/verif"); sys.setrecursionlimit(100000)
from vc import ast as A, solve
from vc.unit import *
m = importlib.import_module("vc.specs." + sys.argv[1]); prog = A.load(m.TUS)
for f in m.UNITS:
    if f.__name__ != sys.argv[2]: continue
    u = Unit(prog, f.__name__); f(u)
    for o in u.ctx.obls:
        if sys.argv[3] not in o.label: continue
        ins = solve.inst_of(u.ctx, o, o.goal, 4000)
        sch = solve.no_stale_schemas(u.ctx, u.ctx.schemas[:o.ns], list(o.pc) + [o.goal])
        for r in range(4):
            ins.run(sch, 1); C = collections.Counter(k[0] for k in ins.keys)
            print("round", r, len(ins.out), C.most_common(8))
        for si, n in C.most_common(12): print(n, "pats", sch[si].patterns(), "\n      ", str(sch[si].body).replace("\n", " ")[:400])
        D = {}
        for d, ts in ins.apps.items(): D[ts[0].decl().name()] = len(ts)
        print(sorted(D.items(), key=lambda x: -x[1])[:25])
        break
