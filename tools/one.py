"""one.py P14 unit "label substr" [budget]: discharge one obligation verbosely (goal, model, number of instances)"""
import sys, time, importlib
sys.path.insert(0, "/verif"); sys.setrecursionlimit(100000)
from vc import ast as A, solve
from vc.unit import *
m = importlib.import_module("vc.specs." + sys.argv[1]); prog = A.load(m.TUS)
for f in m.UNITS:
    if f.__name__ != sys.argv[2]: continue
    u = Unit(prog, f.__name__); f(u)
    for o in u.ctx.obls:
        if sys.argv[3] not in "%s:%s" % (o.label, o.line): continue
        print("GOAL", z3.simplify(o.goal)); t = time.time()
        n0 = {}
        orig = solve.Inst.run
        def run(self, sch, *a, **k):
            r = orig(self, sch, *a, **k); print("  instances", len(self.out), "of limit", getattr(self, "limit", "?"), "%.1fs" % (time.time() - t)); return r
        solve.Inst.run = run
        r = solve.discharge(u.ctx, o, int(sys.argv[4]) if len(sys.argv) > 4 else 20000)
        print(o.label, r, o.backend, "%.1fs" % (time.time() - t))
        if o.model is not None:
            for d in sorted(o.model.decls(), key=lambda d: d.name()) if hasattr(o.model, "decls") else []: print("   ", d.name(), str(o.model[d]).replace("\n", " ")[:200])
        if len(sys.argv) < 6: break
