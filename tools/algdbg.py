import sys, time, importlib
sys.path.insert(0, "/verif"); sys.setrecursionlimit(100000)
from vc import ast as A, poly
from vc.unit import *
from vc.solve import prove_one
m = importlib.import_module("vc.specs." + sys.argv[1]); prog = A.load(m.TUS)
for f in m.UNITS:
    if f.__name__ != sys.argv[2]: continue
    u = Unit(prog, f.__name__); f(u)
    for o in u.ctx.obls:
        if not (o.alg or o.label == "division by zero"): continue
        if len(sys.argv) > 3 and sys.argv[3] not in o.label: continue
        t0 = time.time()
        def sub(g, b=6000):
            t1 = time.time(); r = prove_one(u.ctx, o, g, b)[0]; print("   sub %.1fs %s %s" % (time.time() - t1, r, str(g)[:300].replace("\n", " "))); return r == "proved"
        import builtins
        orig = poly.Alg.sqrt
        def sq(self, t, x):
            N, D = self.whole(x); v = orig(self, t, x); print('sqrt', len(N), len(D), 'rules', len(self.rules), 'n', len(self.sqrts)); builtins.ALG = self; return v
        poly.Alg.sqrt = sq
        try: r = poly.prove_eq(u.ctx, u.ctx.facts[:o.nf] + list(o.pc), o.goal, sub)
        except poly.Fail as e: r = "FAIL " + str(e)
        poly.Alg.sqrt = orig
        print(o.label, r, "%.1fs" % (time.time() - t0))
        if len(sys.argv) > 4: break
        A = builtins.ALG
        print([str(n)[:40] for n in A.names])
        for t, x, v in A.sqrts:
            N, D = A.whole(x); print(len(N), [(poly.exps(m), str(c)) for m, c in list(N.items())[:4]], "D", [(poly.exps(m), str(c)) for m, c in list(D.items())[:4]])
