"""scn.py P14 unit "label substr" fnname-prefix: schemas and facts mentioning a symbol of the goal"""
import sys, importlib
sys.path.insert(0, "/verif"); sys.setrecursionlimit(100000)
import z3
from vc import ast as A, solve
from vc.unit import *
from vc.ctx import consts_of
m = importlib.import_module("vc.specs." + sys.argv[1]); prog = A.load(m.TUS)
for f in [f for f in m.UNITS if f.__name__ == sys.argv[2]]:
    u = Unit(prog, f.__name__); f(u)
    for o in u.ctx.obls:
        if sys.argv[3] not in o.label: continue
        print("GOAL", str(z3.simplify(o.goal))[:3000])
        syms = [s for s in consts_of(o.goal) if s.startswith(sys.argv[4])]; print(syms)
        for s in u.ctx.schemas:
            c = consts_of(s.body)
            if any(x in c for x in syms): print("SCH", s.vs, str(z3.simplify(s.body)).replace("\n", " ")[:700], "PATS", s.pats)
        break
