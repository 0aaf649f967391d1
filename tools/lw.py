import sys; sys.path.insert(0,"/verif"); sys.setrecursionlimit(100000)
import importlib
from vc import ast as A
from vc.unit import *
"""print the loop summaries of a unit: lw.py P06 unit"""
m=importlib.import_module("vc.specs."+sys.argv[1]); prog=A.load(m.TUS)
u=Unit(prog,sys.argv[2]); u.ex.lw=1
def h(L):
    print("LOOP", L.fn["q"], L.node.get("line"), "N", L.N, "E" , L.E)
    for (r,p),l in L.leaves.items(): print("    ", r, p, l.how, "init", str(l.init)[:100])
u.ex.loop_specs.append(h)
try: getattr(m,sys.argv[2])(u)
except Unsupported as e: print("UNS",e)
