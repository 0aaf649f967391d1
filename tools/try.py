import sys, time, importlib, traceback
import warnings
sys.path.insert(0, "/verif"); sys.setrecursionlimit(100000)
from vc import ast as A
from vc.unit import *
m = importlib.import_module("vc.specs." + sys.argv[1])
t0 = time.time(); prog = A.load(m.TUS); print("load %.1f" % (time.time() - t0))
us = []
for f in m.UNITS:
    if len([a for a in sys.argv if a != "-v"]) > 2 and f.__name__ not in sys.argv[2:]: continue
    t0 = time.time(); u = Unit(prog, f.__name__)
    try: f(u)
    except Unsupported as e:
        [print('   ', l.strip().replace(chr(10),' ')) for l in traceback.format_exception(e)[-int(__import__('os').environ.get('TB','4')):]]
        print("UNSUPPORTED", f.__name__, e, "line", u.ex.line)
    print("%-20s exec %.1fs obl=%d facts=%d schemas=%d quick=%d/%.1fs" % (f.__name__, time.time() - t0, len(u.ctx.obls), len(u.ctx.facts), len(u.ctx.schemas), u.ctx.quick_calls, u.ctx.quick_time))
    us.append(u)
t0 = time.time(); cv = discharge_all(us, 20000)
for u in us:
    for o in u.ctx.obls:
        if o.status != "proved" or "-v" in sys.argv: print("  [%s] %s:%s %s | %s (%s, %.1fs) %s" % (u.name, o.fn, o.line, o.label, o.status, o.backend, o.secs, (o.model or "")[:300]))
    print(u.name, sum(o.status == "proved" for o in u.ctx.obls), "/", len(u.ctx.obls))
print(cv, "%.1fs" % (time.time() - t0))
