#!/usr/bin/env python3-vt
"""check.py <property>: contract-based deductive verification of the current /repo tree.

1. extract the functions under contract from the repository's current sources (clang AST, vc/ast.py)
2. generate the verification conditions (vc/exec.py, vc/loops.py) of the specification in vc/specs/<property>.py
3. discharge every obligation (z3, z3-nlsat, cvc5)
4. replay harness: the property's executable contract is run on the real compiled code (oracle/<property>.cpp) to find a
   concrete failing input for a failed obligation, and as the bounded stand-in for what the verifier cannot reach
Exit 0: held.  Exit 1 + VIOLATION line: broken.
"""
import sys, os, json, time, subprocess, importlib, re, signal, threading, tempfile, shutil, traceback
sys.dont_write_bytecode = True
sys.setrecursionlimit(200000)
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
REPO = os.environ.get("VC_REPO", "/repo")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
INC = ["-I" + REPO, "-I" + REPO + "/include", "-I" + REPO + "/src", "-I/usr/include/ompl-1.5", "-I/usr/include/eigen3", "-I" + REPO + "/src/util/external/kdl_parser/include", "-I" + ROOT + "/oracle"]

# ---------------------------------------------------------------- replay harness
class Oracle(threading.Thread):
    def __init__(self, pid, m):
        threading.Thread.__init__(self, daemon=True)
        self.pid = pid; self.m = m; self.fails = []; self.cases = 0; self.nontrivial = 0; self.samples = []; self.error = None; self.build_s = self.run_s = 0.0; self.built = False
    def run(self):
        try: self._run()
        except Exception as e: self.error = "%s: %s" % (type(e).__name__, e)
    def _run(self):
        src = os.path.join(ROOT, "oracle", self.pid + ".cpp")
        if not os.path.exists(src): self.error = "no harness"; return
        d = tempfile.mkdtemp(prefix="oracle_%s_" % self.pid)
        try:
            t0 = time.time()
            base = ["g++", "-std=c++17", "-O1", "-fno-access-control", "-D_GLIBCXX_ASSERTIONS", "-pthread", "-w"] + INC + getattr(self.m, "ORACLE_FLAGS", [])
            units = [src] + [os.path.join(REPO, s) for s in getattr(self.m, "ORACLE_SRC", [s for s in self.m.TUS if not s.startswith("/")])]
            procs = []
            for i, u in enumerate(units):
                procs.append((u, os.path.join(d, "o%d.o" % i), None))
            running = []; pend = list(procs); objs = []; errs = []
            while pend or running:
                while pend and len(running) < 6:
                    u, o, _ = pend.pop(0)
                    running.append((u, o, subprocess.Popen(base + ["-c", u, "-o", o], stderr=subprocess.PIPE, text=True)))
                u, o, p = running.pop(0)
                err = p.communicate()[1]
                if p.returncode: errs.append((u, err))
                objs.append(o)
            if errs:
                self.error = "harness does not compile against the tree: %s: %s" % (os.path.relpath(errs[0][0], ROOT), errs[0][1][:1500]); return
            exe = os.path.join(d, "oracle")
            r = subprocess.run(["g++", "-o", exe] + objs + ["-pthread"] + getattr(self.m, "ORACLE_LIBS", []), capture_output=True, text=True)
            if r.returncode: self.error = "harness does not link: " + r.stderr[-1500:]; return
            self.build_s = time.time() - t0; self.built = True
            t0 = time.time()
            n = getattr(self.m, "ORACLE_SECONDS", 4) * (12 if TIER == "thorough" else 1)
            cwd = os.path.join(d, "cwd"); os.mkdir(cwd)
            env = dict(os.environ, VC_REPO=REPO, ORACLE_DATA=os.path.join(ROOT, "oracle"))
            p = subprocess.Popen([exe, str(SEED), str(n)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=env)
            try: out, err = p.communicate(timeout=max(200, n * 6))
            except subprocess.TimeoutExpired:
                p.kill(); out, err = p.communicate(); self.fails.append(("hang", "the harness did not finish: " + last_case(out)))
            out = out.decode("utf8", "replace"); err = err.decode("utf8", "replace")
            self.run_s = time.time() - t0
            for l in out.split("\n"):
                if l.startswith("FAIL "):
                    k, _, d_ = l[5:].partition(" "); self.fails.append((k, d_))
                elif l.startswith("CASES "): a = l.split(); self.cases = int(a[1]); self.nontrivial = int(a[2])
                elif l.startswith("SAMPLE "): self.samples.append(l[7:][:600])
            if p.returncode not in (0, 1) and not any(k == "hang" for k, _ in self.fails):
                self.fails.append(("crash", "the real code terminated abnormally (status %s): %s | %s" % (p.returncode, last_case(out.encode()), err[-700:].replace("\n", " "))))
            elif not re.search(r"^CASES ", out, re.M) and not self.fails: self.error = "harness produced no result"
        finally:
            shutil.rmtree(d, ignore_errors=True)
def last_case(out):
    t = out.decode("utf8", "replace") if isinstance(out, bytes) else out
    ls = [l for l in t.split("\n") if l.startswith("LASTCASE ")]
    return ls[-1][9:][:1500] if ls else ""

# ---------------------------------------------------------------- proof
def run_unit(prog, f, budget, jobs, deadline, q):
    from vc.unit import Unit, discharge_all
    from vc.vals import Unsupported
    import z3
    res = {"unit": f.__name__, "doc": (f.__doc__ or "").strip(), "status": "ok", "obls": [], "covers": [], "functions": [], "trusted": {}, "assumptions": [], "exec_s": 0, "loops": []}
    t0 = time.time()
    u = Unit(prog, f.__name__)
    def alarm(*a): raise TimeoutError("symbolic execution time limit")
    signal.signal(signal.SIGALRM, alarm); signal.alarm(max(20, int(deadline - time.time())))
    try: f(u)
    except Unsupported as e: res["status"] = "unsupported"; res["why"] = "%s (near line %s of %s)" % (e, u.ex.line, u.ex.frames[-1].fn.get("q") if u.ex.frames else "?")
    except TimeoutError as e: res["status"] = "timeout"; res["why"] = str(e)
    except RecursionError as e: res["status"] = "unsupported"; res["why"] = "recursion depth"
    except Exception as e: res["status"] = "internal"; res["why"] = traceback.format_exc()[-1200:]
    signal.alarm(0)
    res["exec_s"] = time.time() - t0
    if res["status"] == "ok":
        cv = discharge_all([u], budget, jobs, deadline)
        res["covers"] = [(c[1], c[2]) for c in cv]
    for o in u.ctx.obls:
        res["obls"].append({"label": o.label, "fn": o.fn, "line": o.line, "kind": o.kind, "status": o.status if res["status"] == "ok" else "not attempted", "backend": o.backend, "secs": round(o.secs, 3), "model": o.model if o.status != "proved" else None})
    res["functions"] = sorted({prog.fns[x]["q"] for x in u.ex.called if x in prog.fns})
    res["trusted"] = dict(u.ctx.trusted); res["assumptions"] = sorted(u.ctx.assumptions)
    res["quick"] = [u.ctx.quick_calls, round(u.ctx.quick_time, 2)]
    q.put(res)
def prove(m, deadline):
    import multiprocessing as mp
    from vc import ast as A
    t0 = time.time()
    prog = A.load(m.TUS)
    ctx = mp.get_context("fork")
    units = list(m.UNITS); out = {}
    conc = 4 if len(units) > 1 else 1
    jobs = max(2, 8 // min(conc, max(1, len(units))))
    budget = getattr(m, "BUDGET", 20000) * (6 if TIER == "thorough" else 1)
    run = []; pend = list(units)
    while pend or run:
        while pend and len(run) < conc:
            f = pend.pop(0); q = ctx.Queue()
            p = ctx.Process(target=run_unit, args=(prog, f, budget, jobs, deadline, q)); p.start(); run.append((f, q, p))
        done = []
        for f, q, p in run:
            try:
                r = q.get(timeout=0.05); out[f.__name__] = r; p.join(5); done.append((f, q, p))
            except Exception:
                if not p.is_alive() and q.empty():
                    time.sleep(0.1)
                    if q.empty():
                        out[f.__name__] = {"unit": f.__name__, "status": "internal", "why": "unit process ended (status %s)" % p.exitcode, "obls": [], "covers": [], "functions": [], "trusted": {}, "assumptions": []}; done.append((f, q, p))
                elif time.time() > deadline + 60:
                    p.kill(); out[f.__name__] = {"unit": f.__name__, "status": "timeout", "why": "unit time limit", "obls": [], "covers": [], "functions": [], "trusted": {}, "assumptions": []}; done.append((f, q, p))
        for d in done: run.remove(d)
    return [out[f.__name__] for f in units], time.time() - t0, prog

def main():
    pid = sys.argv[1]
    t0 = time.time()
    m = importlib.import_module("vc.specs." + pid)
    orc = Oracle(pid, m); orc.start()
    deadline = t0 + getattr(m, "DEADLINE", 240) * (4 if TIER == "thorough" else 1)
    fatal = None
    try: units, proof_s, prog = prove(m, deadline)
    except Exception as e:
        units, proof_s, prog = [], time.time() - t0, None; fatal = "extraction failed: %s" % (str(e)[-1500:])
    orc.join()
    known = json.load(open(os.path.join(ROOT, "known_findings.json"))) if os.path.exists(os.path.join(ROOT, "known_findings.json")) else []
    known = [k for k in known if k["property"] == pid and k["status"] == "known"]
    # ---- verdict
    obls = [dict(o, unit=u["unit"]) for u in units for o in u["obls"]]
    total = len(obls); proved = sum(o["status"] == "proved" for o in obls)
    vacuous = ["%s: %s" % (u["unit"], c[0]) for u in units for c in u["covers"] if c[1] == "unsat"]
    failed = [o for o in obls if o["status"] in ("sat", "unknown")]     # not accepted, also after the escalated attempt
    undecided = [o for o in obls if o["status"] == "timeout"]
    out_of_reach = [{"unit": u["unit"], "status": u["status"], "why": u["why"]} for u in units if u["status"] != "ok"]
    empty = [u["unit"] for u in units if u["status"] == "ok" and not u["obls"]]
    new = []; hit = set()
    for k, d in orc.fails:
        kn = [x for x in known if re.fullmatch(x["key"], k)]
        if kn: hit.add(kn[0]["id"])
        else: new.append((k, d))
    for x in known: print("KNOWN-FINDING: property=%s %s" % (pid, x["what"]))
    lines = []
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    rdir = os.path.join(ROOT, "evidence", "replay"); os.makedirs(rdir, exist_ok=True)
    rp = os.path.join(rdir, pid + ".json")
    viol = 0
    known_obl = [x for x in known if x.get("obligation")]
    failed_new = [o for o in failed if not any(re.search(x["obligation"], o["label"]) for x in known_obl)]
    if new or failed_new or vacuous:
        rep = {"property": pid, "failing_inputs": [{"key": k, "case": d} for k, d in new[:20]], "failed_obligations": [{"unit": o["unit"], "function": o["fn"], "line": o["line"], "obligation": o["label"], "verifier_output": o["status"], "countermodel": o["model"]} for o in failed[:20]],
               "vacuous": vacuous, "how_to_replay": "VERIF_SEED=%d python3-vt check.py %s   (the failing case is printed by oracle/%s.cpp on the real code)" % (SEED, pid, pid)}
        json.dump(rep, open(rp, "w"), indent=1)
        if new:
            viol = len(new); print("%s: %d failing input(s) on the real code, first: [%s] %s" % (pid, len(new), new[0][0], new[0][1][:800]))
            print("VIOLATION property=%s replay=%s" % (pid, rp))
        elif failed_new:
            viol = len(failed_new)
            for o in failed_new[:5]: print("%s: obligation not accepted (%s): %s (%s, line %s)" % (pid, o["status"], o["label"], o["fn"], o["line"]))
            print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, rp))
        else:
            print("%s: specification vacuous: %s" % (pid, vacuous[:3]))
    bounded = bool(undecided or out_of_reach or fatal)
    ev = {"property": pid, "tier": TIER, "seed": SEED, "level": getattr(m, "LEVEL", "proof"),
          "coverage": {"obligations": total, "discharged": proved,
                       "checker_cmd": "python3-vt check.py %s" % pid,
                       "trusted_base": sorted({t for u in units for t in u["trusted"]} | set(getattr(m, "TRUSTED", []))) + ["clang 18 AST of the repository sources (dumper/dump.cpp)", "VC generator vc/*.py", "z3 / z3-nlsat / cvc5"],
                       "functions_under_contract": sorted({f for u in units for f in u["functions"]}),
                       "back_ends": tally(o["backend"] or "-" for o in obls if o["status"] == "proved"),
                       "solver_seconds": round(sum(o["secs"] for o in obls), 2), "symbolic_execution_seconds": round(sum(u.get("exec_s", 0) for u in units), 2),
                       "units": [{"unit": u["unit"], "contract": u.get("doc", ""), "status": u["status"], "why": u.get("why"), "obligations": len(u["obls"]), "discharged": sum(o["status"] == "proved" for o in u["obls"]), "reachability": u["covers"]} for u in units],
                       "undischarged": [{"unit": o["unit"], "fn": o["fn"], "line": o["line"], "label": o["label"], "status": o["status"]} for o in obls if o["status"] != "proved"][:40],
                       "samples": [{"unit": o["unit"], "fn": o["fn"], "obligation": o["label"], "backend": o["backend"]} for o in obls if o["kind"] in ("post", "invariant")][:6],
                       "bounded_stand_in": {"what": getattr(m, "BOUNDED", "executable contract run on the real code with random inputs (replay harness); never counted as proved"), "evaluations": orc.cases, "distinct_nontrivial": orc.nontrivial, "seconds": round(orc.run_s, 1), "build_seconds": round(orc.build_s, 1), "samples": orc.samples[:3], "error": orc.error},
                       "evaluations": orc.cases, "distinct_nontrivial": orc.nontrivial,
                       "rule": getattr(m, "RULE", "random inputs of the replay harness; non-trivial cases are those where the contract's premise holds and the outcome is not the default one"),
                       "decided_by": ("proof" if not bounded and total else "bounded stand-in where the proof is incomplete") },
          "assumptions": sorted({a for u in units for a in u["assumptions"]}) + list(getattr(m, "ASSUMPTIONS", [])) + COMMON,
          "wall_s": round(time.time() - t0, 2), "violations": viol}
    if fatal: ev["coverage"]["fatal"] = fatal
    json.dump(ev, open(os.path.join(ROOT, "evidence", pid + ".json"), "w"), indent=1)
    print("%s: %d/%d obligations discharged in %d unit(s); out of reach: %d; replay harness: %d cases, %d non-trivial%s; %.1fs" % (pid, proved, total, len(units), len(out_of_reach), orc.cases, orc.nontrivial, " (ERROR %s)" % orc.error[:300] if orc.error else "", time.time() - t0))
    for u in out_of_reach: print("  out of reach: %(unit)s: %(status)s: %(why)s" % u)
    for o in undecided[:8]: print("  undecided: [%s] %s (%s:%s)" % (o["unit"], o["label"], o["fn"], o["line"]))
    if fatal: print("  " + fatal[:600])
    sys.stdout.flush()
    if new or failed_new: os._exit(1)
    if vacuous or empty: print("%s: vacuous proof unit(s): %s %s" % (pid, vacuous, empty)); os._exit(2)
    if orc.error and (bounded or not total):
        print("%s: neither the proof nor the bounded stand-in could decide" % pid); os._exit(3)
    os._exit(0)
def tally(xs):
    d = {}
    for x in xs: d[x] = d.get(x, 0) + 1
    return d
COMMON = ["double arithmetic is treated as exact real arithmetic (rounding, overflow to infinity and NaN propagation are outside the proof; NaN/infinity literals are tracked)",
          "signed integers are mathematical; unsigned subtraction wraps modulo 2^64", "memory allocation never fails; objects passed by different references do not alias"]
if __name__ == "__main__": main()
