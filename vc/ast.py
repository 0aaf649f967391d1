"""Mechanical extraction of the program under verification: runs the clang dumper on /repo's current sources and
merges the translation units.  Nothing of a function body is rewritten."""
import json, os, subprocess, hashlib, sys, tempfile, concurrent.futures as cf
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VC_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
FLAGS = ["-I" + REPO, "-I" + REPO + "/include", "-I" + REPO + "/src", "-I/usr/include/ompl-1.5", "-I/usr/include/eigen3",
         "-I" + REPO + "/src/util/external/kdl_parser/include", "-std=c++17", "-DNDEBUG", "-w",
         "-resource-dir", "/usr/lib/llvm-18/lib/clang/18"]

def build_dumper():
    src = os.path.join(VERIF, "dumper", "dump.cpp"); out = os.path.join(BUILD, "dump")
    os.makedirs(BUILD, exist_ok=True)
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()
    if os.path.exists(out) and os.path.exists(out + ".sha") and open(out + ".sha").read() == h: return out
    cxx = subprocess.check_output(["llvm-config-18", "--cxxflags"], text=True).split()
    tmp = out + ".tmp%d" % os.getpid()
    subprocess.check_call(["clang++-18", "-O1"] + cxx + ["-fno-rtti", src, "-o", tmp,
                           "/usr/lib/x86_64-linux-gnu/libclang-cpp.so.18.1", "-L/usr/lib/llvm-18/lib", "-lLLVM-18"])
    os.replace(tmp, out); open(out + ".sha", "w").write(h)
    return out

class Ty:
    __slots__ = ("k", "n", "a", "to", "s", "w", "c", "r", "len", "lam", "rvref", "key")
    def __repr__(self): return self.key
    def __eq__(self, o): return isinstance(o, Ty) and self.key == o.key
    def __hash__(self): return hash(self.key)
    def noref(self): return self.to if self.k == "ref" else self
_ty = {}
def mkty(k, n="", a=(), to=None, s=False, w=0, c=False, r=None, ln=None, lam=False, rv=False):
    t = Ty(); t.k = k; t.n = n; t.a = tuple(a); t.to = to; t.s = s; t.w = w; t.c = c; t.r = r; t.len = ln; t.lam = lam; t.rvref = rv
    if k in ("ptr", "ref"): t.key = "%s<%s>" % (k, to.key)
    elif k == "arr": t.key = "arr<%s,%s>" % (to.key, ln)
    elif k == "rec": t.key = n + ("<%s>" % ",".join(x.key if isinstance(x, Ty) else str(x) for x in a) if a else "")
    else: t.key = k + ":" + n
    return t
REAL = mkty("real", "double"); BOOL = mkty("bool", "bool"); INT = mkty("int", "int", s=True, w=32); SIZE = mkty("int", "unsigned long", s=False, w=64)
VOIDT = mkty("other", "void")
def tvec(t): return mkty("rec", "std::vector", (t,))

class Program:
    def __init__(self):
        self.fns = {}      # fid -> function
        self.byq = {}      # qualified name -> [function]
        self.recs = {}     # record name -> record
        self.globals = {}
        self.overriders = {}
        self.lines = {}
    def fn(self, q, nparams=None, pred=None, cls=None):
        c = [f for f in self.byq.get(q, []) if nparams is None or len(f["params"]) == nparams]
        if pred: c = [f for f in c if pred(f)]
        if cls: c = [f for f in c if f["clst"].key.startswith(cls)]
        if not c: raise KeyError("no function %s/%s" % (q, nparams))
        return c[0]
    def add(self, d, tu):
        off = (tu + 1) * 1000000
        raw = d["types"]; tys = [None] * len(raw)
        def ty(i, depth=0):
            if tys[i] is not None: return tys[i]
            o = raw[i]
            if depth > 30: return mkty("other", "deep")
            k = o["k"]
            if k in ("ptr", "ref"): t = mkty(k, to=ty(o["to"], depth + 1), rv=o.get("rv", False), c=o.get("c", False))
            elif k == "arr": t = mkty(k, to=ty(o["to"], depth + 1), ln=o.get("len"))
            elif k == "rec":
                a = [ty(x["t"], depth + 1) if isinstance(x, dict) else x for x in o.get("a", [])]
                t = mkty(k, o["n"], a, c=o.get("c", False), r=o.get("r"), lam=o.get("lambda", False))
            else: t = mkty(k, o.get("n", ""), s=o.get("s", False), w=o.get("w", 0), c=o.get("c", False))
            tys[i] = t
            return t
        for i in range(len(raw)): ty(i)
        def walk(n):
            if isinstance(n, dict):
                for k in ("t", "ret", "rt", "ct", "clst", "of", "base"):
                    v = n.get(k)
                    if isinstance(v, int) and not isinstance(v, bool): n[k] = tys[v]
                for k in ("id", "var", "svar"):
                    v = n.get(k)
                    if isinstance(v, int) and not isinstance(v, bool): n[k] = v + off
                for k in ("pt", "bases"):
                    if k in n: n[k] = [tys[x] if isinstance(x, int) else x for x in n[k]]
                for k, v in n.items():
                    if isinstance(v, (dict, list)) and k not in ("pt", "bases"): walk(v)
            elif isinstance(n, list):
                for x in n: walk(x)
        for f in d["functions"]: walk(f)
        for r in d["records"]: walk(r)
        for g in d["globals"]: walk(g)
        for f in d["functions"]:
            if f["fid"] in self.fns: continue
            self.fns[f["fid"]] = f
            self.byq.setdefault(f["q"], []).append(f)
            for o in f.get("over", []): self.overriders.setdefault(o, []).append(f["fid"])
        for r in d["records"]:
            key = r["t"].key
            if key not in self.recs: self.recs[key] = r
            self.recs.setdefault(r["n"], r)
        for g in d["globals"]: self.globals[g["id"]] = g
    def bases(self, name):
        r = self.recs.get(name); out = []
        if r:
            for b in r["bases"]:
                out.append(b.key); out += self.bases(b.key)
        return out

def dump_tu(args):
    dumper, src, extra = args
    fd, out = tempfile.mkstemp(suffix=".json"); os.close(fd)
    try:
        p = subprocess.run([dumper, REPO + "/", out, src, "--"] + FLAGS + extra, capture_output=True, text=True)
        if p.returncode != 0: raise RuntimeError("clang failed on %s:\n%s" % (src, p.stderr[-3000:]))
        return json.load(open(out))
    finally:
        os.unlink(out)
def load(sources):
    """sources: repo-relative .cpp paths (or absolute paths of instantiation files under /verif)"""
    dumper = build_dumper()
    jobs = [(dumper, s if s.startswith("/") else os.path.join(REPO, s), []) for s in sources]
    prog = Program()
    with cf.ThreadPoolExecutor(8) as ex: res = list(ex.map(dump_tu, jobs))
    for i, d in enumerate(res): prog.add(d, i)
    return prog
