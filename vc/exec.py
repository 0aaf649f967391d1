"""Symbolic execution of the extracted clang AST with merging: one store, one path condition, guarded exits.
Every construct outside the fragment raises Unsupported."""
import z3, itertools
from .vals import *
from .ctx import *
from . import ast as A
from .ast import Ty, REAL, INT, BOOL, SIZE, tvec

class LV:
    __slots__ = ("root", "path")
    def __init__(self, root, path=()): self.root = root; self.path = tuple(path)
    def f(self, n): return LV(self.root, self.path + (("f", n),))
    def i(self, x): return LV(self.root, self.path + (("i", x),))
    def c(self, i, j): return LV(self.root, self.path + (("c", i, j),))
    def b(self, *a): return LV(self.root, self.path + (("b",) + a,))
    def __eq__(self, o):
        if not isinstance(o, LV) or self.root != o.root or len(self.path) != len(o.path): return False
        return all(len(a) == len(b) and a[0] == b[0] and all(same(x, y) for x, y in zip(a[1:], b[1:])) for a, b in zip(self.path, o.path))
    def __hash__(self): return hash(self.root)
    def __repr__(self): return "LV(%s%s)" % (self.root, self.path)

class Frame:
    def __init__(self, no, fn, this):
        self.no = no; self.fn = fn; self.this = this
        self.refs = {}; self.exits = []; self.cap = {}; self.base_pc = 0
        self.loops = []
class Dead(Exception): pass

INTMAX = 2 ** 31 - 1
class Exec:
    def __init__(self, prog, ctx=None):
        self.prog = prog; self.ctx = ctx or Ctx()
        self.store = {}; self.pc = []
        self.frames = []; self.nframe = 0; self.ntmp = 0; self.nheap = 0
        self.contracts = {}; self.virt = {}
        self.depth = 0
        self.loop_specs = []      # callables(loop) -> invariants, tried when the summariser leaves leaves unsolved
        self.line = 0
        self.labels_off = set()
        self.called = set()
        self.merge_if_max = 1
    # ------------------------------------------------------------ facts / obligations
    def assume(self, f): self.ctx.add_fact(f, self.pc)
    def oblige(self, goal, label, kind="safety"):
        if self.ctx.mute or label in self.labels_off: return
        if goal is True: goal = z3.BoolVal(True)
        if isinstance(goal, bool): goal = z3.BoolVal(goal)
        fn = self.frames[-1].fn["q"] if self.frames else "spec"
        self.ctx.obls.append(Oblig(tuple(zb(x) for x in self.pc), len(self.ctx.facts), goal, label, self.line, fn, not self.ctx.approx, kind, len(self.ctx.schemas)))
    def quick(self, f):
        """cheap entailment test under the current path condition (used only to simplify)"""
        if f is True: return True
        if f is False: return False
        f = z3.simplify(f)
        if z3.is_true(f): return True
        if z3.is_false(f): return False
        if getattr(self, "no_quick", False): return False
        from .solve import quick_prove
        return quick_prove(self.ctx, self.pc, f)
    # ------------------------------------------------------------ store
    def tmp(self, v, ro=True):
        self.ntmp += 1
        k = ("t", self.ntmp)
        self.store[k] = v
        return LV(k)
    def heap(self, v):
        self.nheap += 1
        k = ("h", self.nheap)
        self.store[k] = v
        return LV(k)
    def res(self, v):
        """resolve a Maybe by the path condition"""
        while isinstance(v, Maybe):
            if self.quick(v.c): v = v.a
            elif self.quick(b_not(v.c)): v = v.b
            else: break
        return v
    def rd(self, lv):
        if lv is None: raise Unsupported("null dereference")
        if lv.root not in self.store: raise Unsupported("dangling reference %s" % (lv,))
        v = self.store[lv.root]
        for s in lv.path:
            v = self.step(v, s)
            if isinstance(v, RefVal): v = self.rd(v.lv)
        return v
    def step(self, v, s):
        v = self.res(v)
        k = s[0]
        if isinstance(v, Maybe):
            return ite(v.c, self.step(v.a, s), self.step(v.b, s))
        if k == "f":
            if isinstance(v, Struct):
                if s[1] not in v.f: raise Unsupported("field %s of %s" % (s[1], v.cls))
                return v.f[s[1]]
            raise Unsupported("field %s of %s" % (s[1], kind(v)))
        if k == "i":
            if isinstance(v, Vec): return v.get(s[1])
            raise Unsupported("index of " + kind(v))
        if k == "c":
            if isinstance(v, Mat): return v.get(s[1], s[2])
            raise Unsupported("cell of " + kind(v))
        if k == "b":
            if isinstance(v, Mat): return get_block(v, *s[1:])
            raise Unsupported("block of " + kind(v))
        if k == "a":     # .array() / .matrix() view
            if isinstance(v, Mat): return Mat(v.r, v.c, v.cells, v.node, s[1])
            raise Unsupported("array view of " + kind(v))
        raise Unsupported("step " + k)
    def wr(self, lv, val):
        if lv is None: raise Unsupported("null dereference")
        if lv.root not in self.store: raise Unsupported("dangling reference")
        self.store[lv.root] = self.upd(self.store[lv.root], lv.path, val)
    def upd(self, v, path, val):
        if not path: return val
        v = self.res(v)
        s = path[0]; k = s[0]
        if isinstance(v, Maybe): raise Unsupported("write into unresolved object")
        if k == "f":
            if not isinstance(v, Struct): raise Unsupported("field write")
            old = v.f.get(s[1])
            return v.with_(s[1], self.upd(old, path[1:], val))
        if k == "i":
            if not isinstance(v, Vec): raise Unsupported("index write")
            nv = val if len(path) == 1 else self.upd(v.get(s[1]), path[1:], val)
            return v.set(s[1], nv)
        if k == "c":
            if not isinstance(v, Mat): raise Unsupported("cell write")
            return v.set(s[1], s[2], val)
        if k == "b":
            if not isinstance(v, Mat): raise Unsupported("block write")
            if len(path) > 1: val = self.upd(get_block(v, *s[1:]), path[1:], val)
            return set_block(v, *s[1:], val)
        if k == "a":
            nv = val if len(path) == 1 else self.upd(Mat(v.r, v.c, v.cells, v.node, s[1]), path[1:], val)
            return Mat(nv.r, nv.c, nv.cells, nv.node, v.arr)
        raise Unsupported("write step " + k)
    # ------------------------------------------------------------ scalars
    def use(self, v, ty=None):
        v = self.res(v)
        if isinstance(v, Uninit):
            self.oblige(False, "use of an uninitialised value")
            return self.havoc_ty(ty, "uninit") if ty is not None else R(self.ctx.fresh("uninit", z3.RealSort()))
        if isinstance(v, Maybe):
            if isinstance(v.a, Uninit):
                self.oblige(b_not(v.c), "use of an uninitialised value"); return self.use(v.b, ty)
            if isinstance(v.b, Uninit):
                self.oblige(v.c, "use of an uninitialised value"); return self.use(v.a, ty)
            save = self.pc
            self.pc = save + [zb(v.c)]; a = self.use(v.a, ty)
            self.pc = save + [z3.Not(zb(v.c))]; b = self.use(v.b, ty)
            self.pc = save
            return ite(v.c, a, b)
        return v
    def real(self, v):
        v = self.use(v, REAL)
        if isinstance(v, R): return v
        if isinstance(v, Mat):
            if v.r == 1 and v.c == 1: return self.real(v.get(0, 0))
        if isinstance(v, bool): return R(1 if v else 0)
        if isinstance(v, int): return R(v)
        if is_z3(v) and z3.is_int(v): return R(z3.ToReal(v))
        if is_z3(v) and z3.is_bool(v): return R(z3.If(v, z3.RealVal(1), z3.RealVal(0)))
        raise Unsupported("real from " + kind(v))
    def int(self, v):
        v = self.use(v, INT)
        if isinstance(v, bool): return 1 if v else 0
        if isinstance(v, int): return v
        if is_z3(v) and z3.is_int(v): return v
        if is_z3(v) and z3.is_bool(v): return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        if isinstance(v, R): return self.trunc(v)
        raise Unsupported("int from " + kind(v))
    def bool(self, v):
        v = self.use(v, BOOL)
        if isinstance(v, bool): return v
        if isinstance(v, int): return v != 0
        if is_z3(v):
            if z3.is_bool(v): return v
            if z3.is_int(v): return i_ne(v, 0)
        if isinstance(v, R): return b_not(r_eq(v, R(0)))
        if isinstance(v, Ptr): return v.lv is not None
        raise Unsupported("bool from " + kind(v))
    def trunc(self, v):
        self.oblige(is_fin(v), "conversion of a non-finite value to an integer")
        n = num(v.v)
        if n is not None: return int(n)
        if z3.is_app(v.v) and v.v.decl().kind() == z3.Z3_OP_TO_REAL: return v.v.arg(0)
        return z3.If(v.v >= 0, z3.ToInt(v.v), -z3.ToInt(-v.v))
    def nonzero(self, d): return self.quick(d != 0)
    ieee = False
    def div(self, a, b):
        if not self.ieee and fin(a) and fin(b):
            n = num(b.v)
            if n == 0: pass
            elif n is None and not self.quick(b.v != 0):
                self.oblige(b.v != 0, "division by zero")
                return R(rv(0)) if num(a.v) == 0 else R(self.quot(a.v, b.v))
        r = r_div(a, b, self.nonzero)
        if fin(a) and fin(b) and num(b.v) is None and is_z3(r.v) and z3.is_app(r.v) and r.v.decl().kind() == z3.Z3_OP_DIV: r = R(self.quot(a.v, b.v), r.st)
        return r
    def quot(self, a, b):
        """ghost quotient: q*b == a when b != 0, with the order facts that need no multiplication"""
        ctx = self.ctx; reg = ctx.__dict__.setdefault("quots", {})
        a, b = z3.simplify(a), z3.simplify(b)
        key = (a.get_id(), b.get_id(), tuple(p.get_id() for p in ctx.params))
        if key in reg and reg[key][0] <= len(ctx.facts): return reg[key][1]
        q = ctx.fresh("q", z3.RealSort())
        ctx.add_fact(z3.Implies(b != 0, q * b == a))
        ctx.add_fact(z3.Implies(b > 0, z3.And((q >= 0) == (a >= 0), (q > 0) == (a > 0), (q <= 1) == (a <= b), (q < 1) == (a < b))))
        ctx.add_fact(z3.Implies(b < 0, z3.And((q >= 0) == (a <= 0), (q > 0) == (a < 0), (q <= 1) == (a >= b), (q < 1) == (a > b))))
        reg[key] = (len(ctx.facts), q, a, b)
        return q
    def nonneg(self, v):
        """syntactic: sums and products of literals and terms the path condition states to be >= 0 (no solver)"""
        if z3.is_int_value(v): return v.as_long() >= 0
        if z3.is_add(v) or z3.is_mul(v): return all(self.nonneg(c) for c in v.children())
        g = v >= 0
        return any(is_z3(p) and p.eq(g) for p in self.pc)
    def wrap_unsigned(self, v, w=64):
        if isinstance(v, int): return v % (2 ** w)
        if self.nonneg(v) or self.quick(v >= 0): return v
        return z3.If(v < 0, v + z3.IntVal(2 ** w), v)
    # ------------------------------------------------------------ types
    def rec(self, ty):
        return self.prog.recs.get(ty.key) or (self.prog.recs.get(ty.n) if ty.r else None)
    def all_fields(self, ty):
        r = self.rec(ty); out = []
        if not r: return out
        for b in r["bases"]: out += self.all_fields(b)
        return out + r["fields"]
    def default(self, ty):
        """value of a default-initialised object"""
        if ty.k in ("int", "real", "bool", "ptr"): return UNINIT
        if ty.k == "ref": return UNINIT
        if ty.k == "arr":
            if ty.len is None: return Vec(0, ("lit", ()), ty.to)
            if ty.len <= 64: return lit_vec([self.default(ty.to) for _ in range(ty.len)], ty.to)
            return fn_vec(ty.len, lambda i: UNINIT, ty.to)
        if ty.k == "rec":
            n = ty.n
            if n in ("std::vector", "std::list", "std::deque", "std::set", "std::map", "std::initializer_list"): return lit_vec([], ty.a[0] if ty.a else None)
            if n == "std::pair": return Struct("std::pair", {"first": self.default(ty.a[0]), "second": self.default(ty.a[1])})
            if n == "std::array": return lit_vec([self.default(ty.a[0]) for _ in range(ty.a[1])], ty.a[0])
            if n in ("Eigen::Matrix", "Eigen::Array"):
                r, c = ty.a[1], ty.a[2]
                if r == -1 or c == -1: return Mat(0 if r == -1 else r, 0 if c == -1 else c, None, ("fn", lambda i, j: UNINIT), n == "Eigen::Array") if True else None
                return mat(r, c, lambda i, j: UNINIT, n == "Eigen::Array")
            if n == "Eigen::Quaternion": return Struct("Quat", {k: UNINIT for k in "wxyz"})
            if n == "std::complex": return Struct("std::complex", {"re": R(0), "im": R(0)})
            if n in ("std::shared_ptr", "std::unique_ptr"): return Ptr(None)
            if n in ("std::basic_string", "std::__cxx11::basic_string"): return Str("")
            if self.rec(ty): return self.default_struct(ty)
            return self.opaque(ty)
        return self.opaque(ty)
    def opaque(self, ty, tag="obj"):
        return Opq(ty.key if ty is not None else "?", tag, self.ctx.fresh(tag, Obj))
    def default_struct(self, ty):
        fs = {}
        for f in self.all_fields(ty):
            if f.get("init") is not None:
                fs[f["n"]] = UNINIT
            else: fs[f["n"]] = self.default(f["t"])
        root = self.tmp(Struct(ty.key, fs))
        # in-class initialisers (evaluated with this = the object)
        fr = Frame(self.nframe, {"q": ty.n + "::(default init)"}, root); self.nframe += 1
        self.frames.append(fr)
        for f in self.all_fields(ty):
            if f.get("init") is not None:
                self.store[root.root] = self.store[root.root].with_(f["n"], self.conv(self.ev(f["init"]), f["t"]))
        self.frames.pop()
        return self.store.pop(root.root)
    def zero(self, ty):
        if ty.k == "int": return 0
        if ty.k == "real": return R(0)
        if ty.k == "bool": return False
        if ty.k == "ptr": return Ptr(None)
        if ty.k == "arr" and ty.len is not None: return lit_vec([self.zero(ty.to) for _ in range(ty.len)], ty.to)
        if ty.k == "rec" and ty.n == "std::pair": return Struct("std::pair", {"first": self.zero(ty.a[0]), "second": self.zero(ty.a[1])})
        if ty.k == "rec" and ty.n == "std::array": return lit_vec([self.zero(ty.a[0]) for _ in range(ty.a[1])], ty.a[0])
        return self.default(ty)
    def conv(self, v, ty):
        """convert to the static type of an initialised object (implicit Eigen expression evaluation)"""
        if ty is None: return v
        if ty.k == "ref": ty = ty.to
        if isinstance(v, (Uninit, Maybe)): return v
        if ty.k == "real": return self.real(v)
        if ty.k == "bool": return self.bool(v)
        if ty.k == "int" and not isinstance(v, R): return self.int(v)
        if ty.k == "int": return self.int(v)
        if ty.k == "rec" and isinstance(v, Mat):
            if ty.n in ("Eigen::Matrix", "Eigen::Array") and v.arr != (ty.n == "Eigen::Array"):
                return Mat(v.r, v.c, v.cells, v.node, ty.n == "Eigen::Array")
            if ty.n == "Eigen::Quaternion":
                from .eigen import rot_to_quat
                return rot_to_quat(self, v)
        if ty.k == "rec" and ty.n == "Eigen::Matrix" and isinstance(v, Struct):
            from .eigen import to_rot
            return to_rot(self, v)
        return v
    def havoc_ty(self, ty, name, shape=None, param=()):
        """arbitrary value of a type; functions of the index variables in `param`"""
        if ty is None: raise Unsupported("havoc of unknown type")
        def leaf(sort):
            if not param: return self.ctx.fresh(name, sort)
            return self.ctx.fresh_fn(name, [z3.IntSort()] * len(param), sort)
        if ty.k in ("ref",): return self.havoc_ty(ty.to, name, shape, param)
        if ty.k == "arr" and ty.len is not None: return self.havoc_vec(ty.to, name, ty.len)
        return self.havoc_gen(ty, name)(())
    def havoc_gen(self, ty, name, ndim=0, shape=None):
        """returns gen(idx tuple) -> value of type ty, leaves are functions of idx"""
        I = [z3.IntSort()] * ndim
        if ty.k == "ref": return self.havoc_gen(ty.to, name, ndim)
        if ty.k == "real":
            g = self.ctx.fresh_fn(name, I, z3.RealSort()); return lambda ix: R(g(*ix))
        if ty.k == "bool":
            g = self.ctx.fresh_fn(name, I, z3.BoolSort()); return lambda ix: g(*ix)
        if ty.k == "int":
            g = self.ctx.fresh_fn(name, I, z3.IntSort())
            vs = [z3.Int(fresh_name("u")) for _ in I]
            if ty.s is False:
                if vs: self.ctx.add_schema(vs, g(*vs) >= 0)
                else: self.ctx.add_fact(g() >= 0)
            return lambda ix: g(*ix)
        if ty.k == "rec":
            n = ty.n
            if n in ("std::vector", "std::list", "std::deque"):
                ln = self.ctx.fresh_fn(name + ".len", I, z3.IntSort())
                vs = [z3.Int(fresh_name("u")) for _ in I]
                if vs: self.ctx.add_schema(vs, ln(*vs) >= 0)
                else: self.ctx.add_fact(ln() >= 0)
                e = self.havoc_gen(ty.a[0], name + ".e", ndim + 1)
                return lambda ix: Vec(ln(*ix), ("fn", lambda i, ix=ix: e(tuple(ix) + (i,))), ty.a[0])
            if n == "std::array": 
                e = self.havoc_gen(ty.a[0], name + ".e", ndim + 1)
                return lambda ix: lit_vec([e(tuple(ix) + (i,)) for i in range(ty.a[1])], ty.a[0])
            if n == "std::complex":
                a = self.havoc_gen(REAL, name + ".re", ndim); b = self.havoc_gen(REAL, name + ".im", ndim)
                return lambda ix: Struct("std::complex", {"re": a(ix), "im": b(ix)})
            if n == "std::pair":
                a = self.havoc_gen(ty.a[0], name + ".1", ndim); b = self.havoc_gen(ty.a[1], name + ".2", ndim)
                return lambda ix: Struct("std::pair", {"first": a(ix), "second": b(ix)})
            if n in ("Eigen::Matrix", "Eigen::Array"):
                r, c = ty.a[1], ty.a[2]; arr = n == "Eigen::Array"
                def dim(d, nm):
                    if d != -1: return lambda ix: d
                    f = self.ctx.fresh_fn(name + nm, I, z3.IntSort())
                    vs = [z3.Int(fresh_name("u")) for _ in I]
                    if vs: self.ctx.add_schema(vs, f(*vs) >= 0)
                    else: self.ctx.add_fact(f() >= 0)
                    return lambda ix: f(*ix)
                dr, dc = dim(r, ".rows"), dim(c, ".cols")
                if r != -1 and c != -1 and r * c <= 64:
                    gs = [self.ctx.fresh_fn("%s.%d%d" % (name, i, j), I, z3.RealSort()) for i in range(r) for j in range(c)]
                    return lambda ix: Mat(r, c, tuple(R(g(*ix)) for g in gs), None, arr)
                if r != -1 and r <= 4:
                    gs = [self.ctx.fresh_fn("%s.r%d" % (name, i), I + [z3.IntSort()], z3.RealSort()) for i in range(r)]
                    def cell(ix):
                        def f(i, j):
                            if isinstance(i, int): return R(gs[i](*(tuple(ix) + (j,))))
                            out = R(gs[r - 1](*(tuple(ix) + (j,))))
                            for a in range(r - 2, -1, -1): out = ite(i_eq(i, a), R(gs[a](*(tuple(ix) + (j,)))), out)
                            return out
                        return f
                    return lambda ix: Mat(dr(ix), dc(ix), None, ("fn", cell(ix)), arr)
                if c != -1 and c <= 4:
                    gs = [self.ctx.fresh_fn("%s.c%d" % (name, i), I + [z3.IntSort()], z3.RealSort()) for i in range(c)]
                    def cell2(ix):
                        def f(i, j):
                            if isinstance(j, int): return R(gs[j](*(tuple(ix) + (i,))))
                            out = R(gs[c - 1](*(tuple(ix) + (i,))))
                            for a in range(c - 2, -1, -1): out = ite(i_eq(j, a), R(gs[a](*(tuple(ix) + (i,)))), out)
                            return out
                        return f
                    return lambda ix: Mat(dr(ix), dc(ix), None, ("fn", cell2(ix)), arr)
                g = self.ctx.fresh_fn(name, I + [z3.IntSort(), z3.IntSort()], z3.RealSort())
                return lambda ix: Mat(dr(ix), dc(ix), None, ("fn", lambda i, j, ix=ix: R(g(*(tuple(ix) + (i, j))))), arr)
            if n == "Eigen::Quaternion":
                gs = {k: self.ctx.fresh_fn(name + "." + k, I, z3.RealSort()) for k in "wxyz"}
                return lambda ix: Struct("Quat", {k: R(gs[k](*ix)) for k in "wxyz"})
            if n in ("std::basic_string", "std::__cxx11::basic_string"):
                gs = self.ctx.fresh_fn(name, I, Obj); return lambda ix: Str(None, gs(*ix))
            if self.rec(ty):
                fs = [(f["n"], self.havoc_gen(f["t"], name + "." + f["n"], ndim)) for f in self.all_fields(ty)]
                return lambda ix: Struct(ty.key, {k: g(ix) for k, g in fs})
            if n in ("std::shared_ptr", "std::unique_ptr"):
                return lambda ix: Opq(ty.key, "ptr", None)
        g = self.ctx.fresh_fn(name, I, Obj)
        return lambda ix: Opq(ty.key, "obj", g(*ix))
    def havoc_vec(self, et, name, ln=None):
        e = self.havoc_gen(et, name, 1)
        if ln is None:
            ln = self.ctx.fresh(name + ".len", z3.IntSort()); self.ctx.add_fact(ln >= 0)
        return Vec(ln, ("fn", lambda i: e((i,))), et)
    def havoc_like(self, v, name):
        """arbitrary value of the same shape as v (for loop-modified leaves)"""
        if isinstance(v, bool) or (is_z3(v) and z3.is_bool(v)): return self.ctx.fresh(name, z3.BoolSort())
        if isinstance(v, int) or (is_z3(v) and z3.is_int(v)): return self.ctx.fresh(name, z3.IntSort())
        if isinstance(v, R):
            if v.st is not None and not (isinstance(v.st, int) and v.st == 0):
                st = self.ctx.fresh(name + ".st", z3.IntSort()); self.ctx.add_fact(z3.And(st >= 0, st <= 3)); return R(self.ctx.fresh(name, z3.RealSort()), st)
            return R(self.ctx.fresh(name, z3.RealSort()))
        if isinstance(v, Struct): return Struct(v.cls, {k: self.havoc_like(x, name + "." + k) for k, x in v.f.items()})
        if isinstance(v, Vec):
            ln = self.ctx.fresh(name + ".len", z3.IntSort()); self.ctx.add_fact(ln >= 0)
            if v.et is None: raise Unsupported("havoc of untyped vector")
            e = self.havoc_gen(v.et, name, 1)
            return Vec(ln, ("fn", lambda i: e((i,))), v.et)
        if isinstance(v, Mat):
            if v.cells is not None: return Mat(v.r, v.c, tuple(R(self.ctx.fresh(name, z3.RealSort())) for _ in v.cells), None, v.arr)
            I = z3.IntSort()
            g = self.ctx.fresh_fn(name, [I, I], z3.RealSort())
            return Mat(v.r, v.c, None, ("fn", lambda i, j: R(g(i, j))), v.arr)
        if isinstance(v, Iter): return Iter(v.lv, self.ctx.fresh(name, z3.IntSort()), v.rev)
        if isinstance(v, Opq): return Opq(v.t, v.tag, self.ctx.fresh(name, Obj))
        if isinstance(v, Uninit): return v
        if isinstance(v, Maybe) and (isinstance(v.a, Uninit) or isinstance(v.b, Uninit)): return v.a if isinstance(v.a, Uninit) else v.b
        if isinstance(v, Str): return Str(None, self.ctx.fresh(name, Obj))
        raise Unsupported("havoc of " + kind(v))
    # ------------------------------------------------------------ expressions
    def ev(self, e):
        m = getattr(self, "e_" + e["k"], None)
        if m is None: raise Unsupported("expression " + e["k"] + " " + str(e.get("cls", "")))
        if e.get("l"): self.line = e["l"]
        return m(e)
    def lv(self, e):
        m = getattr(self, "l_" + e["k"], None)
        if e.get("l"): self.line = e["l"]
        if m is None or (e["k"] not in ("Var", "Member", "Cast", "OpCall", "MCall", "Call") and not e.get("lv")):
            return self.tmp(self.ev(e))
        return m(e)
    def lv_strict(self, e):
        """lvalue that may be written: never a temporary copy"""
        k = e["k"]
        if k in ("MCall", "Call", "OpCall"):
            r = {"MCall": self.mcall, "Call": self.call, "OpCall": self.opcall}[k](e)
            if not isinstance(r, LV): raise Unsupported("write through a temporary")
            return r
        if k == "Cast": return self.lv_strict(e["e"])
        if k in ("Var", "Member", "Sub", "Un", "Bin", "CAssign"): return self.lv(e)
        raise Unsupported("write through " + k)
    def e_Int(self, e):
        v = int(e["v"])
        if e["t"].k == "bool": return v != 0
        return v
    def e_Real(self, e):
        d = float(e["v"])
        return R(Fraction(repr(d)))
    def e_Bool(self, e): return bool(e["v"])
    def e_Str(self, e): return Str(e["v"])
    def e_Null(self, e): return Ptr(None)
    def e_This(self, e): return Ptr(self.frames[-1].this)
    def e_FnRef(self, e): return Opq("fn", "fn:" + e["fn"]["fid"])
    def var_lv(self, vid):
        for fr in (self.frames[-1],):
            if vid in fr.refs: return fr.refs[vid]
            if vid in fr.cap: return fr.cap[vid]
            return LV(("l", fr.no, vid))
    def l_Var(self, e):
        if e.get("g"):
            k = ("g", e.get("q") or e["id"])
            if k not in self.store:
                g = self.prog.globals.get(e["id"])
                if g is not None and g.get("init") is not None:
                    self.store[k] = self.conv(self.ev(g["init"]), e["t"])
                else: 
                    raise Unsupported("global " + str(e.get("q")))
            return LV(k)
        lv = self.var_lv(e["id"])
        return lv
    def e_Var(self, e):
        if e.get("g") and e["t"].k == "rec" and e["t"].n.startswith("boost::"): return self.opaque(e["t"])
        if e.get("g") and e.get("q", "").startswith("std::ignore"): return VOID
        lv = self.l_Var(e)
        if lv.root not in self.store: raise Unsupported("variable %s not in scope" % e["n"])
        return self.rd(lv)
    def base_lv(self, e):
        """lvalue of the object designated by a member access base"""
        if e["arrow"]: return self.deref(self.ev(e["b"]))
        return self.lv(e["b"])
    def deref(self, p):
        p = self.res(p)
        if isinstance(p, Ptr):
            if p.lv is None:
                self.oblige(False, "null pointer dereference"); raise Unsupported("null dereference")
            return p.lv
        if isinstance(p, Iter): return self.iter_lv(p)
        raise Unsupported("dereference of " + kind(p))
    def iter_lv(self, p):
        n = self.rd(p.lv).len
        self.oblige(b_and(i_ge(p.idx, 0), i_lt(p.idx, n)), "iterator dereference within the container")
        ix = p.idx if not p.rev else i_sub(i_sub(n, 1), p.idx)
        return p.lv.i(ix)
    def l_Member(self, e):
        if "svar" in e:
            return self.l_Var({"g": True, "id": e["svar"], "q": e["fcls"] + "::" + e["n"] if e.get("fcls") else None, "t": e["t"], "n": e["n"]})
        b = self.base_lv(e)
        lv = b.f(e["n"])
        if e["t"].k != "ref":
            v = self.rd(b); v = self.res(v)
            if isinstance(v, Struct):
                fv = v.f.get(e["n"])
                if isinstance(fv, RefVal): return fv.lv
        return lv
    def e_Member(self, e):
        if "fn" in e: return Opq("memfn", "fn:" + e["fn"]["fid"])
        return self.rd(self.l_Member(e))
    def e_Cast(self, e):
        ck = e["ck"]
        t = e["t"]
        if ck in ("LValueToRValue", "NoOp", "ConstructorConversion", "DerivedToBase", "UncheckedDerivedToBase", "UserDefinedConversion", "BaseToDerived",
                  "FunctionToPointerDecay", "BuiltinFnToFnPtr", "Dynamic"):
            v = self.ev(e["e"])
            if ck == "UserDefinedConversion" and t.k in ("real", "bool", "int"): return self.conv(v, t)
            return v
        if ck == "ArrayToPointerDecay":
            if e["e"]["k"] == "Str": return self.ev(e["e"])
            return Iter(self.lv(e["e"]), 0)
        if ck in ("IntegralCast",):
            v = self.ev(e["e"]); src = e["e"]["t"]
            v = self.int(v)
            if t.k == "bool": return i_ne(v, 0)
            if not t.s and src.k == "int" and src.s: return self.wrap_unsigned(v, t.w)
            return v
        if ck == "IntegralToFloating": return self.real(self.int(self.ev(e["e"])))
        if ck == "FloatingToIntegral": return self.trunc(self.real(self.ev(e["e"])))
        if ck == "FloatingCast": return self.real(self.ev(e["e"]))
        if ck in ("IntegralToBoolean", "FloatingToBoolean", "PointerToBoolean"): return self.bool(self.ev(e["e"]))
        if ck == "BooleanToSignedIntegral": return self.int(self.ev(e["e"]))
        if ck == "NullToPointer": return Ptr(None)
        if ck == "ToVoid": self.ev(e["e"]); return VOID
        raise Unsupported("cast " + ck)
    def l_Cast(self, e):
        if e["ck"] in ("NoOp", "DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "LValueToRValue"): return self.lv(e["e"])
        return self.tmp(self.ev(e))
    def arith(self, op, a, b, ty):
        if isinstance(a, (Mat,)) or isinstance(b, (Mat,)):
            from .eigen import mat_op
            return mat_op(self, op, a, b)
        if ty.k == "real":
            a, b = self.real(a), self.real(b)
            if op == "+": return r_add(a, b)
            if op == "-": return r_sub(a, b)
            if op == "*": return r_mul(a, b)
            if op == "/": return self.div(a, b)
        if ty.k in ("int", "bool"):
            a, b = self.int(a), self.int(b)
            if op == "+": return i_add(a, b)
            if op == "-":
                r = i_sub(a, b)
                if ty.k == "int" and not ty.s: return self.wrap_unsigned(r, ty.w)
                return r
            if op == "*": return i_mul(a, b)
            if op in ("/", "%"):
                self.oblige(i_ne(b, 0), "integer division by zero")
                if isinstance(a, int) and isinstance(b, int):
                    if b == 0: raise Unsupported("integer division by zero")
                    q = abs(a) // abs(b); q = q if (a >= 0) == (b >= 0) else -q
                    return q if op == "/" else a - q * b
                nonneg = isinstance(b, int) and b > 0 and (not ty.s or self.quick(zi(a) >= 0))
                if nonneg: return (zi(a) / zi(b)) if op == "/" else (zi(a) % zi(b))
                q = z3.If(zi(a) >= 0, z3.If(zi(b) > 0, zi(a) / zi(b), -(zi(a) / -zi(b))), z3.If(zi(b) > 0, -((-zi(a)) / zi(b)), (-zi(a)) / (-zi(b))))
                return q if op == "/" else zi(a) - q * zi(b)
            if op in ("<<", ">>", "&", "|", "^"):
                if isinstance(a, int) and isinstance(b, int): return {"<<": a << b, ">>": a >> b, "&": a & b, "|": a | b, "^": a ^ b}[op]
                if op == "<<" and isinstance(b, int): return i_mul(a, 2 ** b)
                if op == ">>" and isinstance(b, int): return zi(a) / z3.IntVal(2 ** b)
        raise Unsupported("operator %s on %s" % (op, ty))
    def compare(self, op, a, b):
        a, b = self.use(a), self.use(b)
        if isinstance(a, (R, Mat)) or isinstance(b, (R, Mat)):
            if isinstance(a, Mat) and not (a.r == 1 and a.c == 1) or isinstance(b, Mat) and not (b.r == 1 and b.c == 1):
                from .eigen import mat_cmp
                return mat_cmp(self, op, a, b)
            a, b = self.real(a), self.real(b)
            return {"<": r_lt(a, b), "<=": r_le(a, b), ">": r_lt(b, a), ">=": r_le(b, a), "==": r_eq(a, b), "!=": b_not(r_eq(a, b))}[op]
        ka, kb = kind(a), kind(b)
        if ka == "bool" and kb == "bool" and op in ("==", "!="):
            r = (a == b) if isinstance(a, bool) and isinstance(b, bool) else (zb(a) == zb(b))
            return r if op == "==" else b_not(r)
        if ka in ("int", "bool") and kb in ("int", "bool"):
            a, b = self.int(a), self.int(b)
            return {"<": i_lt, "<=": i_le, ">": i_gt, ">=": i_ge, "==": i_eq, "!=": i_ne}[op](a, b)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.lv is None or b.lv is None or a.lv == b.lv:
                r = (a.lv is None) == (b.lv is None)
                return r if op == "==" else not r
        if isinstance(a, Iter) and isinstance(b, Iter) and a.lv == b.lv and a.rev == b.rev:
            return {"<": i_lt, "<=": i_le, ">": i_gt, ">=": i_ge, "==": i_eq, "!=": i_ne}[op](a.idx, b.idx)
        if isinstance(a, Opq) and isinstance(b, Opq) and a.x is not None and b.x is not None:
            return (a.x == b.x) if op == "==" else (a.x != b.x)
        if isinstance(a, (Ptr, Opq)) and isinstance(b, (Ptr, Opq)):
            r = self.ctx.fresh("ptrcmp", z3.BoolSort())
            return r
        if isinstance(a, Str) and isinstance(b, Str):
            if a.s is not None and b.s is not None: return (a.s == b.s) if op == "==" else (a.s != b.s)
            ta, tb = a.term(), b.term()
            if ta is not None and tb is not None: return (ta == tb) if op == "==" else (ta != tb)
            return self.ctx.fresh("strcmp", z3.BoolSort())
        if isinstance(a, Struct) and isinstance(b, Struct) and op in ("==", "!="):
            r = b_and(*[self.compare("==", a.f[k], b.f[k]) for k in a.f])
            return r if op == "==" else b_not(r)
        raise Unsupported("comparison %s of %s and %s" % (op, kind(a), kind(b)))
    def e_Bin(self, e):
        op = e["op"]
        if op in ("&&", "||"):
            a = self.bool(self.ev(e["a"]))
            if op == "&&" and a is False: return False
            if op == "||" and a is True: return True
            save = dict(self.store)
            g = a if op == "&&" else b_not(a)
            self.pc.append(g); n = len(self.pc)
            b = self.bool(self.ev(e["b"]))
            assert len(self.pc) == n
            self.pc.pop()
            self.store = self.merge_store(g, self.store, save)
            return b_and(a, b) if op == "&&" else b_or(a, b)
        if op == "=": return self.assign(e)
        if op == ",":
            self.ev(e["a"]); return self.ev(e["b"])
        a = self.ev(e["a"]); b = self.ev(e["b"])
        if op in ("<", "<=", ">", ">=", "==", "!="): return self.compare(op, a, b)
        if isinstance(self.res(a), Iter) and op in ("+", "-"):
            a = self.res(a); b = self.res(b)
            if isinstance(b, Iter): return i_sub(a.idx, b.idx)
            return Iter(a.lv, i_add(a.idx, self.int(b)) if op == "+" else i_sub(a.idx, self.int(b)), a.rev)
        return self.arith(op, a, b, e["t"])
    def assign(self, e):
        v = self.ev(e["b"]); lv = self.lv_strict(e["a"])
        self.wr(lv, self.conv(v, e["a"]["t"]))
        return v
    def l_Bin(self, e):
        if e["op"] == "=":
            v = self.ev(e["b"]); lv = self.lv_strict(e["a"]); self.wr(lv, self.conv(v, e["a"]["t"])); return lv
        if e["op"] == ",": self.ev(e["a"]); return self.lv(e["b"])
        return self.tmp(self.ev(e))
    def e_CAssign(self, e): return self.rd(self.l_CAssign(e))
    def l_CAssign(self, e):
        b = self.ev(e["b"]); lv = self.lv_strict(e["a"]); a = self.rd(lv)
        op = e["op"][:-1]
        if isinstance(self.res(a), Iter):
            a = self.res(a); r = Iter(a.lv, (i_add if op == "+" else i_sub)(a.idx, self.int(b)), a.rev)
        else:
            r = self.arith(op, a, b, e["ct"])
        self.wr(lv, self.conv(r, e["a"]["t"]))
        return lv
    def e_Un(self, e):
        op = e["op"]
        if op == "!": return b_not(self.bool(self.ev(e["e"])))
        if op == "-":
            v = self.ev(e["e"])
            if e["t"].k == "real": return r_neg(self.real(v))
            v = self.int(v)
            return i_sub(0, v) if e["t"].s else self.wrap_unsigned(i_sub(0, v), e["t"].w)
        if op == "+": return self.ev(e["e"])
        if op in ("++", "--"):
            lv = self.lv_strict(e["e"]); old = self.rd(lv)
            o = self.res(old)
            if isinstance(o, Iter): new = Iter(o.lv, (i_add if op == "++" else i_sub)(o.idx, 1), o.rev)
            elif e["e"]["t"].k == "real": new = (r_add if op == "++" else r_sub)(self.real(old), R(1))
            else:
                new = (i_add if op == "++" else i_sub)(self.int(old), 1)
                if op == "--" and e["e"]["t"].k == "int" and not e["e"]["t"].s: new = self.wrap_unsigned(new, e["e"]["t"].w)
            self.wr(lv, new)
            return old if e["post"] else new
        if op == "*": return self.rd(self.deref(self.ev(e["e"])))
        if op == "&":
            if e["e"]["k"] in ("FnRef",): return self.ev(e["e"])
            return Ptr(self.lv(e["e"]))
        raise Unsupported("unary " + op)
    def l_Un(self, e):
        if e["op"] == "*": return self.deref(self.ev(e["e"]))
        if e["op"] in ("++", "--") and not e["post"]:
            lv = self.lv(e["e"]); self.e_Un(e); return lv
        return self.tmp(self.ev(e))
    def e_Cond(self, e):
        c = self.bool(self.ev(e["c"]))
        if isinstance(c, bool): return self.ev(e["a"] if c else e["b"])
        save = dict(self.store)
        self.pc.append(c); a = self.ev(e["a"]); self.pc.pop(); sa = self.store
        self.store = save
        self.pc.append(b_not(c)); b = self.ev(e["b"]); self.pc.pop()
        self.store = self.merge_store(c, sa, self.store)
        if e["t"].k == "real": a, b = self.conv(a, e["t"]), self.conv(b, e["t"])
        return ite(c, a, b)
    def l_Sub(self, e):
        b = self.res(self.ev(e["b"])) if e["b"]["k"] == "Cast" and e["b"]["ck"] == "ArrayToPointerDecay" or e["b"]["t"].k == "ptr" else None
        i = self.int(self.ev(e["i"]))
        if isinstance(b, Iter):
            return self.index(b.lv, i_add(b.idx, i))
        if isinstance(b, Ptr): raise Unsupported("pointer subscript")
        return self.index(self.lv(e["b"]), i)
    def e_Sub(self, e): return self.rd(self.l_Sub(e))
    def index(self, lv, i, label="index within the container"):
        v = self.res(self.rd(lv))
        if not isinstance(v, Vec): raise Unsupported("subscript of " + kind(v))
        self.oblige(b_and(i_ge(i, 0), i_lt(i, v.len)), label)
        if isinstance(i, int) and isinstance(v.len, int) and not (0 <= i < v.len):
            raise Dead() if False else Unsupported("constant index out of range")
        return lv.i(i)
    def e_InitList(self, e):
        t = e["t"]
        args = e["args"]
        if t.k == "rec" and self.rec(t):
            fields = self.all_fields(t); fs = {}
            for f, a in itertools.zip_longest(fields, args):
                if f is None: raise Unsupported("init list arity")
                fs[f["n"]] = self.conv(self.ev(a), f["t"]) if a is not None else (self.conv(self.ev(f["init"]), f["t"]) if f.get("init") is not None else self.zero(f["t"]))
            return Struct(t.key, fs)
        if t.k == "arr":
            vs = [self.conv(self.ev(a), t.to) for a in args]
            while t.len is not None and len(vs) < t.len: vs.append(self.zero(t.to))
            return lit_vec(vs, t.to)
        if t.k == "rec" and t.n == "std::array":
            v = self.ev(args[0]) if args else self.zero(t)
            return v
        if t.k in ("real", "int", "bool", "ptr") : return self.conv(self.ev(args[0]), t) if args else self.zero(t)
        if len(args) == 1: return self.ev(args[0])
        raise Unsupported("init list of %s" % t)
    def e_StdInit(self, e): return self.ev(e["e"])
    def e_ZeroInit(self, e): return self.zero(e["t"])
    def e_Lambda(self, e):
        fr = self.frames[-1]; caps = {}
        for c in e["caps"]:
            if c.get("this"): continue
            vid = c["var"]
            if c.get("byref") and not c.get("initcap"): caps[vid] = self.var_lv(vid)
            else:
                v = self.ev(c["init"]) if c.get("init") is not None else self.rd(self.var_lv(vid))
                caps[vid] = self.tmp(v)
        return Clo(e, caps, fr.this)
    def e_New(self, e):
        v = self.ev(e["e"]) if e.get("e") is not None else self.default(e["of"])
        return Ptr(self.heap(v))
    def e_Throw(self, e):
        self.oblige(False, "no exception is thrown")
        raise Unsupported("throw")
    # ------------------------------------------------------------ calls
    def closure_call(self, clo, args):
        """args: list of values or LVs"""
        if isinstance(clo, Opq) and clo.tag.startswith("fn:"):
            f = self.prog.fns.get(clo.tag[3:])
            if f is None: raise Unsupported("call of " + clo.tag)
            return self.run_fn(f, None, args)
        if isinstance(clo, Struct):     # function object
            c = [g for g in self.prog.fns.values() if g["q"].endswith("::operator()") and g.get("clst") is not None and g["clst"].key == clo.cls and len(g["params"]) == len(args)]
            if len({g["fid"] for g in c}) != 1: raise Unsupported("call of an object of " + str(clo.cls))
            return self.run_fn(c[0], self.tmp(clo), args)
        if not isinstance(clo, Clo): raise Unsupported("call of " + kind(clo))
        n = clo.node
        f = {"q": "lambda@%s" % n["l"], "params": n["params"], "body": n["body"], "ret": n["ret"], "fid": n["fn"]}
        if n.get("generic"):
            c = [g for g in self.prog.fns.values() if g["fid"].startswith(n["fn"].split("::operator()")[0]) and len(g["params"]) == len(args)]
            if len(c) != 1: raise Unsupported("generic lambda")
            f = c[0]
        return self.run_fn(f, clo.this, args, cap=clo.env)
    def bind(self, fr, params, args):
        for p, a in itertools.zip_longest(params, args):
            if p is None: break
            if p["t"].k == "ref":
                fr.refs[p["id"]] = a if isinstance(a, LV) else self.tmp(a)
            else:
                v = self.rd(a) if isinstance(a, LV) else a
                self.store[("l", fr.no, p["id"])] = self.conv(v, p["t"])
    def run_fn(self, f, this, args, cap=None):
        """inline execution of a function body; returns a value, or an LV when the function returns a reference"""
        self.depth += 1
        if self.depth > 40: raise Unsupported("call depth")
        self.nframe += 1
        fr = Frame(self.nframe, f, this)
        if cap: fr.cap = cap
        self.bind(fr, f["params"], args)
        saved_pc = list(self.pc)
        fr.base_pc = len(self.pc)
        self.frames.append(fr)
        self.called.add(f["fid"])
        line = self.line
        try:
            if f.get("ctor"): self.run_inits(f, fr)
            live = self.stmt(f["body"])
            rets = fr.exits
            if live:
                rets.append(("return", list(self.pc), None, self.store))
            self.frames.pop()
            # merge all returns
            conds = [b_and(*r[1][fr.base_pc:]) for r in rets]
            if not rets: raise DeadEnd()
            val = rets[-1][2]; st = rets[-1][3]
            for (k, pc, v, s), c in list(zip(rets, conds))[-2::-1]:
                if v is not None and val is not None:
                    if isinstance(v, LV) or isinstance(val, LV):
                        if v != val:
                            if isinstance(v, LV) and isinstance(val, LV): val = ite(c, self.rd_in(s, v), self.rd_in(st, val)); 
                            else: raise Unsupported("merge of returned references")
                    else: val = ite(c, v, val)
                elif v is not None: val = v
                st = self.merge_store(c, s, st)
            self.store = st
            self.pc = saved_pc
            pref = ("l", fr.no)
            for k in [k for k in self.store if k[0] == "l" and k[1] == fr.no]:
                if not (isinstance(val, (Clo, Iter, Ptr)) or isinstance(val, LV)): del self.store[k]
            self.line = line
            return val if val is not None else VOID
        finally:
            if self.frames and self.frames[-1] is fr: self.frames.pop()
            self.depth -= 1
    def rd_in(self, st, lv):
        save = self.store; self.store = st
        try: return self.rd(lv)
        finally: self.store = save
    def run_inits(self, f, fr):
        for i in f.get("inits", []):
            if "f" in i:
                ft = [x for x in self.all_fields(f["clst"]) if x["n"] == i["f"]]
                v = None
                if ft and ft[0]["t"].k == "ref":
                    v = RefVal(self.lv(i["e"]))
                else:
                    v = self.conv(self.ev(i["e"]), ft[0]["t"] if ft else None)
                self.wr(fr.this.f(i["f"]), v)
            elif "base" in i:
                e = i["e"]
                if e is None: continue
                if e["k"] == "Construct":
                    self.ctor_on(e, fr.this)
                else: raise Unsupported("base init " + e["k"])
            else:
                e = i["e"]
                if e is not None and e["k"] == "Construct": self.ctor_on(e, fr.this)
    def ctor_on(self, e, this):
        f = self.prog.fns.get(e["fn"]["fid"])
        if f is None:
            if e["args"]:
                raise Unsupported("constructor %s without body" % e["fn"]["fid"])
            return
        self.run_fn(f, this, [self.arg(a, p) for a, p in zip(e["args"], f["params"])])
    def arg(self, a, p):
        return self.lv(a) if p["t"].k == "ref" else self.ev(a)
    def find_virtual(self, fn, cls):
        """final overrider of fn in dynamic class cls (name)"""
        order = [cls] + self.prog.bases(cls)
        cand = {fn["fid"]}
        work = [fn["fid"]]
        while work:
            x = work.pop()
            for y in self.prog.overriders.get(x, []):
                if y not in cand: cand.add(y); work.append(y)
        for c in order:
            for fid in cand:
                f = self.prog.fns.get(fid)
                if f and f["clst"].key == c: return f
        return None
    def invoke(self, fn, this, args):
        """fn: reference record from the dump; this: LV or None; args: LVs for reference params, else values"""
        c = self.contracts.get(fn["q"]) or self.contracts.get(fn["fid"])
        if c is not None:
            return c(self, this, args, fn)
        f = None
        if fn.get("virtual") and this is not None and not fn.get("_qual"):
            v = self.res(self.rd(this))
            if isinstance(v, Struct):
                f = self.find_virtual(fn, v.cls)
                if f is None and fn["fid"] in self.prog.fns: f = self.prog.fns[fn["fid"]]
                if f is not None:
                    c = self.contracts.get(f["q"])
                    if c is not None: return c(self, this, args, fn)
        if f is None: f = self.prog.fns.get(fn["fid"])
        if f is None:
            raise Unsupported("no body for " + fn["fid"])
        return self.run_fn(f, this, args)
    def e_Construct(self, e):
        t = e["t"]
        fn = e["fn"]
        if e["copy"] and len(e["args"]) == 1:
            v = self.ev(e["args"][0])
            return v
        f = self.prog.fns.get(fn["fid"])
        c = self.contracts.get(fn["q"])
        if c is not None: return c(self, None, [self.lv(a) if a.get("lv") else self.ev(a) for a in e["args"]], fn)
        if f is not None:
            args = [self.arg(a, p) for a, p in zip(e["args"], f["params"])]
            this = self.tmp(self.default_struct(t))
            self.run_fn(f, this, args)
            return self.store.pop(this.root) if this.root in self.store else None
        if t.k == "rec" and self.rec(t) and not e["args"]: return self.default_struct(t)
        from . import lib
        return lib.construct(self, e)
    def e_OpCall(self, e):
        r = self.opcall(e)
        return self.rd(r) if isinstance(r, LV) else r
    def l_OpCall(self, e):
        r = self.opcall(e)
        return r if isinstance(r, LV) else self.tmp(r)
    def opcall(self, e):
        fn = e.get("fn")
        if fn and fn["fid"] in self.prog.fns and not fn.get("lambda"):
            f = self.prog.fns[fn["fid"]]
            if "cls" in fn: return self.invoke(fn, self.lv(e["args"][0]), [self.arg(a, p) for a, p in zip(e["args"][1:], f["params"])])
            return self.invoke(fn, None, [self.arg(a, p) for a, p in zip(e["args"], f["params"])])
        if e["op"] == "()" and fn and fn.get("lambda"):
            clo = self.res(self.ev(e["args"][0]))
            ps = clo.node["params"] if isinstance(clo, Clo) and clo.node["params"] else [{"t": a["t"]} for a in e["args"][1:]]
            return self.closure_call(clo, [self.lv(a) if p["t"].k == "ref" else self.ev(a) for a, p in zip(e["args"][1:], ps)])
        from . import lib
        return lib.opcall(self, e)
    def obj_lv(self, e):
        if e["arrow"]:
            return self.deref(self.ev(e["obj"]))
        return self.lv(e["obj"])
    def e_MCall(self, e):
        r = self.mcall(e)
        return self.rd(r) if isinstance(r, LV) else r
    def l_MCall(self, e):
        r = self.mcall(e)
        return r if isinstance(r, LV) else self.tmp(r)
    def mcall(self, e):
        fn = e.get("fn")
        if fn is None: raise Unsupported("member call through pointer")
        if fn.get("repo") or fn["q"] in self.contracts or fn["fid"] in self.prog.fns:
            this = self.obj_lv(e)
            f = self.prog.fns.get(fn["fid"])
            pts = fn["pt"]
            args = [self.lv(a) if pt.k == "ref" else self.ev(a) for a, pt in zip(e["args"], pts)]
            if e.get("qual"): fn = dict(fn, _qual=True)
            return self.invoke(fn, this, args)
        from . import lib
        return lib.mcall(self, e)
    def e_Call(self, e):
        r = self.call(e)
        return self.rd(r) if isinstance(r, LV) else r
    def l_Call(self, e):
        r = self.call(e)
        return r if isinstance(r, LV) else self.tmp(r)
    def call(self, e):
        fn = e.get("fn")
        if fn is None:
            clo = self.res(self.ev(e["ce"]))
            return self.closure_call(clo, [self.ev(a) for a in e["args"]])
        if fn.get("repo") or fn["q"] in self.contracts:
            if fn["fid"] in self.prog.fns or fn["q"] in self.contracts or fn["fid"] in self.contracts:
                args = [self.lv(a) if pt.k == "ref" else self.ev(a) for a, pt in zip(e["args"], fn["pt"])]
                return self.invoke(fn, None, args)
        from . import lib
        return lib.call(self, e)
    # ------------------------------------------------------------ statements: return True if live afterwards
    def merge_store(self, c, a, b):
        if a is b: return dict(a)
        out = {}
        for k, va in a.items():
            vb = b.get(k, None)
            if vb is None: out[k] = va
            elif va is vb: out[k] = va
            else: out[k] = ite(c, va, vb)
        for k, vb in b.items():
            if k not in a: out[k] = vb
        return out
    def stmt(self, s):
        if s is None: return True
        m = getattr(self, "s_" + s["k"], None)
        if m is None: raise Unsupported("statement " + s["k"] + " " + str(s.get("cls", "")))
        if s.get("l"): self.line = s["l"]
        return m(s)
    def s_Expr(self, s):
        e = s["e"]
        if e["k"] == "Throw": return self.s_throw(e)
        if e["k"] in ("MCall", "Call", "OpCall"):
            {"MCall": self.mcall, "Call": self.call, "OpCall": self.opcall}[e["k"]](e)
        elif e["k"] in ("CAssign",): self.l_CAssign(e)
        else: self.ev(e)
        return True
    thrown = None
    throws = None
    def s_throw(self, e):
        if self.throws is not None: self.throws.append(list(self.pc)); return False
        self.oblige(False, "no exception is thrown")
        return False
    def s_Nop(self, s): return True
    def s_Block(self, s):
        for x in s["s"]:
            if self.thrown is not None: raise Unsupported("statement after a call that may throw")
            if not self.stmt(x): return False
        return True
    def s_Decl(self, s):
        fr = self.frames[-1]
        for d in s["d"]:
            if "unsupported" in d: raise Unsupported("declaration " + d["unsupported"])
            if d.get("static"): raise Unsupported("static local")
            t = d["t"]
            if t.k == "ref":
                fr.refs[d["id"]] = self.lv(d["init"])
                continue
            fr.refs.pop(d["id"], None)
            if d.get("vla") is not None:
                n = self.int(self.ev(d["vla"]))
                self.store[("l", fr.no, d["id"])] = fn_vec(n, lambda i: UNINIT, t.to); continue
            if d.get("init") is not None: v = self.conv(self.ev(d["init"]), t)
            else: v = self.default(t)
            if self.name_mats is not None and isinstance(v, Mat): v = self.named(v, d.get("n", "m"))
            self.store[("l", fr.no, d["id"])] = v
        return True
    name_mats = None   # list: small matrices get ghost names for their cells (same values; keeps polynomials small)
    def named(self, m, nm):
        if not (isinstance(m.r, int) and isinstance(m.c, int) and m.r * m.c <= 16): return m
        cells = []
        for i in range(m.r):
            for j in range(m.c):
                x = m.get(i, j)
                if not isinstance(x, R) or not fin(x): return m
                cells.append(x)
        if all(num(x.v) is not None or z3.is_const(x.v) for x in cells): return m
        out = []
        for x in cells:
            if num(x.v) is not None or z3.is_const(x.v): out.append(x); continue
            g = self.ctx.fresh("cell", z3.RealSort()); self.ctx.add_fact(g == x.v, self.pc); self.ctx.__dict__.setdefault("defs", []).append((g, x.v)); out.append(R(g))
        r = Mat(m.r, m.c, tuple(out), None, m.arr)
        self.name_mats.append((nm, r))
        return r
    def s_If(self, s):
        if s.get("init"): self.stmt(s["init"])
        if s.get("cv"): self.s_Decl({"d": [s["cv"]]})
        return self.if_cond(self.bool(self.ev(s["c"])), s)
    def if_cond(self, c, s):
        if is_z3(c):
            cs = z3.simplify(c)
            if z3.is_true(cs): c = True
            elif z3.is_false(cs): c = False
        if c is True: return self.stmt(s["a"])
        if c is False: return self.stmt(s["b"]) if s.get("b") else True
        base = len(self.pc); basepc = list(self.pc)
        save = dict(self.store); refs = dict(self.frames[-1].refs)
        self.pc.append(c)
        la = self.branch(s["a"])
        sa, pa = self.store, self.pc
        self.store = save; self.pc = basepc + [b_not(c)]; self.frames[-1].refs = dict(refs)
        lb = self.branch(s["b"]) if s.get("b") else True
        sb, pb = self.store, self.pc
        if la and lb:
            self.store = self.merge_store(c, sa, sb)
            if len(pa) == base + 1 and len(pb) == base + 1: self.pc = basepc
            else: self.pc = basepc + [b_or(b_and(*pa[base:]), b_and(*pb[base:]))]
            return True
        if la: self.store = sa; self.pc = pa; return True
        if lb: self.store = sb; self.pc = pb; return True
        return False
    def branch(self, s):
        try: return self.stmt(s)
        except EmptyRead:
            # reading an empty literal vector: this path is only sound if unreachable
            self.oblige(False, "read of an empty vector"); return False
        except Unsupported as u:
            if "out of range" in str(u) or "null dereference" in str(u):
                return False
            raise
    def s_Return(self, s):
        fr = self.frames[-1]
        v = None
        if s.get("e") is not None:
            rt = fr.fn.get("ret")
            if rt is not None and rt.k == "ref": v = self.lv(s["e"])
            else: v = self.conv(self.ev(s["e"]), rt)
        fr.exits.append(("return", list(self.pc), v, self.store))
        self.store = dict(self.store)
        return False
    def s_Break(self, s):
        self.frames[-1].loops[-1]["brk"].append((list(self.pc), self.store)); self.store = dict(self.store)
        return False
    def s_Continue(self, s):
        self.frames[-1].loops[-1]["cont"].append((list(self.pc), self.store)); self.store = dict(self.store)
        return False
    def s_Try(self, s): 
        # exceptions are obligations, except those a contract declares (self.thrown: condition under which the last statement throws)
        prev, self.thrown = self.thrown, None
        r = self.stmt(s["b"]); t, self.thrown = self.thrown, prev
        if t is None: return r
        if not r or len(s["h"]) != 1: raise Unsupported("try block that leaves early or has several handlers")
        return self.if_cond(t, {"a": s["h"][0]["b"]})

    def s_For(self, s):
        from .loops import run_loop
        if s.get("unsupported"): raise Unsupported("for with declaration condition")
        if s.get("init"): self.stmt(s["init"])
        return run_loop(self, s.get("c"), s["b"], s.get("inc"), s)
    def s_While(self, s):
        from .loops import run_loop
        if s.get("unsupported"): raise Unsupported("while with declaration condition")
        return run_loop(self, s["c"], s["b"], None, s)
    def s_Do(self, s):
        raise Unsupported("do loop")
    def s_ForRange(self, s):
        from .loops import run_range
        if s.get("unsupported"): raise Unsupported("structured binding")
        return run_range(self, s)
    # ------------------------------------------------------------ entry points for specs
    def top(self):
        if not self.frames: self.frames.append(Frame(0, {"q": "spec"}, None))
    def call_q(self, q, this=None, args=(), nparams=None, pred=None, cls=None):
        self.top()
        f = self.prog.fn(q, nparams, pred, cls)
        self.ctx.functions[f["q"]] = f
        r = self.run_fn(f, this, list(args))
        return r
class DeadEnd(Unsupported):
    def __init__(self): Unsupported.__init__(self, "no live path")
class RefVal:
    """reference member: bound to an lvalue"""
    __slots__ = ("lv",)
    def __init__(self, lv): self.lv = lv
