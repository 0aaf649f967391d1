"""P05: line versus triangle and mesh intersection (src/geometry/LineIntersection.cpp)."""
from ..unit import *
from ..lib import *
from ..eigen import mat
from .srcs import *
TUS = ["src/geometry/LineIntersection.cpp"]
TRI = "hrm::intersectLineTriangle3D"; TOL = z3.RealVal(Fraction(1, 10**12))
S = z3.Sum
def v3(U, nm): return [U.real(nm + k).v for k in "xyz"]
def cross(a, b): return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
def dot(a, b): return S(*[x * y for x, y in zip(a, b)])
def col(v): return mat(3, 1, lambda i, j: R(v[i]))
def abs_(x): return z3.If(x >= 0, x, -x)
def tri(U, o, d, t0, u, v):
    pt = U.loc(col(v3(U, "old"))); line = mat(6, 1, lambda i, j: R((o + d)[i]))
    r = zb(U.val(U.call(TRI, None, [U.loc(line), U.loc(col(t0)), U.loc(col(u)), U.loc(col(v)), pt])))
    return r, U.rd(pt)
def unit_piercing(U):
    """any line (o, d), non-degenerate triangle (t0, u, v) and direction not parallel to it; o is written in the frame (u, v, d) as
    t0 + s u + t v - lam d, which loses no generality: accepted exactly when (s, t) is within tolerance of the triangle, and then the
    reported point is t0 + s u + t v = o + lam d"""
    t0, u, v, d = [v3(U, n) for n in ("t", "u", "v", "d")]; s, t, lam = [U.real(n).v for n in ("s", "t", "lam")]
    o = [t0[i] + s * u[i] + t * v[i] - lam * d[i] for i in range(3)]
    N = cross(u, v); NN = dot(N, N); U.assume(NN > 0); nu = U.ghost(F_SQRT(NN), "nu"); U.assume(nu > 0)
    U.assume(dot(u, u) * dot(v, v) - dot(u, v) * dot(u, v) > 0)      # Lagrange identity: equal to NN (lemma below)
    nd = U.ghost(dot(N, d), "nd"); beta = U.ghost(nd / nu, "beta"); U.assume(beta * nu == nd)
    U.assume(z3.Or(beta > TOL, beta < -TOL)); U.assume(nd != 0)
    U.cover("precondition", [x == y for w, c in ((u, (1, 0, 0)), (v, (0, 1, 0)), (d, (0, 0, 1)), (t0, (0, 0, 0)), ((s, t, lam), (0, 0, 0)), ((nu, nd, beta), (1, 1, 1))) for x, y in zip(w, c)])
    U.prove_alg(dot(u, u) * dot(v, v) - dot(u, v) * dot(u, v) == NN, "Lagrange identity")
    r, pt = tri(U, o, d, t0, u, v)
    r = U.rewrite(r, [s, t, lam, s + t, beta, -beta, z3.RealVal(1)], label="barycentric form")
    U.prove(r == z3.And(s >= -TOL, s <= 1 + TOL, t >= -TOL, s + t <= 1 + TOL), "accepted exactly when the piercing point is within tolerance of the triangle")
    for k in range(3):
        g = t0[k] + s * u[k] + t * v[k]
        x = U.rewrite(U.ex.real(pt.get(k, 0)).v, [g, o[k] + lam * d[k], lam, beta, -beta, z3.RealVal(1)], label="point %d" % k)
        U.prove(z3.Implies(r, x == g), "the reported point is the piercing point (%d)" % k); U.prove_alg(g == o[k] + lam * d[k], "and lies on the line (%d)" % k)
def refused(U, o, d, t0, u, v):
    r, _ = tri(U, o, d, t0, u, v); return r
def unit_parallel(U):
    """a direction parallel (within tolerance) to the plane of a non-degenerate triangle: refused"""
    t0, u, v, d, o = [v3(U, n) for n in ("t", "u", "v", "d", "o")]; N = cross(u, v); NN = dot(N, N); U.assume(NN > 0)
    nu = U.ghost(F_SQRT(NN), "nu"); U.assume(nu > 0); nd = U.ghost(dot(N, d), "nd"); beta = U.ghost(nd / nu, "beta"); U.assume(beta * nu == nd)
    U.assume(dot(u, u) * dot(v, v) - dot(u, v) * dot(u, v) > 0)
    U.assume(z3.And(beta <= TOL, beta >= -TOL))
    U.cover("precondition", [x == y for w, c in ((u, (1, 0, 0)), (v, (0, 1, 0)), (d, (1, 0, 0)), (t0, (0, 0, 0)), ((nu, nd, beta), (1, 0, 0))) for x, y in zip(w, c)])
    r = U.rewrite(refused(U, o, d, t0, u, v), [beta, -beta, z3.RealVal(1)], label="angle")
    U.prove(z3.Not(r), "refused")
def unit_degenerate(U):
    """a degenerate triangle (edge vectors linearly dependent) is refused"""
    t0, u, d, o = [v3(U, n) for n in ("t", "u", "d", "o")]; k = U.real("k").v; w = [k * x for x in u]
    U.cover("precondition"); U.ex.ieee = True
    for nm, a, b in (("v = k u", u, w), ("u = k v", w, u)):
        r = refused(U, o, d, t0, a, b); g = U.rewrite(r, [z3.RealVal(0)], label="zero normal (%s)" % nm)
        U.prove(z3.Not(g), "refused (%s)" % nm)
def unit_box(U):
    """lemma: a point of a triangle lies, in every coordinate, between the smallest and largest vertex"""
    s, t, a, b, c = [U.real(n).v for n in "stabc"]; U.assume(z3.And(s >= 0, t >= 0, s + t <= 1)); U.cover("lemma")
    p = a + s * (b - a) + t * (c - a)
    hi = z3.If(a >= b, z3.If(a >= c, a, c), z3.If(b >= c, b, c)); M = U.real("M").v; U.assume(z3.And(M >= a, M >= b, M >= c)); L = U.real("L").v; U.assume(z3.And(L <= a, L <= b, L <= c))
    for x, y in ((s, M - b), (t, M - c), (1 - s - t, M - a), (s, b - L), (t, c - L), (1 - s - t, a - L)): U.assume(z3.Implies(z3.And(x >= 0, y >= 0), x * y >= 0))
    U.prove_alg(M - p == (1 - s - t) * (M - a) + s * (M - b) + t * (M - c), "distance to the maximum"); U.assume(M - p == (1 - s - t) * (M - a) + s * (M - b) + t * (M - c))
    U.prove_alg(p - L == (1 - s - t) * (a - L) + s * (b - L) + t * (c - L), "distance to the minimum"); U.assume(p - L == (1 - s - t) * (a - L) + s * (b - L) + t * (c - L))
    U.prove(z3.And(L <= p, p <= M), "between the extremes")
# ---------------------------------------------------------------- meshes
RS, IS = z3.RealSort(), z3.IntSort()
HIT = z3.Function("accepts", *([RS] * 15 + [z3.BoolSort()])); PT = [z3.Function("piercing%d" % k, *([RS] * 16)) for k in range(3)]
def mesh_setup(U, vertical):
    n = U.int("faces", 0); m = U.int("vertices", 1); U.assume(z3.And(n < 2**31, m < 2**31))
    F = [z3.Function(fresh_name("face%d" % k), IS, IS) for k in range(3)]
    U.schema(["i"], lambda i: z3.Implies(z3.And(i >= 0, i < n), z3.And(*[z3.And(f(i) >= 0, f(i) < m) for f in F])), pats=None)
    V = [z3.Function(fresh_name("vertex%d" % k), IS, RS) for k in range(3)]
    vert = mat(3, m, lambda r, j: R(V[r](zi(j))) if isinstance(r, int) else R(z3.If(r == 0, V[0](zi(j)), z3.If(r == 1, V[1](zi(j)), V[2](zi(j))))))
    face = mat(n, 3, lambda i, k: R(z3.ToReal(F[k](zi(i)))))
    mesh = Struct("hrm::MeshMatrix", {"vertices": vert, "faces": face})
    o = v3(U, "o"); d = [z3.RealVal(0), z3.RealVal(0), U.real("dz").v] if vertical else v3(U, "d")
    line = mat(6, 1, lambda i, j: R((o + d)[i]))
    vx = lambda i, k: [V[c](F[k](i)) for c in range(3)]
    arg = lambda i: o + d + vx(i, 0) + [a - b for a, b in zip(vx(i, 1), vx(i, 0))] + [a - b for a, b in zip(vx(i, 2), vx(i, 0))]
    hit = lambda i: HIT(*arg(i))
    pt = lambda i: [p(*arg(i)) for p in PT]
    # what it means that face i is pierced (proved for the triangle test and for triangles in unit_piercing and unit_box)
    TH = z3.Function(fresh_name("pierced"), IS, z3.BoolSort())
    def rng(i, c): vs = [vx(i, k)[c] for k in range(3)]; return z3.And(z3.Or(*[o[c] <= x for x in vs]), z3.Or(*[o[c] >= x for x in vs]))
    U.schema(["i"], lambda i: z3.Implies(z3.And(i >= 0, i < n, TH(i)), z3.And(hit(i), *[z3.Implies(d[c] == 0, rng(i, c)) for c in range(3)])), pats=None)
    def contract(ex, this, args, f):
        v = [ex.res(ex.rd(a)) if isinstance(a, LV) else ex.res(a) for a in args[:4]]
        a = [ex.real(v[0].get(i, 0)).v for i in range(6)] + [ex.real(x.get(i, 0)).v for x in v[1:] for i in range(3)]
        ok = HIT(*a); fr = [ex.ctx.fresh("unspecified", RS) for _ in range(3)]
        ex.wr(args[4], mat(3, 1, lambda i, j: R(z3.If(ok, PT[i](*a), fr[i])))); return ok
    U.ex.contracts[TRI] = contract
    return n, m, line, mesh, hit, pt, TH
def mesh(U, q, vertical):
    n, m, line, ms, hit, pt, TH = mesh_setup(U, vertical)
    Q = z3.Function(fresh_name("Q"), RS, RS, RS, z3.BoolSort())
    U.schema(["i"], lambda i: z3.Implies(z3.And(i >= 0, i < n, hit(i)), Q(*pt(i))), pats=None)
    U.cover("precondition")
    r = U.val(U.call(q, None, [U.loc(line), U.loc(ms)]))
    j = U.forall("j", 0, zi(r.len)); x = r.get(j)
    U.prove(Q(*[U.ex.real(x.get(k, 0)).v for k in range(3)]), "only piercing points of accepted faces are returned")
    P = z3.Function(fresh_name("P"), RS, RS, RS, z3.BoolSort()); i = U.forall("i", 0, n)
    U.schema(["j"], lambda j: z3.Implies(z3.And(j >= 0, j < zi(r.len)), P(*[U.ex.real(r.get(j).get(k, 0)).v for k in range(3)])), pats=None)
    for _, C in U.ctx.__dict__.get("sums", []): U.ghost(C(i))      # the position of face i in the result
    U.prove(z3.Implies(TH(i), P(*pt(i))), "the piercing point of every pierced face is returned")
def unit_mesh(U):
    """intersectLineMesh3D, any mesh and any line: exactly piercing points of accepted faces, and those of every pierced face"""
    mesh(U, "hrm::intersectLineMesh3D", False)
def unit_vertical(U):
    """intersectVerticalLineMesh3D, any mesh and any vertical line: the same"""
    mesh(U, "hrm::intersectVerticalLineMesh3D", True)
UNITS = [unit_piercing, unit_parallel, unit_degenerate, unit_box, unit_mesh, unit_vertical]
