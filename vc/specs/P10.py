"""P10: placing a rigid robot moves every body rigidly (MultiBodyTree2D/3D addBody, robotTF)."""
from ..unit import *
from ..lib import *
from ..eigen import quat, mat
from .P07 import rotq
TUS = ["src/datastructure/MultiBodyTree2D.cpp", "src/datastructure/MultiBodyTree3D.cpp", "src/geometry/SuperEllipse.cpp", "src/geometry/SuperQuadrics.cpp"]
ORACLE_SRC = ["src/datastructure/MultiBodyTree2D.cpp", "src/datastructure/MultiBodyTree3D.cpp", "src/geometry/SuperEllipse.cpp", "src/geometry/SuperQuadrics.cpp", "src/util/ExponentialFunction.cpp", "src/util/ParseURDF.cpp"]
ORACLE_LIBS = ["-lorocos-kdl"]
M2, M3 = "hrm::MultiBodyTree2D", "hrm::MultiBodyTree3D"
ASSUMPTIONS = ["every proper rotation matrix is written cos/sin of an angle (2D) or as the matrix of a unit quaternion (3D)"]
def rot2(c, s): return [[c, -s], [s, c]]
def homog(d, Rm, p):
    """homogeneous transform"""
    return mat(d + 1, d + 1, lambda i, j: R(Rm[i][j]) if i < d and j < d else (R(p[i]) if i < d else R(1 if j == d else 0)))
def pose2(U, nm):
    th = U.real(nm).v; return homog(2, rot2(F_COS(th), F_SIN(th)), [U.real(nm + "p").v for _ in range(2)])
def pose3(U, nm):
    q = [U.real(nm + k) for k in "wxyz"]; U.assume(z3.Sum(*[x.v * x.v for x in q]) == 1)
    return homog(3, rotq(quat(*q)), [U.real(nm + "p").v for _ in range(3)])
def stored(U, d):
    """ghost: the i-th stored link transform, an arbitrary rigid transform"""
    f = lambda nm: z3.Function(fresh_name(nm), z3.IntSort(), z3.RealSort())
    ps = [f("tfp") for _ in range(d)]
    if d == 2:
        th = f("tfa"); return lambda i: homog(2, rot2(F_COS(th(i)), F_SIN(th(i))), [p(i) for p in ps])
    qs_ = [f("tfq") for _ in range(4)]
    U.schema(["i"], lambda i: z3.Sum(*[q(i) * q(i) for q in qs_]) == 1)
    return lambda i: homog(3, rotq(quat(*[R(q(i)) for q in qs_])), [p(i) for p in ps])
def tree(U, cls, n, d):
    """arbitrary robot with n links satisfying the class invariant kept by addBody: one rigid stored transform per link"""
    t = U.obj(cls, "robot", numLinks_=n); tf = stored(U, d)
    t = t.with_("link_", Vec(n, t.f["link_"].node, t.f["link_"].et)).with_("tf_", fn_vec(n, lambda i: tf(zi(i)), t.f["tf_"].et))
    pl = 2 if d == 2 else 3
    return t, tf
def mul(d, a, b): return [[z3.Sum(*[a.get(i, k).v * b.get(k, j).v for k in range(d + 1)]) for j in range(d + 1)] for i in range(d + 1)]
KEEP = {"hrm::SuperEllipse": ["semiAxis_", "epsilon_", "num_"], "hrm::SuperQuadrics": ["semiAxis_", "epsilon_", "num_", "Num_", "eta_", "omega_", "qSample_"]}
def unchanged(U, a, b, what):
    for f in KEEP[a.cls]:
        U.prove(equal(U, a.f[f], b.f[f]), "%s: %s unchanged" % (what, f.rstrip("_")))
def equal(U, x, y):
    """same value (vectors and matrices: same size and the same element at an arbitrary index)"""
    if isinstance(x, R): return z3.And(x.v == y.v, zb(is_fin(x)) == zb(is_fin(y)))
    if isinstance(x, Struct): return z3.And(*[equal(U, x.f[k], y.f[k]) for k in x.f])
    if isinstance(x, Vec):
        j = U.forall("e"); return z3.And(zi(x.len) == zi(y.len), z3.Implies(z3.And(j >= 0, j < zi(x.len)), equal(U, x.get(j), y.get(j))))
    if isinstance(x, Mat):
        i, j = U.forall("r"), U.forall("c"); s = z3.And(zi(x.r) == zi(y.r), zi(x.c) == zi(y.c))
        return z3.And(s, z3.Implies(z3.And(i >= 0, j >= 0, i < zi(x.r), j < zi(x.c)), equal(U, U.ex.real(x.get(i, j)), U.ex.real(y.get(i, j)))))
    return zi(x) == zi(y)
def at_pose(U, body, M, d, what):
    """the body's pose is the rigid transform M"""
    p = body.f["position_"]
    U.prove(zi(p.len) == d, what + ": position has %d coordinates" % d)
    for r in range(d): U.prove_alg(p.get(r).v == M[r][d], what + ": position %d" % r)
    if d == 2: Rb = rot2(F_COS(body.f["angle_"].v), F_SIN(body.f["angle_"].v))
    else: 
        from ..eigen import quat_rot
        q = quat_rot(U.ex, body.f["quat_"]); Rb = [[q.get(i, j).v for j in range(3)] for i in range(3)]
    for i in range(d):
        for j in range(d): U.prove_alg(Rb[i][j] == M[i][j], what + ": orientation %d,%d" % (i, j))
def place(U, cls, d):
    n = U.int("n", 0); t, tf = tree(U, cls, n, d)
    g = pose2(U, "g") if d == 2 else pose3(U, "g")
    i = U.forall("i", 0, n)
    U.cover("precondition")
    o = U.loc(t); U.call(cls + "::robotTF", o, [U.loc(g)], pred=lambda f: len(f["params"]) == 1)
    r = U.rd(o)
    G = [[g.get(a, b).v for b in range(d + 1)] for a in range(d + 1)]
    at_pose(U, r.f["base_"], G, d, "base"); unchanged(U, r.f["base_"], t.f["base_"], "base")
    U.prove(z3.And(zi(r.f["numLinks_"]) == n, zi(r.f["link_"].len) == n, zi(r.f["tf_"].len) == n), "the number of links does not change")
    at_pose(U, r.f["link_"].get(i), mul(d, g, tf(i)), d, "link i"); unchanged(U, r.f["link_"].get(i), t.f["link_"].get(i), "link i")
    U.prove(equal(U, r.f["tf_"].get(i), t.f["tf_"].get(i)), "the stored transforms do not change")
def unit_place2(U):
    """robotTF(g), 2D: base at g, link i at g tf_i for every i; shapes, link count, order and stored transforms unchanged"""
    place(U, M2, 2)
def unit_place3(U):
    """robotTF(g), 3D"""
    place(U, M3, 3)
def add(U, cls, d):
    n = U.int("n", 0); t, tf = tree(U, cls, n, d)
    link = U.obj("hrm::SuperEllipse" if d == 2 else "hrm::SuperQuadrics", "link")
    p = U.vec(REAL, "pos", d); link = link.with_("position_", p)
    if d == 3:
        q = [U.real(k) for k in "wxyz"]; U.assume(z3.Sum(*[x.v * x.v for x in q]) == 1); link = link.with_("quat_", quat(*q)); Rl = rotq(quat(*q))
    else: th = link.f["angle_"].v; Rl = rot2(F_COS(th), F_SIN(th))
    i = U.forall("i", 0, n)
    U.cover("precondition")
    o = U.loc(t); U.call(cls + "::addBody", o, [U.loc(link)])
    r = U.rd(o); M = homog(d, Rl, [p.get(k).v for k in range(d)])
    U.prove(z3.And(zi(r.f["numLinks_"]) == n + 1, zi(r.f["link_"].len) == n + 1, zi(r.f["tf_"].len) == n + 1), "one more link")
    last = U.ex.res(r.f["tf_"].get(n))
    for a in range(d + 1):
        for b in range(d + 1): U.prove_alg(U.ex.real(last.get(a, b)).v == M.get(a, b).v, "stored transform of the new link (%d,%d)" % (a, b))
    U.prove(equal(U, r.f["link_"].get(n), link), "the new link is appended")
    U.prove(z3.And(equal(U, r.f["link_"].get(i), t.f["link_"].get(i)), equal(U, r.f["tf_"].get(i), t.f["tf_"].get(i))), "the other links stay, in order")
    U.prove(equal(U, r.f["base_"], t.f["base_"]), "the base does not change")
def unit_add2(U):
    """addBody, 2D: appends the link and its pose as stored transform"""
    add(U, M2, 2)
def unit_add3(U):
    """addBody, 3D"""
    add(U, M3, 3)
UNITS = [unit_place2, unit_place3, unit_add2, unit_add3]
