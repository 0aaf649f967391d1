"""P27: articulated placement follows the kinematic chain (MultiBodyTree3D::robotTF(kdl…), ParseURDF::getTransform, ProbHRM3D::setTransform)."""
from ..unit import *
from ..lib import *
from ..eigen import quat, mat
from .P07 import rotq
from .P10 import tree, pose3, homog, mul, at_pose, unchanged, equal, M3
from .srcs import *
TUS = ["src/datastructure/MultiBodyTree3D.cpp", "src/planners/ProbHRM3D.cpp", "src/planners/HRM3D.cpp", "src/util/ParseURDF.cpp", "src/geometry/SuperQuadrics.cpp"]
ORACLE_SRC = PLAN3; ORACLE_LIBS = ALL
ASSUMPTIONS = ["KDL: forward kinematics of a tree is a function of the tree, the joint values and the body name, and yields a proper rotation and a translation; GetQuaternion returns a unit quaternion of that rotation; loading a URDF file yields the file's tree",
               "std::to_string / string concatenation are functions of their arguments"]
RS, IS = z3.RealSort(), z3.IntSort()
FKQ = [z3.Function("fk_q" + k, Obj, Obj, RS) for k in "wxyz"]; FKP = [z3.Function("fk_p%d" % k, Obj, Obj, RS) for k in range(3)]
FILE_TREE = z3.Function("tree_of_file", Obj, Obj); NJ = z3.Function("joints_of_tree", Obj, IS)
def body_name(i): return F_CAT(z3.Const("str:body", Obj), F_TOSTR(i + 1))
def fk(t, nm): return homog(3, rotq(quat(*[R(q(t, nm)) for q in FKQ])), [p(t, nm) for p in FKP])
def jnt(ex, e):
    for a in e["args"]: ex.ev(a)
    return Struct("KDL::JntArray", {"data": Mat(0, 1, None, ("fn", lambda i, j: UNINIT))})
def kin_contract(U, jc, seen):
    """ParseURDF::getTransform by contract: the kinematic tree's transform of the named body for exactly the given joint values"""
    def h(ex, this, args, f):
        k = ex.res(ex.rd(this)); a = ex.res(ex.rd(args[0]) if isinstance(args[0], LV) else args[0]); nm = ex.res(ex.rd(args[1]) if isinstance(args[1], LV) else args[1])
        d = a.f["data"]; j = U.forall("joint")
        ex.oblige(z3.And(zi(d.r) == zi(jc.r), z3.Implies(z3.And(j >= 0, j < zi(jc.r)), ex.real(d.get(j, 0)).v == ex.real(jc.get(j, 0)).v)), "the kinematics is evaluated at the given joint values", "pre")
        t = k.f["kdlTree_"].x; n = nm.term(); seen.append(t)
        ex.assume(z3.Sum(*[q(t, n) * q(t, n) for q in FKQ]) == 1)
        return fk(t, n)
    return h
def place(U, mode):
    n = U.int("n", 0); r0, tf = tree(U, M3, n, 3)
    g = pose3(U, "g"); i = U.forall("i", 0, n); m = U.int("m", 0)
    jc = U.havoc(A.Ty("rec", n="Eigen::Matrix", a=[REAL, -1, 1, 0, -1, 1]) if False else U.ptypes(M3 + "::robotTF", pred=lambda f: len(f["params"]) == 3)[2].noref(), "joints")
    U.ex.contracts["construct:KDL::JntArray"] = jnt
    U.ex.contracts["hrm::ParseURDF::getTransform"] = kin_contract(U, jc, [])
    U.ex.contracts["construct:KDL::Tree"] = kdl_tree
    o = U.loc(r0)
    if mode == "tree":
        k = U.obj("hrm::ParseURDF", "kdl"); t = k.f["kdlTree_"].x; U.cover("precondition")
        U.call(M3 + "::robotTF", o, [k, U.loc(g), U.loc(jc)], pred=lambda f: len(f["params"]) == 3 and "ParseURDF" in str(f["params"][0]["t"]))
    else:
        fs = Str(None, U.ctx.fresh("file", Obj)); t = FILE_TREE(fs.t); U.cover("precondition")
        U.ex.contracts["kdl_parser::treeFromFile"] = tree_from_file
        U.call(M3 + "::robotTF", o, [U.loc(fs), U.loc(g), U.loc(jc)], pred=lambda f: len(f["params"]) == 3 and "ParseURDF" not in str(f["params"][0]["t"]))
    r = U.rd(o); nm = body_name(i); K = fk(t, nm); U.assume(z3.Sum(*[q(t, nm) * q(t, nm) for q in FKQ]) == 1)
    at_pose(U, r.f["base_"], [[g.get(a, b).v for b in range(4)] for a in range(4)], 3, "base"); unchanged(U, r.f["base_"], r0.f["base_"], "base")
    U.prove(z3.And(zi(r.f["numLinks_"]) == n, zi(r.f["link_"].len) == n, zi(r.f["tf_"].len) == n), "the number of links does not change")
    gk = mul(3, g, K); GK = mat(4, 4, lambda a, b: R(gk[a][b]))
    at_pose(U, r.f["link_"].get(i), mul(3, GK, tf(i)), 3, "link i"); unchanged(U, r.f["link_"].get(i), r0.f["link_"].get(i), "link i")
    U.prove(equal(U, r.f["tf_"].get(i), r0.f["tf_"].get(i)), "the stored transforms do not change")
def kdl_tree(ex, e):
    if e["args"] and e["args"][0]["t"].noref().n == "KDL::Tree": return ex.res(ex.ev(e["args"][0]))
    for a in e["args"]: ex.ev(a)
    return ex.opaque(e["t"], "tree")
def tree_from_file(ex, this, args, f):
    fs = ex.res(ex.rd(args[0]) if isinstance(args[0], LV) else args[0])
    ex.wr(args[1], Opq("KDL::Tree", "obj", FILE_TREE(fs.term()))); return ex.ctx.fresh("parsed", z3.BoolSort())
def unit_place(U):
    """robotTF(kdl, g, q): base at g, link i at g * kinematics("body"+(i+1), q) * tf_i, for every i; shapes, order and stored transforms unchanged"""
    place(U, "tree")
def unit_place_file(U):
    """robotTF(file, g, q): the same for the tree loaded from that file"""
    place(U, "file")
def unit_transform(U):
    """ParseURDF::getTransform: the rotation and translation KDL computes for that body, unchanged, as homogeneous matrix"""
    k = U.obj("hrm::ParseURDF", "kdl"); t = k.f["kdlTree_"].x; nm = Str(None, U.ctx.fresh("name", Obj)); n = nm.t
    ja = Struct("KDL::JntArray", {"data": U.havoc(U.ptypes(M3 + "::robotTF", pred=lambda f: len(f["params"]) == 3)[2].noref(), "joints")})
    U.assume(z3.Sum(*[q(t, n) * q(t, n) for q in FKQ]) == 1); U.cover("precondition")
    C = U.ex.contracts
    C["construct:KDL::Tree"] = kdl_tree
    C["construct:KDL::Frame"] = lambda ex, e: Struct("KDL::Frame", {"M": Struct("KDL::Rotation", {k: UNINIT for k in "wxyz"}), "p": Struct("KDL::Vector", {"data": lit_vec([R(0)] * 3, REAL)})})
    C["construct:KDL::TreeFkSolverPos_recursive"] = lambda ex, e: Struct("fk", {"tree": ex.res(ex.ev(e["args"][0]))})
    def j2c(ex, e):
        s = ex.res(ex.rd(ex.lv(e["obj"]))); a = ex.res(ex.ev(e["args"][0])); nm2 = ex.res(ex.ev(e["args"][2])).term(); t2 = s.f["tree"].x
        j = U.forall("joint"); d, jc = a.f["data"], ja.f["data"]
        ex.oblige(z3.And(zi(d.r) == zi(jc.r), z3.Implies(z3.And(j >= 0, j < zi(jc.r)), ex.real(d.get(j, 0)).v == ex.real(jc.get(j, 0)).v)), "the kinematics is evaluated at the given joint values", "pre")
        ex.wr(ex.lv(e["args"][1]), Struct("KDL::Frame", {"M": Struct("KDL::Rotation", {c: R(q(t2, nm2)) for c, q in zip("wxyz", FKQ)}), "p": Struct("KDL::Vector", {"data": lit_vec([R(p(t2, nm2)) for p in FKP], REAL)})}))
        return ex.ctx.fresh("status", IS)
    C["m:KDL::TreeFkSolverPos_recursive::JntToCart"] = j2c
    C["m:KDL::TreeFkSolverPos::JntToCart"] = j2c
    def gq(ex, e):
        m = ex.res(ex.rd(ex.lv(e["obj"])))
        for a, c in zip(e["args"], "xyzw"): ex.wr(ex.lv_strict(a), m.f[c])
        return VOID
    C["m:KDL::Rotation::GetQuaternion"] = gq
    r = U.val(U.call("hrm::ParseURDF::getTransform", U.loc(k), [U.loc(ja), U.loc(nm)])); K = fk(t, n)
    for a in range(4):
        for b in range(4): U.prove_alg(U.ex.real(r.get(a, b)).v == K.get(a, b).v, "entry %d,%d" % (a, b))
def pose_of(V): return homog(3, rotq(quat(*[V.get(k) for k in (3, 4, 5, 6)])), [V.get(k).v for k in range(3)])
def unit_set(U):
    """ProbHRM3D::setTransform(V): places the robot at pose (V0..V2; unit quaternion V3..V6) with joint k at V[7+k] in order, for the planner's file; records V as current"""
    o = U.obj("hrm::planners::ProbHRM3D", "planner"); kp = U.obj("hrm::ParseURDF", "kdl"); t = kp.f["kdlTree_"].x
    o = o.with_("kdl_", Ptr(U.loc(kp)))
    V = U.vec(REAL, "V"); U.assume(z3.And(NJ(t) >= 0, zi(V.len) >= 7 + NJ(t), NJ(t) < 2**31)); U.assume(z3.Sum(*[V.get(k).v * V.get(k).v for k in (3, 4, 5, 6)]) == 1)
    U.cover("precondition"); G = pose_of(V); C = U.ex.contracts; seen = []
    C["construct:KDL::Tree"] = kdl_tree
    C["m:KDL::Tree::getNrOfJoints"] = lambda ex, e: NJ(ex.res(ex.ev(e["obj"])).x)
    def rtf(ex, this, args, f):
        a = [ex.res(ex.rd(x) if isinstance(x, LV) else x) for x in args]; seen.append(1)
        if len(a) != 3 or not isinstance(a[0], Str): raise Unsupported("another placement routine is called")
        ex.oblige(a[0].term() == o.f["urdfFile_"].term(), "the planner's own tree", "pre")
        for i in range(4):
            for j in range(4):
                ex.oblige(ex.real(a[1].get(i, j)).v == G.get(i, j).v, "base pose entry %d,%d" % (i, j), "rotation")
        ex.oblige(zi(a[2].r) == NJ(t), "one value per joint", "pre"); j = U.forall("joint", 0, NJ(t))
        ex.oblige(z3.Implies(z3.And(j >= 0, j < NJ(t)), ex.real(a[2].get(j, 0)).v == V.get(7 + j).v), "joint k is configuration entry 7+k", "pre")
        r = ex.res(ex.rd(this)); ex.wr(this, r.with_("numLinks_", ex.ctx.fresh("placed", IS))); U.placed = this
        return VOID
    C[M3 + "::robotTF"] = rtf
    p = U.loc(o); U.call("hrm::planners::ProbHRM3D::setTransform", p, [U.loc(V)]); r = U.rd(p)
    U.prove(z3.BoolVal(len(seen) == 1), "the robot is placed exactly once"); U.prove(z3.BoolVal(U.placed == p.f("robot_")), "it is the planner's robot that is placed")
    U.prove(equal(U, r.f["vCur_"], V), "the current configuration is recorded")
def unit_set_rigid(U):
    """HRM3D::setTransform(V): places the rigid robot at pose (V0..V2; unit quaternion V3..V6)"""
    o = U.obj("hrm::planners::HRM3D", "planner"); V = U.vec(REAL, "V"); U.assume(zi(V.len) >= 7); U.assume(z3.Sum(*[V.get(k).v * V.get(k).v for k in (3, 4, 5, 6)]) == 1)
    U.cover("precondition"); G = pose_of(V); seen = []
    def rtf(ex, this, args, f):
        a = [ex.res(ex.rd(x) if isinstance(x, LV) else x) for x in args]; seen.append(1)
        if len(a) != 1: raise Unsupported("another placement routine is called")
        for i in range(4):
            for j in range(4): ex.oblige(ex.real(a[0].get(i, j)).v == G.get(i, j).v, "base pose entry %d,%d" % (i, j), "rotation")
        U.placed = this; return VOID
    U.ex.contracts[M3 + "::robotTF"] = rtf
    p = U.loc(o); U.call("hrm::planners::HRM3D::setTransform", p, [U.loc(V)])
    U.prove(z3.BoolVal(len(seen) == 1), "the robot is placed exactly once"); U.prove(z3.BoolVal(U.placed == p.f("robot_")), "it is the planner's robot that is placed")
UNITS = [unit_transform, unit_set, unit_set_rigid, unit_place, unit_place_file]
