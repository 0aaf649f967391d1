"""P26: surface mesh faces index the sampled grid correctly (src/geometry/MeshGenerator.cpp, getMeshFromParamSurface)."""
from ..unit import *
from ..lib import *
TUS = ["src/geometry/MeshGenerator.cpp"]
ORACLE_SRC = ["src/geometry/MeshGenerator.cpp", "src/geometry/SuperQuadrics.cpp", "src/util/ExponentialFunction.cpp"]
ORACLE_LIBS = ["-lfcl", "-lccd", "-loctomap", "-lgmp", "-lmpfr"]
QN = "hrm::getMeshFromParamSurface"

def setup(U):
    n = U.int("n", 2, 40000)
    bt = U.ptypes(QN)[0].noref()
    pts = U.havoc(bt, "surf")
    pts = Mat(3, n * n, None, pts.node) if pts.cells is None else pts
    return n, pts
def unit_grid(U):
    """for all n >= 2 and all 3 x n^2 sample matrices: vertices kept; face rows are the two triangles of every cell"""
    n, pts = setup(U)
    U.cover("precondition")
    m = U.val(U.call(QN, None, [U.loc(pts), n]))
    V, F = m.f["vertices"], m.f["faces"]
    r = U.forall("r", 0, 3); c0 = U.forall("c", 0, n * n)
    U.prove(z3.And(zi(V.r) == 3, zi(V.c) == n * n), "the vertex matrix keeps its size")
    for r in range(3): U.prove(V.get(r, c0).v == pts.get(r, c0).v, "the sampled points are kept as vertices")
    N = (n - 1) * (n - 1)
    U.prove(z3.And(zi(F.r) == 2 * N, zi(F.c) == 3), "there are 2(n-1)^2 triangular faces")
    j = U.forall("j", 0, n - 1); c = U.forall("c", 0, n - 1)
    U.assume(z3.And(*index_lemma(n, j, c)))    # index arithmetic of the row/column split, proved in unit_index
    p = j * (n - 1) + c
    v0 = j * n + c; v1 = (j + 1) * n + c
    want = [(p, (v0, v1, v1 + 1)), (N + p, (v0, v0 + 1, v1 + 1))]
    for w, (row, vs) in enumerate(want):
        for k in range(3):
            x = U.ex.real(F.get(row, k))
            U.prove(b_and(is_fin(x), x.v == z3.ToReal(vs[k])), "face %d of cell (j,c) has corner %d on the grid" % (w + 1, k))
def index_lemma(n, j, c):
    p = j * (n - 1) + c
    return [z3.And(p >= 0, p < (n - 1) * (n - 1)), z3.And(j * n + c >= 0, (j + 1) * n + c + 1 < n * n), p / (n - 1) == j, p % (n - 1) == c]
def unit_index(U):
    """lemma: row/column split of the index range used above (every face row belongs to a cell, every index is a valid vertex)"""
    n = U.int("n", 2, 40000); j = U.int("j", 0); c = U.int("c", 0)
    U.assume(z3.And(j < n - 1, c < n - 1))
    U.cover("lemma")
    U.assume((n - 1 - 1 - j) * (n - 1) >= 0); U.assume((n - 2 - j) * n >= 0); U.assume(j * n >= 0); U.assume(j * (n - 1) >= 0)
    for f, what in zip(index_lemma(n, j, c), ("the face row of a cell exists", "face indices are valid vertex indices", "row of a face", "column of a face")): U.prove(f, what)
UNITS = [unit_grid, unit_index]
