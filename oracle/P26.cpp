#include "common.h"
#include "hrm/geometry/MeshGenerator.h"
void run_oracle(double secs) {
    Clock c; c.lim = secs; int k = 0;
    while (c.left() && cases() < 2000) {
        int n = k < 40 ? 2 + k : I(2, 60); ++k;
        hrm::BoundaryPoints B(3, n * n); for (int i = 0; i < 3 * n * n; ++i) B(i) = U(-5, 5);
        CASE("mesh of a %d by %d surface", n, n);
        guarded("exception", [&] {
            hrm::MeshMatrix M = hrm::getMeshFromParamSurface(B, n);
            if (M.vertices.rows() != 3 || M.vertices.cols() != n * n || M.vertices != B) FAIL("vertices", "vertices differ from the samples");
            if (M.faces.rows() != 2 * (n - 1) * (n - 1) || M.faces.cols() != 3) { FAIL("faces", "%ld x %ld faces", (long)M.faces.rows(), (long)M.faces.cols()); return; }
            std::multiset<std::vector<long>> got, exp;
            for (int i = 0; i < M.faces.rows(); ++i) {
                std::vector<long> t; for (int j = 0; j < 3; ++j) { double v = M.faces(i, j); long w = (long)v; /* the users of the mesh truncate */ if (!(v >= 0) || w >= n * n) FAIL("index", "face %d index %.17g", i, v); t.push_back(w); }
                std::sort(t.begin(), t.end()); got.insert(t);
            }
            // every cell is split along the same diagonal q .. q+n+1
            for (int a = 0; a + 1 < n; ++a) for (int b = 0; b + 1 < n; ++b) { long q = a * n + b; exp.insert({q, q + n, q + n + 1}); exp.insert({q, q + 1, q + n + 1}); }
            if (got != exp) FAIL("split", "the faces do not split every grid cell along its diagonal");
            NT();
        });
    }
}
