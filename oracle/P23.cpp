#include "common.h"
#include "hrm/geometry/PointInPoly.h"
void run_oracle(double secs) {
    Clock c; c.lim = secs;
    while (c.left() && cases() < 100000) {
        hrm::PolyCSpace P; int n = I(0, 5); std::vector<double> pt(3); for (auto &x : pt) x = I(-4, 4) / 4.0;
        bool in = false; std::string d;
        for (int k = 0; k < n; ++k) {
            std::vector<double> m(16);
            if (I(0, 1)) for (auto &x : m) x = I(-2, 2) / 4.0;
            else {   // inverse of a simplex matrix with axis-aligned edges: exact barycentric coordinates
                double o[3] = {I(-4, 2) / 4.0, I(-4, 2) / 4.0, I(-4, 2) / 4.0}; double s = I(0, 1) ? 1 : 0.5;
                // alpha_i = (p_i - o_i)/s, alpha_3 = 1 - sum
                for (int i = 0; i < 3; ++i) { m[i + 4 * i] = 1 / s; m[i + 12] = -o[i] / s; m[3 + 4 * i] = -1 / s; }
                m[15] = 1 + (o[0] + o[1] + o[2]) / s;
                std::vector<int> perm{0, 1, 2, 3}; std::shuffle(perm.begin(), perm.end(), rng()); auto q = m; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) m[perm[i] + 4 * j] = q[i + 4 * j];
            }
            bool all = true;
            for (int i = 0; i < 4; ++i) { double a = m[i] * pt[0] + m[i + 4] * pt[1] + m[i + 8] * pt[2] + m[i + 12]; all = all && a >= 0 && a <= 1; }
            in = in || all; P.matrixInverse.push_back(m); d += S(m);
        }
        CASES("point " + S(pt) + " simplices " + d);
        guarded("exception", [&] {
            if (hrm::isPtInPoly(P, pt) != in) FAIL("membership", "expected %d", (int)in);
            if (in && n > 1) NT();
        });
    }
}
