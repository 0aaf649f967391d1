#include "common.h"
#include "hrm/geometry/LineIntersection.h"
static std::string D(const Eigen::Matrix2Xd &m) { std::string s = "poly{"; for (int i = 0; i < m.cols(); ++i) s += "(" + S(m(0, i)) + "," + S(m(1, i)) + ")"; return s + "}"; }
static long cr(long ax, long ay, long bx, long by) { return ax * by - ay * bx; }
static int sg(long v) { return v > 0 ? 1 : v < 0 ? -1 : 0; }
void run_oracle(double secs) {
    Clock c; c.lim = secs;
    while (c.left() && cases() < 60000) {
        int n = I(0, 9) ? I(1, 8) : I(9, 40), m = I(0, 1) ? 4 : 20; Eigen::Matrix2Xd P(2, n); std::vector<long> X(n), Y(n);
        for (int i = 0; i < n; ++i) { X[i] = I(-m, m); Y[i] = I(-m, m); if (i && I(0, 4) == 0) Y[i] = Y[i - 1]; P(0, i) = X[i]; P(1, i) = Y[i]; }
        double ty = I(0, 2) ? I(-2 * m, 2 * m) / 2.0 : (I(0, 1) ? P.row(1).maxCoeff() : P.row(1).minCoeff());
        if (I(0, 2) == 0) { double s = U(0.1, 3), ox = U(-5, 5); P = (P * s).eval(); P.row(0).array() += ox; ty = I(0, 1) ? U(-m, m) * s : P(1, I(0, n - 1)); }
        CASES("horizontal ty=" + S(ty) + " " + D(P));
        guarded("horizontal-exception", [&] {
            auto r = hrm::intersectHorizontalLinePolygon2D(ty, P); std::vector<double> e;
            for (int i = 0; i < n; ++i) {
                double x1 = P(0, i), y1 = P(1, i), x2 = P(0, (i + 1) % n), y2 = P(1, (i + 1) % n);
                if (y1 == y2) continue;
                if (std::min(y1, y2) <= ty && ty <= std::max(y1, y2)) e.push_back(x2 + (ty - y2) / (y1 - y2) * (x1 - x2));
            }
            if (r.size() != e.size()) FAIL("horizontal-count", "%zu points, %zu edges reach the line", r.size(), e.size());
            else for (size_t i = 0; i < e.size(); ++i) if (!near(r[i], e[i], 1e-9)) { FAIL("horizontal-point", "point %zu is %.17g, expected %.17g", i, r[i], e[i]); break; }
            if (e.size() > 1) NT();
        });
        for (int k = 0; k < 3; ++k) {
            long px = I(-m, m), py = I(-m, m), qx = I(-m, m), qy = I(-m, m);
            for (int i = 0; i < n; ++i) { P(0, i) = X[i]; P(1, i) = Y[i]; }
            std::vector<double> a{(double)px, (double)py}, b{(double)qx, (double)qy};
            bool prop = false, par = false;
            for (int i = 0; i < n; ++i) {
                long x1 = X[i], y1 = Y[i], x2 = X[(i + 1) % n], y2 = Y[(i + 1) % n];
                int a1 = sg(cr(qx - px, qy - py, x1 - px, y1 - py)), a2 = sg(cr(qx - px, qy - py, x2 - px, y2 - py));
                int b1 = sg(cr(x2 - x1, y2 - y1, px - x1, py - y1)), b2 = sg(cr(x2 - x1, y2 - y1, qx - x1, qy - y1));
                if (a1 * a2 < 0 && b1 * b2 < 0) prop = true;
                if (cr(qx - px, qy - py, x2 - x1, y2 - y1) == 0) par = true;
            }
            // touching configurations (an end point on the other segment) are decided by rounding: not asserted
            bool touch = false;
            for (int i = 0; i < n; ++i) {
                long x1 = X[i], y1 = Y[i], x2 = X[(i + 1) % n], y2 = Y[(i + 1) % n];
                if (!cr(qx - px, qy - py, x1 - px, y1 - py) || !cr(qx - px, qy - py, x2 - px, y2 - py) || !cr(x2 - x1, y2 - y1, px - x1, py - y1) || !cr(x2 - x1, y2 - y1, qx - x1, qy - y1)) touch = true;
            }
            CASES("segment p=" + S(a) + " q=" + S(b) + " " + D(P));
            guarded("segment-exception", [&] {
                bool r = hrm::isIntersectSegPolygon2D({a, b}, P);
                if (prop && !r) FAIL("segment-missed", "a proper crossing was missed");
                if (!prop && !par && !touch && r) FAIL("segment-invented", "no edge crosses the segment");
                if (prop) NT();
            });
        }
    }
}
