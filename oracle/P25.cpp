#include "common.h"
#include "hrm/util/DistanceMetric.h"
void run_oracle(double secs) {
    Clock c; c.lim = secs;
    while (c.left() && cases() < 20000) {
        int n = cases() < 200 ? cases() % 40 : I(0, 40);
        std::vector<double> a, b;
        int mode = I(0, 3);
        for (int i = 0; i < n; ++i) { a.push_back(G()); b.push_back(mode == 0 ? a.back() : G()); }
        if (mode == 1 && n) { b = a; b[I(0, n - 1)] += U(-3, 3); }      // differ in one coordinate only
        if (mode == 2) for (auto *v : {&a, &b}) for (auto &x : *v) x *= 1e3;
        CASES("v1=" + S(a) + " v2=" + S(b));
        auto a0 = a, b0 = b;
        guarded("exception", [&] {
            double d = hrm::vectorEuclidean(a, b), e = hrm::vectorEuclidean(b, a);
            long double s = 0; for (int i = 0; i < n; ++i) s += (long double)(a0[i] - b0[i]) * (a0[i] - b0[i]);
            if (!near(d, std::sqrt((double)s), 1e-12)) FAIL("value", "distance %.17g, expected %.17g", d, std::sqrt((double)s));
            if (!(d >= 0)) FAIL("negative", "distance %.17g", d);
            if (d != e && !near(d, e, 1e-14)) FAIL("symmetric", "%.17g vs %.17g", d, e);
            if (a0 == b0 && d != 0) FAIL("zero", "distance %.17g of equal vectors", d);
        });
        if (n) NT();
    }
}
