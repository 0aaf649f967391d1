#include "common.h"
#include "hrm/datastructure/Interval.h"
using hrm::Interval;
static std::string D(const std::vector<Interval> &v) { std::string s = "{"; for (auto &i : v) s += "[" + S(i.s()) + "," + S(i.e()) + "]"; return s + "}"; }
static bool cov(const std::vector<Interval> &v, double x) { for (auto &i : v) if (i.s() <= x && x <= i.e()) return true; return false; }
static std::vector<double> probes(const std::vector<Interval> &a, const std::vector<Interval> &b) {
    std::vector<double> p; for (auto *v : {&a, &b}) for (auto &i : *v) { p.push_back(i.s()); p.push_back(i.e()); }
    std::sort(p.begin(), p.end()); p.erase(std::unique(p.begin(), p.end()), p.end());
    std::vector<double> q; for (size_t i = 0; i + 1 < p.size(); ++i) q.push_back(0.5 * (p[i] + p[i + 1]));
    if (!p.empty()) { q.push_back(p.front() - 1); q.push_back(p.back() + 1); }
    p.insert(p.end(), q.begin(), q.end()); return p;
}
void run_oracle(double secs) {
    Clock c; c.lim = secs;
    while (c.left() && cases() < 60000) {
        int n = I(0, 3) ? I(0, 6) : I(0, 40), m = I(0, 2) ? 5 : 40; std::vector<Interval> v;
        for (int i = 0; i < n; ++i) { double a = G(m), w = I(0, 3) ? std::fabs(G(m)) / (I(0, 1) ? 1 : 8) : 0; v.emplace_back(a, a + w); }
        if (I(0, 4) == 0 && n) { double o = G(m); for (auto &i : v) i = Interval(std::min(i.s(), o), std::max(i.e(), o)); }   // common point
        {
            CASES("unions " + D(v)); auto in = v;
            guarded("union-exception", [&] {
                auto r = Interval::unions(v);
                for (size_t i = 0; i < r.size(); ++i) {
                    if (!(r[i].s() <= r[i].e())) FAIL("union-invalid", "result %s", D(r).c_str());
                    if (i + 1 < r.size() && !(r[i].e() < r[i + 1].s())) FAIL("union-disjoint", "result %s", D(r).c_str());
                }
                for (double x : probes(in, r)) if (cov(in, x) != cov(r, x)) { FAIL("union-cover", "at %.17g result %s", x, D(r).c_str()); break; }
                if (r.size() > 1) NT();
            });
        }
        {
            CASES("intersects " + D(v)); auto in = v;
            guarded("intersect-exception", [&] {
                auto r = Interval::intersects(v);
                if (r.size() > 1) FAIL("intersect-count", "result %s", D(r).c_str());
                for (auto &i : r) if (!(i.s() <= i.e())) FAIL("intersect-empty", "result %s", D(r).c_str());
                for (double x : probes(in, r)) {
                    bool all = !in.empty(); for (auto &i : in) all = all && i.s() <= x && x <= i.e();
                    if (all != cov(r, x)) { FAIL("intersect-points", "at %.17g result %s", x, D(r).c_str()); break; }
                }
                if (!r.empty() && n > 1) NT();
            });
        }
        {
            // complement: pairwise disjoint inner intervals in random order
            std::vector<Interval> in; double p = G(m); int k = I(0, 8);
            for (int i = 0; i < k; ++i) { double w = I(0, 3) ? std::fabs(G(3)) : 0; in.emplace_back(p, p + w); p += w + std::fabs(G(3)) + (I(0, 2) ? 0.25 : 1e-3); }
            std::shuffle(in.begin(), in.end(), rng());
            double a = G(2 * m), b = a + (I(0, 5) ? std::fabs(G(3 * m)) : 0);
            if (I(0, 3) == 0 && k) a = in[I(0, k - 1)].e(), b = std::max(a, b);
            if (I(0, 3) == 0 && k) b = std::max(a, in[I(0, k - 1)].s());
            std::vector<Interval> out{Interval(a, b)};
            CASES("complements outer " + D(out) + " inner " + D(in));
            guarded("complement-exception", [&] {
                auto r = Interval::complements(out, in);
                auto P = probes(in, r); P.push_back(a); P.push_back(b);
                for (double x : P) {
                    bool e = a <= x && x <= b; for (auto &i : in) if (i.s() < x && x < i.e()) e = false;
                    if (e != cov(r, x)) { FAIL("complement-points", "at %.17g result %s", x, D(r).c_str()); break; }
                }
                if (r.size() > 1) NT();
            });
            CASES("complements no outer");
            guarded("complement-exception", [&] { if (!Interval::complements({}, in).empty()) FAIL("complement-none", "non-empty"); });
        }
    }
}
