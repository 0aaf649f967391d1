#include "plan.h"
void run_oracle(double secs) {
    orc::Clock c; c.lim = secs;
    while (c.left() && cases() < 60000) {
        {
            World2 w = world2(0); int n = I(0, 3) ? I(1, 40) : I(1, 3); w.req.parameters.numSlice = n; CASES("2D headings=" + std::to_string(n));
            guarded("2D-exception", [&] {
                HRM2D p(w.robot, w.arena, w.obs, w.req); p.sampleOrientations();
                if (p.headings_.size() != (size_t)n || p.param_.numSlice != (size_t)n) { FAIL("2D-count", "%zu headings", p.headings_.size()); return; }
                for (int i = 0; i < n; ++i) {
                    double x = p.headings_[i], e = n == 1 ? x : -M_PI + 2 * M_PI * i / (n - 1);
                    if (!std::isfinite(x) || std::fabs(x) > M_PI + 1e-6 || std::fabs(x - e) > 1e-6) { FAIL("2D-heading", "heading %d is %.10g, expected %.10g", i, x, e); return; }
                }
                if (n > 1) NT();
            });
        }
        {
            World3 w = world3(0); auto pre = w.robot.getBase().getQuatSamples(); int n = I(1, 20); w.req.parameters.numSlice = n; CASES("3D slices=" + std::to_string(n) + " predefined=" + std::to_string(pre.size()) + descAll(w.robot, w.arena, w.obs));
            guarded("3D-exception", [&] {
                HRM3D p(w.robot, w.arena, w.obs, w.req); p.sampleOrientations(); size_t m = pre.empty() ? n : pre.size();
                if (p.q_.size() != m || p.param_.numSlice != m) { FAIL("3D-count", "%zu orientations, slice count %zu, expected %zu", p.q_.size(), (size_t)p.param_.numSlice, m); return; }
                for (size_t i = 0; i < m; ++i) {
                    if (!(std::fabs(p.q_[i].norm() - 1) < 1e-9)) FAIL("3D-unit", "orientation %zu has norm %g", i, p.q_[i].norm());
                    if (!pre.empty() && p.q_[i].coeffs() != pre[i].coeffs()) FAIL("3D-predefined", "orientation %zu differs from the predefined one", i);
                }
                NT();
            });
        }
        {
            World3 w = worldA(0); CASES(w.d);
            guarded("articulated-exception", [&] {
                ProbHRM3D p(w.robot, "x", w.arena, w.obs, w.req); p.param_.numSlice = 0; int n = I(1, 6); size_t nj = w.req.start.size() - 7;
                for (int i = 0; i < n; ++i) { p.sampleOrientations(); p.param_.numSlice++; }
                if (p.q_.size() != (size_t)n || p.v_.size() != (size_t)n) { FAIL("articulated-count", "%zu orientations, %zu configurations after %d samplings", p.q_.size(), p.v_.size(), n); return; }
                for (int i = 0; i < n; ++i) {
                    auto &v = p.v_[i]; if (v.size() != 7 + nj) { FAIL("articulated-dimension", "sample %d has dimension %zu", i, v.size()); return; }
                    if (!(std::fabs(p.q_[i].norm() - 1) < 1e-9)) FAIL("articulated-unit", "orientation %d has norm %g", i, p.q_[i].norm());
                    if (v[3] != p.q_[i].w() || v[4] != p.q_[i].x() || v[5] != p.q_[i].y() || v[6] != p.q_[i].z()) FAIL("articulated-quat", "sample %d does not hold its orientation", i);
                    if (i < 2) { auto &s = i ? w.req.goal : w.req.start; for (size_t k = 3; k < v.size(); ++k) if (v[k] != s[k]) { FAIL("articulated-ends", "sample %d coordinate %zu is %g, expected %g", i, k, v[k], s[k]); return; } }
                    else for (size_t k = 7; k < v.size(); ++k) if (!(std::fabs(v[k]) <= M_PI / 2 + 1e-6)) FAIL("articulated-joint", "sample %d joint %zu is %g", i, k - 7, v[k]);
                }
                NT();
            });
        }
    }
}
