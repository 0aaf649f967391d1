#include "common.h"
#include "hrm/geometry/LineIntersection.h"
using V3 = Eigen::Vector3d;
static std::string D(const V3 &v) { return "(" + S(v[0]) + "," + S(v[1]) + "," + S(v[2]) + ")"; }
static V3 rv(double m) { return V3(U(-m, m), U(-m, m), U(-m, m)); }
static V3 iv(int m) { return V3(I(-m, m), I(-m, m), I(-m, m)); }
// 1 inside, 0 outside, -1 too close to call; w: margin used
static int hit(const V3 &o, const V3 &d, const V3 &t0, const V3 &u, const V3 &v, V3 *pt) {
    V3 n = u.cross(v); double a = n.norm(); if (a < 1e-9 * (1 + u.norm() * v.norm())) return a == 0 ? 0 : -1;
    double b = n.dot(d) / a; if (std::fabs(b) < 1e-8 * d.norm()) return b == 0 ? 0 : -1;
    V3 p = o - (n.dot(o - t0) / n.dot(d)) * d; if (pt) *pt = p;
    V3 w = p - t0; double uu = u.dot(u), uv = u.dot(v), vv = v.dot(v), wu = w.dot(u), wv = w.dot(v), D = uv * uv - uu * vv;
    double s = (uv * wv - vv * wu) / D, t = (uv * wu - uu * wv) / D, e = 1e-6;
    if (s > e && t > e && s + t < 1 - e) return 1;
    if (s < -e || t < -e || s + t > 1 + e) return 0;
    return -1;
}
void run_oracle(double secs) {
    Clock c; c.lim = secs;
    while (c.left() && cases() < 60000) {
        {   // triangle
            V3 t0 = I(0, 1) ? rv(5) : iv(4), u = I(0, 1) ? rv(3) : iv(3), v = I(0, 1) ? rv(3) : iv(3), o, d;
            int mode = I(0, 5); V3 target; bool exact = false;
            if (mode < 2) { o = rv(8); d = rv(2); }
            else if (mode < 4) { double s = U(-0.2, 1.2), t = U(-0.2, 1.2 - s); target = t0 + s * u + t * v; d = rv(2); o = target - U(-5, 5) * d; }
            else if (mode == 4) { t0 = iv(4); u = iv(3); v = iv(3); double s = I(0, 4) / 4.0, t = I(0, 4 - (int)(4 * s)) / 4.0; target = t0 + s * u + t * v; d = iv(2); o = target - I(-3, 3) * d; exact = true; }
            else { d = I(0, 1) ? V3(0, 0, 1) : V3(0, I(0, 1), 1); d *= I(0, 1) ? 1 : 1e-4; o = iv(4); }
            if (d.norm() == 0) continue;
            hrm::Line3D l(6); l << o, d; V3 pt(7e77, 7e77, 7e77), e;
            CASES("triangle line " + D(o) + "+t" + D(d) + " t0=" + D(t0) + " u=" + D(u) + " v=" + D(v));
            guarded("triangle-exception", [&] {
                bool r = hrm::intersectLineTriangle3D(l, t0, u, v, pt);
                int h = hit(o, d, t0, u, v, &e);
                // exact rational hits, also on edges and corners, of well-shaped triangles
                if (exact && h == -1 && u.cross(v).norm() > 0.5 && std::fabs(u.cross(v).dot(d)) > 0.5) h = 1;
                if (h == 1 && !r) FAIL("triangle-missed", "the piercing point is inside");
                if (h == 0 && r) FAIL("triangle-invented", "the piercing point is outside or does not exist");
                if (h == 1 && r && (pt - e).norm() > 1e-6 * (1 + e.norm() + o.norm())) FAIL("triangle-point", "reported %s, piercing point %s", D(pt).c_str(), D(e).c_str());
                if (h == 1) NT();
            });
        }
        {   // meshes
            hrm::MeshMatrix M; int nv, nf; bool vert = I(0, 1);
            if (I(0, 1)) { nv = I(3, 8); nf = I(1, 6); M.vertices.resize(3, nv); for (int i = 0; i < nv; ++i) M.vertices.col(i) = rv(4); M.faces.resize(nf, 3); for (int i = 0; i < nf; ++i) for (int k = 0; k < 3; ++k) M.faces(i, k) = I(0, nv - 1); }
            else {   // closed polyhedron: bipyramid
                int k = I(3, 7); nv = k + 2; nf = 2 * k; M.vertices.resize(3, nv); V3 cc = rv(3); for (int i = 0; i < k; ++i) M.vertices.col(i) = cc + V3(2 * cos(6.283 * i / k), 2 * sin(6.283 * i / k), 0.3 * (i % 2)); M.vertices.col(k) = cc + V3(0, 0, 2); M.vertices.col(k + 1) = cc - V3(0, 0, 2);
                M.faces.resize(nf, 3); for (int i = 0; i < k; ++i) { M.faces.row(2 * i) << i, (i + 1) % k, k; M.faces.row(2 * i + 1) << (i + 1) % k, i, k + 1; }
            }
            V3 d = rv(1), o; int dm = vert ? 0 : I(0, 4);
            if (dm == 0) d = V3(0, 0, I(0, 1) ? 1 : U(0.1, 3)); else if (dm == 1) d = V3(I(0, 1) ? 1 : 0, 0, 1); else if (dm == 2) d = V3(1, 0, 0); else if (dm == 3) d = V3(I(0, 1) ? 3e-7 : -8e-7, I(0, 1) ? 0 : 5e-7, 1);
            int f = I(0, nf - 1); double s = U(0.05, 0.9), t = U(0.05, 0.95 - s); V3 a = M.vertices.col((int)M.faces(f, 0)), b = M.vertices.col((int)M.faces(f, 1)), cc = M.vertices.col((int)M.faces(f, 2));
            V3 target = a + s * (b - a) + t * (cc - a); if (I(0, 4) == 0) target = rv(6);
            double far = dm == 3 ? (I(0, 1) ? 2e7 : 5) : U(-9, 9); o = target - far * d;
            hrm::Line3D l(6); l << o, d;
            std::string m = "vertices"; for (int i = 0; i < nv; ++i) m += D(M.vertices.col(i)); m += " faces"; for (int i = 0; i < nf; ++i) m += "[" + std::to_string((int)M.faces(i, 0)) + "," + std::to_string((int)M.faces(i, 1)) + "," + std::to_string((int)M.faces(i, 2)) + "]";
            CASES((vert ? "vertical " : "mesh ") + std::string("line ") + D(o) + "+t" + D(d) + " " + m);
            guarded("mesh-exception", [&] {
                auto r = vert ? hrm::intersectVerticalLineMesh3D(l, M) : hrm::intersectLineMesh3D(l, M);
                int sure = 0; std::vector<std::pair<V3, int>> E;
                double tol = 1e-6 * (1 + o.norm());
                for (int i = 0; i < nf; ++i) {
                    V3 t0 = M.vertices.col((int)M.faces(i, 0)), u = M.vertices.col((int)M.faces(i, 1)) - t0, v = M.vertices.col((int)M.faces(i, 2)) - t0, p;
                    int h = hit(o, d, t0, u, v, &p);
                    if (far > 1e6 && h != 0) { h = h == 1 && std::fabs(u.cross(v).normalized().dot(d)) > 0.1 ? 1 : -1; }
                    if (h) E.emplace_back(p, h);
                    if (h == 1) { ++sure; bool f = false; for (auto &q : r) f = f || (q - p).norm() < tol; if (!f) FAIL(vert ? "vertical-missed" : "mesh-missed", "face %d is pierced at %s, %zu points returned", i, D(p).c_str(), r.size()); }
                }
                if ((int)r.size() < sure) FAIL(vert ? "vertical-missed" : "mesh-missed", "%zu points for %d pierced faces", r.size(), sure);
                if (r.size() > E.size()) FAIL(vert ? "vertical-invented" : "mesh-invented", "%zu points for at most %zu pierced faces", r.size(), E.size());
                for (auto &q : r) { bool f = false; for (auto &e : E) f = f || (q - e.first).norm() < tol || e.second == -1; if (!f) FAIL(vert ? "vertical-invented" : "mesh-invented", "%s is no piercing point of a face", D(q).c_str()); }
                if (sure) NT();
            });
        }
    }
}
