// containment of concentric ellipses / ellipsoids, decided by the largest eigenvalue
#pragma once
#include <Eigen/Dense>
template <int D> using EM = Eigen::Matrix<double, D, D>;
template <int D> EM<D> shapeOf(const std::vector<double> &a, const EM<D> &R) { EM<D> s = EM<D>::Zero(); for (int i = 0; i < D; ++i) s(i, i) = a[i]; return R * s; }
// how far the ellipsoid (a, Ra) sticks out of (c, Rc): at most 1 when contained
template <int D> double excess(const std::vector<double> &a, const EM<D> &Ra, const std::vector<double> &c, const EM<D> &Rc) {
    EM<D> s = EM<D>::Zero(); for (int i = 0; i < D; ++i) s(i, i) = 1 / c[i];
    EM<D> g = s * Rc.transpose() * shapeOf<D>(a, Ra); Eigen::JacobiSVD<EM<D>> v(g); return v.singularValues()(0);
}
inline EM<2> rot(double t) { EM<2> r; r << std::cos(t), -std::sin(t), std::sin(t), std::cos(t); return r; }
inline EM<3> rot(const Eigen::Quaterniond &q) { return q.toRotationMatrix(); }
inline bool sane(const std::vector<double> &c, size_t d) { if (c.size() != d) return false; for (double x : c) if (!(x > 0) || !std::isfinite(x)) return false; return true; }
inline std::vector<double> ax(int d) { std::vector<double> a; int k = I(0, 3); for (int i = 0; i < d; ++i) a.push_back(k == 0 && i ? a[0] : k == 1 && i > 1 ? a[1] : k == 2 ? I(1, 4) : U(0.2, 5)); return a; }
