// Independent metric-space measures.
#pragma once
#include "vpmesh.hpp"
namespace vp {
struct Sym { int n = 1; double a[3][3] = {}; };  // n == 1: isotropic
inline Sym sym_from(int dim, int ncomps, double const* v) {
  Sym s;
  if (ncomps == 1) { s.n = 1; s.a[0][0] = v[0]; return s; }
  s.n = dim;
  for (int i = 0; i < dim; ++i) s.a[i][i] = v[i];
  if (dim == 2) s.a[0][1] = s.a[1][0] = v[2];
  if (dim == 3) { s.a[0][1] = s.a[1][0] = v[3]; s.a[1][2] = s.a[2][1] = v[4]; s.a[0][2] = s.a[2][0] = v[5]; }
  return s;
}
inline vector<double> sym_to(Sym const& s) {
  if (s.n == 1) return {s.a[0][0]};
  if (s.n == 2) return {s.a[0][0], s.a[1][1], s.a[0][1]};
  return {s.a[0][0], s.a[1][1], s.a[2][2], s.a[0][1], s.a[1][2], s.a[0][2]};
}
inline double sym_det(Sym const& s) {
  if (s.n == 1) return s.a[0][0];
  if (s.n == 2) return s.a[0][0] * s.a[1][1] - s.a[0][1] * s.a[1][0];
  return det3(s.a[0], s.a[1], s.a[2]);
}
inline double sym_prod(Sym const& s, int dim, double const* v) {
  double r = 0;
  if (s.n == 1) { for (int i = 0; i < dim; ++i) r += v[i] * v[i]; return r * s.a[0][0]; }
  for (int i = 0; i < dim; ++i) for (int j = 0; j < dim; ++j) r += v[i] * s.a[i][j] * v[j];
  return r;
}
// cyclic Jacobi
inline void sym_eig(Sym const& s, double* l, double q[3][3]) {
  int n = s.n;
  double a[3][3];
  std::memcpy(a, s.a, sizeof a);
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) q[i][j] = i == j;
  for (int sweep = 0; sweep < 60; ++sweep) {
    double off = 0;
    for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) off += std::fabs(a[i][j]);
    if (off == 0) break;
    for (int p = 0; p < n; ++p)
      for (int r = p + 1; r < n; ++r) {
        if (a[p][r] == 0) continue;
        double th = (a[r][r] - a[p][p]) / (2 * a[p][r]);
        double t = (th >= 0 ? 1 : -1) / (std::fabs(th) + std::sqrt(th * th + 1));
        double c = 1 / std::sqrt(t * t + 1), sn = t * c;
        for (int k = 0; k < n; ++k) { double x = a[k][p], y = a[k][r]; a[k][p] = c * x - sn * y; a[k][r] = sn * x + c * y; }
        for (int k = 0; k < n; ++k) { double x = a[p][k], y = a[r][k]; a[p][k] = c * x - sn * y; a[r][k] = sn * x + c * y; }
        for (int k = 0; k < n; ++k) { double x = q[k][p], y = q[k][r]; q[k][p] = c * x - sn * y; q[k][r] = sn * x + c * y; }
      }
  }
  for (int i = 0; i < n; ++i) l[i] = a[i][i];
}
inline Sym sym_fun(Sym const& s, std::function<double(double)> f) {
  double l[3], q[3][3];
  sym_eig(s, l, q);
  Sym r; r.n = s.n;
  for (int i = 0; i < s.n; ++i) for (int j = 0; j < s.n; ++j) { r.a[i][j] = 0; for (int k = 0; k < s.n; ++k) r.a[i][j] += q[i][k] * f(l[k]) * q[j][k]; }
  return r;
}
inline Sym sym_mean(Sym const& a, Sym const& b) {  // log-Euclidean
  auto lg = [](double x) { return std::log(x); };
  Sym x = sym_fun(a, lg), y = sym_fun(b, lg);
  for (int i = 0; i < x.n; ++i) for (int j = 0; j < x.n; ++j) x.a[i][j] = 0.5 * (x.a[i][j] + y.a[i][j]);
  return sym_fun(x, [](double v) { return std::exp(v); });
}
inline double metric_len(int dim, double const* a, double const* b, Sym const& ma, Sym const& mb) {
  double v[3];
  for (int i = 0; i < dim; ++i) v[i] = b[i] - a[i];
  double la = std::sqrt(sym_prod(ma, dim, v)), lb = std::sqrt(sym_prod(mb, dim, v));
  if (std::fabs(la - lb) > 1e-3) return (la - lb) / std::log(la / lb);
  return 0.5 * (la + lb);
}
// all qualities an element may have: one per vertex metric tying for the largest determinant
inline vector<double> metric_quals(int dim, double const* const* p, vector<Sym> const& ms) {
  if (dim == 1) return {1.0};
  double best = 0;
  for (auto& m : ms) best = std::max(best, sym_det(m));
  vector<double> r;
  for (auto& m : ms) {
    if (sym_det(m) < best * (1 - 1e-9)) continue;
    double det = sym_det(m);
    double rs = elem_size(dim, p);
    double s = rs * (m.n == 1 ? std::pow(det, dim / 2.0) : std::sqrt(det));
    if (s < 0) { r.push_back(s); continue; }
    double msl = 0; int n = 0;
    for (int i = 0; i <= dim; ++i) for (int j = i + 1; j <= dim; ++j) { double v[3]; for (int k = 0; k < dim; ++k) v[k] = p[j][k] - p[i][k]; msl += sym_prod(m, dim, v); ++n; }
    msl /= n;
    double eq = dim == 3 ? std::sqrt(2.0) / 12 : std::sqrt(3.0) / 4;
    r.push_back(std::pow(s / eq, 2.0 / dim) / msl);
  }
  return r;
}
}  // namespace vp
