// Metric and small-matrix algebra (C05): modes small (tensors), field (metric
// fields on meshes).
#include "vpmetric.hpp"
#include <Omega_h_adapt.hpp>
#include <Omega_h_array_ops.hpp>
#include <Omega_h_lie.hpp>
#include <Omega_h_matrix.hpp>
#include <Omega_h_metric.hpp>
#include <Omega_h_metric_intersect.hpp>
#include <Omega_h_qr.hpp>
#include <Omega_h_recover.hpp>
#include <Omega_h_shape.hpp>
#include <Omega_h_svd.hpp>
#include <queue>
using namespace vp;
namespace osh = Omega_h;
using osh::Few;
using osh::Matrix;
using osh::Reals;
using osh::Tensor;
using osh::Vector;
typedef long double LD;
static Library* g_lib;

// ---------------------------------------------------- reference algebra
struct M3 { int n; LD a[3][3]; };
static M3 zeroM(int n) { M3 m; m.n = n; for (auto& r : m.a) for (auto& x : r) x = 0; return m; }
template <int d> static M3 toM(Tensor<d> const& t) { M3 m = zeroM(d); for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) m.a[i][j] = t(i, j); return m; }
static M3 mul(M3 const& a, M3 const& b) { M3 c = zeroM(a.n); for (int i = 0; i < a.n; ++i) for (int j = 0; j < a.n; ++j) for (int k = 0; k < a.n; ++k) c.a[i][j] += a.a[i][k] * b.a[k][j]; return c; }
static M3 tr(M3 const& a) { M3 c = a; for (int i = 0; i < a.n; ++i) for (int j = 0; j < a.n; ++j) c.a[i][j] = a.a[j][i]; return c; }
static LD nrm(M3 const& a) { LD s = 0; for (int i = 0; i < a.n; ++i) for (int j = 0; j < a.n; ++j) s += a.a[i][j] * a.a[i][j]; return sqrtl(s); }
static M3 sub(M3 a, M3 const& b) { for (int i = 0; i < a.n; ++i) for (int j = 0; j < a.n; ++j) a.a[i][j] -= b.a[i][j]; return a; }
static LD quad(M3 const& a, LD const* v) { LD s = 0; for (int i = 0; i < a.n; ++i) for (int j = 0; j < a.n; ++j) s += v[i] * a.a[i][j] * v[j]; return s; }
static void eigL(M3 a, LD* l, M3& q) {
  int n = a.n;
  q = zeroM(n);
  for (int i = 0; i < n; ++i) q.a[i][i] = 1;
  for (int sw = 0; sw < 80; ++sw) {
    LD off = 0;
    for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) off += fabsl(a.a[i][j]);
    if (off == 0) break;
    for (int p = 0; p < n; ++p) for (int r = p + 1; r < n; ++r) {
      if (a.a[p][r] == 0) continue;
      LD th = (a.a[r][r] - a.a[p][p]) / (2 * a.a[p][r]), t = (th >= 0 ? 1 : -1) / (fabsl(th) + sqrtl(th * th + 1)), c = 1 / sqrtl(t * t + 1), s = t * c;
      for (int k = 0; k < n; ++k) { LD x = a.a[k][p], y = a.a[k][r]; a.a[k][p] = c * x - s * y; a.a[k][r] = s * x + c * y; }
      for (int k = 0; k < n; ++k) { LD x = a.a[p][k], y = a.a[r][k]; a.a[p][k] = c * x - s * y; a.a[r][k] = s * x + c * y; }
      for (int k = 0; k < n; ++k) { LD x = q.a[k][p], y = q.a[k][r]; q.a[k][p] = c * x - s * y; q.a[k][r] = s * x + c * y; }
    }
  }
  for (int i = 0; i < n; ++i) l[i] = a.a[i][i];
}
static M3 fun(M3 const& m, std::function<LD(LD)> f) {
  LD l[3]; M3 q; eigL(m, l, q);
  M3 r = zeroM(m.n);
  for (int i = 0; i < m.n; ++i) for (int j = 0; j < m.n; ++j) for (int k = 0; k < m.n; ++k) r.a[i][j] += q.a[i][k] * f(l[k]) * q.a[j][k];
  return r;
}
static void minmax_eig(M3 const& m, LD& lo, LD& hi) { LD l[3]; M3 q; eigL(m, l, q); lo = hi = l[0]; for (int i = 1; i < m.n; ++i) { lo = std::min(lo, l[i]); hi = std::max(hi, l[i]); } }
static LD condM(M3 const& m) { LD lo, hi; minmax_eig(m, lo, hi); return hi / lo; }
static LD detM(M3 const& m) { LD l[3]; M3 q; eigL(m, l, q); LD d = 1; for (int i = 0; i < m.n; ++i) d *= l[i]; return d; }
static string str(M3 const& m) { string s = "["; for (int i = 0; i < m.n; ++i) for (int j = 0; j < m.n; ++j) s += fmt("%.17Lg ", m.a[i][j]); return s + "]"; }
// relative distance of two symmetric tensors
static LD reld(M3 const& a, M3 const& b) { LD x = nrm(b); return x == 0 ? nrm(a) : nrm(sub(a, b)) / x; }
// largest relative difference of the quadratic forms, b positive definite
static LD formd(M3 const& a, M3 const& b) {
  M3 is = fun(b, [](LD x) { return 1 / sqrtl(x); });
  M3 c = mul(mul(is, a), is);
  for (int i = 0; i < c.n; ++i) c.a[i][i] -= 1;
  return nrm(c);
}

// -------------------------------------------------------------- generators
static double rnd(Rng& r) { return r.real() * 2 - 1; }
static void rnd_rot(Rng& r, int n, LD q[3][3], bool tiny = true) {
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) q[i][j] = i == j;
  if (r.chance(0.15)) return;
  for (int p = 0; p < n; ++p) for (int k = p + 1; k < n; ++k) {
    LD t = r.chance(0.1) ? LD(M_PI / 4) : (tiny && r.chance(0.1) ? LD(1e-6) * LD(rnd(r)) : LD(rnd(r) * M_PI));
    LD c = cosl(t), s = sinl(t);
    for (int i = 0; i < n; ++i) { LD x = q[i][p], y = q[i][k]; q[i][p] = c * x - s * y; q[i][k] = s * x + c * y; }
  }
}
struct GenM { double scale = 0; double aniso = 2; };  // log10
template <int d> static Tensor<d> gen_spd(Rng& r, GenM o, Vector<d>* lens = nullptr) {
  LD q[3][3];
  rnd_rot(r, d, q);
  double h[3];
  double base = std::pow(10., o.scale);
  int style = int(r.below(6));
  for (int i = 0; i < d; ++i) h[i] = base * std::pow(10., rnd(r) * o.aniso / 2);
  if (style == 0) for (int i = 1; i < d; ++i) h[i] = h[0];
  if (style == 1 && d > 1) h[d - 1] = h[0];
  if (style == 2) for (int i = 1; i < d; ++i) h[i] = h[0] * (1 + rnd(r) * std::pow(10., -double(r.below(15)) - 1));
  if (style == 3 && d > 1) h[d - 1] = h[0] * (1 + rnd(r) * std::pow(10., -double(r.below(15)) - 1));
  Tensor<d> t;
  for (int i = 0; i < d; ++i) for (int j = 0; j <= i; ++j) {
    LD s = 0;
    for (int k = 0; k < d; ++k) s += q[i][k] * q[j][k] / (LD(h[k]) * LD(h[k]));
    t(i, j) = t(j, i) = double(s);
  }
  if (lens) for (int i = 0; i < d; ++i) (*lens)[i] = h[i];
  return t;
}
template <int d> static Vector<d> rnd_dir(Rng& r) { Vector<d> v; for (int i = 0; i < d; ++i) v[i] = r.chance(0.2) ? 0.0 : rnd(r); if (osh::norm(v) < 1e-3) v[0] = 1; return v; }
template <int d> static Reals pack(vector<Tensor<d>> const& ms) {
  vector<double> v;
  for (auto& m : ms) { for (auto x : sym_to([&] { Sym s; s.n = d; for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) s.a[i][j] = m(i, j); return s; }())) v.push_back(x); }
  return dev(v);
}
template <int d> static M3 unpack(vector<double> const& v, size_t i) {
  int nc = d * (d + 1) / 2;
  Sym s = sym_from(d, d == 1 ? 1 : nc, v.data() + i * size_t(nc));
  M3 m = zeroM(d);
  for (int a = 0; a < d; ++a) for (int b = 0; b < d; ++b) m.a[a][b] = s.a[a][b];
  return m;
}
static LD lenL(LD x) { return 1 / sqrtl(x); }

template <int d> static M3 ref_intersect(M3 const& a, M3 const& b) {
  M3 s = fun(a, [](LD x) { return sqrtl(x); }), is = fun(a, [](LD x) { return 1 / sqrtl(x); });
  M3 bb = mul(mul(is, b), is);
  for (int i = 0; i < d; ++i) for (int j = 0; j < i; ++j) bb.a[i][j] = bb.a[j][i] = (bb.a[i][j] + bb.a[j][i]) / 2;
  M3 c = fun(bb, [](LD x) { return std::max(x, LD(1)); });
  return mul(mul(s, c), s);
}

// ------------------------------------------------------------ small tensors
template <int d> static void check_metric(Rng& r) {
  GenM o; o.scale = r.chance(0.5) ? 0 : r.real(-5, 1);  // lengths above 1e5 count as infinite
  o.aniso = r.chance(0.6) ? 2 : (r.chance(0.5) ? 0.3 : 4);
  auto m = gen_spd<d>(r, o);
  auto R = toM<d>(m);
  LD c = condM(R), tol = 1e-13L + 2e-15L * c, eps = 1e-13L;
  string in = str(R);
  count(fmt("tensors of dimension %d", d));
  count(c > 1e6 ? "condition above 1e6" : c > 100 ? "condition above 100" : c > 1 + 1e-3 ? "condition 1-100" : "nearly isotropic tensors");
  {
    auto dd = osh::decompose_eigen_jacobi(m);
    M3 q = toM<d>(dd.q);
    VP_CHECK(reld(mul(tr(q), q), [] { M3 i = zeroM(d); for (int k = 0; k < d; ++k) i.a[k][k] = 1; return i; }()) < eps, "eigenvectors are not orthonormal", "%s", in.c_str());
    M3 back = toM<d>(osh::compose_ortho(dd.q, dd.l));
    VP_CHECK(reld(back, R) < eps, "recomposed tensor differs", "%s rel %Lg", in.c_str(), reld(back, R));
    auto sd = osh::sort_by_magnitude(dd);
    for (int i = 1; i < d; ++i) VP_CHECK(std::fabs(sd.l[i]) <= std::fabs(sd.l[i - 1]), "eigenvalues are not sorted by magnitude", "%s", in.c_str());
    VP_CHECK(reld(toM<d>(osh::compose_ortho(sd.q, sd.l)), R) < eps, "sorting by magnitude changed the tensor", "%s", in.c_str());
    auto dm = osh::decompose_metric(m);
    VP_CHECK(formd(toM<d>(osh::compose_metric(dm.q, dm.l)), R) < tol, "decompose_metric and compose_metric disagree", "%s", in.c_str());
    VP_CHECK(reld(toM<d>(osh::compose_eigen(dd.q, dd.l)), R) < 1e-12L, "compose_eigen differs", "%s", in.c_str());
  }
  {
    auto fed = osh::decompose_eigen(m);
    LD lo, hi; minmax_eig(R, lo, hi);
    LD gap = 1, l[3]; M3 q; eigL(R, l, q);
    for (int i = 0; i < d; ++i) for (int j = 0; j < i; ++j) gap = std::min(gap, fabsl(l[i] - l[j]) / hi);
    bool rep = true; for (int i = 1; i < d; ++i) if (fabsl(l[i] - l[0]) > 1e-12L * hi) rep = false;
    if (gap > 0.05L || rep) { VP_CHECK(reld(toM<d>(osh::compose_ortho(fed.q, fed.l)), R) < 1e-7L, "closed form decomposition is inaccurate for separated eigenvalues", "%s rel %Lg", in.c_str(), reld(toM<d>(osh::compose_ortho(fed.q, fed.l)), R)); count("closed form decompositions of separated or repeated eigenvalues"); }
  }
  {
    M3 lg = fun(R, [](LD x) { return logl(x); });
    auto L = osh::linearize_metric(m);
    VP_CHECK(nrm(sub(toM<d>(L), lg)) < 1e-13L * (1 + nrm(lg)) + 2e-15L * c, "linearize_metric is not the logarithm", "%s: %s", in.c_str(), str(toM<d>(L)).c_str());
    VP_CHECK(formd(toM<d>(osh::delinearize_metric(L)), R) < tol * 4 * (1 + nrm(lg)), "delinearize does not invert linearize", "%s", in.c_str());
    VP_CHECK(nrm(sub(toM<d>(osh::log_spd(m)), lg)) < 1e-13L * (1 + nrm(lg)) + 2e-15L * c, "log_spd is not the logarithm", "%s", in.c_str());
    VP_CHECK(formd(toM<d>(osh::exp_spd(osh::log_spd(m))), R) < tol * 4 * (1 + nrm(lg)), "exp_spd does not invert log_spd", "%s", in.c_str());
    auto s = toM<d>(osh::sqrt_spd(m));
    VP_CHECK(reld(mul(s, s), R) < 1e-12L, "square of the square root differs", "%s", in.c_str());
    auto inv = toM<d>(osh::invert(m));
    M3 I = mul(inv, R);
    for (int i = 0; i < d; ++i) I.a[i][i] -= 1;
    VP_CHECK(nrm(I) < 1e-12L + 1e-14L * c * c, "inverse times tensor is not the identity", "%s err %Lg", in.c_str(), nrm(I));
    VP_CHECK(fabsl(osh::determinant(m) - detM(R)) <= (1e-13L + 1e-15L * c * c) * fabsl(detM(R)), "wrong determinant", "%s", in.c_str());
    auto v = rnd_dir<d>(r);
    LD vl[3]; for (int i = 0; i < d; ++i) vl[i] = v[i];
    VP_CHECK(fabsl(osh::metric_length(m, v) - sqrtl(quad(R, vl))) <= tol * sqrtl(quad(R, vl)), "wrong metric length", "%s", in.c_str());
    VP_CHECK(fabsl(osh::metric_desired_length(m, v) * sqrtl(quad(R, vl)) - 1) <= tol * 2, "wrong desired length", "%s", in.c_str());
  }
  {  // clamp
    double a = std::pow(10., o.scale + rnd(r) * o.aniso / 2), b = std::pow(10., o.scale + rnd(r) * o.aniso / 2);
    if (a > b) std::swap(a, b);
    if (r.chance(0.1)) b = a;
    LD lmin = 1 / (LD(b) * b), lmax = 1 / (LD(a) * a);
    auto cm = toM<d>(osh::clamp_metric(m, a, b));
    LD lo, hi; minmax_eig(cm, lo, hi);
    LD t2 = 1e-13L + 2e-15L * hi / std::max(lo, LD(1e-300));
    VP_CHECK(lenL(lo) <= b * (1 + t2) && lenL(hi) >= a * (1 - t2), "clamped metric is outside the limits", "%s to %.17g %.17g: lengths %Lg %Lg", in.c_str(), a, b, lenL(lo), lenL(hi));
    auto rc = fun(R, [&](LD x) { return std::min(std::max(x, lmin), lmax); });
    VP_CHECK(formd(cm, rc) < 10 * (tol + t2), "clamped metric differs from the reference", "%s to %g %g: %s", in.c_str(), a, b, str(cm).c_str());
    auto v = host(osh::clamp_metrics(2, pack<d>({m, m}), a, b));
    VP_CHECK(reld(unpack<d>(v, 0), cm) < eps && reld(unpack<d>(v, 1), cm) < eps, "clamp_metrics differs from clamp_metric", "%s", in.c_str());
    count("clamps");
  }
  {  // pairs
    GenM o2 = o; o2.scale += r.chance(0.7) ? 0 : rnd(r);
    auto m2 = gen_spd<d>(r, o2);
    if (r.chance(0.05)) m2 = m;
    if (r.chance(0.1)) m2 = m * std::pow(10., rnd(r));
    auto R2 = toM<d>(m2);
    LD c2 = condM(R2), t2 = 1e-12L + 3e-15L * c * c2;
    string in2 = in + " & " + str(R2);
    auto ref = ref_intersect<d>(R, R2);
    auto x = toM<d>(osh::intersect_metrics(m, m2)), y = toM<d>(osh::intersect_metrics(m2, m));
    if (t2 < 0.01L) {
      VP_CHECK(formd(x, ref) < t2, "intersection differs from the reference", "%s: %s vs %s rel %Lg", in2.c_str(), str(x).c_str(), str(ref).c_str(), formd(x, ref));
      VP_CHECK(formd(y, x) < t2, "intersection is not symmetric in its arguments", "%s", in2.c_str());
      for (int k = 0; k < 4; ++k) {
        auto v = rnd_dir<d>(r);
        LD vl[3]; for (int i = 0; i < d; ++i) vl[i] = v[i];
        LD need = std::max(quad(R, vl), quad(R2, vl));
        VP_CHECK(quad(x, vl) >= need * (1 - t2), "intersection requests longer length than an input", "%s", in2.c_str());
      }
      auto w = host(osh::intersect_metrics(2, pack<d>({m, m2}), pack<d>({m2, m})));
      VP_CHECK(formd(unpack<d>(w, 0), x) < t2 && formd(unpack<d>(w, 1), y) < t2, "array intersection differs", "%s", in2.c_str());
      count("intersections");
    }
    double t = r.chance(0.2) ? 0 : r.chance(0.25) ? 1 : r.chance(0.3) ? 0.5 : r.real();
    M3 la = fun(R, [](LD z) { return logl(z); }), lb = fun(R2, [](LD z) { return logl(z); });
    M3 lm = la; for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) lm.a[i][j] = (1 - LD(t)) * la.a[i][j] + LD(t) * lb.a[i][j];
    M3 rm = fun(lm, [](LD z) { return expl(z); });
    auto iv = unpack<d>(host(osh::interpolate_between_metrics(1, pack<d>({m}), pack<d>({m2}), t)), 0);
    LD ti = 1e-12L * (1 + nrm(la) + nrm(lb)) + 1e-14L * (c + c2 + condM(rm));
    VP_CHECK(formd(iv, rm) < ti, "interpolated metric differs from the log-Euclidean mean", "%s t=%g rel %Lg", in2.c_str(), t, formd(iv, rm));
    Few<Tensor<d>, d + 1> ms;
    LD cs = 0, ln = 0; M3 lsum = zeroM(d); int ngood = 0;
    bool degen = r.chance(0.3);
    int best = 0; LD bestdet = -1;
    for (int k = 0; k <= d; ++k) {
      ms[k] = gen_spd<d>(r, o);
      if (degen && r.chance(0.3)) { ms[k] = osh::zero_matrix<d, d>(); continue; }
      auto T = toM<d>(ms[k]);
      cs += condM(T);
      M3 lk = fun(T, [](LD z) { return logl(z); });
      ln += nrm(lk);
      for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) lsum.a[i][j] += lk.a[i][j];
      ++ngood;
      if (osh::max_norm(ms[k]) < OMEGA_H_EPSILON) degen = false;
      LD dt = detM(T);
      if (dt > bestdet) { bestdet = dt; best = k; }
    }
    if (ngood == d + 1 || degen) {
      auto av = toM<d>(osh::average_metric(ms, degen));
      if (ngood == 0) VP_CHECK(nrm(av) == 0, "mean of no metrics is not zero", "%d", d);
      else {
        for (auto& row : lsum.a) for (auto& z : row) z /= ngood;
        auto ra = fun(lsum, [](LD z) { return expl(z); });
        VP_CHECK(formd(av, ra) < 1e-12L * (1 + ln) + 1e-14L * (cs + condM(ra)), "average_metric is not the log-Euclidean mean", "dim %d n %d rel %Lg", d, ngood, formd(av, ra));
      }
      count("means");
    }
    if (ngood == d + 1) {
      auto mx = toM<d>(osh::maxdet_metric(ms));
      VP_CHECK(detM(mx) >= bestdet * (1 - 1e-12L - 1e-14L * cs * cs) , "maxdet_metric is not the largest", "dim %d best %d", d, best);
    }
  }
  {  // isotropy, conversions
    auto p = pack<d>({m});
    LD lo, hi; minmax_eig(R, lo, hi);
    auto il = host(osh::apply_isotropy(1, p, OMEGA_H_ISO_LENGTH));
    VP_CHECK(il.size() == 1 && fabsl(il[0] - hi) < eps * hi, "isotropic length metric is not the smallest length", "%s: %.17g expected %.17Lg", in.c_str(), il[0], hi);
    auto is = host(osh::apply_isotropy(1, p, OMEGA_H_ISO_SIZE));
    LD want = powl(detM(R), LD(1) / d);
    VP_CHECK(is.size() == 1 && fabsl(is[0] - want) < (eps + 1e-14L * c * c) * want, "isotropic size metric has a different volume", "%s", in.c_str());
    auto an = host(osh::apply_isotropy(1, p, OMEGA_H_ANISOTROPIC));
    VP_CHECK(an == host(p), "anisotropic request changed the metric", "%s", in.c_str());
    double h = std::pow(10., rnd(r) * 5);
    auto iso = host(osh::isos_from_lengths(Reals({h})));
    VP_CHECK(std::fabs(iso[0] * h * h - 1) < 1e-14, "isos_from_lengths", "%g", h);
    VP_CHECK(std::fabs(host(osh::lengths_from_isos(Reals({iso[0]})))[0] / h - 1) < 1e-14, "lengths_from_isos", "%g", h);
    auto mi = unpack<d>(host(osh::metrics_from_isos(d, Reals({iso[0]}))), 0);
    for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) VP_CHECK(mi.a[i][j] == (i == j ? iso[0] : 0), "metrics_from_isos", "%d", d);
  }
  {  // derivative based
    Tensor<d> H;
    LD q[3][3]; rnd_rot(r, d, q);
    double l[3]; for (auto& x : l) x = rnd(r) * std::pow(10., rnd(r) * 2);
    if (r.chance(0.2)) l[0] = -l[d - 1];
    if (r.chance(0.1)) l[d - 1] = 0;
    for (int i = 0; i < d; ++i) for (int j = 0; j <= i; ++j) { LD s = 0; for (int k = 0; k < d; ++k) s += q[i][k] * q[j][k] * l[k]; H(i, j) = H(j, i) = double(s); }
    double e = std::pow(10., -r.real() * 4);
    auto hm = unpack<d>(host(osh::get_hessian_metrics(d, pack<d>({H}), e)), 0);
    LD cc = LD(d * d) / (2 * (d + 1) * (d + 1));
    M3 RH = toM<d>(H);
    auto want = fun(RH, [&](LD x) { return cc * fabsl(x) / e; });
    VP_CHECK(nrm(sub(hm, want)) <= 1e-12L * nrm(want), "hessian metric is not the scaled absolute value", "%s eps %g rel %Lg", str(RH).c_str(), e, reld(hm, want));
    auto g = rnd_dir<d>(r) * std::pow(10., rnd(r) * 2);
    vector<double> gv; for (int i = 0; i < d; ++i) gv.push_back(g[i]);
    auto gm = unpack<d>(host(osh::get_gradient_metrics(d, dev(gv), e)), 0);
    M3 gw = zeroM(d);
    LD gc = LD(d * d) / (4 * (d + 1) * (d + 1) * LD(e) * e);
    for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) gw.a[i][j] = gc * g[i] * g[j];
    LD lt = nrm(gw);
    if (lt > 2e-10L) VP_CHECK(reld(gm, gw) < 1e-12L, "gradient metric is not the scaled outer product", "rel %Lg", reld(gm, gw));
    count("hessian and gradient metrics");
  }
}

template <int d> static Tensor<d> gen_rank(Rng& r, int rank, double aniso, Tensor<d> const* q_in = nullptr) {
  LD q[3][3];
  rnd_rot(r, d, q, false);
  if (q_in) for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) q[i][j] = (*q_in)(i, j);
  Tensor<d> t;
  double l[3]; for (int i = 0; i < d; ++i) l[i] = i < rank ? std::pow(10., rnd(r) * aniso) : 0;
  int sh = int(r.below(uint64_t(d)));
  for (int i = 0; i < d; ++i) for (int j = 0; j <= i; ++j) { LD s = 0; for (int k = 0; k < d; ++k) s += q[i][(k + sh) % d] * q[j][(k + sh) % d] * l[k]; t(i, j) = t(j, i) = double(s); }
  return t;
}
template <int d> static void check_degenerate(Rng& r) {
  int r1 = int(r.below(d + 1)), r2 = int(r.below(d + 1));
  Tensor<d> q; { LD z[3][3]; rnd_rot(r, d, z, false); for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) q(i, j) = double(z[i][j]); }
  bool shared = r.chance(0.5);
  auto a = gen_rank<d>(r, r1, 1, shared ? &q : nullptr), b = gen_rank<d>(r, r2, 1, shared ? &q : nullptr);
  auto A = toM<d>(a), B = toM<d>(b);
  // skip nearly but not exactly coinciding directions
  M3 S = A; for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) S.a[i][j] += B.a[i][j];
  LD l[3]; M3 qq; eigL(S, l, qq);
  LD hi = 0; for (int i = 0; i < d; ++i) hi = std::max(hi, l[i]);
  for (int i = 0; i < d; ++i) if (l[i] > 1e-13L * hi && l[i] < 1e-3L * hi) return;
  string in = str(A) + " & " + str(B);
  auto x = toM<d>(osh::intersect_metrics(a, b)), y = toM<d>(osh::intersect_metrics(b, a));
  LD t = 1e-8L;
  LD dx = nrm(sub(x, y));
  VP_CHECK(dx <= t * (hi + 1e-300L), "intersection of degenerate metrics is not symmetric in its arguments", "%s: %s vs %s", in.c_str(), str(x).c_str(), str(y).c_str());
  for (int k = 0; k < 6; ++k) {
    auto v = rnd_dir<d>(r);
    LD vl[3], n2 = 0; for (int i = 0; i < d; ++i) { vl[i] = v[i]; n2 += vl[i] * vl[i]; }
    LD qa = quad(A, vl), qb = quad(B, vl), qx = quad(x, vl), s = t * hi * n2;
    VP_CHECK(qx >= std::max(qa, qb) - s, "intersection of degenerate metrics requests longer length than an input", "%s: %s dir %g %g %g: %Lg < max(%Lg, %Lg)", in.c_str(), str(x).c_str(), v[0], d > 1 ? v[d > 1] : 0., d > 2 ? v[d - 1] : 0., qx, qa, qb);
    VP_CHECK(qx <= qa + qb + s, "intersection of degenerate metrics requests shorter length than both inputs together", "%s: %s: %Lg > %Lg + %Lg", in.c_str(), str(x).c_str(), qx, qa, qb);
  }
  count(fmt("degenerate intersections of ranks %d and %d in %dD", std::min(r1, r2), std::max(r1, r2), d));
}

template <int m, int n> static void check_qr(Rng& r) {
  int mm = int(r.range(n, m));
  bool exact = r.chance(0.3);
  Matrix<m, n> a; Vector<m> b;
  for (int i = 0; i < m; ++i) { b[i] = 0; for (int j = 0; j < n; ++j) a(i, j) = 0; }
  double sc = std::pow(10., rnd(r) * 6);
  for (int i = 0; i < mm; ++i) for (int j = 0; j < n; ++j) a(i, j) = sc * (rnd(r) + (i == j ? (r.chance(0.5) ? 1.5 : -1.5) : 0));
  double xs[16]; for (int j = 0; j < n; ++j) xs[j] = rnd(r);
  for (int i = 0; i < mm; ++i) { if (exact) { LD s = 0; for (int j = 0; j < n; ++j) s += LD(a(i, j)) * xs[j]; b[i] = double(s); } else b[i] = rnd(r) * sc; }
  auto f = osh::factorize_qr_householder(mm, n, a);
  // R'R = A'A
  LD na = 0, dd = 0;
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
    LD aa = 0, rr = 0;
    for (int k = 0; k < mm; ++k) aa += LD(a(k, i)) * a(k, j);
    for (int k = 0; k <= std::min(i, j); ++k) rr += LD(f.r(k, i)) * f.r(k, j);
    na = std::max(na, fabsl(aa)); dd = std::max(dd, fabsl(aa - rr));
  }
  VP_CHECK(dd <= 1e-13L * na, "R'R differs from A'A", "%dx%d rel %Lg", mm, n, dd / na);
  auto x = osh::solve_using_qr(mm, n, a, b);
  // residual orthogonal to the columns
  LD nb = 0; for (int i = 0; i < mm; ++i) nb += LD(b[i]) * b[i];
  LD nx = 0; for (int j = 0; j < n; ++j) nx += LD(x[j]) * x[j];
  for (int j = 0; j < n; ++j) {
    LD s = 0;
    for (int i = 0; i < mm; ++i) { LD res = -LD(b[i]); for (int k = 0; k < n; ++k) res += LD(a(i, k)) * x[k]; s += a(i, j) * res; }
    VP_CHECK(fabsl(s) <= 1e-12L * (sqrtl(na * nb) + na * sqrtl(nx)), "least squares residual is not orthogonal to the columns", "%dx%d col %d: %Lg", mm, n, j, s);
  }
  if (exact && mm > n + 2) for (int j = 0; j < n; ++j) VP_CHECK(std::fabs(x[j] - xs[j]) < 1e-8, "least squares does not reproduce an exact solution", "%dx%d", mm, n);
  // implicit products
  Vector<m> e; for (int i = 0; i < m; ++i) e[i] = i < mm ? rnd(r) : 0;
  auto e0 = e;
  auto qtb = osh::implicit_q_trans_b(mm, n, f.v, e);
  // Q R = A column by column
  for (int j = 0; j < n; ++j) {
    Vector<m> c; for (int i = 0; i < m; ++i) c[i] = i < n ? f.r(i, j) : 0; 
    for (int i = j + 1; i < n; ++i) c[i] = 0;
    osh::implicit_q_x(mm, n, c, f.v);
    for (int i = 0; i < mm; ++i) VP_CHECK(std::fabs(c[i] - a(i, j)) <= 1e-13 * double(sqrtl(na)) * 10, "Q times R is not A", "%dx%d", mm, n);
    // row j of Q' e by applying Q to unit vector j
    Vector<m> u; for (int i = 0; i < m; ++i) u[i] = i == j;
    osh::implicit_q_x(mm, n, u, f.v);
    LD s = 0; for (int i = 0; i < mm; ++i) s += LD(u[i]) * e0[i];
    VP_CHECK(fabsl(s - qtb[j]) < 1e-12L, "implicit Q transpose product differs", "%dx%d", mm, n);
  }
  count("least squares problems");
}
template <int d> static void check_matrix(Rng& r) {
  Matrix<d, d> a;
  for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) a(i, j) = rnd(r) * std::pow(10., rnd(r));
  if (r.chance(0.1)) for (int j = 0; j < d; ++j) a(d - 1, j) = a(0, j);
  if (r.chance(0.05)) a = osh::zero_matrix<d, d>();
  auto A = toM<d>(a);
  LD na = nrm(A);
  auto s = osh::decompose_svd(a);
  auto U = toM<d>(s.U), S = toM<d>(s.S), V = toM<d>(s.V);
  VP_CHECK(nrm(sub(mul(mul(U, S), V), A)) <= 1e-13L * na * 10, "svd does not recompose", "%s rel %Lg", str(A).c_str(), nrm(sub(mul(mul(U, S), V), A)) / na);
  M3 I = zeroM(d); for (int i = 0; i < d; ++i) I.a[i][i] = 1;
  VP_CHECK(nrm(sub(mul(tr(U), U), I)) < 1e-13L * 10 && nrm(sub(mul(tr(V), V), I)) < 1e-13L * 10, "svd factors are not orthogonal", "%s", str(A).c_str());
  for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) {
    if (i == j) VP_CHECK(S.a[i][i] >= 0, "negative singular value", "%s", str(A).c_str());
    else VP_CHECK(fabsl(S.a[i][j]) <= 1e-13L * na, "singular value matrix is not diagonal", "%s", str(A).c_str());
  }
  count("singular value decompositions");
  // polar logarithm of rotation times stretch
  auto u = gen_spd<d>(r, GenM{0, 1});
  LD q[3][3]; rnd_rot(r, d, q);
  Matrix<d, d> Rm; for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) Rm(i, j) = double(q[i][j]);
  auto F = Rm * u;
  auto FF = toM<d>(F);
  auto back = toM<d>(osh::exp_polar(osh::log_polar(F)));
  VP_CHECK(reld(back, FF) < 1e-6L, "polar exponential does not invert the polar logarithm", "%s rel %Lg", str(FF).c_str(), reld(back, FF));
  auto inv = toM<d>(osh::invert(F));
  VP_CHECK(nrm(sub(mul(inv, FF), I)) < 1e-12L * condM(mul(tr(FF), FF)), "inverse of a general matrix", "%s", str(FF).c_str());
  VP_CHECK(nrm(sub(toM<d>(osh::transpose(F)), tr(FF))) == 0, "transpose", "%d", d);
}
static void check_small(Rng& r) {
  {
    auto n = rnd_dir<3>(r);
    n = osh::normalize(n);
    auto b = osh::form_ortho_basis(n);
    M3 B = toM<3>(b), I = zeroM(3); for (int i = 0; i < 3; ++i) I.a[i][i] = 1;
    VP_CHECK(nrm(sub(mul(tr(B), B), I)) < 1e-12L, "ortho basis is not orthonormal", "%g %g %g", n[0], n[1], n[2]);
    VP_CHECK(osh::norm(b[0] - n) < 1e-12, "ortho basis does not start with the normal", "%g %g %g", n[0], n[1], n[2]);
  }
  {
    Matrix<3, 2> p; for (int i = 0; i < 3; ++i) for (int j = 0; j < 2; ++j) p(i, j) = rnd(r) + (i == j ? 2 : 0);
    auto x = osh::pseudo_invert(p);
    auto y = x * p;
    for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) VP_CHECK(std::fabs(y(i, j) - (i == j)) < 1e-12, "pseudo inverse of a tall matrix", "%g", y(i, j));
    Matrix<2, 3> w = osh::transpose(p);
    auto z = w * osh::pseudo_invert(w);
    for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) VP_CHECK(std::fabs(z(i, j) - (i == j)) < 1e-12, "pseudo inverse of a wide matrix", "%g", z(i, j));
  }
  {
    auto ax = osh::normalize(rnd_dir<3>(r));
    double t = rnd(r) * (r.chance(0.2) ? 1e-4 : 3.0);
    auto R = osh::rotate(t, ax);
    VP_CHECK(osh::norm(R * ax - ax) < 1e-12, "rotation moves its axis", "%g", t);
    auto aa = osh::axis_angle_from_tensor(R);
    // the angle is determined up to full turns
    double off = osh::norm(aa - t * ax), turn = std::fabs(std::fabs(osh::norm(aa)) + std::fabs(t) - 2 * M_PI);
    VP_CHECK(off < 1e-6 || (turn < 1e-6 && osh::norm(osh::cross(aa, ax)) < 1e-6), "axis and angle of a rotation", "%g: %g", t, off);
    VP_CHECK(reld(toM<3>(osh::tensor_from_axis_angle(t * ax)), toM<3>(R)) < 1e-12L, "rotation of axis and angle", "%g", t);
  }
  {  // element implied metrics: all edges have length one
    Few<Vector<3>, 4> p; for (int i = 0; i < 4; ++i) { p[i] = osh::zero_vector<3>(); if (i) p[i][i - 1] = 1; for (int j = 0; j < 3; ++j) p[i][j] += 0.2 * rnd(r); }
    double sx = std::pow(10., rnd(r) * 2), sy = std::pow(10., rnd(r));
    for (int i = 0; i < 4; ++i) { p[i][0] *= sx; p[i][1] *= sx * sy; p[i][2] *= sx; }
    auto M = osh::element_implied_metric(p);
    for (int i = 0; i < 4; ++i) for (int j = 0; j < i; ++j) VP_CHECK(std::fabs(osh::metric_length(M, p[i] - p[j]) - 1) < 1e-9, "edge of a tetrahedron is not unit in its implied metric", "%g", osh::metric_length(M, p[i] - p[j]));
    Few<Vector<2>, 3> t; for (int i = 0; i < 3; ++i) for (int j = 0; j < 2; ++j) t[i][j] = p[i][j];
    auto T = osh::element_implied_metric(t);
    for (int i = 0; i < 3; ++i) for (int j = 0; j < i; ++j) VP_CHECK(std::fabs(osh::metric_length(T, t[i] - t[j]) - 1) < 1e-9, "edge of a triangle is not unit in its implied metric", "%g", osh::metric_length(T, t[i] - t[j]));
    Few<Vector<1>, 2> l; l[0][0] = rnd(r); l[1][0] = l[0][0] + sx;
    VP_CHECK(std::fabs(osh::metric_length(osh::element_implied_metric(l), l[1] - l[0]) - 1) < 1e-12, "edge is not unit in its implied metric", "%g", sx);
  }
}
static void case_small(Rng& r, int64_t) {
  uint64_t h = r.u64();
  for (int k = 0; k < 12; ++k) {
    check_metric<1>(r); check_metric<2>(r); check_metric<3>(r); check_metric<3>(r);
    check_degenerate<2>(r); check_degenerate<3>(r); check_degenerate<3>(r);
    check_qr<3, 3>(r); check_qr<8, 3>(r); check_qr<12, 4>(r); check_qr<6, 6>(r); check_qr<5, 1>(r); check_qr<72, 4>(r);
    check_matrix<2>(r); check_matrix<3>(r);
    check_small(r);
  }
  nontrivial(h);
  sample("batch of 12 rounds over dimensions 1-3");
}

// ------------------------------------------------------------ metric fields
struct GV { vector<double> x, m; };
struct FieldCtx {
  int dim, nc, md;
  std::map<GO, GV> v;                 // by global
  vector<vector<GO>> elems, edges;
};
static M3 gm(FieldCtx const& f, vector<double> const& c, size_t nc) {
  Sym s = sym_from(f.dim, int(nc), c.data());
  M3 m = zeroM(s.n);
  for (int a = 0; a < s.n; ++a) for (int b = 0; b < s.n; ++b) m.a[a][b] = s.a[a][b];
  return m;
}
static LD qf(M3 const& m, vector<double> const& a, vector<double> const& b) {
  LD v[3], s = 0;
  for (size_t i = 0; i < a.size(); ++i) v[i] = LD(b[i]) - a[i];
  if (m.n == 1) { for (size_t i = 0; i < a.size(); ++i) s += v[i] * v[i]; return s * m.a[0][0]; }
  return quad(m, v);
}
static M3 meanM(vector<M3> const& ms) {
  M3 s = zeroM(ms[0].n);
  for (auto& m : ms) { auto l = fun(m, [](LD x) { return logl(x); }); for (int i = 0; i < s.n; ++i) for (int j = 0; j < s.n; ++j) s.a[i][j] += l.a[i][j] / LD(ms.size()); }
  return fun(s, [](LD x) { return expl(x); });
}
static void put(Mesh& m, char const* name, int nc, Reals a) { m.add_tag<Real>(0, name, nc, a); }
static FieldCtx gather(Mesh& m, std::map<string, std::map<GO, vector<double>>>& tags, vector<std::pair<string, int>> const& names) {
  auto w = dump_world(&m);
  auto g = assemble(w);
  FieldCtx f;
  f.dim = m.dim();
  for (auto& kv : g.e[0]) {
    GV gv;
    for (int i = 0; i < f.dim; ++i) gv.x.push_back(tagval<double>(kv.second, "coordinates", i));
    f.v[kv.first] = gv;
    for (auto& n : names) { auto& t = tags[n.first][kv.first]; for (int i = 0; i < n.second; ++i) t.push_back(tagval<double>(kv.second, n.first, i)); }
  }
  for (auto& kv : g.e[f.dim]) f.elems.push_back(kv.second.v);
  for (auto& kv : g.e[1]) f.edges.push_back(kv.second.v);
  return f;
}
template <int d> static Reals field_of(Rng& r, Mesh& m, int nc, double base, double aniso) {
  // smooth or rough, the same for each global vertex
  auto c = host(m.coords());
  auto gl = host(m.globals(0));
  vector<double> out;
  uint64_t seed = r.u64();
  int style = int(r.below(4));
  for (size_t i = 0; i < gl.size(); ++i) {
    uint64_t hs = style == 0 ? seed : style == 1 ? mix64(seed ^ uint64_t(gl[i])) : mix64(seed + uint64_t(mix64(uint64_t(gl[i]) ^ seed) % 3 == 0));
    Rng q(hs);
    if (nc == 1) { out.push_back(std::pow(10., -2 * (std::log10(base) + rnd(q) * aniso / 2))); continue; }
    auto t = gen_spd<d>(q, GenM{std::log10(base), aniso});
    auto p = host(pack<d>({t}));
    if (style == 3) { double s = 1 + 3 * std::fabs(c[i * d]); for (auto& z : p) z /= s * s; }
    out.insert(out.end(), p.begin(), p.end());
  }
  return dev(out);
}
static Reals field_any(Rng& r, Mesh& m, int nc, double base, double aniso) {
  return m.dim() == 1 ? field_of<1>(r, m, nc, base, aniso) : m.dim() == 2 ? field_of<2>(r, m, nc, base, aniso) : field_of<3>(r, m, nc, base, aniso);
}
static LD typical(int d) { return d == 3 ? 0.0838934100219L : d == 2 ? 0.377645136635L : 1.0L; }
static LD ref_nelems(FieldCtx const& f, std::map<GO, vector<double>>& t, size_t nc) {
  LD tot = 0;
  for (auto& e : f.elems) {
    double const* p[4]; vector<M3> ms;
    for (size_t i = 0; i < e.size(); ++i) { p[i] = f.v.at(e[i]).x.data(); ms.push_back(gm(f, t.at(e[i]), nc)); }
    M3 mm = meanM(ms);
    LD dt = mm.n == 1 ? powl(mm.a[0][0], f.dim) : detM(mm);
    tot += LD(elem_size(f.dim, p)) * sqrtl(dt);
  }
  return tot / typical(f.dim);
}
static void check_spd(FieldCtx const& f, std::map<GO, vector<double>>& t, size_t nc, char const* what) {
  for (auto& kv : t) {
    LD lo, hi; auto m = gm(f, kv.second, nc);
    bool fin = true; for (auto x : kv.second) if (!std::isfinite(x)) fin = false;
    if (!fin) { viol(string("metric is not finite: ") + what, fmt("vertex %ld", long(kv.first))); return; }
    minmax_eig(m, lo, hi);
    VP_CHECK(lo > 0, string("metric is not positive definite: ") + what, "vertex %ld eigenvalues %Lg %Lg", long(kv.first), lo, hi);
  }
}
static void check_gradation(FieldCtx const& f, std::map<GO, vector<double>>& in, std::map<GO, vector<double>>& out, size_t nc, double rate, double tol, char const* what) {
  for (auto& kv : in) {
    auto a = gm(f, kv.second, nc), b = gm(f, out.at(kv.first), nc);
    M3 is = fun(b, [](LD x) { return 1 / sqrtl(x); });
    LD lo, hi; minmax_eig(mul(mul(is, a), is), lo, hi);
    VP_CHECK(hi <= 1 + 1e-9L * condM(a), string("gradation limiting asked for longer edges: ") + what, "vertex %ld factor %Lg", long(kv.first), hi);
  }
  for (auto& e : f.edges) for (int k = 0; k < 2; ++k) {
    GO v = e[size_t(k)], u = e[size_t(1 - k)];
    auto mv = gm(f, out.at(v), nc), mu = gm(f, out.at(u), nc);
    LD dist = sqrtl(qf(mu, f.v.at(u).x, f.v.at(v).x));
    LD fac = 1 / ((1 + dist * rate) * (1 + dist * rate));
    // limiter <= mv
    M3 lim = mu; for (auto& row : lim.a) for (auto& x : row) x *= fac;
    M3 is = fun(mv, [](LD x) { return 1 / sqrtl(x); });
    LD lo, hi; minmax_eig(mul(mul(is, lim), is), lo, hi);
    VP_CHECK(hi <= 1 + tol, string("limited metric still varies too fast: ") + what, "edge %ld-%ld factor %Lg rate %g", long(u), long(v), hi, rate);
  }
  count("gradation constraints", int64_t(2 * f.edges.size()));
  if (nc == 1) {  // exact: shortest paths
    std::map<GO, LD> h;
    std::map<GO, vector<std::pair<GO, LD>>> adj;
    for (auto& e : f.edges) { LD s = 0; auto& a = f.v.at(e[0]).x; auto& b = f.v.at(e[1]).x; for (size_t i = 0; i < a.size(); ++i) s += (LD(a[i]) - b[i]) * (LD(a[i]) - b[i]); s = sqrtl(s); adj[e[0]].push_back({e[1], s}); adj[e[1]].push_back({e[0], s}); }
    typedef std::pair<LD, GO> P;
    std::priority_queue<P, vector<P>, std::greater<P>> pq;
    for (auto& kv : in) { h[kv.first] = 1 / sqrtl(kv.second[0]); pq.push({h[kv.first], kv.first}); }
    while (!pq.empty()) {
      auto p = pq.top(); pq.pop();
      if (p.first > h[p.second]) continue;
      for (auto& n : adj[p.second]) { LD c = p.first + rate * n.second; if (c < h[n.first]) { h[n.first] = c; pq.push({c, n.first}); } }
    }
    for (auto& kv : out) { LD got = 1 / sqrtl(kv.second[0]); VP_CHECK(fabsl(got / h[kv.first] - 1) < tol, string("limited size is not the largest one allowed: ") + what, "vertex %ld: %Lg expected %Lg", long(kv.first), got, h[kv.first]); }
    count("sizes compared with shortest paths", int64_t(out.size()));
  }
}

static void case_field(Rng& r, int64_t) {
  GenOpts go;
  go.max_cells = r.chance(0.5) ? 3 : 6;
  auto s = gen_soup(r, go);
  auto mo = make_model(s);
  Mesh mesh = distribute(g_lib->world(), s, mo, r, int(r.below(4)));
  int layers = int(r.below(2));
  bool vb = r.chance(0.3);
  mesh.set_parting(vb ? OMEGA_H_VERT_BASED : OMEGA_H_GHOSTED, vb ? 1 : 1 + layers, false);
  int dim = mesh.dim();
  int nc = (dim == 1 || r.chance(0.4)) ? 1 : dim * (dim + 1) / 2;
  double base = std::pow(10., -r.real() * 1.5), aniso = r.chance(0.5) ? 0.6 : 1.5;
  auto v2m = field_any(r, mesh, nc, base, aniso);
  auto nv = mesh.nverts();
  string what = s.desc + fmt(" nc %d %s", nc, vb ? "vertex based" : "ghosted");
  put(mesh, "in", nc, v2m);
  // expected element counts
  double ne = osh::get_expected_nelems(&mesh, v2m), target = std::pow(10., r.real() * 5), sc = osh::get_metric_scalar_for_nelems(&mesh, v2m, target);
  auto scaled = osh::multiply_each_by(v2m, sc);
  double ne2 = osh::get_expected_nelems(&mesh, Reals(scaled));
  VP_CHECK(std::fabs(ne2 / target - 1) < 1e-9, "scaled metric misses the element count target", "%s: %g expected %g", what.c_str(), ne2, target);
  // gradation
  double rate = std::pow(10., rnd(r));
  auto lim = osh::limit_metric_gradation(&mesh, v2m, rate, nc == 1 ? 1e-8 : 1e-3, false);
  put(mesh, "lim", nc, lim);
  auto imp = osh::get_implied_metrics(&mesh), pimp = osh::get_pure_implied_metrics(&mesh), iiso = osh::get_implied_isos(&mesh);
  int inc = dim * (dim + 1) / 2;
  put(mesh, "imp", inc, imp);
  put(mesh, "pimp", inc, pimp);
  put(mesh, "iiso", 1, iiso);
  put(mesh, "smooth", nc, osh::smooth_metric_once(&mesh, v2m));
  // means on entities
  for (int d : {1, dim}) {
    if (d > 1 && nc > 1 && d != dim) continue;
    auto mm = host(osh::get_mident_metrics(&mesh, d, v2m));
    auto ev = host(mesh.ask_verts_of(d));
    auto hv = host(v2m);
    VP_CHECK(int(mm.size()) == mesh.nents(d) * nc, "wrong number of entity metrics", "%s", what.c_str());
    FieldCtx fc; fc.dim = dim;
    for (int e = 0; e < mesh.nents(d); ++e) {
      vector<M3> ms;
      for (int k = 0; k <= d; ++k) { auto b = hv.begin() + ev[size_t(e * (d + 1) + k)] * nc; ms.push_back(gm(fc, vector<double>(b, b + nc), size_t(nc))); }
      M3 want = meanM(ms), got = gm(fc, vector<double>(mm.begin() + e * nc, mm.begin() + (e + 1) * nc), size_t(nc));
      VP_CHECK(formd(got, want) < 1e-8L, "mean metric of an entity", "%s dim %d", what.c_str(), d);
    }
    count("entity means", mesh.nents(d));
  }
  std::map<string, std::map<GO, vector<double>>> t;
  vector<std::pair<string, int>> names = {{"in", nc}, {"lim", nc}, {"imp", inc}, {"pimp", inc}, {"iiso", 1}, {"smooth", nc}};
  // generated metrics
  osh::MetricInput in;
  in.verbose = false;
  int ns = int(r.range(1, 3));
  bool all_iso = true;
  string gdesc;
  put(mesh, "given1", 1, field_any(r, mesh, 1, base, aniso));
  put(mesh, "givenN", inc, field_any(r, mesh, inc, base, aniso));
  {
    // nodal quadratic for hessians
    auto c = host(mesh.coords()); vector<double> q(static_cast<size_t>(nv));
    double k[3]; for (auto& x : k) x = rnd(r) * 5;
    for (int i = 0; i < nv; ++i) { q[size_t(i)] = 0; for (int j = 0; j < dim; ++j) q[size_t(i)] += k[j] * c[size_t(i * dim + j)] * c[size_t(i * dim + j)]; }
    put(mesh, "quad", 1, dev(q));
  }
  bool has_degen = false;
  for (int i = 0; i < ns; ++i) {
    int k = int(r.below(4));
    auto iso = r.chance(0.6) ? OMEGA_H_ANISOTROPIC : r.chance(0.5) ? OMEGA_H_ISO_LENGTH : OMEGA_H_ISO_SIZE;
    auto scales = r.chance(0.5) ? OMEGA_H_SCALES : OMEGA_H_ABSOLUTE;
    if (i == 0) scales = OMEGA_H_SCALES;
    double knob = r.chance(0.4) ? 1.0 : std::pow(10., rnd(r) * 0.5);
    if (k == 0) in.add_source(osh::MetricSource(OMEGA_H_CONSTANT, base * knob, "", iso, scales));
    if (k == 1) in.add_source(osh::MetricSource(OMEGA_H_GIVEN, knob, "given1", iso, scales));
    if (k == 2) { in.add_source(osh::MetricSource(OMEGA_H_GIVEN, knob, "givenN", iso, scales)); if (iso == OMEGA_H_ANISOTROPIC && dim > 1) all_iso = false; }
    if (k == 3) { in.add_source(osh::MetricSource(OMEGA_H_IMPLIED, knob, "", iso, scales)); if (iso == OMEGA_H_ANISOTROPIC && dim > 1) all_iso = false; }
    gdesc += fmt(" source %d iso %d scales %d knob %.3g;", k, int(iso), int(scales), knob);
  }
  in.should_limit_lengths = r.chance(0.6);
  in.min_length = base * std::pow(10., -r.real());
  in.max_length = base * std::pow(10., r.real());
  in.should_limit_gradation = r.chance(0.5);
  in.max_gradation_rate = rate;
  in.gradation_convergence_tolerance = 1e-4;
  in.should_limit_element_count = !in.should_limit_lengths && ns == 1 && r.chance(0.6);
  in.nsmoothing_steps = r.chance(0.3) ? int(r.range(1, 2)) : 0;
  if (in.should_limit_element_count) { in.max_element_count = std::pow(10., 0.7 + r.real() * 4); in.min_element_count = in.max_element_count / std::pow(10., 0.3 + r.real()); in.element_count_over_relaxation = 1.1; }
  bool limit_grad_and_count = in.should_limit_element_count && in.should_limit_gradation;
  if (limit_grad_and_count) in.should_limit_gradation = false;
  gdesc += fmt(" lengths %d [%.3g %.3g] gradation %d %.3g count %d [%.3g %.3g] smoothing %d", in.should_limit_lengths, in.min_length, in.max_length, in.should_limit_gradation, rate, in.should_limit_element_count, in.min_element_count, in.max_element_count, in.nsmoothing_steps);
  auto gen = osh::generate_metrics(&mesh, in);
  int gnc = mesh.nverts() ? gen.size() / mesh.nverts() : 0;
  gnc = g_lib->world()->allreduce(gnc, OMEGA_H_MAX);
  put(mesh, "gen", gnc, gen);
  double gne = osh::get_expected_nelems(&mesh, gen);
  VP_CHECK(gnc == 1 ? (all_iso || dim == 1) : (gnc == inc && !all_iso), "generated metric has the wrong number of components", "%s %d", gdesc.c_str(), gnc);
  (void)has_degen;
  names.push_back({"gen", gnc});
  names.push_back({"given1", 1});
  names.push_back({"givenN", inc});
  auto f = gather(mesh, t, names);
  if (ctx().rank == 0) {
    LD rn = ref_nelems(f, t["in"], size_t(nc));
    VP_CHECK(fabsl(ne / rn - 1) < 1e-8L, "expected number of elements", "%s: %.12g reference %.12Lg", what.c_str(), ne, rn);
    count("element counts compared");
    check_gradation(f, t["in"], t["lim"], size_t(nc), rate, nc == 1 ? 1e-6 : 0.02, "limit_metric_gradation");
    check_spd(f, t["lim"], size_t(nc), "gradation limit");
    check_spd(f, t["imp"], size_t(inc), "implied");
    check_spd(f, t["pimp"], size_t(inc), "pure implied");
    check_spd(f, t["smooth"], size_t(nc), "smoothed");
    check_spd(f, t["gen"], size_t(gnc), "generated");
    // implied: log mean of adjacent elements' implied metrics
    std::map<GO, vector<M3>> adj, sadj;
    for (auto& e : f.elems) {
      M3 em = zeroM(dim);
      int nn = inc; LD A[6][7];
      int row = 0;
      for (size_t a = 0; a < e.size(); ++a) for (size_t b = a + 1; b < e.size(); ++b, ++row) {
        LD v[3]; for (int i = 0; i < dim; ++i) v[i] = LD(f.v.at(e[b]).x[size_t(i)]) - f.v.at(e[a]).x[size_t(i)];
        int col = 0;
        for (int i = 0; i < dim; ++i) A[row][col++] = v[i] * v[i];
        for (int i = 0; i < dim; ++i) for (int j = i + 1; j < dim; ++j) A[row][col++] = 2 * v[i] * v[j];
        A[row][nn] = 1;
      }
      for (int c = 0; c < nn; ++c) { int p = c; for (int i = c; i < nn; ++i) if (fabsl(A[i][c]) > fabsl(A[p][c])) p = i; for (int j = 0; j <= nn; ++j) std::swap(A[c][j], A[p][j]); for (int i = 0; i < nn; ++i) if (i != c) { LD z = A[i][c] / A[c][c]; for (int j = c; j <= nn; ++j) A[i][j] -= z * A[c][j]; } }
      int col = 0;
      for (int i = 0; i < dim; ++i) { em.a[i][i] = A[col][nn] / A[col][col]; ++col; }
      for (int i = 0; i < dim; ++i) for (int j = i + 1; j < dim; ++j) { em.a[i][j] = em.a[j][i] = A[col][nn] / A[col][col]; ++col; }
      vector<M3> ms;
      for (auto v : e) { adj[v].push_back(em); ms.push_back(gm(f, t["in"][v], size_t(nc))); }
      M3 mm = meanM(ms);
      for (auto v : e) sadj[v].push_back(mm);
    }
    LD eqs = dim == 3 ? 1 / sqrtl(72) : dim == 2 ? sqrtl(3) / 4 : 1;
    LD k = powl(typical(dim) / eqs, LD(2) / dim);
    for (auto& kv : adj) {
      auto want = meanM(kv.second), got = gm(f, t["pimp"][kv.first], size_t(inc));
      VP_CHECK(formd(got, want) < 1e-7L * condM(want), "pure implied metric is not the mean of those of the elements", "%s vertex %ld rel %Lg", what.c_str(), long(kv.first), formd(got, want));
      auto gi = gm(f, t["imp"][kv.first], size_t(inc));
      M3 w2 = want; for (auto& row : w2.a) for (auto& x : row) x *= k;
      VP_CHECK(formd(gi, w2) < 1e-7L * condM(want), "implied metric is not the scaled mean", "%s vertex %ld", what.c_str(), long(kv.first));
      LD is = powl(detM(w2), LD(1) / dim);
      VP_CHECK(fabsl(t["iiso"][kv.first][0] / is - 1) < 1e-7L * condM(want), "implied isotropic metric has a different volume", "%s", what.c_str());
      auto sm = gm(f, t["smooth"][kv.first], size_t(nc)), ws = meanM(sadj[kv.first]);
      VP_CHECK(formd(sm, ws) < 1e-7L, "smoothed metric is not the mean of the elements' means", "%s vertex %ld rel %Lg", what.c_str(), long(kv.first), formd(sm, ws));
    }
    count("implied metrics compared", int64_t(adj.size()));
    // generated field meets its limits
    if (in.should_limit_lengths) {
      bool single = ns == 1 || gnc == 1;
      for (auto& kv : t["gen"]) {
        LD lo, hi; minmax_eig(gm(f, kv.second, size_t(gnc)), lo, hi);
        VP_CHECK(lenL(lo) <= in.max_length * (1 + 1e-7), "generated metric exceeds the maximum length", "%s: %Lg > %g", gdesc.c_str(), lenL(lo), in.max_length);
        if (single && !(in.should_limit_gradation && gnc > 1)) VP_CHECK(lenL(hi) >= in.min_length * (1 - 1e-7), "generated metric is below the minimum length", "%s: %Lg < %g", gdesc.c_str(), lenL(hi), in.min_length);
      }
      count("length limited fields");
    }
    if (in.should_limit_gradation) { check_gradation(f, t["gen"], t["gen"], size_t(gnc), rate, 0.005, "generate_metrics"); count("gradation limited fields"); }
    if (in.should_limit_element_count) {
      VP_CHECK(gne <= in.max_element_count * (1 + 1e-9) && gne >= in.min_element_count * (1 - 1e-9), "generated metric misses the element count limits", "%s: %g", gdesc.c_str(), gne);
      count("element count limited fields");
    }
    nontrivial(hash_str(what + gdesc));
    sample(what + " ::" + gdesc);
  }
}

// recovery: linear and quadratic fields are reproduced
static void case_fit(Rng& r, int64_t) {
  GenOpts go;
  go.max_cells = 6;
  auto s = gen_soup(r, go);
  auto mo = make_model(s);
  {  // every connected part must have an interior vertex to fit
    int d = s.dim;
    UF uf; for (int v = 0; v < s.nv(); ++v) uf.add();
    for (int e = 0; e < s.ne(); ++e) for (int k = 1; k <= d; ++k) uf.join(s.ev[size_t(e * (d + 1))], s.ev[size_t(e * (d + 1) + k)]);
    std::map<int, bool> has;
    for (int v = 0; v < s.nv(); ++v) has[uf.find(v)] = has[uf.find(v)] || mo.cls[0].at({v}).first == d;
    for (auto& kv : has) if (!kv.second) { count("meshes without fittable interior vertices"); return; }
  }
  Mesh mesh = distribute(g_lib->world(), s, mo, r, int(r.below(4)));
  int dim = mesh.dim();
  mesh.set_parting(OMEGA_H_GHOSTED, 1 + int(r.below(2)), false);
  string what = s.desc;
  // fitting needs an interior vertex with enough elements around each
  auto cd = host(mesh.get_array<I8>(0, "class_dim"));
  auto deg = host(mesh.ask_up(0, dim).a2ab);
  auto own = host(mesh.owned(0));
  bool bad = false; int interior = 0;
  for (int v = 0; v < mesh.nverts(); ++v) if (own[size_t(v)] && cd[size_t(v)] == dim) { ++interior; int n = deg[size_t(v) + 1] - deg[size_t(v)]; if (n < dim + 1 || n > (dim == 3 ? 72 : dim == 2 ? 18 : 6)) bad = true; }
  if (dim == 1) bad = false;
  auto w = g_lib->world();
  interior = w->allreduce(interior, OMEGA_H_SUM);
  bad = w->allreduce(int(bad), OMEGA_H_MAX);
  if (!interior || bad) { count("meshes without fittable interior vertices"); return; }
  auto x = host(mesh.coords());
  int nc = int(r.range(1, 3));
  vector<double> k(size_t(nc * (dim + 1))); for (auto& z : k) z = rnd(r) * std::pow(10., rnd(r));
  auto lin = [&](int c, double const* p) { double z = k[size_t(c * (dim + 1))]; for (int j = 0; j < dim; ++j) z += k[size_t(c * (dim + 1) + 1 + j)] * p[j]; return z; };
  auto ev = host(mesh.ask_elem_verts());
  vector<double> ed, vd;
  for (int e = 0; e < mesh.nelems(); ++e) { double c[3] = {0, 0, 0}; for (int i = 0; i <= dim; ++i) for (int j = 0; j < dim; ++j) c[j] += x[size_t(ev[size_t(e * (dim + 1) + i)] * dim + j)] / (dim + 1); for (int q = 0; q < nc; ++q) ed.push_back(lin(q, c)); }
  auto out = host(osh::project_by_fit(&mesh, dev(ed)));
  double scale = 0; for (auto z : k) scale = std::max(scale, std::fabs(z));
  for (double z : x) scale = std::max(scale, scale * std::fabs(z));
  for (int v = 0; v < mesh.nverts(); ++v) for (int q = 0; q < nc; ++q) VP_CHECK(std::fabs(out[size_t(v * nc + q)] - lin(q, &x[size_t(v * dim)])) < 1e-5 * scale, "fitted projection does not reproduce a linear field", "%s vertex %d: %g expected %g", what.c_str(), v, out[size_t(v * nc + q)], lin(q, &x[size_t(v * dim)]));
  for (int v = 0; v < mesh.nverts(); ++v) vd.push_back(lin(0, &x[size_t(v * dim)]));
  auto g = host(osh::derive_element_gradients(&mesh, dev(vd)));
  for (int e = 0; e < mesh.nelems(); ++e) for (int j = 0; j < dim; ++j) VP_CHECK(std::fabs(g[size_t(e * dim + j)] - k[size_t(1 + j)]) < 1e-6 * scale, "element gradient of a linear field", "%s", what.c_str());
  auto rg = host(osh::recover_gradients(&mesh, dev(vd)));
  for (int v = 0; v < mesh.nverts(); ++v) for (int j = 0; j < dim; ++j) VP_CHECK(std::fabs(rg[size_t(v * dim + j)] - k[size_t(1 + j)]) < 1e-4 * scale, "recovered gradient of a linear field", "%s", what.c_str());
  // gradients of a quadratic give its hessian
  double H[3][3]; for (int i = 0; i < 3; ++i) for (int j = 0; j <= i; ++j) H[i][j] = H[j][i] = rnd(r);
  vector<double> vg; for (int v = 0; v < mesh.nverts(); ++v) for (int i = 0; i < dim; ++i) { double z = 0; for (int j = 0; j < dim; ++j) z += H[i][j] * x[size_t(v * dim + j)]; vg.push_back(z); }
  auto eh = host(osh::derive_element_hessians(&mesh, dev(vg)));
  Sym hs; hs.n = dim; for (int i = 0; i < dim; ++i) for (int j = 0; j < dim; ++j) hs.a[i][j] = H[i][j];
  auto want = sym_to(hs);
  if (dim == 1) want = {H[0][0]};
  int sn = int(want.size());
  double xs = 1; for (double z : x) xs = std::max(xs, std::fabs(z));
  for (size_t e = 0; e < size_t(mesh.nelems()); ++e) for (int c = 0; c < sn; ++c) VP_CHECK(std::fabs(eh[e * size_t(sn) + size_t(c)] - want[size_t(c)]) < 1e-6 * xs, "element hessian of a quadratic field", "%s", what.c_str());
  // derivative metrics from element tags and vertex tags
  mesh.add_tag<Real>(dim, "eg", sn, osh::Reals(dev(eh)));
  double knob = std::pow(10., -r.real() * 3);
  auto dm = host(osh::get_derivative_metrics(&mesh, "eg", knob));
  M3 RH = zeroM(dim); for (int i = 0; i < dim; ++i) for (int j = 0; j < dim; ++j) RH.a[i][j] = H[i][j];
  LD cc = LD(dim * dim) / (2 * (dim + 1) * (dim + 1));
  M3 wm = fun(RH, [&](LD z) { return cc * fabsl(z) / knob; });
  FieldCtx fc; fc.dim = dim;
  bool symm_tag = sn != dim;  // as many components as a gradient: ambiguous in 1D
  if (symm_tag) for (int v = 0; v < mesh.nverts(); ++v) VP_CHECK(reld(gm(fc, vector<double>(dm.begin() + v * sn, dm.begin() + (v + 1) * sn), size_t(sn)), wm) < 1e-3L, "derivative metric of a constant hessian on the elements", "%s", what.c_str());
  count("fitted fields");
  if (ctx().rank == 0) { nontrivial(hash_str(what + fmt("%g", k[0]))); sample(what); }
}

int main(int argc, char** argv) {
  parse_args(argc, argv);
  LibArgs la(argc, argv);
  Library lib(&la.argc, &la.argv);
  g_lib = &lib;
  ctx().rank = lib.world()->rank();
  ctx().size = lib.world()->size();
  auto m = ctx().mode;
  if (m == "small") return run_cases(case_small);
  if (m == "field") return run_cases(case_field);
  if (m == "fit") return run_cases(case_fit);
  return 2;
}
