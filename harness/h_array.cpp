// Array primitives against sequential definitions (C03) and reproducible or
// collective reductions against exact arithmetic (C04).
#include <limits>
#include <mpi.h>
#include "vpmesh.hpp"
#include <Omega_h_array_ops.hpp>
#include <Omega_h_atomics.hpp>
#include <Omega_h_for.hpp>
#include <Omega_h_functors.hpp>
#include <Omega_h_graph.hpp>
#include <Omega_h_hilbert.hpp>
#include <Omega_h_int128.hpp>
#include <Omega_h_int_scan.hpp>
#include <Omega_h_map.hpp>
#include <Omega_h_mark.hpp>
#include <Omega_h_reduce.hpp>
#include <Omega_h_sort.hpp>
using namespace vp;
namespace osh = Omega_h;

static Library* g_lib;
template <class T> char const* tn();
template <> char const* tn<I8>() { return "I8"; }
template <> char const* tn<I32>() { return "I32"; }
template <> char const* tn<I64>() { return "I64"; }
template <> char const* tn<Real>() { return "Real"; }

template <class T> T big(Rng& r) {
  switch (r.below(6)) {
    case 0: return std::numeric_limits<T>::max();
    case 1: return std::numeric_limits<T>::lowest();
    case 2: return T(0);
    default: return T(r.u64());
  }
}
template <> Real big<Real>(Rng& r) {
  switch (r.below(8)) {
    case 0: return std::numeric_limits<Real>::max();
    case 1: return std::numeric_limits<Real>::lowest();
    case 2: return 0.0;
    case 3: return std::numeric_limits<Real>::denorm_min();
    case 4: return -1e-300;
    default: return std::ldexp(r.real() - 0.5, int(r.range(-60, 60)));
  }
}
// style 0: a few distinct values, 1: small, 2: whole range
template <class T> vector<T> gen(Rng& r, int n, int style) {
  vector<T> v;
  for (int i = 0; i < n; ++i) {
    if (style == 0) v.push_back(T(r.range(-2, 2)));
    else if (style == 1) v.push_back(T(r.range(-60, 60)) / (std::is_same<T, Real>::value ? T(8) : T(1)));
    else v.push_back(big<T>(r));
  }
  return v;
}
static int gen_size(Rng& r) {
  switch (r.below(8)) {
    case 0: return 0;
    case 1: return 1;
    case 2: return 2;
    case 3: return int(r.range(3, 9));
    case 4: return int(r.range(1, 40));
    case 5: return int(r.range(30, 300));
    default: return int(r.range(1, 1500));
  }
}
template <class T> string show(vector<T> const& v) {
  string s = "[";
  for (size_t i = 0; i < v.size() && i < 12; ++i) s += fmt("%s%.17g", i ? "," : "", double(v[i]));
  if (v.size() > 12) s += fmt(",... %zu", v.size());
  return s + "]";
}
template <class T> void same(char const* what, vector<T> const& got, vector<T> const& want, string const& in = "") {
  count("checks");
  if (got.size() != want.size()) { viol(string(what) + "-size", fmt("%s %s: %zu values, expected %zu; input %s", what, tn<T>(), got.size(), want.size(), in.c_str())); return; }
  for (size_t i = 0; i < got.size(); ++i)
    if (!(got[i] == want[i])) { viol(what, fmt("%s %s: at %zu of %zu got %.17g, expected %.17g; input %s", what, tn<T>(), i, got.size(), double(got[i]), double(want[i]), in.c_str())); return; }
}
template <class T> void same(char const* what, Read<T> got, vector<T> const& want, string const& in = "") { same(what, host(got), want, in); }

static vector<LO> gen_fan(Rng& r, int na, int mx) {
  vector<LO> f{0};
  bool zeros = r.chance(0.3);
  for (int i = 0; i < na; ++i) f.push_back(f.back() + LO((zeros && r.chance(0.7)) ? 0 : r.range(0, mx)));
  return f;
}
static vector<LO> gen_perm(Rng& r, int n) {
  vector<LO> p;
  for (int i = 0; i < n; ++i) p.push_back(i);
  if (!r.chance(0.1)) r.shuffle(p);
  return p;
}
struct Args { int n, style; };

template <class T> void arith(Rng& r) {
  int n = gen_size(r), style = int(r.below(2));
  auto a = gen<T>(r, n, style), b = gen<T>(r, n, style);
  for (int i = 0; i < n; ++i) if (r.chance(0.3)) b[size_t(i)] = a[size_t(i)];
  auto A = dev(a), B = dev(b);
  T k = gen<T>(r, 1, style)[0];
  auto mk = [&](std::function<T(int)> f) { vector<T> o; for (int i = 0; i < n; ++i) o.push_back(f(i)); return o; };
  auto mb = [&](std::function<bool(int)> f) { vector<I8> o; for (int i = 0; i < n; ++i) o.push_back(f(i)); return o; };
  auto at = [&](int i) { return a[size_t(i)]; };
  auto bt = [&](int i) { return b[size_t(i)]; };
  auto in = show(a);
  same("add_each", osh::add_each(A, B), mk([&](int i) { return T(at(i) + bt(i)); }), in);
  same("subtract_each", osh::subtract_each(A, B), mk([&](int i) { return T(at(i) - bt(i)); }), in);
  same("add_to_each", osh::add_to_each(A, k), mk([&](int i) { return T(at(i) + k); }), in);
  same("subtract_from_each", osh::subtract_from_each(A, k), mk([&](int i) { return T(at(i) - k); }), in);
  same("multiply_each_by", osh::multiply_each_by(A, k), mk([&](int i) { return T(at(i) * k); }), in);
  if (k != 0) same("divide_each_by", osh::divide_each_by(A, k), mk([&](int i) { return T(at(i) / k); }), in);
  same("min_each", osh::min_each(A, B), mk([&](int i) { return std::min(at(i), bt(i)); }), in);
  same("max_each", osh::max_each(A, B), mk([&](int i) { return std::max(at(i), bt(i)); }), in);
  same("each_max_with", osh::each_max_with(A, k), mk([&](int i) { return std::max(at(i), k); }), in);
  {
    int w = int(r.range(1, 4));
    vector<T> x = gen<T>(r, n * w, style), d;
    for (int i = 0; i < n; ++i) d.push_back(bt(i) == 0 ? T(3) : bt(i));
    vector<T> m, q;
    for (int i = 0; i < n * w; ++i) { m.push_back(T(x[size_t(i)] * d[size_t(i / w)])); q.push_back(T(x[size_t(i)] / d[size_t(i / w)])); }
    same("multiply_each", Read<T>(osh::multiply_each(dev(x), dev(d))), m, in);
    same("divide_each", Read<T>(osh::divide_each(dev(x), dev(d))), q, in);
    if (n) {
      vector<I8> c;
      for (int i = 0; i < n; ++i) c.push_back(I8(r.chance(0.5) ? 0 : r.range(1, 3)));
      auto y = gen<T>(r, n * w, style);
      vector<T> t;
      for (int i = 0; i < n * w; ++i) t.push_back(c[size_t(i / w)] ? x[size_t(i)] : y[size_t(i)]);
      same("ternary_each", osh::ternary_each(dev(c), dev(x), dev(y)), t, in);
    }
    for (int c = 0; c < w; ++c) {
      vector<T> g;
      for (int i = 0; i < n; ++i) g.push_back(x[size_t(i * w + c)]);
      same("get_component", osh::get_component(dev(x), w, c), g, in);
    }
    osh::Write<T> out = osh::deep_copy(dev(x));
    int c = int(r.below(w));
    osh::set_component(out, dev(b), w, c);
    auto want = x;
    for (int i = 0; i < n; ++i) want[size_t(i * w + c)] = bt(i);
    same("set_component", Read<T>(out), want, in);
  }
  // comparisons: the whole range is fine
  if (r.chance(0.5)) { a = gen<T>(r, n, 2); b = gen<T>(r, n, 2); for (int i = 0; i < n; ++i) if (r.chance(0.3)) b[size_t(i)] = a[size_t(i)]; A = dev(a); B = dev(b); if (n) k = r.pick(a); in = show(a); }
  same("each_geq_to", osh::each_geq_to(A, k), mb([&](int i) { return at(i) >= k; }), in);
  same("each_leq_to", osh::each_leq_to(A, k), mb([&](int i) { return at(i) <= k; }), in);
  same("each_gt", osh::each_gt(A, k), mb([&](int i) { return at(i) > k; }), in);
  same("each_lt", osh::each_lt(A, k), mb([&](int i) { return at(i) < k; }), in);
  same("each_eq_to", osh::each_eq_to(A, k), mb([&](int i) { return at(i) == k; }), in);
  same("each_neq_to", osh::each_neq_to(A, k), mb([&](int i) { return at(i) != k; }), in);
  same("gt_each", osh::gt_each(A, B), mb([&](int i) { return at(i) > bt(i); }), in);
  same("lt_each", osh::lt_each(A, B), mb([&](int i) { return at(i) < bt(i); }), in);
  same("eq_each", osh::eq_each(A, B), mb([&](int i) { return at(i) == bt(i); }), in);
  same("each_eq", osh::each_eq(A, B), mb([&](int i) { return at(i) == bt(i); }), in);
  same("neq_each", osh::neq_each(A, B), mb([&](int i) { return at(i) != bt(i); }), in);
  VP_CHECK((A == B) == (a == b), "array-equality", "%s", in.c_str());
  VP_CHECK(A == osh::Read<T>(osh::deep_copy(A)), "array-equality", "%s with its copy", in.c_str());
  if (n) {
    auto c = a;
    auto i = size_t(r.below(n));
    c[i] = c[i] == T(1) ? T(2) : T(1);
    VP_CHECK(!(A == dev(c)), "array-equality", "differs at %zu of %d but equal", i, n);
    VP_CHECK(osh::get_min(A) == *std::min_element(a.begin(), a.end()), "get_min", "%s %s", tn<T>(), in.c_str());
    VP_CHECK(osh::get_max(A) == *std::max_element(a.begin(), a.end()), "get_max", "%s %s", tn<T>(), in.c_str());
  }
  VP_CHECK(osh::is_sorted(A) == std::is_sorted(a.begin(), a.end()), "is_sorted", "%s %s", tn<T>(), in.c_str());
  auto s = a;
  std::sort(s.begin(), s.end());
  VP_CHECK(osh::is_sorted(dev(s)), "is_sorted", "%s sorted %s", tn<T>(), show(s).c_str());
  if (n > 1 && s[0] != s.back()) {
    // a single descent anywhere is found
    auto i = size_t(r.below(n - 1));
    auto t = vector<T>(size_t(n), T(1));
    for (size_t j = 0; j <= i; ++j) t[j] = T(2);
    VP_CHECK(!osh::is_sorted(dev(t)), "is_sorted", "descent at %zu of %d missed", i, n);
  }
  LO last = -1;
  for (int i = 0; i < n; ++i) if (at(i) == k) last = i;
  VP_CHECK(osh::find_last(A, k) == last, "find_last", "%s got %d, expected %d", tn<T>(), osh::find_last(A, k), last);
  {
    // sums
    auto q = gen<T>(r, n, 1);
    double sum = 0;
    for (auto x : q) sum += double(x);
    VP_CHECK(double(osh::get_sum(dev(q))) == sum, "get_sum", "%s n %d: %.17g, expected %.17g", tn<T>(), n, double(osh::get_sum(dev(q))), sum);
  }
  {
    int k2 = int(r.range(0, 4));
    vector<Read<T>> arrs;
    vector<vector<T>> hs;
    for (int i = 0; i < k2; ++i) { hs.push_back(gen<T>(r, n, 2)); arrs.push_back(dev(hs.back())); }
    vector<T> il;
    if (k2) for (int j = 0; j < n; ++j) for (auto& h : hs) il.push_back(h[size_t(j)]);
    if (k2) same("interleave", osh::interleave(arrs), il, in);
    arrs.clear(); hs.clear();
    vector<T> co;
    for (int i = 0; i < k2; ++i) { hs.push_back(gen<T>(r, int(r.range(0, 7)), 2)); arrs.push_back(dev(hs.back())); co.insert(co.end(), hs.back().begin(), hs.back().end()); }
    if (k2) same("coalesce", osh::coalesce(arrs), co, in);
  }
  {
    T v0 = T(r.range(-20, 20)), st = T(r.range(0, 3));
    int m = std::min(n, 30);
    vector<T> lin;
    for (int i = 0; i < m; ++i) lin.push_back(T(v0 + st * T(i)));
    same("linear", Read<T>(m, v0, st), lin);
    same("constant", Read<T>(n, k), vector<T>(size_t(n), k));
    if (n) {
      auto i = LO(r.below(n));
      VP_CHECK(A.get(i) == a[size_t(i)] && A.first() == a.front() && A.last() == a.back(), "array-get", "%s", in.c_str());
      osh::Write<T> w = osh::deep_copy(A);
      w.set(i, k);
      auto c = a;
      c[size_t(i)] = k;
      same("array-set", Read<T>(w), c);
      same("array-set-original", A, a);
    }
  }
}
static void logic(Rng& r) {
  int n = gen_size(r);
  auto a = gen<I8>(r, n, int(r.below(3))), b = gen<I8>(r, n, int(r.below(3)));
  auto A = dev(a), B = dev(b);
  vector<I8> l, o, bo, bn, inv;
  for (int i = 0; i < n; ++i) {
    I8 x = a[size_t(i)], y = b[size_t(i)];
    l.push_back(x && y); o.push_back(x || y); bo.push_back(I8(x | y)); bn.push_back(I8(~x)); inv.push_back(!x);
  }
  same("land_each", osh::land_each(A, B), l);
  same("lor_each", osh::lor_each(A, B), o);
  same("bit_or_each", osh::bit_or_each(A, B), bo);
  same("bit_neg_each", osh::bit_neg_each(A), bn);
  same("invert_marks", osh::invert_marks(A), inv);
  auto x = gen<Real>(r, n, 1), y = gen<Real>(r, n, 1);
  Real t = r.real();
  vector<Real> ab, ip, iv, pw, dz, cast;
  for (int i = 0; i < n; ++i) {
    Real p = x[size_t(i)], q = y[size_t(i)];
    ab.push_back(std::abs(p));
    ip.push_back(p * (1.0 - t) + q * t);
    iv.push_back(1.0 / p);
    pw.push_back(std::pow(std::abs(p), q));
    dz.push_back(q == 0 ? 0.0 : p / q);
  }
  auto X = dev(x), Y = dev(y);
  same("fabs_each", osh::fabs_each(X), ab);
  auto got = host(osh::interpolate_between(X, Y, t));
  bool ok = got.size() == ip.size();
  for (size_t i = 0; ok && i < ip.size(); ++i) ok = std::abs(got[i] - ip[i]) <= 1e-14 * (std::abs(x[i]) + std::abs(y[i]));
  VP_CHECK(ok, "interpolate_between", "%s %s t %g", show(x).c_str(), show(y).c_str(), t);
  same("invert_each", osh::invert_each(X), iv);
  same("pow_each", osh::pow_each(osh::fabs_each(X), Y), pw);
  for (int i = 0; i < n; ++i) if (y[size_t(i)] == 0) x[size_t(i)] = 0;
  same("divide_each_maybe_zero", osh::divide_each_maybe_zero(dev(x), Y), dz);
  auto i32 = gen<I32>(r, n, 2);
  same("array_cast", osh::array_cast<Real>(dev(i32)), conv<Real>(i32));
  same("array_cast", osh::array_cast<I32>(A), conv<I32>(a));
  // closeness
  if (n) {
    Real tol = r.pick(vector<Real>{1e-3, 1e-6, 1e-10}), fl = r.pick(vector<Real>{1e-10, 1e-3, 0.5});
    auto c = x;
    auto i = size_t(r.below(n));
    Real base = x[i] == 0 ? 1.0 : x[i];
    auto X2 = x;
    X2[i] = base;
    bool beyond = r.chance(0.5);
    // |a-b|/max is f
    Real f = tol * (beyond ? 1.2 : 0.8);
    c = X2;
    c[i] = base * (1 - f);
    bool small = std::abs(base) <= fl && std::abs(c[i]) <= fl;
    VP_CHECK(osh::are_close(dev(X2), dev(c), tol, fl) == (small || !beyond), "are_close", "values %g %g tol %g floor %g", base, c[i], tol, fl);
    VP_CHECK(osh::are_close(dev(c), dev(X2), tol, fl) == (small || !beyond), "are_close", "values %g %g tol %g floor %g", c[i], base, tol, fl);
    c[i] = base + f * (r.chance(0.5) ? 1 : -1);
    VP_CHECK(osh::are_close_abs(dev(X2), dev(c), tol) == !beyond, "are_close_abs", "difference %g tol %g", f, tol);
  }
}
static void scans(Rng& r) {
  int n = gen_size(r);
  vector<I8> m;
  double p = r.pick(vector<double>{0, 0.1, 0.5, 0.9, 1});
  for (int i = 0; i < n; ++i) m.push_back(r.chance(p));
  vector<LO> marked, off{0};
  for (int i = 0; i < n; ++i) { if (m[size_t(i)]) marked.push_back(i); off.push_back(off.back() + m[size_t(i)]); }
  same("collect_marked", osh::collect_marked(dev(m)), marked);
  same("offset_scan", osh::offset_scan(dev(m)), off);
  vector<I32> d;
  for (int i = 0; i < n; ++i) d.push_back(I32(r.chance(0.5) ? 0 : r.range(0, 100000)));
  vector<LO> o2{0};
  for (auto x : d) o2.push_back(o2.back() + x);
  same("offset_scan", osh::offset_scan(dev(d)), o2);
  // degrees are the inverse of offsets
  same("get_degrees", osh::get_degrees(dev(o2)), conv<LO>(d));
  vector<I8> e;
  for (int i = 0; i < n; ++i) e.push_back(I8(r.range(0, 127)));
  vector<LO> o3{0};
  for (auto x : e) o3.push_back(o3.back() + x);
  same("offset_scan", osh::offset_scan(dev(e)), o3);
  // fill_right
  vector<LO> f;
  LO cur = LO(r.range(0, 5));
  for (int i = 0; i < n; ++i) { if (r.chance(0.4)) { f.push_back(cur); cur += LO(r.range(0, 4)); } else f.push_back(-1); }
  auto w = f;
  for (size_t i = 1; i < w.size(); ++i) if (w[i] < 0) w[i] = w[i - 1];
  osh::Write<LO> F = osh::deep_copy(dev(f));
  osh::fill_right(F);
  same("fill_right", Read<LO>(F), w);
}
template <class T> void sorts(Rng& r) {
  int n = gen_size(r), w = int(r.range(1, 4));
  auto k = gen<T>(r, n * w, int(r.below(3)));
  if (w > 1 && r.chance(0.5)) for (int i = 0; i < n; ++i) for (int c = 0; c + 1 < w; ++c) k[size_t(i * w + c)] = k[size_t(c)];
  vector<LO> p;
  for (int i = 0; i < n; ++i) p.push_back(i);
  std::stable_sort(p.begin(), p.end(), [&](LO a, LO b) {
    for (int c = 0; c < w; ++c) if (k[size_t(a * w + c)] != k[size_t(b * w + c)]) return k[size_t(a * w + c)] < k[size_t(b * w + c)];
    return false;
  });
  same("sort_by_keys", osh::sort_by_keys(dev(k), w), p, fmt("width %d %s", w, show(k).c_str()));
  count("keys_sorted", n);
}
static void small_range(Rng& r) {
  int n = gen_size(r);
  auto k = gen<I32>(r, n, 0);
  if (r.chance(0.2)) for (auto& x : k) x = x > 1 ? std::numeric_limits<I32>::max() : x < -1 ? std::numeric_limits<I32>::lowest() : x;
  vector<LO> order;
  for (int i = 0; i < n; ++i) order.push_back(i);
  std::stable_sort(order.begin(), order.end(), [&](LO a, LO b) { return k[size_t(a)] < k[size_t(b)]; });
  vector<LO> perm(size_t(n), 0), fan{0};
  vector<I32> uniq;
  for (int i = 0; i < n; ++i) perm[size_t(order[size_t(i)])] = i;
  for (int i = 0; i < n; ++i) {
    I32 v = k[size_t(order[size_t(i)])];
    if (uniq.empty() || uniq.back() != v) { uniq.push_back(v); fan.push_back(i); }
    fan.back() = i + 1;
  }
  LOs a, b; Read<I32> c;
  osh::sort_small_range(dev(k), &a, &b, &c);
  same("sort_small_range-perm", a, perm, show(k));
  same("sort_small_range-fan", b, fan, show(k));
  same("sort_small_range-uniq", c, uniq, show(k));
}
static void check_inverse(char const* what, osh::Graph g, vector<LO> const& a2b, int nb, bool ordered) {
  auto off = host(g.a2ab), idx = host(g.ab2b);
  if (int(off.size()) != nb + 1 || idx.size() != a2b.size() || off.front() != 0 || off.back() != LO(idx.size())) { viol(string(what) + "-shape", fmt("%zu offsets for %d targets, %zu of %zu sources", off.size(), nb, idx.size(), a2b.size())); return; }
  vector<int> seen(a2b.size(), 0);
  for (int b = 0; b < nb; ++b) {
    if (off[size_t(b)] > off[size_t(b) + 1]) { viol(what, "offsets decrease"); return; }
    for (LO j = off[size_t(b)]; j < off[size_t(b) + 1]; ++j) {
      LO a = idx[size_t(j)];
      if (a < 0 || a >= LO(a2b.size()) || a2b[size_t(a)] != b || seen[size_t(a)]++) { viol(what, fmt("target %d lists source %d wrongly or twice", b, a)); return; }
      if (ordered && j > off[size_t(b)] && idx[size_t(j) - 1] > a) { viol(string(what) + "-order", fmt("sources of target %d not in order", b)); return; }
    }
  }
  count("checks");
}
template <class T> void maps(Rng& r) {
  int na = gen_size(r), nb = r.chance(0.1) && !na ? 0 : int(r.range(1, std::max(2, na * 2)));
  if (na) nb = std::max(nb, 1);
  int w = int(r.pick(vector<int>{1, 1, 2, 3, 6}));
  vector<LO> a2b;
  for (int i = 0; i < na; ++i) a2b.push_back(LO(r.below(r.chance(0.5) ? std::min(nb, 3) : nb)));
  auto bd = gen<T>(r, nb * w, 2);
  vector<T> um;
  for (LO b : a2b) for (int c = 0; c < w; ++c) um.push_back(bd[size_t(b * w + c)]);
  same("unmap", Read<T>(osh::unmap(dev(a2b), dev(bd), w)), um);
  LO b0 = LO(r.below(nb + 1)), b1 = LO(r.range(b0, nb));
  same("unmap_range", osh::unmap_range(b0, b1, dev(bd), w), vector<T>(bd.begin() + b0 * w, bd.begin() + b1 * w));
  {
    osh::Write<T> o = osh::deep_copy(dev(bd));
    auto x = gen<T>(r, int(b1 - b0) * w, 2);
    osh::map_into_range(dev(x), b0, b1, o, w);
    auto want = bd;
    std::copy(x.begin(), x.end(), want.begin() + b0 * w);
    same("map_into_range", Read<T>(o), want);
  }
  // injective maps
  int ni = int(r.range(0, nb));
  auto pm = gen_perm(r, nb);
  vector<LO> inj(pm.begin(), pm.begin() + ni);
  auto ad = gen<T>(r, ni * w, 2);
  T init = big<T>(r);
  vector<T> onto(size_t(nb * w), init), into = bd;
  for (int a = 0; a < ni; ++a) for (int c = 0; c < w; ++c) onto[size_t(inj[size_t(a)] * w + c)] = into[size_t(inj[size_t(a)] * w + c)] = ad[size_t(a * w + c)];
  same("map_onto", osh::map_onto(dev(ad), dev(inj), nb, init, w), onto);
  osh::Write<T> o = osh::deep_copy(dev(bd));
  osh::map_into(dev(ad), dev(inj), o, w);
  same("map_into", Read<T>(o), into);
  o = osh::deep_copy(dev(bd));
  osh::map_value_into(init, dev(inj), o);
  auto mv = bd;
  for (LO b : inj) mv[size_t(b)] = init;
  same("map_value_into", Read<T>(o), mv);
  {  // add_into
    auto x = gen<T>(r, ni * w, 0), y = gen<T>(r, nb * w, 0);
    o = osh::deep_copy(dev(y));
    osh::add_into(dev(x), dev(inj), o, w);
    for (int a = 0; a < ni; ++a) for (int c = 0; c < w; ++c) y[size_t(inj[size_t(a)] * w + c)] = T(y[size_t(inj[size_t(a)] * w + c)] + x[size_t(a * w + c)]);
    same("add_into", Read<T>(o), y);
  }
  vector<LO> iv(size_t(nb), -1), ip(size_t(nb), 0);
  for (int a = 0; a < ni; ++a) iv[size_t(inj[size_t(a)])] = a;
  for (int a = 0; a < nb; ++a) ip[size_t(pm[size_t(a)])] = a;
  same("invert_injective_map", osh::invert_injective_map(dev(inj), nb), iv);
  same("invert_permutation", osh::invert_permutation(dev(pm)), ip);
  {
    vector<T> pd(size_t(nb * w), T(0));
    for (int a = 0; a < nb; ++a) for (int c = 0; c < w; ++c) pd[size_t(pm[size_t(a)] * w + c)] = bd[size_t(a * w + c)];
    same("permute", osh::permute(dev(bd), dev(pm), w), pd);
  }
  vector<I8> im(size_t(nb), 0);
  for (LO b : a2b) im[size_t(b)] = 1;
  same("mark_image", osh::mark_image(dev(a2b), nb), im);
  check_inverse("invert_map_by_atomics", osh::invert_map_by_atomics(dev(a2b), nb), a2b, nb, false);
  check_inverse("invert_map_by_sorting", osh::invert_map_by_sorting(dev(a2b), nb), a2b, nb, true);
  auto sorted = a2b;
  std::sort(sorted.begin(), sorted.end());
  vector<LO> fun(size_t(nb) + 1, 0);
  for (LO b : sorted) ++fun[size_t(b) + 1];
  for (int b = 0; b < nb; ++b) fun[size_t(b) + 1] += fun[size_t(b)];
  same("invert_funnel", osh::invert_funnel(dev(sorted), nb), fun, show(sorted));
  // compound
  vector<LO> b2c, a2c;
  for (int b = 0; b < nb; ++b) b2c.push_back(LO(r.below(1000)));
  for (LO b : a2b) a2c.push_back(b2c[size_t(b)]);
  same("compound_maps", osh::compound_maps(dev(a2b), dev(b2c)), a2c);
}
template <class T> void fans(Rng& r) {
  int na = gen_size(r);
  auto f = gen_fan(r, na, 4);
  int w = int(r.pick(vector<int>{1, 1, 2, 3}));
  auto ad = gen<T>(r, na * w, 2);
  vector<T> ex;
  for (int a = 0; a < na; ++a) for (LO b = f[size_t(a)]; b < f[size_t(a) + 1]; ++b) for (int c = 0; c < w; ++c) ex.push_back(ad[size_t(a * w + c)]);
  same("expand", osh::expand(dev(ad), dev(f), w), ex);
  vector<LO> inv;
  for (int a = 0; a < na; ++a) for (LO b = f[size_t(a)]; b < f[size_t(a) + 1]; ++b) inv.push_back(a);
  same("invert_fan", osh::invert_fan(dev(f)), inv);
  vector<I8> pre;
  for (int a = 0; a < na; ++a) pre.push_back(f[size_t(a)] != f[size_t(a) + 1]);
  same("mark_fan_preimage", osh::mark_fan_preimage(dev(f)), pre);
  auto g = gen_fan(r, na, 3);
  vector<LO> mf{0};
  for (int a = 0; a < na; ++a) mf.push_back(mf.back() + (f[size_t(a) + 1] - f[size_t(a)]) * (g[size_t(a) + 1] - g[size_t(a)]));
  same("multiply_fans", osh::multiply_fans(dev(f), dev(g)), mf);
  auto red = [&](vector<T> const& bd, Omega_h_Op op, vector<LO> const& off, vector<LO> const* via) {
    vector<T> o;
    for (int a = 0; a < na; ++a)
      for (int c = 0; c < w; ++c) {
        T v = op == OMEGA_H_MIN ? std::numeric_limits<T>::max() : op == OMEGA_H_MAX ? std::numeric_limits<T>::lowest() : T(0);
        for (LO b = off[size_t(a)]; b < off[size_t(a) + 1]; ++b) {
          T x = bd[size_t((via ? (*via)[size_t(b)] : b) * w + c)];
          v = op == OMEGA_H_MIN ? std::min(v, x) : op == OMEGA_H_MAX ? std::max(v, x) : T(v + x);
        }
        o.push_back(v);
      }
    return o;
  };
  auto big_ = gen<T>(r, f.back() * w, 2), small = gen<T>(r, f.back() * w, 1);
  same("fan_reduce-min", osh::fan_reduce(dev(f), dev(big_), w, OMEGA_H_MIN), red(big_, OMEGA_H_MIN, f, nullptr), show(f));
  same("fan_reduce-max", osh::fan_reduce(dev(f), dev(big_), w, OMEGA_H_MAX), red(big_, OMEGA_H_MAX, f, nullptr), show(f));
  same("fan_reduce-sum", osh::fan_reduce(dev(f), dev(small), w, OMEGA_H_SUM), red(small, OMEGA_H_SUM, f, nullptr), show(f));
  // graphs
  int nb = int(r.range(1, 20));
  vector<LO> e;
  for (LO i = 0; i < f.back(); ++i) e.push_back(LO(r.below(nb)));
  osh::Graph G(dev(f), dev(e));
  VP_CHECK(G.nnodes() == na && G.nedges() == f.back(), "graph-size", "");
  auto bd = gen<T>(r, nb * w, 1);
  for (auto op : {OMEGA_H_MIN, OMEGA_H_MAX, OMEGA_H_SUM}) same("graph_reduce", osh::graph_reduce(G, dev(bd), w, op), red(bd, op, f, &e));
  vector<LO> e2;
  auto f2 = gen_fan(r, na, 3);
  for (LO i = 0; i < f2.back(); ++i) e2.push_back(LO(r.below(nb)));
  auto chk = [&](char const* what, osh::Graph got, vector<vector<LO>> const& want) {
    vector<LO> o{0}, x;
    for (auto& l : want) { x.insert(x.end(), l.begin(), l.end()); o.push_back(LO(x.size())); }
    same(what, got.a2ab, o);
    same(what, got.ab2b, x);
  };
  auto lists = [&](vector<LO> const& off, vector<LO> const& v) { vector<vector<LO>> l; for (size_t a = 0; a + 1 < off.size(); ++a) l.push_back(vector<LO>(v.begin() + off[a], v.begin() + off[a + 1])); return l; };
  auto l1 = lists(f, e), l2 = lists(f2, e2);
  {
    auto s = l1;
    for (size_t a = 0; a < s.size(); ++a) s[a].insert(s[a].end(), l2[a].begin(), l2[a].end());
    chk("add_edges", osh::add_edges(G, osh::Graph(dev(f2), dev(e2))), s);
    s = l1;
    for (size_t a = 0; a < s.size(); ++a) s[a].insert(s[a].begin(), LO(a));
    chk("add_self_edges", osh::add_self_edges(G), s);
    vector<vector<LO>> id;
    for (int a = 0; a < na; ++a) id.push_back({a});
    chk("identity_graph", osh::identity_graph(na), id);
    VP_CHECK(G == osh::Graph(dev(f), dev(e)), "graph-equality", "");
  }
  if (na) {
    vector<LO> sel;
    vector<vector<LO>> s;
    int k = int(r.below(na * 2));
    for (int i = 0; i < k; ++i) { sel.push_back(LO(r.below(na))); s.push_back(l1[size_t(sel.back())]); }
    chk("unmap_graph", osh::unmap_graph(dev(sel), G), s);
  }
  {
    vector<I8> keep;
    for (size_t i = 0; i < e.size(); ++i) keep.push_back(r.chance(0.5));
    vector<vector<LO>> s(static_cast<size_t>(na));
    for (int a = 0; a < na; ++a) for (LO j = f[size_t(a)]; j < f[size_t(a) + 1]; ++j) if (keep[size_t(j)]) s[size_t(a)].push_back(e[size_t(j)]);
    chk("filter_graph_edges", osh::filter_graph_edges(G, dev(keep)), s);
  }
  if (na) {  // nodes: a graph from nodes to nodes
    vector<LO> en;
    for (LO i = 0; i < f.back(); ++i) en.push_back(LO(r.below(na)));
    vector<I8> keep;
    vector<LO> num(static_cast<size_t>(na), -1);
    LO k = 0;
    for (int a = 0; a < na; ++a) { keep.push_back(r.chance(0.6)); if (keep.back()) num[size_t(a)] = k++; }
    vector<vector<LO>> s;
    for (int a = 0; a < na; ++a) {
      if (!keep[size_t(a)]) continue;
      s.emplace_back();
      for (LO j = f[size_t(a)]; j < f[size_t(a) + 1]; ++j) if (num[size_t(en[size_t(j)])] >= 0) s.back().push_back(num[size_t(en[size_t(j)])]);
    }
    chk("filter_graph_nodes", osh::filter_graph_nodes(osh::Graph(dev(f), dev(en)), dev(keep)), s);
  }
  {  // weighted average: every node needs an edge
    vector<LO> ff{0};
    for (int a = 0; a < na; ++a) ff.push_back(ff.back() + LO(r.range(1, 4)));
    vector<LO> ee;
    vector<Real> wt;
    for (LO i = 0; i < ff.back(); ++i) { ee.push_back(LO(r.below(nb))); wt.push_back(r.real(0.1, 2)); }
    auto x = gen<Real>(r, nb * w, 1);
    auto got = host(osh::graph_weighted_average(osh::Graph(dev(ff), dev(ee)), dev(wt), dev(x), w));
    bool ok = int(got.size()) == na * w;
    for (int a = 0; ok && a < na; ++a)
      for (int c = 0; ok && c < w; ++c) {
        Real s = 0, t = 0;
        for (LO j = ff[size_t(a)]; j < ff[size_t(a) + 1]; ++j) { s += wt[size_t(j)] * x[size_t(ee[size_t(j)] * w + c)]; t += wt[size_t(j)]; }
        ok = std::abs(got[size_t(a * w + c)] - s / t) <= 1e-13 * 10;
      }
    VP_CHECK(ok, "graph_weighted_average", "%d nodes width %d", na, w);
  }
  // injective graph map
  {
    auto pm = gen_perm(r, f.back());
    int tot = f.back() + int(r.below(4));
    T init = big<T>(r);
    vector<T> want(size_t(tot * w), init);
    for (int a = 0; a < na; ++a) for (LO j = f[size_t(a)]; j < f[size_t(a) + 1]; ++j) for (int c = 0; c < w; ++c) want[size_t(pm[size_t(j)] * w + c)] = ad[size_t(a * w + c)];
    same("map_onto-graph", osh::map_onto(dev(ad), osh::Graph(dev(f), dev(pm)), tot, init, w), want);
  }
}
static void reduces(Rng& r) {
  int n = gen_size(r);
  auto v = gen<I64>(r, n, 1);
  auto V = dev(v);
  int64_t s = 0;
  for (auto x : v) s += x;
  auto got = osh::transform_reduce(osh::IntIterator(0), osh::IntIterator(n), I64(5), osh::plus<I64>(), [=](LO i) -> I64 { return V[i]; });
  VP_CHECK(got == s + 5, "transform_reduce", "n %d", n);
}

// ------------------------------------------------------------ Hilbert
// own formulation: state machine free, by recursive reflection (Butz/Hamilton)
static vector<uint64_t> axes_of(vector<uint64_t> transposed, int b, int n) {
  auto X = transposed;
  osh::hilbert::TransposetoAxes(X.data(), b, n);
  return X;
}
static void hilbert_curve(Rng& r) {
  int n = int(r.range(1, 3)), b = int(r.range(1, n == 1 ? 10 : n == 2 ? 5 : 3));
  // walk the whole curve
  uint64_t N = 1ull << (b * n);
  vector<uint64_t> prev;
  std::set<vector<uint64_t>> seen;
  for (uint64_t h = 0; h < N; ++h) {
    // transpose of the Hilbert integer
    vector<uint64_t> t(size_t(n), 0);
    for (int bit = 0; bit < b * n; ++bit) {
      uint64_t v = (h >> (b * n - 1 - bit)) & 1;
      t[size_t(bit % n)] |= v << (b - 1 - bit / n);
    }
    auto x = axes_of(t, b, n);
    for (auto c : x) if (c >> b) { viol("hilbert-range", fmt("dim %d bits %d", n, b)); return; }
    if (!seen.insert(x).second) { viol("hilbert-bijective", fmt("dim %d bits %d: cell visited twice", n, b)); return; }
    if (!prev.empty()) {
      uint64_t d = 0;
      for (int c = 0; c < n; ++c) d += prev[size_t(c)] > x[size_t(c)] ? prev[size_t(c)] - x[size_t(c)] : x[size_t(c)] - prev[size_t(c)];
      if (d != 1) { viol("hilbert-adjacent", fmt("dim %d bits %d: step of length %llu", n, b, (unsigned long long)d)); return; }
    }
    prev = x;
    auto y = x;
    osh::hilbert::AxestoTranspose(y.data(), b, n);
    if (y != t) { viol("hilbert-inverse", fmt("dim %d bits %d: axes to transpose is not the inverse", n, b)); return; }
    uint64_t o[3];
    osh::hilbert::untranspose(y.data(), o, b, n);
    uint64_t back = 0;
    for (int c = 0; c < n; ++c) back = back << b | o[c];
    if (back != h) { viol("hilbert-untranspose", fmt("dim %d bits %d", n, b)); return; }
  }
  count("checks");
  count("hilbert_cells", int64_t(N));
  // large bits: inverse on random cells
  for (int k = 0; k < 20; ++k) {
    int bb = int(r.range(10, 60));
    vector<uint64_t> x;
    for (int c = 0; c < n; ++c) x.push_back(r.u64() >> (64 - bb));
    auto y = x;
    osh::hilbert::AxestoTranspose(y.data(), bb, n);
    VP_CHECK(axes_of(y, bb, n) == x, "hilbert-inverse", "dim %d bits %d", n, bb);
  }
  // a grid of points sorts along the curve: neighbours in order are neighbours in space
  int side = 1 << int(r.range(1, n == 1 ? 6 : n == 2 ? 4 : 2));
  vector<vector<int>> cells;
  vector<int> c(size_t(n), 0);
  while (true) {
    cells.push_back(c);
    int k = 0;
    while (k < n && ++c[size_t(k)] == side) c[size_t(k++)] = 0;
    if (k == n) break;
  }
  r.shuffle(cells);
  double h = r.pick(vector<double>{1.0, 0.25, 1e6, 1e-6}), x0 = r.pick(vector<double>{0.0, -3.0, 100.0}) * h;
  vector<Real> co;
  for (auto& cc : cells) for (int v : cc) co.push_back(x0 + h * v);
  auto perm = host(osh::hilbert::sort_coords(dev(co), n));
  std::set<LO> ps(perm.begin(), perm.end());
  if (ps.size() != cells.size() || perm.size() != cells.size() || *ps.begin() != 0 || *ps.rbegin() != LO(cells.size()) - 1) { viol("sort_coords-permutation", fmt("%zu points", cells.size())); return; }
  for (size_t i = 1; i < perm.size(); ++i) {
    int d = 0;
    for (int k = 0; k < n; ++k) d += std::abs(cells[size_t(perm[i])][size_t(k)] - cells[size_t(perm[i - 1])][size_t(k)]);
    if (d != 1) { viol("sort_coords-curve", fmt("dim %d side %d: step of %d", n, side, d)); return; }
  }
  // random points: keys computed here
  int m = int(r.range(1, 200));
  vector<Real> q;
  for (int i = 0; i < m * n; ++i) q.push_back(r.real(-5, 7) * h);
  if (r.chance(0.3)) for (int i = 0; i < m; ++i) if (i && r.chance(0.2)) for (int k = 0; k < n; ++k) q[size_t(i * n + k)] = q[size_t((i - 1) * n + k)];
  double lo[3], ext = 0;
  for (int k = 0; k < n; ++k) {
    double a = 1e300, z = -1e300;
    for (int i = 0; i < m; ++i) { a = std::min(a, q[size_t(i * n + k)]); z = std::max(z, q[size_t(i * n + k)]); }
    lo[k] = a;
    ext = std::max(ext, z - a);
  }
  if (ext == 0) return;
  vector<vector<uint64_t>> key;
  bool clear = true;  // rounding of the affine map cannot move a point across a coarse cell
  const int B = 20;
  for (int i = 0; i < m; ++i) {
    vector<uint64_t> x;
    for (int k = 0; k < n; ++k) {
      double u = (q[size_t(i * n + k)] - lo[k]) / ext * std::exp2(B);
      double fl = std::floor(u);
      if (fl >= std::exp2(B)) fl = std::exp2(B) - 1;
      else if (u != 0 && std::abs(u - std::round(u)) < 1e-7) clear = false;
      x.push_back(uint64_t(fl));
    }
    osh::hilbert::AxestoTranspose(x.data(), B, n);
    vector<uint64_t> o(static_cast<size_t>(n));
    osh::hilbert::untranspose(x.data(), o.data(), B, n);
    key.push_back(o);
  }
  auto p2 = host(osh::hilbert::sort_coords(dev(q), n));
  std::set<LO> ps2(p2.begin(), p2.end());
  if (int(ps2.size()) != m || int(p2.size()) != m) { viol("sort_coords-permutation", fmt("%d points", m)); return; }
  for (size_t i = 1; clear && i < p2.size(); ++i)
    if (key[size_t(p2[i])] < key[size_t(p2[i - 1])]) { viol("sort_coords-order", fmt("dim %d: point %d comes after %d", n, p2[i], p2[i - 1])); return; }
  count("checks");
}

// ------------------------------------------------------------ marks on meshes
static void mesh_marks(Rng& r) {
  bool hyper = r.chance(0.3);
  Mesh mesh(g_lib);
  auto comm = g_lib->world();
  Rng mr(r.u64());
  if (comm->rank() == 0) {
    if (hyper) {
      auto s = gen_hyper(mr, int(mr.range(1, 3)), 3);
      osh::build_from_elems_and_coords(&mesh, OMEGA_H_HYPERCUBE, s.dim, dev(conv<LO>(s.ev)), dev(s.x));
    } else {
      GenOpts o;
      auto s = gen_soup(mr, o);
      mesh = build_serial(g_lib->self(), s);
    }
    for (int d = 0; d <= mesh.dim(); ++d) {
      vector<I8> cd; vector<I32> ci;
      for (int i = 0; i < mesh.nents(d); ++i) { cd.push_back(I8(mr.range(d, mesh.dim()))); ci.push_back(I32(mr.range(-2, 3))); }
      for (auto nm : {"class_dim", "class_id"}) if (mesh.has_tag(d, nm)) mesh.remove_tag(d, nm);
      mesh.add_tag<I8>(d, "class_dim", 1, dev(cd));
      mesh.add_tag<I32>(d, "class_id", 1, dev(ci));
    }
  }
  mesh.set_comm(comm);
  if (comm->size() > 1) {
    scatter(mesh, r, int(r.below(4)));
    int how = int(r.below(3));
    if (how == 1) mesh.set_parting(OMEGA_H_GHOSTED, int(r.range(1, 2)), false);
    if (how == 2) mesh.set_parting(OMEGA_H_VERT_BASED);
  }
  auto w = dump_world(&mesh);
  auto g = assemble(w);
  int dim = g.dim;
  auto& me = w[size_t(comm->rank())];
  uint64_t salt = r.u64();
  double p = r.pick(vector<double>{0.02, 0.2, 0.6, 1.0});
  auto marked = [&](int d, GO x) { return Rng(salt + uint64_t(d) * 77 + uint64_t(x) * 131).chance(p); };
  auto local = [&](int d) { vector<I8> m; for (GO x : me.e[d].glob) m.push_back(marked(d, x)); return m; };
  auto hmarks = local(dim);
  // closure: low entity -> containing high entities, by vertex sets
  std::map<GO, vector<GO>> v2h[4];
  for (int d = 1; d <= dim; ++d) for (auto& kv : g.e[d]) for (GO v : kv.second.v) v2h[d][v].push_back(kv.first);
  auto around = [&](int l, GO x, int h) {
    vector<GO> res;
    if (l == 0) return v2h[h][x];
    auto& lv = g.e[l].at(x).v;
    for (GO y : v2h[h][lv[0]]) {
      auto& hv = g.e[h].at(y).v;
      bool all = true;
      for (GO v : lv) all = all && std::find(hv.begin(), hv.end(), v) != hv.end();
      if (all) res.push_back(y);
    }
    return res;
  };
  for (int h = 1; h <= dim; ++h)
    for (int l = 0; l < h; ++l) {
      auto hm = local(h), lm = local(l);
      auto down = host(osh::mark_down(&mesh, h, l, dev(hm)));
      bool ok = down.size() == me.e[l].glob.size();
      for (size_t i = 0; ok && i < down.size(); ++i) {
        bool want = false;
        for (GO y : around(l, me.e[l].glob[i], h)) want = want || marked(h, y);
        ok = (down[i] != 0) == want;
      }
      VP_CHECK(ok, "mark_down", "%d to %d on %d ranks, parting %d", h, l, comm->size(), int(mesh.parting()));
      auto up = host(osh::mark_up(&mesh, l, h, dev(lm))), all = host(osh::mark_up_all(&mesh, l, h, dev(lm)));
      std::map<GO, std::pair<bool, bool>> want;
      for (auto& kv : g.e[h]) want[kv.first] = {false, true};
      for (auto& kv : g.e[l]) {
        bool m = marked(l, kv.first);
        for (GO y : around(l, kv.first, h)) { auto& t = want[y]; t.first = t.first || m; t.second = t.second && m; }
      }
      ok = up.size() == me.e[h].glob.size() && all.size() == up.size();
      for (size_t i = 0; ok && i < up.size(); ++i) { auto t = want[me.e[h].glob[i]]; ok = (up[i] != 0) == t.first && (all[i] != 0) == t.second; }
      VP_CHECK(ok, "mark_up", "%d to %d", l, h);
      VP_CHECK(host(osh::mark_adj(&mesh, h, l, dev(hm))) == down && host(osh::mark_adj(&mesh, l, h, dev(lm))) == up && host(osh::mark_adj(&mesh, l, l, dev(lm))) == lm, "mark_adj", "between %d and %d", l, h);
    }
  // classification marks
  auto cls = [&](int d) { return std::make_pair(host(mesh.get_array<I8>(d, "class_dim")), host(mesh.get_array<I32>(d, "class_id"))); };
  for (int d = 0; d <= dim; ++d) {
    int cd = int(r.range(d, dim)), ci = int(r.range(-2, 3));
    auto c = cls(d);
    vector<I8> a, b;
    for (size_t i = 0; i < c.first.size(); ++i) { a.push_back(c.first[i] == cd); b.push_back(c.first[i] == cd && c.second[i] == ci); }
    same("mark_by_class_dim", osh::mark_by_class_dim(&mesh, d, cd), a);
    same("mark_by_class", osh::mark_by_class(&mesh, d, cd, ci), b);
    // closures of sets of model entities
    vector<osh::ClassPair> pairs;
    int np = int(r.range(0, 4));
    for (int k = 0; k < np; ++k) pairs.push_back({I8(r.range(d, dim)), I32(r.range(-2, 3))});
    std::set<std::pair<int, int>> ps;
    for (auto& q : pairs) ps.insert({q.dim, q.id});
    // global classification of each entity
    std::map<GO, std::pair<int, int>> gc[4];
    for (int e = 0; e <= dim; ++e) {
      auto cc = cls(e);
      string s;
      for (size_t i = 0; i < cc.first.size(); ++i) s += fmt("%lld %d %d\n", (long long)me.e[e].glob[i], int(cc.first[i]), int(cc.second[i]));
      for (auto& t : allgather_str(comm->get_impl(), s)) { std::istringstream is(t); long long x; int y, z; while (is >> x >> y >> z) gc[e][x] = {y, z}; }
    }
    auto got = host(osh::mark_class_closures(&mesh, d, pairs));
    bool ok = got.size() == me.e[d].glob.size();
    for (size_t i = 0; ok && i < got.size(); ++i) {
      bool want = false;
      GO x = me.e[d].glob[i];
      for (int e = d; e <= dim; ++e) {
        auto hit = [&](GO y) { auto q = gc[e][y]; return q.first == e && ps.count({e, q.second}); };
        if (e == d) want = want || hit(x);
        else for (GO y : around(d, x, e)) want = want || hit(y);
      }
      ok = (got[i] != 0) == want;
    }
    VP_CHECK(ok, "mark_class_closures", "entities of dim %d, %d model entities", d, np);
    // the same set of model entities by name, over two names
    mesh.class_sets["a"] = {}; mesh.class_sets["b"] = {};
    for (size_t k = 0; k < pairs.size(); ++k) { if (k % 3 != 1) mesh.class_sets["a"].push_back(pairs[k]); if (k % 3 != 0) mesh.class_sets["b"].push_back(pairs[k]); }
    vector<LO> on;
    for (size_t i = 0; i < got.size(); ++i) if (got[i]) on.push_back(LO(i));
    same("ents_on_closure", osh::ents_on_closure(&mesh, {"a", "b"}, d), on);
    // and for nodes which sit on the entities of this dimension; only what this rank holds counts
    osh::Graph n2e[4];
    for (int e = d; e <= dim; ++e) n2e[e] = mesh.ask_graph(d, e);
    vector<I8> lm2(me.e[d].glob.size());
    bool lower = false;
    for (auto& q : pairs) lower = lower || q.dim < d;
    for (int e = d; e <= dim && !lower; ++e) {
      auto cc = cls(e);
      auto a = host(n2e[e].a2ab), ab = host(n2e[e].ab2b);
      for (size_t i = 0; i < lm2.size(); ++i) for (LO j = a[i]; j < a[i + 1]; ++j) { size_t y = size_t(ab[size_t(j)]); lm2[i] = lm2[i] || (cc.first[y] == e && ps.count({e, cc.second[y]})); }
    }
    if (!lower) {
      on.clear();
      for (size_t i = 0; i < lm2.size(); ++i) if (lm2[i]) on.push_back(LO(i));
      same("nodes_on_closure", osh::nodes_on_closure(&mesh, {"b", "a"}, n2e), on);
      vector<osh::ClassId> ids;
      for (auto& q : pairs) if (q.dim == dim) ids.push_back(q.id);
      r.shuffle(ids);
      auto one = host(osh::mark_class_closures(&mesh, dim, ids, n2e[dim]));
      auto cc = cls(dim);
      auto a = host(n2e[dim].a2ab), ab = host(n2e[dim].ab2b);
      bool ok2 = one.size() == lm2.size();
      for (size_t i = 0; ok2 && i < one.size(); ++i) { bool want = false; for (LO j = a[i]; j < a[i + 1]; ++j) { size_t y = size_t(ab[size_t(j)]); want = want || (cc.first[y] == dim && ps.count({dim, cc.second[y]})); } ok2 = (one[i] != 0) == want; }
      VP_CHECK(ok2, "mark_class_closures", "nodes on dim %d, closures of dim %d", d, dim);
    }
    auto one = host(osh::mark_class_closure(&mesh, d, cd, ci));
    for (size_t i = 0; ok && i < one.size(); ++i) {
      bool want = false;
      GO x = me.e[d].glob[i];
      auto hit = [&](GO y) { return gc[cd][y] == std::make_pair(cd, ci); };
      if (cd == d) want = hit(x);
      else for (GO y : around(d, x, cd)) want = want || hit(y);
      ok = (one[i] != 0) == want;
    }
    VP_CHECK(ok, "mark_class_closure", "entities of dim %d, model entity %d:%d", d, cd, ci);
  }
  // owned counts
  for (int d = 0; d <= dim; ++d) {
    GO want = 0;
    for (auto& kv : g.e[d]) want += marked(d, kv.first);
    VP_CHECK(osh::count_owned_marks(&mesh, d, dev(local(d))) == want, "count_owned_marks", "dim %d", d);
    vector<I8> mo;
    int q = int(r.below(comm->size()));
    for (auto o : me.e[d].orank) mo.push_back(o == q);
  }
  if (comm->size() == 1) {
    auto ex = host(osh::mark_exposed_sides(&mesh));
    bool ok = ex.size() == g.e[dim - 1].size();
    for (size_t i = 0; ok && i < ex.size(); ++i) ok = (ex[i] != 0) == (around(dim - 1, me.e[dim - 1].glob[i], dim).size() < 2);
    VP_CHECK(ok, "mark_exposed_sides", "");
  }
  count("meshes_marked");
}
static void case_array(Rng& r, int64_t) {
  auto t = r.below(4);
  if (t == 0) arith<I8>(r);
  if (t == 1) arith<I32>(r);
  if (t == 2) arith<I64>(r);
  if (t == 3) arith<Real>(r);
  logic(r);
  scans(r);
  sorts<I32>(r);
  sorts<I64>(r);
  small_range(r);
  t = r.below(4);
  if (t == 0) { maps<I8>(r); fans<I8>(r); }
  if (t == 1) { maps<I32>(r); fans<I32>(r); }
  if (t == 2) { maps<I64>(r); fans<I64>(r); }
  if (t == 3) { maps<Real>(r); fans<Real>(r); }
  reduces(r);
  hilbert_curve(r);
  nontrivial(r.u64());
  if (ctx().cur < 6) sample("every primitive on arrays of random size, type and content");
}
static void case_marks(Rng& r, int64_t) {
  mesh_marks(r);
  nontrivial(r.u64());
}

// ------------------------------------------------------------ sums
// exact sums in 2^-1074 units with 2200+64 bit integers
struct Exact {
  // two's complement little endian limbs of 32 bits in int64
  vector<int64_t> limb = vector<int64_t>(72, 0);
  void add(double x) {
    if (x == 0) return;
    int e;
    double f = std::frexp(std::abs(x), &e);
    auto m = uint64_t(std::ldexp(f, 53));  // |x| = m 2^(e-53)
    int sh = e - 53 + 1074;
    if (sh < 0) { m >>= -sh; sh = 0; }  // exact: denormals have trailing zeros
    int l = sh / 32, o = sh % 32;
    unsigned __int128 v = static_cast<unsigned __int128>(m) << o;
    int64_t sg = x < 0 ? -1 : 1;
    for (int k = 0; k < 4; ++k) limb[size_t(l + k)] += sg * int64_t(uint64_t(v >> (32 * k)) & 0xffffffffu);
    if (++n % 1000000 == 0) norm();
  }
  int64_t n = 0;
  void norm() {
    for (size_t i = 0; i + 1 < limb.size(); ++i) {
      int64_t c = limb[i] >> 32;
      limb[i] -= c * (int64_t(1) << 32);
      limb[i + 1] += c;
    }
  }
  long double value() {
    norm();
    auto t = limb;
    bool neg = t.back() < 0;
    if (neg) { Exact u; for (size_t i = 0; i < t.size(); ++i) u.limb[i] = -t[i]; u.norm(); t = u.limb; }
    long double s = 0;
    for (size_t i = t.size(); i-- > 0;) s += std::ldexp(static_cast<long double>(t[i]), int(i) * 32 - 1074);
    return neg ? -s : s;
  }
};
static vector<double> gen_sum(Rng& r, int n, string& desc) {
  int style = int(r.below(9));
  vector<double> v;
  for (int i = 0; i < n; ++i) {
    double x;
    switch (style) {
      case 0: x = r.real(-1, 1); break;
      case 1: x = std::ldexp(r.real(-1, 1), int(r.range(-60, 60))); break;
      case 2: x = std::ldexp(r.real(-1, 1), int(r.range(-1000, 900))); break;
      case 3: x = r.real(0, 1) * 1e-300 ; break;
      case 4: x = (i % 2 ? -1 : 1) * std::ldexp(1.0 + 1e-10 * double(i / 2), 40); break;  // cancels
      case 5: x = double(r.range(-1000, 1000)); break;
      case 6: x = std::ldexp(r.real(-1, 1), int(r.range(-1074, -1000))); break;  // denormal
      case 7: x = std::ldexp(r.real(-1, 1), int(r.range(-1074, -1030))); break;  // denormal only
      default: x = r.real(0.9, 1.1); break;
    }
    if (r.chance(0.05)) x = r.chance(0.5) ? 0.0 : -0.0;
    v.push_back(x);
  }
  if (style == 4 && r.chance(0.5) && n) v[0] += 1e-3;
  desc = fmt("%d values style %d", n, style);
  return v;
}
static void case_sum(Rng& r, int64_t) {
  auto comm = g_lib->world();
  int P = comm->size(), me = comm->rank();
  string desc;
  int n = r.chance(0.2) ? int(r.range(0, 3)) : r.chance(0.5) ? int(r.range(0, 60)) : int(r.range(0, 5000));
  auto v = gen_sum(r, n, desc);
  Exact ex;
  double mx = 0;
  for (double x : v) { ex.add(x); mx = std::max(mx, std::abs(x)); }
  long double want = ex.value();
  auto ref = osh::repro_sum(osh::Reals(dev(v)));
  int e = 0;
  if (mx > 0) std::frexp(mx, &e);
  long double unit = std::ldexp(1.0L, e - 52);
  long double bound = unit * n + std::abs(want) * 0x1p-52L;
  if (std::abs(want) < 0x1p-1021L) bound += 0x1p-1074L;
  VP_CHECK(std::abs(static_cast<long double>(ref) - want) <= bound, "repro-sum-accuracy", "%s: %.17g, the exact sum is %.17Lg, bound %Lg", desc.c_str(), ref, want, bound);
  if (!(std::abs(want) <= bound)) VP_CHECK((ref < 0) == (want < 0), "repro-sum-sign", "%s", desc.c_str());
  for (int k = 0; k < 3; ++k) {
    auto u = v;
    r.shuffle(u);
    VP_CHECK(biteq(osh::repro_sum(osh::Reals(dev(u))), ref), "repro-sum-order", "%s: the sum depends on the order", desc.c_str());
    // distribute
    int style = int(r.below(4));
    vector<vector<double>> part(static_cast<size_t>(P));
    for (double x : u) {
      int q = style == 0 ? int(r.below(P)) : style == 1 ? 0 : style == 2 ? P - 1 : int(r.below((P + 1) / 2)) * 2 % P;
      part[size_t(q)].push_back(x);
    }
    auto got = osh::repro_sum(comm, osh::Reals(dev(part[size_t(me)])));
    VP_CHECK(biteq(got, ref), "repro-sum-distribution", "%s over %d ranks: %.17g, serial %.17g", desc.c_str(), P, got, ref);
    // components
    int w = int(r.range(1, 4));
    vector<vector<double>> comp;
    vector<double> sum;
    int m = int(u.size()) / w;
    for (int c = 0; c < w; ++c) { comp.emplace_back(); for (int i = 0; i < m; ++i) comp.back().push_back(u[size_t(i * w + c)]); sum.push_back(osh::repro_sum(osh::Reals(dev(comp.back())))); }
    vector<double> mine;
    for (int i = 0; i < m; ++i) if (int(mix64(uint64_t(i) + uint64_t(k)) % uint64_t(P)) == me) for (int c = 0; c < w; ++c) mine.push_back(u[size_t(i * w + c)]);
    double res[4];
    osh::repro_sum(comm, osh::Reals(dev(mine)), w, res);
    for (int c = 0; c < w; ++c) VP_CHECK(biteq(res[c], sum[size_t(c)]), "repro-sum-component", "%s component %d of %d", desc.c_str(), c, w);
  }
  // Int128 algebra against the compiler's
  for (int k = 0; k < 40; ++k) {
    auto rnd = [&]() { uint64_t h = r.u64() >> r.below(64), l = r.u64() >> r.below(64); if (r.chance(0.4)) h = r.chance(0.5) ? 0 : ~0ull; if (r.chance(0.2)) l = r.chance(0.5) ? 0 : ~0ull; h = uint64_t(int64_t(h) >> 2); return osh::Int128(int64_t(h), l); };
    auto a = rnd(), b = rnd();
    auto wide = [](osh::Int128 x) { return static_cast<__int128>((static_cast<unsigned __int128>(uint64_t(x.high)) << 64) | x.low); };
    auto A = wide(a), B = wide(b);
    VP_CHECK(wide(a + b) == A + B, "int128-add", "%s + %s", a.to_string().c_str(), b.to_string().c_str());
    VP_CHECK(wide(a - b) == A - B, "int128-subtract", "%s - %s", a.to_string().c_str(), b.to_string().c_str());
    VP_CHECK(wide(-a) == -A, "int128-negate", "%s", a.to_string().c_str());
    VP_CHECK((a < b) == (A < B) && (a == b) == (A == B), "int128-compare", "%s %s", a.to_string().c_str(), b.to_string().c_str());
    int s = int(r.range(1, 63));
    VP_CHECK(wide(a >> s) == (A >> s), "int128-shift", "%s by %d", a.to_string().c_str(), s);
    auto q = int64_t(r.u64());
    VP_CHECK(wide(osh::Int128(q)) == static_cast<__int128>(q), "int128-from-int", "%lld", (long long)q);
    double u = std::ldexp(1.0, int(r.range(-100, 100)));
    long double d = static_cast<long double>(A) * u;
    VP_CHECK(std::abs(a.to_double(u) - d) <= std::abs(d) * 0x1p-51L, "int128-to-double", "%s unit %g", a.to_string().c_str(), u);
  }
  {
    // contributions of every rank to an exact sum
    __int128 want = 0;
    osh::Int128 mine(0);
    for (int q = 0; q < P; ++q) {
      uint64_t h = uint64_t(int64_t(r.u64()) >> 6), l = r.u64();
      if (q == me) mine = osh::Int128(int64_t(h), l);
      want += static_cast<__int128>((static_cast<unsigned __int128>(h) << 64) | l);
    }
    auto g = comm->add_int128(mine);
    VP_CHECK(static_cast<__int128>((static_cast<unsigned __int128>(uint64_t(g.high)) << 64) | g.low) == want, "add-int128", "%d ranks", P);
  }
  // other collectives
  auto each = [&](auto zero) {
    using T = decltype(zero);
    vector<vector<T>> part(static_cast<size_t>(P));
    for (auto& p : part) p = gen<T>(r, r.chance(0.3) ? 0 : int(r.range(0, 30)), 1);
    vector<T> all;
    for (auto& p : part) all.insert(all.end(), p.begin(), p.end());
    auto M = dev(part[size_t(me)]);
    double s = 0;
    for (T x : all) s += double(x);
    VP_CHECK(double(osh::get_sum(comm, M)) == s, "collective-sum", "%s: %g expected %g", tn<T>(), double(osh::get_sum(comm, M)), s);
    T mn = std::numeric_limits<T>::max(), mxx = std::numeric_limits<T>::lowest();
    for (T x : all) { mn = std::min(mn, x); mxx = std::max(mxx, x); }
    VP_CHECK(osh::get_min(comm, M) == mn, "collective-min", "%s", tn<T>());
    VP_CHECK(osh::get_max(comm, M) == mxx, "collective-max", "%s", tn<T>());
    auto mm = osh::get_minmax(comm, M);
    VP_CHECK(mm.min == mn && mm.max == mxx, "collective-minmax", "%s", tn<T>());
    vector<T> x;
    for (int q = 0; q < P; ++q) x.push_back(T(r.range(-10, 10)));
    T mine = x[size_t(me)];
    VP_CHECK(comm->allreduce(mine, OMEGA_H_MIN) == *std::min_element(x.begin(), x.end()) && comm->allreduce(mine, OMEGA_H_MAX) == *std::max_element(x.begin(), x.end()), "allreduce", "%s", tn<T>());
    T sum = 0, pre = 0;
    for (int q = 0; q < P; ++q) { if (q < me) pre = T(pre + x[size_t(q)]); sum = T(sum + x[size_t(q)]); }
    VP_CHECK(comm->allreduce(mine, OMEGA_H_SUM) == sum, "allreduce-sum", "%s", tn<T>());
    VP_CHECK(comm->exscan(mine, OMEGA_H_SUM) == pre, "exscan", "%s rank %d", tn<T>(), me);
  };
  each(I8()); each(I32()); each(I64()); each(Real());
  bool any = false, every = true, own = false;
  for (int q = 0; q < P; ++q) { bool b = r.chance(q % 2 ? 0.8 : 0.2); any = any || b; every = every && b; if (q == me) own = b; }
  VP_CHECK(comm->reduce_or(own) == any && comm->reduce_and(own) == every, "reduce-logical", "");
  if (n > 1) { Hash h; for (double x : v) h.num(x); nontrivial(h.get()); }
  sample(desc);
}

int main(int argc, char** argv) {
  parse_args(argc, argv);
  LibArgs la(argc, argv);
  Library lib(&la.argc, &la.argv);
  g_lib = &lib;
  ctx().rank = lib.world()->rank();
  ctx().size = lib.world()->size();
  auto m = ctx().mode;
  if (m == "array") return run_cases(case_array);
  if (m == "marks") return run_cases(case_marks);
  if (m == "sum") return run_cases(case_sum);
  return 2;
}
