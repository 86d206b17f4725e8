// A01-A06: adaptation observed pass by pass and at the end.
// --vp-mode = valid | geom | quality | fields | conserve | same
#include "vpmetric.hpp"
#include "vpsched.hpp"
#include <Omega_h_adapt.hpp>
#include <Omega_h_conserve.hpp>
#include <Omega_h_metric.hpp>
#include <Omega_h_shape.hpp>
#include <Omega_h_quality.hpp>
#include <mpi.h>
using namespace vp;
using Omega_h::AdaptOpts;
typedef std::array<double, 3> P3;

static bool M_valid, M_geom, M_qual, M_field, M_cons, M_same, M_sched;

// ------------------------------------------------------------------ scenario
struct Scen {
  Soup s;
  Model m;
  int mnc = 1;                 // metric components
  vector<double> metric, target;
  string mdesc;
  AdaptOpts opts{2};
  int driver = 0;              // 0: adapt, 1: approach_metric loop, 2: warp, 3: fix, 4: grade, fix and approach, 5: correct planted integral errors
  vector<double> warp;
  double err_amp = 0, err_mean = 0, err_tol = -1;
  // fields
  double aff[3][4] = {};
  uint64_t fseed = 0;
  bool curved = false, fields = false, conserve = false, velocity = false, fixedv = false, repair = false;
  int cons_kind = 0;
  bool monitor = true;
};
struct Tables {  // geometry of the model, from the input soup
  struct C { double meas = 0; vector<P3> base; };
  std::map<std::pair<int, int>, C> cls;
  std::set<std::array<int, 4>> pairs;  // (low dim,id, high dim,id)
  double scale = 1;
};

static double avg_len(Soup const& s) {
  double t = 0; int n = 0;
  for (int e = 0; e < s.ne(); ++e)
    for (int i = 0; i <= s.dim; ++i) for (int j = i + 1; j <= s.dim; ++j) {
      double l = 0;
      for (int k = 0; k < s.dim; ++k) { double d = s.x[size_t(s.ev[size_t(e * (s.dim + 1) + i)] * s.dim + k)] - s.x[size_t(s.ev[size_t(e * (s.dim + 1) + j)] * s.dim + k)]; l += d * d; }
      t += std::sqrt(l); ++n;
    }
  return t / n;
}
static void rand_rot(Rng& r, int dim, double q[3][3]) {
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) q[i][j] = i == j;
  for (int a = 0; a < dim; ++a) for (int b = a + 1; b < dim; ++b) {
    double t = r.real(0, 6.3), c = std::cos(t), sn = std::sin(t);
    for (int k = 0; k < dim; ++k) { double x = q[k][a], y = q[k][b]; q[k][a] = c * x - sn * y; q[k][b] = sn * x + c * y; }
  }
}
static Sym sym_from_h(int dim, double q[3][3], double const* h) {
  Sym s; s.n = dim;
  for (int i = 0; i < dim; ++i) for (int j = 0; j < dim; ++j) { s.a[i][j] = 0; for (int k = 0; k < dim; ++k) s.a[i][j] += q[i][k] * q[j][k] / (h[k] * h[k]); }
  return s;
}
static vector<double> gen_metric(Rng& r, Soup const& s, int& nc, string& desc, double hlo, double hhi) {
  int dim = s.dim, nv = s.nv();
  double L = avg_len(s);
  vector<double> out;
  int kind = int(r.below(dim == 1 ? 3 : 6));
  bool iso1 = kind < 3 && (dim == 1 || r.chance(0.6));
  nc = iso1 ? 1 : dim * (dim + 1) / 2;
  if (dim == 1) nc = 1;
  double lo[3] = {1e300, 1e300, 1e300}, hi[3] = {-1e300, -1e300, -1e300};
  for (int v = 0; v < nv; ++v) for (int k = 0; k < dim; ++k) { lo[k] = std::min(lo[k], s.x[size_t(v * dim + k)]); hi[k] = std::max(hi[k], s.x[size_t(v * dim + k)]); }
  double h0 = L * std::exp(r.real(std::log(hlo), std::log(hhi))), h1 = L * std::exp(r.real(std::log(hlo), std::log(hhi)));
  double cen = r.real(), width = r.real(0.1, 0.5), ratio = r.real(1, 4);
  int ax = int(r.below(dim));
  double q[3][3];
  rand_rot(r, dim, q);
  uint64_t salt = r.u64();
  double a0 = r.real(0, 6.3), a1 = r.real(0, 3);
  for (int v = 0; v < nv; ++v) {
    double t = (s.x[size_t(v * dim + ax)] - lo[ax]) / (hi[ax] - lo[ax] + 1e-300);
    double h[3] = {h0, h0, h0};
    double qq[3][3];
    std::memcpy(qq, q, sizeof q);
    if (kind == 1) h[0] = h[1] = h[2] = h0 + (h1 - h0) * t;
    if (kind == 2) { double sh = h0 + (std::max(h0, h1) * 1.5 - h0) * std::min(1.0, std::fabs(t - cen) / width); h[0] = h[1] = h[2] = sh; }
    if (kind == 3 || kind == 4) { h[0] = std::max(h0 / std::sqrt(ratio), L * hlo); h[1] = h0 * std::sqrt(ratio); h[2] = dim == 3 ? h[1] : h0; }
    if (kind == 4) {
      double th = a0 + a1 * t, c = std::cos(th), sn = std::sin(th);
      for (int k = 0; k < dim; ++k) { double x = qq[k][0], y = qq[k][1]; qq[k][0] = c * x - sn * y; qq[k][1] = sn * x + c * y; }
    }
    if (kind == 5) {
      Rng lr(salt ^ uint64_t(v));
      rand_rot(lr, dim, qq);
      for (auto& y : h) y = h0 * std::exp(lr.real(0, std::log(2.0)));
    }
    if (nc == 1) out.push_back(1 / (h[0] * h[0]));
    else { Sym m = sym_from_h(dim, qq, h); for (double y : sym_to(m)) out.push_back(y); }
  }
  static char const* names[] = {"uniform", "linear", "shock", "aniso-const", "aniso-rotating", "random-bounded"};
  desc = fmt("%s(nc=%d h0=%.3gL h1=%.3gL ratio=%.2g)", names[kind], nc, h0 / L, h1 / L, ratio);
  return out;
}

static double aff_val(Scen const& c, int comp, double const* x) {
  double v = c.aff[comp][3];
  for (int k = 0; k < c.s.dim; ++k) v += c.aff[comp][k] * x[k];
  return v;
}
static uint64_t ent_hash(Scen const& c, int d, vector<int> k) {
  std::sort(k.begin(), k.end());
  Hash h; h.num(c.fseed); h.num(d);
  for (int v : k) h.num(v);
  return h.get();
}
static double hreal(uint64_t h, double a, double b) { Rng r(h); return r.real(a, b); }

// puts metric and fields on a freshly built serial mesh
static void decorate(Scen const& c, Mesh& m) {
  int dim = c.s.dim;
  vector<double> mt = c.metric;
  m.add_tag<Real>(0, "metric", c.mnc, dev(mt));
  if (c.driver == 1 || c.driver == 4) m.add_tag<Real>(0, "target_metric", c.mnc, dev(c.target));
  if (c.driver == 2) m.add_tag<Real>(0, "warp", dim, dev(c.warp));
  auto verts_of = [&](int d) {
    vector<vector<int>> out;
    if (d == 0) { for (int v = 0; v < m.nverts(); ++v) out.push_back({v}); return out; }
    auto ev = host(m.ask_verts_of(d));
    for (int e = 0; e < m.nents(d); ++e) out.emplace_back(ev.begin() + e * (d + 1), ev.begin() + (e + 1) * (d + 1));
    return out;
  };
  if (c.fields) {
    vector<double> lin, rnd, m2;
    for (int v = 0; v < c.s.nv(); ++v) {
      for (int k = 0; k < 3; ++k) lin.push_back(aff_val(c, k, &c.s.x[size_t(v * dim)]));
      rnd.push_back(hreal(ent_hash(c, 7, {v}), -5, 5));
      rnd.push_back(hreal(ent_hash(c, 8, {v}), 0, 1e6));
    }
    m.add_tag<Real>(0, "lin", 3, dev(lin));
    m.add_tag<Real>(0, "rnd", 2, dev(rnd));
    int mc = dim * (dim + 1) / 2;
    for (int v = 0; v < c.s.nv(); ++v) {
      Rng lr(ent_hash(c, 9, {v}));
      double q[3][3], h[3];
      rand_rot(lr, dim, q);
      for (auto& y : h) y = lr.real(0.2, 3);
      if (lr.chance(0.2)) h[1] = h[0];
      for (double y : sym_to(sym_from_h(dim, q, h))) m2.push_back(y);
    }
    m.add_tag<Real>(0, "m2", mc, dev(m2));
    for (int d = 0; d <= dim; ++d) {
      vector<I8> a; vector<I32> b; vector<I64> e; vector<Real> f;
      for (auto& k : verts_of(d)) {
        uint64_t h = ent_hash(c, d, k);
        a.push_back(I8(h));
        b.push_back(I32(h >> 8)); b.push_back(I32(h >> 20));
        e.push_back(I64(h));
        for (int j = 0; j < 3; ++j) f.push_back(hreal(h + uint64_t(j), -1e3, 1e3));
      }
      m.add_tag<I8>(d, "in8", 1, dev(a));
      m.add_tag<I32>(d, "in32", 2, dev(b));
      m.add_tag<I64>(d, "in64", 1, dev(e));
      m.add_tag<Real>(d, "inf", 3, dev(f));
    }
    vector<Real> pw;
    for (auto& k : verts_of(dim)) { uint64_t h = ent_hash(c, 11, k); pw.push_back(hreal(h, 0, 1)); pw.push_back(hreal(h + 1, 0, 1)); }
    m.add_tag<Real>(dim, "pw", 2, dev(pw));
  }
  if (c.conserve) {
    auto xs = c.s.x;
    auto vs = verts_of(dim);
    vector<Real> rho, en, cst, den;
    auto reg = host(m.get_array<LO>(dim, "class_id"));
    int i = 0;
    for (auto& k : vs) {
      double cx = 0;
      for (int v : k) cx += xs[size_t(v * dim)] / double(k.size());
      uint64_t h = ent_hash(c, 12, k);
      double y;
      if (c.cons_kind == 0) y = 2.5;
      else if (c.cons_kind == 1) y = 1 + 0.3 * std::sin(cx);
      else if (c.cons_kind == 2) y = hreal(h, 0.5, 2);
      else y = reg[size_t(i)] % 2 ? 1.0 : 1e-3;
      rho.push_back(y);
      en.push_back(hreal(h + 1, 1, 3)); en.push_back(hreal(h + 2, 10, 20));
      cst.push_back(3.25);
      den.push_back(hreal(h + 3, -1, 1)); den.push_back(hreal(h + 4, 5, 6));
      ++i;
    }
    m.add_tag<Real>(dim, "rho", 1, dev(rho));
    m.add_tag<Real>(dim, "en", 2, dev(en));
    m.add_tag<Real>(dim, "cst", 1, dev(cst));
    m.add_tag<Real>(dim, "den", 2, dev(den));
    m.add_tag<Real>(dim, "dcst", 1, Reals(m.nelems(), 1.75));
    if (c.velocity) {
      vector<Real> u;
      for (int v = 0; v < c.s.nv(); ++v) for (int k = 0; k < dim; ++k) u.push_back(c.cons_kind % 2 ? hreal(ent_hash(c, 20 + k, {v}), 1, 2) : 1 + 0.2 * k + 0.1 * std::cos(xs[size_t(v * dim)]));
      m.add_tag<Real>(0, "vel", dim, dev(u));
    }
    if (c.velocity && c.fixedv) {
      vector<Omega_h::ClassPair> cp;
      int n = 0;
      for (auto& kv : c.m.cls[dim - 1]) if (kv.second.first == dim - 1 && n++ % 3 == 0) { cp.push_back(Omega_h::ClassPair(dim - 1, kv.second.second)); if (cp.size() > 1) break; }
      Omega_h::fix_momentum_velocity_verts(&m, cp, 0);
      if (dim > 1 && c.fseed % 2) Omega_h::fix_momentum_velocity_verts(&m, {cp[0]}, 1);
    }
    if (c.driver == 5) {
      // integral errors with a small mean on every set of elements between which errors may move
      auto s2e = m.ask_up(dim - 1, dim);
      auto a2ab = host(s2e.a2ab), ab2b = host(s2e.ab2b);
      auto scd = host(m.get_array<I8>(dim - 1, "class_dim"));
      vector<int> root(size_t(m.nelems()));
      for (size_t i = 0; i < root.size(); ++i) root[i] = int(i);
      std::function<int(int)> find = [&](int x) { while (root[size_t(x)] != x) x = root[size_t(x)] = root[size_t(root[size_t(x)])]; return x; };
      for (size_t sd = 0; sd < scd.size(); ++sd) if (scd[sd] == dim && a2ab[sd + 1] - a2ab[sd] == 2) root[size_t(find(ab2b[size_t(a2ab[sd])]))] = find(ab2b[size_t(a2ab[sd]) + 1]);
      vector<I32> comp;
      for (size_t i = 0; i < root.size(); ++i) comp.push_back(find(int(i)));
      m.add_tag<I32>(dim, "comp", 1, dev(comp));
      auto sizes = host(m.ask_sizes());
      auto plant = [&](string const& n, int nc, vector<double> const& dens) {
        vector<Real> err(dens.size());
        for (int k = 0; k < nc; ++k) {
          std::map<int, double> sw, se, mean;
          for (size_t i = 0; i < comp.size(); ++i) {
            double w = sizes[i] * std::fabs(dens[i * size_t(nc) + size_t(k)]);
            double y = w * c.err_amp * hreal(ent_hash(c, 40 + k, vs[i]) + n.size(), -1, 1);
            err[i * size_t(nc) + size_t(k)] = y; sw[comp[i]] += w; se[comp[i]] += y;
          }
          for (size_t i = 0; i < comp.size(); ++i) {
            double w = sizes[i] * std::fabs(dens[i * size_t(nc) + size_t(k)]);
            int q = comp[i];
            err[i * size_t(nc) + size_t(k)] += w * (c.err_mean * hreal(uint64_t(q) * 7919 + c.fseed + n.size(), -1, 1) - se[q] / sw[q]);
          }
        }
        m.add_tag<Real>(dim, n + "_error", nc, dev(err));
      };
      plant("mass", 1, rho); plant("energy", 2, en); plant("cmass", 1, cst);
      if (c.velocity) {
        auto u = host(m.get_array<Real>(0, "vel"));
        vector<double> mo;
        auto ev = host(m.ask_elem_verts());
        for (size_t i = 0; i < comp.size(); ++i) for (int k = 0; k < dim; ++k) {
          double a = 0;
          for (int j = 0; j <= dim; ++j) a += u[size_t(ev[i * size_t(dim + 1) + size_t(j)] * dim + k)] / (dim + 1);
          mo.push_back(a * rho[i]);
        }
        plant("mom", dim, mo);
      }
    }
  }
}

// ------------------------------------------------------------------ snapshots
struct IdSpace {
  std::map<P3, int> id;
  vector<P3> x;
  int get(P3 const& p) { auto r = id.insert({p, int(x.size())}); if (r.second) x.push_back(p); return r.first->second; }
};
struct Snap {
  Global g;
  std::map<vector<int>, GEnt const*> e[4];
  std::set<int> v;
};
static void index_snap(Snap& s, IdSpace& ids) {
  std::map<GO, int> vid;
  for (auto& kv : s.g.x) { int i = ids.get(kv.second); vid[kv.first] = i; s.v.insert(i); }
  for (auto& kv : s.g.e[0]) s.e[0][{vid[kv.first]}] = &kv.second;
  for (int d = 1; d <= s.g.dim; ++d)
    for (auto& kv : s.g.e[d]) {
      vector<int> k;
      for (GO q : kv.second.v) k.push_back(vid[q]);
      std::sort(k.begin(), k.end());
      s.e[d][k] = &kv.second;
    }
}
static bool has(vector<int> const& k, int v) { return std::binary_search(k.begin(), k.end(), v); }
static vector<double> rv(GEnt const& e, string const& n) {
  auto& b = e.tags.at(n);
  vector<double> r(b.size() / 8);
  std::memcpy(r.data(), b.data(), b.size());
  return r;
}
static Sym met(Snap const& s, int v, string const& name) {
  auto r = rv(*s.e[0].at({v}), name);
  return sym_from(s.g.dim, int(r.size()), r.data());
}
static double edge_len(Snap const& s, IdSpace const& ids, vector<int> const& k) {
  return metric_len(s.g.dim, ids.x[size_t(k[0])].data(), ids.x[size_t(k[1])].data(), met(s, k[0], "metric"), met(s, k[1], "metric"));
}
static vector<double> elem_quals(Global const& g, GEnt const& e, string const& name = "metric") {
  vector<double const*> p; vector<Sym> ms;
  for (GO q : e.v) { p.push_back(g.x.at(q).data()); auto r = rv(g.e[0].at(q), name); ms.push_back(sym_from(g.dim, int(r.size()), r.data())); }
  return metric_quals(g.dim, p.data(), ms);
}
static double min_qual(Global const& g) {
  double q = 1e300;
  for (auto& kv : g.e[g.dim]) { auto v = elem_quals(g, kv.second); q = std::min(q, *std::max_element(v.begin(), v.end())); }
  return q;
}
// same, taking the worst value wherever the definition leaves a choice
static double min_qual_low(Global const& g) {
  double q = 1e300;
  for (auto& kv : g.e[g.dim]) { auto v = elem_quals(g, kv.second); q = std::min(q, *std::min_element(v.begin(), v.end())); }
  return q;
}
static double max_len(Global const& g, double* minl = nullptr) {
  double l = 0, mn = 1e300;
  for (auto& kv : g.e[1]) {
    auto a = kv.second.v[0], b = kv.second.v[1];
    auto ra = rv(g.e[0].at(a), "metric"), rb = rv(g.e[0].at(b), "metric");
    double y = metric_len(g.dim, g.x.at(a).data(), g.x.at(b).data(), sym_from(g.dim, int(ra.size()), ra.data()), sym_from(g.dim, int(rb.size()), rb.data()));
    l = std::max(l, y); mn = std::min(mn, y);
  }
  if (minl) *minl = mn;
  return l;
}

// ------------------------------------------------------------------ geometry
static Tables make_tables(Scen const& c) {
  Tables t;
  int dim = c.s.dim;
  double sc = 0;
  for (int v = 1; v < c.s.nv(); ++v) for (int k = 0; k < dim; ++k) sc = std::max(sc, std::fabs(c.s.x[size_t(v * dim + k)] - c.s.x[size_t(k)]));
  t.scale = sc;
  for (int d = 0; d <= dim; ++d)
    for (auto& kv : c.m.cls[d]) {
      if (kv.second.first == d) {
        auto& q = t.cls[kv.second];
        vector<double const*> p;
        vector<P3> pts;
        for (int v : kv.first) { P3 x{{0, 0, 0}}; for (int k = 0; k < dim; ++k) x[size_t(k)] = c.s.x[size_t(v * dim + k)]; pts.push_back(x); }
        for (auto& x : pts) p.push_back(x.data());
        double ms = simplex_measure(dim, d, p.data());
        q.meas += ms;
        vector<double const*> bp;
        for (auto& x : q.base) bp.push_back(x.data());
        if (q.base.empty() || simplex_measure(dim, d, bp.data()) < ms) q.base = pts;
      }
      for (int l = 0; l < d; ++l)
        for (auto& k : subsets(kv.first, l + 1)) { auto w = c.m.cls[l].at(k); t.pairs.insert({{w.first, w.second, kv.second.first, kv.second.second}}); }
    }
  return t;
}
static void check_geom(Global const& g, Tables const& t, string const& where) {
  int dim = g.dim;
  std::map<std::pair<int, int>, double> meas;
  std::map<vector<GO>, GEnt const*> byv[4];
  auto cls = [](GEnt const& e) { return std::make_pair(int(tagval<I8>(e, "class_dim")), int(tagval<LO>(e, "class_id"))); };
  for (int d = 0; d <= dim; ++d)
    for (auto& kv : g.e[d]) {
      auto& e = kv.second;
      if (!e.tags.count("class_dim") || !e.tags.count("class_id")) { viol("class-lost", fmt("%s: dim %d entities lost their classification", where.c_str(), d)); return; }
      auto k = d ? e.v : vector<GO>{kv.first};
      auto c = cls(e);
      if (!t.cls.count(c)) { viol("class-unknown", fmt("%s: dim %d entity classified on (%d,%d), which is not in the model", where.c_str(), d, c.first, c.second)); return; }
      if (c.first < d) { viol("class-low", fmt("%s: dim %d entity classified on model dim %d", where.c_str(), d, c.first)); return; }
      vector<double const*> p;
      for (GO q : k) p.push_back(g.x.at(q).data());
      if (c.first == d) meas[c] += simplex_measure(dim, d, p.data());
      std::sort(k.begin(), k.end());
      byv[d][k] = &e;
      if (d == 0 && c.first < dim) {
        auto& base = t.cls.at(c).base;
        // distance from the model entity's affine hull by Gram-Schmidt
        double r[3] = {}, b[3][3] = {};
        for (int j = 0; j < dim; ++j) r[j] = g.x.at(kv.first)[size_t(j)] - base[0][size_t(j)];
        for (int a = 0; a < c.first; ++a) {
          for (int j = 0; j < dim; ++j) b[a][j] = base[size_t(a + 1)][size_t(j)] - base[0][size_t(j)];
          for (int q = 0; q < a; ++q) { double s = 0; for (int j = 0; j < dim; ++j) s += b[a][j] * b[q][j]; for (int j = 0; j < dim; ++j) b[a][j] -= s * b[q][j]; }
          double n = 0; for (int j = 0; j < dim; ++j) n += b[a][j] * b[a][j];
          n = std::sqrt(n); for (int j = 0; j < dim; ++j) b[a][j] /= n;
          double s = 0; for (int j = 0; j < dim; ++j) s += r[j] * b[a][j];
          for (int j = 0; j < dim; ++j) r[j] -= s * b[a][j];
        }
        double dist = std::sqrt(r[0] * r[0] + r[1] * r[1] + r[2] * r[2]);
        count("boundary_vertices_checked");
        double lim = c.first == 0 ? 0 : 1e-9 * t.scale;
        if (dist > lim) { viol("vertex-off-model", fmt("%s: a vertex classified on model (%d,%d) is %g away from it", where.c_str(), c.first, c.second, dist)); return; }
      }
    }
  for (auto& kv : t.cls) {
    double m = meas.count(kv.first) ? meas[kv.first] : 0;
    if (std::fabs(m - kv.second.meas) > 1e-8 * kv.second.meas) { viol("class-measure", fmt("%s: model entity (%d,%d) measured %.12g and now %.12g", where.c_str(), kv.first.first, kv.first.second, kv.second.meas, m)); return; }
  }
  count("model_entities_checked", int64_t(t.cls.size()));
  std::map<vector<GO>, vector<GEnt const*>> ups;
  for (int d = 1; d <= dim; ++d)
    for (auto& kv : byv[d]) {
      auto c = cls(*kv.second);
      int n = d + 1;
      for (int m = 1; m < (1 << n) - 1; ++m) {
        vector<GO> q;
        for (int i = 0; i < n; ++i) if (m >> i & 1) q.push_back(kv.first[size_t(i)]);
        int l = int(q.size()) - 1;
        auto it = byv[l].find(q);
        if (it == byv[l].end()) { viol("missing-entity", where); return; }
        auto w = cls(*it->second);
        if (w != c && !t.pairs.count({{w.first, w.second, c.first, c.second}})) { viol("class-closure", fmt("%s: a dim %d entity on (%d,%d) bounds a dim %d entity on (%d,%d)", where.c_str(), l, w.first, w.second, d, c.first, c.second)); return; }
        if (d == dim && l == dim - 1) ups[q].push_back(kv.second);
      }
    }
  for (auto& kv : ups) {
    auto w = cls(*byv[dim - 1].at(kv.first));
    bool iface = kv.second.size() == 1 || cls(*kv.second[0]) != cls(*kv.second[1]);
    if (iface != (w.first == dim - 1)) { viol("class-side", fmt("%s: a side with %zu elements is classified on model dim %d", where.c_str(), kv.second.size(), w.first)); return; }
  }
}

// ------------------------------------------------------------------ pass monitor
struct Mon : public Omega_h::UserTransfer {
  Scen* c = nullptr;
  Tables* t = nullptr;
  Topo topo0;
  bool have_topo = false;
  double q_floor = -1;   // smaller of worst input quality and allowed
  int npass[3] = {0, 0, 0};
  int budget = 60;       // passes looked at in detail
  bool phase2 = false;

  void refine(Mesh& o, Mesh& n, LOs, LOs, Omega_h::Int pd, LOs, LOs, LOs, LOs) override { if (pd == o.dim()) pass(0, o, n); }
  void coarsen(Mesh& o, Mesh& n, LOs, Omega_h::Adj, Omega_h::Int pd, LOs, LOs, LOs) override { if (pd == o.dim()) pass(1, o, n); }
  void swap(Mesh& o, Mesh& n, Omega_h::Int pd, LOs, LOs, LOs, LOs, LOs) override { if (pd == o.dim()) pass(2, o, n); }
  void swap_copy_verts(Mesh&, Mesh&) override {}

  void pass(int kind, Mesh& o, Mesh& n) {
    static char const* nm[] = {"refine", "coarsen", "swap"};
    npass[kind]++;
    count(string("passes_") + nm[kind]);
    if (M_qual) {
      bool on = kind == 0 ? c->opts.should_refine : kind == 1 ? (c->opts.should_coarsen || c->opts.should_coarsen_slivers) : c->opts.should_swap;
      VP_CHECK(on, "disabled-op", "a %s pass ran although it is disabled", nm[kind]);
    }
    if (kind == 2) phase2 = true;
    if (!c->monitor || --budget < 0) return;
    string where = fmt("%s pass %d", nm[kind], npass[kind]);
    auto wn = dump_world(&n, true);
    World wo;
    if (M_qual || M_field) wo = dump_world(&o, true);
    if (ctx().rank != 0) return;
    count("passes_checked");
    if (M_valid) {
      check_world(wn, where);
      auto g = assemble(wn);
      Topo tp;
      if (check_simplex(g, where, &tp) && have_topo) VP_CHECK(tp == topo0, "topology", "%s: %s, started with %s", where.c_str(), tp.str().c_str(), topo0.str().c_str());
      count("elements_checked", int64_t(g.e[g.dim].size()));
    }
    if (M_geom) check_geom(assemble(wn), *t, where);
    if (M_qual || M_field) {
      IdSpace ids;
      Snap so, sn;
      so.g = assemble(wo); sn.g = assemble(wn);
      index_snap(so, ids);
      index_snap(sn, ids);
      if (M_qual) check_qual(kind, so, sn, ids, where);
      if (M_field) check_fields(kind, so, sn, ids, where);
    }
  }

  void check_qual(int kind, Snap const& so, Snap const& sn, IdSpace const& ids, string const& where) {
    int dim = so.g.dim;
    double qo = min_qual_low(so.g);
    if (dim > 1) {
      double lim = std::min(qo, c->opts.min_quality_allowed);
      for (auto& kv : sn.e[dim]) {
        if (so.e[dim].count(kv.first)) continue;
        auto q = elem_quals(sn.g, *kv.second);
        double b = *std::max_element(q.begin(), q.end());
        count("new_elements_checked");
        if (b < lim * (1 - 1e-7) - 1e-12) { viol("quality-drop", fmt("%s: new element has quality %.9g, old minimum %.9g, allowed %.9g", where.c_str(), b, qo, c->opts.min_quality_allowed)); break; }
      }
    }
    if (kind == 0) {
      for (auto& kv : so.e[1])
        if (!sn.e[1].count(kv.first)) {
          double l = edge_len(so, ids, kv.first);
          count("refined_edges_checked");
          // every edge that disappears in refinement is a key edge
          if (l < c->opts.max_length_desired * (1 - 1e-7)) { viol("refine-short", fmt("%s: an edge of length %.9g was split, maximum desired is %.9g", where.c_str(), l, c->opts.max_length_desired)); break; }
        }
      return;
    }
    double lim = c->opts.max_length_allowed;
    bool slivers = false;
    if (kind == 1) {
      double mn;
      max_len(so.g, &mn);
      if (!c->opts.should_coarsen_slivers || (!phase2 && min_qual_low(so.g) >= c->opts.min_quality_desired * (1 + 1e-7))) lim = c->opts.max_length_desired;
      else if (!c->opts.should_coarsen || mn >= c->opts.min_length_desired * (1 + 1e-7)) { phase2 = true; slivers = true; }
      if (lim == c->opts.max_length_desired) VP_CHECK(mn < c->opts.min_length_desired * (1 + 1e-7), "coarsen-needless", "%s: coarsened although the shortest edge has length %.9g", where.c_str(), mn);
    }
    for (auto& kv : sn.e[1])
      if (!so.e[1].count(kv.first)) {
        double l = edge_len(sn, ids, kv.first);
        count("new_edges_checked");
        if (l > lim * (1 + 1e-7)) { viol("long-edge", fmt("%s: new edge of length %.9g, limit %.9g", where.c_str(), l, lim)); break; }
      }
    // shape corrections replace elements by ones no worse than the worst they replace
    if (kind == 1 && phase2) slivers = true;
    if (dim > 1 && c->driver == 0 && (slivers || kind == 2)) {
      struct Cav { std::set<int> v; double q = 1e300; };
      std::map<vector<int>, Cav> cavs;
      auto fold = [&](vector<int> const& key, vector<int> const& elem) {
        auto& a = cavs[key];
        a.v.insert(elem.begin(), elem.end());
        auto q = elem_quals(so.g, *so.e[dim].at(elem));
        a.q = std::min(a.q, *std::min_element(q.begin(), q.end()));
      };
      for (auto& kv : so.e[dim]) {
        if (sn.e[dim].count(kv.first)) continue;
        for (size_t i = 0; i < kv.first.size(); ++i) {
          if (kind == 1) { if (!sn.v.count(kv.first[i])) fold({kv.first[i]}, kv.first); continue; }
          for (size_t j = 0; j < i; ++j) { vector<int> ed{kv.first[j], kv.first[i]}; if (!sn.e[1].count(ed)) fold(ed, kv.first); }
        }
      }
      for (auto& kv : sn.e[dim]) {
        if (so.e[dim].count(kv.first)) continue;
        auto q = elem_quals(sn.g, *kv.second);
        double b = *std::max_element(q.begin(), q.end()), old = 1e300;
        for (auto& cv : cavs) {
          bool in = true;
          for (int v : kv.first) in = in && cv.second.v.count(v);
          if (in) old = std::min(old, cv.second.q);
        }
        count("improvements_checked");
        if (old == 1e300) { viol("foreign-element", fmt("%s: a new element lies in no replaced cavity", where.c_str())); break; }
        if (b < old * (1 - 1e-7) - 1e-12) { viol("no-improvement", fmt("%s: new element has quality %.9g, the worst it replaces %.9g", where.c_str(), b, old)); break; }
      }
    }
  }

  // ---- fields
  static bool same(GEnt const& a, GEnt const& b, string const& n) { return a.tags.at(n) == b.tags.at(n); }
  void check_fields(int kind, Snap const& so, Snap const& sn, IdSpace const& ids, string const& where) {
    int dim = so.g.dim;
    static char const* inh[] = {"in8", "in32", "in64", "inf", "class_id", "class_dim"};
    vector<vector<string>> keep(4);
    for (int d = 0; d <= dim; ++d) for (auto n : inh) keep[size_t(d)].push_back(n);
    for (auto n : {"coordinates", "metric", "lin", "rnd", "m2"}) keep[0].push_back(n);
    keep[size_t(dim)].push_back("pw");
    for (int d = 0; d <= dim; ++d)
      for (auto& n : keep[size_t(d)]) {
        auto a = so.g.tagmeta[d].find(n), b = sn.g.tagmeta[d].find(n);
        if (b == sn.g.tagmeta[d].end()) { viol("field-lost", fmt("%s: dim %d field %s was not carried over", where.c_str(), d, n.c_str())); return; }
        if (a->second != b->second) { viol("field-meta", fmt("%s: dim %d field %s changed type or size", where.c_str(), d, n.c_str())); return; }
      }
    for (int d = 0; d <= dim; ++d)
      for (auto& kv : sn.e[d]) {
        auto it = so.e[d].find(kv.first);
        if (it == so.e[d].end()) continue;
        count("kept_entities_checked");
        for (auto& n : keep[size_t(d)])
          if (!same(*it->second, *kv.second, n)) { viol("kept-changed", fmt("%s: dim %d field %s changed on an entity that was not modified", where.c_str(), d, n.c_str())); return; }
      }
    vector<string> inhs(inh, inh + 6);
    auto eq_inh = [&](GEnt const& a, GEnt const& b) { for (auto& n : inhs) if (!same(a, b, n)) return false; return true; };
    if (kind == 0) {
      std::map<int, std::pair<int, int>> keyof;  // new vertex -> edge
      // edges that vanished, indexed by vertex
      for (int v : sn.v) {
        if (so.v.count(v)) continue;
        std::pair<int, int> best{-1, -1};
        double bd = 1e300;
        for (auto& kv : so.e[1]) {
          if (sn.e[1].count(kv.first)) continue;
          int a = kv.first[0], b = kv.first[1];
          double dd = 0, ll = 0;
          for (int j = 0; j < dim; ++j) {
            double mid = 0.5 * (ids.x[size_t(a)][size_t(j)] + ids.x[size_t(b)][size_t(j)]);
            dd += std::pow(ids.x[size_t(v)][size_t(j)] - mid, 2);
            ll += std::pow(ids.x[size_t(a)][size_t(j)] - ids.x[size_t(b)][size_t(j)], 2);
          }
          if (dd < bd * 1.0 && dd < 1e-16 * ll + 1e-28) { bd = dd; best = {a, b}; }
        }
        if (best.first < 0) { viol("midpoint", fmt("%s: a new vertex is not the midpoint of any split edge", where.c_str())); return; }
        keyof[v] = best;
        auto& ne = *sn.e[0].at({v});
        auto& ea = *so.e[0].at({best.first});
        auto& eb = *so.e[0].at({best.second});
        for (string n : {"lin", "rnd"}) {
          auto x = rv(ne, n), a = rv(ea, n), b = rv(eb, n);
          for (size_t k = 0; k < x.size(); ++k) {
            double w = 0.5 * (a[k] + b[k]), tol = 1e-13 * (std::fabs(a[k]) + std::fabs(b[k]));
            count("interpolated_values_checked");
            if (!(std::fabs(x[k] - w) <= tol)) { viol("interp", fmt("%s: field %s comp %zu at a new vertex is %.17g, mean of the edge is %.17g", where.c_str(), n.c_str(), k, x[k], w)); return; }
          }
        }
        for (string n : {"metric", "m2"}) {
          auto a = met(so, best.first, n), b = met(so, best.second, n), x = met(sn, v, n);
          Sym w = sym_mean(a, b);
          // the closed-form 3D eigenvectors lose accuracy near repeated
          // eigenvalues (see DESIGN.md): the strict bound is for the rest
          double tol = 1e-5;
          if (x.n > 1) {
            Sym lm = sym_fun(w, [](double y) { return std::log(y); });
            for (Sym const& y : {a, b, w, lm}) {
              double l[3], q[3][3], mx = 0, gap = 1e300;
              sym_eig(y, l, q);
              std::sort(l, l + x.n);
              for (int i = 0; i < x.n; ++i) mx = std::max(mx, std::fabs(l[i]));
              for (int i = 1; i < x.n; ++i) gap = std::min(gap, l[i] - l[i - 1]);
              if (gap < 2e-2 * mx) tol = 0.5;
            }
            count(tol < 0.1 ? "metric_means_strict" : "metric_means_loose");
          }
          double sc = 0, df = 0;
          double l[3], q[3][3];
          sym_eig(x, l, q);
          for (int i = 0; i < x.n; ++i) VP_CHECK(l[i] > 0, "metric-spd", "%s: interpolated %s has eigenvalue %g", where.c_str(), n.c_str(), l[i]);
          for (int i = 0; i < x.n; ++i) for (int j = 0; j < x.n; ++j) { sc = std::max(sc, std::fabs(w.a[i][j])); df = std::max(df, std::fabs(w.a[i][j] - x.a[i][j])); }
          count("metric_means_checked");
          if (!(df <= tol * sc)) { viol("metric-mean", fmt("%s: %s at a new vertex differs from the log-Euclidean mean by %g of %g", where.c_str(), n.c_str(), df, sc)); return; }
        }
      }
      for (int d = 0; d <= dim; ++d)
        for (auto& kv : sn.e[d]) {
          if (so.e[d].count(kv.first)) continue;
          vector<int> old;
          int key = -1;
          for (int v : kv.first) if (keyof.count(v)) { if (key >= 0) { viol("refine-shape", where + ": an entity holds two new vertices"); return; } key = v; } else old.push_back(v);
          if (key < 0) { viol("refine-shape", where + ": a new entity holds no new vertex"); return; }
          auto ab = keyof[key];
          for (int v : {ab.first, ab.second}) if (!std::count(old.begin(), old.end(), v)) old.push_back(v);
          std::sort(old.begin(), old.end());
          int od = int(old.size()) - 1;
          auto it = od <= dim ? so.e[od].find(old) : so.e[0].end();
          if (od > dim || it == so.e[od].end()) { viol("refine-shape", where + ": a new entity does not lie in an old one"); return; }
          count("inherited_checked");
          for (auto& n : inhs) if (!same(*it->second, *kv.second, n)) { viol("inherit", fmt("%s: new dim %d entity inside an old dim %d entity has another value of %s", where.c_str(), d, od, n.c_str())); return; }
          if (d == dim && !same(*it->second, *kv.second, "pw")) { viol("pointwise", where + ": value of a split element differs from the element that contained it"); return; }
        }
      return;
    }
    if (kind == 1) {
      std::map<int, vector<vector<int>>> around;  // removed vertex -> old elements
      for (auto& kv : so.e[dim]) for (int v : kv.first) if (!sn.v.count(v)) around[v].push_back(kv.first);
      std::map<vector<int>, vector<std::pair<int, int>>> newsrc[4];
      for (auto& av : around) {
        int v = av.first;
        std::set<int> link;
        for (auto& k : av.second) link.insert(k.begin(), k.end());
        link.erase(v);
        vector<int> cands;
        for (int u : link) {
          bool ok = true;
          for (auto& k : av.second) {
            if (has(k, u)) continue;
            auto q = k;
            for (auto& z : q) if (z == v) z = u;
            std::sort(q.begin(), q.end());
            if (!sn.e[dim].count(q)) { ok = false; break; }
          }
          if (ok) cands.push_back(u);
        }
        if (cands.empty()) { viol("coarsen-shape", where + ": a removed vertex was not collapsed onto a neighbour"); return; }
        bool good = false;
        string why;
        for (int u : cands) {
          bool ok = true;
          for (int d = 1; d <= dim && ok; ++d) {
            // all old dim d entities on v without u
            std::set<vector<int>> seen;
            for (auto& k : av.second)
              for (auto& q : subsets(k, d + 1)) {
                if (!has(q, v) || has(q, u) || !seen.insert(q).second) continue;
                auto nk = q;
                for (auto& z : nk) if (z == v) z = u;
                std::sort(nk.begin(), nk.end());
                if (so.e[d].count(nk)) continue;  // merged with an entity that already was there
                auto it = sn.e[d].find(nk);
                if (it == sn.e[d].end()) { ok = false; why = "entity missing"; break; }
                count("inherited_checked");
                if (!eq_inh(*so.e[d].at(q), *it->second)) { ok = false; why = fmt("dim %d entity does not keep the value of the one it came from", d); break; }
              }
          }
          if (ok) { good = true; break; }
        }
        if (!good) { viol("inherit", where + ": " + why); return; }
        // pointwise: values of the old cavity
        std::set<string> vals;
        for (auto& k : av.second) vals.insert(so.e[dim].at(k)->tags.at("pw"));
        bool pwok = false;
        for (int u : cands) {
          bool ok = true;
          for (auto& k : av.second) {
            if (has(k, u)) continue;
            auto q = k;
            for (auto& z : q) if (z == v) z = u;
            std::sort(q.begin(), q.end());
            count("pointwise_checked");
            if (!vals.count(sn.e[dim].at(q)->tags.at("pw"))) ok = false;
          }
          pwok = pwok || ok;
        }
        if (!pwok) { viol("pointwise", where + ": value does not occur in the old cavity"); return; }
      }
      return;
    }
    // swap
    std::map<vector<int>, std::pair<std::set<int>, vector<vector<int>>>> cav;
    for (auto& kv : so.e[1]) if (!sn.e[1].count(kv.first)) cav[kv.first];
    for (auto& kv : so.e[dim])
      for (auto& k : subsets(kv.first, 2)) {
        auto it = cav.find(k);
        if (it == cav.end()) continue;
        it->second.first.insert(kv.first.begin(), kv.first.end());
        it->second.second.push_back(kv.first);
      }
    if (!(so.v == sn.v)) { viol("swap-verts", where + ": swapping changed the vertices"); return; }
    for (int d = 1; d <= dim; ++d)
      for (auto& kv : sn.e[d]) {
        if (so.e[d].count(kv.first)) continue;
        bool any = false, ok = false, pw = d < dim;
        for (auto& cv : cav) {
          bool in = true;
          for (int v : kv.first) in = in && cv.second.first.count(v);
          if (!in) continue;
          any = true;
          if (eq_inh(*so.e[1].at(cv.first), *kv.second)) ok = true;
          if (d == dim) for (auto& k : cv.second.second) if (so.e[dim].at(k)->tags.at("pw") == kv.second->tags.at("pw")) pw = true;
        }
        count("inherited_checked");
        if (!any) { viol("swap-shape", where + ": a new entity lies in no swap cavity"); return; }
        if (!ok) { viol("inherit", fmt("%s: new dim %d entity does not have the swapped edge's values", where.c_str(), d)); return; }
        if (!pw) { viol("pointwise", where + ": value does not occur in the old cavity"); return; }
      }
  }
};

// ------------------------------------------------------------------ scenario generation
static Scen gen_scen(Rng& r) {
  Scen c;
  GenOpts go;
  go.dim = r.chance(0.1) ? 1 : r.chance(0.5) ? 2 : 3;
  if (r.chance(0.1)) go.max_cells = 1;
  else if (go.dim == 3) go.max_cells = ctx().thorough ? 3 : 2;
  else if ((M_same || M_sched) && go.dim == 2) go.max_cells = M_sched ? 3 : 4;
  c.s = gen_soup(r, go);
  c.m = make_model(c.s);
  int dim = c.s.dim;
  double hlo = dim == 1 ? 0.1 : dim == 2 ? 0.35 : 0.6, hhi = dim == 1 ? 4 : 3;
  c.opts = AdaptOpts(dim);
  c.metric = gen_metric(r, c.s, c.mnc, c.mdesc, hlo, hhi);
  auto& o = c.opts;
  if (r.chance(0.4)) {
    o.max_length_desired = r.real(1.3, 2.0);
    o.min_length_desired = o.max_length_desired * r.real(0.25, 0.5);
    o.max_length_allowed = o.max_length_desired * r.real(1.0, 3.0);
    if (dim > 1) { o.min_quality_allowed = r.real(0.02, 0.4); o.min_quality_desired = r.real(o.min_quality_allowed, 0.6); }
    o.nsliver_layers = int(r.range(0, 5));
  }
  if (r.chance(0.4)) {
    o.should_refine = r.chance(0.75);
    o.should_coarsen = r.chance(0.75);
    o.should_swap = r.chance(0.6);
    o.should_coarsen_slivers = r.chance(0.5);
  }
  // a bad mesh makes swaps and sliver removal work
  if (dim > 1 && r.chance(0.4)) { o.min_quality_desired = std::max(o.min_quality_desired, r.real(0.5, 0.8)); }
  // flip prevention needs a common visible normal at every boundary vertex,
  // which the re-entrant corners of a 3D mesh with missing cells may lack
  if (r.chance(0.15) && (dim < 3 || c.s.desc.find("holes=1") == string::npos)) o.should_prevent_coarsen_flip = true;
  // swapping alone under a tight bound on the lengths it may create
  if (dim > 1 && r.chance(M_qual ? 0.25 : 0.08)) {
    if (dim == 3 && r.chance(0.7)) {
      go.min_cells = 2; go.max_cells = 4; go.holes = go.materials = r.chance(0.2); go.amp = r.real(0.15, 0.28);
      c.s = gen_soup(r, go); c.m = make_model(c.s);
    }
    c.metric = gen_metric(r, c.s, c.mnc, c.mdesc, 0.8, 1.2);
    c.mdesc += " swaps-only";
    o.should_refine = r.chance(0.1); o.should_coarsen = false; o.should_swap = true; o.should_coarsen_slivers = r.chance(0.25);
    o.max_length_allowed = r.real(0.9, 1.9); o.max_length_desired = o.max_length_allowed * r.real(0.8, 1.0); o.min_length_desired = 0.3;
    o.min_quality_allowed = r.real(0.01, 0.1); o.min_quality_desired = r.real(0.6, 0.97); o.nsliver_layers = int(r.range(0, 3));
  }
  // curved model faces and edges: bend the flat domain, keeping its model
  if ((M_valid || M_qual || M_field || M_same || M_cons || M_sched) && dim > 1 && r.chance(M_cons ? 0.4 : 0.2)) {
    auto x0 = c.s.x;
    double ctr[3] = {}, w = 0;
    for (int v = 0; v < c.s.nv(); ++v) for (int k = 0; k < dim; ++k) ctr[k] += x0[size_t(v * dim + k)] / c.s.nv();
    for (int v = 0; v < c.s.nv(); ++v) for (int k = 0; k < dim; ++k) w = std::max(w, std::fabs(x0[size_t(v * dim + k)] - ctr[k]));
    double a[3][3], amp = r.real(0.1, 0.6);
    for (auto& q : a) for (auto& y : q) y = r.real(-1, 1);
    for (int tries = 0; tries < 6; ++tries, amp *= 0.5) {
      for (int v = 0; v < c.s.nv(); ++v)
        for (int k = 0; k < dim; ++k) {
          double y = 0;
          for (int l = 0; l < dim; ++l) { double u = (x0[size_t(v * dim + l)] - ctr[l]) / w; y += a[k][l] * u * u; }
          c.s.x[size_t(v * dim + k)] = x0[size_t(v * dim + k)] + amp * w * y / dim;
        }
      double worst = 1;
      for (int e = 0; e < c.s.ne(); ++e) {
        double const *p[4], *q[4];
        for (int j = 0; j <= dim; ++j) { p[j] = &c.s.x[size_t(c.s.ev[size_t(e * (dim + 1) + j)] * dim)]; q[j] = &x0[size_t(c.s.ev[size_t(e * (dim + 1) + j)] * dim)]; }
        worst = std::min(worst, elem_size(dim, p) / elem_size(dim, q));
      }
      if (worst > 0.3) { c.mdesc += " curved"; c.curved = true; break; }
      c.s.x = x0;
    }
  }
  o.verbosity = Omega_h::SILENT;
  if (r.chance(0.1)) { int v = int(r.below(4)); o.verbosity = v == 0 ? Omega_h::EACH_ADAPT : v == 1 ? Omega_h::EACH_REBUILD : v == 2 ? Omega_h::EXTRA_STATS : Omega_h::SILENT; }
  c.monitor = r.chance(0.85);
  c.fseed = r.u64();
  for (auto& a : c.aff) for (auto& x : a) x = r.real(-3, 3);
  if (M_field || ((M_same || M_sched) && r.chance(0.5)) || r.chance(0.1)) {
    c.fields = true;
    auto& t = o.xfer_opts.type_map;
    t["lin"] = t["rnd"] = OMEGA_H_LINEAR_INTERP;
    t["m2"] = OMEGA_H_METRIC;
    for (auto n : {"in8", "in32", "in64", "inf"}) t[n] = OMEGA_H_INHERIT;
    t["pw"] = OMEGA_H_POINTWISE;
  }
  if (M_cons || (!M_field && r.chance(M_sched ? 0.4 : 0.1))) {
    c.conserve = true;
    c.cons_kind = int(r.below(4));
    c.velocity = r.chance(0.5);
    c.fixedv = r.chance(0.3);
    auto& x = o.xfer_opts;
    x.type_map["rho"] = x.type_map["en"] = x.type_map["cst"] = OMEGA_H_CONSERVE;
    x.integral_map["rho"] = "mass"; x.integral_map["en"] = "energy"; x.integral_map["cst"] = "cmass";
    x.type_map["den"] = x.type_map["dcst"] = OMEGA_H_DENSITY;
    bool diff = r.chance(0.6);
    auto none = Omega_h::VarCompareOpts::none();
    auto rel = Omega_h::VarCompareOpts{Omega_h::VarCompareOpts::RELATIVE, 0.4, 1e-12};
    for (auto n : {"mass", "energy", "cmass", "mom"}) x.integral_diffuse_map[n] = diff ? rel : none;
    if (c.velocity) {
      x.type_map["vel"] = OMEGA_H_MOMENTUM_VELOCITY;
      x.velocity_density_map["vel"] = "rho";
      x.velocity_momentum_map["vel"] = "mom";
    }
  }
  return c;
}

static string opts_str(AdaptOpts const& o) {
  return fmt("len[%.3g,%.3g,%.3g] qual[%.3g,%.3g] layers=%d ops=%d%d%d%d flip=%d", o.min_length_desired, o.max_length_desired, o.max_length_allowed, o.min_quality_allowed, o.min_quality_desired, o.nsliver_layers, o.should_refine, o.should_coarsen, o.should_swap, o.should_coarsen_slivers, o.should_prevent_coarsen_flip);
}

// integrals of an element field per class id; "" = total
static std::map<int, vector<double>> integrals(Global const& g, string const& n, std::map<int, vector<double>>* mag = nullptr) {
  std::map<int, vector<double>> r;
  for (auto& kv : g.e[g.dim]) {
    vector<double const*> p;
    for (GO q : kv.second.v) p.push_back(g.x.at(q).data());
    double sz = elem_size(g.dim, p.data());
    auto v = rv(kv.second, n);
    int id = tagval<LO>(kv.second, "class_id");
    for (int key : {id, -1}) {
      auto& a = r[key];
      a.resize(v.size());
      if (mag) (*mag)[key].resize(v.size());
      for (size_t k = 0; k < v.size(); ++k) { a[k] += sz * v[k]; if (mag) (*mag)[key][k] += sz * std::fabs(v[k]); }
    }
  }
  return r;
}
static vector<double> momentum(Global const& g, vector<double>* mag) {
  vector<double> r(size_t(g.dim), 0.0);
  mag->assign(size_t(g.dim), 0.0);
  for (auto& kv : g.e[g.dim]) {
    vector<double const*> p;
    for (GO q : kv.second.v) p.push_back(g.x.at(q).data());
    double m = elem_size(g.dim, p.data()) * rv(kv.second, "rho")[0];
    for (GO q : kv.second.v) { auto u = rv(g.e[0].at(q), "vel"); for (int k = 0; k < g.dim; ++k) { r[size_t(k)] += m * u[size_t(k)] / (g.dim + 1); (*mag)[size_t(k)] += std::fabs(m * u[size_t(k)]) / (g.dim + 1); } }
  }
  return r;
}

static void end_checks(Scen const& c, Tables const& t, Mesh& mesh, World const& w0, Global const& g0, World const& w1, bool changed, Mon* mon, bool warped) {
  auto g1 = assemble(w1);
  int dim = g1.dim;
  string where = "end";
  if (M_valid) {
    check_world(w1, where);
    Topo a, b;
    if (check_simplex(g0, "start", &a) && check_simplex(g1, where, &b)) VP_CHECK(a == b, "topology", "end: %s, started with %s", b.str().c_str(), a.str().c_str());
    if (c.driver < 3) VP_CHECK(w1[0].parting == OMEGA_H_ELEM_BASED, "parting", "adapted mesh is not element based");
    count("elements_checked", int64_t(g1.e[dim].size()));
  }
  if (M_geom && !warped) check_geom(g1, t, where);
  if (M_qual) {
    double q0 = min_qual(g0), q1 = min_qual(g1);
    if (dim > 1 && !warped && c.driver == 0) VP_CHECK(q1 >= std::min(min_qual_low(g0), c.opts.min_quality_allowed) * (1 - 1e-7) - 1e-12, "quality-bound", "worst element went from quality %.9g to %.9g with %.9g allowed", q0, q1, c.opts.min_quality_allowed);
    double mn0, mx0 = max_len(g0, &mn0);
    if (!changed) {
      double e = 1e-6;
      VP_CHECK(mn0 >= c.opts.min_length_desired * (1 - e) && mx0 <= c.opts.max_length_desired * (1 + e) && (dim == 1 || q0 >= c.opts.min_quality_desired * (1 - e)), "false-nothing-to-do",
          "adapt reported nothing to do but lengths are [%.9g,%.9g] and quality %.9g", mn0, mx0, q0);
      std::set<string> skip{"length", "quality", "size"};
      VP_CHECK(canon(g0, skip) == canon(g1, skip), "touched", "adapt reported nothing to do but changed the mesh");
    } else if (c.driver == 0) {
      double e = 1e-6;
      VP_CHECK(!(mn0 >= c.opts.min_length_desired * (1 + e) && mx0 <= c.opts.max_length_desired * (1 - e) && (dim == 1 || min_qual_low(g0) >= c.opts.min_quality_desired * (1 + e))), "needless-work",
          "adapt worked on a mesh with lengths [%.9g,%.9g] and quality %.9g", mn0, mx0, q0);
    }
    // refinement stops only when no split is acceptable
    if (changed && c.driver == 0 && c.opts.should_refine && !c.opts.should_swap && !c.opts.should_coarsen_slivers) {
      std::map<std::pair<GO, GO>, vector<GEnt const*>> ee;
      for (auto& kv : g1.e[dim]) for (auto a : kv.second.v) for (auto b : kv.second.v) if (a < b) ee[{a, b}].push_back(&kv.second);
      auto mt = [&](GO v) { auto r = rv(g1.e[0].at(v), "metric"); return sym_from(dim, int(r.size()), r.data()); };
      for (auto& kv : ee) {
        GO a = kv.first.first, b = kv.first.second;
        Sym ma = mt(a), mb = mt(b);
        double l = metric_len(dim, g1.x.at(a).data(), g1.x.at(b).data(), ma, mb);
        if (l <= c.opts.max_length_desired * (1 + 1e-6)) continue;
        count("long_edges_left");
        Sym mm = sym_mean(ma, mb);
        P3 mid;
        for (size_t k = 0; k < 3; ++k) mid[k] = 0.5 * (g1.x.at(a)[k] + g1.x.at(b)[k]);
        double worst = 1e300;
        for (auto e : kv.second)
          for (int h = 0; h < 2; ++h) {
            vector<double const*> p; vector<Sym> ms;
            for (GO v : e->v) {
              if (v == (h ? a : b)) { p.push_back(mid.data()); ms.push_back(mm); }
              else { p.push_back(g1.x.at(v).data()); ms.push_back(mt(v)); }
            }
            auto q = metric_quals(dim, p.data(), ms);
            worst = std::min(worst, *std::min_element(q.begin(), q.end()));
          }
        VP_CHECK(dim > 1 && worst < c.opts.min_quality_allowed * (1 + 1e-6), "refine-incomplete", "an edge of length %.9g was left although splitting it gives quality %.9g >= %.9g", l, worst, c.opts.min_quality_allowed);
      }
    }
    // reported lengths and qualities, compared on every rank's own part
    (void)mon;
  }
  if (M_field) {
    static char const* inh[] = {"in8", "in32", "in64", "inf"};
    for (int d = 0; d <= dim; ++d) for (auto n : inh) VP_CHECK(g1.tagmeta[d].count(n) && g1.tagmeta[d][n] == const_cast<Global&>(g0).tagmeta[d][n], "field-lost", "field %s on dim %d", n, d);
    for (auto n : {"lin", "rnd", "m2", "metric"}) VP_CHECK(g1.tagmeta[0].count(n), "field-lost", "field %s", n);
    VP_CHECK(g1.tagmeta[dim].count("pw"), "field-lost", "field pw was lost in %dD", dim);
    if (ctx().nviol_case == 0)
      for (auto& kv : g1.e[0]) {
        auto v = rv(kv.second, "lin");
        auto& x = g1.x.at(kv.first);
        double sc = 1;
        for (int k = 0; k < dim; ++k) sc += std::fabs(x[size_t(k)]) + t.scale;
        for (int k = 0; k < 3; ++k) {
          count("affine_values_checked");
          if (std::fabs(v[size_t(k)] - aff_val(c, k, x.data())) > 1e-11 * sc) { viol("affine", fmt("affine field comp %d is %.17g at a vertex where the function is %.17g", k, v[size_t(k)], aff_val(c, k, x.data()))); break; }
        }
        if (ctx().nviol_case) break;
        for (auto n : {"metric", "m2"}) {
          auto mr = rv(kv.second, n);
          double l[3], q[3][3];
          Sym s = sym_from(dim, int(mr.size()), mr.data());
          sym_eig(s, l, q);
          for (int i = 0; i < s.n; ++i) if (!(l[i] > 0)) { viol("metric-spd", "size field not positive definite"); break; }
        }
      }
    if (ctx().nviol_case == 0 && g1.tagmeta[dim].count("pw")) {
      std::set<string> vals;
      for (auto& kv : g0.e[dim]) vals.insert(kv.second.tags.at("pw"));
      for (auto& kv : g1.e[dim]) if (!vals.count(kv.second.tags.at("pw"))) { viol("pointwise", "a value does not occur in the input"); break; }
    }
  }
  if (M_cons) {
    for (auto n : {"rho", "en", "cst"}) {
      VP_CHECK(g1.tagmeta[dim].count(n), "field-lost", "conserved field %s was lost", n);
      if (!g1.tagmeta[dim].count(n)) return;
      std::map<int, vector<double>> mag;
      auto a = integrals(g0, n, &mag), b = integrals(g1, n);
      for (auto& kv : a) for (size_t k = 0; k < kv.second.size(); ++k) {
        count("integrals_checked");
        double x = kv.second[k], y = b.count(kv.first) ? b[kv.first][k] : 0;
        if (!(std::fabs(x - y) <= 1e-8 * mag[kv.first][k])) { viol("integral", fmt("integral of %s comp %zu over %s went from %.15g to %.15g", n, k, kv.first < 0 ? "the domain" : fmt("region %d", kv.first).c_str(), x, y)); break; }
      }
    }
    auto range = [&](Global const& g, string const& n, size_t k) { double lo = 1e300, hi = -1e300; for (auto& kv : g.e[dim]) { double v = rv(kv.second, n)[k]; if (!(v == v)) hi = 1e301; lo = std::min(lo, v); hi = std::max(hi, v); } return std::make_pair(lo, hi); };
    auto rc = range(g1, "cst", 0);
    if (!c.curved) VP_CHECK(std::fabs(rc.first - 3.25) < 1e-7 && std::fabs(rc.second - 3.25) < 1e-7, "constant", "constant conserved density 3.25 became [%.12g,%.12g]", rc.first, rc.second);
    if (c.cons_kind == 0 && !c.curved) { auto rr = range(g1, "rho", 0); VP_CHECK(std::fabs(rr.first - 2.5) < 1e-7 && std::fabs(rr.second - 2.5) < 1e-7, "constant", "constant density 2.5 became [%.12g,%.12g]", rr.first, rr.second); }
    VP_CHECK(g1.tagmeta[dim].count("den") && g1.tagmeta[dim].count("dcst"), "field-lost", "density field was lost");
    if (g1.tagmeta[dim].count("den")) {
      for (size_t k = 0; k < 2; ++k) {
        auto a = range(g0, "den", k), b = range(g1, "den", k);
        VP_CHECK(b.first >= a.first - 1e-8 * 6 && b.second <= a.second + 1e-8 * 6, "density-bounds", "density comp %zu in [%.12g,%.12g] left the input range [%.12g,%.12g]", k, b.first, b.second, a.first, a.second);
      }
      auto dc = range(g1, "dcst", 0);
      VP_CHECK(std::fabs(dc.first - 1.75) < 1e-8 && std::fabs(dc.second - 1.75) < 1e-8, "constant", "constant density 1.75 became [%.12g,%.12g]", dc.first, dc.second);
    }
    if (c.velocity) {
      VP_CHECK(g1.tagmeta[0].count("vel"), "field-lost", "velocity was lost");
      if (!g1.tagmeta[0].count("vel")) return;
      vector<double> mag, mag1;
      auto a = momentum(g0, &mag), b = momentum(g1, &mag1);
      for (int k = 0; k < dim; ++k) {
        if (c.fixedv && k <= 1) continue;
        count("momenta_checked");
        VP_CHECK(std::fabs(a[size_t(k)] - b[size_t(k)]) <= 1e-8 * mag[size_t(k)], "momentum", "momentum comp %d went from %.15g to %.15g", k, a[size_t(k)], b[size_t(k)]);
      }
      if (c.fixedv && g0.tagmeta[0].count("momentum_velocity_fixed")) {
        std::map<P3, GO> at;
        for (auto& kv : g0.x) at[kv.second] = kv.first;
        for (auto& kv : g1.x) {
          auto it = at.find(kv.second);
          if (it == at.end()) continue;
          auto& e0 = g0.e[0].at(it->second);
          for (int k = 0; k < dim; ++k) if (tagval<I8>(e0, "momentum_velocity_fixed") & (1 << k)) { count("fixed_checked"); VP_CHECK(biteq(rv(e0, "vel")[size_t(k)], rv(g1.e[0].at(kv.first), "vel")[size_t(k)]), "fixed-velocity", "fixed velocity component %d changed", k); }
        }
      }
    }
    for (int d = 0; d <= dim; ++d)
      for (auto& kv : g1.tagmeta[d]) if (!g0.tagmeta[d].count(kv.first) && kv.first != "length" && kv.first != "quality" && kv.first != "size") viol("extra-tag", fmt("adaptation left tag %s on dim %d", kv.first.c_str(), d));
  }
  (void)w0; (void)mesh;
}

// correct_integral_errors takes exactly the recorded errors out of the integrals, within the tolerance on every element
static void correct_checks(Scen const& c, Global const& g0, Global const& g1) {
  int dim = g1.dim;
  auto size_of = [&](GEnt const& e) { vector<double const*> p; for (GO q : e.v) p.push_back(g0.x.at(q).data()); return elem_size(dim, p.data()); };
  for (auto nm : {std::make_pair("rho", "mass"), std::make_pair("en", "energy"), std::make_pair("cst", "cmass")}) {
    string err = string(nm.second) + "_error";
    VP_CHECK(!g1.tagmeta[dim].count(err) && !g1.tagmeta[dim].count(string("old_") + nm.first), "extra-tag", "correction left its work tags behind");
    std::map<std::pair<int, size_t>, std::array<double, 3>> sum;
    for (auto& kv : g0.e[dim]) {
      auto it = g1.e[dim].find(kv.first);
      if (it == g1.e[dim].end()) { viol("mesh-changed", "correction lost an element"); return; }
      auto a = rv(kv.second, nm.first), b = rv(it->second, nm.first), e = rv(kv.second, err);
      double sz = size_of(kv.second);
      int comp = tagval<I32>(kv.second, "comp");
      for (size_t k = 0; k < a.size(); ++k) {
        auto& q = sum[{comp, k}];
        q[0] += (b[k] - a[k]) * sz; q[1] += e[k]; q[2] += std::fabs(a[k] * sz) + std::fabs(e[k]);
        count("corrections_checked");
        if (c.err_tol < 0) { if (!(std::fabs(b[k] - (a[k] - e[k] / sz)) <= 1e-10 * (std::fabs(a[k]) + std::fabs(e[k] / sz)))) { viol("correction", fmt("%s comp %zu: density %.12g with error %.12g became %.12g", nm.first, k, a[k], e[k] / sz, b[k])); return; } }
        else if (!(std::fabs(b[k] - a[k]) <= c.err_tol * std::fabs(a[k]) * (1 + 1e-9))) { viol("correction-tolerance", fmt("%s comp %zu went from %.12g to %.12g, tolerance %g", nm.first, k, a[k], b[k], c.err_tol)); return; }
      }
    }
    for (auto& kv : sum) VP_CHECK(std::fabs(kv.second[0] + kv.second[1]) <= 1e-9 * kv.second[2], "integral", "correction of %s comp %zu changed a part's integral by %.12g, recorded error %.12g", nm.first, kv.first.second, kv.second[0], kv.second[1]);
  }
  if (!c.velocity) return;
  vector<double> mag, mag1, e(size_t(dim), 0.0);
  auto a = momentum(g0, &mag), b = momentum(g1, &mag1);
  for (auto& kv : g0.e[dim]) { auto y = rv(kv.second, "mom_error"); for (int k = 0; k < dim; ++k) { e[size_t(k)] += y[size_t(k)]; mag[size_t(k)] += std::fabs(y[size_t(k)]); } }
  // an element whose vertices are all fixed keeps its error; diffusion brings other errors there
  vector<bool> open(size_t(dim), false);
  if (g0.tagmeta[0].count("momentum_velocity_fixed")) {
    for (auto& kv : g0.e[dim]) for (int k = 0; k < dim; ++k) {
      bool all = true;
      double u = 0;
      vector<double const*> p;
      for (GO q : kv.second.v) {
        auto& v = g0.e[0].at(q);
        all = all && (tagval<I8>(v, "momentum_velocity_fixed") & (1 << k));
        u += rv(v, "vel")[size_t(k)] / (dim + 1);
        p.push_back(g0.x.at(q).data());
      }
      if (!all) continue;
      if (c.err_tol >= 0) { open[size_t(k)] = true; continue; }
      double dm = elem_size(dim, p.data()) * (rv(g1.e[dim].at(kv.first), "rho")[0] - rv(kv.second, "rho")[0]);
      e[size_t(k)] -= rv(kv.second, "mom_error")[size_t(k)] + u * dm;
      // the element's momentum changes with its density
      count("kept_momentum_errors");
    }
  }
  for (int k = 0; k < dim; ++k) {
    if (open[size_t(k)]) { count("momenta_open"); continue; }
    count("momenta_checked");
    if (c.fixedv && k <= 1) count("fixed_momenta_checked");
    VP_CHECK(std::fabs(b[size_t(k)] - a[size_t(k)] + e[size_t(k)]) <= 1e-9 * mag[size_t(k)], "momentum", "correction changed momentum comp %d by %.12g, recorded error %.12g", k, b[size_t(k)] - a[size_t(k)], e[size_t(k)]);
  }
  VP_CHECK(!g1.tagmeta[dim].count("mom_error"), "extra-tag", "correction left mom_error behind");
  if (g0.tagmeta[0].count("momentum_velocity_fixed"))
    for (auto& kv : g0.e[0]) for (int k = 0; k < dim; ++k) if (tagval<I8>(kv.second, "momentum_velocity_fixed") & (1 << k)) { count("fixed_checked"); VP_CHECK(biteq(rv(kv.second, "vel")[size_t(k)], rv(g1.e[0].at(kv.first), "vel")[size_t(k)]), "fixed-velocity", "correction changed fixed velocity component %d", k); }
}

// swallows what the library prints
struct Mute {
  struct Null : std::streambuf { int overflow(int ch) override { return ch; } std::streamsize xsputn(char const*, std::streamsize n) override { return n; } } null;
  std::streambuf *a, *b;
  Mute() : a(std::cout.rdbuf(&null)), b(std::cerr.rdbuf(&null)) {}
  ~Mute() { std::cout.rdbuf(a); std::cerr.rdbuf(b); }
};

// returns the adapted world (all ranks)
static World run_once(Scen& c, CommPtr comm, Rng r, int style, bool* changed_out, bool checks) {
  auto t = make_tables(c);
  auto mon = std::make_shared<Mon>();
  mon->c = &c; mon->t = &t;
  auto opts = c.opts;
  opts.xfer_opts.user_xfer = checks ? mon : nullptr;
  Mesh mesh = distribute(comm, c.s, c.m, r, style, [&](Mesh& m) { decorate(c, m); }, M_same);
  auto w0 = dump_world(&mesh);
  auto g0 = assemble(w0);
  if (M_valid && checks) mon->have_topo = check_simplex(g0, "start", &mon->topo0);
  bool changed = false, warped = false;
  Mute mute;
  if (c.driver == 1) {
    // the metric starts as a size field the mesh already satisfies
    try {
      // steps halve for ever when the target itself cannot be met
      for (int k = 0; k < 60 && Omega_h::approach_metric(&mesh, opts); ++k) { Omega_h::adapt(&mesh, opts); count("approach_steps"); }
    } catch (std::exception const& e) {
      // giving up on a hard target is a documented outcome; all ranks decide alike
      if (string(e.what()).find("approach has stalled") == string::npos) throw;
      count("approach_gave_up");
    }
    changed = true;
  } else if (c.driver == 2) {
    try {
      for (int k = 0; k < 60 && Omega_h::warp_to_limit(&mesh, opts, r.chance(0.5)); ++k) { Omega_h::adapt(&mesh, opts); count("warp_steps"); }
    } catch (std::exception const& e) {
      if (string(e.what()).find("unable to satisfy this warp") == string::npos) throw;
      count("warp_gave_up");
    }
    changed = warped = true;
  } else if (c.driver == 3) {
    int iso = int(r.below(3));
    mesh.set_parting(OMEGA_H_GHOSTED);
    Omega_h::fix(&mesh, opts, iso == 0 ? OMEGA_H_ANISOTROPIC : iso == 1 ? OMEGA_H_ISO_LENGTH : OMEGA_H_ISO_SIZE, r.chance(0.5));
    count("fixes");
    changed = true;
  } else if (c.driver == 4) {
    mesh.set_parting(OMEGA_H_GHOSTED);
    auto tg = mesh.get_array<Real>(0, "target_metric");
    if (r.chance(0.5)) mesh.remove_tag(0, "target_metric");
    if (r.chance(0.3)) mesh.remove_tag(0, "metric");
    try { Omega_h::grade_fix_adapt(&mesh, opts, tg, r.chance(0.5)); count("grade_fix_adapts"); }
    catch (std::exception const& e) {
      string w = e.what();
      // repairing a mesh worse than the allowed quality may fall short, which is then reported
      bool short_of = c.repair && (w.find("minimum element quality") == 0 || w.find("maximum edge length") == 0);
      if (!short_of && w.find("approach has stalled") == string::npos) throw;
      count(short_of ? "repair_fell_short" : "approach_gave_up");
    }
    changed = true;
  } else if (c.driver == 5) {
    mesh.set_parting(OMEGA_H_GHOSTED);
    Omega_h::correct_integral_errors(&mesh, opts);
    count("corrections");
    auto w1 = dump_world(&mesh);
    if (ctx().rank == 0) { Hash h; h.str(canon(assemble(w1), {})); nontrivial(h.get()); correct_checks(c, g0, assemble(w1)); }
    return w1;
  } else {
    changed = Omega_h::adapt(&mesh, opts);
  }
  auto w1 = dump_world(&mesh);
  if (checks && M_qual) {
    // measured values on this rank's part
    auto len = host(mesh.ask_lengths());
    auto qual = host(mesh.ask_qualities());
    auto sz = host(mesh.ask_sizes());
    auto& p = w1[size_t(comm->rank())];
    int dim = p.dim;
    auto mt = [&](int v) { for (auto& q : p.e[0].tags) if (q.name == "metric") { auto b = reinterpret_cast<double const*>(q.bytes.data()); return sym_from(dim, q.ncomps, b + size_t(v * q.ncomps)); } return Sym(); };
    for (int e = 0; e < p.e[1].n; ++e) {
      int a = p.e[1].verts[size_t(2 * e)], b = p.e[1].verts[size_t(2 * e + 1)];
      double l = metric_len(dim, &p.x[size_t(a * dim)], &p.x[size_t(b * dim)], mt(a), mt(b));
      count("lengths_checked");
      if (!(std::fabs(l - len[size_t(e)]) <= 1e-6 * l)) { viol("length-value", fmt("edge length reported %.9g, should be %.9g", len[size_t(e)], l)); break; }
    }
    for (int e = 0; e < p.e[dim].n; ++e) {
      vector<double const*> q; vector<Sym> ms;
      for (int k = 0; k <= dim; ++k) { int v = p.e[dim].verts[size_t(e * (dim + 1) + k)]; q.push_back(&p.x[size_t(v * dim)]); ms.push_back(mt(v)); }
      auto c2 = metric_quals(dim, q.data(), ms);
      bool ok = false;
      for (double y : c2) ok = ok || std::fabs(y - qual[size_t(e)]) <= 1e-6 * std::fabs(y) + 1e-9;
      count("qualities_checked");
      if (!ok) { viol("quality-value", fmt("quality reported %.9g, should be %.9g", qual[size_t(e)], c2[0])); break; }
      double s = elem_size(dim, q.data());
      if (!(std::fabs(s - sz[size_t(e)]) <= 1e-6 * s)) { viol("size-value", fmt("element size reported %.9g, should be %.9g", sz[size_t(e)], s)); break; }
    }
    double ql = 1e300, gl = 1e300;
    for (double y : qual) ql = std::min(ql, y);
    MPI_Allreduce(&ql, &gl, 1, MPI_DOUBLE, MPI_MIN, comm->get_impl());
    double mq = mesh.min_quality();
    VP_CHECK(mq == gl, "min-quality", "min_quality() is %.9g, worst element has %.9g", mq, gl);
    VP_CHECK(std::fabs(mesh.max_length() - max_len(assemble(w1))) < 1e-6 * max_len(assemble(w1)), "max-length", "max_length()");
  }
  if (checks && ctx().rank == 0) end_checks(c, t, mesh, w0, g0, w1, changed, mon.get(), warped);
  if (changed_out) *changed_out = changed;
  int n = 0;
  for (int k : mon->npass) n += k;
  if (n || changed) { Hash h; h.str(canon(assemble(w1), {})); nontrivial(h.get()); count("runs_that_changed_the_mesh"); }
  return w1;
}

static void one_case(CommPtr world, Rng& r, int64_t) {
  Scen c = gen_scen(r);
  int dim = c.s.dim;
  if ((M_valid || M_qual || M_sched) && r.chance(0.15)) {
    // approach a target in steps; start from the implied size field
    c.driver = 1;
    Mesh tmp = build_serial(world->library()->self(), c.s, &c.m);
    c.target = c.metric;
    if (c.mnc == 1) c.metric = host(Omega_h::get_implied_isos(&tmp));
    else c.metric = host(Omega_h::get_implied_metrics(&tmp));
    tmp.add_tag<Real>(0, "metric", c.mnc, dev(c.metric));
    if (tmp.min_quality() < c.opts.min_quality_allowed || tmp.max_length() > c.opts.max_length_allowed || !c.opts.should_refine || !c.opts.should_coarsen || !c.opts.should_swap || !c.opts.should_coarsen_slivers || c.opts.max_length_allowed < 2.5 || c.opts.min_quality_allowed > 0.3) { c.driver = 0; c.metric = c.target; }
  }
  if (c.driver == 0 && (M_valid || M_geom) && r.chance(M_valid ? 0.12 : 0.08)) {
    c.driver = 2 + int(r.below(3));
    if (c.driver == 2 && (M_geom || dim == 1)) c.driver = 3;  // qualities do not guard a 1D mesh from being warped inside out
    auto& o = c.opts;
    o.should_refine = o.should_coarsen = o.should_swap = o.should_coarsen_slivers = true;
    Mesh tmp = build_serial(world->library()->self(), c.s, &c.m);
    if (c.driver == 4) c.target = c.metric;
    auto mt = c.mnc == 1 ? Omega_h::get_implied_isos(&tmp) : Omega_h::get_implied_metrics(&tmp);
    if (c.driver != 3) {
      c.metric = host(mt);
      tmp.add_tag<Real>(0, "metric", c.mnc, mt);
      double q = tmp.min_quality(), l = tmp.max_length();
      o.max_length_desired = std::max(1.5, o.max_length_desired);
      o.min_length_desired = std::min(o.min_length_desired, 0.5 * o.max_length_desired);
      o.max_length_allowed = std::max(l * 1.5, 2 * o.max_length_desired);
      o.min_quality_allowed = std::min(c.driver == 4 && r.chance(0.3) ? 0.4 : 0.3, c.driver == 4 && r.chance(0.3) ? 1.0 : 0.9 * q);
      o.min_quality_desired = std::max(o.min_quality_desired, o.min_quality_allowed);
      c.repair = o.min_quality_allowed > q;
    }
    if (c.driver == 2) {
      auto cd = host(tmp.get_array<I8>(0, "class_dim"));
      double far = r.real(0.05, 1.0) * make_tables(c).scale, dir[3];
      for (auto& y : dir) y = r.real(-1, 1);
      for (size_t v = 0; v < cd.size(); ++v) for (int k = 0; k < dim; ++k) c.warp.push_back(cd[v] == dim ? far * dir[k] * (0.5 + 0.5 * std::sin(double(v))) : 0.0);
    }
  }
  if (M_cons && c.driver == 0 && r.chance(0.2)) {
    c.driver = 5;
    c.err_tol = r.chance(0.3) ? 0.4 : r.chance(0.5) ? 0.1 : 0.02;
    auto v = Omega_h::VarCompareOpts{Omega_h::VarCompareOpts::RELATIVE, c.err_tol, 1e-12};
    if (r.chance(0.2)) { v = Omega_h::VarCompareOpts::none(); c.err_tol = -1; }
    for (auto n : {"mass", "energy", "cmass", "mom"}) c.opts.xfer_opts.integral_diffuse_map[n] = v;
    double t = c.err_tol < 0 ? 0.1 : c.err_tol;
    c.err_amp = t * (r.chance(0.2) ? 0.5 : r.real(2, 10));
    if (c.velocity) c.fixedv = c.fixedv || r.chance(0.5);
    c.err_mean = r.chance(0.3) ? 0.0 : 0.15 * t;
  }
  int style = int(r.below(4));
  if (r.chance(0.4)) style = 0;
  sample(fmt("%s metric=%s %s np=%d style=%d driver=%d fields=%d conserve=%d", c.s.desc.c_str(), c.mdesc.c_str(), opts_str(c.opts).c_str(), world->size(), style, c.driver, c.fields, c.conserve));
  if (M_sched) {
    uint64_t sd = r.u64();
    under_schedules(r, "adaptation", [&](Rec& rec) {
      bool ch = false;
      auto w = run_once(c, world, Rng(sd), style, &ch, false);
      rec.pod("return value", ch);
      auto& p = w[size_t(ctx().rank)];
      rec.raw("coordinates", string(reinterpret_cast<char const*>(p.x.data()), p.x.size() * 8));
      for (int d = 0; d <= p.dim; ++d) {
        auto& e = p.e[d];
        auto nm = fmt("dim %d ", d);
        rec.raw(nm + "globals", string(reinterpret_cast<char const*>(e.glob.data()), e.glob.size() * 8));
        rec.raw(nm + "vertices", string(reinterpret_cast<char const*>(e.verts.data()), e.verts.size() * 4));
        rec.raw(nm + "owner ranks", string(reinterpret_cast<char const*>(e.orank.data()), e.orank.size() * 4));
        rec.raw(nm + "owner indices", string(reinterpret_cast<char const*>(e.oidx.data()), e.oidx.size() * 4));
        for (auto& t : e.tags) rec.raw(nm + "tag " + t.name, t.bytes);
      }
    });
    return;
  }
  if (!M_same) { run_once(c, world, Rng(r.u64()), style, nullptr, true); return; }
  // partition independence: several distributions against one reference
  std::set<string> skip{"length", "quality", "size", "global"};
  std::set<string> approx;
  if (c.conserve) for (auto n : {"rho", "en", "cst", "den", "dcst", "vel"}) { skip.insert(n); approx.insert(n); }
  string ref; Global gref;
  bool changed0 = false;
  {
    Rng rr(r.u64());
    auto w = run_once(c, world, rr, 0, &changed0, false);
    gref = assemble(w);
    ref = canon(gref, skip);
  }
  int nalt = 2;
  for (int k = 0; k <= nalt; ++k) {
    bool ch = false;
    string got;
    World w;
    string what;
    if (k == 0) {
      // one rank, everybody else idle (each rank does it redundantly)
      if (world->size() == 1) continue;
      what = "one rank";
      int rk = ctx().rank;
      w = run_once(c, world->library()->self(), Rng(1), 0, &ch, false);
      (void)rk;
    } else {
      int st = int(r.range(1, 3));
      what = fmt("distribution style %d", st);
      w = run_once(c, world, Rng(r.u64()), st, &ch, false);
    }
    auto g = assemble(w);
    got = canon(g, skip);
    count("comparisons");
    VP_CHECK(ch == changed0, "same-result", "adapt returns %d with %s and %d otherwise", int(ch), what.c_str(), int(changed0));
    if (got != ref) {
      size_t i = 0;
      while (i < got.size() && i < ref.size() && got[i] == ref[i]) ++i;
      string df;
      std::set<string> names;
      for (int d = 0; d <= dim; ++d) for (auto& kv : g.tagmeta[d]) names.insert(kv.first);
      auto all = names;
      all.insert("global");
      if (canon(g, all) != canon(gref, all)) df = " shape";
      else for (auto& n : names) if (!skip.count(n)) { auto s2 = all; s2.erase(n); if (canon(g, s2) != canon(gref, s2)) df += " " + n; }
      viol("partition-dependent", fmt("result with %s differs (%s ): %zu/%zu elements, %zu/%zu vertices", what.c_str(), df.c_str(), g.e[dim].size(), gref.e[dim].size(), g.x.size(), gref.x.size()));
    }
  }
  // same run again, including numbering
  if (r.chance(0.5)) {
    uint64_t sd = r.u64();
    int st = int(r.below(4));
    auto a = run_once(c, world, Rng(sd), st, nullptr, false);
    auto b = run_once(c, world, Rng(sd), st, nullptr, false);
    count("repeat_comparisons");
    string sa, sb;
    for (auto& p : a) sa += ser(p);
    for (auto& p : b) sb += ser(p);
    VP_CHECK(sa == sb, "not-repeatable", "the same run gave two different results");
  }
}

int main(int argc, char** argv) {
  parse_args(argc, argv);
  LibArgs la(argc, argv);
  Library lib(&la.argc, &la.argv);
  auto world = lib.world();
  ctx().rank = world->rank(); ctx().size = world->size();
  string m = ctx().mode;
  M_valid = m == "valid" || m.empty(); M_geom = m == "geom"; M_qual = m == "quality"; M_field = m == "fields"; M_cons = m == "conserve"; M_same = m == "same"; M_sched = m == "sched";
  return run_cases([&](Rng& r, int64_t i) { one_case(world, r, i); });
}
