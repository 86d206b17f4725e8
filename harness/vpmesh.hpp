// Independent mesh generators, dumps of distributed meshes and validity oracles.
#pragma once
#include "vp.hpp"
#include <Omega_h_build.hpp>
#include <Omega_h_array_ops.hpp>
#include <Omega_h_map.hpp>
#include <Omega_h_comm.hpp>
#include <Omega_h_element.hpp>
#include <Omega_h_mark.hpp>
#include <Omega_h_dist.hpp>
#include <Omega_h_migrate.hpp>
#include <Omega_h_tag.hpp>
#include <mpi.h>

namespace vp {

// A plain serial mesh description: what the library is given.
struct Soup {
  int dim = 2;
  vector<double> x;       // nverts*dim
  vector<int> ev;         // nelems*(dim+1)
  vector<int> region;     // material per element
  int nv() const { return int(x.size()) / dim; }
  int nvpe = 0;           // vertices per element (0: simplex)
  int ne() const { return int(ev.size()) / (nvpe ? nvpe : dim + 1); }
  string desc;
};

struct GenOpts {
  int dim = 0;            // 0: random
  int max_cells = 0;      // 0: default
  int min_cells = 1;
  double amp = 0;         // 0: random perturbation of interior vertices
  bool holes = true;
  bool materials = true;
  bool perturb = true;
  bool affine = true;
  bool reorder = true;
};

inline double det3(double const* a, double const* b, double const* c) {
  return a[0] * (b[1] * c[2] - b[2] * c[1]) - a[1] * (b[0] * c[2] - b[2] * c[0]) + a[2] * (b[0] * c[1] - b[1] * c[0]);
}
// signed measure of an element
inline double elem_size(int dim, double const* const* p) {
  if (dim == 1) return p[1][0] - p[0][0];
  if (dim == 2) {
    double ax = p[1][0] - p[0][0], ay = p[1][1] - p[0][1], bx = p[2][0] - p[0][0], by = p[2][1] - p[0][1];
    return 0.5 * (ax * by - ay * bx);
  }
  double a[3], b[3], c[3];
  for (int i = 0; i < 3; ++i) { a[i] = p[1][i] - p[0][i]; b[i] = p[2][i] - p[0][i]; c[i] = p[3][i] - p[0][i]; }
  return det3(a, b, c) / 6.0;
}
// unsigned measure of a k-simplex with n=k+1 points in dim space
inline double simplex_measure(int dim, int k, double const* const* p) {
  double e[3][3] = {};
  for (int i = 0; i < k; ++i) for (int j = 0; j < dim; ++j) e[i][j] = p[i + 1][j] - p[0][j];
  double g[3][3];
  for (int i = 0; i < k; ++i) for (int j = 0; j < k; ++j) { g[i][j] = 0; for (int l = 0; l < dim; ++l) g[i][j] += e[i][l] * e[j][l]; }
  if (k == 0) return 1;
  if (k == 1) return std::sqrt(g[0][0]);
  if (k == 2) return 0.5 * std::sqrt(std::max(0.0, g[0][0] * g[1][1] - g[0][1] * g[1][0]));
  double e0[3], e1[3], e2[3];
  for (int l = 0; l < 3; ++l) { e0[l] = e[0][l]; e1[l] = e[1][l]; e2[l] = e[2][l]; }
  return std::fabs(det3(e0, e1, e2)) / 6.0;
}

inline bool even_perm(vector<int> const& p) {
  int inv = 0;
  for (size_t i = 0; i < p.size(); ++i) for (size_t j = i + 1; j < p.size(); ++j) inv += p[i] > p[j];
  return inv % 2 == 0;
}

// Random union of grid cells with materials, split into simplices, boundaries flat.
inline Soup gen_soup(Rng& r, GenOpts const& o) {
  Soup s;
  int dim = o.dim ? o.dim : int(r.range(1, 3));
  s.dim = dim;
  int maxc = o.max_cells ? o.max_cells : (dim == 1 ? 12 : dim == 2 ? 5 : 3);
  int n[3] = {1, 1, 1};
  for (int i = 0; i < dim; ++i) n[i] = int(r.range(std::min(o.min_cells, maxc), maxc));
  int nc = n[0] * n[1] * n[2];
  vector<int> mat(size_t(nc), 1);
  int kind = int(r.below(6));
  bool holes = o.holes && kind >= 3 && nc > 3;
  bool mats = o.materials && (kind % 2 == 1);
  if (mats) {
    int ax = int(r.below(dim)), cut = int(r.range(0, n[ax])), style = int(r.below(2));
    for (int c = 0; c < nc; ++c) {
      int ijk[3] = {c % n[0], (c / n[0]) % n[1], c / (n[0] * n[1])};
      if (style == 0) mat[size_t(c)] = ijk[ax] < cut ? 1 : 2;
      else mat[size_t(c)] = 1 + int(r.below(3));
    }
  }
  if (holes) {
    int nh = int(r.range(1, std::max(1, nc / 4)));
    for (int h = 0; h < nh; ++h) mat[size_t(r.below(nc))] = 0;
    bool any = false;
    for (int m : mat) any = any || m;
    if (!any) mat[0] = 1;
  }
  // vertex ids
  int nvx[3] = {n[0] + 1, dim > 1 ? n[1] + 1 : 1, dim > 2 ? n[2] + 1 : 1};
  vector<int> vid(size_t(nvx[0]) * size_t(nvx[1]) * size_t(nvx[2]), -1);
  vector<std::array<int, 3>> gv;
  auto getv = [&](int i, int j, int k) {
    auto& v = vid[size_t(i + nvx[0] * (j + nvx[1] * k))];
    if (v < 0) { v = int(gv.size()); gv.push_back({{i, j, k}}); }
    return v;
  };
  vector<vector<int>> elems;
  for (int c = 0; c < nc; ++c) {
    if (!mat[size_t(c)]) continue;
    int ijk[3] = {c % n[0], (c / n[0]) % n[1], c / (n[0] * n[1])};
    vector<int> perm;
    for (int i = 0; i < dim; ++i) perm.push_back(i);
    do {  // Kuhn split
      int q[3] = {ijk[0], ijk[1], ijk[2]};
      vector<int> e{getv(q[0], q[1], q[2])};
      for (int i = 0; i < dim; ++i) { q[perm[size_t(i)]]++; e.push_back(getv(q[0], q[1], q[2])); }
      if (!even_perm(perm)) std::swap(e[size_t(dim) - 1], e[size_t(dim)]);
      elems.push_back(e);
      s.region.push_back(mat[size_t(c)]);
    } while (std::next_permutation(perm.begin(), perm.end()));
  }
  int nv = int(gv.size());
  double h[3];
  for (int i = 0; i < 3; ++i) h[i] = r.chance(0.3) ? 1.0 : r.real(0.6, 1.6);
  s.x.resize(size_t(nv * dim));
  // interior vertices: all incident sides are shared by same-material elements
  vector<char> bdry(size_t(nv), 0);
  {
    std::map<vector<int>, vector<int>> sides;
    for (size_t e = 0; e < elems.size(); ++e)
      for (int k = 0; k <= dim; ++k) {
        vector<int> f;
        for (int j = 0; j <= dim; ++j) if (j != k) f.push_back(elems[e][size_t(j)]);
        std::sort(f.begin(), f.end());
        sides[f].push_back(s.region[e]);
      }
    for (auto& kv : sides)
      if (kv.second.size() == 1 || kv.second[0] != kv.second[1])
        for (int v : kv.first) bdry[size_t(v)] = 1;
  }
  double amp = (o.perturb && r.chance(0.7)) ? r.real(0.02, dim == 3 ? 0.12 : 0.2) : 0.0;
  if (o.amp > 0) amp = o.amp;
  double A[3][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}};
  if (o.affine && r.chance(0.5)) {
    double sc = r.chance(0.3) ? std::pow(10.0, r.real(-3, 3)) : 1.0;
    for (int i = 0; i < dim; ++i) for (int j = 0; j < dim; ++j) A[i][j] = (i == j) ? 1 : r.real(-0.35, 0.35);
    for (int i = 0; i < dim; ++i) for (int j = 0; j < dim; ++j) A[i][j] *= sc;
  }
  double t[3];
  for (auto& q : t) q = r.chance(0.5) ? 0.0 : r.real(-3, 3);
  for (int v = 0; v < nv; ++v) {
    double p[3];
    for (int i = 0; i < dim; ++i) p[i] = h[i] * (gv[size_t(v)][size_t(i)] + (bdry[size_t(v)] ? 0.0 : amp * r.real(-1, 1)));
    for (int i = 0; i < dim; ++i) {
      double y = t[i];
      for (int j = 0; j < dim; ++j) y += A[i][j] * p[j];
      s.x[size_t(v * dim + i)] = y;
    }
  }
  double det = dim == 1 ? A[0][0] : dim == 2 ? A[0][0] * A[1][1] - A[0][1] * A[1][0] : det3(A[0], A[1], A[2]);
  if (det < 0) for (auto& e : elems) std::swap(e[0], e[1]);
  if (o.reorder && r.chance(0.7)) {
    vector<int> pv(static_cast<size_t>(nv));
    for (int i = 0; i < nv; ++i) pv[size_t(i)] = i;
    r.shuffle(pv);
    vector<double> x2(s.x.size());
    for (int v = 0; v < nv; ++v) for (int i = 0; i < dim; ++i) x2[size_t(pv[size_t(v)] * dim + i)] = s.x[size_t(v * dim + i)];
    s.x = x2;
    vector<int> pe(elems.size());
    for (size_t i = 0; i < pe.size(); ++i) pe[i] = int(i);
    r.shuffle(pe);
    vector<vector<int>> e2(elems.size());
    vector<int> r2(elems.size());
    for (size_t i = 0; i < pe.size(); ++i) {
      auto e = elems[size_t(pe[i])];
      for (auto& v : e) v = pv[size_t(v)];
      vector<int> p;
      for (int k = 0; k <= dim; ++k) p.push_back(k);
      if (dim > 1) do r.shuffle(p); while (!even_perm(p));
      vector<int> q;
      for (int k : p) q.push_back(e[size_t(k)]);
      e2[i] = q;
      r2[i] = s.region[size_t(pe[i])];
    }
    elems = e2;
    s.region = r2;
  }
  for (auto& e : elems) for (int v : e) s.ev.push_back(v);
  s.desc = fmt("%dD cells=%dx%dx%d mats=%d holes=%d amp=%.3f nv=%d ne=%d", dim, n[0], n[1], n[2], int(mats), int(holes), amp, s.nv(), s.ne());
  return s;
}

// Random union of grid cells as quads/hexes (or 1D edges); element corners in a
// random but orientation-preserving order.
inline Soup gen_hyper(Rng& r, int dim0 = 0, int maxc0 = 0, bool holes = true) {
  Soup s;
  int dim = dim0 ? dim0 : int(r.range(1, 3));
  s.dim = dim;
  int maxc = maxc0 ? maxc0 : (dim == 1 ? 10 : dim == 2 ? 5 : 3);
  int n[3] = {1, 1, 1};
  for (int i = 0; i < dim; ++i) n[i] = int(r.range(1, maxc));
  int nc = n[0] * n[1] * n[2];
  vector<int> on(size_t(nc), 1);
  if (holes && r.chance(0.4)) { for (int h = 0; h < nc / 4; ++h) on[size_t(r.below(nc))] = 0; on[size_t(r.below(nc))] = 1; }
  static int const L[8][3] = {{0, 0, 0}, {1, 0, 0}, {1, 1, 0}, {0, 1, 0}, {0, 0, 1}, {1, 0, 1}, {1, 1, 1}, {0, 1, 1}};
  int nvx[3] = {n[0] + 1, n[1] + 1, n[2] + 1};
  vector<int> vid(size_t(nvx[0] * nvx[1] * nvx[2]), -1);
  vector<std::array<int, 3>> gv;
  vector<int> perm_v;
  vector<vector<int>> elems;
  bool rot = r.chance(0.6);
  for (int c = 0; c < nc; ++c) {
    if (!on[size_t(c)]) continue;
    int ijk[3] = {c % n[0], (c / n[0]) % n[1], c / (n[0] * n[1])};
    vector<int> p;
    for (int i = 0; i < dim; ++i) p.push_back(i);
    vector<int> flip(3, 0);
    if (rot) {
      for (;;) {
        r.shuffle(p);
        int nf = 0;
        for (int i = 0; i < dim; ++i) nf += (flip[size_t(i)] = int(r.below(2)));
        if (even_perm(p) == (nf % 2 == 0)) break;
      }
    }
    vector<int> e;
    for (int k = 0; k < (1 << dim); ++k) {
      int q[3] = {ijk[0], ijk[1], ijk[2]};
      for (int i = 0; i < dim; ++i) { int l = L[k][p[size_t(i)]]; q[i] += flip[size_t(i)] ? 1 - l : l; }
      auto& v = vid[size_t(q[0] + nvx[0] * (q[1] + nvx[1] * q[2]))];
      if (v < 0) { v = int(gv.size()); gv.push_back({{q[0], q[1], q[2]}}); }
      e.push_back(v);
    }
    elems.push_back(e);
  }
  int nv = int(gv.size());
  vector<int> pv(static_cast<size_t>(nv));
  for (int i = 0; i < nv; ++i) pv[size_t(i)] = i;
  if (rot) { r.shuffle(pv); r.shuffle(elems); }
  s.x.resize(size_t(nv * dim));
  double sx = r.chance(0.5) ? 1.0 : r.real(0.5, 2);
  for (int v = 0; v < nv; ++v) for (int i = 0; i < dim; ++i) s.x[size_t(pv[size_t(v)] * dim + i)] = gv[size_t(v)][size_t(i)] * (i ? 1.0 : sx);
  for (auto& e : elems) for (int v : e) s.ev.push_back(pv[size_t(v)]);
  s.region.assign(elems.size(), 1);
  s.nvpe = 1 << dim;
  s.desc = fmt("hypercube %dD cells=%dx%dx%d nv=%d ne=%d rot=%d", dim, n[0], n[1], n[2], nv, int(elems.size()), int(rot));
  return s;
}

// ---- model classification, derived from the soup alone
struct ClassOut { vector<int> dim, id; };
using VKey = vector<int>;  // sorted local vertex ids
struct Model {
  // for each entity (by sorted vertices) of dim d: class dim and id
  std::map<VKey, std::pair<int, int>> cls[4];
};
inline vector<VKey> subsets(VKey const& e, int k) {  // all k-subsets, sorted
  vector<VKey> out;
  VKey s = e;
  std::sort(s.begin(), s.end());
  int n = int(s.size());
  for (int m = 0; m < (1 << n); ++m) {
    if (__builtin_popcount(unsigned(m)) != k) continue;
    VKey q;
    for (int i = 0; i < n; ++i) if (m >> i & 1) q.push_back(s[size_t(i)]);
    out.push_back(q);
  }
  return out;
}
struct UF {
  vector<int> p;
  int find(int a) { while (p[size_t(a)] != a) a = p[size_t(a)] = p[size_t(p[size_t(a)])]; return a; }
  int add() { p.push_back(int(p.size())); return p.back(); }
  void join(int a, int b) { p[size_t(find(a))] = find(b); }
};
inline Model make_model(Soup const& s) {
  Model m;
  int dim = s.dim;
  int nvpe = dim + 1;
  std::map<VKey, vector<int>> side_elems;
  for (int e = 0; e < s.ne(); ++e) {
    VKey ek(s.ev.begin() + e * nvpe, s.ev.begin() + (e + 1) * nvpe);
    std::sort(ek.begin(), ek.end());
    m.cls[dim][ek] = {dim, s.region[size_t(e)]};
    for (auto& k : subsets(ek, dim)) side_elems[k].push_back(e);
  }
  // lower entities start interior to the region of some adjacent element
  for (int d = 0; d < dim; ++d)
    for (auto& kv : m.cls[dim])
      for (auto& k : subsets(kv.first, d + 1)) m.cls[d].emplace(k, kv.second);
  auto coplanar = [&](VKey const& a, VKey const& b) {
    // do the two (dim-1)-simplices span the same hyperplane
    std::set<int> u(a.begin(), a.end());
    u.insert(b.begin(), b.end());
    vector<int> q(u.begin(), u.end());
    if (dim == 1) return false;
    vector<double const*> p;
    for (int v : q) p.push_back(&s.x[size_t(v * dim)]);
    if (int(q.size()) != dim + 1) return int(q.size()) <= dim;
    double sz = std::fabs(elem_size(dim, p.data()));
    double sc = 0;
    for (size_t i = 1; i < p.size(); ++i) { double l = 0; for (int j = 0; j < dim; ++j) l += (p[i][j] - p[0][j]) * (p[i][j] - p[0][j]); sc = std::max(sc, std::sqrt(l)); }
    return sz < 1e-9 * std::pow(sc, dim);
  };
  // boundary / interface sides
  vector<VKey> bs;
  std::map<VKey, std::pair<int, int>> mats;
  for (auto& kv : side_elems) {
    int m1 = s.region[size_t(kv.second[0])], m2 = kv.second.size() > 1 ? s.region[size_t(kv.second[1])] : 0;
    if (m1 == m2) continue;
    bs.push_back(kv.first);
    mats[kv.first] = {std::min(m1, m2), std::max(m1, m2)};
  }
  int next_id = 100;
  // generic: group entities of dim d classified on model-dim d, joined through (d-1)-entities
  std::function<void(int, vector<VKey> const&, std::map<VKey, vector<int>> const&)> group;
  group = [&](int d, vector<VKey> const& ents, std::map<VKey, vector<int>> const& key) {
    UF uf;
    std::map<VKey, int> idx;
    for (auto& e : ents) idx[e] = uf.add();
    std::map<VKey, vector<VKey>> hinges;
    for (auto& e : ents) if (d > 0) for (auto& k : subsets(e, d)) hinges[k].push_back(e);
    auto straight = [&](VKey const& a, VKey const& b) {
      if (d == dim - 1) return coplanar(a, b);
      // edges in 3D: collinear
      std::set<int> u(a.begin(), a.end());
      u.insert(b.begin(), b.end());
      vector<int> q(u.begin(), u.end());
      if (q.size() != 3) return false;
      double const* p[3];
      for (int i = 0; i < 3; ++i) p[i] = &s.x[size_t(q[size_t(i)] * dim)];
      double ar = simplex_measure(dim, 2, p), l = simplex_measure(dim, 1, p) + simplex_measure(dim, 1, p + 1);
      return ar < 1e-9 * l * l;
    };
    if (d > 0)
      for (auto& kv : hinges)
        if (kv.second.size() == 2 && key.at(kv.second[0]) == key.at(kv.second[1]) && straight(kv.second[0], kv.second[1]))
          uf.join(idx[kv.second[0]], idx[kv.second[1]]);
    std::map<int, int> ids;
    for (auto& e : ents) {
      int root = uf.find(idx[e]);
      if (!ids.count(root)) ids[root] = next_id++;
      m.cls[d][e] = {d, ids[root]};
    }
    if (d == 0) return;
    // lower entities: on one model entity of dim d, or a model entity of dim d-1
    vector<VKey> low;
    std::map<VKey, vector<int>> lkey;
    for (auto& kv : hinges) {
      std::set<int> on;
      for (auto& e : kv.second) on.insert(m.cls[d][e].second);
      if (on.size() == 1 && kv.second.size() == 2) {
        m.cls[d - 1][kv.first] = {d, *on.begin()};
      } else {
        low.push_back(kv.first);
        lkey[kv.first] = vector<int>(on.begin(), on.end());
      }
    }
    // everything below hinges first takes the class of a d-entity
    for (int dd = d - 2; dd >= 0; --dd)
      for (auto& e : ents) for (auto& k : subsets(e, dd + 1)) m.cls[dd][k] = m.cls[d][e];
    group(d - 1, low, lkey);
  };
  std::map<VKey, vector<int>> k0;
  for (auto& e : bs) k0[e] = {mats[e].first, mats[e].second};
  group(dim - 1, bs, k0);
  return m;
}

// Build a serial library mesh from a soup and classify it.
inline Mesh build_serial(CommPtr self, Soup const& s, Model const* model = nullptr) {
  Mesh mesh(self->library());
  Omega_h::build_from_elems_and_coords(&mesh, OMEGA_H_SIMPLEX, s.dim, dev(conv<LO>(s.ev)), dev(s.x));
  Model mm;
  if (!model) { mm = make_model(s); model = &mm; }
  for (int d = 0; d <= s.dim; ++d) {
    LO n = mesh.nents(d);
    vector<LO> ev = d ? host(mesh.ask_verts_of(d)) : vector<LO>();
    Omega_h::HostWrite<LO> ids(n);
    Omega_h::HostWrite<I8> dims(n);
    for (LO e = 0; e < n; ++e) {
      VKey k;
      if (d == 0) k = {e};
      else for (int j = 0; j <= d; ++j) k.push_back(ev[size_t(e * (d + 1) + j)]);
      std::sort(k.begin(), k.end());
      auto it = model->cls[d].find(k);
      if (it == model->cls[d].end()) { viol("unknown-entity", fmt("library built a dim %d entity that is not in the element list", d)); ids[e] = 1; dims[e] = I8(s.dim); continue; }
      dims[e] = I8(it->second.first);
      ids[e] = it->second.second;
    }
    mesh.add_tag<I8>(d, "class_dim", 1, Read<I8>(dims.write()));
    mesh.add_tag<LO>(d, "class_id", 1, Read<LO>(ids.write()));
  }
  return mesh;
}

// ---------------------------------------------------------------- dumps
struct TagDump { string name; int type = 0; int ncomps = 1; string bytes; };
struct EntDump {
  int n = -1;
  vector<GO> glob;
  vector<int> orank, oidx;
  vector<int> verts;  // local verts, stride
  vector<TagDump> tags;
};
struct PartDump {
  int rank = 0, dim = 0, family = 0, parting = 0, nghost = 0, commsize = 1;
  vector<double> x;
  EntDump e[4];
};
struct Buf {
  string s;
  template <class T> void pod(T const& t) { s.append(reinterpret_cast<char const*>(&t), sizeof t); }
  template <class T> void vec(vector<T> const& v) { pod(v.size()); s.append(reinterpret_cast<char const*>(v.data()), v.size() * sizeof(T)); }
  void str(string const& q) { pod(q.size()); s += q; }
};
struct RBuf {
  string const& s; size_t p = 0;
  explicit RBuf(string const& q) : s(q) {}
  template <class T> void pod(T& t) { std::memcpy(&t, &s[p], sizeof t); p += sizeof t; }
  template <class T> void vec(vector<T>& v) { size_t n; pod(n); v.resize(n); if (n) std::memcpy(v.data(), &s[p], n * sizeof(T)); p += n * sizeof(T); }
  void str(string& q) { size_t n; pod(n); q.assign(s, p, n); p += n; }
};
template <class T> string bytes_of(Read<T> a) {
  auto v = host(a);
  return string(reinterpret_cast<char const*>(v.data()), v.size() * sizeof(T));
}
inline TagDump dump_tag(Omega_h::TagBase const* t) {
  TagDump d;
  d.name = t->name(); d.type = int(t->type()); d.ncomps = t->ncomps();
  switch (t->type()) {
    case OMEGA_H_I8: d.bytes = bytes_of(Omega_h::as<I8>(t)->array()); break;
    case OMEGA_H_I32: d.bytes = bytes_of(Omega_h::as<I32>(t)->array()); break;
    case OMEGA_H_I64: d.bytes = bytes_of(Omega_h::as<I64>(t)->array()); break;
    case OMEGA_H_F64: d.bytes = bytes_of(Omega_h::as<Real>(t)->array()); break;
  }
  return d;
}
inline int nverts_of(int family, int d) {
  static int const S[4] = {1, 2, 3, 4}, H[4] = {1, 2, 4, 8};
  return family == OMEGA_H_SIMPLEX ? S[d] : H[d];
}
inline PartDump dump_part(Mesh* m, bool tags = true) {
  PartDump p;
  p.rank = m->comm()->rank(); p.commsize = m->comm()->size();
  p.dim = m->dim(); p.family = int(m->family()); p.parting = int(m->parting()); p.nghost = m->nghost_layers();
  if (m->has_tag(0, "coordinates")) p.x = host(m->coords());
  for (int d = 0; d <= p.dim; ++d) {
    auto& e = p.e[d];
    e.n = m->nents(d);
    e.glob = host(m->globals(d));
    auto o = m->ask_owners(d);
    e.orank = host(o.ranks);
    e.oidx = host(o.idxs);
    if (d) e.verts = host(m->ask_verts_of(d));
    if (tags) {
      for (int i = 0; i < m->ntags(d); ++i) e.tags.push_back(dump_tag(m->get_tag(d, i)));
      std::sort(e.tags.begin(), e.tags.end(), [](TagDump const& a, TagDump const& b) { return a.name < b.name; });
    }
  }
  return p;
}
inline string ser(PartDump const& p) {
  Buf b;
  int h[6] = {p.rank, p.dim, p.family, p.parting, p.nghost, p.commsize};
  b.pod(h); b.vec(p.x);
  for (int d = 0; d <= p.dim; ++d) {
    auto& e = p.e[d];
    b.pod(e.n); b.vec(e.glob); b.vec(e.orank); b.vec(e.oidx); b.vec(e.verts);
    b.pod(e.tags.size());
    for (auto& t : e.tags) { b.str(t.name); b.pod(t.type); b.pod(t.ncomps); b.str(t.bytes); }
  }
  return b.s;
}
inline PartDump deser(string const& s) {
  PartDump p;
  RBuf b(s);
  int h[6];
  b.pod(h);
  p.rank = h[0]; p.dim = h[1]; p.family = h[2]; p.parting = h[3]; p.nghost = h[4]; p.commsize = h[5];
  b.vec(p.x);
  for (int d = 0; d <= p.dim; ++d) {
    auto& e = p.e[d];
    b.pod(e.n); b.vec(e.glob); b.vec(e.orank); b.vec(e.oidx); b.vec(e.verts);
    size_t nt; b.pod(nt);
    e.tags.resize(nt);
    for (auto& t : e.tags) { b.str(t.name); b.pod(t.type); b.pod(t.ncomps); b.str(t.bytes); }
  }
  return p;
}
// gather strings onto every rank of an MPI communicator
inline vector<string> allgather_str(MPI_Comm c, string const& mine) {
  int n; MPI_Comm_size(c, &n);
  int len = int(mine.size());
  vector<int> lens(static_cast<size_t>(n)), off(static_cast<size_t>(n));
  MPI_Allgather(&len, 1, MPI_INT, lens.data(), 1, MPI_INT, c);
  int tot = 0;
  for (int i = 0; i < n; ++i) { off[size_t(i)] = tot; tot += lens[size_t(i)]; }
  string all(static_cast<size_t>(tot) + 1, '\0');
  MPI_Allgatherv(mine.data(), len, MPI_CHAR, &all[0], lens.data(), off.data(), MPI_CHAR, c);
  vector<string> r;
  for (int i = 0; i < n; ++i) r.push_back(all.substr(size_t(off[size_t(i)]), size_t(lens[size_t(i)])));
  return r;
}
using World = vector<PartDump>;
// every rank of the mesh's communicator gets the whole picture
inline World dump_world(Mesh* m, bool tags = true) {
  auto all = allgather_str(m->comm()->get_impl(), ser(dump_part(m, tags)));
  World w;
  for (auto& s : all) w.push_back(deser(s));
  return w;
}

// ---------------------------------------------------------------- oracles
// Consistency of a distributed mesh. Returns false after the first error kind.
inline bool check_world(World const& w, string const& where) {
  int64_t before = ctx().nviol;
  int dim = w[0].dim;
  for (auto& p : w) {
    if (p.dim != dim || p.family != w[0].family || p.parting != w[0].parting) { viol("ranks-disagree", where + ": dim/family/parting differ between ranks"); return false; }
  }
  for (int d = 0; d <= dim; ++d) {
    std::map<GO, std::pair<int, int>> owner;  // global -> (rank, idx)
    GO maxg = -1;
    for (auto& p : w) {
      auto& e = p.e[d];
      if (int(e.glob.size()) != e.n || int(e.orank.size()) != e.n || int(e.oidx.size()) != e.n) { viol("sizes", where + ": array sizes"); return false; }
      std::set<GO> mine;
      for (int i = 0; i < e.n; ++i) {
        if (!mine.insert(e.glob[size_t(i)]).second) { viol("duplicate-copy", fmt("%s: rank %d holds two copies of dim %d global %lld", where.c_str(), p.rank, d, (long long)e.glob[size_t(i)])); return false; }
        maxg = std::max(maxg, e.glob[size_t(i)]);
        if (e.orank[size_t(i)] == p.rank) {
          if (e.oidx[size_t(i)] != i) { viol("self-owner", fmt("%s: rank %d dim %d entity %d says it is owned by own rank at %d", where.c_str(), p.rank, d, i, e.oidx[size_t(i)])); return false; }
          if (!owner.insert({e.glob[size_t(i)], {p.rank, i}}).second) { viol("two-owners", fmt("%s: dim %d global %lld owned twice", where.c_str(), d, (long long)e.glob[size_t(i)])); return false; }
        }
      }
    }
    count("entities_checked", int64_t(owner.size()));
    if (GO(owner.size()) != maxg + 1 || (owner.size() && owner.begin()->first != 0)) { viol("globals-not-contiguous", fmt("%s: dim %d has %zu owned globals, max %lld", where.c_str(), d, owner.size(), (long long)maxg)); return false; }
    for (auto& p : w) {
      auto& e = p.e[d];
      for (int i = 0; i < e.n; ++i) {
        auto it = owner.find(e.glob[size_t(i)]);
        if (it == owner.end()) { viol("no-owner", fmt("%s: dim %d global %lld has no owner", where.c_str(), d, (long long)e.glob[size_t(i)])); return false; }
        if (it->second != std::make_pair(e.orank[size_t(i)], e.oidx[size_t(i)])) { viol("owner-mismatch", fmt("%s: rank %d dim %d copy %d of global %lld names owner (%d,%d) but (%d,%d) owns it", where.c_str(), p.rank, d, i, (long long)e.glob[size_t(i)], e.orank[size_t(i)], e.oidx[size_t(i)], it->second.first, it->second.second)); return false; }
        auto& q = w[size_t(it->second.first)];
        auto& oe = q.e[d];
        int oi = it->second.second;
        if (d) {
          int k = nverts_of(p.family, d);
          for (int j = 0; j < k; ++j) {
            GO a = p.e[0].glob[size_t(e.verts[size_t(i * k + j)])], b = q.e[0].glob[size_t(oe.verts[size_t(oi * k + j)])];
            if (a != b) { viol("copy-verts", fmt("%s: rank %d dim %d copy of global %lld has other vertices than its owner", where.c_str(), p.rank, d, (long long)e.glob[size_t(i)])); return false; }
          }
        }
        if (e.tags.size() != oe.tags.size()) { viol("copy-tagset", fmt("%s: dim %d tag sets differ between ranks", where.c_str(), d)); return false; }
        for (size_t t = 0; t < e.tags.size(); ++t) {
          auto& a = e.tags[t]; auto& b = oe.tags[t];
          if (a.name != b.name || a.type != b.type || a.ncomps != b.ncomps) { viol("copy-tagset", fmt("%s: dim %d tag %s differs between ranks", where.c_str(), d, a.name.c_str())); return false; }
          size_t wdt = a.bytes.size() / size_t(e.n);
          if (a.bytes.size() != wdt * size_t(e.n) || b.bytes.size() != wdt * size_t(oe.n)) { viol("tag-size", where + ": tag array has wrong size " + a.name); return false; }
          if (a.bytes.compare(wdt * size_t(i), wdt, b.bytes, wdt * size_t(oi), wdt) != 0) { viol("copy-tag-value", fmt("%s: rank %d dim %d copy of global %lld: tag %s differs from its owner's", where.c_str(), p.rank, d, (long long)e.glob[size_t(i)], a.name.c_str())); return false; }
        }
      }
    }
  }
  return ctx().nviol == before;
}

// The global mesh assembled from owned entities.
struct GEnt { vector<GO> v; std::map<string, string> tags; };
struct Global {
  int dim = 0, family = 0;
  std::map<GO, std::array<double, 3>> x;
  std::map<GO, GEnt> e[4];
  std::map<string, std::pair<int, int>> tagmeta[4];  // name -> (type, ncomps)
};
inline Global assemble(World const& w) {
  Global g;
  g.dim = w[0].dim; g.family = w[0].family;
  for (auto& p : w)
    for (int d = 0; d <= g.dim; ++d) {
      auto& e = p.e[d];
      for (auto& t : e.tags) g.tagmeta[d][t.name] = {t.type, t.ncomps};
      for (int i = 0; i < e.n; ++i) {
        if (e.orank[size_t(i)] != p.rank) continue;
        GEnt q;
        if (d) { int k = nverts_of(p.family, d); for (int j = 0; j < k; ++j) q.v.push_back(p.e[0].glob[size_t(e.verts[size_t(i * k + j)])]); }
        for (auto& t : e.tags) { size_t wd = t.bytes.size() / size_t(e.n); q.tags[t.name] = t.bytes.substr(wd * size_t(i), wd); }
        if (d == 0 && !p.x.empty()) { std::array<double, 3> c{{0, 0, 0}}; for (int j = 0; j < g.dim; ++j) c[size_t(j)] = p.x[size_t(i * g.dim + j)]; g.x[e.glob[size_t(i)]] = c; }
        g.e[d][e.glob[size_t(i)]] = q;
      }
    }
  return g;
}
template <class T> T tagval(GEnt const& e, string const& name, int comp = 0) {
  T t;
  std::memcpy(&t, e.tags.at(name).data() + size_t(comp) * sizeof(T), sizeof(T));
  return t;
}
struct Topo {
  int64_t euler = 0, bdry_euler = 0;
  int ncomp = 0, nbcomp = 0;
  bool operator==(Topo const& o) const { return euler == o.euler && ncomp == o.ncomp && nbcomp == o.nbcomp && bdry_euler == o.bdry_euler; }
  string str() const { return fmt("euler=%lld bdry_euler=%lld comps=%d bdry_comps=%d", (long long)euler, (long long)bdry_euler, ncomp, nbcomp); }
};
// Validity of a simplex mesh: positive size, conforming, complete, no orphans.
inline bool check_simplex(Global const& g, string const& where, Topo* topo = nullptr, double* min_rel = nullptr) {
  int dim = g.dim;
  int64_t before = ctx().nviol;
  std::map<vector<GO>, int> all[4];
  std::map<vector<GO>, vector<GO>> side_up;
  auto sorted = [](vector<GO> v) { std::sort(v.begin(), v.end()); return v; };
  for (auto& kv : g.e[dim]) {
    auto& v = kv.second.v;
    vector<double const*> p;
    double sc = 0;
    for (GO q : v) {
      auto it = g.x.find(q);
      if (it == g.x.end()) { viol("missing-vertex", where); return false; }
      p.push_back(it->second.data());
      for (int j = 0; j < dim; ++j) if (!std::isfinite(it->second[size_t(j)])) { viol("nonfinite-coords", where); return false; }
    }
    for (size_t i = 1; i < p.size(); ++i) sc = std::max(sc, [&] { double l = 0; for (int j = 0; j < dim; ++j) l += (p[i][j] - p[0][j]) * (p[i][j] - p[0][j]); return std::sqrt(l); }());
    double sz = elem_size(dim, p.data());
    if (!(sz > 0)) { viol("inverted-element", fmt("%s: element %lld has size %g", where.c_str(), (long long)kv.first, sz)); return false; }
    if (min_rel) *min_rel = std::min(*min_rel, sz / std::pow(sc, dim));
    auto k = sorted(v);
    if (std::set<GO>(k.begin(), k.end()).size() != k.size()) { viol("degenerate-element", where); return false; }
    if (!all[dim].insert({k, 1}).second) { viol("duplicate-element", fmt("%s: two elements with the same vertices", where.c_str())); return false; }
    for (int i = 0; i <= dim; ++i) { auto f = k; f.erase(f.begin() + i); side_up[f].push_back(kv.first); }
    for (int m = 1; m < (1 << (dim + 1)); ++m) {
      int pc = __builtin_popcount(unsigned(m));
      if (pc > dim) continue;
      vector<GO> q;
      for (int i = 0; i <= dim; ++i) if (m >> i & 1) q.push_back(k[size_t(i)]);
      all[pc - 1][q]++;
    }
  }
  for (int d = 0; d < dim; ++d) {
    std::set<vector<GO>> have;
    for (auto& kv : g.e[d]) {
      auto k = d ? sorted(kv.second.v) : vector<GO>{kv.first};
      if (!all[d].count(k)) { viol("orphan-entity", fmt("%s: dim %d entity %lld bounds no element", where.c_str(), d, (long long)kv.first)); return false; }
      if (!have.insert(k).second) { viol("duplicate-entity", fmt("%s: dim %d entity duplicated", where.c_str(), d)); return false; }
    }
    if (have.size() != all[d].size()) { viol("missing-entity", fmt("%s: dim %d has %zu entities but elements use %zu", where.c_str(), d, have.size(), all[d].size())); return false; }
  }
  // no two distinct vertices at the same place
  std::set<std::array<double, 3>> pos;
  for (auto& kv : g.x) if (!pos.insert(kv.second).second) { viol("coincident-vertices", where); return false; }
  std::map<GO, int> vi;
  UF uf, ub;
  for (auto& kv : g.e[0]) { vi[kv.first] = uf.add(); ub.add(); }
  std::set<vector<GO>> bents[3];
  for (auto& kv : side_up) {
    if (kv.second.size() > 2) { viol("nonmanifold-side", fmt("%s: a side is shared by %zu elements", where.c_str(), kv.second.size())); return false; }
    if (kv.second.size() == 1) {
      for (size_t i = 1; i < kv.first.size(); ++i) ub.join(vi[kv.first[0]], vi[kv.first[i]]);
      int n = int(kv.first.size());
      for (int m = 1; m < (1 << n); ++m) { vector<GO> q; for (int i = 0; i < n; ++i) if (m >> i & 1) q.push_back(kv.first[size_t(i)]); bents[q.size() - 1].insert(q); }
    } else if (dim > 1) {
      // the two elements must lie on opposite sides of the shared side
      auto& a = g.e[dim].at(kv.second[0]).v;
      auto& b = g.e[dim].at(kv.second[1]).v;
      auto par = [&](vector<GO> const& v) {  // parity of side order in the element
        vector<int> p;
        int opp = -1;
        for (size_t i = 0; i < v.size(); ++i) {
          auto it = std::find(kv.first.begin(), kv.first.end(), v[i]);
          if (it == kv.first.end()) opp = int(i); else p.push_back(int(it - kv.first.begin()));
        }
        return even_perm(p) ^ (opp % 2 == 1);
      };
      if (par(a) == par(b)) { viol("folded-side", fmt("%s: two elements lie on the same side of their common side", where.c_str())); return false; }
    }
  }
  for (auto& kv : g.e[dim]) for (size_t i = 1; i < kv.second.v.size(); ++i) uf.join(vi[kv.second.v[0]], vi[kv.second.v[i]]);
  if (topo) {
    topo->euler = 0;
    for (int d = 0; d <= dim; ++d) topo->euler += (d % 2 ? -1 : 1) * int64_t(g.e[d].size());
    std::set<int> c, bc;
    for (auto& kv : vi) c.insert(uf.find(kv.second));
    topo->ncomp = int(c.size());
    for (auto& q : bents[0]) bc.insert(ub.find(vi[q[0]]));
    topo->nbcomp = int(bc.size());
    topo->bdry_euler = 0;
    for (int d = 0; d < dim; ++d) topo->bdry_euler += (d % 2 ? -1 : 1) * int64_t(bents[d].size());
  }
  return ctx().nviol == before;
}

// canonical, numbering-independent form: map from sorted vertex coordinates
inline string canon(Global const& g, std::set<string> const& skip_tags, bool with_lower = true) {
  std::map<std::array<double, 3>, int> order;
  for (auto& kv : g.x) order[kv.second] = 0;
  int n = 0;
  for (auto& kv : order) kv.second = n++;
  std::map<GO, int> vo;
  for (auto& kv : g.x) vo[kv.first] = order[kv.second];
  Buf b;
  for (auto& kv : order) b.pod(kv.first);
  for (int d = with_lower ? 0 : g.dim; d <= g.dim; ++d) {
    std::map<vector<int>, string> ents;
    for (auto& kv : g.e[d]) {
      vector<int> k;
      if (d) for (GO q : kv.second.v) k.push_back(vo[q]); else k.push_back(vo[kv.first]);
      std::sort(k.begin(), k.end());
      string t;
      for (auto& tk : kv.second.tags) if (!skip_tags.count(tk.first)) { t += tk.first; t += ':'; t += tk.second; t += ';'; }
      ents[k] += t;
    }
    for (auto& kv : ents) { b.vec(kv.first); b.str(kv.second); }
  }
  return b.s;
}
inline uint64_t hash_str(string const& s) { Hash h; h.str(s); return h.get(); }

// ---------------------------------------------------------------- distribution
// spreads a mesh over its communicator; every rank calls it
inline void scatter(Mesh& mesh, Rng& r, int style, bool sorted = false) {
  // style 0: balance, 1: random element assignment, 2: all on one rank, 3: stripes by element index
  // styles 1-3 also shuffle the local order
  auto world = mesh.comm();
  int dim = mesh.dim();
  // balancing by recursive bisection is only defined for powers of two
  bool pow2 = (world->size() & (world->size() - 1)) == 0;
  if (world->size() > 1 && pow2 && (style == 0 || r.chance(0.5))) mesh.balance();
  if (style == 0 && pow2) return;
  // reassign elements by a hash of their global number
  auto ne = int(mesh.nglobal_ents(dim));
  vector<int> dest(static_cast<size_t>(ne));
  uint64_t salt = r.u64();
  int only = int(r.below(world->size()));
  for (int i = 0; i < ne; ++i)
    dest[size_t(i)] = style == 2 ? only : style == 3 ? int(int64_t(i) * world->size() / ne) : int(mix64(salt ^ uint64_t(i)) % uint64_t(world->size()));
  // each destination rank pulls its elements: find where they are now
  auto w = dump_world(&mesh, false);
  std::map<GO, std::pair<int, int>> at;
  for (auto& p : w) for (int i = 0; i < p.e[dim].n; ++i) if (p.e[dim].orank[size_t(i)] == p.rank) at[p.e[dim].glob[size_t(i)]] = {p.rank, i};
  vector<int> mine;
  for (int i = 0; i < ne; ++i) if (dest[size_t(i)] == world->rank()) mine.push_back(i);
  Rng lr(r.u64() ^ uint64_t(world->rank()));
  // the library keeps local order sorted by global number when it distributes
  // elements itself; results are only promised to agree under that order
  if (lr.chance(0.7) && !sorted) lr.shuffle(mine);
  vector<I32> rk; vector<LO> ix;
  for (int i : mine) { rk.push_back(at[i].first); ix.push_back(at[i].second); }
  Omega_h::migrate_mesh(&mesh, Omega_h::Dist(world, Omega_h::Remotes(dev(rk), dev(ix)), mesh.nelems()), OMEGA_H_ELEM_BASED, false);
}
// a distributed mesh from one built on rank 0
inline Mesh distribute_built(CommPtr world, std::function<Mesh()> build, Rng& r, int style, bool sorted = false) {
  Mesh mesh(world->library());
  if (world->rank() == 0 || world->size() == 1) mesh = build();
  mesh.set_comm(world);
  scatter(mesh, r, style, sorted);
  return mesh;
}
// a distributed copy of a serial soup; every rank of comm calls it
inline Mesh distribute(CommPtr world, Soup const& s, Model const& m, Rng& r, int style,
    std::function<void(Mesh&)> decorate = nullptr, bool sorted = false) {
  auto self = world->library()->self();
  return distribute_built(world, [&] { Mesh mesh = build_serial(self, s, &m); if (decorate) decorate(mesh); return mesh; }, r, style, sorted);
}

}  // namespace vp
