// C06: random sequences of hypercube refinement and derefinement against a
// model of the tree kept in exact lattice coordinates.
#include "vpmesh.hpp"
#include <Omega_h_amr.hpp>
#include <Omega_h_adapt.hpp>
#include <Omega_h_file.hpp>
#include <Omega_h_hypercube.hpp>
#include <Omega_h_transfer.hpp>
#include <sys/stat.h>

using namespace vp;
namespace osh = Omega_h;
static Library* g_lib;

static int const U = 1 << 12;  // lattice units per base cell
using Box = std::array<int, 6>;  // lo, hi
static int bdim(Box const& b, int) { int d = 0; for (int i = 0; i < 3; ++i) d += b[size_t(i)] != b[size_t(3 + i)]; return d; }
static int bsize(Box const& b) { int s = 0; for (int i = 0; i < 3; ++i) s = std::max(s, b[size_t(3 + i)] - b[size_t(i)]); return s; }
static string bstr(Box const& b) {
  return fmt("[%g %g %g - %g %g %g]", double(b[0]) / U, double(b[1]) / U, double(b[2]) / U, double(b[3]) / U, double(b[4]) / U, double(b[5]) / U);
}
static int level_of_size(int s) { int l = 0; while (U >> l > s) ++l; return l; }

struct Tree {
  int dim = 2;
  std::map<Box, bool> cells;  // leaf?
  vector<Box> children(Box const& c) const {
    vector<Box> out;
    int h = bsize(c) / 2;
    for (int k = 0; k < (1 << dim); ++k) {
      Box b = c;
      for (int i = 0; i < dim; ++i) { b[size_t(i)] += (k >> i & 1) ? h : 0; b[size_t(3 + i)] = b[size_t(i)] + h; }
      out.push_back(b);
    }
    return out;
  }
  void faces(Box const& c, std::set<Box>* out) const {
    int n = 1;
    for (int i = 0; i < dim; ++i) n *= 3;
    for (int k = 0; k < n; ++k) {
      Box b = c;
      int q = k;
      for (int i = 0; i < dim; ++i) {
        int m = q % 3;
        q /= 3;
        if (m == 0) b[size_t(3 + i)] = b[size_t(i)];
        if (m == 1) b[size_t(i)] = b[size_t(3 + i)];
      }
      out[bdim(b, dim)].insert(b);
    }
  }
  // two leaves touch in an entity of dimension at least k
  static bool touch(Box const& a, Box const& b, int dim, int k) {
    int d = 0;
    for (int i = 0; i < dim; ++i) {
      int lo = std::max(a[size_t(i)], b[size_t(i)]), hi = std::min(a[size_t(3 + i)], b[size_t(3 + i)]);
      if (hi < lo) return false;
      d += hi > lo;
    }
    return d >= k && d < dim;
  }
  // smallest superset of the marks after which touching leaves differ by at most one level
  std::set<Box> closure(std::set<Box> marks, int k) const {
    for (bool more = true; more;) {
      more = false;
      for (auto& a : cells) {
        if (!a.second || marks.count(a.first)) continue;
        for (auto& m : marks)
          if (bsize(m) < bsize(a.first) && touch(a.first, m, dim, k)) { marks.insert(a.first); more = true; break; }
        if (more) break;
      }
    }
    return marks;
  }
  bool balanced(int k) const {
    for (auto& a : cells) {
      if (!a.second) continue;
      for (auto& b : cells)
        if (b.second && bsize(b.first) * 2 < bsize(a.first) && touch(a.first, b.first, dim, k)) return false;
    }
    return true;
  }
};
// the entity whose splitting makes this one; false for entities of the base mesh
static bool parent_of(Box const& e, int dim, Box* out) {
  int d = bdim(e, dim);
  int h;  // size of the parent
  if (d) h = bsize(e) * 2;
  else {
    int g = U;
    for (int i = 0; i < dim; ++i) while (e[size_t(i)] % g) g /= 2;
    h = g * 2;
  }
  if (h > U) return false;
  Box p = e;
  for (int i = 0; i < dim; ++i) {
    auto lo = size_t(i), hi = size_t(3 + i);
    if (e[lo] != e[hi]) { p[lo] = e[lo] / h * h; p[hi] = p[lo] + h; }
    else if (e[lo] % h) { p[lo] = e[lo] - h / 2; p[hi] = e[lo] + h / 2; }
  }
  *out = p;
  return true;
}

struct State {
  Tree tree;
  std::map<Box, vector<double>> field;       // at vertices, all interpolated components
  std::map<Box, string> inh[4];              // inherited bytes, by entity
  vector<std::pair<string, int>> interp;     // names and widths
  vector<std::pair<string, int>> inherit;
};

static vector<Box> boxes(Mesh& m, int d, vector<double> const& lat, bool* ok) {
  int dim = m.dim();
  int deg = 1 << d;
  vector<LO> ev;
  LO n = m.nents(d);
  if (d) ev = host(m.ask_verts_of(d));
  vector<Box> out;
  for (LO e = 0; e < n; ++e) {
    Box b{{0, 0, 0, 0, 0, 0}};
    vector<std::array<int, 3>> c;
    for (int j = 0; j < deg; ++j) {
      LO v = d ? ev[size_t(e * deg + j)] : e;
      std::array<int, 3> p{{0, 0, 0}};
      for (int i = 0; i < dim; ++i) {
        double x = lat[size_t(v * dim + i)] * U;
        p[size_t(i)] = int(x);
        if (double(p[size_t(i)]) != x) *ok = false;
      }
      c.push_back(p);
    }
    for (int i = 0; i < dim; ++i) {
      int lo = c[0][size_t(i)], hi = lo;
      for (auto& p : c) { lo = std::min(lo, p[size_t(i)]); hi = std::max(hi, p[size_t(i)]); }
      b[size_t(i)] = lo;
      b[size_t(3 + i)] = hi;
    }
    // corners in the order of the library: loops, then the loop above
    auto step = [&](int a, int q) { int k = 0; for (int i = 0; i < 3; ++i) k += c[size_t(a)][size_t(i)] != c[size_t(q)][size_t(i)]; return k == 1; };
    std::set<std::array<int, 3>> uniq(c.begin(), c.end());
    if (int(uniq.size()) != deg || bdim(b, dim) != d) *ok = false;
    if (d == 2) for (int j = 0; j < 4; ++j) if (!step(j, (j + 1) % 4)) *ok = false;
    if (d == 3) for (int j = 0; j < 4; ++j) if (!step(j, (j + 1) % 4) || !step(j + 4, (j + 1) % 4 + 4) || !step(j, j + 4)) *ok = false;
    if (d == dim && d > 1) {
      double v[3][3];
      int o[3] = {1, 3, 4};
      for (int k = 0; k < d; ++k) for (int i = 0; i < 3; ++i) v[k][i] = c[size_t(o[k])][size_t(i)] - c[0][size_t(i)];
      double det = d == 2 ? v[0][0] * v[1][1] - v[0][1] * v[1][0] : det3(v[0], v[1], v[2]);
      if (det <= 0) *ok = false;
    }
    out.push_back(b);
  }
  return out;
}
static string inh_bytes(Mesh& m, State const& st, int d, LO e) {
  string s;
  for (auto& p : st.inherit) {
    auto t = dump_tag(m.get_tagbase(d, p.first));
    size_t w = m.nents(d) ? t.bytes.size() / size_t(m.nents(d)) : 0;
    s += t.bytes.substr(size_t(e) * w, w) + "|";
  }
  return s;
}

// compares the mesh with the model; new vertices and entities are learnt
static void check_mesh(Mesh& m, State& st, string const& where) {
  int dim = st.tree.dim;
  for (auto& p : st.interp) {
    if (!m.has_tag(0, p.first)) { viol("field-lost", where + ": " + p.first); return; }
    VP_CHECK(m.get_tagbase(0, p.first)->ncomps() == p.second, "field-width", "%s: %s", where.c_str(), p.first.c_str());
  }
  auto lat = host(m.get_array<Real>(0, "lat"));
  bool ok = true;
  vector<Box> bx[4];
  std::set<Box> want[4];
  for (auto& c : st.tree.cells) st.tree.faces(c.first, want);
  std::map<Box, int> at[4];
  for (int d = 0; d <= dim; ++d) {
    bx[d] = boxes(m, d, lat, &ok);
    if (!ok) { viol("shape", fmt("%s: an entity of dimension %d is not a box with its corners in order", where.c_str(), d)); return; }
    for (size_t i = 0; i < bx[d].size(); ++i) if (!at[d].insert({bx[d][i], int(i)}).second) { viol("twice", fmt("%s: dim %d entity %s occurs twice", where.c_str(), d, bstr(bx[d][i]).c_str())); return; }
    for (auto& b : bx[d]) if (!want[d].count(b)) { viol("extra-entity", fmt("%s: dim %d entity %s should not be there", where.c_str(), d, bstr(b).c_str())); return; }
    for (auto& b : want[d]) if (!at[d].count(b)) { viol("missing-entity", fmt("%s: dim %d entity %s is missing", where.c_str(), d, bstr(b).c_str())); return; }
    count("entities checked", int64_t(bx[d].size()));
  }
  // relations to the next lower dimension
  for (int d = 1; d <= dim; ++d) {
    auto dn = host(m.ask_down(d, d - 1).ab2b);
    int deg = d * 2;
    for (size_t e = 0; e < bx[d].size(); ++e) {
      std::set<Box> f[4], have;
      st.tree.faces(bx[d][e], f);
      std::set<Box> sides;
      for (auto& b : f[d - 1]) if (bsize(b) == bsize(bx[d][e]) || d == 1) sides.insert(b);
      for (int j = 0; j < deg; ++j) have.insert(bx[d - 1][size_t(dn[e * size_t(deg) + size_t(j)])]);
      if (have != sides) { viol("sides", fmt("%s: dim %d entity %s does not have its own sides", where.c_str(), d, bstr(bx[d][e]).c_str())); return; }
    }
  }
  // globals
  for (int d = 0; d <= dim; ++d) {
    auto g = host(m.globals(d));
    std::sort(g.begin(), g.end());
    bool good = true;
    for (size_t i = 0; i < g.size(); ++i) if (g[i] != GO(i)) good = false;
    VP_CHECK(good, "globals", "%s: dim %d global numbers are not 0 to n-1", where.c_str(), d);
  }
  // levels, leaves, parents, children
  std::map<std::pair<int, int>, std::set<int>> which[4];
  for (int d = 0; d <= dim; ++d) {
    auto lv = host(m.ask_levels(d));
    auto lf = host(m.ask_leaves(d));
    auto par = m.ask_parents(d);
    auto pi = host(par.parent_idx);
    auto pc = host(par.codes);
    vector<vector<std::set<int>>> kids(4);
    for (int q = 0; q <= dim; ++q) kids[size_t(q)].resize(bx[q].size());
    for (size_t e = 0; e < bx[d].size(); ++e) {
      auto& b = bx[d][e];
      Box p;
      bool has = parent_of(b, dim, &p);
      int level = d ? level_of_size(bsize(b)) : has ? level_of_size(bsize(p)) + 1 : 0;
      VP_CHECK(lv[e] == level, "level", "%s: dim %d entity %s has level %d", where.c_str(), d, bstr(b).c_str(), lv[e]);
      if (d) {
        bool split;
        if (d == dim) split = !st.tree.cells.at(b);
        else {
          Box h = b;
          for (int i = 0; i < dim; ++i) if (h[size_t(i)] != h[size_t(3 + i)]) h[size_t(3 + i)] = h[size_t(i)] + bsize(b) / 2;
          split = want[d].count(h);
        }
        VP_CHECK(lf[e] == (split ? 0 : 1), "leaf", "%s: dim %d entity %s has leaf flag %d", where.c_str(), d, bstr(b).c_str(), lf[e]);
      }
      if (!has) { VP_CHECK(pi[e] == -1, "parent", "%s: dim %d entity %s of the base mesh has a parent", where.c_str(), d, bstr(b).c_str()); continue; }
      int pd = bdim(p, dim);
      auto it = at[pd].find(p);
      if (it == at[pd].end() || pi[e] != it->second || osh::amr::code_parent_dim(pc[e]) != pd) {
        viol("parent", fmt("%s: dim %d entity %s does not have parent %s (index %d code %d)", where.c_str(), d, bstr(b).c_str(), bstr(p).c_str(), pi[e], pc[e]));
        continue;
      }
      int w = osh::amr::code_which_child(pc[e]);
      static int const NPROD[4][4] = {{0, 0, 0, 0}, {1, 2, 0, 0}, {1, 4, 4, 0}, {1, 6, 12, 8}};
      VP_CHECK(w >= 0 && w < NPROD[pd][d], "which-child", "%s: dim %d entity %s says it is child %d", where.c_str(), d, bstr(b).c_str(), w);
      VP_CHECK(which[d][std::make_pair(pd, it->second)].insert(w).second, "which-child", "%s: two children of %s say they are child %d", where.c_str(), bstr(p).c_str(), w);
      kids[size_t(pd)][size_t(it->second)].insert(int(e));
    }
    for (int q = 1; q <= dim; ++q) {
      auto ch = m.ask_children(q, d);
      auto off = host(ch.a2ab);
      auto ab = host(ch.ab2b);
      bool good = off.size() == bx[q].size() + 1;
      for (size_t e = 0; good && e < bx[q].size(); ++e) {
        vector<LO> got(ab.begin() + off[e], ab.begin() + off[e + 1]);
        std::set<int> s(got.begin(), got.end());
        good = s == kids[size_t(q)][e] && s.size() == got.size();
      }
      VP_CHECK(good, "children", "%s: children of dimension %d of dim %d are not those with that parent", where.c_str(), d, q);
    }
  }
  // fields
  vector<vector<double>> val(bx[0].size());
  for (auto& f : st.interp) {
    auto a = host(m.get_array<Real>(0, f.first));
    for (size_t v = 0; v < val.size(); ++v) for (int c = 0; c < f.second; ++c) val[v].push_back(a[v * size_t(f.second) + size_t(c)]);
  }
  std::map<Box, vector<double>> nf;
  for (size_t v = 0; v < val.size(); ++v) {
    auto it = st.field.find(bx[0][v]);
    if (it != st.field.end()) {
      bool same = it->second.size() == val[v].size();
      for (size_t c = 0; same && c < val[v].size(); ++c) same = biteq(val[v][c], it->second[c]);
      VP_CHECK(same, "field-changed", "%s: fields at the existing vertex %s changed", where.c_str(), bstr(bx[0][v]).c_str());
    } else {
      Box p;
      if (!parent_of(bx[0][v], dim, &p)) continue;
      std::set<Box> f[4];
      st.tree.faces(p, f);
      for (size_t c = 0; c < val[v].size(); ++c) {
        long double s = 0, mx = 0;
        int n = 0;
        for (auto& q : f[0]) {
          auto k = at[0].find(q);
          if (k == at[0].end()) continue;
          s += val[size_t(k->second)][c];
          mx = std::max(mx, std::abs(static_cast<long double>(val[size_t(k->second)][c])));
          ++n;
        }
        VP_CHECK(std::abs(val[v][c] - s / n) <= mx * 1e-14L, "field-average", "%s: component %d at the new vertex %s is %.17g, the mean of the parent is %.17Lg", where.c_str(), int(c), bstr(bx[0][v]).c_str(), val[v][c], s / n);
        count("new values checked");
      }
    }
    nf[bx[0][v]] = val[v];
  }
  st.field = nf;
  std::map<Box, string> ni[4];
  for (int d = 0; d <= dim; ++d)
    for (auto& p : st.inherit)
      if (!m.has_tag(d, p.first) || m.get_tagbase(d, p.first)->ncomps() != p.second) { viol("inherited-lost", fmt("%s: dim %d tag %s", where.c_str(), d, p.first.c_str())); return; }
  for (int d = 0; d <= dim; ++d)
    for (size_t e = 0; e < bx[d].size(); ++e) ni[d][bx[d][e]] = "";
  for (auto& p : st.inherit)
    for (int d = 0; d <= dim; ++d) {
      auto t = dump_tag(m.get_tagbase(d, p.first));
      size_t w = bx[d].empty() ? 0 : t.bytes.size() / bx[d].size();
      for (size_t e = 0; e < bx[d].size(); ++e) ni[d][bx[d][e]] += t.bytes.substr(e * w, w) + "|";
    }
  for (int d = 0; d <= dim; ++d)
    for (auto& kv : ni[d]) {
      auto it = st.inh[d].find(kv.first);
      Box p;
      if (it != st.inh[d].end()) VP_CHECK(it->second == kv.second, "inherited-changed", "%s: inherited tags of the existing dim %d entity %s changed", where.c_str(), d, bstr(kv.first).c_str());
      else if (parent_of(kv.first, dim, &p)) VP_CHECK(ni[bdim(p, dim)][p] == kv.second, "inherited", "%s: dim %d entity %s did not take the values of its parent %s", where.c_str(), d, bstr(kv.first).c_str(), bstr(p).c_str());
    }
  for (int d = 0; d <= dim; ++d) st.inh[d] = ni[d];
}

template <class T> static void put_tag(Mesh& m, Rng& r, string const& n, int w) {
  for (int d = 0; d <= m.dim(); ++d) {
    vector<T> v;
    for (LO i = 0; i < m.nents(d) * w; ++i) v.push_back(T(r.range(-100, 100)));
    m.add_tag<T>(d, n, w, Read<T>(dev(v)));
  }
}
static Mesh build_amr(CommPtr comm, Soup& s, Rng& r, State* st, osh::TransferOpts* opts) {
  Mesh m(comm->library());
  auto lat = s.x;
  // undo the scaling of the generator
  double sx = 0;
  for (int v = 0; v < s.nv(); ++v) { double x = lat[size_t(v * s.dim)]; if (x > 0 && (sx == 0 || x < sx)) sx = x; }
  for (int v = 0; v < s.nv(); ++v) { auto& x = lat[size_t(v * s.dim)]; x = std::floor(x / (sx > 0 ? sx : 1) + 0.5); }
  if (r.chance(0.5)) for (auto& x : s.x) x += r.real(-0.2, 0.2);
  osh::build_from_elems_and_coords(&m, OMEGA_H_HYPERCUBE, s.dim, LOs(dev(conv<LO>(s.ev))), Reals(dev(s.x)));
  m.add_tag<Real>(0, "lat", s.dim, Reals(dev(lat)));
  opts->type_map["lat"] = OMEGA_H_LINEAR_INTERP;
  // classification: boundary sides and, where there are several, material interfaces
  int dim = s.dim;
  vector<int> mat(static_cast<size_t>(m.nelems()), 1);
  if (r.chance(0.4)) for (auto& x : mat) x = int(r.range(1, 2));
  auto up = m.ask_up(dim - 1, dim);
  auto off = host(up.a2ab);
  auto ab = host(up.ab2b);
  vector<I8> cls[4];
  vector<LO> ids[4];
  for (int d = 0; d <= dim; ++d) { cls[d].assign(size_t(m.nents(d)), I8(dim)); ids[d].assign(size_t(m.nents(d)), 1); }
  for (LO e = 0; e < m.nelems(); ++e) ids[dim][size_t(e)] = mat[size_t(e)];
  for (int d = dim - 1; d >= 0; --d) {
    auto u2 = m.ask_up(d, dim - 1 > d ? dim - 1 : dim);
    auto o2 = host(u2.a2ab);
    auto b2 = host(u2.ab2b);
    for (LO e = 0; e < m.nents(d); ++e) {
      if (d == dim - 1) {
        bool bnd = o2[size_t(e) + 1] - o2[size_t(e)] == 1;
        if (!bnd && mat[size_t(b2[size_t(o2[size_t(e)])])] != mat[size_t(b2[size_t(o2[size_t(e)]) + 1])]) bnd = true;
        if (bnd) { cls[d][size_t(e)] = I8(dim - 1); ids[d][size_t(e)] = LO(7 + e % 2); }
        else ids[d][size_t(e)] = mat[size_t(b2[size_t(o2[size_t(e)])])];
      } else {
        for (LO j = o2[size_t(e)]; j < o2[size_t(e) + 1]; ++j) if (cls[dim - 1][size_t(b2[size_t(j)])] == dim - 1) cls[d][size_t(e)] = I8(dim - 1);
      }
    }
  }
  for (int d = 0; d <= dim; ++d) {
    m.add_tag<I8>(d, "class_dim", 1, Read<I8>(dev(cls[d])));
    m.add_tag<LO>(d, "class_id", 1, LOs(dev(ids[d])));
  }
  st->interp = {{"coordinates", dim}, {"lat", dim}};
  st->inherit = {{"class_dim", 1}, {"class_id", 1}};
  int nf = int(r.below(3));
  for (int i = 0; i < nf; ++i) {
    string n = fmt("field%d", i);
    int w = int(r.range(1, 4));
    vector<double> v;
    for (LO k = 0; k < m.nverts() * w; ++k) v.push_back(r.real(-1, 1) * std::pow(10.0, double(r.range(-3, 3))));
    m.add_tag<Real>(0, n, w, Reals(dev(v)));
    opts->type_map[n] = OMEGA_H_LINEAR_INTERP;
    st->interp.push_back({n, w});
  }
  int ni = int(r.below(3));
  for (int i = 0; i < ni; ++i) {
    string n = fmt("inh%d", i);
    int w = int(r.range(1, 3)), t = int(r.below(4));
    if (t == 0) put_tag<I8>(m, r, n, w); else if (t == 1) put_tag<I32>(m, r, n, w); else if (t == 2) put_tag<I64>(m, r, n, w); else put_tag<Real>(m, r, n, w);
    opts->type_map[n] = OMEGA_H_INHERIT;
    st->inherit.push_back({n, w});
  }
  return m;
}
static void learn(State& st, Mesh& m) {
  auto lat = host(m.get_array<Real>(0, "lat"));
  bool ok = true;
  for (auto& b : boxes(m, m.dim(), lat, &ok)) st.tree.cells[b] = true;
}

static void case_tree(Rng& r, int64_t) {
  int dim = r.chance(0.6) ? 2 : 3;
  Soup s = gen_hyper(r, dim, r.chance(0.3) ? 1 : dim == 2 ? 3 : 2);
  State st;
  osh::TransferOpts opts;
  auto world = g_lib->world();
  Mesh m = build_amr(world, s, r, &st, &opts);
  m.set_parting(OMEGA_H_ELEM_BASED);
  st.tree.dim = dim;
  learn(st, m);
  string hist = s.desc;
  check_mesh(m, st, hist);
  int maxlevel = dim == 2 ? 4 : 3, bridge = dim == 2 ? 1 : int(r.range(1, 2));
  if (r.chance(0.6)) bridge = dim - 1;
  int steps = int(r.range(1, dim == 2 ? 7 : 4));
  double p0 = r.real(0.05, 0.9);
  bool balance = r.chance(0.8);
  for (int k = 0; k < steps && !ctx().nviol_case; ++k) {
    int kind = int(r.below(10));
    auto lat = host(m.get_array<Real>(0, "lat"));
    bool ok = true;
    auto bx = boxes(m, dim, lat, &ok);
    vector<I8> marks(bx.size(), 0);
    if (kind <= 5 || k == 0) {
      std::set<Box> want;
      bool stray = r.chance(0.3);
      for (size_t e = 0; e < bx.size(); ++e) {
        bool leaf = st.tree.cells.at(bx[e]);
        if (!leaf) { if (stray && r.chance(0.2)) marks[e] = 1; continue; }  // marks elsewhere change nothing
        if (level_of_size(bsize(bx[e])) >= maxlevel || !r.chance(p0)) continue;
        marks[e] = 1;
        want.insert(bx[e]);
      }
      hist += fmt("; refine %d of %d", int(want.size()), int(bx.size()));
      Bytes mk = dev(marks);
      if (balance) {
        bool was = st.tree.balanced(bridge);
        mk = osh::amr::enforce_2to1_refine(&m, bridge, mk);
        auto got = host(mk);
        std::set<Box> g;
        for (size_t e = 0; e < got.size(); ++e) {
          if (got[e] != 0 && got[e] != 1) viol("balance-value", hist);
          if (got[e] && st.tree.cells.at(bx[e])) g.insert(bx[e]);
          if (got[e] && !st.tree.cells.at(bx[e])) viol("balance-nonleaf", fmt("%s: %s is marked and not a leaf", hist.c_str(), bstr(bx[e]).c_str()));
        }
        if (was) {
          auto cl = st.tree.closure(want, bridge);
          for (auto& b : cl) if (!g.count(b)) { viol("balance-missing", fmt("%s: %s must be refined too across dimension %d", hist.c_str(), bstr(b).c_str(), bridge)); break; }
          for (auto& b : g) if (!cl.count(b)) { viol("balance-extra", fmt("%s: %s need not be refined", hist.c_str(), bstr(b).c_str())); break; }
        }
        want = g;
        count("balanced");
      } else {
        // without balancing only marks that keep the tree balanced are given
        want = st.tree.closure(want, dim - 1);
        for (size_t e = 0; e < bx.size(); ++e) if (want.count(bx[e])) marks[e] = 1;
        mk = dev(marks);
      }
      auto before = st.tree;
      osh::amr::refine(&m, mk, opts);
      for (auto& c : want) { st.tree.cells[c] = false; for (auto& q : st.tree.children(c)) st.tree.cells[q] = true; }
      if (balance) VP_CHECK(!before.balanced(bridge) || st.tree.balanced(bridge), "two-to-one", "%s: neighbours differ by more than one level across dimension %d", hist.c_str(), bridge);
      count("refined", int64_t(want.size()));
    } else if (kind <= 8) {
      int done = 0;
      auto t = st.tree;
      for (size_t e = 0; e < bx.size(); ++e) {
        if (st.tree.cells.at(bx[e])) { if (r.chance(0.1)) marks[e] = 1; continue; }
        bool can = r.chance(0.6);
        auto ch = st.tree.children(bx[e]);
        for (auto& c : ch) if (!st.tree.cells.at(c)) can = false;
        if (!can) continue;
        auto t2 = t;
        for (auto& c : ch) t2.cells.erase(c);
        t2.cells[bx[e]] = true;
        if (!t2.balanced(dim - 1)) continue;
        t = t2;
        marks[e] = 1;
        ++done;
      }
      hist += fmt("; derefine %d", done);
      osh::amr::derefine(&m, dev(marks), opts);
      st.tree = t;
      count("derefined", done);
    } else if (kind == 9) {
      if (r.chance(0.5)) { hist += "; reorder by globals"; osh::reorder_by_globals(&m); }
      else {
        hist += "; write and read";
        auto path = ctx().tmp + fmt("/amr%d.osh", int(ctx().cur));
        osh::binary::write(path, &m);
        Mesh q(g_lib);
        osh::binary::read(path, world, &q);
        m = q;
        if (std::system(("/bin/rm -rf '" + path + "'").c_str())) {}
      }
    }
    check_mesh(m, st, hist);
    if (r.chance(0.3) && !ctx().nviol_case) {
      // the leaves alone
      Mesh q = m;
      osh::amr::remove_non_leaf_uses(&q);
      State s2 = st;
      auto l2 = host(q.get_array<Real>(0, "lat"));
      bool good = true;
      std::set<Box> want[4];
      for (auto& c : st.tree.cells) if (c.second) st.tree.faces(c.first, want);
      for (int d = 0; d <= dim; ++d) {
        auto b2 = boxes(q, d, l2, &good);
        std::set<Box> have(b2.begin(), b2.end());
        VP_CHECK(good && have == want[d] && have.size() == b2.size(), "leaves-only", "%s: dim %d entities are not those of the leaves", hist.c_str(), d);
        auto lv = host(q.ask_levels(d));
        for (size_t e = 0; d && e < b2.size(); ++e) if (lv[e] != level_of_size(bsize(b2[e]))) { viol("leaves-only-level", hist); break; }
      }
      for (I8 l : host(q.ask_leaves(dim))) if (!l) { viol("leaves-only-flag", hist); break; }
    }
  }
  // back to where it began
  if (!ctx().nviol_case && r.chance(0.4)) {
    for (int k = 0; k < 8; ++k) {
      auto lat = host(m.get_array<Real>(0, "lat"));
      bool ok = true;
      auto bx = boxes(m, dim, lat, &ok);
      vector<I8> marks(bx.size(), 0);
      int fine = U;
      for (auto& c : st.tree.cells) fine = std::min(fine, bsize(c.first));
      if (fine == U) break;
      for (size_t e = 0; e < bx.size(); ++e) if (bsize(bx[e]) == fine * 2 && !st.tree.cells.at(bx[e])) {
        marks[e] = 1;
        for (auto& c : st.tree.children(bx[e])) st.tree.cells.erase(c);
        st.tree.cells[bx[e]] = true;
      }
      osh::amr::derefine(&m, dev(marks), opts);
      hist += "; derefine the finest";
      check_mesh(m, st, hist);
    }
    count("restored");
  }
  nontrivial(hash_str(hist));
  sample(hist);
}

// one refinement of a distributed mesh that was not refined before
static void case_par(Rng& r, int64_t) {
  auto world = g_lib->world();
  int dim = r.chance(0.6) ? 2 : 3;
  Soup s = gen_hyper(r, dim, dim == 2 ? 4 : 2);
  State st;
  osh::TransferOpts opts;
  Rng br(r.u64()), sr(r.u64());
  auto self = g_lib->self();
  Mesh ser = build_amr(self, s, br, &st, &opts);
  ser.set_parting(OMEGA_H_ELEM_BASED);
  st.tree.dim = dim;
  learn(st, ser);
  Mesh m = distribute_built(world, [&] { return ser; }, sr, int(r.below(4)));
  double p0 = r.real(0.05, 1);
  uint64_t salt = r.u64();
  auto mark = [&](Mesh& q) {
    auto lat = host(q.get_array<Real>(0, "lat"));
    bool ok = true;
    vector<I8> mk;
    for (auto& b : boxes(q, dim, lat, &ok)) { Hash h; h.num(salt); for (int x : b) h.num(x); mk.push_back(double(h.get() >> 11) * (1.0 / 9007199254740992.0) < p0); }
    return Bytes(dev(mk));
  };
  string where = s.desc + fmt(" on %d ranks", world->size());
  osh::amr::refine(&ser, mark(ser), opts);
  osh::amr::refine(&m, mark(m), opts);
  auto w = dump_world(&m);
  if (!check_world(w, where)) return;
  auto a = assemble(w);
  auto b = assemble(dump_world(&ser));
  // compare by place
  auto place = [&](Global const& g) {
    std::map<string, string> out;
    for (int d = 0; d <= dim; ++d)
      for (auto& kv : g.e[d]) {
        vector<string> pts;
        vector<GO> vs = d ? kv.second.v : vector<GO>{kv.first};
        for (GO v : vs) pts.push_back(g.e[0].at(v).tags.at("lat"));
        if (d < dim) std::sort(pts.begin(), pts.end());
        string k(1, char(d));
        for (auto& p : pts) k += p;
        string val;
        for (auto& p : st.interp) if (!d) val += kv.second.tags.at(p.first) + "|";
        for (auto& p : st.inherit) val += (kv.second.tags.count(p.first) ? kv.second.tags.at(p.first) : string("?")) + "|";
        if (kv.second.tags.count("level")) val += "L" + kv.second.tags.at("level");
        if (kv.second.tags.count("leaf")) val += "l" + kv.second.tags.at("leaf");
        if (!out.insert({k, val}).second) viol("twice", fmt("%s: a dim %d entity occurs twice", where.c_str(), d));
      }
    return out;
  };
  // every rank holds everything after assembling
  if (ctx().rank == 0) {
    auto pa = place(a), pb = place(b);
    VP_CHECK(pa.size() == pb.size(), "parallel-count", "%s: %d entities, %d when refined on one rank", where.c_str(), int(pa.size()), int(pb.size()));
    int bad = 0;
    for (auto& kv : pb) { auto it = pa.find(kv.first); if (it == pa.end() || it->second != kv.second) ++bad; }
    VP_CHECK(!bad, "parallel-differs", "%s: %d of %d entities differ from refining on one rank", where.c_str(), bad, int(pb.size()));
  }
  nontrivial(hash_str(where + fmt("%llu", (unsigned long long)salt)));
  sample(where);
}

// refining again on several ranks: the mesh forgets parents when it is ghosted
static void case_again(Rng& r, int64_t) {
  auto world = g_lib->world();
  Mesh m = osh::build_box(world, OMEGA_H_HYPERCUBE, 2, 1., 0., 2, 1, 0);
  for (int k = 0; k < 2; ++k) {
    vector<I8> mk(static_cast<size_t>(m.nelems()), 0);
    if (world->rank() == k) mk[0] = 1;
    string what;
    try { osh::amr::refine(&m, Bytes(dev(mk)), osh::TransferOpts()); } catch (std::exception const& e) { what = e.what(); }
    if (!what.empty()) {
      viol("refine-again-on-several-ranks", fmt("two squares side by side, refinement %d of an element of rank %d on %d ranks: %s", k + 1, k, world->size(), what.c_str()));
      emit("{\"t\":\"abort\"}");  // the other ranks cannot follow
      ::usleep(200000);
      _exit(3);
    }
  }
  nontrivial(1);
}

int main(int argc, char** argv) {
  parse_args(argc, argv);
  LibArgs la(argc, argv);
  Library lib(&la.argc, &la.argv);
  g_lib = &lib;
  ctx().rank = lib.world()->rank();
  ctx().size = lib.world()->size();
  auto m = ctx().mode;
  if (m == "tree") return run_cases(case_tree);
  if (m == "again") return run_cases(case_again);
  if (m == "par") return run_cases(case_par);
  return 2;
}
