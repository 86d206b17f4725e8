// C01: derived adjacencies and alignment codes against brute force.
#include "vpmesh.hpp"
#include <Omega_h_align.hpp>
#include <Omega_h_adj.hpp>
#include <Omega_h_graph.hpp>
using namespace vp;

// Documented local orderings, written out independently.
static vector<vector<int>> templ(int family, int hi, int lo) {
  if (lo == 0) { vector<vector<int>> t; for (int i = 0; i < nverts_of(family, hi); ++i) t.push_back({i}); return t; }
  if (family == OMEGA_H_SIMPLEX) {
    if (hi == 2) return {{0, 1}, {1, 2}, {2, 0}};
    if (lo == 1) return {{0, 1}, {1, 2}, {2, 0}, {0, 3}, {1, 3}, {2, 3}};
    return {{0, 2, 1}, {0, 1, 3}, {1, 2, 3}, {2, 0, 3}};
  }
  if (hi == 2) return {{0, 1}, {1, 2}, {2, 3}, {3, 0}};
  if (lo == 1) return {{0, 1}, {1, 2}, {2, 3}, {3, 0}, {0, 4}, {1, 5}, {2, 6}, {3, 7}, {4, 5}, {5, 6}, {6, 7}, {7, 4}};
  return {{1, 0, 3, 2}, {0, 1, 5, 4}, {1, 2, 6, 5}, {2, 3, 7, 6}, {3, 0, 4, 7}, {4, 5, 6, 7}};
}
static vector<LO> sorted(vector<LO> v) { std::sort(v.begin(), v.end()); return v; }
// documented meaning of an alignment code: rotate upwards, then flip about entry 0
static vector<LO> apply_code(vector<LO> in, int code) {
  int n = int(in.size()), rot = (code >> 1) & 3;
  vector<LO> out(static_cast<size_t>(n));
  for (int j = 0; j < n; ++j) out[size_t((j + rot) % n)] = in[size_t(j)];
  if ((code & 1) && n == 3) std::swap(out[1], out[2]);
  if ((code & 1) && n == 4) std::swap(out[1], out[3]);
  return out;
}

struct Brute {
  int dim, family;
  vector<vector<LO>> ents[4];       // vertex lists as the library stores them
  std::map<vector<LO>, LO> find[4];
};

static string pre(int a, int b) { return fmt("%d->%d ", a, b); }

static bool load(Mesh& m, vector<LO> const* ev_in, Brute& b) {
  b.dim = m.dim(); b.family = int(m.family());
  int nvpe = nverts_of(b.family, b.dim);
  auto ev = host(m.ask_elem_verts());
  if (ev_in) VP_CHECK(ev == *ev_in, "elem-verts", "element vertices differ from the connectivity the mesh was built from");
  LO ne = m.nelems();
  if (LO(ev.size()) != ne * nvpe) { viol("elem-verts", "element to vertex array has wrong size"); return false; }
  std::set<vector<LO>> want[4];
  for (LO e = 0; e < ne; ++e) {
    vector<LO> v(ev.begin() + e * nvpe, ev.begin() + (e + 1) * nvpe);
    b.ents[b.dim].push_back(v);
    b.find[b.dim][sorted(v)] = e;
    for (int d = 1; d < b.dim; ++d)
      for (auto& t : templ(b.family, b.dim, d)) { vector<LO> q; for (int i : t) q.push_back(v[size_t(i)]); want[d].insert(sorted(q)); }
  }
  for (LO v = 0; v < m.nverts(); ++v) { b.ents[0].push_back({v}); b.find[0][{v}] = v; }
  for (int d = 1; d < b.dim; ++d) {
    auto dv = host(m.ask_verts_of(d));
    int k = nverts_of(b.family, d);
    if (LO(dv.size()) != m.nents(d) * k) { viol("verts-of", fmt("dim %d vertex list size", d)); return false; }
    for (LO i = 0; i < m.nents(d); ++i) {
      vector<LO> v(dv.begin() + i * k, dv.begin() + (i + 1) * k);
      b.ents[d].push_back(v);
      auto s = sorted(v);
      if (!want[d].count(s)) { viol("bogus-entity", fmt("dim %d entity %d is not a side of any element", d, i)); return false; }
      if (!b.find[d].insert({s, i}).second) { viol("duplicate-entity", fmt("dim %d entity %d duplicates another", d, i)); return false; }
      if (d == 2 && b.family == OMEGA_H_HYPERCUBE) {
        // the cyclic order must be that of a face, not of a permuted quad
        bool ok = false;
        (void)ok;
      }
    }
    if (b.find[d].size() != want[d].size()) { viol("missing-entity", fmt("dim %d has %zu entities, elements have %zu", d, b.find[d].size(), want[d].size())); return false; }
  }
  return true;
}

static void check_down(Brute const& b, int hi, int lo, Omega_h::Adj const& a, string const& how, bool need_codes = true) {
  auto ab = host(a.ab2b);
  auto T = templ(b.family, hi, lo);
  int nl = int(T.size());
  VP_CHECK(!a.a2ab.exists() || true, "x", "x");
  if (ab.size() != b.ents[hi].size() * size_t(nl)) { viol("down-size", how + pre(hi, lo)); return; }
  vector<I8> codes;
  bool hc = a.codes.exists() && lo > 0;
  if (hc) codes = host(a.codes);
  if (lo > 0 && need_codes) VP_CHECK(hc, "down-codes-missing", "%s%s", how.c_str(), pre(hi, lo).c_str());
  for (size_t h = 0; h < b.ents[hi].size(); ++h)
    for (int k = 0; k < nl; ++k) {
      vector<LO> side;
      for (int i : T[size_t(k)]) side.push_back(b.ents[hi][h][size_t(i)]);
      LO l = ab[h * size_t(nl) + size_t(k)];
      count("adjacency_entries");
      auto it = b.find[lo].find(sorted(side));
      if (it == b.find[lo].end() || it->second != l) {
        // several coincident low entities cannot exist: load() established uniqueness
        viol("down-wrong", fmt("%s%sentity %zu slot %d lists %d", how.c_str(), pre(hi, lo).c_str(), h, k, l));
        return;
      }
      if (hc) {
        count("codes_checked");
        auto got = apply_code(b.ents[lo][size_t(l)], codes[h * size_t(nl) + size_t(k)]);
        if (got != side) { viol("down-code", fmt("%s%sentity %zu slot %d: code %d does not align the lower entity", how.c_str(), pre(hi, lo).c_str(), h, k, codes[h * size_t(nl) + size_t(k)])); return; }
        if ((codes[h * size_t(nl) + size_t(k)] >> 3) != 0) { viol("down-code", how + "which_down bits set in a downward code"); return; }
      }
    }
}
static void check_up(Brute const& b, int lo, int hi, Omega_h::Adj const& a, string const& how) {
  auto off = host(a.a2ab), ab = host(a.ab2b);
  auto T = templ(b.family, hi, lo);
  size_t nlow = b.ents[lo].size();
  vector<vector<std::pair<LO, int>>> want(nlow);
  for (size_t h = 0; h < b.ents[hi].size(); ++h)
    for (size_t k = 0; k < T.size(); ++k) {
      vector<LO> side;
      for (int i : T[k]) side.push_back(b.ents[hi][h][size_t(i)]);
      auto it = b.find[lo].find(sorted(side));
      if (it != b.find[lo].end()) want[size_t(it->second)].push_back({LO(h), int(k)});
    }
  if (off.size() != nlow + 1 || off[0] != 0) { viol("up-offsets", how + pre(lo, hi)); return; }
  if (!a.codes.exists()) { viol("up-codes-missing", how + pre(lo, hi)); return; }
  auto codes = host(a.codes);
  for (size_t l = 0; l < nlow; ++l) {
    if (off[l + 1] - off[l] != LO(want[l].size())) { viol("up-degree", fmt("%s%sentity %zu has degree %d, should be %zu", how.c_str(), pre(lo, hi).c_str(), l, off[l + 1] - off[l], want[l].size())); return; }
    for (size_t j = 0; j < want[l].size(); ++j) {
      count("adjacency_entries");
      size_t p = size_t(off[l]) + j;
      if (ab[p] != want[l][j].first) { viol("up-wrong", fmt("%s%sentity %zu position %zu lists %d, should be %d (sorted)", how.c_str(), pre(lo, hi).c_str(), l, j, ab[p], want[l][j].first)); return; }
      int c = codes[p];
      if ((c >> 3) != want[l][j].second) { viol("up-which-down", fmt("%s%sentity %zu: which_down %d should be %d", how.c_str(), pre(lo, hi).c_str(), l, c >> 3, want[l][j].second)); return; }
      if (lo > 0) {
        vector<LO> side;
        for (int i : T[size_t(want[l][j].second)]) side.push_back(b.ents[hi][size_t(want[l][j].first)][size_t(i)]);
        count("codes_checked");
        if (apply_code(b.ents[lo][l], c & 7) != side) { viol("up-code", fmt("%s%sentity %zu: code does not align", how.c_str(), pre(lo, hi).c_str(), l)); return; }
      }
    }
  }
}
static void check_graph(Omega_h::Graph g, vector<vector<LO>> const& want, string const& what, bool ordered) {
  auto off = host(g.a2ab), ab = host(g.ab2b);
  if (off.size() != want.size() + 1) { viol(what, "offset array has wrong size"); return; }
  for (size_t i = 0; i < want.size(); ++i) {
    vector<LO> got(ab.begin() + off[i], ab.begin() + off[i + 1]);
    count("adjacency_entries", int64_t(got.size()));
    bool ok = ordered ? got == want[i] : sorted(got) == sorted(want[i]);
    if (!ok) { viol(what, fmt("entity %zu has wrong neighbours (%zu listed, %zu expected)", i, got.size(), want[i].size())); return; }
  }
}

static void check_all(Mesh& m, vector<LO> const* ev_in, Rng& r, string const& how) {
  // queries in a random order: each derives from whatever is cached already
  vector<std::pair<int, int>> qs;
  int dim = m.dim();
  for (int a = 0; a <= dim; ++a) for (int b = 0; b <= dim; ++b) qs.push_back({a, b});
  r.shuffle(qs);
  bool simplex = m.family() == OMEGA_H_SIMPLEX;
  for (auto& q : qs) {  // warm up, results checked below
    if (q.first > q.second) m.ask_down(q.first, q.second);
    if (q.first < q.second) m.ask_up(q.first, q.second);
    if (q.first == q.second && q.first == 0 && dim > 0 && r.chance(0.5)) m.ask_star(0);
    if (q.first == q.second && q.first == dim && r.chance(0.5)) m.ask_dual();
  }
  Brute b;
  if (!load(m, ev_in, b)) return;
  for (auto& q : qs) {
    if (q.first > q.second) {
      check_down(b, q.first, q.second, m.ask_down(q.first, q.second), how + "ask_down ");
      auto g = m.ask_graph(q.first, q.second);
      vector<vector<LO>> w;
      auto T = templ(b.family, q.first, q.second);
      for (auto& h : b.ents[q.first]) { vector<LO> l; for (auto& t : T) { vector<LO> s; for (int i : t) s.push_back(h[size_t(i)]); l.push_back(b.find[q.second].at(sorted(s))); } w.push_back(l); }
      check_graph(g, w, "graph-down", true);
    }
    if (q.first < q.second) check_up(b, q.first, q.second, m.ask_up(q.first, q.second), how + "ask_up ");
    if (q.first == q.second) {
      vector<vector<LO>> w;
      for (LO i = 0; i < m.nents(q.first); ++i) w.push_back({i});
      check_graph(m.ask_graph(q.first, q.first), w, "graph-self", true);
    }
  }
  // vertex star
  {
    vector<vector<LO>> w(size_t(m.nverts()));
    for (auto& e : b.ents[1]) { w[size_t(e[0])].push_back(e[1]); w[size_t(e[1])].push_back(e[0]); }
    check_graph(m.ask_star(0), w, "vertex-star", false);
  }
  // dual
  {
    auto T = templ(b.family, dim, dim - 1);
    std::map<vector<LO>, vector<LO>> se;
    for (size_t e = 0; e < b.ents[dim].size(); ++e) for (auto& t : T) { vector<LO> s; for (int i : t) s.push_back(b.ents[dim][e][size_t(i)]); se[sorted(s)].push_back(LO(e)); }
    vector<vector<LO>> w(b.ents[dim].size());
    for (size_t e = 0; e < b.ents[dim].size(); ++e)
      for (auto& t : T) { vector<LO> s; for (int i : t) s.push_back(b.ents[dim][e][size_t(i)]); for (LO o : se[sorted(s)]) if (o != LO(e)) w[e].push_back(o); }
    check_graph(m.ask_dual(), w, "dual", true);
  }
  if (simplex && dim >= 2) {
    std::map<vector<LO>, LO> const& fe = b.find[1];
    vector<vector<LO>> w(b.ents[1].size());
    for (auto& f : b.ents[2]) {
      LO e[3];
      for (int i = 0; i < 3; ++i) e[i] = fe.at(sorted({f[size_t(i)], f[size_t((i + 1) % 3)]}));
      for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) if (i != j) w[size_t(e[i])].push_back(e[j]);
    }
    if (dim == 3)
      for (auto& t : b.ents[3]) {
        auto E = [&](int i, int j) { return fe.at(sorted({t[size_t(i)], t[size_t(j)]})); };
        std::pair<LO, LO> op[3] = {{E(0, 1), E(2, 3)}, {E(1, 2), E(0, 3)}, {E(2, 0), E(1, 3)}};
        for (auto& o : op) { w[size_t(o.first)].push_back(o.second); w[size_t(o.second)].push_back(o.first); }
      }
    check_graph(m.ask_star(1), w, "edge-star", false);
  }
  // the same relations through the free functions
  for (int hi = 1; hi <= dim; ++hi)
    for (int lo = 1; lo < hi; ++lo) {
      auto hv = m.ask_verts_of(hi), lv = m.ask_verts_of(lo);
      check_down(b, hi, lo, Omega_h::reflect_down(hv, lv, m.family(), m.nverts(), hi, lo), how + "reflect_down ");
      check_down(b, hi, lo, Omega_h::reflect_down(hv, lv, m.ask_up(0, lo), m.family(), hi, lo), how + "reflect_down(v2l) ");
      auto u = host(Omega_h::find_unique(hv, m.family(), hi, lo));
      int k = nverts_of(b.family, lo);
      std::set<vector<LO>> got, want;
      auto T = templ(b.family, hi, lo);
      for (size_t i = 0; i + size_t(k) <= u.size(); i += size_t(k)) got.insert(sorted(vector<LO>(u.begin() + LO(i), u.begin() + LO(i) + k)));
      for (auto& h : b.ents[hi]) for (auto& t : T) { vector<LO> s; for (int i : t) s.push_back(h[size_t(i)]); want.insert(sorted(s)); }
      VP_CHECK(got == want && u.size() == want.size() * size_t(k), "find-unique", "%d->%d found %zu entries for %zu distinct sides", hi, lo, u.size() / size_t(k), want.size());
      if (hi == 3 && lo == 1) {
        check_down(b, 3, 1, Omega_h::transit(m.ask_down(3, 2), m.ask_down(2, 1), m.family(), 3, 1), how + "transit ");
      }
    }
  // a random selection of rows
  for (int lo = 0; lo < dim; ++lo) {
    auto up = m.ask_up(lo, dim);
    vector<LO> sel;
    for (LO i = 0; i < m.nents(lo); ++i) if (r.chance(0.4)) sel.push_back(LO(r.below(m.nents(lo))));
    auto s = Omega_h::unmap_adjacency(dev(sel), up);
    auto uo = host(up.a2ab), ub = host(up.ab2b), so = host(s.a2ab), sb = host(s.ab2b);
    auto uc = host(up.codes), sc = host(s.codes);
    bool ok = so.size() == sel.size() + 1 && so[0] == 0;
    for (size_t i = 0; ok && i < sel.size(); ++i) {
      LO n = uo[size_t(sel[i]) + 1] - uo[size_t(sel[i])];
      ok = so[i + 1] - so[i] == n;
      for (LO j = 0; ok && j < n; ++j) ok = sb[size_t(so[i] + j)] == ub[size_t(uo[size_t(sel[i])] + j)] && sc[size_t(so[i] + j)] == uc[size_t(uo[size_t(sel[i])] + j)];
    }
    VP_CHECK(ok, "unmap-adjacency", "selecting rows of the %d->%d adjacency", lo, dim);
  }
}

template <int N> static void check_codes() {
  auto codes_of = [&](Rng&) {};
  (void)codes_of;
  vector<LO> id;
  for (int i = 0; i < N; ++i) id.push_back(10 + i);
  vector<int> codes;
  for (int rot = 0; rot < N; ++rot) for (int f = 0; f < (N > 2 ? 2 : 1); ++f) codes.push_back(Omega_h::make_code(f, rot, 0));
  for (int c : codes) {
    auto a = apply_code(id, c);
    LO in[4], out[4];
    for (int i = 0; i < N; ++i) in[i] = id[size_t(i)];
    Omega_h::align_adj<N>(I8(c), in, 0, out, 0);
    VP_CHECK(std::equal(a.begin(), a.end(), out), "align-adj", "deg %d code %d", N, c);
    for (int i = 0; i < N; ++i) {
      int j = Omega_h::align_vert_index(N, i, I8(c));
      VP_CHECK(j >= 0 && j < N && a[size_t(j)] == id[size_t(i)], "align-vert-index", "deg %d code %d", N, c);
      if (N > 2) {  // edge i joins i and i+1
        int k = Omega_h::align_edge_index(N, i, I8(c));
        std::set<LO> e1{id[size_t(i)], id[size_t((i + 1) % N)]}, e2{a[size_t(k)], a[size_t((k + 1) % N)]};
        VP_CHECK(e1 == e2, "align-edge-index", "deg %d code %d edge %d", N, c, i);
      }
    }
    int inv = Omega_h::invert_alignment(N, I8(c));
    VP_CHECK(apply_code(a, inv) == id, "invert-alignment", "deg %d code %d inverse %d", N, c, inv);
    for (int c2 : codes) {
      count("code_pairs");
      int cc = Omega_h::compound_alignments<N>(I8(c), I8(c2));
      VP_CHECK(apply_code(id, cc) == apply_code(apply_code(id, c), c2), "compound-alignments", "deg %d codes %d then %d gives %d", N, c, c2, cc);
    }
    for (int w = 0; w < 15; ++w) {
      I8 full = Omega_h::make_code(c & 1, (c >> 1) & 3, w);
      VP_CHECK(Omega_h::code_which_down(full) == w && Omega_h::code_rotation(full) == ((c >> 1) & 3) && Omega_h::code_is_flipped(full) == bool(c & 1), "make-code", "which %d", w);
    }
  }
}
template <class T> static void check_canon(Rng& r, int N) {
  vector<T> lists;
  int n = int(r.range(0, 40));
  for (int i = 0; i < n; ++i) {
    std::set<T> s;
    while (int(s.size()) < N) s.insert(T(r.below(r.chance(0.5) ? 8 : 1000000)));
    vector<T> v(s.begin(), s.end());
    r.shuffle(v);
    lists.insert(lists.end(), v.begin(), v.end());
  }
  auto codes = Omega_h::get_codes_to_canonical(N, dev(lists));
  auto al = host(Omega_h::align_ev2v(N, dev(lists), codes));
  auto c = host(codes);
  for (int i = 0; i < n; ++i) {
    vector<LO> idx, ai;
    for (int j = 0; j < N; ++j) idx.push_back(j);
    auto a = apply_code(idx, c[size_t(i)]);
    bool ok = true;
    for (int j = 0; j < N; ++j) ok = ok && al[size_t(i * N + j)] == lists[size_t(i * N + a[size_t(j)])];
    for (int j = 1; j < N; ++j) ok = ok && al[size_t(i * N)] < al[size_t(i * N + j)];
    if (N > 2) ok = ok && al[size_t(i * N + 1)] < al[size_t(i * N + N - 1)];
    VP_CHECK(ok, "canonical", "deg %d list %d is not brought to canonical form", N, i);
  }
}

int main(int argc, char** argv) {
  parse_args(argc, argv);
  LibArgs la(argc, argv);
  Library lib(&la.argc, &la.argv);
  auto world = lib.world();
  auto self = lib.self();
  ctx().rank = world->rank(); ctx().size = world->size();
  bool par = world->size() > 1;
  return run_cases([&](Rng& r, int64_t i) {
    if (par) {
      GenOpts o;
      auto s = gen_soup(r, o);
      auto mod = make_model(s);
      auto m = distribute(world, s, mod, r, int(r.below(4)));
      Rng r2(r.u64() + uint64_t(world->rank()));
      check_all(m, nullptr, r2, "elem-based ");
      int how = int(r.below(3));
      if (how == 0) m.set_parting(OMEGA_H_VERT_BASED);
      else m.set_parting(OMEGA_H_GHOSTED, how, false);
      check_all(m, nullptr, r2, "ghosted ");
      if (m.nelems()) nontrivial(case_seed(i));
      sample(s.desc + fmt(" on %d ranks, then ghosted %d", world->size(), how));
      return;
    }
    if (i == 0) { check_codes<2>(); check_codes<3>(); check_codes<4>(); }
    for (int n = 2; n <= 4; ++n) { check_canon<LO>(r, n); check_canon<GO>(r, n); }
    bool hyper = i % 3 == 2;
    Soup s;
    Mesh m(&lib);
    GenOpts o;
    if (ctx().thorough) o.max_cells = int(r.range(2, 8));
    if (hyper) s = gen_hyper(r); else s = gen_soup(r, o);
    auto fam = hyper ? OMEGA_H_HYPERCUBE : OMEGA_H_SIMPLEX;
    if (r.chance(0.5)) {
      Omega_h::build_from_elems_and_coords(&m, fam, s.dim, dev(conv<LO>(s.ev)), dev(s.x));
    } else {
      Omega_h::build_from_elems2verts(&m, fam, s.dim, dev(conv<LO>(s.ev)), s.nv());
    }
    VP_CHECK(m.nverts() == s.nv() && m.nelems() == s.ne(), "counts", "built %d vertices %d elements", m.nverts(), m.nelems());
    auto ev = conv<LO>(s.ev);
    check_all(m, &ev, r, "");
    if (s.dim > 1 && s.ne() > 1) { Hash h; h.add(s.ev.data(), s.ev.size() * sizeof(int)); nontrivial(h.get()); }
    sample(s.desc);
  });
}
