// C02: random histories of mesh operations against a value model. Every tag is
// a known function of an identity carried along with each entity, so its
// expected content is known after any renumbering or redistribution. Cached
// quantities are compared with those of a mesh made anew from the same data.
#include "vpmesh.hpp"
#include <Omega_h_adj.hpp>
#include <Omega_h_amr.hpp>
#include <Omega_h_for.hpp>
#include <Omega_h_ghost.hpp>
#include <Omega_h_unmap_mesh.hpp>
#include <Omega_h_adapt.hpp>

using namespace vp;
namespace osh = Omega_h;
static Library* g_lib;

struct MTag {
  int type, ncomps;
  uint64_t salt;
  int kind = 0;  // 0: random bits, 1: coordinates, 2: metric
};
struct Base {  // of the first mesh
  int dim = 2, family = 0;
  std::map<I64, vector<double>> x;           // by vertex identity
  std::map<I64, vector<I64>> verts[4];       // vertex identities, sorted
  double span = 1;
};
struct Var {
  Mesh mesh;
  std::map<std::pair<int, string>, MTag> tags;
  // parents by identity: (dim, id) -> (parent dim, parent id, code)
  std::map<std::pair<int, I64>, std::array<I64, 3>> parents;
  bool has_parents = false;
  std::map<string, vector<std::pair<int, int>>> sets;
};
static uint64_t bits(uint64_t salt, I64 id, int c) { return mix64(salt ^ mix64(uint64_t(id) * 131 + uint64_t(c))); }
static double unit(uint64_t salt, I64 id, int c) { return double(bits(salt, id, c) >> 11) * (1.0 / 9007199254740992.0); }
static int nsym(int d) { return d * (d + 1) / 2; }

static double rvalue(Base const& b, MTag const& t, I64 id, int c) {
  if (t.kind == 1) {
    double s = t.salt ? 0.5 + unit(t.salt, -1, c) * 1.5 : 1.0;
    return b.x.at(id)[size_t(c)] * s + (t.salt ? unit(t.salt, -2, c) * b.span : 0.0);
  }
  if (t.kind == 2) {
    bool diag = t.ncomps == 1 || c < b.dim;
    return diag ? 1.0 + 3.0 * unit(t.salt, id, c) : 0.3 * (unit(t.salt, id, c) - 0.5);
  }
  uint64_t u = bits(t.salt, id, c);
  double d;
  std::memcpy(&d, &u, 8);
  return d;
}
static string expect(Base const& b, MTag const& t, vector<I64> const& ids) {
  string s;
  auto put = [&](void const* p, size_t n) { s.append(static_cast<char const*>(p), n); };
  for (I64 id : ids)
    for (int c = 0; c < t.ncomps; ++c) {
      uint64_t u = bits(t.salt, id, c);
      if (t.type == OMEGA_H_I8) { I8 v = I8(u); put(&v, 1); }
      else if (t.type == OMEGA_H_I32) { I32 v = I32(u); put(&v, 4); }
      else if (t.type == OMEGA_H_I64) { I64 v = I64(u); put(&v, 8); }
      else { double v = rvalue(b, t, id, c); put(&v, 8); }
    }
  return s;
}
template <class T> static Read<T> to_read(string const& s) {
  vector<T> v(s.size() / sizeof(T));
  if (!v.empty()) std::memcpy(v.data(), s.data(), s.size());
  return Read<T>(dev(v));
}
static vector<I64> ids_of(Mesh& m, int d) { return host(m.get_array<I64>(d, "vpid")); }

static string dims(std::pair<int, string> const& k) { return fmt("%d:%s", k.first, k.second.c_str()); }

template <class F> static bool throws(F f) {
  try { f(); } catch (std::exception const&) { return true; }
  return false;
}

static bool derived(Mesh& m, int d, string const& n) {
  return (d == 1 && n == "length") || (d == m.dim() && (n == "quality" || n == "size")) || n == "leaf" || n == "level";
}

// a mesh made anew from the same connectivity, coordinates and metric
static Mesh fresh(Var& v) {
  Mesh& m = v.mesh;
  Mesh f = m.copy_meta();
  f.set_verts(m.nverts());
  for (int d = 1; d <= m.dim(); ++d) f.set_ents(d, m.get_adj(d, d - 1));
  for (int d = 0; d <= m.dim(); ++d) {
    if (m.comm()->size() > 1) f.set_owners(d, m.ask_owners(d));
    f.add_tag<GO>(d, "global", 1, m.globals(d));
  }
  if (m.has_tag(0, "coordinates")) f.add_tag<Real>(0, "coordinates", m.dim(), m.coords());
  if (m.has_tag(0, "metric")) f.add_tag<Real>(0, "metric", m.get_tagbase(0, "metric")->ncomps(), m.get_array<Real>(0, "metric"));
  return f;
}
static bool same_adj(osh::Adj a, osh::Adj b) {
  auto eq = [](auto x, auto y) { if (x.exists() != y.exists()) return false; return !x.exists() || host(x) == host(y); };
  return eq(a.a2ab, b.a2ab) && eq(a.ab2b, b.ab2b) && eq(a.codes, b.codes);
}

// everything the mesh holds against its model; no communication
static void check_values(Var& v, Base const& b, string const& where) {
  Mesh& m = v.mesh;
  for (int d = 0; d <= b.dim; ++d) {
    if (!m.has_tag(d, "vpid")) { viol("tag-lost", where + ": the identity tag is gone"); return; }
    auto ids = ids_of(m, d);
    VP_CHECK(LO(ids.size()) == m.nents(d), "entity-count", "%s: dim %d", where.c_str(), d);
    // connectivity
    if (d) {
      auto vid = ids_of(m, 0);
      auto ev = host(m.ask_verts_of(d));
      size_t deg = ids.empty() ? 1 : ev.size() / ids.size();
      bool ok = ev.size() == ids.size() * size_t(nverts_of(b.family, d));
      for (size_t e = 0; ok && e < ids.size(); ++e) {
        vector<I64> k;
        for (size_t j = 0; j < deg; ++j) k.push_back(vid[size_t(ev[e * deg + j])]);
        std::sort(k.begin(), k.end());
        auto it = b.verts[d].find(ids[e]);
        ok = it != b.verts[d].end() && it->second == k;
      }
      VP_CHECK(ok, "connectivity", "%s: dim %d entities no longer have their vertices", where.c_str(), d);
    }
    // enumeration of the tags
    std::set<string> seen;
    for (int i = 0; i < m.ntags(d); ++i) {
      auto t = m.get_tag(d, i);
      VP_CHECK(seen.insert(t->name()).second, "tag-twice", "%s: dim %d tag \"%s\" is listed twice", where.c_str(), d, t->name().c_str());
      if (!v.tags.count({d, t->name()}) && t->name() != "vpid" && t->name() != "global" && !derived(m, d, t->name()))
        viol("tag-unknown", fmt("%s: dim %d tag \"%s\" was never added or was removed", where.c_str(), d, t->name().c_str()));
    }
    for (auto& kv : v.tags) {
      if (kv.first.first != d) continue;
      auto& name = kv.first.second;
      auto& t = kv.second;
      if (!m.has_tag(d, name) || !seen.count(name)) { viol("tag-lost", where + ": tag " + dims(kv.first) + " is gone"); continue; }
      auto tb = m.get_tagbase(d, name);
      VP_CHECK(int(tb->type()) == t.type && tb->ncomps() == t.ncomps && tb->name() == name, "tag-type", "%s: tag %s has type %d width %d, stored were %d %d",
          where.c_str(), dims(kv.first).c_str(), int(tb->type()), tb->ncomps(), t.type, t.ncomps);
      if (int(tb->type()) != t.type || tb->ncomps() != t.ncomps) continue;
      VP_CHECK(dump_tag(tb).bytes == expect(b, t, ids), "tag-value", "%s: tag %s does not hold what was stored", where.c_str(), dims(kv.first).c_str());
    }
  }
  bool same = m.class_sets.size() == v.sets.size();
  for (auto& kv : v.sets) {
    auto it = m.class_sets.find(kv.first);
    same = same && it != m.class_sets.end() && it->second.size() == kv.second.size();
    for (size_t i = 0; same && i < kv.second.size(); ++i) same = int(it->second[i].dim) == kv.second[i].first && int(it->second[i].id) == kv.second[i].second;
  }
  VP_CHECK(same, "class-sets", "%s: the class sets are not those stored", where.c_str());
  if (v.has_parents) {
    for (int d = 1; d <= b.dim; ++d) {
      auto p = m.ask_parents(d);
      auto pi = host(p.parent_idx);
      auto pc = host(p.codes);
      auto ids = ids_of(m, d);
      vector<vector<I64>> pid;
      for (int q = 0; q <= b.dim; ++q) pid.push_back(ids_of(m, q));
      vector<vector<LO>> want[4];
      for (int q = 1; q <= b.dim; ++q) want[q].resize(pid[size_t(q)].size());
      bool ok = pi.size() == ids.size() && pc.size() == ids.size();
      for (size_t e = 0; ok && e < ids.size(); ++e) {
        auto it = v.parents.find({d, ids[e]});
        if (it == v.parents.end()) { ok = pi[e] == -1; continue; }
        auto& a = it->second;
        int q = int(a[0]);
        auto pos = std::find(pid[size_t(q)].begin(), pid[size_t(q)].end(), a[1]);
        if (pos == pid[size_t(q)].end()) { ok = pi[e] == -1; continue; }
        ok = pi[e] == LO(pos - pid[size_t(q)].begin()) && pc[e] == I8(a[2]);
        want[q][size_t(pos - pid[size_t(q)].begin())].push_back(LO(e));
      }
      VP_CHECK(ok, "parents", "%s: parents of dim %d are not those stored", where.c_str(), d);
      for (int q = 1; ok && q <= b.dim; ++q) {
        auto c = m.ask_children(q, d);
        auto off = host(c.a2ab);
        auto ch = host(c.ab2b);
        bool good = off.size() == want[q].size() + 1;
        for (size_t e = 0; good && e < want[q].size(); ++e) {
          vector<LO> got(ch.begin() + off[e], ch.begin() + off[e + 1]);
          std::sort(got.begin(), got.end());
          good = got == want[q][e];
        }
        VP_CHECK(good, "stale-children", "%s: children of dimension %d of dim %d are not those of the stored parents", where.c_str(), d, q);
      }
    }
  }
}
// cached and queried quantities against a mesh made anew; communicates
static void check_cached(Var& v, Base const& b, Rng& r, string const& where, bool ask) {
  Mesh& m = v.mesh;
  Mesh f = fresh(v);
  bool simplex = b.family == OMEGA_H_SIMPLEX;
  bool x = v.tags.count({0, "coordinates"}), met = v.tags.count({0, "metric"});
  auto cmp = [&](int d, char const* name, bool can, bool now, std::function<Reals(Mesh&)> q) {
    if (!simplex) return;
    if (!can) {
      VP_CHECK(!m.has_tag(d, name), "stale-cache", "%s: \"%s\" is still there without what it is computed from", where.c_str(), name);
      return;
    }
    if (!now && !m.has_tag(d, name)) return;
    auto got = now ? bytes_of(q(m)) : bytes_of(m.get_array<Real>(d, name));
    VP_CHECK(got == bytes_of(q(f)), "stale-cache", "%s: %s \"%s\" differs from a fresh computation", where.c_str(), now ? "queried" : "cached", name);
    count("cached compared");
  };
  bool a1 = ask && r.chance(0.6), a2 = ask && r.chance(0.6), a3 = ask && r.chance(0.6);
  cmp(1, "length", x && met, a1, [](Mesh& q) { return q.ask_lengths(); });
  cmp(b.dim, "quality", x && met, a2, [](Mesh& q) { return q.ask_qualities(); });
  cmp(b.dim, "size", x, a3, [](Mesh& q) { return q.ask_sizes(); });
  // adjacencies
  for (int d = 0; d <= b.dim; ++d)
    for (int e = 0; e <= b.dim; ++e) {
      bool want = ask && r.chance(0.25);
      if (!want && !m.has_adj(d, e)) continue;
      if (d == e && ((d == 2 && b.dim == 3) || (!simplex && d == 1 && b.dim > 1))) continue;
      if (d == e && d == b.dim && b.dim == 1) continue;
      auto q = [&](Mesh& y) -> osh::Adj {
        if (d > e) return y.ask_down(d, e);
        if (d < e) return y.ask_up(d, e);
        if (d == b.dim) return osh::Adj(y.ask_dual());
        return osh::Adj(y.ask_star(d));
      };
      VP_CHECK(same_adj(q(m), q(f)), "stale-adjacency", "%s: relation %d to %d differs from a fresh computation", where.c_str(), d, e);
      count("relations compared");
    }
  // ownership
  auto comm = m.comm();
  for (int d = 0; d <= b.dim; ++d) {
    auto o = m.ask_owners(d);
    auto rk = host(o.ranks);
    auto ow = host(m.owned(d));
    LO no = 0;
    bool ok = rk.size() == ow.size();
    for (size_t i = 0; ok && i < rk.size(); ++i) { bool mine = rk[i] == comm->rank(); ok = mine == bool(ow[i]); no += mine; }
    VP_CHECK(ok, "stale-owned", "%s: dim %d owned marks do not match the owners", where.c_str(), d);
    VP_CHECK(m.nents_owned(d) == no, "owned-count", "%s: dim %d", where.c_str(), d);
    VP_CHECK(m.nglobal_ents(d) == comm->allreduce(GO(no), OMEGA_H_SUM), "global-count", "%s: dim %d: %lld", where.c_str(), d, (long long)m.nglobal_ents(d));
    auto dist = m.ask_dist(d);
    VP_CHECK(host(dist.items2ranks()) == rk, "stale-dist", "%s: dim %d exchange plan does not lead to the owners", where.c_str(), d);
    VP_CHECK(host(dist.items2dests().idxs) == host(o.idxs), "stale-dist", "%s: dim %d exchange plan does not lead to the owners' indices", where.c_str(), d);
    VP_CHECK(dist.parent_comm()->rank() == comm->rank() && dist.parent_comm()->size() == comm->size(), "stale-dist", "%s: dim %d exchange plan is on another communicator", where.c_str(), d);
  }
}

static void case_hist(Rng& r, int64_t) {
  auto world = g_lib->world();
  int P = world->size(), me = world->rank();
  Base b;
  bool hyper = r.chance(0.2);
  GenOpts go;
  go.max_cells = r.chance(0.2) ? 1 : P > 1 ? 3 : 4;
  Soup s = hyper ? gen_hyper(r) : gen_soup(r, go);
  b.dim = s.dim;
  b.family = hyper ? OMEGA_H_HYPERCUBE : OMEGA_H_SIMPLEX;
  auto build = [&] {
    Mesh m(g_lib);
    osh::build_from_elems_and_coords(&m, hyper ? OMEGA_H_HYPERCUBE : OMEGA_H_SIMPLEX, s.dim, LOs(dev(conv<LO>(s.ev))), Reals(dev(s.x)));
    return m;
  };
  Rng sr(r.u64());
  vector<std::unique_ptr<Var>> vars;
  vars.emplace_back(new Var);
  vars[0]->mesh = distribute_built(world, build, sr, int(r.below(4)));
  {
    Mesh& m = vars[0]->mesh;
    auto g = assemble(dump_world(&m, false));
    for (int d = 0; d <= b.dim; ++d) {
      m.add_tag<I64>(d, "vpid", 1, m.globals(d));
      for (auto& kv : g.e[d]) {
        vector<I64> k(kv.second.v.begin(), kv.second.v.end());
        std::sort(k.begin(), k.end());
        if (d) b.verts[d][kv.first] = k;
      }
    }
    for (auto& kv : g.x) b.x[kv.first] = vector<double>(kv.second.begin(), kv.second.begin() + b.dim);
    for (auto& kv : b.x) for (double c : kv.second) b.span = std::max(b.span, std::abs(c));
    vars[0]->tags[{0, "coordinates"}] = MTag{OMEGA_H_F64, b.dim, 0, 1};
    if (!m.has_tag(0, "coordinates")) { viol("tag-lost", "coordinates were lost"); return; }
  }
  vector<string> names = {"a", "b", "class_like", "density", "a b", "length_", "mass"};
  vector<std::pair<Reals, vector<double>>> held;
  string hist = s.desc;
  int nops = int(r.range(4, 24));
  uint64_t salt = r.u64() | 1;
  for (int step = 0; step < nops; ++step) {
    auto& v = *vars[size_t(r.below(int64_t(vars.size())))];
    Mesh& m = v.mesh;
    int nlocal = 0;  // ranks without entities cannot infer widths
    string op;
    auto d = int(r.below(b.dim + 1));
    string name = r.pick(names);
    int kind = int(r.below(P > 1 ? 21 : 17));
    salt = mix64(salt);
    auto store = [&](int dd, string const& nm, MTag const& t, bool use_set) {
      auto e = expect(b, t, ids_of(m, dd));
      auto go2 = [&](auto tag) {
        using T = decltype(tag);
        auto a = to_read<T>(e);
        if (use_set) m.set_tag<T>(dd, nm, a);
        else m.add_tag<T>(dd, nm, t.ncomps, a);
      };
      if (t.type == OMEGA_H_I8) go2(I8());
      else if (t.type == OMEGA_H_I32) go2(I32());
      else if (t.type == OMEGA_H_I64) go2(I64());
      else go2(double());
      v.tags[{dd, nm}] = t;
    };
    int const types[4] = {OMEGA_H_I8, OMEGA_H_I32, OMEGA_H_I64, OMEGA_H_F64};
    auto have = [&]() {
      vector<std::pair<int, string>> k;
      for (auto& kv : v.tags) if (kv.second.kind == 0) k.push_back(kv.first);
      return k;
    };
    if (kind <= 2) {
      MTag t{types[r.below(4)], int(r.chance(0.1) ? 127 : r.range(1, 4)), salt};
      op = fmt("add %d:%s type %d width %d", d, name.c_str(), t.type, t.ncomps);
      store(d, name, t, false);
    } else if (kind == 3) {
      auto k = have();
      if (k.empty()) continue;
      auto key = r.pick(k);
      MTag t = v.tags[key];
      t.salt = salt;
      if (r.chance(0.3) && P == 1) { t.type = types[r.below(4)]; t.ncomps = int(r.range(1, 3)); }
      op = "set " + dims(key);
      store(key.first, key.second, t, true);
    } else if (kind == 4) {
      auto k = have();
      std::pair<int, string> key(d, name);
      if (!k.empty() && r.chance(0.8)) key = r.pick(k);
      op = "remove " + dims(key);
      m.remove_tag(key.first, key.second);
      v.tags.erase(key);
    } else if (kind == 5 || kind == 6) {
      op = "set coordinates";
      MTag t{OMEGA_H_F64, b.dim, r.chance(0.2) ? 0 : salt, 1};
      auto e = to_read<Real>(expect(b, t, ids_of(m, 0)));
      bool had = v.tags.count({0, "coordinates"});
      int how = int(r.below(3));
      if (how == 0 && had) m.set_coords(e);
      else if (how == 1) m.add_coords(e);
      else m.add_tag<Real>(0, "coordinates", b.dim, e);
      v.tags[{0, "coordinates"}] = t;
    } else if (kind == 7 || kind == 8) {
      op = "set metric";
      MTag t{OMEGA_H_F64, r.chance(0.5) ? 1 : nsym(b.dim), salt, 2};
      store(0, "metric", t, false);
    } else if (kind == 9) {
      bool c = r.chance(0.25);
      op = c ? "remove coordinates" : "remove metric";
      string nm = c ? "coordinates" : "metric";
      m.remove_tag(0, nm);
      v.tags.erase({0, nm});
    } else if (kind == 11 && r.chance(0.5)) {
      op = "class set " + name;
      if (r.chance(0.3)) { m.class_sets.erase(name); v.sets.erase(name); }
      else { int sd = int(r.below(4)), id = int(r.below(100)); m.class_sets[name].push_back({sd, id}); v.sets[name].push_back({sd, id}); }
    } else if (kind == 10 || kind == 11) {
      op = "query";
    } else if (kind == 12) {
      // requests that must be refused and must change nothing
      op = "refused requests";
      bool ok = true;
      string what;
      auto refuse = [&](char const* w, bool t) { if (!t) { ok = false; what += string(" ") + w; } };
      refuse("get absent", throws([&] { m.get_array<Real>(d, "no such tag"); }));
      refuse("get absent base", throws([&] { m.get_tagbase(d, "no such tag"); }));
      auto k = have();
      if (!k.empty()) {
        auto key = r.pick(k);
        auto t = v.tags[key];
        if (t.type != OMEGA_H_I8) refuse("wrong type i8", throws([&] { m.get_array<I8>(key.first, key.second); }));
        if (t.type != OMEGA_H_I32) refuse("wrong type i32", throws([&] { m.get_array<I32>(key.first, key.second); }));
        if (t.type != OMEGA_H_I64) refuse("wrong type i64", throws([&] { m.get_array<I64>(key.first, key.second); }));
        if (t.type != OMEGA_H_F64) refuse("wrong type real", throws([&] { m.get_array<Real>(key.first, key.second); }));
      }
      LO n = m.nents(d);
      refuse("add wrong size", throws([&] { m.add_tag<I32>(d, name, 2, Read<I32>(n * 2 + 1, 7)); }));
      refuse("add other wrong size", throws([&] { m.add_tag<Real>(d, name, 1, Reals(n * 2 + 2, 7.0)); }));
      if (n > 1) refuse("set wrong size", throws([&] { m.set_tag<Real>(d, name, Reals(n * 2 + 1, 7.0)); }));
      refuse("no name", throws([&] { m.add_tag<I32>(d, "", 1, Read<I32>(n, 7)); }));
      if (!v.tags.count({d, "new"})) {
        refuse("negative width", throws([&] { m.add_tag<I32>(d, "new", -1); }));
        refuse("large width", throws([&] { m.add_tag<I32>(d, "new", 128, Read<I32>(n * 128, 7)); }));
      }
      refuse("dimension below", throws([&] { m.nents(-1); }));
      refuse("dimension above", throws([&] { m.nents(b.dim + 1); }));
      refuse("tag of a dimension above", throws([&] { m.get_array<Real>(b.dim + 1, "coordinates"); }));
      refuse("has tag of a dimension above", throws([&] { m.has_tag(b.dim + 1, "coordinates"); }));
      refuse("tag index above", throws([&] { m.get_tag(d, m.ntags(d)); }));
      refuse("tag index below", throws([&] { m.get_tag(d, -1); }));
      refuse("down upwards", throws([&] { m.ask_down(0, b.dim); }));
      refuse("up downwards", throws([&] { m.ask_up(b.dim, 0); }));
      VP_CHECK(ok, "not-refused", "%s: accepted:%s", hist.c_str(), what.c_str());
    } else if (kind == 13) {
      if (vars.size() < 4) {
        op = "copy";
        std::unique_ptr<Var> c(new Var(v));
        vars.push_back(std::move(c));
      } else {
        op = "assign";
        auto& o = *vars[size_t(r.below(4))];
        if (&o != &v) { if (r.chance(0.5)) o.mesh = v.mesh; else osh::assign(o.mesh, v.mesh); o.tags = v.tags; o.sets = v.sets; o.parents = v.parents; o.has_parents = v.has_parents; }
      }
    } else if (kind == 14) {
      if (P == 1 && r.chance(0.5)) {
        if (!v.tags.count({0, "coordinates"})) continue;
        op = "reorder by hilbert";
        osh::reorder_by_hilbert(&m);
      } else {
        op = "reorder by globals";
        osh::reorder_by_globals(&m);
      }
    } else if (kind == 15) {
      op = "hold an array";
      auto k = have();
      if (v.tags.count({0, "coordinates"})) held.push_back({m.coords(), host(m.coords())});
    } else if (kind == 16) {
      if (P > 1) continue;
      int how = int(r.below(3));
      if (how == 0) {
        op = "parents";
        v.parents.clear();
        v.has_parents = true;
        for (int q = 1; q <= b.dim; ++q) {
          auto ids = ids_of(m, q);
          vector<LO> pi;
          vector<I8> pc;
          for (I64 id : ids) {
            int pd = int(r.range(q, b.dim));
            LO np = m.nents(pd);
            if (r.chance(0.4) || np == 0) { pi.push_back(-1); pc.push_back(0); continue; }
            LO p = LO(r.below(np));
            I8 code = osh::amr::make_code(int(r.below(12)), pd);
            pi.push_back(p);
            pc.push_back(code);
            v.parents[{q, id}] = {I64(pd), ids_of(m, pd)[size_t(p)], I64(code)};
          }
          m.set_parents(q, osh::Parents(dev(pi), dev(pc)));
        }
      } else {
        // random renumbering, or some of the elements and what they use
        op = how == 1 ? "renumber" : "part of the mesh";
        vector<I8> keep(static_cast<size_t>(m.nelems()), 1);
        if (how == 2) for (auto& x : keep) x = r.chance(0.7);
        if (keep.empty()) continue;
        if (how == 2) keep[size_t(r.below(int64_t(keep.size())))] = 1;
        LOs n2o[4];
        for (int q = 0; q <= b.dim; ++q) {
          auto mk = q == b.dim ? keep : host(osh::mark_down(&m, b.dim, q, Read<I8>(dev(keep))));
          vector<LO> o;
          for (size_t i = 0; i < mk.size(); ++i) if (mk[i]) o.push_back(LO(i));
          r.shuffle(o);
          n2o[q] = LOs(dev(o));
        }
        osh::unmap_mesh(&m, n2o);
        if (how == 2)  // parents that went away are forgotten for good
          for (int q = 1; q <= b.dim; ++q) {
            std::set<I64> left;
            for (I64 id : ids_of(m, q)) left.insert(id);
            for (auto it = v.parents.begin(); it != v.parents.end();) {
              bool gone = (it->first.first == q && !left.count(it->first.second)) || (it->second[0] == q && !left.count(it->second[1]));
              it = gone ? v.parents.erase(it) : std::next(it);
            }
          }
      }
    } else if (kind == 17) {
      int w = int(r.below(4));
      op = fmt("repartition %d", w);
      if (w == 0) { int l = int(r.range(1, 2)); if (m.parting() != OMEGA_H_ELEM_BASED) m.set_parting(OMEGA_H_ELEM_BASED); m.set_parting(OMEGA_H_GHOSTED, l, false); }
      else if (w == 1) { if (m.parting() != OMEGA_H_ELEM_BASED) m.set_parting(OMEGA_H_ELEM_BASED); m.set_parting(OMEGA_H_VERT_BASED); }
      else if (w == 2) m.set_parting(OMEGA_H_ELEM_BASED);
      else {
        m.set_parting(OMEGA_H_ELEM_BASED);
        Rng q(r.u64());
        // destinations go by element number: only for a whole mesh
        if (v.tags.count({0, "coordinates"})) scatter(m, q, int(q.range(0, 3)));
      }
    } else if (kind == 20) {
      // some other copy becomes the owner
      d = int(r.below(b.dim));
      if (m.parting() != OMEGA_H_ELEM_BASED) continue;
      op = fmt("owners of dim %d", d);
      m.ask_dist(d);
      auto ids = ids_of(m, d);
      auto all = allgather_str(m.comm()->get_impl(), string(reinterpret_cast<char const*>(ids.data()), ids.size() * 8));
      std::map<I64, std::pair<uint64_t, std::pair<I32, LO>>> best;
      for (size_t k = 0; k < all.size(); ++k)
        for (size_t i = 0; i * 8 < all[k].size(); ++i) {
          I64 id;
          std::memcpy(&id, all[k].data() + i * 8, 8);
          auto c = std::make_pair(mix64(salt ^ uint64_t(id) * 31 ^ k), std::make_pair(I32(k), LO(i)));
          auto it = best.find(id);
          if (it == best.end() || c < it->second) best[id] = c;
        }
      vector<I32> rk;
      vector<LO> ix;
      for (I64 id : ids) { rk.push_back(best[id].second.first); ix.push_back(best[id].second.second); }
      m.set_owners(d, osh::Remotes(Read<I32>(dev(rk)), LOs(dev(ix))));
      count("ownerships changed");
    } else if (kind == 18) {
      op = "permute ranks";
      vector<int> nr(static_cast<size_t>(P));
      for (int i = 0; i < P; ++i) nr[size_t(i)] = i;
      r.shuffle(nr);
      auto c2 = m.comm()->split(0, nr[size_t(m.comm()->rank())]);
      m.set_comm(c2);
    } else {
      auto k = have();
      if (k.empty()) continue;
      auto key = r.pick(k);
      auto t = v.tags[key];
      bool red = r.chance(0.3) && t.type != OMEGA_H_F64;
      op = (red ? "reduce " : "sync ") + dims(key);
      if (!red) {
        // spoil the copies first
        auto good = expect(b, t, ids_of(m, key.first));
        auto ow = host(m.owned(key.first));
        size_t w = ow.empty() ? 0 : good.size() / ow.size();
        for (size_t i = 0; i < ow.size(); ++i) if (!ow[i]) for (size_t j = 0; j < w; ++j) good[i * w + j] = char(good[i * w + j] ^ 0x55);
        auto put = [&](auto x) { using T = decltype(x); m.set_tag<T>(key.first, key.second, to_read<T>(good)); };
        if (t.type == OMEGA_H_I8) put(I8()); else if (t.type == OMEGA_H_I32) put(I32()); else if (t.type == OMEGA_H_I64) put(I64()); else put(double());
        m.sync_tag(key.first, key.second);
      } else {
        m.reduce_tag(key.first, key.second, OMEGA_H_MAX);  // leaves only the owners right
        m.sync_tag(key.first, key.second);
      }
    }
    (void)nlocal;
    (void)me;
    hist += "; " + op;
    count("operations");
    // every mesh, not only the one that was changed
    int vi = 0;
    for (auto& q : vars) {
      string where = fmt("mesh %d%s after ", vi, q.get() == &v ? "" : " (not touched)") + hist;
      check_values(*q, b, where);
      bool ask = r.chance(0.4);
      if (q.get() == &v || r.chance(0.3)) {
        Rng q2(r.u64());
        check_cached(*q, b, q2, where, ask);
      }
      ++vi;
    }
    for (auto& h : held) VP_CHECK(host(h.first) == h.second, "array-changed", "an array read earlier changed after %s", hist.c_str());
    if (ctx().nviol_case && P == 1) break;
  }
  if (nops > 3) nontrivial(hash_str(hist));
  sample(hist);
}

int main(int argc, char** argv) {
  parse_args(argc, argv);
  LibArgs la(argc, argv);
  Library lib(&la.argc, &la.argv);
  g_lib = &lib;
  ctx().rank = lib.world()->rank();
  ctx().size = lib.world()->size();
  auto m = ctx().mode;
  if (m == "hist") return run_cases(case_hist);
  return 2;
}
