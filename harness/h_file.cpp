// Files (D01-D03) and mesh comparison (D05).
// --vp-mode = native | damage | vtk | cmp
#include "vpmesh.hpp"
#include <Omega_h_adj.hpp>
#include <Omega_h_amr.hpp>
#include <Omega_h_class.hpp>
#include <Omega_h_base64.hpp>
#include <Omega_h_cmdline.hpp>
#include <Omega_h_compare.hpp>
#include <Omega_h_file.hpp>
#include <Omega_h_inertia.hpp>
#include <Omega_h_vtk.hpp>
#include <csignal>
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <limits>
#include <sys/resource.h>
#include <sys/stat.h>
#include <zlib.h>
using namespace vp;
namespace fs = Omega_h::filesystem;

static Library* LIB;

// ------------------------------------------------------------------ scratch
static void rmtree(string const& p) {
  struct stat st;
  if (lstat(p.c_str(), &st)) return;
  if (S_ISDIR(st.st_mode)) {
    if (DIR* d = opendir(p.c_str())) {
      while (auto e = readdir(d)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) rmtree(p + "/" + e->d_name);
      closedir(d);
    }
    rmdir(p.c_str());
  } else unlink(p.c_str());
}
static string slurp(string const& p) {
  std::ifstream f(p.c_str(), std::ios::binary);
  std::stringstream s;
  s << f.rdbuf();
  return s.str();
}
static void spit(string const& p, string const& s) {
  std::ofstream f(p.c_str(), std::ios::binary);
  f.write(s.data(), std::streamsize(s.size()));
}
static bool exists(string const& p) { struct stat st; return !lstat(p.c_str(), &st); }
// the scratch directory is shared between the ranks of a run: same name everywhere
static string scratch(char const* n) { return ctx().tmp + "/" + n; }

// ------------------------------------------------------------------ snapshots
struct Part {
  int family = 0, dim = 0, size = 1, rank = 0, parting = 0, nghost = 0;
  bool hints = false;
  vector<std::array<double, 3>> axes;
  int nverts = 0;
  vector<int> down[4];
  vector<I8> codes[4];
  vector<TagDump> tags[4];
  vector<int> orank[4], oidx[4];
  std::map<string, vector<std::pair<int, int>>> sets;
  bool parents = false;
  vector<int> pidx[4];
  vector<I8> pcode[4];
};
static void sort_tags(vector<TagDump>& t) { std::sort(t.begin(), t.end(), [](TagDump const& a, TagDump const& b) { return a.name < b.name; }); }
static Part snap(Mesh& m) {
  Part p;
  p.family = int(m.family()); p.dim = m.dim(); p.size = m.comm()->size(); p.rank = m.comm()->rank();
  p.parting = int(m.parting()); p.nghost = m.nghost_layers();
  if (auto h = m.rib_hints()) { p.hints = true; for (auto& a : h->axes) p.axes.push_back({{a[0], a[1], a[2]}}); }
  p.nverts = m.nverts();
  for (int d = 0; d <= p.dim; ++d) {
    if (d) { auto a = m.ask_down(d, d - 1); p.down[d] = host(a.ab2b); if (d > 1) p.codes[d] = host(a.codes); }
    for (int i = 0; i < m.ntags(d); ++i) p.tags[d].push_back(dump_tag(m.get_tag(d, i)));
    sort_tags(p.tags[d]);
    if (p.size > 1) { auto o = m.ask_owners(d); p.orank[d] = host(o.ranks); p.oidx[d] = host(o.idxs); }
  }
  for (auto& s : m.class_sets) for (auto& q : s.second) p.sets[s.first].push_back({q.dim, q.id});
  for (auto& s : m.class_sets) p.sets[s.first];
  p.parents = m.has_any_parents();
  if (p.parents) for (int d = 0; d <= p.dim; ++d) { auto a = m.ask_parents(d); p.pidx[d] = host(a.parent_idx); p.pcode[d] = host(a.codes); }
  return p;
}
// what a file of format version v can tell
static void limit(Part& p, int v) {
  if (v < 9) { p.parents = false; for (auto& q : p.pidx) q.clear(); for (auto& q : p.pcode) q.clear(); }
  if (v < 8) p.sets.clear();
}
static string diff(Part const& a, Part const& b) {
#define F(x) if (!(a.x == b.x)) return #x " differs";
  F(family) F(dim) F(size) F(rank) F(parting) F(nghost) F(hints) F(nverts) F(parents)
  if (a.axes.size() != b.axes.size()) return "RIB axes differ";
  for (size_t i = 0; i < a.axes.size(); ++i) for (int k = 0; k < 3; ++k) if (!biteq(a.axes[i][size_t(k)], b.axes[i][size_t(k)])) return "RIB axes differ";
  // a set without members may be dropped by a reader
  auto sa = a.sets, sb = b.sets;
  for (auto q : {&sa, &sb}) for (auto it = q->begin(); it != q->end();) if (it->second.empty()) it = q->erase(it); else ++it;
  if (sa != sb) return "classification sets differ";
  for (int d = 0; d <= a.dim; ++d) {
#define FD(x) if (!(a.x[d] == b.x[d])) return fmt(#x " differs in dim %d", d);
    FD(down) FD(codes) FD(orank) FD(oidx) FD(pidx) FD(pcode)
    auto ta = a.tags[d], tb = b.tags[d];
    if (ta.size() != tb.size()) return fmt("%zu tags instead of %zu in dim %d", tb.size(), ta.size(), d);
    for (size_t i = 0; i < ta.size(); ++i) {
      if (ta[i].name != tb[i].name) return fmt("tag %s missing in dim %d", ta[i].name.c_str(), d);
      if (ta[i].type != tb[i].type || ta[i].ncomps != tb[i].ncomps) return fmt("type or component count of tag %s in dim %d differs", ta[i].name.c_str(), d);
      if (ta[i].bytes != tb[i].bytes) return fmt("values of tag %s in dim %d differ", ta[i].name.c_str(), d);
    }
  }
  return "";
}

// ------------------------------------------------------------------ independent native format
struct In {
  string const& s; size_t p = 0; bool bad = false;
  explicit In(string const& q) : s(q) {}
  bool need(size_t n) { if (bad || n > s.size() - p) { bad = true; return false; } return true; }
  template <class T> T num() { T t{}; if (need(sizeof t)) { memcpy(&t, &s[p], sizeof t); p += sizeof t; } return t; }
  string str() { auto n = num<I32>(); if (n < 0 || !need(size_t(n))) { bad = true; return ""; } string r = s.substr(p, size_t(n)); p += size_t(n); return r; }
  string raw(bool comp, size_t width) {
    auto n = num<I32>();
    if (n < 0) { bad = true; return ""; }
    size_t bytes = size_t(n) * width;
    if (!comp) { if (!need(bytes)) return ""; string r = s.substr(p, bytes); p += bytes; return r; }
    auto cb = num<I64>();
    if (cb < 0 || !need(size_t(cb))) { bad = true; return ""; }
    string r(bytes + 1, '\0');
    uLongf got = bytes + 1;
    if (uncompress(reinterpret_cast<Bytef*>(&r[0]), &got, reinterpret_cast<Bytef const*>(s.data() + p), uLong(cb)) != Z_OK || got != bytes) bad = true;
    p += size_t(cb);
    r.resize(bytes);
    return r;
  }
  template <class T> vector<T> arr(bool c) { auto r = raw(c, sizeof(T)); vector<T> v(r.size() / sizeof(T)); if (!v.empty()) memcpy(v.data(), r.data(), r.size()); return v; }
};
static size_t type_width(int t) { return t == OMEGA_H_I8 ? 1 : t == OMEGA_H_I32 ? 4 : 8; }
static string decode(string const& bytes, int v, Part& p) {
  In f(bytes);
  if (f.num<uint8_t>() != 0xa1 || f.num<uint8_t>() != 0x1a) return "bad magic";
  bool c = f.num<I8>();
  p.family = f.num<I8>(); p.dim = f.num<I8>(); p.size = f.num<I32>(); p.rank = f.num<I32>(); p.parting = f.num<I8>(); p.nghost = f.num<I32>();
  p.hints = f.num<I8>();
  if (p.hints) { int n = f.num<I32>(); for (int i = 0; i < n && !f.bad; ++i) { std::array<double, 3> a; for (auto& y : a) y = f.num<double>(); p.axes.push_back(a); } }
  p.nverts = f.num<I32>();
  if (p.dim < 1 || p.dim > 3) return "bad dimension";
  for (int d = 1; d <= p.dim; ++d) { p.down[d] = f.arr<int>(c); if (d > 1) p.codes[d] = f.arr<I8>(c); }
  for (int d = 0; d <= p.dim; ++d) {
    int n = f.num<I32>();
    for (int i = 0; i < n && !f.bad; ++i) {
      TagDump t;
      t.name = f.str(); t.ncomps = f.num<I8>(); t.type = f.num<I8>();
      t.bytes = f.raw(c, type_width(t.type));
      p.tags[d].push_back(t);
    }
    sort_tags(p.tags[d]);
    if (p.size > 1) { p.orank[d] = f.arr<int>(c); p.oidx[d] = f.arr<int>(c); }
  }
  int ns = f.num<I32>();
  for (int i = 0; i < ns && !f.bad; ++i) {
    string n = f.str();
    int np = f.num<I32>();
    p.sets[n];
    for (int j = 0; j < np && !f.bad; ++j) { int a = f.num<I32>(), b = f.num<I32>(); p.sets[n].push_back({a, b}); }
  }
  p.parents = f.num<I8>();
  if (p.parents) for (int d = 0; d <= p.dim; ++d) { p.pidx[d] = f.arr<int>(c); p.pcode[d] = f.arr<I8>(c); }
  if (f.bad) return "ends early or has a bad block";
  if (f.p != bytes.size()) return "has trailing bytes";
  (void)v;
  return "";
}
static string encode(Part const& p, int v, bool comp, Rng& r) {
  Buf b;
  auto raw = [&](string const& s, size_t width) {
    b.pod(I32(s.size() / width));
    if (!comp) { b.s += s; return; }
    uLongf n = compressBound(s.size());
    string o(n, '\0');
    compress2(reinterpret_cast<Bytef*>(&o[0]), &n, reinterpret_cast<Bytef const*>(s.data()), s.size(), int(r.below(10)));
    b.pod(I64(n));
    b.s.append(o, 0, n);
  };
  auto ints = [&](vector<int> const& a) { raw(string(reinterpret_cast<char const*>(a.data()), a.size() * 4), 4); };
  auto i8s = [&](vector<I8> const& a) { raw(string(reinterpret_cast<char const*>(a.data()), a.size()), 1); };
  auto str = [&](string const& s) { b.pod(I32(s.size())); b.s += s; };
  b.pod(uint8_t(0xa1)); b.pod(uint8_t(0x1a));
  if (v < 4) b.pod(I32(v));
  b.pod(I8(comp));
  if (v >= 7) b.pod(I8(p.family));
  b.pod(I8(p.dim)); b.pod(I32(p.size)); b.pod(I32(p.rank)); b.pod(I8(p.parting));
  if (v >= 3) b.pod(I32(p.nghost));
  b.pod(I8(p.hints));
  if (p.hints) { b.pod(I32(p.axes.size())); for (auto& a : p.axes) for (double y : a) b.pod(y); }
  if (v < 6) b.pod(I8(r.below(2)));
  b.pod(I32(p.nverts));
  for (int d = 1; d <= p.dim; ++d) { ints(p.down[d]); if (d > 1) i8s(p.codes[d]); }
  for (int d = 0; d <= p.dim; ++d) {
    b.pod(I32(p.tags[d].size()));
    for (auto& t : p.tags[d]) {
      str(t.name); b.pod(I8(t.ncomps)); b.pod(I8(t.type));
      if (v < 5) { b.pod(I8(r.below(8))); if (v >= 2) b.pod(I8(r.below(8))); }
      raw(t.bytes, type_width(t.type));
    }
    if (p.size > 1) { ints(p.orank[d]); ints(p.oidx[d]); }
  }
  if (v >= 8) {
    b.pod(I32(p.sets.size()));
    for (auto& s : p.sets) { str(s.first); b.pod(I32(s.second.size())); for (auto& q : s.second) { b.pod(I32(q.first)); b.pod(I32(q.second)); } }
  }
  if (v >= 9) { b.pod(I8(p.parents)); if (p.parents) for (int d = 0; d <= p.dim; ++d) { ints(p.pidx[d]); i8s(p.pcode[d]); } }
  return b.s;
}

// ------------------------------------------------------------------ generation
static double odd_real(uint64_t h) {
  Rng r(h);
  switch (r.below(12)) {
    case 0: return -0.0;
    case 1: return std::numeric_limits<double>::infinity();
    case 2: return -std::numeric_limits<double>::infinity();
    case 3: { uint64_t b = 0x7ff8000000000000ULL | (r.u64() & 0xffffffff); double d; memcpy(&d, &b, 8); return d; }
    case 4: return std::numeric_limits<double>::denorm_min() * double(r.below(1000));
    case 5: return std::numeric_limits<double>::max();
    case 6: return double(r.range(-5, 5));
    default: return r.real(-1, 1) * std::pow(10.0, r.real(-30, 30));
  }
}
struct TagSpec { int dim; string name; int type, nc; uint64_t salt; bool finite; };
static void put_tag(Mesh& m, TagSpec const& t) {
  auto g = host(m.globals(t.dim));
  size_t n = g.size() * size_t(t.nc);
  auto h = [&](size_t i) { return mix64(t.salt ^ mix64(uint64_t(g[i / size_t(t.nc)]) * 64 + i % size_t(t.nc))); };
  auto pick = [&](size_t i, int64_t lo, int64_t hi) { uint64_t x = h(i); return x % 9 == 0 ? lo : x % 9 == 1 ? hi : x % 9 == 2 ? int64_t(0) : int64_t(mix64(x)); };
  if (t.type == OMEGA_H_I8) { vector<I8> v(n); for (size_t i = 0; i < n; ++i) v[i] = I8(pick(i, -128, 127)); m.add_tag<I8>(t.dim, t.name, t.nc, dev(v)); }
  if (t.type == OMEGA_H_I32) { vector<I32> v(n); for (size_t i = 0; i < n; ++i) v[i] = I32(pick(i, INT32_MIN, INT32_MAX)); m.add_tag<I32>(t.dim, t.name, t.nc, dev(v)); }
  if (t.type == OMEGA_H_I64) { vector<I64> v(n); for (size_t i = 0; i < n; ++i) v[i] = I64(pick(i, INT64_MIN, INT64_MAX)); m.add_tag<I64>(t.dim, t.name, t.nc, dev(v)); }
  if (t.type == OMEGA_H_F64) { vector<Real> v(n); for (size_t i = 0; i < n; ++i) { v[i] = odd_real(h(i)); if (t.finite) v[i] = double(int64_t(h(i)) % 100000) / 7.0; } m.add_tag<Real>(t.dim, t.name, t.nc, dev(v)); }
}
static vector<TagSpec> gen_tags(Rng& r, int dim, int maxn, bool xmlsafe, bool finite = false) {
  static vector<string> const safe = {"a", "density", "x_y", "T0", "metric_2", "velocity", "a_rather_long_tag_name_of_more_than_thirty_two_characters", "B", "size field"};
  static vector<string> const odd = {"<&>", "tab\there", "\xc3\xa9", "a/b", "quote\"d", "%s"};
  static int const types[4] = {OMEGA_H_I8, OMEGA_H_I32, OMEGA_H_I64, OMEGA_H_F64};
  vector<TagSpec> out;
  std::set<std::pair<int, string>> used;
  int n = int(r.below(maxn + 1));
  for (int i = 0; i < n; ++i) {
    TagSpec t;
    t.dim = int(r.range(0, dim)); t.name = (!xmlsafe && r.chance(0.2)) ? r.pick(odd) : r.pick(safe);
    t.type = types[r.below(4)]; t.nc = r.chance(0.1) ? int(r.range(10, 127)) : int(r.range(1, 9)); t.salt = r.u64(); t.finite = finite;
    if (t.name.empty() && xmlsafe) continue;
    if (used.insert({t.dim, t.name}).second) out.push_back(t);
  }
  return out;
}
struct Case { Soup s; Model m; bool hyper = false, amr = false, sets = false; int style = 1; vector<TagSpec> tags; uint64_t seed = 0; std::map<string, vector<std::pair<int, int>>> cs; };
static Case gen_case(Rng& r, bool xmlsafe, bool finite = false) {
  Case c;
  c.hyper = r.chance(0.3);
  GenOpts go;
  if (r.chance(0.3)) go.max_cells = 1;
  if (ctx().thorough) go.max_cells = int(r.range(1, 6));
  if (c.hyper) { c.s = gen_hyper(r); c.amr = r.chance(0.4) && c.s.dim > 1; }
  else { c.s = gen_soup(r, go); c.m = make_model(c.s); }
  c.style = int(r.below(4));
  c.tags = gen_tags(r, c.s.dim, 6, xmlsafe, finite);
  if (r.chance(0.5)) {
    int n = int(r.range(1, 4));
    for (int i = 0; i < n; ++i) {
      auto& v = c.cs[r.pick(vector<string>{"boundary", "side set 1", "left", "x+", "body", "\xc3\xbc"})];
      int k = int(r.range(1, 4));
      for (int j = 0; j < k; ++j) v.push_back({int(r.below(4)), int(r.range(-3, 1000000))});
    }
  }
  c.seed = r.u64();
  return c;
}
static Mesh make_mesh(Case const& c, CommPtr comm) {
  Rng r(c.seed);
  auto self = LIB->self();
  bool par = comm->size() > 1;
  auto build = [&]() {
    if (!c.hyper) return build_serial(self, c.s, &c.m);
    Mesh m(LIB);
    Omega_h::build_from_elems_and_coords(&m, OMEGA_H_HYPERCUBE, c.s.dim, dev(conv<LO>(c.s.ev)), dev(c.s.x));
    auto exposed = Omega_h::mark_exposed_sides(&m);
    int dim = c.s.dim;
    for (int d = 0; d <= dim; ++d) {
      vector<I8> cd(size_t(m.nents(d)), I8(dim));
      auto on = d < dim ? host(Omega_h::mark_down(&m, dim - 1, d, exposed)) : vector<I8>(cd.size(), I8(0));
      vector<LO> id(cd.size(), 1);
      for (size_t i = 0; i < cd.size(); ++i) if (on[i]) { cd[i] = I8(dim - 1); id[i] = 5; }
      m.add_tag<I8>(d, "class_dim", 1, dev(cd));
      m.add_tag<LO>(d, "class_id", 1, dev(id));
    }
    return m;
  };
  Mesh m = distribute_built(comm, build, r, c.style);
  if (par) {
    int k = int(r.below(6));
    if (k == 0) m.set_parting(OMEGA_H_VERT_BASED);
    if (k == 1 && !c.hyper) m.set_parting(OMEGA_H_GHOSTED, int(r.range(1, 3)), false);
    if (k == 1 && c.hyper) m.set_parting(OMEGA_H_GHOSTED, 1, false);
  }
  if (c.amr && !par) {
    vector<I8> marks;
    for (int i = 0; i < m.nelems(); ++i) marks.push_back(I8(r.below(2)));
    Omega_h::TransferOpts xo;
    m.add_tag<I8>(c.s.dim, "leaf", 1, Bytes(m.nelems(), 1));
    for (int d = 0; d < c.s.dim; ++d) m.add_tag<I8>(d, "leaf", 1, Bytes(m.nents(d), 1));
    for (int d = 0; d <= c.s.dim; ++d) m.add_tag<I8>(d, "level", 1, Bytes(m.nents(d), 0));
    Omega_h::amr::refine(&m, dev(marks), xo);
  }
  for (auto& t : c.tags) put_tag(m, t);
  for (auto& s : c.cs) for (auto& q : s.second) m.class_sets[s.first].push_back(Omega_h::ClassPair(q.first, q.second));
  return m;
}
static string describe(Mesh& m, Case const& c) {
  size_t nt = c.tags.size();
  return fmt("%s parting=%d layers=%d tags=%zu sets=%zu amr=%d parts=%d", c.s.desc.c_str(), int(m.parting()), m.nghost_layers(), nt, c.cs.size(), int(c.amr), m.comm()->size());
}
static void barrier(CommPtr c) { c->barrier(); }

// ------------------------------------------------------------------ D01
static void run_native(Rng& r, int64_t) {
  auto world = LIB->world();
  int n = world->size();
  auto c = gen_case(r, false);
  int k = n == 1 ? 1 : int(r.range(1, n));
  bool in = world->rank() < k;
  uint64_t seed2 = r.u64();
  bool ext = r.chance(0.8);
  int oldv = int(r.range(1, 9));
  bool comp = r.chance(0.6), do_old = r.chance(0.6);
  string path = scratch(ext ? "m.osh" : "m_dir");
  if (world->rank() == 0) rmtree(path);
  barrier(world);
  auto sub = k == n ? world : world->split(in ? 0 : 1, 0);
  Mesh m;
  Part a;
  string d;
  if (in) {
    m = make_mesh(c, sub);
    a = snap(m);
    Omega_h::binary::write(path, &m);
    auto a2 = snap(m);
    d = diff(a, a2);
    VP_CHECK(d.empty(), "write-changes-mesh", "writing changed the mesh: %s", d.c_str());
    // the bytes on disk, decoded independently
    Part f;
    d = decode(slurp(path + fmt("/%d.osh", sub->rank())), 9, f);
    VP_CHECK(d.empty(), "format", "file %s", d.c_str());
    if (d.empty()) { d = diff(a, f); VP_CHECK(d.empty(), "file-content", "file content: %s", d.c_str()); }
    if (sub->rank() == 0) VP_CHECK(atoi(slurp(path + "/nparts").c_str()) == k && atoi(slurp(path + "/version").c_str()) == 9, "index-files", "nparts or version file wrong");
    sample(describe(m, c));
    Hash h; for (auto q : a.down) h.add(q.data(), q.size() * 4); h.num(c.tags.size()); h.num(k);
    if (m.nelems()) nontrivial(h.get());
  }
  barrier(world);
  // same ranks
  if (in) {
    Mesh b(LIB);
    if (seed2 % 2) b = Omega_h::binary::read(path, sub, seed2 % 4 == 1);
    else Omega_h::binary::read(path, sub, &b);
    d = diff(a, snap(b));
    VP_CHECK(d.empty(), "roundtrip", "after reading back: %s", d.c_str());
    count("roundtrips");
    if (d.empty() && a.family == OMEGA_H_SIMPLEX && a.size > 1) check_world(dump_world(&b), "read mesh");
  }
  barrier(world);
  // older versions written independently
  if (do_old && in) {
    int v = oldv;
    if (a.family != OMEGA_H_SIMPLEX) v = std::max(v, 7);
    if (a.nghost != 0 || a.parting != OMEGA_H_ELEM_BASED) v = std::max(v, 3);
    string op = scratch("old.osh");
    if (sub->rank() == 0) { rmtree(op); mkdir(op.c_str(), 0777); spit(op + "/nparts", fmt("%d\n", k)); if (v >= 4) spit(op + "/version", fmt("%d\n", v)); }
    barrier(sub);
    Rng lr(seed2 + uint64_t(sub->rank()));
    spit(op + fmt(v >= 4 ? "/%d.osh" : "/%d", sub->rank()), encode(a, v, comp, lr));
    barrier(sub);
    Mesh b = Omega_h::binary::read(op, sub);
    Part want = a;
    limit(want, v);
    d = diff(want, snap(b));
    VP_CHECK(d.empty(), "old-version", "reading format version %d%s: %s", v, comp ? "" : " uncompressed", d.c_str());
    count(fmt("read_version_%d", v));
    barrier(sub);
    if (sub->rank() == 0) rmtree(op);
  }
  barrier(world);
  // on more ranks
  if (k < n) {
    Mesh b = Omega_h::binary::read(path, world);
    auto s = snap(b);
    VP_CHECK(s.parting == (in ? a.parting : s.parting) && b.comm()->size() == n, "more-ranks", "parting changed");
    auto w = dump_world(&b);
    int64_t before = ctx().nviol;
    check_world(w, "mesh read on more ranks");
    for (auto& p : w) for (int q = 0; q <= p.dim; ++q) if (p.parting != w[0].parting || p.nghost != w[0].nghost) { viol("more-ranks", fmt("ghost layers differ between ranks: %d and %d", p.nghost, w[0].nghost)); q = 9; }
    for (int q = k; q < n; ++q) VP_CHECK(w[size_t(q)].e[0].n == 0, "more-ranks", "a rank without a part got entities");
    std::map<string, vector<std::pair<int, int>>> sets = s.sets, want = c.cs;
    VP_CHECK(sets == want, "more-ranks", "classification sets differ on rank %d", world->rank());
    if (in && ctx().nviol == before) {
      s.size = a.size; s.hints = a.hints; s.axes = a.axes;
      if (k == 1) for (int q = 0; q < 4; ++q) { s.orank[q].clear(); s.oidx[q].clear(); }
      d = diff(a, s);
      VP_CHECK(d.empty(), "more-ranks", "reading %d parts on %d ranks: %s", k, n, d.c_str());
    }
    count("read_on_more_ranks");
  }
  barrier(world);
  if (world->rank() == 0) rmtree(path);
  barrier(world);
}

// ------------------------------------------------------------------ D02
// silences the library's failure reports
static bool rejects(std::function<void()> f, string* what = nullptr) {
  try { f(); } catch (std::exception const& e) { if (what) *what = e.what(); return true; }
  return false;
}
static void run_damage(Rng& r, int64_t) {
  auto self = LIB->world();
  auto c = gen_case(r, false);
  Mesh m = make_mesh(c, self);
  auto a = snap(m);
  string path = scratch("d.osh");
  rmtree(path);
  Omega_h::binary::write(path, &m);
  string part = path + "/0.osh", good = slurp(part), gv = slurp(path + "/version"), gn = slurp(path + "/nparts");
  sample(describe(m, c) + fmt(" file of %zu bytes", good.size()));
  nontrivial(hash_str(good));
  auto try_read = [&](char const* key, string const& what, bool may_equal = false) {
    Mesh b(LIB);
    bool rej = rejects([&] { Omega_h::binary::read(path, self, &b); });
    count("damaged_reads");
    if (rej) { count("rejected"); return; }
    if (may_equal && diff(a, snap(b)).empty()) { count("harmless"); return; }
    viol(key, what + " was accepted");
  };
  // truncation
  std::set<size_t> cuts;
  for (size_t i = 0; i < 40; ++i) cuts.insert(i);
  for (int i = 0; i < (ctx().thorough ? 400 : 60); ++i) cuts.insert(size_t(r.below(int64_t(good.size()))));
  for (int i = 1; i < 20; ++i) if (good.size() > size_t(i)) cuts.insert(good.size() - size_t(i));
  for (size_t n : cuts) if (n < good.size()) { spit(part, good.substr(0, n)); try_read("truncated", fmt("a part truncated to %zu of %zu bytes", n, good.size())); }
  // the same for an uncompressed file
  {
    Rng lr(r.u64());
    int v = r.chance(0.5) ? 9 : 8;
    string u = encode(a, v, false, lr);
    spit(path + "/version", fmt("%d\n", v));
    for (int i = 0; i < 40; ++i) { size_t n = i < 8 ? u.size() - 1 - size_t(i) : size_t(r.below(int64_t(u.size()))); if (n < u.size()) { spit(part, u.substr(0, n)); try_read("truncated", fmt("an uncompressed part truncated to %zu of %zu bytes", n, u.size())); } }
    spit(path + "/version", gv);
  }
  // headers
  auto patch = [&](size_t at, string const& b) { string s = good; for (size_t i = 0; i < b.size(); ++i) s[at + i] = b[i]; return s; };
  auto le = [&](I32 x) { return string(reinterpret_cast<char*>(&x), 4); };
  for (size_t i = 0; i < 2; ++i) { char q = char(good[i] ^ char(r.range(1, 255))); spit(part, patch(i, string(1, q))); try_read("magic", "a wrong magic number"); }
  spit(part, patch(5, le(I32(r.range(2, 100))))); try_read("comm-size", "a part of a mesh with another number of parts");
  spit(part, patch(5, le(0))); try_read("comm-size", "a part of a mesh with zero parts");
  spit(part, patch(9, le(I32(r.range(1, 100))))); try_read("comm-rank", "the part of another rank");
  spit(part, patch(9, le(-1))); try_read("comm-rank", "the part of rank -1");
  spit(part, patch(13, string(1, char(r.range(3, 127))))); try_read("parting", "an unknown partitioning mode");
  spit(part, patch(4, string(1, char(r.chance(0.5) ? 0 : r.range(4, 127))))); try_read("dimension", "an impossible dimension");
  // compressed blocks: flip bits past the header; the checksum must notice
  {
    // locate the blocks with the independent reader: first array starts after nverts
    size_t at = 18 + 1 + (a.hints ? 4 + 24 * a.axes.size() : 0) + 4;  // after nverts
    vector<std::pair<size_t, size_t>> blocks;
    std::function<void(size_t, int)> walk = [&](size_t p, int left) {
      if (left == 0 || p + 12 > good.size()) return;
      I64 nb; memcpy(&nb, &good[p + 4], 8);
      if (nb < 0 || p + 12 + size_t(nb) > good.size()) return;
      blocks.push_back({p + 12, size_t(nb)});
      walk(p + 12 + size_t(nb), left - 1);
    };
    walk(at, 2 * a.dim - 1);
    for (auto& b : blocks)
      for (int i = 0; i < 12; ++i) {
        if (!b.second) continue;
        size_t q = b.first + size_t(r.below(int64_t(b.second)));
        auto bad = patch(q, string(1, char(good[q] ^ char(1 << r.below(8)))));
        spit(part, bad);
        // a change that the checksum of the block cannot tell is beyond the format
        Part dec;
        if (decode(bad, 9, dec).empty()) { count("undetectable_changes"); continue; }
        try_read("block", fmt("a corrupted compressed block (byte %zu)", q));
        count("corrupt_blocks");
      }
  }
  spit(part, good);
  for (string const& s : {string("0\n"), string("-3\n"), string(""), string("abc\n")}) { spit(path + "/nparts", s); try_read("nparts", "an nparts file saying '" + s + "'"); }
  spit(path + "/nparts", "2\n"); try_read("nparts", "a mesh of two parts on one rank");
  spit(path + "/nparts", gn);
  for (string const& s : {string("0\n"), string("10\n"), string("-2\n"), string(""), string("x\n")}) { spit(path + "/version", s); try_read("version", "a version file saying '" + s + "'"); }
  spit(path + "/version", gv);
  unlink(part.c_str()); try_read("missing", "a mesh with a missing part"); spit(part, good);
  unlink((path + "/nparts").c_str()); try_read("missing", "a mesh without its nparts file"); spit(path + "/nparts", gn);
  { Mesh b(LIB); VP_CHECK(!rejects([&] { Omega_h::binary::read(path, self, &b); }), "good-rejected", "the undamaged mesh was rejected"); auto d = diff(a, snap(b)); VP_CHECK(d.empty(), "good-rejected", "the undamaged mesh reads differently: %s", d.c_str()); }
  // writes that fail
  auto must_fail = [&](char const* key, string const& what, std::function<void()> f) {
    count("failing_writes");
    VP_CHECK(rejects(f), key, "%s was not reported", what.c_str());
  };
  for (string const& n : {string("0.osh"), string("nparts"), string("version")}) {
    rmtree(path); mkdir(path.c_str(), 0777);
    VP_CHECK(symlink("/dev/full", (path + "/" + n).c_str()) == 0, "scratch", "cannot make a symlink");
    must_fail("no-space", "running out of space writing " + n, [&] { Omega_h::binary::write(path, &m); });
  }
  rmtree(path); mkdir(path.c_str(), 0777); mkdir((path + "/0.osh").c_str(), 0777);
  must_fail("unwritable", "an unwritable part", [&] { Omega_h::binary::write(path, &m); });
  rmtree(path); spit(path, "file");
  must_fail("unwritable", "a path that is a file", [&] { Omega_h::binary::write(path, &m); });
  rmtree(path);
  must_fail("unwritable", "a path in a missing directory", [&] { Omega_h::binary::write(scratch("nowhere/d.osh"), &m); });
  // storage that stops accepting data at some byte
  signal(SIGXFSZ, SIG_IGN);
  for (int i = 0; i < 4; ++i) {
    struct rlimit old, lim;
    getrlimit(RLIMIT_FSIZE, &old);
    lim = old;
    lim.rlim_cur = rlim_t(i == 0 ? good.size() - 1 : i == 1 ? 0 : r.below(int64_t(good.size())));
    rmtree(path);
    setrlimit(RLIMIT_FSIZE, &lim);
    bool rej = rejects([&] { Omega_h::binary::write(path, &m); });
    setrlimit(RLIMIT_FSIZE, &old);
    count("failing_writes");
    VP_CHECK(rej, "no-space", "storage full after %lld of %zu bytes was not reported", (long long)lim.rlim_cur, good.size());
  }
  rmtree(path);
  // other formats
  string vt = scratch("d.vtu"), vp = scratch("d_vtk"), gm = scratch("d.msh"), tx = scratch("d.txt");
  for (auto& q : {vt, vp, gm, tx}) rmtree(q);
  symlink("/dev/full", vt.c_str()); symlink("/dev/full", gm.c_str()); symlink("/dev/full", tx.c_str());
  bool xml = true;
  (void)xml;
  must_fail("no-space", "running out of space writing VTU", [&] { Omega_h::vtk::write_vtu(vt, &m); });
  if (m.has_tag(0, "class_id")) must_fail("no-space", "running out of space writing Gmsh", [&] { Omega_h::gmsh::write(gm, &m); });
  must_fail("no-space", "running out of space writing text", [&] { Omega_h::write_reals_txt(tx, m.coords(), m.dim()); });
  for (char const* f : {"pieces.pvtu", "pieces/piece_0.vtu"}) {
    rmtree(vp); mkdir(vp.c_str(), 0777); mkdir((vp + "/pieces").c_str(), 0777);
    symlink("/dev/full", (vp + "/" + f).c_str());
    must_fail("no-space", string("running out of space writing ") + f, [&] { Omega_h::vtk::write_parallel(vp, &m); });
  }
  rmtree(vp);
  must_fail("no-space", "running out of space writing steps.pvd", [&] {
    Omega_h::vtk::Writer w(vp, &m);
    unlink((vp + "/steps.pvd").c_str());
    symlink("/dev/full", (vp + "/steps.pvd").c_str());
    w.write();
  });
  rmtree(vp); spit(vp, "x");
  must_fail("unwritable", "a VTK directory that is a file", [&] { Omega_h::vtk::write_parallel(vp, &m); });
  for (auto& q : {vt, vp, gm, tx}) rmtree(q);
  // truncated text and VTU input
  {
    string s = fmt("%.17g ", 1.5) + fmt("%.17g", 2.5);
    std::stringstream st(s);
    VP_CHECK(rejects([&] { Omega_h::read_reals_txt(st, 3, 1); }), "text", "a text file with too few values was accepted");
  }
}

// ------------------------------------------------------------------ D03: independent XML/VTK reader
struct XTag { string name; std::map<string, string> at; bool end = false, self = false; };
struct Xml {
  string const& s; size_t p = 0;
  explicit Xml(string const& q) : s(q) {}
  // next tag; text before it is returned in `text`
  bool next(XTag& t, string* text = nullptr) {
    t = XTag();
    size_t q = s.find('<', p);
    if (q == string::npos) { if (text) *text = s.substr(p); return false; }
    if (text) *text = s.substr(p, q - p);
    ++q;
    auto ws = [&] { while (q < s.size() && isspace(static_cast<unsigned char>(s[q]))) ++q; };
    if (q < s.size() && s[q] == '/') { t.end = true; ++q; }
    while (q < s.size() && !isspace(static_cast<unsigned char>(s[q])) && s[q] != '>' && s[q] != '/') t.name += s[q++];
    for (;;) {
      ws();
      if (q >= s.size()) return false;
      if (s[q] == '>') { p = q + 1; return true; }
      if (s[q] == '/') { t.self = true; ++q; continue; }
      string k, v;
      while (q < s.size() && s[q] != '=' && !isspace(static_cast<unsigned char>(s[q]))) k += s[q++];
      ws();
      if (q >= s.size() || s[q] != '=') return false;
      ++q; ws();
      char quote = s[q++];
      while (q < s.size() && s[q] != quote) v += s[q++];
      ++q;
      t.at[k] = v;
    }
  }
};
static int b64val(char c) { return c >= 'A' && c <= 'Z' ? c - 'A' : c >= 'a' && c <= 'z' ? c - 'a' + 26 : c >= '0' && c <= '9' ? c - '0' + 52 : c == '+' ? 62 : c == '/' ? 63 : -1; }
static string b64dec(string const& t, bool& ok) {
  string o;
  ok = ok && t.size() % 4 == 0;
  for (size_t i = 0; i + 3 < t.size(); i += 4) {
    int v[4], pad = 0;
    for (int k = 0; k < 4; ++k) { char ch = t[i + size_t(k)]; if (ch == '=') { v[k] = 0; ++pad; if (i + 4 != t.size() || k < 2) ok = false; } else { v[k] = b64val(ch); if (v[k] < 0 || pad) ok = false; } }
    unsigned n = unsigned(v[0]) << 18 | unsigned(v[1]) << 12 | unsigned(v[2]) << 6 | unsigned(v[3]);
    o += char(n >> 16); if (pad < 2) o += char(n >> 8); if (pad < 1) o += char(n);
  }
  return o;
}
static string b64enc(string const& s) {
  static char const* A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  string o;
  for (size_t i = 0; i < s.size(); i += 3) {
    size_t n = std::min<size_t>(3, s.size() - i);
    unsigned v = 0;
    for (size_t k = 0; k < 3; ++k) v = v << 8 | (k < n ? static_cast<unsigned char>(s[i + k]) : 0u);
    for (size_t k = 0; k < 4; ++k) o += k <= n ? A[v >> (18 - 6 * k) & 63] : '=';
  }
  return o;
}
struct VArr { string type; int nc = 1; string bytes; };
struct Vtu { int np = -1, nc = -1; bool comp = false; std::map<string, VArr> cells, points, pdata, cdata; string err; };
static size_t vtk_width(string const& t) { return t == "Int8" || t == "UInt8" ? 1 : t == "Int32" ? 4 : t == "Int64" || t == "UInt64" || t == "Float64" ? 8 : 0; }
static Vtu parse_vtu(string const& s) {
  Vtu v;
  Xml x(s);
  XTag t;
  vector<string> stack;
  while (x.next(t)) {
    if (t.end) { if (stack.empty() || stack.back() != t.name) { v.err = "tags not nested"; return v; } stack.pop_back(); continue; }
    if (t.name == "VTKFile") {
      v.comp = t.at.count("compressor");
      if (t.at["type"] != "UnstructuredGrid" || t.at["byte_order"] != "LittleEndian" || t.at["header_type"] != "UInt64") { v.err = "bad VTKFile header"; return v; }
    }
    if (t.name == "Piece") { v.np = atoi(t.at["NumberOfPoints"].c_str()); v.nc = atoi(t.at["NumberOfCells"].c_str()); }
    if (t.name == "DataArray") {
      if (stack.empty()) { v.err = "array outside"; return v; }
      VArr a;
      a.type = t.at["type"]; a.nc = t.at.count("NumberOfComponents") ? atoi(t.at["NumberOfComponents"].c_str()) : 1;
      string body;
      XTag e;
      if (!x.next(e, &body) || !e.end || e.name != "DataArray") { v.err = "array not closed"; return v; }
      string txt;
      for (char c : body) if (!isspace(static_cast<unsigned char>(c))) txt += c;
      bool ok = t.at["format"] == "binary";
      if (v.comp) {
        if (txt.size() < 44) { v.err = "short array"; return v; }
        string h = b64dec(txt.substr(0, 44), ok);
        uint64_t q[4] = {};
        memcpy(q, h.data(), std::min<size_t>(32, h.size()));
        string z = b64dec(txt.substr(44), ok);
        // one block: its uncompressed size, the size of a partial last block, its compressed size
        if (q[0] != 1 || z.size() != q[3]) ok = false;
        uint64_t want = q[2] ? q[2] : q[1];
        if (ok && want < (1u << 28)) {
          a.bytes.assign(want + 1, '\0');
          uLongf n = want + 1;
          if (uncompress(reinterpret_cast<Bytef*>(&a.bytes[0]), &n, reinterpret_cast<Bytef const*>(z.data()), z.size()) != Z_OK || n != want) ok = false;
          a.bytes.resize(want);
        }
      } else {
        string h = b64dec(txt.substr(0, 12), ok);
        uint64_t n = 0;
        memcpy(&n, h.data(), std::min<size_t>(8, h.size()));
        a.bytes = txt.size() > 12 ? b64dec(txt.substr(12), ok) : "";
        if (a.bytes.size() != n) ok = false;
      }
      if (!ok || !vtk_width(a.type)) { v.err = "array " + t.at["Name"] + " does not decode"; return v; }
      auto& grp = stack.back() == "Cells" ? v.cells : stack.back() == "Points" ? v.points : stack.back() == "PointData" ? v.pdata : v.cdata;
      if (!grp.insert({t.at["Name"], a}).second) { v.err = "array " + t.at["Name"] + " twice"; return v; }
      continue;
    }
    if (!t.self) stack.push_back(t.name);
  }
  if (!stack.empty()) v.err = "unclosed tags";
  if (v.np < 0 || v.nc < 0) v.err = "no piece";
  return v;
}
template <class T> static string raw(vector<T> const& v) { return string(reinterpret_cast<char const*>(v.data()), v.size() * sizeof(T)); }
static string vtk_name(int t) { return t == OMEGA_H_I8 ? "Int8" : t == OMEGA_H_I32 ? "Int32" : t == OMEGA_H_I64 ? "Int64" : "Float64"; }
static VArr expected(TagDump const& t, int dim, int n) {
  VArr a;
  a.type = vtk_name(t.type); a.nc = t.ncomps; a.bytes = t.bytes;
  if (t.type != OMEGA_H_F64 || dim != 2) return a;
  vector<double> v(t.bytes.size() / 8), o;
  if (!v.empty()) memcpy(v.data(), t.bytes.data(), t.bytes.size());
  if (t.ncomps == 2) { for (int i = 0; i < n; ++i) { o.push_back(v[size_t(2 * i)]); o.push_back(v[size_t(2 * i + 1)]); o.push_back(0); } a.nc = 3; a.bytes = raw(o); }
  // symmetric tensors xx yy xy -> xx yy zz xy yz xz
  if (t.ncomps == 3) { for (int i = 0; i < n; ++i) { auto q = &v[size_t(3 * i)]; for (double y : {q[0], q[1], 0.0, q[2], 0.0, 0.0}) o.push_back(y); } a.nc = 6; a.bytes = raw(o); }
  return a;
}
static string arr_diff(VArr const& w, VArr const& g) {
  if (w.type != g.type) return "type " + g.type + " instead of " + w.type;
  if (w.nc != g.nc) return fmt("%d components instead of %d", g.nc, w.nc);
  if (w.bytes.size() != g.bytes.size()) return "wrong size";
  if (w.bytes != g.bytes) return "wrong values";
  return "";
}
static void check_vtu(string const& file, Mesh& m, int cd, Omega_h::TagSet const& ts, bool comp) {
  auto v = parse_vtu(slurp(file));
  count("vtu_files_decoded");
  VP_CHECK(v.err.empty(), "vtu", "VTU file: %s", v.err.c_str());
  if (!v.err.empty()) return;
  int dim = m.dim(), n = m.nents(cd), nv = m.nverts();
  bool hyper = m.family() == OMEGA_H_HYPERCUBE;
  VP_CHECK(v.np == nv && v.nc == n && v.comp == comp, "vtu", "piece says %d points %d cells compressed=%d", v.np, v.nc, int(v.comp));
  static int const st[4] = {1, 3, 5, 10}, ht[4] = {1, 3, 9, 12};
  vector<I8> types(size_t(n), I8(hyper ? ht[cd] : st[cd]));
  vector<int> conn, offs;
  int k = nverts_of(m.family(), cd);
  if (cd) conn = host(m.ask_verts_of(cd)); else for (int i = 0; i < n; ++i) conn.push_back(i);
  for (int i = 0; i < n; ++i) offs.push_back((i + 1) * k);
  auto need = [&](std::map<string, VArr>& grp, string const& name, VArr const& want) {
    auto it = grp.find(name);
    count("arrays_checked");
    if (it == grp.end()) { viol("vtu-array", "array " + name + " is missing"); return; }
    auto d = arr_diff(want, it->second);
    if (!d.empty()) viol("vtu-array", "array " + name + ": " + d);
    grp.erase(it);
  };
  auto tv = v.cells.count("types") ? v.cells["types"] : VArr();
  need(v.cells, "types", VArr{tv.type == "UInt8" ? "UInt8" : "Int8", 1, raw(types)});
  need(v.cells, "connectivity", VArr{"Int32", 1, raw(conn)});
  need(v.cells, "offsets", VArr{"Int32", 1, raw(offs)});
  vector<double> x = host(m.coords()), x3;
  for (int i = 0; i < nv; ++i) for (int j = 0; j < 3; ++j) x3.push_back(j < dim ? x[size_t(i * dim + j)] : 0);
  if (!v.points.empty()) need(v.points, v.points.begin()->first, VArr{"Float64", 3, raw(x3)});
  else viol("vtu-array", "no points");
  bool par = m.comm()->size() > 1;
  for (int d : {0, cd}) {
    auto& grp = d == 0 && !(cd == 0 && &v.pdata == nullptr) ? v.pdata : v.cdata;
    if (d == cd && cd == 0) continue;
    int nd = m.nents(d);
    for (auto& name : ts[size_t(d)]) {
      if (name == "coordinates" && d == 0) continue;
      if (name == "local" && !m.has_tag(d, name)) { vector<int> l; for (int i = 0; i < nd; ++i) l.push_back(i); need(grp, name, VArr{"Int32", 1, raw(l)}); continue; }
      if (name == "owner" && !m.has_tag(d, name)) { if (par) need(grp, name, VArr{"Int32", 1, raw(host(m.ask_owners(d).ranks))}); continue; }
      if (name == "vtkGhostType") {
        if (!par || d != cd) continue;
        vector<I8> g;
        auto o = m.ask_owners(d);
        auto rk = host(o.ranks); auto ix = host(o.idxs);
        for (int i = 0; i < nd; ++i) g.push_back(!(rk[size_t(i)] == m.comm()->rank() && ix[size_t(i)] == i));
        need(grp, name, VArr{"UInt8", 1, raw(g)});
        continue;
      }
      need(grp, name, expected(dump_tag(m.get_tagbase(d, name)), dim, nd));
    }
  }
  for (auto& g : v.pdata) viol("vtu-array", "unexpected point array " + g.first);
  for (auto& g : v.cdata) viol("vtu-array", "unexpected cell array " + g.first);
}
static void check_pvtu(string const& dir, Mesh& m, int cd, Omega_h::TagSet const& ts) {
  string txt = slurp(dir + "/pieces.pvtu");
  Xml x(txt);
  XTag t;
  vector<string> pieces, stack;
  std::map<string, std::pair<string, int>> arr[3];
  int ghost = -1;
  while (x.next(t)) {
    if (t.end) { if (!stack.empty()) stack.pop_back(); continue; }
    if (t.name == "PUnstructuredGrid") ghost = t.at.count("GhostLevel") ? atoi(t.at["GhostLevel"].c_str()) : 0;
    if (t.name == "Piece") pieces.push_back(t.at["Source"]);
    if (t.name == "PDataArray" && !stack.empty()) arr[stack.back() == "PPointData" ? 0 : stack.back() == "PCellData" ? 1 : 2][t.at["Name"]] = {t.at["type"], atoi(t.at["NumberOfComponents"].c_str())};
    if (!t.self) stack.push_back(t.name);
  }
  VP_CHECK(int(pieces.size()) == m.comm()->size(), "pvtu", "%zu pieces listed for %d ranks", pieces.size(), m.comm()->size());
  VP_CHECK(ghost == (m.parting() == OMEGA_H_GHOSTED ? m.nghost_layers() : 0), "pvtu", "GhostLevel %d", ghost);
  std::set<string> uniq(pieces.begin(), pieces.end());
  VP_CHECK(uniq.size() == pieces.size(), "pvtu", "a piece is listed twice");
  for (size_t i = 0; i < pieces.size(); ++i) {
    if (!exists(dir + "/" + pieces[i])) { viol("pvtu", "listed piece " + pieces[i] + " does not exist"); continue; }
    if (int(i) != m.comm()->rank()) continue;
    auto v = parse_vtu(slurp(dir + "/" + pieces[i]));
    VP_CHECK(v.np == m.nverts() && v.nc == m.nents(cd), "pvtu", "piece %zu is not that of rank %zu", i, i);
    std::map<string, VArr>* g[3] = {&v.pdata, &v.cdata, &v.points};
    for (int k = 0; k < 3; ++k) {
      if (cd == 0 && k == 1) continue;
      std::map<string, std::pair<string, int>> have;
      for (auto& q : *g[k]) have[q.first] = {q.second.type, q.second.nc};
      if (have != arr[k]) viol("pvtu", fmt("the arrays declared for group %d are not those of the pieces", k));
    }
  }
  (void)ts;
  count("pvtu_files_checked");
}
// compares meshes by vertices and elements only: coordinates, connectivity, tags
static string by_global(Mesh& a, Mesh& b, std::set<string> const& skip) {
  auto ga = assemble(dump_world(&a)), gb = assemble(dump_world(&b));
  if (ga.dim != gb.dim || (ga.dim > 1 && ga.family != gb.family)) return "dimension or family";
  for (int d : {0, ga.dim}) {
    if (ga.e[d].size() != gb.e[d].size()) return fmt("number of dim %d entities", d);
    for (auto& kv : ga.e[d]) {
      auto it = gb.e[d].find(kv.first);
      if (it == gb.e[d].end()) return fmt("dim %d global %lld is missing", d, (long long)kv.first);
      if (kv.second.v != it->second.v) return fmt("vertices of element %lld", (long long)kv.first);
      for (auto& t : kv.second.tags) if (!skip.count(t.first)) { if (!it->second.tags.count(t.first)) return "tag " + t.first + " is missing"; if (it->second.tags.at(t.first) != t.second) return fmt("tag %s of dim %d global %lld", t.first.c_str(), d, (long long)kv.first); }
      for (auto& t : it->second.tags) if (!skip.count(t.first) && !kv.second.tags.count(t.first)) return "tag " + t.first + " appeared";
      if (d == 0) for (int k = 0; k < 3; ++k) if (!biteq(ga.x[kv.first][size_t(k)], gb.x[kv.first][size_t(k)])) return "coordinates";
    }
    for (auto& t : ga.tagmeta[d]) if (!skip.count(t.first) && gb.tagmeta[d].count(t.first) && gb.tagmeta[d].at(t.first) != t.second) return "type of tag " + t.first;
  }
  return "";
}
static void check_base64(Rng& r) {
  for (int i = 0; i < 30; ++i) {
    string s(size_t(r.below(r.chance(0.2) ? 400 : 12)), '\0');
    for (auto& c : s) c = char(r.u64());
    string want = b64enc(s), got = Omega_h::base64::encode(s.data(), s.size());
    VP_CHECK(want == got && Omega_h::base64::encoded_size(s.size()) == want.size(), "base64", "encoding of %zu bytes", s.size());
    string back(s.size() + 8, 'Z');
    Omega_h::base64::decode(want, &back[0], s.size());
    VP_CHECK(back.compare(0, s.size(), s) == 0 && back.compare(s.size(), 8, "ZZZZZZZZ") == 0, "base64", "decoding of %zu bytes", s.size());
    count("base64_checked");
    if (s.size() > 2 && r.chance(0.3)) {
      string bad = want;
      size_t at = size_t(r.below(int64_t(s.size() / 3 * 4)));
      bad[at] = "*\x80\xff\n-_ "[r.below(7)];
      VP_CHECK(rejects([&] { Omega_h::base64::decode(bad, &back[0], s.size()); }), "base64", "text with an illegal character was decoded");
      string sh = want.substr(0, want.size() - 1 - size_t(r.below(3)));
      VP_CHECK(rejects([&] { Omega_h::base64::decode(sh, &back[0], s.size()); }), "base64", "text of the wrong length was decoded");
    }
  }
}
// ------------------------------------------------------------------ Gmsh
struct GEl { int dim, id; vector<int> v; };
static vector<GEl> equal_order(Case const& c) {
  vector<GEl> out;
  if (c.hyper) { for (int e = 0; e < c.s.ne(); ++e) out.push_back({c.s.dim, 1, vector<int>(c.s.ev.begin() + e * c.s.nvpe, c.s.ev.begin() + (e + 1) * c.s.nvpe)}); return out; }
  for (int d = 0; d < c.s.dim; ++d) for (auto& kv : c.m.cls[d]) if (kv.second.first == d) out.push_back({d, kv.second.second, kv.first});
  for (int e = 0; e < c.s.ne(); ++e) out.push_back({c.s.dim, c.s.region[size_t(e)], vector<int>(c.s.ev.begin() + e * (c.s.dim + 1), c.s.ev.begin() + (e + 1) * (c.s.dim + 1))});
  return out;
}
static string gmsh_file(Case const& c, int ver, Rng& r, std::map<string, std::set<std::pair<int, int>>>& sets) {
  // ver: 0 = 2.2 ascii, 1 = 2.2 binary, 2 = 4.0 ascii, 3 = 4.1 ascii
  auto el = equal_order(c);
  std::map<std::pair<int, int>, int> phys;
  vector<string> names;
  int np = int(r.below(3));
  std::set<int> dims;
  for (auto& e : el) dims.insert(e.dim);
  for (int i = 0; i < np; ++i) names.push_back(fmt(i == 1 ? "part number %d" : "part%d", i + 1));
  vector<int> ndim;
  for (int i = 0; i < np; ++i) { vector<int> d(dims.begin(), dims.end()); ndim.push_back(r.pick(d)); }
  for (auto& e : el) if (np) for (int i = 0; i < np; ++i) if (ndim[size_t(i)] == e.dim && mix64(uint64_t(e.id * 8 + e.dim) ^ c.seed) % 2) phys[{e.dim, e.id}] = i + 1;
  bool named = ver != 1 && r.chance(0.8);
  for (auto& kv : phys) sets[names[size_t(kv.second - 1)]].insert(kv.first);
  if (!named) {  // without names, sets are called by their number
    sets.clear();
    for (auto& kv : phys) sets[std::to_string(kv.second)].insert(kv.first);
  }
  static int const sg[4] = {15, 1, 2, 4}, hg[4] = {15, 1, 3, 5};
  std::ostringstream o;
  auto b32 = [&](int x) { o.write(reinterpret_cast<char*>(&x), 4); };
  o << "$MeshFormat\n" << (ver < 2 ? "2.2" : ver == 2 ? "4" : "4.1") << ' ' << (ver == 1 ? 1 : 0) << " 8\n";
  if (ver == 1) { b32(1); o << '\n'; }
  o << "$EndMeshFormat\n";
  if (r.chance(0.3)) o << "$Comments\nanything at all\n$EndComments\n";
  if (np && named) {
    o << "$PhysicalNames\n" << np << '\n';
    for (int i = 0; i < np; ++i) o << ndim[size_t(i)] << ' ' << i + 1 << " \"" << names[size_t(i)] << "\"\n";
    o << "$EndPhysicalNames\n";
  }
  int nv = c.s.nv(), dim = c.s.dim;
  auto xyz = [&](int v, bool bin) {
    for (int j = 0; j < 3; ++j) { double x = j < dim ? c.s.x[size_t(v * dim + j)] : 0; if (bin) o.write(reinterpret_cast<char*>(&x), 8); else o << fmt(" %.17g", x); }
  };
  if (ver < 2) {
    o << "$Nodes\n" << nv << '\n';
    for (int v = 0; v < nv; ++v) { if (ver == 1) { b32(v + 1); xyz(v, true); } else { o << v + 1; xyz(v, false); o << '\n'; } }
    if (ver == 1) o << '\n';
    o << "$EndNodes\n$Elements\n" << el.size() << '\n';
    int n = 0;
    for (auto& e : el) {
      int ty = c.hyper ? hg[e.dim] : sg[e.dim], p = phys.count({e.dim, e.id}) ? phys[{e.dim, e.id}] : 0, nt = int(r.range(2, 4));
      if (ver == 1) { b32(ty); b32(1); b32(nt); b32(++n); b32(p); b32(e.id); for (int i = 2; i < nt; ++i) b32(7); for (int v : e.v) b32(v + 1); }
      else { o << ++n << ' ' << ty << ' ' << nt << ' ' << p << ' ' << e.id; for (int i = 2; i < nt; ++i) o << " 7"; for (int v : e.v) o << ' ' << v + 1; o << '\n'; }
    }
    if (ver == 1) o << '\n';
    o << "$EndElements\n";
    return o.str();
  }
  std::map<std::pair<int, int>, vector<GEl const*>> blocks;
  for (auto& e : el) blocks[{e.dim, e.id}].push_back(&e);
  if (np) {
    int n[4] = {};
    for (auto& b : blocks) n[b.first.first]++;
    o << "$Entities\n" << n[0] << ' ' << n[1] << ' ' << n[2] << ' ' << n[3] << '\n';
    for (auto& b : blocks) {
      o << b.first.second << " 0 0 0";
      if (b.first.first > 0 || ver == 2) o << " 1 1 1";
      if (phys.count(b.first)) o << " 1 " << phys[b.first]; else o << " 0";
      if (b.first.first > 0) o << (r.chance(0.5) ? " 2 1 -2" : " 0");
      o << (r.chance(0.5) ? " \n" : "\n");
    }
    o << "$EndEntities\n";
  }
  // node numbers need not be contiguous in version 4
  int stride = int(r.range(1, 3)), first = int(r.range(1, 5));
  auto num = [&](int v) { return first + v * stride; };
  int half = int(r.range(0, nv));
  o << "$Nodes\n2 " << nv;
  if (ver == 3) o << ' ' << num(0) << ' ' << num(nv - 1);
  o << '\n';
  for (int blk = 0; blk < 2; ++blk) {
    int b = blk ? half : 0, e = blk ? nv : half;
    o << (ver == 3 ? fmt("%d 1", dim) : fmt("1 %d", dim)) << " 0 " << e - b << '\n';
    if (ver == 3) for (int v = b; v < e; ++v) o << num(v) << '\n';
    for (int v = b; v < e; ++v) { if (ver == 2) o << num(v); xyz(v, false); o << '\n'; }
  }
  o << "$EndNodes\n$Elements\n" << blocks.size() << ' ' << el.size();
  if (ver == 3) o << " 1 " << el.size();
  o << '\n';
  int n = 0;
  for (auto& b : blocks) {
    if (ver == 3) o << b.first.first << ' ' << b.first.second; else o << b.first.second << ' ' << b.first.first;
    o << ' ' << (c.hyper ? hg[b.first.first] : sg[b.first.first]) << ' ' << b.second.size() << '\n';
    for (auto e : b.second) { o << ++n; for (int v : e->v) o << ' ' << num(v); o << (r.chance(0.5) ? " \n" : "\n"); }
  }
  o << "$EndElements\n";
  return o.str();
}
static string gmsh_same(Global const& g, Case const& c) {
  // vertices are matched by coordinates
  int dim = c.s.dim;
  if (g.dim != dim) return "dimension";
  if (dim > 1 && g.family != (c.hyper ? OMEGA_H_HYPERCUBE : OMEGA_H_SIMPLEX)) return "family";
  std::map<std::array<double, 3>, int> at;
  for (int v = 0; v < c.s.nv(); ++v) { std::array<double, 3> p{{0, 0, 0}}; for (int j = 0; j < dim; ++j) p[size_t(j)] = c.s.x[size_t(v * dim + j)]; at[p] = v; }
  std::map<GO, int> id;
  if (g.x.size() != size_t(c.s.nv())) return "number of vertices";
  for (auto& kv : g.x) { auto it = at.find(kv.second); if (it == at.end()) return "coordinates"; id[kv.first] = it->second; }
  std::multiset<vector<int>> a, b;
  int k = c.hyper ? c.s.nvpe : dim + 1;
  for (int e = 0; e < c.s.ne(); ++e) a.insert(vector<int>(c.s.ev.begin() + e * k, c.s.ev.begin() + (e + 1) * k));
  for (auto& kv : g.e[dim]) { vector<int> v; for (GO q : kv.second.v) v.push_back(id[q]); b.insert(v); }
  if (a != b) return "elements";
  if (c.hyper) return "";
  for (int d = 0; d <= dim; ++d)
    for (auto& kv : g.e[d]) {
      VKey key;
      if (d) for (GO q : kv.second.v) key.push_back(id[q]); else key.push_back(id[kv.first]);
      std::sort(key.begin(), key.end());
      auto it = c.m.cls[d].find(key);
      if (it == c.m.cls[d].end()) return "unknown entity";
      if (tagval<I8>(kv.second, "class_dim") != it->second.first || tagval<LO>(kv.second, "class_id") != it->second.second) return fmt("classification of a dim %d entity: (%d,%d) instead of (%d,%d)", d, int(tagval<I8>(kv.second, "class_dim")), int(tagval<LO>(kv.second, "class_id")), it->second.first, it->second.second);
    }
  return "";
}
static void run_gmsh(Rng& r, Case& c) {
  auto world = LIB->world();
  int ver = int(r.below(5));
  uint64_t s2 = r.u64();
  bool pow2 = (world->size() & (world->size() - 1)) == 0;
  if (!pow2) return;  // reading balances the mesh
  if (c.amr) c.amr = false;
  string path = scratch("g.msh");
  std::map<string, std::set<std::pair<int, int>>> sets;
  bool check_sets = true;
  if (world->rank() == 0) {
    Rng lr(s2);
    rmtree(path);
    if (ver < 4) spit(path, gmsh_file(c, ver, lr, sets));
    else {
      Mesh m(LIB);
      if (c.hyper) {
        Omega_h::build_from_elems_and_coords(&m, OMEGA_H_HYPERCUBE, c.s.dim, dev(conv<LO>(c.s.ev)), dev(c.s.x));
        for (int d = 0; d <= c.s.dim; ++d) { m.add_tag<I8>(d, "class_dim", 1, Bytes(m.nents(d), I8(c.s.dim))); m.add_tag<LO>(d, "class_id", 1, LOs(m.nents(d), 1)); }
      } else m = build_serial(LIB->self(), c.s, &c.m);
      Omega_h::gmsh::write(path, &m);
      check_sets = false;
    }
  }
  barrier(world);
  auto m = Omega_h::gmsh::read(path, world);
  auto g = assemble(dump_world(&m));
  auto d = gmsh_same(g, c);
  VP_CHECK(d.empty(), "gmsh", "Gmsh %s: %s (%s)", ver == 0 ? "2.2 text" : ver == 1 ? "2.2 binary" : ver == 2 ? "4.0 text" : ver == 3 ? "4.1 text" : "written by the library", d.c_str(), c.s.desc.c_str());
  if (world->rank() == 0 && check_sets) {
    std::map<string, std::set<std::pair<int, int>>> got;
    for (auto& s : m.class_sets) for (auto& q : s.second) got[s.first].insert({q.dim, q.id});
    VP_CHECK(got == sets, "gmsh-sets", "Gmsh format %d: physical groups differ: %zu read, %zu written (%s)", ver, got.size(), sets.size(), got.empty() ? "" : got.begin()->first.c_str());
  }
  count("gmsh_files_read");
  barrier(world);
  if (world->rank() == 0) rmtree(path);
}
static void run_vtk(Rng& r, int64_t) {
  auto world = LIB->world();
  bool par = world->size() > 1;
  auto c = gen_case(r, true);
  for (auto& t : c.tags) if (t.name == "size field" || t.nc > 20) t.nc = int(1 + t.salt % 9);
  if (r.chance(0.3)) { run_gmsh(r, c); return; }
  if (!par) check_base64(r);
  if (c.amr) c.amr = false;
  Mesh m = make_mesh(c, world);
  int dim = c.s.dim;
  bool comp = r.chance(0.5);
  int cd = r.chance(0.7) ? dim : int(r.range(1, dim));
  auto ts = Omega_h::vtk::get_all_vtk_tags(&m, cd);
  bool all = r.chance(0.6);
  if (!all) {  // a random subset
    for (int d : {0, cd}) { std::set<string> keep; vector<string> names(ts[size_t(d)].begin(), ts[size_t(d)].end()); for (auto& n : names) if (r.chance(0.5)) keep.insert(n); ts[size_t(d)] = keep; }
  }
  sample(describe(m, c) + fmt(" cells of dim %d compressed=%d all=%d", cd, int(comp), int(all)));
  if (m.nelems()) nontrivial(case_seed(ctx().cur));
  string dir = scratch("v_vtk");
  if (world->rank() == 0) rmtree(dir);
  barrier(world);
  bool series = r.chance(0.3);
  int64_t before = ctx().nviol;
  if (!series) {
    Omega_h::vtk::write_parallel(dir, &m, cd, ts, comp);
    barrier(world);
    check_vtu(dir + fmt("/pieces/piece_%d.vtu", world->rank()), m, cd, ts, comp);
    check_pvtu(dir, m, cd, ts);
    if (!par) {
      string f = scratch("s.vtu");
      rmtree(f);
      if (all) Omega_h::vtk::write_vtu(f, &m, cd, comp); else { std::ofstream of(f.c_str()); Omega_h::vtk::write_vtu(of, &m, cd, ts, comp); }
      check_vtu(f, m, cd, ts, comp);
      if (cd == dim && ts[0].count("global") && ts[size_t(dim)].count("global")) {
        std::ifstream in(f.c_str());
        Mesh b(LIB);
        Omega_h::vtk::read_vtu(in, world, &b);
        std::set<string> skip;
        for (int d = 0; d <= dim; ++d) for (auto& t : c.tags) if (dim == 2 && t.type == OMEGA_H_F64 && t.nc == 6) skip.insert(t.name);
        // tags that were not written
        for (int d : {0, dim}) for (int i = 0; i < m.ntags(d); ++i) if (!ts[size_t(d)].count(m.get_tag(d, i)->name()) && m.get_tag(d, i)->name() != "coordinates") skip.insert(m.get_tag(d, i)->name());
        auto d = by_global(m, b, skip);
        VP_CHECK(d.empty(), "vtu-read", "VTU read back: %s", d.c_str());
        count("vtu_read_back");
      }
      rmtree(f);
    }
    if (cd == dim && all && m.parting() != OMEGA_H_VERT_BASED && ctx().nviol == before) {
      Mesh b(LIB);
      Omega_h::vtk::read_parallel(dir + "/pieces.pvtu", world, &b);
      std::set<string> skip;
      for (auto& t : c.tags) if (dim == 2 && t.type == OMEGA_H_F64 && t.nc == 6) skip.insert(t.name);
      skip.insert("vtkGhostType");
      auto d = by_global(m, b, skip);
      VP_CHECK(d.empty(), "pvtu-read", "PVTU read back: %s", d.c_str());
      VP_CHECK(b.parting() == m.parting() && (b.parting() != OMEGA_H_GHOSTED || b.nghost_layers() == m.nghost_layers()), "pvtu-read", "partitioning mode changed");
      if (d.empty()) {
        // the same parts
        auto p = dump_part(&m, false), q = dump_part(&b, false);
        for (int k : {0, dim}) { auto x = p.e[k].glob, y = q.e[k].glob; VP_CHECK(x == y, "pvtu-read", "rank %d does not hold its part's dim %d entities", world->rank(), k); }
      }
      count("pvtu_read_back");
    }
  } else {
    // a time series, possibly restarted
    struct Step { I64 step; double time; };
    vector<Step> want;
    int n1 = int(r.range(1, 4)), n2 = int(r.below(4));
    double t0 = r.real(0, 5);
    bool full = r.chance(0.2);
    if (full) {
      Omega_h::vtk::FullWriter w(dir, &m, 0.0, comp);
      for (int i = 0; i < n1; ++i) { double t = t0 + i * 0.1; w.write(t); want.push_back({i, t}); }
      static char const* const names[4] = {"vertices", "edges", "faces", "regions"};
      static char const* const pn[4] = {"verts", "edges", "faces", "regions"};
      (void)names; (void)pn;
      barrier(world);
      for (int d = 1; d <= dim; ++d) {
        string sub = dir + "/" + Omega_h::dimensional_plural_name(d);
        vector<double> ts2; vector<fs::path> ps;
        Omega_h::vtk::read_pvd(sub + "/steps.pvd", &ts2, &ps);
        VP_CHECK(ts2.size() == want.size(), "pvd", "%zu steps listed, %zu written", ts2.size(), want.size());
        check_vtu(sub + fmt("/steps/step_%d/pieces/piece_%d.vtu", n1 - 1, world->rank()), m, d, Omega_h::vtk::get_all_vtk_tags(&m, d), comp);
      }
    } else {
      I64 st = 0;
      {
        Omega_h::vtk::Writer w(dir, &m, cd, 0.0, comp);
        for (int i = 0; i < n1; ++i) {
          double t = t0 + i * 0.37;
          if (r.chance(0.3)) { st += 5; w.write(st, t, ts); want.push_back({st, t}); ++st; w = w; st = st; break; }
          w.write(t, ts); want.push_back({st, t}); ++st;
        }
      }
      if (n2) {
        // restart: later steps are dropped, earlier ones kept
        double restart = want[size_t(r.below(int64_t(want.size())))].time + (r.chance(0.5) ? 0.01 : 0.0);
        while (!want.empty() && want.back().time >= restart) want.pop_back();
        Omega_h::vtk::Writer w(dir, &m, cd, restart, comp);
        for (int i = 0; i < n2; ++i) { double t = restart + 0.01 + i; I64 s = 100 + i; w.write(s, t, ts); want.push_back({s, t}); }
      }
      barrier(world);
      string txt = slurp(dir + "/steps.pvd");
      Xml x(txt);
      XTag t;
      size_t k = 0;
      int depth = 0;
      while (x.next(t)) {
        if (t.end) { --depth; continue; }
        if (!t.self) ++depth;
        if (t.name != "DataSet") continue;
        if (k >= want.size()) { viol("pvd", "more steps listed than written"); break; }
        double got = strtod(t.at["timestep"].c_str(), nullptr);
        VP_CHECK(biteq(got, want[k].time), "pvd", "step %zu: time %.17g instead of %.17g", k, got, want[k].time);
        VP_CHECK(t.at["file"].find(fmt("step_%lld/", (long long)want[k].step)) != string::npos && exists(dir + "/" + t.at["file"]), "pvd", "step %zu names file %s", k, t.at["file"].c_str());
        ++k;
      }
      VP_CHECK(k == want.size() && depth == 0, "pvd", "%zu steps listed, %zu written; tag depth %d", k, want.size(), depth);
      vector<double> ts2; vector<fs::path> ps;
      Omega_h::vtk::read_pvd(dir + "/steps.pvd", &ts2, &ps);
      VP_CHECK(ts2.size() == want.size() && ps.size() == want.size(), "pvd", "read_pvd finds %zu steps", ts2.size());
      for (size_t i = 0; i < std::min(ts2.size(), want.size()); ++i) VP_CHECK(biteq(ts2[i], want[i].time) && exists(ps[i].string()), "pvd", "read_pvd step %zu", i);
      if (!want.empty()) { string sd = dir + fmt("/steps/step_%lld", (long long)want.back().step); check_vtu(sd + fmt("/pieces/piece_%d.vtu", world->rank()), m, cd, ts, comp); check_pvtu(sd, m, cd, ts); }
    }
    count("time_series");
  }
  // text arrays
  if (!par) {
    vector<double> v;
    int nc = int(r.range(1, 4)), n = int(r.below(20));
    for (int i = 0; i < n * nc; ++i) { double y = odd_real(r.u64()); if (!std::isfinite(y) || (y != 0 && std::fabs(y) < 1e-300)) y = 0.1 * i; v.push_back(y); }
    std::stringstream ss;
    Omega_h::write_reals_txt(ss, dev(v), nc);
    auto back = host(Omega_h::read_reals_txt(ss, n, nc));
    bool same = back.size() == v.size();
    for (size_t i = 0; same && i < v.size(); ++i) same = back[i] == v[i];
    VP_CHECK(same, "text", "values changed through a text file");
  }
  barrier(world);
  if (world->rank() == 0) rmtree(dir);
  barrier(world);
}

// ------------------------------------------------------------------ D05
using Omega_h::VarCompareOpts;
static double spec_diff(double a, double b, VarCompareOpts o) {
  if (o.type == VarCompareOpts::RELATIVE) {
    double x = std::fabs(a), y = std::fabs(b);
    if (x <= o.floor && y <= o.floor) return 0;
    return std::fabs(b - a) / std::max(x, y);
  }
  return std::fabs(a - b);
}
static void check_scalars(Rng& r) {
  for (int i = 0; i < 200; ++i) {
    VarCompareOpts o{r.chance(0.5) ? VarCompareOpts::RELATIVE : VarCompareOpts::ABSOLUTE, r.chance(0.2) ? 0.0 : std::pow(10, r.real(-12, 0)), r.chance(0.5) ? 0.0 : std::pow(10, r.real(-12, 2))};
    double a = r.chance(0.1) ? 0.0 : r.real(-1, 1) * std::pow(10, r.real(-13, 3));
    double b = r.chance(0.1) ? 0.0 : r.chance(0.6) ? a * (1 + (r.chance(0.5) ? 1 : -1) * std::pow(10, r.real(-14, 0))) : r.chance(0.3) ? -a : r.real(-1, 1) * std::pow(10, r.real(-13, 3));
    if (a == 0 && b == 0 && o.floor == 0 && r.chance(0.5)) continue;
    double d = spec_diff(a, b, o);
    if (a == 0 && b == 0) d = 0;
    double tol = o.tolerance;
    bool near = std::fabs(d - tol) < 1e-9 * std::max(d, tol) && !(d == 0 && tol == 0);
    if (near) continue;
    bool ab = Omega_h::compare_real(a, b, o), ba = Omega_h::compare_real(b, a, o);
    VP_CHECK(ab == ba, "symmetry", "comparing %.17g and %.17g depends on their order", a, b);
    VP_CHECK(ab == (d <= tol), "scalar", "compare_real(%.17g, %.17g, %s tol %g floor %g) = %d", a, b, o.type == VarCompareOpts::RELATIVE ? "relative" : "absolute", tol, o.floor, int(ab));
    bool arr = Omega_h::compare_arrays<Real>(LIB->self(), dev(vector<double>{1, a, 2}), dev(vector<double>{1, b, 2}), o, 1, 0, false);
    VP_CHECK(arr == ab, "scalar-array", "array comparison of %.17g and %.17g (type %d tol %g floor %g) gives %d, scalar %d", a, b, int(o.type), tol, o.floor, int(arr), int(ab));
    count("scalar_comparisons");
  }
}
// the options of the comparison programs, from the command line and from a command file
static void check_cmdline(Rng& r) {
  auto c = gen_case(r, false, true);
  c.amr = false;
  Mesh mesh = make_mesh(c, LIB->world());
  int dim = mesh.dim();
  struct O {
    int type;
    double tol, fl;
  };
  O dflt{int(VarCompareOpts::RELATIVE), 1e-6, 0};
  auto number = [&](double& v) {
    v = r.chance(0.15) ? 0.0 : std::pow(10, r.real(-14, 1));
    auto s = fmt(r.chance(0.5) ? "%.6e" : "%.9g", v);
    v = std::atof(s.c_str());
    return s;
  };
  vector<string> args;
  if (r.chance(0.5)) {
    auto s = number(dflt.tol);
    args.insert(args.end(), {"-tolerance", s});
  }
  if (r.chance(0.5)) {
    auto s = number(dflt.fl);
    args.insert(args.end(), {"-Floor", s});
  }
  bool superset = r.chance(0.4), with_file = r.chance(0.8);
  if (superset) args.push_back("-superset");
  std::map<string, O> want[4];
  O want_time = dflt;
  string file;
  if (with_file) {
    auto options = [&](O& o) -> string {
      double x = r.real(0, 1);
      if (x < 0.4) return "";
      if (x < 0.6) {
        o.type = VarCompareOpts::ABSOLUTE;
        auto s = number(o.tol);
        return " absolute " + s;
      }
      o.type = VarCompareOpts::RELATIVE;
      auto s = " relative " + number(o.tol);
      if (x < 0.8) {
        auto t = number(o.fl);
        s += " floor " + t;
      }
      return s;
    };
    auto noise = [&] {
      while (r.chance(0.2)) file += r.chance(0.5) ? "\n" : r.chance(0.5) ? "# NODAL VARIABLES (all)\n" : "   \n";
    };
    int nsec = int(r.range(0, 6));
    for (int i = 0; i < nsec; ++i) {
      noise();
      int kind = int(r.below(6));
      if (kind == 0) {
        O o = want_time;
        auto s = options(o);
        file += "TIME STEPS" + s + "\n";
        want_time = o;
      } else if (kind == 1) {
        O o = dflt;
        auto s = options(o);
        file += "COORDINATES" + s + "\n";
        want[0]["coordinates"] = o;
      } else if (kind == 2) {
        file += r.chance(0.5) ? "GLOBAL VARIABLES (all)\n" : "NODESET VARIABLES\n";
        if (r.chance(0.5)) file += "\tignored\n";
      } else {
        int d = r.chance(0.5) ? 0 : dim;
        bool all = r.chance(0.4);
        O h = dflt;
        auto s = options(h);
        file += string(d == 0 && !(dim == 0) ? "NODAL" : "ELEMENT") + " VARIABLES" + (all ? " (all)" : "") + s + "\n";
        vector<string> names;
        for (int j = 0; j < mesh.ntags(d); ++j) names.push_back(mesh.get_tag(d, j)->name());
        if (all)
          for (auto& n : names) want[d][n] = h;
        int nlines = int(r.range(0, 3)), given = 0;
        for (int j = 0; j < nlines && !names.empty(); ++j) {
          auto n = r.pick(names);
          if (n.find_first_of(" \t!#\n\r\v\f") != string::npos || n.empty()) continue;
          noise();
          ++given;
          if (all && want[d].count(n) && r.chance(0.4)) {
            file += "\t!" + n + "\n";
            want[d].erase(n);
            count("excluded_variables");
          } else {
            O o = h;
            auto t = options(o);
            file += "\t" + n + t + "\n";
            want[d][n] = o;
          }
        }
        if (!all && !given)
          for (auto& n : names) want[d][n] = h;
        count("variable_sections");
      }
    }
    noise();
    if (!file.empty() && r.chance(0.3)) file.pop_back();
    auto path = scratch("diff_commands");
    std::ofstream(path) << file;
    args.insert(args.end(), {"-f", path});
  } else {
    for (int d = 0; d <= dim; ++d)
      for (int j = 0; j < mesh.ntags(d); ++j) want[d][mesh.get_tag(d, j)->name()] = dflt;
  }
  args.insert(args.begin(), "program");
  args.insert(args.begin() + 1, "first");
  args.push_back("second");
  vector<char*> argv;
  for (auto& s : args) argv.push_back(&s[0]);
  argv.push_back(nullptr);
  int argc = int(args.size());
  Omega_h::CmdLine cl;
  Omega_h::get_diff_program_cmdline("a", "b", &cl);
  bool ok = cl.parse_final(LIB->world(), &argc, argv.data());
  if (!ok) { viol("cmdline", "the comparison program rejects its own options"); return; }
  Omega_h::MeshCompareOpts opts;
  opts.time_step_opts = VarCompareOpts{VarCompareOpts::NONE, -1, -1};
  Omega_h_Comparison most = OMEGA_H_DIFF;
  Omega_h::accept_diff_program_cmdline(cl, &mesh, &opts, &most);
  VP_CHECK(most == (superset ? OMEGA_H_MORE : OMEGA_H_SAME), "cmdline", "-superset %d allows %d", int(superset), int(most));
  auto show = [](O o) { return fmt("type %d tolerance %g floor %g", o.type, o.tol, o.fl); };
  auto same = [](O o, VarCompareOpts v) { return o.type == int(v.type) && o.tol == v.tolerance && (o.fl == v.floor); };
  auto got_o = [](VarCompareOpts v) { return O{int(v.type), v.tolerance, v.floor}; };
  if (!same(want_time, opts.time_step_opts)) viol("cmdline", fmt("time steps compared with %s, not %s; file:\n%s", show(got_o(opts.time_step_opts)).c_str(), show(want_time).c_str(), file.c_str()));
  for (int d = 0; d <= dim; ++d) {
    std::set<string> names;
    for (int j = 0; j < mesh.ntags(d); ++j) names.insert(mesh.get_tag(d, j)->name());
    for (auto& kv : want[d]) names.insert(kv.first);
    for (auto& n : names) {
      auto o = opts.tag_opts(d, n);
      auto it = want[d].find(n);
      bool good = it == want[d].end() ? o.type == VarCompareOpts::NONE : same(it->second, o);
      if (!good) viol("cmdline", fmt("variable %s of dimension %d compared with %s, not %s; file:\n%s", n.c_str(), d, show(got_o(o)).c_str(), it == want[d].end() ? "not at all" : show(it->second).c_str(), file.c_str()));
      count("variable_options");
    }
  }
  nontrivial(case_seed(ctx().cur));
}
static char const* cmp_name(Omega_h_Comparison c) { return c == OMEGA_H_SAME ? "same" : c == OMEGA_H_MORE ? "more" : "different"; }
static void run_cmp(Rng& r, int64_t) {
  auto world = LIB->world();
  if (world->size() == 1) check_scalars(r);
  if (world->size() == 1 && r.chance(0.3)) check_cmdline(r);
  auto c = gen_case(r, false, true);
  c.amr = false;
  Mesh a = make_mesh(c, world);
  auto c2 = c;
  // another partitioning of the same mesh (same global numbers only when nothing renumbers)
  Mesh b;
  bool repart = r.chance(0.5) && world->size() > 1;
  uint64_t s2 = r.u64();
  b = a;
  if (repart) {
    Rng lr(s2);
    b.set_parting(OMEGA_H_ELEM_BASED);
    a.set_parting(OMEGA_H_ELEM_BASED);
    b = a;
    scatter(b, lr, int(lr.range(1, 3)));
  }
  int dim = c.s.dim;
  VarCompareOpts vo{r.chance(0.7) ? VarCompareOpts::RELATIVE : VarCompareOpts::ABSOLUTE, r.chance(0.2) ? 0.0 : std::pow(10, r.real(-9, -2)), r.chance(0.5) ? 0.0 : std::pow(10, r.real(-9, -3))};
  bool full = r.chance(0.6);
  auto opts = Omega_h::MeshCompareOpts::init(&a, vo);
  auto cmp = [&](Mesh& p, Mesh& q, Omega_h_Comparison want, string const& what) {
    std::ostringstream sink;
    auto old = std::cout.rdbuf(sink.rdbuf());
    auto got = Omega_h::compare_meshes(&p, &q, opts, r.chance(0.5), full);
    std::cout.rdbuf(old);
    count(fmt("compared_%s", cmp_name(want)));
    if (got != want) viol("compare", fmt("%s: reported %s (full=%d type=%d tol=%g floor=%g repartitioned=%d)", what.c_str(), cmp_name(got), int(full), int(vo.type), vo.tolerance, vo.floor, int(repart)));
  };
  sample(describe(a, c) + fmt(" tol=%g repartitioned=%d", vo.tolerance, int(repart)));
  if (a.nelems()) nontrivial(case_seed(ctx().cur));
  cmp(a, a, OMEGA_H_SAME, "a mesh and itself");
  cmp(a, b, OMEGA_H_SAME, "a mesh and its copy");
  cmp(b, a, OMEGA_H_SAME, "a copy and its mesh");
  // one value changes, on the owner and all copies of one entity
  for (int trial = 0; trial < 6; ++trial) {
    int d = int(r.range(0, dim));
    vector<string> names;
    for (int i = 0; i < a.ntags(d); ++i) names.push_back(a.get_tag(d, i)->name());
    std::sort(names.begin(), names.end());
    names.erase(std::remove(names.begin(), names.end(), string("global")), names.end());
    if (names.empty()) { r.u64(); continue; }
    auto name = r.pick(names);
    GO victim = r.below(a.nglobal_ents(d));
    auto tb = a.get_tagbase(d, name);
    int nc = tb->ncomps(), comp = int(r.below(nc));
    double f = r.chance(0.5) ? 0.3 : 3.0;
    Mesh x = b;
    auto g = host(x.globals(d));
    bool visible = full || d == 0 || d == dim;
    bool beyond = true, applied = false;
    auto change = [&](auto dummy) {
      using T = decltype(dummy);
      auto v = host(x.get_array<T>(d, name));
      double want = 0;
      for (size_t i = 0; i < g.size(); ++i)
        if (g[i] == victim) {
          auto& y = v[i * size_t(nc) + size_t(comp)];
          applied = true;
          if (std::is_floating_point<T>::value) {
            double o = double(y);
            double step = vo.type == VarCompareOpts::RELATIVE ? f * vo.tolerance * std::max(std::fabs(o), vo.floor * 4) : f * vo.tolerance;
            if (vo.tolerance == 0) step = f > 1 ? std::max(std::fabs(o), 1e-3) * 1e-6 : 0;
            y = T(o + (o < 0 ? -step : step));
            want = spec_diff(o, double(y), vo);
          } else { y = T(int64_t(y) ^ 1); want = 1e300; }
        }
      double w = x.comm()->allreduce(want, OMEGA_H_MAX);
      beyond = w > vo.tolerance;
      // do not test values right at the tolerance
      if (std::fabs(w - vo.tolerance) < 1e-5 * vo.tolerance) applied = false;
      x.set_tag<T>(d, name, dev(v));
    };
    switch (tb->type()) {
      case OMEGA_H_I8: change(I8()); break;
      case OMEGA_H_I32: change(I32()); break;
      case OMEGA_H_I64: change(I64()); break;
      case OMEGA_H_F64: change(Real()); break;
    }
    if (!x.comm()->allreduce(I32(applied), OMEGA_H_MAX)) continue;
    auto want = beyond && visible ? OMEGA_H_DIFF : OMEGA_H_SAME;
    cmp(a, x, want, fmt("tag %s of dim %d entity %lld comp %d changed by a factor %g of the tolerance", name.c_str(), d, (long long)victim, comp, f));
    cmp(x, a, want, fmt("(reversed) tag %s of dim %d entity %lld comp %d changed by a factor %g of the tolerance", name.c_str(), d, (long long)victim, comp, f));
    // a tag that is not asked for does not matter
    auto save = opts;
    opts.tags2opts[d].erase(name);
    cmp(a, x, OMEGA_H_SAME, "a changed tag that is not compared");
    opts = save;
  }
  // tag sets
  {
    int d = r.chance(0.5) ? 0 : dim;
    Mesh x = b;
    x.add_tag<Real>(d, "zz extra", 1, Reals(x.nents(d), 1.0));
    cmp(a, x, OMEGA_H_MORE, "a superset of tags");
    cmp(x, a, OMEGA_H_DIFF, "a missing tag");
    // more tags do not hide a difference
    Mesh y = x;
    auto cx = host(y.coords());
    auto g = host(y.globals(0));
    for (size_t i = 0; i < g.size(); ++i) if (g[i] == 0) cx[i * size_t(dim)] += 1e3 * (1 + std::fabs(cx[i * size_t(dim)]));
    y.set_coords(dev(cx));
    cmp(a, y, OMEGA_H_DIFF, "a superset of tags and other coordinates");
    // same name, other type or component count
    Mesh p = a, q = b;
    p.add_tag<Real>(d, "zz t", 2, Reals(p.nents(d) * 2, 1.0));
    if (r.chance(0.5)) q.add_tag<Real>(d, "zz t", 1, Reals(q.nents(d), 1.0)); else q.add_tag<I32>(d, "zz t", 2, LOs(q.nents(d) * 2, 1));
    cmp(p, q, OMEGA_H_DIFF, "a tag of another type or component count");
  }
  // topology
  if (world->size() == 1) {
    Case e = c;
    if (!e.hyper) {
      int k = c.s.dim + 1;
      // swap two vertices' places in the element list: same counts, other connectivity
      int e0 = int(r.below(e.s.ne()));
      if (c.s.dim > 1) {
        std::rotate(e.s.ev.begin() + e0 * k, e.s.ev.begin() + e0 * k + 1, e.s.ev.begin() + e0 * k + (k == 3 ? 3 : 3));
        e.tags.clear(); c2 = c; c2.tags.clear();
        // an even permutation of one element's vertices: same sets of vertices, other order
        Mesh p(LIB), q(LIB);
        Omega_h::build_from_elems_and_coords(&p, OMEGA_H_SIMPLEX, dim, dev(conv<LO>(c.s.ev)), dev(c.s.x));
        Omega_h::build_from_elems_and_coords(&q, OMEGA_H_SIMPLEX, dim, dev(conv<LO>(e.s.ev)), dev(e.s.x));
        auto pv = host(p.ask_elem_verts()), qv = host(q.ask_elem_verts());
        opts = Omega_h::MeshCompareOpts::init(&p, vo);
        if (pv != qv) cmp(p, q, OMEGA_H_DIFF, "elements with another vertex order");
      }
      Case g = c;
      if (g.s.ne() > 1) {
        g.s.ev.erase(g.s.ev.begin(), g.s.ev.begin() + k);
        Mesh p(LIB), q(LIB);
        Omega_h::build_from_elems_and_coords(&p, OMEGA_H_SIMPLEX, dim, dev(conv<LO>(c.s.ev)), dev(c.s.x));
        Omega_h::build_from_elems_and_coords(&q, OMEGA_H_SIMPLEX, dim, dev(conv<LO>(g.s.ev)), dev(g.s.x));
        opts = Omega_h::MeshCompareOpts::init(&p, vo);
        cmp(p, q, OMEGA_H_DIFF, "a mesh with one element less");
        cmp(q, p, OMEGA_H_DIFF, "a mesh with one element more");
      }
    }
  }
}

int main(int argc, char** argv) {
  parse_args(argc, argv);
  LibArgs la(argc, argv);
  Library lib(&la.argc, &la.argv);
  LIB = &lib;
  ctx().rank = lib.world()->rank(); ctx().size = lib.world()->size();
  auto const& m = ctx().mode;
  return run_cases([&](Rng& r, int64_t i) {
    if (m == "native") run_native(r, i);
    else if (m == "damage") run_damage(r, i);
    else if (m == "vtk") run_vtk(r, i);
    else run_cmp(r, i);
  });
}
