// Distributed data structures: exchanges (B02), repartitioning (B01),
// distributed construction (B03).
#include <limits>
#include "vpmesh.hpp"
#include <Omega_h_box.hpp>
#include <Omega_h_future.hpp>
#include <Omega_h_ghost.hpp>
#include <Omega_h_globals.hpp>
#include <Omega_h_linpart.hpp>
#include <Omega_h_owners.hpp>
#include <Omega_h_remotes.hpp>
#include <Omega_h_simplify.hpp>
#include <Omega_h_hypercube.hpp>
using namespace vp;
namespace osh = Omega_h;

static Library* g_lib;
static CommPtr world() { return g_lib->world(); }
template <class T> T rnd_value(uint64_t h);
template <> I8 rnd_value<I8>(uint64_t h) { return I8(mix64(h)); }
template <> I32 rnd_value<I32>(uint64_t h) { return I32(mix64(h)); }
template <> I64 rnd_value<I64>(uint64_t h) { return I64(mix64(h)); }
template <> Real rnd_value<Real>(uint64_t h) {
  h = mix64(h);
  if (h % 17 == 0) return std::numeric_limits<double>::quiet_NaN();
  if (h % 17 == 1) return -0.0;
  if (h % 17 == 2) return std::numeric_limits<double>::infinity();
  if (h % 17 == 3) return 5e-324;
  return double(int64_t(h)) * 1e-9;
}
template <class T> bool same(T a, T b) { return std::memcmp(&a, &b, sizeof(T)) == 0; }
template <class T> char const* tname();
template <> char const* tname<I8>() { return "I8"; }
template <> char const* tname<I32>() { return "I32"; }
template <> char const* tname<I64>() { return "I64"; }
template <> char const* tname<Real>() { return "Real"; }

// ------------------------------------------------------------ exchanges
struct Pattern {  // the whole pattern is known to every rank
  int P = 1;
  vector<vector<std::pair<int, int>>> dst;  // per rank, per item
  vector<int> nroots;                       // destination roots per rank
  vector<vector<int>> fan;                  // optional: source root offsets
  bool has_fan = false;
};
static Pattern gen_pattern(Rng& r, int P) {
  Pattern p;
  p.P = P;
  int style = int(r.below(7));
  int mx = r.chance(0.2) ? 60 : 12;
  p.nroots.resize(size_t(P));
  for (auto& n : p.nroots) n = r.chance(0.2) ? 0 : int(r.range(1, 9));
  vector<int> avail;
  for (int q = 0; q < P; ++q) if (p.nroots[size_t(q)]) avail.push_back(q);
  p.dst.resize(size_t(P));
  if (style == 1 && !avail.empty()) avail = {r.pick(avail)};
  vector<std::pair<int, int>> perm;
  for (int q = 0; q < P; ++q) for (int i = 0; i < p.nroots[size_t(q)]; ++i) perm.push_back({q, i});
  if (style != 3) r.shuffle(perm);
  size_t at = 0;
  for (int q = 0; q < P; ++q) {
    int n = r.chance(0.2) ? 0 : int(r.range(0, mx));
    if (avail.empty()) n = 0;
    if (style == 2 || style == 3) {  // each root exactly once
      n = q == P - 1 ? int(perm.size() - at) : int(r.range(0, int64_t(perm.size() - at)));
      for (int i = 0; i < n; ++i) p.dst[size_t(q)].push_back(perm[at++]);
      continue;
    }
    for (int i = 0; i < n; ++i) {
      int d = r.pick(avail);
      if (style == 4 && p.nroots[size_t(q)]) d = q;                              // self only
      if (style == 5 && p.nroots[size_t((q + 1) % P)]) d = (q + 1) % P;        // ring
      int idx = style == 6 ? 0 : int(r.below(p.nroots[size_t(d)]));
      p.dst[size_t(q)].push_back({d, idx});
    }
  }
  p.has_fan = r.chance(0.5);
  p.fan.resize(size_t(P));
  for (int q = 0; q < P; ++q) {
    auto& f = p.fan[size_t(q)];
    f = {0};
    int n = int(p.dst[size_t(q)].size());
    while (f.back() < n) f.push_back(std::min(n, f.back() + int(r.below(4))));
    if (r.chance(0.3)) f.push_back(n);
  }
  return p;
}
struct Recv { int src, item, root; };
static uint64_t valkey(uint64_t salt, int rank, int i, int c) { return salt + uint64_t(rank) * 1000003u + uint64_t(i) * 131u + uint64_t(c) * 7u + 1; }

// data is given per source root (fan) or per item
template <class T> vector<T> make_data(uint64_t salt, int rank, int n, int w) {
  vector<T> v;
  for (int i = 0; i < n; ++i) for (int c = 0; c < w; ++c) v.push_back(rnd_value<T>(valkey(salt, rank, i, c)));
  return v;
}
static void pause_us(Rng& lr, int mx) { ::usleep(unsigned(lr.below(mx))); }

template <class T>
void check_forward(osh::Dist const& d, Pattern const& p, vector<Recv> const& map, int me, Rng& r, Rng& lr, bool async, string const& what) {
  int w = int(r.pick(vector<int>{1, 1, 2, 3, 5, 9}));
  uint64_t salt = r.u64();
  int nsrc = p.has_fan ? int(p.fan[size_t(me)].size()) - 1 : int(p.dst[size_t(me)].size());
  auto in = dev(make_data<T>(salt, me, nsrc, w));
  Read<T> out;
  if (async) {
    auto polls = int(r.below(4));
    pause_us(lr, lr.chance(0.5) ? 1500 : 10);
    auto fut = (r.chance(0.5)) ? d.iexch(in, w) : osh::Dist(d).iexch(in, w);  // the second outlives its Dist
    in = Read<T>();
    bool done = false;
    for (int k = 0; k < polls && !done; ++k) { done = fut.completed(); count("future_polls"); }
    if (done) count("future_done_by_poll");
    out = fut.get();
    bool threw = false;
    try { fut.get(); } catch (std::exception const&) { threw = true; }
    VP_CHECK(threw, "future-get-twice", "a second get() on a future is not rejected");
  } else
    out = d.exch(in, w);
  auto h = host(out);
  if (h.size() != map.size() * size_t(w)) { viol("exch-size", fmt("%s %s width %d: received %zu values, expected %zu", what.c_str(), tname<T>(), w, h.size(), map.size() * size_t(w))); return; }
  for (size_t k = 0; k < map.size(); ++k)
    for (int c = 0; c < w; ++c) {
      auto& m = map[k];
      int s = m.item;
      if (p.has_fan) { auto& f = p.fan[size_t(m.src)]; s = int(std::upper_bound(f.begin(), f.end(), m.item) - f.begin()) - 1; }
      T want = rnd_value<T>(valkey(salt, m.src, s, c));
      if (!same(want, h[k * size_t(w) + size_t(c)])) {
        viol("exch-value", fmt("%s %s width %d: rank %d item %zu comp %d got wrong value (from rank %d item %d)", what.c_str(), tname<T>(), w, me, k, c, m.src, m.item));
        return;
      }
    }
  count("items_exchanged", int64_t(map.size()));
}
template <class T>
void check_inverse(osh::Dist const& d, Pattern const& p, vector<Recv> const& map, int me, Rng& r, Rng& lr, bool async, bool per_item, string const& what) {
  // values sent back from destination roots (or received items) to source items
  int w = int(r.pick(vector<int>{1, 1, 2, 4}));
  uint64_t salt = r.u64();
  auto inv = d.invert();
  if (per_item) inv.set_roots2items(LOs());
  int n = per_item ? int(map.size()) : p.nroots[size_t(me)];
  vector<T> v;
  if (per_item) {
    for (auto& m : map) for (int c = 0; c < w; ++c) v.push_back(rnd_value<T>(valkey(salt, m.src, m.item, c)));
  } else
    v = make_data<T>(salt, me, n, w);
  Read<T> out;
  if (async) {
    pause_us(lr, lr.chance(0.5) ? 1500 : 10);
    auto fut = inv.iexch(dev(v), w);
    bool done = false;
    for (int k = 0; k < 3 && !done; ++k) { done = fut.completed(); count("future_polls"); }
    if (done) count("future_done_by_poll");
    out = fut.get();
  } else
    out = inv.exch(dev(v), w);
  auto h = host(out);
  auto& dst = p.dst[size_t(me)];
  if (h.size() != dst.size() * size_t(w)) { viol("inverse-size", fmt("%s %s: received %zu values, expected %zu", what.c_str(), tname<T>(), h.size(), dst.size() * size_t(w))); return; }
  for (size_t i = 0; i < dst.size(); ++i)
    for (int c = 0; c < w; ++c) {
      T want = per_item ? rnd_value<T>(valkey(salt, me, int(i), c)) : rnd_value<T>(valkey(salt, dst[i].first, dst[i].second, c));
      if (!same(want, h[i * size_t(w) + size_t(c)])) {
        viol("inverse-value", fmt("%s %s width %d: rank %d item %zu got another root's value back", what.c_str(), tname<T>(), w, me, i));
        return;
      }
    }
}
template <class T> T small_value(uint64_t h, Omega_h_Op op) {
  h = mix64(h);
  if (op == OMEGA_H_SUM) return T(int(h % 5) - 2);
  return T(int(h % 200) - 100);
}
template <class T>
void check_reduce(osh::Dist const& d, Pattern const& p, int me, Rng& r, string const& what) {
  int w = int(r.pick(vector<int>{1, 1, 2, 3}));
  uint64_t salt = r.u64();
  auto op = r.pick(vector<Omega_h_Op>{OMEGA_H_MIN, OMEGA_H_MAX, OMEGA_H_SUM});
  auto value = [&](int rank, int s, int c) { return small_value<T>(valkey(salt, rank, s, c), op); };
  int nsrc = p.has_fan ? int(p.fan[size_t(me)].size()) - 1 : int(p.dst[size_t(me)].size());
  vector<T> in;
  for (int i = 0; i < nsrc; ++i) for (int c = 0; c < w; ++c) in.push_back(value(me, i, c));
  auto h = host(d.exch_reduce(dev(in), w, op));
  int n = p.nroots[size_t(me)];
  if (int(h.size()) != n * w) { viol("reduce-size", fmt("%s: %zu values for %d roots width %d", what.c_str(), h.size(), n, w)); return; }
  vector<double> want(h.size(), 0);
  vector<int> cnt(size_t(n), 0);
  for (int q = 0; q < p.P; ++q)
    for (size_t i = 0; i < p.dst[size_t(q)].size(); ++i) {
      auto t = p.dst[size_t(q)][i];
      if (t.first != me) continue;
      int s = int(i);
      if (p.has_fan) { auto& f = p.fan[size_t(q)]; s = int(std::upper_bound(f.begin(), f.end(), s) - f.begin()) - 1; }
      for (int c = 0; c < w; ++c) {
        auto& o = want[size_t(t.second * w + c)];
        double v = double(value(q, s, c));
        if (!cnt[size_t(t.second)]) o = v;
        else o = op == OMEGA_H_MIN ? std::min(o, v) : op == OMEGA_H_MAX ? std::max(o, v) : o + v;
      }
      ++cnt[size_t(t.second)];
    }
  for (int i = 0; i < n; ++i)
    for (int c = 0; c < w; ++c) {
      if (!cnt[size_t(i)] && op != OMEGA_H_SUM) continue;
      if (T(want[size_t(i * w + c)]) != h[size_t(i * w + c)]) {
        viol("reduce-value", fmt("%s %s op %d width %d: rank %d root %d comp %d has %g, expected %g from %d contributions", what.c_str(), tname<T>(), int(op), w, me, i, c, double(h[size_t(i * w + c)]), want[size_t(i * w + c)], cnt[size_t(i)]));
        return;
      }
    }
}
template <class F> void each_type(Rng& r, F f) {
  switch (r.below(4)) {
    case 0: f(I8()); break;
    case 1: f(I32()); break;
    case 2: f(I64()); break;
    default: f(Real());
  }
}

// everything a pattern promises, for a Dist in communicator comm
static void check_dist(osh::Dist d, Pattern const& p, CommPtr comm, Rng& r, string const& what) {
  int me = comm->rank();
  Rng lr(r.u64() ^ (uint64_t(me) * 77777u));
  auto& dst = p.dst[size_t(me)];
  VP_CHECK(d.parent_comm()->size() == p.P && d.parent_comm()->rank() == me, "parent-comm", "%s", what.c_str());
  VP_CHECK(d.nitems() == int(dst.size()), "nitems", "%s: nitems %d expected %zu", what.c_str(), d.nitems(), dst.size());
  VP_CHECK(d.nsrcs() == (p.has_fan ? int(p.fan[size_t(me)].size()) - 1 : int(dst.size())), "nsrcs", "%s", what.c_str());
  VP_CHECK(d.ndests() == p.nroots[size_t(me)], "ndests", "%s: ndests %d expected %d", what.c_str(), d.ndests(), p.nroots[size_t(me)]);
  // who sends to whom
  auto ir = host(d.items2ranks());
  auto dd = d.items2dests();
  auto dr = host(dd.ranks);
  auto di = host(dd.idxs);
  bool ok = ir.size() == dst.size() && dr.size() == dst.size() && di.size() == dst.size();
  for (size_t i = 0; ok && i < dst.size(); ++i) ok = ir[i] == dst[i].first && dr[i] == dst[i].first && di[i] == dst[i].second;
  VP_CHECK(ok, "items2dests", "%s: rank %d: items2dests differs from the destinations given", what.c_str(), me);
  auto mr = host(d.msgs2ranks());
  std::set<int> ranks;
  for (auto& t : dst) ranks.insert(t.first);
  VP_CHECK(std::set<int>(mr.begin(), mr.end()) == ranks && mr.size() == ranks.size(), "msgs2ranks", "%s: rank %d", what.c_str(), me);
  // learn the order of received items, in which every item must appear once
  auto q = d;
  q.set_roots2items(LOs());
  vector<I64> id;
  for (size_t i = 0; i < dst.size(); ++i) id.push_back(I64(me) << 32 | I64(i));
  auto got = host(q.exch(dev(id), 1));
  auto off = host(d.invert().roots2items());
  size_t expect = 0;
  for (int s = 0; s < p.P; ++s) for (auto& t : p.dst[size_t(s)]) expect += t.first == me;
  if (got.size() != expect || int(off.size()) != p.nroots[size_t(me)] + 1 || off.front() != 0 || off.back() != int(expect)) {
    viol("exch-count", fmt("%s: rank %d received %zu items, expected %zu; fan of %zu entries", what.c_str(), me, got.size(), expect, off.size()));
    return;
  }
  vector<Recv> map;
  std::set<I64> seen;
  for (int root = 0; root + 1 < int(off.size()); ++root)
    for (int k = off[size_t(root)]; k < off[size_t(root) + 1]; ++k) {
      I64 g = got[size_t(k)];
      int s = int(g >> 32), i = int(g & 0xffffffff);
      if (s < 0 || s >= p.P || i < 0 || i >= int(p.dst[size_t(s)].size()) || !seen.insert(g).second) { viol("exch-once", fmt("%s: rank %d received item (%d,%d) twice or it does not exist", what.c_str(), me, s, i)); return; }
      if (p.dst[size_t(s)][size_t(i)] != std::make_pair(me, root)) { viol("exch-misdelivered", fmt("%s: rank %d root %d received item (%d,%d), which was sent to (%d,%d)", what.c_str(), me, root, s, i, p.dst[size_t(s)][size_t(i)].first, p.dst[size_t(s)][size_t(i)].second)); return; }
      map.push_back({s, i, root});
    }
  int rounds = 3;
  for (int k = 0; k < rounds; ++k) {
    each_type(r, [&](auto t) { using T = decltype(t); check_forward<T>(d, p, map, me, r, lr, k == 1, what + (k == 1 ? " iexch" : " exch")); });
    each_type(r, [&](auto t) { using T = decltype(t); check_inverse<T>(d, p, map, me, r, lr, k == 1, k == 2, what + " inverse"); });
  }
  each_type(r, [&](auto t) { using T = decltype(t); check_reduce<T>(d, p, me, r, what); });
  // Remotes overload
  {
    int w = int(r.range(1, 3));
    int n = d.nsrcs();
    vector<I32> a;
    vector<LO> b;
    for (int i = 0; i < n * w; ++i) { a.push_back(me * 1000 + i); b.push_back(i * 7 + me); }
    auto o = d.exch(osh::Remotes(dev(a), dev(b)), w);
    auto ha = host(o.ranks), hb = host(o.idxs);
    bool good = ha.size() == map.size() * size_t(w) && hb.size() == ha.size();
    for (size_t k = 0; good && k < map.size(); ++k)
      for (int c = 0; c < w; ++c) {
        int s = map[k].item;
        if (p.has_fan) { auto& f = p.fan[size_t(map[k].src)]; s = int(std::upper_bound(f.begin(), f.end(), s) - f.begin()) - 1; }
        good = good && ha[k * size_t(w) + size_t(c)] == map[k].src * 1000 + s * w + c && hb[k * size_t(w) + size_t(c)] == (s * w + c) * 7 + map[k].src;
      }
    VP_CHECK(good, "exch-remotes", "%s", what.c_str());
  }
}
static osh::Dist make_dist(Pattern const& p, CommPtr comm) {
  int me = comm->rank();
  vector<I32> rk; vector<LO> ix;
  for (auto& t : p.dst[size_t(me)]) { rk.push_back(t.first); ix.push_back(t.second); }
  osh::Dist d(comm, osh::Remotes(dev(rk), dev(ix)), p.nroots[size_t(me)]);
  if (p.has_fan) d.set_roots2items(dev(conv<LO>(p.fan[size_t(me)])));
  return d;
}
static Pattern renumber(Pattern const& p, vector<int> const& newrank) {
  Pattern q = p;
  for (int s = 0; s < p.P; ++s) {
    auto t = p.dst[size_t(s)];
    for (auto& x : t) x.first = newrank[size_t(x.first)];
    q.dst[size_t(newrank[size_t(s)])] = t;
    q.nroots[size_t(newrank[size_t(s)])] = p.nroots[size_t(s)];
    q.fan[size_t(newrank[size_t(s)])] = p.fan[size_t(s)];
  }
  return q;
}
static void check_globals_order(Rng& r, CommPtr comm) {
  // set_dest_globals: received items are sorted by global number
  int P = comm->size(), me = comm->rank();
  vector<vector<std::pair<int, GO>>> snd(static_cast<size_t>(P));
  std::set<GO> used;
  for (int s = 0; s < P; ++s) {
    int n = int(r.below(10));
    for (int i = 0; i < n; ++i) {
      GO g = r.chance(0.2) ? GO(r.below(INT64_MAX)) : GO(r.below(500));
      int to = int(r.below(P));
      if (!used.insert(g).second) continue;
      snd[size_t(s)].push_back({to, g});
    }
  }
  vector<I32> rk; vector<GO> gl;
  for (auto& t : snd[size_t(me)]) { rk.push_back(t.first); gl.push_back(t.second); }
  osh::Dist d;
  d.set_parent_comm(comm);
  d.set_dest_ranks(dev(rk));
  d.set_dest_globals(dev(gl));
  auto got = host(d.exch(GOs(dev(gl)), 1));
  vector<GO> want;
  for (auto& s : snd) for (auto& t : s) if (t.first == me) want.push_back(t.second);
  std::sort(want.begin(), want.end());
  VP_CHECK(got == want, "dest-globals", "rank %d: items are not in the order of their global numbers", me);
  auto back = host(d.invert().exch(GOs(dev(got)), 1));
  VP_CHECK(back == gl, "dest-globals-inverse", "rank %d: inverse exchange does not return the items", me);
}
static void check_variable(Rng& r, CommPtr comm) {
  // actors with copies on several ranks and variable-sized data
  int P = comm->size(), me = comm->rank();
  int n = int(r.range(0, 8));
  vector<vector<int>> local(static_cast<size_t>(P));  // actors per rank
  vector<int> sz, own;
  for (int a = 0; a < n; ++a) {
    sz.push_back(r.chance(0.2) ? 0 : int(r.range(1, 5)));
    vector<int> on;
    for (int q = 0; q < P; ++q) if (r.chance(0.6)) on.push_back(q);
    if (on.empty()) on.push_back(int(r.below(P)));
    own.push_back(r.pick(on));
    for (int q : on) local[size_t(q)].push_back(a);
  }
  for (auto& l : local) r.shuffle(l);
  auto& L = local[size_t(me)];
  vector<I32> rk; vector<LO> ix, off{0};
  for (int a : L) {
    int o = own[size_t(a)];
    rk.push_back(o);
    ix.push_back(LO(std::find(local[size_t(o)].begin(), local[size_t(o)].end(), a) - local[size_t(o)].begin()));
    off.push_back(off.back() + sz[size_t(a)]);
  }
  osh::Dist d(comm, osh::Remotes(dev(rk), dev(ix)), LO(L.size()));
  auto v = osh::create_dist_for_variable_sized(d, dev(off));
  VP_CHECK(v.nitems() == off.back() && v.ndests() == off.back(), "variable-size", "rank %d", me);
  // owners' data reach every copy
  vector<I64> data;
  for (int a : L) for (int k = 0; k < sz[size_t(a)]; ++k) data.push_back(own[size_t(a)] == me ? a * 100 + k : -7);
  auto got = host(v.invert().exch(Read<I64>(dev(data)), 1));
  bool ok = got.size() == data.size();
  size_t at = 0;
  for (int a : L) for (int k = 0; ok && k < sz[size_t(a)]; ++k) ok = got[at++] == a * 100 + k;
  VP_CHECK(ok, "variable-sync", "rank %d: owners' variable-sized data did not reach the copies", me);
  vector<I64> ones(data.size(), 1);
  auto cnt = host(v.exch_reduce(Read<I64>(dev(ones)), 1, OMEGA_H_SUM));
  at = 0;
  for (int a : L) {
    int copies = 0;
    for (auto& l : local) copies += int(std::count(l.begin(), l.end(), a));
    for (int k = 0; ok && k < sz[size_t(a)]; ++k, ++at)
      if (at < cnt.size() && cnt[at] != (own[size_t(a)] == me ? copies : 0)) { viol("variable-reduce", fmt("rank %d: %lld contributions for %d copies", me, (long long)cnt[at], copies)); ok = false; }
  }
}
static void check_graph_comm(Rng& r, CommPtr comm) {
  int P = comm->size(), me = comm->rank();
  vector<std::set<int>> out(static_cast<size_t>(P));
  for (int s = 0; s < P; ++s) for (int t = 0; t < P; ++t) if (r.chance(0.5)) out[size_t(s)].insert(t);
  vector<int> dsts(out[size_t(me)].begin(), out[size_t(me)].end()), srcs;
  for (int s = 0; s < P; ++s) if (out[size_t(s)].count(me)) srcs.push_back(s);
  Rng lr(r.u64() + uint64_t(me));
  pause_us(lr, 300);
  auto g = comm->graph(dev(dsts));
  VP_CHECK(host(g->destinations()) == dsts && host(g->sources()) == srcs, "graph-comm", "rank %d: sources of a graph communicator", me);
  auto inv = g->graph_inverse();
  VP_CHECK(host(inv->destinations()) == srcs && host(inv->sources()) == dsts, "graph-inverse", "rank %d", me);
  each_type(r, [&](auto t) {
    using T = decltype(t);
    uint64_t salt = r.u64();
    auto got = host(g->allgather(rnd_value<T>(salt + uint64_t(me))));
    bool ok = got.size() == srcs.size();
    for (size_t i = 0; ok && i < srcs.size(); ++i) ok = same(got[i], rnd_value<T>(salt + uint64_t(srcs[i])));
    VP_CHECK(ok, "allgather", "rank %d %s", me, tname<T>());
    vector<T> v;
    for (int q : dsts) v.push_back(rnd_value<T>(salt + uint64_t(me * 100 + q)));
    got = host(g->alltoall(Read<T>(dev(v))));
    ok = got.size() == srcs.size();
    for (size_t i = 0; ok && i < srcs.size(); ++i) ok = same(got[i], rnd_value<T>(salt + uint64_t(srcs[i] * 100 + me)));
    VP_CHECK(ok, "alltoall", "rank %d %s", me, tname<T>());
    // alltoallv with at least one item per message
    int w = int(r.range(1, 4));
    auto cnt = [&](int a, int b) { return int(1 + mix64(salt + uint64_t(a * 50 + b)) % 5); };
    vector<LO> so{0}, ro{0};
    vector<T> data;
    for (int q : dsts) { so.push_back(so.back() + cnt(me, q)); for (int k = 0; k < cnt(me, q) * w; ++k) data.push_back(rnd_value<T>(salt + uint64_t(me * 10000 + q * 100 + k))); }
    for (int q : srcs) ro.push_back(ro.back() + cnt(q, me));
    bool async = r.chance(0.5);
    pause_us(lr, 600);
    Read<T> res;
    if (async) {
      auto f = g->ialltoallv(Read<T>(dev(data)), LOs(dev(so)), LOs(dev(ro)), w);
      for (int k = 0; k < 3; ++k) { count("future_polls"); if (f.completed()) { count("future_done_by_poll"); break; } }
      res = f.get();
    } else
      res = g->alltoallv(Read<T>(dev(data)), LOs(dev(so)), LOs(dev(ro)), w);
    got = host(res);
    ok = int(got.size()) == ro.back() * w;
    size_t at = 0;
    for (int q : srcs) for (int k = 0; ok && k < cnt(q, me) * w; ++k, ++at) ok = same(got[at], rnd_value<T>(salt + uint64_t(q * 10000 + me * 100 + k)));
    VP_CHECK(ok, "alltoallv", "rank %d %s width %d async %d", me, tname<T>(), w, int(async));
  });
}
// a set of copies of globals: ownership from globals, linear partitions
static void check_ownership(Rng& r, CommPtr comm) {
  int P = comm->size(), me = comm->rank();
  int n = int(r.range(0, 25));
  vector<vector<GO>> loc(static_cast<size_t>(P));
  vector<int> forced;
  vector<vector<int>> on(static_cast<size_t>(n));
  for (int g = 0; g < n; ++g) {
    for (int q = 0; q < P; ++q) if (r.chance(0.4)) on[size_t(g)].push_back(q);
    if (on[size_t(g)].empty()) on[size_t(g)].push_back(int(r.below(P)));
    forced.push_back(r.pick(on[size_t(g)]));
    for (int q : on[size_t(g)]) loc[size_t(q)].push_back(g);
  }
  for (auto& l : loc) r.shuffle(l);
  auto gl = dev(loc[size_t(me)]);
  VP_CHECK(osh::find_total_globals(comm, gl) == n, "total-globals", "rank %d", me);
  auto lp = osh::globals_to_linear_owners(comm, gl, n);
  {  // linear partition: contiguous and even
    auto hr = host(lp.ranks); auto hi = host(lp.idxs);
    vector<GO> first{0};
    for (int q = 0; q < P; ++q) first.push_back(first.back() + osh::linear_partition_size(n, P, q));
    bool ok = first.back() == n;
    for (int q = 0; q < P; ++q) {
      auto k = first[size_t(q) + 1] - first[size_t(q)];
      ok = ok && (k == n / P || k == n / P + 1);
      GO b, e;
      osh::suggest_slices(n, P, q, &b, &e);
      ok = ok && b == first[size_t(q)] && e == first[size_t(q) + 1];
    }
    for (size_t i = 0; ok && i < hr.size(); ++i) ok = hr[i] >= 0 && hr[i] < P && first[size_t(hr[i])] + hi[i] == loc[size_t(me)][i] && hi[i] < first[size_t(hr[i]) + 1] - first[size_t(hr[i])];
    VP_CHECK(ok, "linear-partition", "rank %d of %d, %d globals", me, P, n);
  }
  bool force = r.chance(0.5);
  Read<I32> own;
  if (force) { vector<I32> o; for (GO g : loc[size_t(me)]) o.push_back(forced[size_t(g)]); own = dev(o); }
  auto res = osh::owners_from_globals(comm, gl, own);
  auto hr = host(res.ranks); auto hi = host(res.idxs);
  if (hr.size() != loc[size_t(me)].size() || hi.size() != hr.size()) { viol("owners-size", "owners_from_globals"); return; }
  for (size_t i = 0; i < hr.size(); ++i) {
    GO g = loc[size_t(me)][i];
    int best = -1;
    for (int q : on[size_t(g)]) if (best < 0 || loc[size_t(q)].size() < loc[size_t(best)].size()) best = q;
    if (force) best = forced[size_t(g)];
    if (hr[i] != best) { viol("owner-choice", fmt("rank %d global %lld: owner rank %d, expected %d (%s)", me, (long long)g, hr[i], best, force ? "dictated" : "fewest copies, then smallest rank")); return; }
    auto& l = loc[size_t(best)];
    if (hi[i] < 0 || hi[i] >= int(l.size()) || l[size_t(hi[i])] != g) { viol("owner-index", fmt("rank %d global %lld: owner index %d names another global", me, (long long)g, hi[i])); return; }
  }
  count("ownerships", int64_t(hr.size()));
  // reduce to owners: any copy's data is acceptable when copies agree
  auto d = osh::copies_to_linear_owners(comm, gl);
  vector<I64> data;
  for (GO g : loc[size_t(me)]) for (int c = 0; c < 2; ++c) data.push_back(g * 10 + c);
  auto o = host(osh::reduce_data_to_owners(Read<I64>(dev(data)), d, 2));
  GO b, e;
  osh::suggest_slices(n, P, me, &b, &e);
  bool ok = GO(o.size()) == (e - b) * 2;
  for (GO g = b; ok && g < e; ++g) for (int c = 0; c < 2; ++c) ok = o[size_t((g - b) * 2 + c)] == g * 10 + c;
  VP_CHECK(ok, "reduce-to-owners", "rank %d", me);
}
static void check_messages(Rng& r, CommPtr comm) {
  int P = comm->size(), me = comm->rank();
  int root = int(r.below(P));
  each_type(r, [&](auto t) {
    using T = decltype(t);
    T want = rnd_value<T>(r.u64());
    T x = me == root ? want : T(3);
    comm->bcast(x, root);
    VP_CHECK(same(x, want), "bcast", "rank %d of %d, root %d, %s", me, P, root, tname<T>());
  });
  string want(size_t(r.below(40)), 'x');
  for (auto& c : want) c = char('a' + r.below(26));
  size_t other = size_t(r.below(20));
  string s = me == root ? want : string(other, 'q');
  comm->bcast_string(s, root);
  VP_CHECK(s == want, "bcast-string", "rank %d of %d, root %d: got '%s' for '%s'", me, P, root, s.c_str(), want.c_str());
  if (P > 1) {
    vector<Real> v;
    int n = int(r.below(20));
    for (int i = 0; i < n; ++i) v.push_back(rnd_value<Real>(uint64_t(i)));
    int to = int(r.below(P)), from = (to + 1) % P;
    if (me == from) comm->send(to, v);
    if (me == to) {
      vector<Real> w(3, 1.0);
      comm->recv(from, w);
      VP_CHECK(w.size() == v.size() && (v.empty() || std::memcmp(w.data(), v.data(), 8 * v.size()) == 0), "send-recv", "%d values, received %zu: first %.17g, sent %.17g", n, w.size(), w.empty() ? 0. : w[0], v.empty() ? 0. : v[0]);
    }
  }
}

static void case_exch(Rng& r, int64_t id) {
  auto comm = world();
  int P = comm->size();
  // possibly work in a permuted or smaller communicator
  int how = int(r.below(4));
  vector<int> order(static_cast<size_t>(P));
  for (int i = 0; i < P; ++i) order[size_t(i)] = i;
  CommPtr c = comm;
  bool in = true;
  if (how == 1) c = comm->dup();
  if (how >= 2) {
    r.shuffle(order);  // order[new] = old
    int sub = how == 3 ? int(r.range(1, P)) : P;
    int pos = int(std::find(order.begin(), order.end(), comm->rank()) - order.begin());
    in = pos < sub;
    c = comm->split(in ? 0 : 1, pos);
    VP_CHECK(c->size() == (in ? sub : P - sub) && c->rank() == (in ? pos : pos - sub), "split", "rank %d: split gave %d of %d", comm->rank(), c->rank(), c->size());
    order.resize(size_t(sub));
  }
  int n = in ? c->size() : P - int(order.size());
  Rng ra(r.u64()), rb(r.u64());
  Rng& rr = in ? ra : rb;
  auto p = gen_pattern(rr, n);
  auto d = make_dist(p, c);
  check_dist(d, p, c, rr, "dist");
  osh::Dist copy;
  copy = d;
  if (rr.chance(0.5)) {  // move to a communicator with permuted ranks
    vector<int> nr(static_cast<size_t>(n));
    for (int i = 0; i < n; ++i) nr[size_t(i)] = i;
    rr.shuffle(nr);  // nr[old] = new
    auto c2 = c->split(0, nr[size_t(c->rank())]);
    copy.change_comm(c2);
    check_dist(copy, renumber(p, nr), c2, rr, "dist after change of communicator");
    check_dist(d, p, c, rr, "dist whose copy changed its communicator");
  }
  check_globals_order(rr, c);
  check_variable(rr, c);
  check_graph_comm(rr, c);
  check_ownership(rr, c);
  check_messages(rr, c);
  // growing back to the world: ranks outside had no part
  Hash h;
  h.num(int(p.dst.size()));
  for (auto& s : p.dst) { for (auto& t : s) { h.num(t.first); h.num(t.second); } h.num(-1); }
  size_t tot = 0;
  for (auto& s : p.dst) tot += s.size();
  if (tot > 1 && (P == 1 || n > 1)) nontrivial(h.get());
  sample(fmt("%d ranks, %zu items to roots, fan %d, communicator style %d", n, tot, int(p.has_fan), how));
  (void)id;
}

// ------------------------------------------------------------ meshes
static Mesh serial_mesh(Rng& r, string& desc, bool& hyper) {
  hyper = r.chance(0.3);
  auto self = g_lib->self();
  if (hyper) {
    auto s = gen_hyper(r, int(r.range(1, 3)), 3);
    desc = s.desc;
    Mesh m(g_lib);
    osh::build_from_elems_and_coords(&m, OMEGA_H_HYPERCUBE, s.dim, dev(conv<LO>(s.ev)), dev(s.x));
    return m;
  }
  GenOpts o;
  if (r.chance(0.15)) o.max_cells = 1;
  auto s = gen_soup(r, o);
  desc = s.desc;
  return build_serial(self, s);
}
static void put_random_tags(Mesh& m, Rng& r) {
  int n = int(r.range(0, 5));
  for (int k = 0; k < n; ++k) {
    int d = int(r.range(0, m.dim()));
    auto name = fmt("t%d_%d", d, k);
    int w = int(r.pick(vector<int>{1, 1, 2, 3, 6, 9}));
    uint64_t salt = r.u64();
    each_type(r, [&](auto t) {
      using T = decltype(t);
      vector<T> v;
      for (int i = 0; i < m.nents(d) * w; ++i) v.push_back(rnd_value<T>(salt + uint64_t(i)));
      m.add_tag<T>(d, name, w, Read<T>(dev(v)));
    });
  }
  if (r.chance(0.3)) m.class_sets["set a"] = {{2, 7}, {1, 3}};
  if (r.chance(0.3)) m.class_sets["b"] = {{0, 1}};
}
using ESet = vector<std::set<GO>>;  // element globals per rank
static ESet elem_sets(World const& w) {
  ESet s;
  for (auto& p : w) s.push_back(std::set<GO>(p.e[p.dim].glob.begin(), p.e[p.dim].glob.end()));
  return s;
}
static vector<std::map<GO, int>> owner_ranks(World const& w) {
  vector<std::map<GO, int>> o(4);
  for (auto& p : w)
    for (int d = 0; d <= p.dim; ++d)
      for (int i = 0; i < p.e[d].n; ++i) if (p.e[d].orank[size_t(i)] == p.rank) o[size_t(d)][p.e[d].glob[size_t(i)]] = p.rank;
  return o;
}
// each part contains exactly the closure of its elements
static void check_closure(World const& w, Global const& g, string const& where) {
  int dim = g.dim;
  // entities of each element, by vertex sets
  std::map<vector<GO>, GO> byverts[4];
  auto sorted = [](vector<GO> v) { std::sort(v.begin(), v.end()); return v; };
  std::map<GO, vector<std::pair<int, GO>>> around;  // vertex -> lower entities around
  for (int d = 1; d < dim; ++d) for (auto& kv : g.e[d]) for (GO v : kv.second.v) around[v].push_back({d, kv.first});
  std::map<GO, vector<GO>> low[4];
  for (auto& kv : g.e[dim]) {
    std::set<GO> ev(kv.second.v.begin(), kv.second.v.end());
    low[0][kv.first] = vector<GO>(ev.begin(), ev.end());
    std::set<std::pair<int, GO>> in;
    for (GO v : ev)
      for (auto& t : around[v]) {
        auto& q = g.e[t.first].at(t.second).v;
        bool all = true;
        for (GO x : q) all = all && ev.count(x);
        if (all) in.insert(t);
      }
    for (auto& t : in) low[t.first][kv.first].push_back(t.second);
  }
  for (auto& p : w)
    for (int d = 0; d < dim; ++d) {
      std::set<GO> want;
      for (GO e : p.e[dim].glob) for (GO q : low[d][e]) want.insert(q);
      std::set<GO> have(p.e[d].glob.begin(), p.e[d].glob.end());
      if (want != have) { viol("closure", fmt("%s: rank %d holds %zu entities of dim %d, its elements use %zu", where.c_str(), p.rank, have.size(), d, want.size())); return; }
    }
}
static string global_diff(Global const& a, Global const& b, bool tags = true) {
  if (a.dim != b.dim || a.family != b.family) return "dimension or family";
  if (a.x.size() != b.x.size()) return "number of vertices";
  for (auto& kv : a.x) { auto it = b.x.find(kv.first); if (it == b.x.end() || std::memcmp(&kv.second, &it->second, sizeof kv.second)) return fmt("coordinates of vertex %lld", (long long)kv.first); }
  for (int d = 0; d <= a.dim; ++d) {
    if (a.e[d].size() != b.e[d].size()) return fmt("number of dim %d entities: %zu, was %zu", d, b.e[d].size(), a.e[d].size());
    if (tags && a.tagmeta[d] != b.tagmeta[d]) return fmt("tags of dim %d", d);
    for (auto& kv : a.e[d]) {
      auto it = b.e[d].find(kv.first);
      if (it == b.e[d].end()) return fmt("dim %d global %lld", d, (long long)kv.first);
      if (kv.second.v != it->second.v) return fmt("vertices of dim %d global %lld", d, (long long)kv.first);
      if (tags) for (auto& t : kv.second.tags) { auto jt = it->second.tags.find(t.first); if (jt == it->second.tags.end() || jt->second != t.second) return fmt("tag %s of dim %d global %lld", t.first.c_str(), d, (long long)kv.first); }
    }
  }
  return "";
}

static void case_part(Rng& r, int64_t) {
  auto comm = world();
  int P = comm->size();
  string desc;
  bool hyper = false;
  Rng mr(r.u64());
  // start on a subset of the ranks
  int sub = r.chance(0.4) ? int(r.range(1, P)) : 1;
  Mesh mesh(g_lib);
  string log;
  Global ref;
  // build on one rank
  if (comm->rank() == 0) {
    mesh = serial_mesh(mr, desc, hyper);
    put_random_tags(mesh, mr);
  }
  {
    I32 hy = hyper;
    comm->bcast(hy, 0);
    hyper = hy;
  }
  // a size field for predictive balancing
  double sizing = 0;
  if (r.chance(0.4) && !hyper) {
    sizing = std::pow(10.0, r.real(-1.5, 2.5));
    if (comm->rank() == 0) mesh.add_tag<Real>(0, "metric", 1, Reals(mesh.nverts(), sizing));
  }
  bool inside = true;
  if (sub > 1 && sub < P) {
    inside = comm->rank() < sub;
    auto c = comm->split(inside ? 0 : 1, comm->rank());
    Rng sr(r.u64());
    if (inside) {
      mesh.set_comm(c);
      scatter(mesh, sr, int(sr.below(4)));
      auto w = dump_world(&mesh);
      check_world(w, "on a sub-communicator");
      if (sr.chance(0.3)) mesh.set_parting(OMEGA_H_GHOSTED, 1, false);
    }
    log += fmt(" start on %d ranks;", sub);
    mesh.set_comm(comm);
    if (mesh.parting() != OMEGA_H_ELEM_BASED) mesh.set_parting(OMEGA_H_ELEM_BASED);
  } else
    mesh.set_comm(comm);
  auto class_sets0 = allgather_str(comm->get_impl(), [&] { string s; for (auto& kv : mesh.class_sets) { s += kv.first + ":"; for (auto& p : kv.second) s += fmt("%d,%d;", p.dim, p.id); } return s; }());
  auto w = dump_world(&mesh);
  if (!check_world(w, "after the mesh was spread by set_comm")) return;
  ref = assemble(w);
  check_closure(w, ref, "after set_comm");
  int parting = OMEGA_H_ELEM_BASED, layers = 0;
  ESet base = elem_sets(w);        // the last element-based partition
  auto baseown = owner_ranks(w);
  int steps = int(r.range(2, 7));
  int changes = 0;
  bool permuted = false;
  for (int k = 0; k < steps && ctx().nviol_case == 0; ++k) {
    int op = int(r.below(10));
    auto oldw = w;
    auto oldsets = elem_sets(w);
    string name;
    bool was_ghosted = parting == OMEGA_H_GHOSTED;
    bool through_elems = false;
    bool elem_free = false;  // a new element partition is legitimate
    bool predictive = false;
    if (op <= 2) {
      int n = int(r.range(1, 3));
      name = fmt("ghost %d layers", n);
      mesh.set_parting(OMEGA_H_GHOSTED, n, r.chance(0.1));
      // from vertex-based the element-based partition in between is a new one
      if (parting == OMEGA_H_VERT_BASED) elem_free = true;
      // so is the choice of owners where fewer layers are made from more
      through_elems = parting == OMEGA_H_GHOSTED && n < layers;
      parting = OMEGA_H_GHOSTED; layers = n;
    } else if (op == 3) {
      name = "vertex based";
      if (was_ghosted) { mesh.set_parting(OMEGA_H_ELEM_BASED); w = dump_world(&mesh); base = elem_sets(w); baseown = owner_ranks(w); }
      mesh.set_parting(OMEGA_H_VERT_BASED);
      parting = OMEGA_H_VERT_BASED; layers = 1;
    } else if (op == 4 || op == 5) {
      name = "element based";
      elem_free = parting == OMEGA_H_VERT_BASED;
      mesh.set_parting(OMEGA_H_ELEM_BASED);
      parting = OMEGA_H_ELEM_BASED; layers = 0;
    } else if (op == 6) {
      name = "migrate";
      if (parting != OMEGA_H_ELEM_BASED) mesh.set_parting(OMEGA_H_ELEM_BASED);
      Rng sr(r.u64());
      scatter(mesh, sr, int(sr.range(1, 3)));
      parting = OMEGA_H_ELEM_BASED; layers = 0; elem_free = true;
    } else if (op == 7) {
      name = "balance";
      if ((P & (P - 1)) != 0) continue;
      if (P == 1) mesh.set_parting(OMEGA_H_ELEM_BASED);
      predictive = sizing != 0 && r.chance(0.6);
      if (predictive) name = "predictive balance";
      mesh.balance(predictive);
      parting = OMEGA_H_ELEM_BASED; layers = 0; elem_free = true;
    } else if (op == 8) {
      name = "permute ranks";
      vector<int> nr(static_cast<size_t>(P));
      for (int i = 0; i < P; ++i) nr[size_t(i)] = i;
      r.shuffle(nr);
      auto c2 = mesh.comm()->split(0, nr[size_t(mesh.comm()->rank())]);
      permuted = true;  // owners are chosen by rank
      mesh.set_comm(c2);
      ESet b2(static_cast<size_t>(P));
      for (int i = 0; i < P; ++i) b2[size_t(nr[size_t(i)])] = base[size_t(i)];
      base = b2;
      for (auto& m : baseown) for (auto& kv : m) kv.second = nr[size_t(kv.second)];
      ESet o2(static_cast<size_t>(P));
      for (int i = 0; i < P; ++i) o2[size_t(nr[size_t(i)])] = oldsets[size_t(i)];
      w = dump_world(&mesh);
      if (elem_sets(w) != o2) viol("set-comm-content", "changing the communicator moved elements");
    } else {
      name = "reorder by globals";
      osh::reorder_by_globals(&mesh);
    }
    log += " " + name + ";";
    w = dump_world(&mesh);
    string where = "after" + log;
    if (!check_world(w, where)) break;
    ++changes;
    count("steps");
    VP_CHECK(int(mesh.parting()) == parting && mesh.nghost_layers() == layers, "parting", "%s: parting %d layers %d, expected %d %d", where.c_str(), int(mesh.parting()), mesh.nghost_layers(), parting, layers);
    auto g = assemble(w);
    auto df = global_diff(ref, g);
    VP_CHECK(df.empty(), "global-mesh", "%s: %s changed", where.c_str(), df.c_str());
    check_closure(w, g, where);
    auto sets = elem_sets(w);
    auto own = owner_ranks(w);
    // elements by vertices
    std::map<GO, vector<GO>> v2e;
    for (auto& kv : g.e[g.dim]) for (GO v : kv.second.v) v2e[v].push_back(kv.first);
    if (parting == OMEGA_H_ELEM_BASED) {
      std::map<GO, int> c;
      for (auto& s : sets) for (GO e : s) c[e]++;
      for (auto& kv : c) if (kv.second != 1) { viol("element-copies", fmt("%s: element %lld has %d copies", where.c_str(), (long long)kv.first, kv.second)); break; }
      if (!elem_free) VP_CHECK(sets == base, "element-assignment", "%s: the element assignment was not restored", where.c_str());
      base = sets;
      baseown = own;
      if (op == 7 && predictive) {
        // the weight of an element is the mean of one and of what it will become
        double tot = 0, top = 0, wmax = 0;
        for (auto& q : sets) {
          double mine = 0;
          for (GO e : q) {
            vector<double const*> px;
            for (GO v : g.e[g.dim].at(e).v) px.push_back(g.x.at(v).data());
            double y = 0.5 * (1 + elem_size(g.dim, px.data()) * std::pow(sizing, 0.5 * g.dim));
            mine += y; wmax = std::max(wmax, y);
          }
          tot += mine; top = std::max(top, mine);
        }
        count("predictive_balances");
        VP_CHECK(top <= tot / P + 2 * wmax * (std::log2(double(P)) + 1) + wmax, "imbalance", "%s: weight %.6g on one of %d ranks, total %.6g, largest element %.6g", where.c_str(), top, P, tot, wmax);
      } else if (op == 7) {  // balanced
        size_t mx = 0;
        for (auto& s : sets) mx = std::max(mx, s.size());
        double tol = 2.0;  // absolute tolerance of each bisection
        double lg = std::log2(double(P));
        VP_CHECK(double(mx) <= double(g.e[g.dim].size()) / P + tol * (lg + 1) + 1, "imbalance", "%s: %zu of %zu elements on one of %d ranks", where.c_str(), mx, g.e[g.dim].size(), P);
      }
    } else if (parting == OMEGA_H_GHOSTED) {
      if (elem_free) {
        // the element-based base is what each rank owns now
        base.assign(size_t(P), {});
        for (auto& kv : own[size_t(g.dim)]) base[size_t(kv.second)].insert(kv.first);
      } else if (permuted && through_elems)
        VP_CHECK(own[size_t(g.dim)] == baseown[size_t(g.dim)], "ghost-ownership", "%s: ghosting changed the ownership of elements", where.c_str());
      else
        VP_CHECK(own == baseown, "ghost-ownership", "%s: ghosting changed ownership", where.c_str());
      for (int q = 0; q < P; ++q) {
        auto s = base[size_t(q)];
        for (int l = 0; l < layers && P > 1; ++l) {
          std::set<GO> vs;
          for (GO e : s) for (GO v : g.e[g.dim].at(e).v) vs.insert(v);
          for (GO v : vs) for (GO e : v2e[v]) s.insert(e);
        }
        if (s != sets[size_t(q)]) { viol("ghost-layers", fmt("%s: rank %d has %zu elements, %d layers around its own are %zu", where.c_str(), q, sets[size_t(q)].size(), layers, s.size())); break; }
      }
      if (elem_free || (permuted && through_elems)) baseown = own;
    } else {
      if (P > 1) {
        VP_CHECK(own[0] == baseown[0], "vert-ownership", "%s: vertex ownership changed", where.c_str());
        for (int q = 0; q < P; ++q) {
          std::set<GO> s;
          for (auto& kv : own[0]) if (kv.second == q) for (GO e : v2e[kv.first]) s.insert(e);
          if (s != sets[size_t(q)]) { viol("vert-based", fmt("%s: rank %d has %zu elements, its vertices have %zu around", where.c_str(), q, sets[size_t(q)].size(), s.size())); break; }
        }
      }
    }
    // counts and predicates
    for (int d = 0; d <= g.dim; ++d) {
      VP_CHECK(mesh.nglobal_ents(d) == GO(g.e[d].size()), "nglobal", "%s: dim %d: %lld, there are %zu", where.c_str(), d, (long long)mesh.nglobal_ents(d), g.e[d].size());
      auto& e = w[size_t(mesh.comm()->rank())].e[d];
      LO no = 0;
      auto ow = host(mesh.owned(d));
      bool ok = int(ow.size()) == e.n;
      for (int i = 0; ok && i < e.n; ++i) { ok = (ow[size_t(i)] != 0) == (e.orank[size_t(i)] == mesh.comm()->rank()); no += ow[size_t(i)] != 0; }
      VP_CHECK(ok && mesh.nents_owned(d) == no, "owned", "%s: dim %d", where.c_str(), d);
      // mesh queries about sharing
      if (!mesh.could_be_shared(d)) VP_CHECK(no == e.n, "could-be-shared", "%s: dim %d said not shared, has %d copies", where.c_str(), d, e.n - no);
      if (mesh.owners_have_all_upward(d) && d < g.dim) {
        // an owner must have every element around it
        std::map<GO, int> total;
        for (auto& kv : g.e[g.dim]) (void)kv;
        if (d == 0) {
          auto& ge = w[size_t(mesh.comm()->rank())].e[0].glob;
          auto& mine = sets[size_t(mesh.comm()->rank())];
          for (int i = 0; i < e.n; ++i) if (ow[size_t(i)]) for (GO el : v2e[ge[size_t(i)]]) if (!mine.count(el)) { viol("upward-promise", fmt("%s: an owned vertex lacks an element around it", where.c_str())); i = e.n; break; }
        }
      }
    }
    auto cs = allgather_str(comm->get_impl(), [&] { string s; for (auto& kv : mesh.class_sets) { s += kv.first + ":"; for (auto& p : kv.second) s += fmt("%d,%d;", p.dim, p.id); } return s; }());
    VP_CHECK(cs == class_sets0, "class-sets", "%s: classification sets changed", where.c_str());
  }
  auto dom = allgather_str(comm->get_impl(), desc)[0];
  if (changes && ref.e[ref.dim].size() > 1) nontrivial(hash_str(dom + log));
  sample(dom + " ::" + log);
}

// ------------------------------------------------------------ mesh data synchronisation
static void case_sync(Rng& r, int64_t) {
  auto comm = world();
  string desc;
  bool hyper = false;
  Rng mr(r.u64()), sr(r.u64());
  Mesh mesh(g_lib);
  if (comm->rank() == 0) mesh = serial_mesh(mr, desc, hyper);
  mesh.set_comm(comm);
  scatter(mesh, sr, int(sr.below(4)));
  int pt = int(r.below(4));
  if (pt == 1) mesh.set_parting(OMEGA_H_GHOSTED, 1, false);
  if (pt == 2) mesh.set_parting(OMEGA_H_VERT_BASED);
  if (pt == 3) mesh.set_parting(OMEGA_H_GHOSTED, 2, false);
  auto w = dump_world(&mesh, false);
  if (!check_world(w, "sync set-up")) return;
  int me = comm->rank(), P = comm->size();
  int64_t moved = 0;
  Rng lr(r.u64() ^ uint64_t(me) * 999u);
  for (int d = 0; d <= mesh.dim(); ++d) {
    auto& e = w[size_t(me)].e[d];
    each_type(r, [&](auto t) {
      using T = decltype(t);
      int wd = int(r.pick(vector<int>{1, 1, 2, 3}));
      uint64_t salt = r.u64();
      auto val = [&](int rank, int i, int c) { return rnd_value<T>(valkey(salt, rank, i, c)); };
      vector<T> v = make_data<T>(salt, me, e.n, wd);
      auto expect_sync = [&](vector<T> const& got, char const* what) {
        bool ok = int(got.size()) == e.n * wd;
        for (int i = 0; ok && i < e.n; ++i) for (int c = 0; ok && c < wd; ++c) ok = same(got[size_t(i * wd + c)], val(e.orank[size_t(i)], e.oidx[size_t(i)], c));
        VP_CHECK(ok, what, "dim %d %s width %d rank %d: a copy did not get its owner's value", d, tname<T>(), wd, me);
      };
      expect_sync(host(mesh.sync_array(d, Read<T>(dev(v)), wd)), "sync-array");
      {
        pause_us(lr, 400);
        auto f = mesh.isync_array(d, Read<T>(dev(v)), wd);
        int polls = int(r.below(4));
        for (int k = 0; k < polls; ++k) { count("future_polls"); if (f.completed()) { count("future_done_by_poll"); break; } }
        expect_sync(host(f.get()), "isync-array");
      }
      for (int i = 0; i < e.n; ++i) moved += e.orank[size_t(i)] != me;
      // tags
      mesh.add_tag<T>(d, "s", wd, Read<T>(dev(v)));
      mesh.sync_tag(d, "s");
      expect_sync(host(mesh.get_array<T>(d, "s")), "sync-tag");
      mesh.remove_tag(d, "s");
      // subset: a subset that contains the owners of its copies
      vector<LO> a2e;
      auto chosen = [&](GO g) { return mix64(salt ^ uint64_t(g) * 31u) % 3 != 0; };
      for (int i = 0; i < e.n; ++i) if (chosen(e.glob[size_t(i)])) a2e.push_back(i);
      vector<T> sv;
      for (LO i : a2e) for (int c = 0; c < wd; ++c) sv.push_back(v[size_t(i * wd + c)]);
      auto got = host(mesh.sync_subset_array(d, Read<T>(dev(sv)), LOs(dev(a2e)), T(1), wd));
      bool ok = got.size() == sv.size();
      for (size_t k = 0; ok && k < a2e.size(); ++k) for (int c = 0; ok && c < wd; ++c) ok = same(got[k * size_t(wd) + size_t(c)], val(e.orank[size_t(a2e[k])], e.oidx[size_t(a2e[k])], c));
      VP_CHECK(ok, "sync-subset", "dim %d %s width %d rank %d", d, tname<T>(), wd, me);
      // owned values only, in local order
      vector<T> want;
      for (int i = 0; i < e.n; ++i) if (e.orank[size_t(i)] == me || !mesh.could_be_shared(d)) for (int c = 0; c < wd; ++c) want.push_back(v[size_t(i * wd + c)]);
      got = host(mesh.owned_array(d, Read<T>(dev(v)), wd));
      VP_CHECK(got.size() == want.size() && (want.empty() || !std::memcmp(got.data(), want.data(), want.size() * sizeof(T))), "owned-array", "dim %d %s", d, tname<T>());
    });
    each_type(r, [&](auto t) {
      using T = decltype(t);
      int wd = int(r.range(1, 3));
      uint64_t salt = r.u64();
      auto op = r.pick(vector<Omega_h_Op>{OMEGA_H_MIN, OMEGA_H_MAX, OMEGA_H_SUM});
      auto val = [&](int rank, int i, int c) { return small_value<T>(valkey(salt, rank, i, c), op); };
      vector<T> v;
      for (int i = 0; i < e.n; ++i) for (int c = 0; c < wd; ++c) v.push_back(val(me, i, c));
      std::map<std::pair<int, int>, vector<double>> want;  // owner -> reduction
      for (int q = 0; q < P; ++q) {
        auto& f = w[size_t(q)].e[d];
        for (int i = 0; i < f.n; ++i) {
          auto k = std::make_pair(f.orank[size_t(i)], f.oidx[size_t(i)]);
          bool fresh = !want.count(k);
          auto& o = want[k];
          o.resize(size_t(wd));
          for (int c = 0; c < wd; ++c) {
            double x = double(val(q, i, c));
            auto& y = o[size_t(c)];
            y = fresh ? x : op == OMEGA_H_MIN ? std::min(x, y) : op == OMEGA_H_MAX ? std::max(x, y) : x + y;
          }
        }
      }
      auto check = [&](vector<T> const& got, bool copies, char const* what) {
        bool ok = int(got.size()) == e.n * wd;
        for (int i = 0; ok && i < e.n; ++i) {
          bool owned = e.orank[size_t(i)] == me;
          if (!owned && !copies) continue;
          for (int c = 0; ok && c < wd; ++c) ok = got[size_t(i * wd + c)] == T(want[{e.orank[size_t(i)], e.oidx[size_t(i)]}][size_t(c)]);
        }
        VP_CHECK(ok, what, "dim %d %s op %d width %d rank %d: reduction over copies is wrong", d, tname<T>(), int(op), wd, me);
      };
      check(host(mesh.reduce_array(d, Read<T>(dev(v)), wd, op)), false, "reduce-array");
      mesh.add_tag<T>(d, "s", wd, Read<T>(dev(v)));
      mesh.reduce_tag(d, "s", op);
      check(host(mesh.get_array<T>(d, "s")), false, "reduce-tag");
      mesh.sync_tag(d, "s");
      check(host(mesh.get_array<T>(d, "s")), true, "reduce-then-sync");
      mesh.remove_tag(d, "s");
    });
    // new global numbers from owners
    auto gl = mesh.could_be_shared(d) ? host(osh::globals_from_owners(&mesh, d)) : host(osh::globals_from_owners(&mesh, d));
    bool ok = int(gl.size()) == e.n;
    GO first = 0;
    for (int q = 0; q < me; ++q) for (int i = 0; i < w[size_t(q)].e[d].n; ++i) first += w[size_t(q)].e[d].orank[size_t(i)] == q;
    auto rank_of = [&](int q, int idx) {  // global of owned entity idx of rank q
      GO f = 0;
      for (int s = 0; s < q; ++s) for (int i = 0; i < w[size_t(s)].e[d].n; ++i) f += w[size_t(s)].e[d].orank[size_t(i)] == s;
      for (int i = 0; i < idx; ++i) f += w[size_t(q)].e[d].orank[size_t(i)] == q;
      return f;
    };
    for (int i = 0; ok && i < e.n; ++i) ok = gl[size_t(i)] == rank_of(e.orank[size_t(i)], e.oidx[size_t(i)]);
    VP_CHECK(ok, "globals-from-owners", "dim %d rank %d", d, me);
  }
  // collective values of the mesh
  auto all = allgather_str(comm->get_impl(), fmt("%lld", (long long)moved));
  int64_t tot = 0;
  for (auto& s : all) tot += std::atoll(s.c_str());
  auto dom = allgather_str(comm->get_impl(), desc)[0];
  if (tot > 0 || P == 1) nontrivial(hash_str(dom + fmt("%d", pt)));
  sample(dom + fmt(" parting style %d, %lld copies", pt, (long long)tot));
}

// ------------------------------------------------------------ construction
static Soup soup_of(Rng& r, bool& hyper) {
  hyper = r.chance(0.3);
  if (hyper) return gen_hyper(r, int(r.range(1, 3)), 3);
  GenOpts o;
  o.holes = true;
  return gen_soup(r, o);
}
// what the serial library makes of the same elements, keyed by vertices
static void compare_built(World const& w, Soup const& s, int nvpe, bool hyper, vector<int> const& elem_of_global, string const& where, bool exact_order = true) {
  if (!check_world(w, where)) return;
  auto g = assemble(w);
  int dim = s.dim;
  VP_CHECK(g.family == (hyper ? OMEGA_H_HYPERCUBE : OMEGA_H_SIMPLEX), "family", "%s", where.c_str());
  if (int(g.e[0].size()) != s.nv() || int(g.e[dim].size()) != s.ne()) { viol("counts", fmt("%s: %zu vertices, %zu elements; given %d and %d", where.c_str(), g.e[0].size(), g.e[dim].size(), s.nv(), s.ne())); return; }
  for (int e = 0; e < s.ne(); ++e) {
    int src = elem_of_global[size_t(e)];
    auto& v = g.e[dim].at(e).v;
    vector<GO> want(s.ev.begin() + src * nvpe, s.ev.begin() + (src + 1) * nvpe);
    auto a = v, b = want;
    std::sort(a.begin(), a.end());
    std::sort(b.begin(), b.end());
    if (exact_order ? v != want : a != b) { viol("element-verts", fmt("%s: element %d has other vertices than given", where.c_str(), e)); return; }
  }
  if (!g.x.empty()) for (auto& kv : g.x) for (int j = 0; j < dim; ++j) if (!biteq(kv.second[size_t(j)], s.x[size_t(kv.first * dim + j)])) { viol("coords", fmt("%s: vertex %lld", where.c_str(), (long long)kv.first)); return; }
  // lower entities: the same set as derived by brute force
  if (!hyper) {
    for (int d = 1; d < dim; ++d) {
      std::set<VKey> want, have;
      for (int e = 0; e < s.ne(); ++e) { VKey k(s.ev.begin() + e * nvpe, s.ev.begin() + (e + 1) * nvpe); for (auto& q : subsets(k, d + 1)) want.insert(q); }
      for (auto& kv : g.e[d]) { VKey k(kv.second.v.begin(), kv.second.v.end()); std::sort(k.begin(), k.end()); if (!have.insert(k).second) { viol("duplicate-entity", fmt("%s: dim %d", where.c_str(), d)); return; } }
      VP_CHECK(want == have, "lower-entities", "%s: dim %d: %zu entities, expected %zu", where.c_str(), d, have.size(), want.size());
    }
  } else {
    static int const Q[6][4] = {{0, 1, 2, 3}, {4, 5, 6, 7}, {0, 1, 5, 4}, {1, 2, 6, 5}, {2, 3, 7, 6}, {3, 0, 4, 7}};
    static int const E[12][2] = {{0, 1}, {1, 2}, {2, 3}, {3, 0}, {4, 5}, {5, 6}, {6, 7}, {7, 4}, {0, 4}, {1, 5}, {2, 6}, {3, 7}};
    for (int d = 1; d < dim; ++d) {
      std::set<VKey> want, have;
      int n = d == 2 ? 6 : dim == 3 ? 12 : 4;
      for (int e = 0; e < s.ne(); ++e)
        for (int k = 0; k < n; ++k) {
          VKey q;
          for (int j = 0; j < (d == 2 ? 4 : 2); ++j) q.push_back(s.ev[size_t(e * nvpe + (d == 2 ? Q[k][j] : E[k][j]))]);
          std::sort(q.begin(), q.end());
          want.insert(q);
        }
      for (auto& kv : g.e[d]) { VKey k(kv.second.v.begin(), kv.second.v.end()); std::sort(k.begin(), k.end()); if (!have.insert(k).second) { viol("duplicate-entity", fmt("%s: dim %d", where.c_str(), d)); return; } }
      VP_CHECK(want == have, "lower-entities", "%s: dim %d: %zu entities, expected %zu", where.c_str(), d, have.size(), want.size());
    }
  }
  if (!hyper) check_simplex(g, where);
  check_closure(w, g, where);
}
static void check_box(Rng& r) {
  auto comm = world();
  int P = comm->size();
  if (P & (P - 1)) return;
  bool hyper = r.chance(0.4);
  bool sym = !hyper && r.chance(0.4);
  int dim = int(r.range(1, 3));
  int n[3] = {int(r.range(1, dim == 3 ? 4 : 7)), dim > 1 ? int(r.range(1, dim == 3 ? 4 : 7)) : 0, dim > 2 ? int(r.range(1, 4)) : 0};
  double l[3] = {r.pick(vector<double>{1.0, 0.5, 3.7, 1e-3, 250}), r.pick(vector<double>{1.0, 0.5, 2.2}), r.pick(vector<double>{1.0, 4.0})};
  if (dim == 1) sym = false;
  string where = fmt("build_box %s %gx%gx%g %dx%dx%d sym %d", hyper ? "hypercube" : "simplex", l[0], l[1], l[2], n[0], n[1], n[2], int(sym));
  auto mesh = osh::build_box(comm, hyper ? OMEGA_H_HYPERCUBE : OMEGA_H_SIMPLEX, l[0], l[1], l[2], n[0], n[1], n[2], sym);
  auto w = dump_world(&mesh);
  if (!check_world(w, where)) return;
  auto g = assemble(w);
  int cells = n[0] * std::max(1, n[1]) * std::max(1, n[2]);
  int64_t gv = 1;
  for (int i = 0; i < dim; ++i) gv *= n[i] + 1;
  int64_t ne = cells, nv = gv;
  if (!hyper) {
    if (dim == 2) { ne = cells * (sym ? 4 : 2); if (sym) nv += cells; }
    if (dim == 3) {
      if (sym) {  // a vertex in every cell and every face, 24 tetrahedra
        int64_t faces = 0;
        faces += int64_t(n[0] + 1) * n[1] * n[2] + int64_t(n[0]) * (n[1] + 1) * n[2] + int64_t(n[0]) * n[1] * (n[2] + 1);
        ne = cells * 24; nv = gv + cells + faces;
      } else
        ne = -1;  // 5 or 6 per cell
    }
  }
  if (ne < 0) VP_CHECK(int64_t(g.e[dim].size()) >= 5 * cells && int64_t(g.e[dim].size()) <= 6 * cells, "box-count", "%s: %zu elements", where.c_str(), g.e[dim].size());
  else VP_CHECK(int64_t(g.e[dim].size()) == ne, "box-count", "%s: %zu elements, expected %lld", where.c_str(), g.e[dim].size(), (long long)ne);
  VP_CHECK(int64_t(g.e[0].size()) == nv, "box-verts", "%s: %zu vertices, expected %lld", where.c_str(), g.e[0].size(), (long long)nv);
  // volume, extent, grid points, classification
  double lo[3] = {1e300, 1e300, 1e300}, hi[3] = {-1e300, -1e300, -1e300}, vol = 0, tot = 1;
  for (int i = 0; i < dim; ++i) tot *= l[i];
  for (auto& kv : g.x) for (int i = 0; i < dim; ++i) { lo[i] = std::min(lo[i], kv.second[size_t(i)]); hi[i] = std::max(hi[i], kv.second[size_t(i)]); }
  for (int i = 0; i < dim; ++i) VP_CHECK(lo[i] == 0 && std::fabs(hi[i] - l[i]) <= 1e-14 * l[i], "box-extent", "%s: axis %d spans %g..%g", where.c_str(), i, lo[i], hi[i]);
  if (!hyper) {
    if (!check_simplex(g, where)) return;
    for (auto& kv : g.e[dim]) { vector<double const*> p; for (GO v : kv.second.v) p.push_back(g.x[v].data()); vol += elem_size(dim, p.data()); }
    VP_CHECK(std::fabs(vol - tot) <= 1e-12 * tot, "box-volume", "%s: volume %.17g of %.17g", where.c_str(), vol, tot);
  } else {
    // each cell once
    std::set<std::array<int, 3>> cellset;
    for (auto& kv : g.e[dim]) {
      std::array<int, 3> c{{1 << 30, 1 << 30, 1 << 30}};
      std::set<std::array<int, 3>> corner;
      for (GO v : kv.second.v) { std::array<int, 3> q{{0, 0, 0}}; for (int i = 0; i < dim; ++i) q[size_t(i)] = int(std::lround(g.x[v][size_t(i)] / l[i] * n[i])); corner.insert(q); for (int i = 0; i < 3; ++i) c[size_t(i)] = std::min(c[size_t(i)], q[size_t(i)]); }
      bool ok = int(corner.size()) == 1 << dim;
      for (auto& q : corner) for (int i = 0; i < dim; ++i) ok = ok && q[size_t(i)] <= c[size_t(i)] + 1;
      if (!ok || !cellset.insert(c).second) { viol("box-cell", where); break; }
    }
    VP_CHECK(int(cellset.size()) == cells, "box-cells", "%s", where.c_str());
  }
  // grid vertices are at the grid points
  {
    int64_t found = 0;
    for (auto& kv : g.x) {
      bool on = true;
      for (int i = 0; i < dim; ++i) { double q = kv.second[size_t(i)] / l[i] * n[i]; on = on && std::fabs(q - std::lround(q)) < 1e-9; }
      found += on;
    }
    VP_CHECK(found == gv, "box-grid", "%s: %lld vertices at grid points, expected %lld", where.c_str(), (long long)found, (long long)gv);
  }
  // classification by position: 3^dim model entities
  for (int d = 0; d <= dim; ++d)
    for (auto& kv : g.e[d]) {
      vector<GO> vs = d ? kv.second.v : vector<GO>{kv.first};
      int id = 0, cd = 0;
      for (int j = dim - 1; j >= 0; --j) {
        bool allhi = true, alllo = true;
        for (GO v : vs) { double q = g.x[v][size_t(j)]; allhi = allhi && q >= l[j] * (1 - 1e-12); alllo = alllo && q == 0; }
        id = id * 3 + (allhi ? 2 : alllo ? 0 : 1);
        cd += !(allhi || alllo);
      }
      if (tagval<I8>(kv.second, "class_dim") != cd || tagval<LO>(kv.second, "class_id") != id) {
        viol("box-class", fmt("%s: dim %d entity classified (%d,%d), lies on (%d,%d)", where.c_str(), d, int(tagval<I8>(kv.second, "class_dim")), tagval<LO>(kv.second, "class_id"), cd, id));
        return;
      }
    }
  auto sets = osh::get_box_class_sets(dim);
  bool same_sets = sets.size() == mesh.class_sets.size() && int(sets.size()) == 2 * dim + 1;
  for (auto& kv : sets) {
    auto it = mesh.class_sets.find(kv.first);
    if (it == mesh.class_sets.end() || it->second.size() != 1 || kv.second.size() != 1) { same_sets = false; break; }
    int ax = kv.first == "body" ? -1 : kv.first[0] - 'x';
    int id = 0;
    for (int j = dim - 1; j >= 0; --j) id = id * 3 + (j == ax ? (kv.first[1] == '-' ? 0 : 2) : 1);
    same_sets = same_sets && it->second[0].dim == (ax < 0 ? dim : dim - 1) && it->second[0].id == id;
  }
  VP_CHECK(same_sets, "box-sets", "%s: classification sets on rank %d", where.c_str(), comm->rank());
  if (sym) {  // reflection of every element in each axis is an element
    std::map<std::array<double, 3>, GO> at;
    auto key = [&](std::array<double, 3> x) { for (int i = 0; i < dim; ++i) x[size_t(i)] = std::round(x[size_t(i)] / l[i] * n[i] * 2 * 1000) / 1000 + 0.0; return x; };
    for (auto& kv : g.x) at[key(kv.second)] = kv.first;
    std::set<vector<GO>> els;
    auto srt = [](vector<GO> v) { std::sort(v.begin(), v.end()); return v; };
    for (auto& kv : g.e[dim]) els.insert(srt(kv.second.v));
    for (int ax = 0; ax < dim; ++ax)
      for (auto& kv : g.e[dim]) {
        vector<GO> m;
        for (GO v : kv.second.v) { auto x = g.x[v]; x[size_t(ax)] = l[ax] - x[size_t(ax)]; auto it = at.find(key(x)); m.push_back(it == at.end() ? -1 : it->second); }
        if (!els.count(srt(m))) { viol("box-symmetry", fmt("%s: axis %d: the reflection of an element is not an element", where.c_str(), ax)); return; }
      }
  }
  count("boxes");
}
// cells split into simplices: fill every cell exactly, and neighbours agree on their common face
static void check_split(Rng& r) {
  int dim = int(r.range(2, 3));
  auto s = gen_hyper(r, dim, 4);
  bool sym = r.chance(0.3);
  string where = fmt("%s split of %s", sym ? "symmetric" : "plain", s.desc.c_str());
  vector<double> x = s.x;
  vector<LO> ev;
  size_t nvc = size_t(1) << dim, nvs = size_t(dim + 1);
  double cell = 1;
  { // cell volume from its extent
    for (int i = 0; i < dim; ++i) { double lo = 1e300, hi = -1e300; for (size_t k = 0; k < nvc; ++k) { double y = x[size_t(s.ev[k] * dim + i)]; lo = std::min(lo, y); hi = std::max(hi, y); } cell *= hi - lo; }
  }
  if (!sym) {
    auto cv = dev(conv<LO>(s.ev));
    ev = host(dim == 2 ? osh::tris_from_quads(cv) : osh::tets_from_hexes(cv));
  } else {
    Mesh m(g_lib);
    osh::build_from_elems_and_coords(&m, OMEGA_H_HYPERCUBE, dim, dev(conv<LO>(s.ev)), dev(s.x));
    if (dim == 2) osh::tris_from_quads_symmetric(&m); else osh::tets_from_hexes_symmetric(&m);
    ev = host(m.ask_elem_verts());
    x = host(m.coords());
    VP_CHECK(m.family() == OMEGA_H_SIMPLEX && m.dim() == dim, "split", "%s: family or dimension", where.c_str());
  }
  int ne = int(ev.size() / nvs);
  int nc = s.ne();
  if (sym) VP_CHECK(ne == nc * (dim == 2 ? 4 : 24), "split-count", "%s: %d elements for %d cells", where.c_str(), ne, nc);
  else if (dim == 2) VP_CHECK(ne == 2 * nc, "split-count", "%s: %d triangles for %d quads", where.c_str(), ne, nc);
  else VP_CHECK(ne >= 5 * nc && ne <= 6 * nc, "split-count", "%s: %d tets for %d hexes", where.c_str(), ne, nc);
  // each element inside one cell's box, oriented, and each cell's volume filled
  vector<double> vol(size_t(nc), 0.0);
  std::map<vector<double>, int> boxof;
  vector<vector<double>> box(static_cast<size_t>(nc));
  for (int c = 0; c < nc; ++c) for (int i = 0; i < dim; ++i) { double lo = 1e300, hi = -1e300; for (size_t k = 0; k < nvc; ++k) { double y = x[size_t(s.ev[size_t(c) * nvc + k] * dim + i)]; lo = std::min(lo, y); hi = std::max(hi, y); } box[size_t(c)].push_back(lo); box[size_t(c)].push_back(hi); }
  std::map<vector<LO>, std::pair<int, double>> faces;
  double area_open = 0;
  for (int e = 0; e < ne; ++e) {
    vector<double const*> p;
    vector<double> mid(size_t(dim), 0.0);
    for (size_t k = 0; k < nvs; ++k) { p.push_back(&x[size_t(ev[size_t(e) * nvs + k]) * size_t(dim)]); for (int i = 0; i < dim; ++i) mid[size_t(i)] += p.back()[i] / double(nvs); }
    double v = elem_size(dim, p.data());
    if (!(v > 1e-3 * cell)) { viol("split-inverted", fmt("%s: element %d has size %g, cells %g", where.c_str(), e, v, cell)); return; }
    int in = -1;
    for (int c = 0; c < nc; ++c) { bool ok = true; for (int i = 0; i < dim; ++i) ok = ok && mid[size_t(i)] > box[size_t(c)][size_t(2 * i)] && mid[size_t(i)] < box[size_t(c)][size_t(2 * i + 1)]; if (ok) in = c; }
    if (in < 0) { viol("split-outside", fmt("%s: element %d lies in no cell", where.c_str(), e)); return; }
    for (auto q : p) for (int i = 0; i < dim; ++i) if (q[i] < box[size_t(in)][size_t(2 * i)] || q[i] > box[size_t(in)][size_t(2 * i + 1)]) { viol("split-outside", fmt("%s: element %d reaches out of its cell", where.c_str(), e)); return; }
    vol[size_t(in)] += v;
    for (size_t k = 0; k < nvs; ++k) {
      vector<LO> f;
      vector<double const*> fp;
      for (size_t j = 0; j < nvs; ++j) if (j != k) { f.push_back(ev[size_t(e) * nvs + j]); fp.push_back(p[j]); }
      double a;
      if (dim == 2) a = std::hypot(fp[1][0] - fp[0][0], fp[1][1] - fp[0][1]);
      else {
        double u[3], w[3];
        for (int i = 0; i < 3; ++i) { u[i] = fp[1][i] - fp[0][i]; w[i] = fp[2][i] - fp[0][i]; }
        double n0 = u[1] * w[2] - u[2] * w[1], n1 = u[2] * w[0] - u[0] * w[2], n2 = u[0] * w[1] - u[1] * w[0];
        a = 0.5 * std::sqrt(n0 * n0 + n1 * n1 + n2 * n2);
      }
      std::sort(f.begin(), f.end());
      auto& q = faces[f];
      ++q.first; q.second = a;
    }
  }
  for (int c = 0; c < nc; ++c) if (!(std::fabs(vol[size_t(c)] - cell) <= 1e-12 * cell)) { viol("split-volume", fmt("%s: cell %d is filled to %.15g of %.15g", where.c_str(), c, vol[size_t(c)], cell)); return; }
  for (auto& kv : faces) { if (kv.second.first > 2) { viol("split-face", fmt("%s: a face has %d elements", where.c_str(), kv.second.first)); return; } if (kv.second.first == 1) area_open += kv.second.second; }
  // open faces must be just those of the cells
  double want = 0;
  for (int c = 0; c < nc; ++c)
    for (int i = 0; i < dim; ++i)
      for (int up = 0; up < 2; ++up) {
        bool open = true;
        for (int d = 0; d < nc; ++d) {
          bool nb = d != c && box[size_t(d)][size_t(2 * i + 1 - up)] == box[size_t(c)][size_t(2 * i + up)];
          for (int j = 0; j < dim; ++j) if (j != i) nb = nb && box[size_t(d)][size_t(2 * j)] == box[size_t(c)][size_t(2 * j)];
          if (nb) open = false;
        }
        if (open) { double a = 1; for (int j = 0; j < dim; ++j) if (j != i) a *= box[size_t(c)][size_t(2 * j + 1)] - box[size_t(c)][size_t(2 * j)]; want += a; }
      }
  VP_CHECK(std::fabs(area_open - want) <= 1e-10 * want, "split-conforming", "%s: faces of one element measure %.15g, the cells' boundary %.15g", where.c_str(), area_open, want);
  count("splits_checked");
}
static void case_build(Rng& r, int64_t) {
  auto comm = world();
  int P = comm->size(), me = comm->rank();
  bool hyper = false;
  auto s = soup_of(r, hyper);
  int nvpe = hyper ? 1 << s.dim : s.dim + 1;
  int ne = s.ne(), nv = s.nv();
  auto fam = hyper ? OMEGA_H_HYPERCUBE : OMEGA_H_SIMPLEX;
  int style = int(r.below(4));
  string where;
  bool pow2 = (P & (P - 1)) == 0;
  if (r.chance(0.35)) check_box(r);
  if (r.chance(0.4)) check_split(r);
  if (style <= 1) {
    // connectivity already distributed, with global vertex numbers
    int kind = int(r.below(4));
    vector<int> part(static_cast<size_t>(ne));
    int only = int(r.below(P));
    for (int e = 0; e < ne; ++e) part[size_t(e)] = kind == 0 ? int(r.below(P)) : kind == 1 ? int(int64_t(e) * P / ne) : kind == 2 ? only : int(r.below(std::max(1, P - 1)));
    vector<int> order;  // global element order: by rank, then as given locally
    vector<vector<int>> mine(static_cast<size_t>(P));
    for (int e = 0; e < ne; ++e) mine[size_t(part[size_t(e)])].push_back(e);
    bool shuffle_e = r.chance(0.5), sorted = r.chance(0.5);
    for (auto& m : mine) { if (shuffle_e) r.shuffle(m); for (int e : m) order.push_back(e); }
    vector<GO> vg;
    vector<LO> ev;
    vector<vector<int>> lv(static_cast<size_t>(P));
    for (int q = 0; q < P; ++q) {
      std::set<int> u;
      for (int e : mine[size_t(q)]) for (int j = 0; j < nvpe; ++j) u.insert(s.ev[size_t(e * nvpe + j)]);
      lv[size_t(q)].assign(u.begin(), u.end());
      if (!sorted) r.shuffle(lv[size_t(q)]);
    }
    std::map<int, int> loc;
    for (int v : lv[size_t(me)]) { loc[v] = int(vg.size()); vg.push_back(v); }
    for (int e : mine[size_t(me)]) for (int j = 0; j < nvpe; ++j) ev.push_back(loc[s.ev[size_t(e * nvpe + j)]]);
    Mesh mesh(g_lib);
    bool with_elem_globals = r.chance(0.4);
    if (with_elem_globals) {
      // as the parallel VTK reader does: arbitrary element numbers
      vector<int> eg(static_cast<size_t>(ne));
      for (int i = 0; i < ne; ++i) eg[size_t(i)] = i;
      bool asc = r.chance(0.5);
      if (!asc) r.shuffle(eg);
      vector<GO> myeg;
      vector<int> of(static_cast<size_t>(ne));
      for (int e = 0; e < ne; ++e) of[size_t(eg[size_t(e)])] = e;
      for (int e : mine[size_t(me)]) myeg.push_back(eg[size_t(e)]);
      mesh.set_comm(comm);
      mesh.set_parting(OMEGA_H_ELEM_BASED);
      mesh.set_family(fam);
      mesh.set_dim(s.dim);
      osh::build_verts_from_globals(&mesh, GOs(dev(vg)));
      osh::build_ents_from_elems2verts(&mesh, LOs(dev(ev)), GOs(dev(vg)), GOs(dev(myeg)));
      order = of;
      where = "build from distributed elements with globals";
      if (P == 1) { for (int i = 0; i < ne; ++i) order[size_t(i)] = mine[0][size_t(i)]; }
    } else {
      osh::build_from_elems2verts(&mesh, comm, fam, s.dim, LOs(dev(ev)), GOs(dev(vg)));
      where = "build from distributed elements";
    }
    {  // coordinates, in the mesh's own vertex order
      auto gl = host(mesh.globals(0));
      vector<double> x;
      for (GO v : gl) for (int j = 0; j < s.dim; ++j) x.push_back(v >= 0 && v < nv ? s.x[size_t(v * s.dim + j)] : 0);
      mesh.add_coords(dev(x));
    }
    auto w = dump_world(&mesh);
    compare_built(w, s, nvpe, hyper, order, where + fmt(" (sorted %d, style %d)", int(sorted), kind));
    auto sets = elem_sets(w);
    VP_CHECK(ctx().nviol_case || sets[size_t(me)].size() == mine[size_t(me)].size(), "build-moved", "%s: elements moved to other ranks", where.c_str());
    // usable afterwards
    if (ctx().nviol_case == 0 && r.chance(0.5)) {
      mesh.set_parting(OMEGA_H_GHOSTED, 1, false);
      compare_built(dump_world(&mesh), s, nvpe, hyper, order, where + ", then ghosted");
    }
  } else if (style == 2) {
    if (!pow2) return;
    // slices of the arrays
    where = "assemble_slices";
    GO eb, ee, vb, ve;
    osh::suggest_slices(ne, P, me, &eb, &ee);
    osh::suggest_slices(nv, P, me, &vb, &ve);
    vector<GO> conn;
    for (GO e = eb; e < ee; ++e) for (int j = 0; j < nvpe; ++j) conn.push_back(s.ev[size_t(e * nvpe + j)]);
    vector<double> x(s.x.begin() + vb * s.dim, s.x.begin() + ve * s.dim);
    osh::Dist se2e, sv2v;
    LOs out;
    osh::assemble_slices(comm, fam, s.dim, ne, eb, GOs(dev(conn)), nv, vb, Reals(dev(x)), &se2e, &out, &sv2v);
    auto eg = host(se2e.exch(GOs(ee - eb, eb, 1), 1));
    auto vg = sv2v.exch(GOs(ve - vb, vb, 1), 1);
    auto cx = host(sv2v.exch(Reals(dev(x)), s.dim));
    auto hv = host(vg);
    auto ho = host(out);
    bool ok = ho.size() == eg.size() * size_t(nvpe) && std::is_sorted(hv.begin(), hv.end());
    for (size_t i = 0; ok && i < eg.size(); ++i) for (int j = 0; ok && j < nvpe; ++j) { int v = ho[i * size_t(nvpe) + size_t(j)]; ok = v >= 0 && v < int(hv.size()) && hv[size_t(v)] == s.ev[size_t(eg[i] * nvpe + j)]; }
    VP_CHECK(ok, "slices-conn", "%s: rank %d: connectivity does not match the elements received", where.c_str(), me);
    for (size_t i = 0; ok && i < hv.size(); ++i) for (int j = 0; ok && j < s.dim; ++j) ok = biteq(cx[i * size_t(s.dim) + size_t(j)], s.x[size_t(hv[i] * s.dim + j)]);
    VP_CHECK(ok, "slices-coords", "%s: rank %d", where.c_str(), me);
    auto all = allgather_str(comm->get_impl(), string(reinterpret_cast<char const*>(eg.data()), eg.size() * 8));
    vector<int> order;
    for (auto& q : all) for (size_t i = 0; i * 8 < q.size(); ++i) { GO g; std::memcpy(&g, &q[i * 8], 8); order.push_back(int(g)); }
    auto chk = order;
    std::sort(chk.begin(), chk.end());
    for (int i = 0; ok && i < ne; ++i) ok = int(chk.size()) == ne && chk[size_t(i)] == i;
    VP_CHECK(ok, "slices-elements", "%s: elements lost or duplicated", where.c_str());
    size_t mx = 0;
    for (auto& q : all) mx = std::max(mx, q.size() / 8);
    VP_CHECK(double(mx) <= double(ne) / P + 2.0 * (std::log2(double(P)) + 1) + 1, "slices-balance", "%s: %zu of %d elements on a rank", where.c_str(), mx, ne);
    if (ok) {
      Mesh mesh(g_lib);
      osh::build_from_elems2verts(&mesh, comm, fam, s.dim, out, vg);
      mesh.add_tag<Real>(0, "coordinates", s.dim, Reals(dev(cx)));
      compare_built(dump_world(&mesh), s, nvpe, hyper, order, where);
    }
  } else {
    // one rank builds, then spreads
    where = "build on one rank and spread";
    Mesh mesh(g_lib);
    if (me == 0) osh::build_from_elems_and_coords(&mesh, fam, s.dim, LOs(dev(conv<LO>(s.ev))), Reals(dev(s.x)));
    mesh.set_comm(comm);
    Rng sr(r.u64());
    scatter(mesh, sr, int(sr.below(4)));
    vector<int> order(static_cast<size_t>(ne));
    for (int i = 0; i < ne; ++i) order[size_t(i)] = i;
    compare_built(dump_world(&mesh), s, nvpe, hyper, order, where);
  }
  if (ne > 1) nontrivial(hash_str(s.desc + where + fmt("%d", P)));
  sample(s.desc + " :: " + where);
}

int main(int argc, char** argv) {
  parse_args(argc, argv);
  LibArgs la(argc, argv);
  Library lib(&la.argc, &la.argv);
  g_lib = &lib;
  ctx().rank = lib.world()->rank();
  ctx().size = lib.world()->size();
  auto m = ctx().mode;
  if (m == "exch") return run_cases(case_exch);
  if (m == "part") return run_cases(case_part);
  if (m == "sync") return run_cases(case_sync);
  if (m == "build") return run_cases(case_build);
  return 2;
}
