// Runs a scenario under several iteration schedules of the data-parallel loops
// and compares everything it records, bit by bit.
#pragma once
#include "vpmesh.hpp"
#include "hooks.hpp"
#include "vptsan.hpp"
namespace vp {
struct Rec {
  vector<std::pair<string, string>> items;
  void raw(string const& name, string b) { items.push_back({name, std::move(b)}); }
  template <class T> void arr(string const& name, Read<T> a) { raw(name, a.exists() ? bytes_of(a) : string("none")); }
  template <class T> void pod(string const& name, T x) { raw(name, string(reinterpret_cast<char const*>(&x), sizeof x)); }
  void graph(string const& name, Omega_h::Graph g) {
    if (g.a2ab.exists()) arr(name + " offsets", g.a2ab);
    arr(name + " list", g.ab2b);
  }
  void adj(string const& name, Omega_h::Adj a) {
    graph(name, a);
    if (a.codes.exists()) arr(name + " codes", a.codes);
  }
};
// f must consume no random numbers but those derived from the seed it is given
inline void under_schedules(Rng& r, string const& what, std::function<void(Rec&)> f) {
  namespace h = Omega_h::vp_hooks;
  uint64_t s1 = r.u64(), s2 = r.u64(), s3 = r.u64();
  struct S { int mode; uint64_t seed; int nt; char const* name; };
  vector<S> ss{{0, 0, 1, "in order"}, {1, 0, 1, "reversed"}, {2, s1, 1, "shuffled"}, {2, s2, 1, "shuffled again"}, {3, s3, int(2 + s3 % 3), "on threads"}};
  // on threads mostly in the race detector's build: slow
  if (ctx().size > 1 || s3 / 8 % 4) ss.pop_back();
  auto& o = ctx().opt;
  if (o.count("sched")) {  // one schedule only: a race detector is watching
    int m = std::atoi(o["sched"].c_str());
    ss = {{m, s3, 3, "on threads"}};
  }
  Rec ref;
  uint64_t l0 = 0, i0 = 0, m0 = 0, l1, i1, m1;
  for (size_t k = 0; k < ss.size(); ++k) {
    h::counters(&l0, &i0, &m0);
    h::set_schedule(ss[k].mode, ss[k].seed + uint64_t(ctx().rank), ss[k].nt);
    Rec rec;
    struct Reset { ~Reset() { h::set_schedule(0, 0, 1); } } reset;
    f(rec);
    drain_races();
    h::counters(&l1, &i1, &m1);
    if (ss[k].mode) { count("loops_rescheduled", int64_t(m1 - m0)); count("iterations_rescheduled", int64_t(i1 - i0)); }
    if (ss[k].mode == 3) count("loops_on_threads", int64_t(m1 - m0));
    if (k == 0) {
      ref = std::move(rec);
      Hash hh; int64_t tot = 0;
      for (auto& it : ref.items) { hh.str(it.second); tot += int64_t(it.second.size()); }
      if (l1 - l0 > 5) nontrivial(hh.get());
      continue;
    }
    VP_CHECK(rec.items.size() == ref.items.size(), "order-dependent-shape", "%s: %zu results with iterations %s, %zu in order", what.c_str(), rec.items.size(), ss[k].name, ref.items.size());
    for (size_t i = 0; i < std::min(rec.items.size(), ref.items.size()); ++i) {
      count("results_compared");
      auto& a = ref.items[i]; auto& b = rec.items[i];
      if (a.first == b.first && a.second == b.second) continue;
      size_t p = 0;
      while (p < a.second.size() && p < b.second.size() && a.second[p] == b.second[p]) ++p;
      viol("order-dependent", fmt("%s: %s differs with iterations %s (%zu and %zu bytes, first at %zu)", what.c_str(), a.first.c_str(), ss[k].name, a.second.size(), b.second.size(), p));
      break;
    }
  }
}
}  // namespace vp
