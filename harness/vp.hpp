// Common support for the monitoring harnesses: seeded random cases, event
// reporting, independent mesh generators and dumps of (distributed) meshes.
#pragma once
#include <unistd.h>
#include <algorithm>
#include <array>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <vector>

#include <Omega_h_library.hpp>
#include <Omega_h_mesh.hpp>

namespace vp {

using Omega_h::GO;
using Omega_h::I32;
using Omega_h::I64;
using Omega_h::I8;
using Omega_h::Int;
using Omega_h::LO;
using Omega_h::LOs;
using Omega_h::GOs;
using Omega_h::Mesh;
using Omega_h::Read;
using Omega_h::Real;
using Omega_h::Reals;
using Omega_h::Bytes;
using Omega_h::CommPtr;
using Omega_h::Library;
using std::string;
using std::vector;

// ---------------------------------------------------------------- random
inline uint64_t mix64(uint64_t z) {
  z += 0x9e3779b97f4a7c15ULL;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(mix64(seed)) {}
  uint64_t u64() { s += 0x9e3779b97f4a7c15ULL; return mix64(s); }
  int64_t below(int64_t n) { return n <= 0 ? 0 : int64_t(u64() % uint64_t(n)); }
  int64_t range(int64_t a, int64_t b) { return a + below(b - a + 1); }
  double real() { return double(u64() >> 11) * (1.0 / 9007199254740992.0); }
  double real(double a, double b) { return a + (b - a) * real(); }
  bool chance(double p) { return real() < p; }
  template <class T> T const& pick(vector<T> const& v) { return v[size_t(below(int64_t(v.size())))]; }
  template <class T> void shuffle(vector<T>& v) {
    for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[size_t(below(int64_t(i)))]);
  }
};
struct Hash {
  uint64_t h = 0xcbf29ce484222325ULL;
  void add(void const* p, size_t n) {
    auto c = static_cast<unsigned char const*>(p);
    for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 0x100000001b3ULL; }
  }
  template <class T> void num(T x) { add(&x, sizeof(x)); }
  void str(string const& s) { num(s.size()); add(s.data(), s.size()); }
  uint64_t get() const { return mix64(h); }
};

// ---------------------------------------------------------------- reporting
inline string fmt(char const* f, ...) __attribute__((format(printf, 1, 2)));
inline string fmt(char const* f, ...) {
  char buf[4096];
  va_list l; va_start(l, f); vsnprintf(buf, sizeof buf, f, l); va_end(l);
  return buf;
}
inline string esc(string const& s) {
  string o;
  for (char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (static_cast<unsigned char>(c) < 32 || static_cast<unsigned char>(c) > 126) o += fmt("\\u%04x", static_cast<unsigned char>(c));
    else o += c;
  }
  return o;
}
struct Ctx {
  string prog;
  uint64_t seed = 1;
  int64_t first = 0, count = 1;
  string mode;
  string tmp = ".";
  std::map<string, string> opt;
  int rank = 0, size = 1;
  int64_t cur = -1;
  int64_t nviol = 0, nviol_case = 0;
  std::map<string, int64_t> counters;
  std::set<uint64_t> distinct;
  bool thorough = false;
  int out_fd = 1;
};
inline Ctx& ctx() { static Ctx c; return c; }
inline void emit(string const& s) {
  string line = "@VP " + s + "\n";
  size_t off = 0;
  while (off < line.size()) {
    auto r = ::write(ctx().out_fd, line.data() + off, line.size() - off);
    if (r <= 0) break;
    off += size_t(r);
  }
}
inline void count(string const& name, int64_t n = 1) { ctx().counters[name] += n; }
// Report a violation of the property. `key` names the kind of failure.
inline void viol(string const& key, string const& msg) {
  auto& c = ctx();
  ++c.nviol;
  if (++c.nviol_case > 5) return;
  emit(fmt("{\"t\":\"viol\",\"case\":%lld,\"rank\":%d,\"key\":\"%s\",\"msg\":\"%s\"}", (long long)c.cur, c.rank,
      esc(key).c_str(), esc(msg.substr(0, 1500)).c_str()));
}
#define VP_CHECK(cond, key, ...) \
  do { vp::count("checks"); if (!(cond)) vp::viol(key, vp::fmt(__VA_ARGS__)); } while (0)

inline void sample(string const& s) {
  auto& c = ctx();
  if (c.rank == 0 && c.counters["#samples"] < 6) {
    c.counters["#samples"]++;
    emit(fmt("{\"t\":\"sample\",\"case\":%lld,\"text\":\"%s\"}", (long long)c.cur, esc(s.substr(0, 800)).c_str()));
  }
}
// note that the case exercised something non-trivial; `h` identifies it
inline void nontrivial(uint64_t h) { ctx().distinct.insert(h); }

inline void parse_args(int argc, char** argv) {
  auto& c = ctx();
  c.prog = argv[0];
  for (int i = 1; i < argc; ++i) {
    string a = argv[i];
    auto eq = a.find('=');
    if (a.compare(0, 5, "--vp-") != 0 || eq == string::npos) continue;
    string k = a.substr(5, eq - 5), v = a.substr(eq + 1);
    if (k == "seed") c.seed = std::strtoull(v.c_str(), nullptr, 10);
    else if (k == "first") c.first = std::atoll(v.c_str());
    else if (k == "count") c.count = std::atoll(v.c_str());
    else if (k == "mode") c.mode = v;
    else if (k == "tmp") c.tmp = v;
    else if (k == "thorough") c.thorough = (v == "1");
    else c.opt[k] = v;
  }
}
// strips our own arguments, keeps those meant for the library
struct LibArgs {
  vector<char*> v;
  int argc;
  char** argv;
  LibArgs(int ac, char** av) {
    for (int i = 0; i < ac; ++i)
      if (string(av[i]).compare(0, 5, "--vp-") != 0) v.push_back(av[i]);
    argc = int(v.size());
    v.push_back(nullptr);
    argv = v.data();
  }
};
inline uint64_t case_seed(int64_t i) {
  Hash h; h.num(ctx().seed); h.num(i); h.str(ctx().mode);
  return h.get();
}
// Runs cases [first, first+count). Every rank calls f with the same stream.
inline int run_cases(std::function<void(Rng&, int64_t)> f) {
  auto& c = ctx();
  for (int64_t i = c.first; i < c.first + c.count; ++i) {
    c.cur = i;
    c.nviol_case = 0;
    if (c.rank == 0) emit(fmt("{\"t\":\"begin\",\"case\":%lld}", (long long)i));
    Rng rng(case_seed(i));
    count("#cases");
    try {
      f(rng, i);
    } catch (std::exception const& e) {
      viol("exception", string("operation on valid input failed: ") + e.what());
      if (c.size > 1) {  // other ranks cannot be expected to follow
        emit("{\"t\":\"abort\"}");
        ::usleep(200000);
        _exit(3);
      }
    }
  }
  c.cur = -1;
  string s = "{\"t\":\"stats\",\"rank\":" + std::to_string(c.rank) + ",\"counters\":{";
  bool fst = true;
  for (auto& kv : c.counters) {
    if (!fst) s += ",";
    fst = false;
    s += "\"" + esc(kv.first) + "\":" + std::to_string(kv.second);
  }
  s += "},\"distinct\":[";
  fst = true;
  size_t nd = 0;
  if (c.rank == 0)
    for (auto h : c.distinct) {
      if (++nd > 4000) break;
      if (!fst) s += ",";
      fst = false;
      s += fmt("\"%llx\"", (unsigned long long)h);
    }
  s += "]}";
  emit(s);
  if (c.rank == 0) emit("{\"t\":\"done\"}");
  return 0;
}

// ---------------------------------------------------------------- host copies
template <class T> vector<T> host(Read<T> a) {
  vector<T> r(static_cast<size_t>(a.size()));
  Omega_h::HostRead<T> h(a);
  for (LO i = 0; i < h.size(); ++i) r[size_t(i)] = h[i];
  return r;
}
template <class T> Read<T> dev(vector<T> const& v) {
  Omega_h::HostWrite<T> w(LO(v.size()));
  for (size_t i = 0; i < v.size(); ++i) w[LO(i)] = v[i];
  return Read<T>(w.write());
}
template <class A, class B> vector<A> conv(vector<B> const& b) { return vector<A>(b.begin(), b.end()); }
inline bool biteq(double a, double b) { return std::memcmp(&a, &b, sizeof a) == 0; }

}  // namespace vp
