// Schedules for the data-parallel loops of the library (OMEGA_H_VP_HOOKS):
//   0 in order, 1 reversed, 2 seeded permutation, 3 on several threads.
#include <atomic>
#include <condition_variable>
#include <cstdint>
#include <cstdlib>
#include <exception>
#include <mutex>
#include <string>
#include <thread>
#include <vector>
#include "hooks.hpp"

namespace Omega_h {
namespace vp_hooks {
static int g_mode = 0;
static uint64_t g_state = 1;
static int g_nthreads = 4;
static uint64_t g_loops = 0, g_iters = 0, g_multi = 0;
static bool g_inside = false;
static thread_local bool t_worker = false;

static uint64_t next() {
  g_state += 0x9e3779b97f4a7c15ULL;
  uint64_t z = g_state;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}

struct Pool {
  std::mutex m;
  std::condition_variable go, fin;
  std::vector<std::thread> ths;
  uint64_t epoch = 0;
  int running = 0;
  bool stop = false;
  int n = 0, nt = 0, style = 0;
  void (*call)(void*, int) = nullptr;
  void* arg = nullptr;
  std::exception_ptr err;
  void part(int t) {
    t_worker = true;
    try {
      if (style == 0) { for (int i = t; i < n; i += nt) call(arg, i); }
      else if (style == 1) { int64_t b = int64_t(n) * t / nt, e = int64_t(n) * (t + 1) / nt; for (int64_t i = b; i < e; ++i) call(arg, int(i)); }
      else { for (int i = n - 1 - t; i >= 0; i -= nt) call(arg, i); }
    } catch (...) {
      std::lock_guard<std::mutex> l(m);
      if (!err) err = std::current_exception();
    }
    t_worker = false;
  }
  void start(int k) {
    for (int t = int(ths.size()) + 1; t < k; ++t)
      ths.emplace_back([this, t, now = epoch] {
        uint64_t seen = now;
        for (;;) {
          {
            std::unique_lock<std::mutex> l(m);
            go.wait(l, [&] { return stop || epoch != seen; });
            if (stop) return;
            seen = epoch;
          }
          if (t < nt) part(t);
          {
            std::lock_guard<std::mutex> l(m);
            if (--running == 0) fin.notify_one();
          }
        }
      });
  }
  void run(int n_, void (*c)(void*, int), void* a, int k, int sty) {
    {
      std::lock_guard<std::mutex> l(m);
      n = n_; call = c; arg = a; nt = k; style = sty; err = nullptr;
      running = int(ths.size());
      ++epoch;
    }
    go.notify_all();
    part(0);
    std::exception_ptr e;
    {
      std::unique_lock<std::mutex> l(m);
      fin.wait(l, [&] { return running == 0; });
      e = err;
    }
    if (e) std::rethrow_exception(e);
  }
  ~Pool() {
    {
      std::lock_guard<std::mutex> l(m);
      stop = true;
    }
    go.notify_all();
    for (auto& t : ths) t.join();
  }
};
static Pool& pool() { static Pool p; return p; }

void set_schedule(int mode, uint64_t seed, int nthreads) {
  g_mode = mode;
  g_state = seed * 2 + 1;
  g_nthreads = nthreads;
}
void counters(uint64_t* loops, uint64_t* iters, uint64_t* multi) { *loops = g_loops; *iters = g_iters; *multi = g_multi; }

void run(int n, void (*call)(void*, int), void* arg) {
  if (t_worker || g_inside) { for (int i = 0; i < n; ++i) call(arg, i); return; }
  struct In { In() { g_inside = true; } ~In() { g_inside = false; } } in;
  ++g_loops;
  g_iters += uint64_t(n);
  if (n < 2 || g_mode == 0) { for (int i = 0; i < n; ++i) call(arg, i); return; }
  ++g_multi;
  if (g_mode == 1) { for (int i = n - 1; i >= 0; --i) call(arg, i); return; }
  if (g_mode == 2) {
    // cheap random-looking permutations: random stride walk, or shuffle when small
    if (n <= 4096) {
      static std::vector<int> p;
      p.resize(size_t(n));
      for (int i = 0; i < n; ++i) p[size_t(i)] = i;
      for (int i = n; i > 1; --i) std::swap(p[size_t(i - 1)], p[size_t(next() % uint64_t(i))]);
      std::vector<int> q = p;
      for (int i : q) call(arg, i);
    } else {
      int64_t stride = int64_t(next() % uint64_t(n)), off = int64_t(next() % uint64_t(n));
      auto gcd = [](int64_t a, int64_t b) { while (b) { auto c = a % b; a = b; b = c; } return a; };
      while (gcd(stride, n) != 1) stride = (stride + 1) % n;
      for (int64_t k = 0; k < n; ++k) call(arg, int((off + k * stride) % n));
    }
    return;
  }
  int k = g_nthreads < n ? g_nthreads : n;
  if (int(pool().ths.size()) + 1 < g_nthreads) pool().start(g_nthreads);
  pool().run(n, call, arg, k, int(next() % 3));
}
}  // namespace vp_hooks
}  // namespace Omega_h
