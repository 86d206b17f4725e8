// Race detection (clang -fsanitize=thread): every report becomes a violation,
// except two plain stores to the same place. Those are decided by comparing the
// results of different schedules: stores of one value are no disorder, stores of
// different values make the results depend on the order.
#pragma once
#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#include "vp.hpp"
#include <atomic>
#include <cstring>
extern "C" {
int __tsan_get_report_data(void* report, const char** description, int* count, int* stack_count, int* mop_count, int* loc_count, int* mutex_count, int* thread_count, int* unique_tid_count, void** sleep_trace, unsigned long trace_size);
int __tsan_get_report_mop(void* report, unsigned long idx, int* tid, void** addr, int* size, int* write, int* atomic, void** trace, unsigned long trace_size);
void __sanitizer_symbolize_pc(void* pc, const char* fmt, char* out_buf, size_t out_buf_size);
__attribute__((visibility("default"))) const char* __tsan_default_options() { return "exitcode=0:report_bugs=1:history_size=4:ignore_noninstrumented_modules=1:report_thread_leaks=0:report_signal_unsafe=0"; }
}

namespace vp {
// filled while the run-time holds its locks: no allocation, no locks here
struct RaceReport { char what[64]; int nm; int wr[4], at[4]; void* pcs[4][6]; };
static RaceReport g_reports[256];
static std::atomic<int> g_nreports{0};
inline void drain_races() {
  int n = std::min(g_nreports.exchange(0), 256);
  for (int k = 0; k < n; ++k) {
    auto& r = g_reports[k];
    int stores = 0, atomics = 0;
    std::string where, place;
    for (int i = 0; i < r.nm; ++i) {
      stores += r.wr[i]; atomics += r.at[i];
      for (void* pc : r.pcs[i]) {
        if (!pc) break;
        char b[512] = "";
        __sanitizer_symbolize_pc(pc, "%s:%l", b, sizeof b);
        std::string s(b);
        auto p = s.rfind('/');
        if (p != std::string::npos) s = s.substr(p + 1);
        if (s.find("Omega_h_for") == 0 || s.find("hooks.cpp") == 0) continue;
        where += fmt("%s%s%s", i ? ", " : "", r.at[i] ? "atomic " : "", r.wr[i] ? "write " : "read ") + s;
        if (place.empty()) place = s;
        break;
      }
    }
    bool race = std::string(r.what) == "data-race";
    if (race && r.nm == 2 && stores == 2 && atomics == 0) { count("plain_store_pairs_seen"); continue; }
    if (place.compare(0, 5, "<null") == 0 || place.empty()) { count("reports_outside_the_library"); continue; }
    viol("race", fmt("%s between iterations of one loop: %s", r.what, where.c_str()));
  }
}
}  // namespace vp
extern "C" __attribute__((visibility("default"))) void __tsan_on_report(void* report) {
  int k = vp::g_nreports.fetch_add(1);
  if (k >= 256) return;
  auto& r = vp::g_reports[k];
  memset(&r, 0, sizeof r);
  const char* what = "";
  int dup = 0, ns = 0, nm = 0, nl = 0, nx = 0, nt = 0, nu = 0;
  void* tr[1];
  __tsan_get_report_data(report, &what, &dup, &ns, &nm, &nl, &nx, &nt, &nu, tr, 1);
  strncpy(r.what, what, sizeof r.what - 1);
  r.nm = nm < 4 ? nm : 4;
  for (int i = 0; i < r.nm; ++i) {
    int tid, size; void* a;
    __tsan_get_report_mop(report, (unsigned long)i, &tid, &a, &size, &r.wr[i], &r.at[i], r.pcs[i], 6);
  }
}
#define VP_TSAN 1
#endif
#endif
#ifndef VP_TSAN
namespace vp { inline void drain_races() {} }
#endif
