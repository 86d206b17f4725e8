#pragma once
#include <cstdint>
namespace Omega_h {
namespace vp_hooks {
void run(int n, void (*call)(void*, int), void* arg);
void set_schedule(int mode, uint64_t seed, int nthreads);
void counters(uint64_t* loops, uint64_t* iters, uint64_t* multi);
}  // namespace vp_hooks
}  // namespace Omega_h
