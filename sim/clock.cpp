// Seams for clocks and for the machine's entropy: simulated time, advanced only by reading it and only by the run's seed.
#include "sim.h"
#include <chrono>
#include <cerrno>
#include <ctime>
#include <random>
#include <sys/time.h>
#include <sys/syscall.h>
#include <unistd.h>

namespace sim {
double real_seconds() { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec; }
void clock_start(uint64_t seed) {
  sh->clk_rng = mix64(seed ^ 0xc10c0f0e0d0c0b0aULL);
  sh->clk_steady = 1000000000ll + (int64_t)(mix64(sh->clk_rng) % 1000000000ull);
  sh->clk_wall = 1500000000000000000ll + (int64_t)(mix64(sh->clk_rng + 1) % 300000000ull) * 1000000000ll;
  sh->clk_reads = 0;
}
static uint64_t draw() { return sh->clk_rng = mix64(sh->clk_rng + 0x9e3779b97f4a7c15ULL); }
static void tick() {
  uint64_t x = draw(); int64_t d = 0;
  switch (x & 7) {                                  // most reads are close together; some find that time stood still or leapt
    case 0: break;
    case 1: d = 3000000000ll + (int64_t)((x >> 8) % 60000000000ull); stat_add("fault: stall seen on the clock"); sh->faults_fired++; break;
    default: d = (int64_t)((x >> 8) % 2000000); break;
  }
  sh->clk_steady += d; sh->clk_wall += d; sh->clk_reads++; stat_add("clock: reads"); stat_add("clock: simulated ms", (uint64_t)(d / 1000000));
  if (((x >> 48) & 15) == 0) {                      // the wall clock is set: backwards or forwards, by up to a year
    int64_t j = (int64_t)(draw() % 31536000ull) * 1000000000ll; if (draw() & 1) j = -j;
    sh->clk_wall += j; stat_add("fault: wall clock jump"); sh->faults_fired++;
  }
}
static int64_t wall() { if (!sh) { struct timespec t; syscall(SYS_clock_gettime, CLOCK_REALTIME, &t); return t.tv_sec * 1000000000ll + t.tv_nsec; } tick(); return sh->clk_wall; }
static int64_t steady() { if (!sh) return (int64_t)(real_seconds() * 1e9); tick(); return sh->clk_steady; }
}  // namespace sim

namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return time_point(duration_cast<duration>(nanoseconds(sim::wall()))); }
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration_cast<duration>(nanoseconds(sim::steady()))); }
} }
// (a constructed device keeps nothing; its draws are the run's)
random_device::result_type random_device::_M_getval() { return (unsigned)sim::draw(); }
}  // namespace std
extern "C" {
time_t time(time_t *p) noexcept { time_t t = (time_t)(sim::wall() / 1000000000ll); if (p) *p = t; return t; }
clock_t clock() noexcept { return (clock_t)(sim::steady() / 1000); }
int gettimeofday(struct timeval *__restrict tv, void *__restrict) noexcept { int64_t t = sim::wall(); if (tv) { tv->tv_sec = t / 1000000000ll; tv->tv_usec = (t % 1000000000ll) / 1000; } return 0; }
int clock_gettime(clockid_t id, struct timespec *ts) noexcept { int64_t t = id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE ? sim::wall() : sim::steady(); ts->tv_sec = t / 1000000000ll; ts->tv_nsec = t % 1000000000ll; return 0; }
ssize_t getrandom(void *p, size_t n, unsigned) { for (size_t i = 0; i < n; i++) ((unsigned char *)p)[i] = (unsigned char)(sim::draw() >> 24); return (ssize_t)n; }
int getentropy(void *p, size_t n) { getrandom(p, n, 0); return 0; }
}
