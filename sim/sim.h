// Deterministic simulator for the psdd library: core types shared by all parts.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdarg>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- randomness
inline uint64_t mix64(uint64_t z) {
  z += 0x9e3779b97f4a7c15ULL;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(mix64(seed ^ 0x5851f42d4c957f2dULL)) {}
  uint64_t next() { s += 0x9e3779b97f4a7c15ULL; uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a + 1)); }
  bool chance(int pct) { return (int)below(100) < pct; }
  double real() { return (double)(next() >> 11) * (1.0 / 9007199254740992.0); }
  template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};

// ---------------------------------------------------------------- plans
enum FaultKind { F_NONE = 0, F_ALLOC = 1, F_GEN = 2, F_IO = 3 };
struct Fault { int kind = F_NONE; uint64_t a = 0, b = 0; };
struct Step { std::string op; uint64_t seed = 0; int client = 0; Fault f; };
struct Plan {
  std::string prop;
  uint64_t seed = 0;
  std::map<std::string, int64_t> cfg;
  std::vector<Step> steps;
  int64_t get(const std::string &k, int64_t d = 0) const { auto i = cfg.find(k); return i == cfg.end() ? d : i->second; }
  std::string text() const;
  static bool parse(const std::string &text, Plan *out);
};
Plan make_plan(const std::string &prop, uint64_t seed);

// ---------------------------------------------------------------- simulated file system (in shared memory)
const int FS_FILES = 160;
const size_t FS_BYTES = 8 << 20;
struct SimFile { char name[1200]; int used; uint64_t size; };
struct IoPlan {            // faults of one simulated process
  uint64_t benign = 0;     // seed of short reads/writes and EINTR, 0 = none
  int err = 0;             // IoErr
  uint64_t at = 0;         // byte (over all simulated I/O of that direction) at which err strikes
  char path[64] = {0};     // substring filter, empty = every file
  bool once = false;       // the error is transient: it strikes one call, a retry succeeds
};
enum IoErr { IO_OK = 0, IO_ENOSPC, IO_EIO_W, IO_EIO_R, IO_CRASH_W, IO_OPEN, IO_CLOSE, IO_OPEN_W };
struct IoStats { uint64_t reads, writes, opens, shorts, eintr, errs, crashes, bytes_r, bytes_w; };

// ---------------------------------------------------------------- state shared between the worker and the runs it forks
const int MAX_STATS = 512;
struct Shared {
  int status;              // 0 running, 1 finished, 2 violation
  int step;
  int own;                 // the current activity belongs to the property under check
  char where[200];
  char vclass[96];
  char vmsg[3000];
  uint64_t hash, trace, shape;
  uint64_t steps_done, own_ops, nontrivial, faults_fired;
  uint64_t aux[64];
  double auxd[4096];
  char auxs[65536];
  IoStats io;
  uint64_t clk_rng, clk_reads; int64_t clk_steady, clk_wall;   // simulated clocks (nanoseconds)
  int nstats;
  char stat_name[MAX_STATS][48];
  uint64_t stat[MAX_STATS];
  SimFile files[FS_FILES];
};
extern Shared *sh;
extern char *fs_data;      // FS_FILES * FS_BYTES
void init_shared();
void stat_add(const char *name, uint64_t k = 1);
void hash_mix(uint64_t v);
void hash_str(const char *s);
void where(const char *fmt, ...);

// ---------------------------------------------------------------- seams
// allocator: everything the library allocates while a Lib guard is active is counted and may fail
struct AllocState { bool in_lib = false; bool armed = false; uint64_t count = 0, fail_at = 0, fail_n = 0, fired = 0; };
extern thread_local AllocState g_alloc;
extern int64_t g_lib_blocks, g_lib_bytes;     // live blocks obtained by the library
int64_t c_blocks();                           // live blocks obtained through malloc directly (libsdd, gmp, C library)
extern void (*g_seam_hook)();                 // called at calls that leave the library: files, tokens
extern void (*g_switch_hook)();               // called at allocation, I/O and draw points (thread simulation)
struct Lib { bool old; Lib() : old(g_alloc.in_lib) { g_alloc.in_lib = true; } ~Lib() { g_alloc.in_lib = old; } };
struct NoLib { bool old; NoLib() : old(g_alloc.in_lib) { g_alloc.in_lib = false; } ~NoLib() { g_alloc.in_lib = old; } };
struct ArmAlloc { ArmAlloc(uint64_t at, uint64_t n) { g_alloc.armed = true; g_alloc.count = 0; g_alloc.fail_at = at; g_alloc.fail_n = n; g_alloc.fired = 0; }
  ~ArmAlloc() { g_alloc.armed = false; } };

// clocks
void clock_start(uint64_t seed);
double real_seconds();       // of the machine, for the controller only

void fs_reset();
void fs_set_plan(const IoPlan &p);
void fs_clear_plan();
int fs_find(const char *path);
std::string fs_read(const char *path);
bool fs_exists(const char *path);
extern bool g_simcwd;
void fs_write(const char *path, const std::string &content);
void fs_remove(const char *path);

// runs f in a forked simulated process; returns the wait status, output of fd 1 in *out if given
struct SubResult { bool exited; int code; int sig; bool hang; std::string out; bool ok() const { return exited && code == 0; } };
SubResult subprocess(const std::function<void()> &f, const IoPlan *io, bool want_out = false, int cpu_s = 4);
std::string describe(const SubResult &r);

[[noreturn]] void violation(const char *cls, const char *fmt, ...);
// simulated threads: -1 outside of them; what a thread observes is recorded instead of hashed
extern thread_local int g_tid;
extern bool g_thread_plan;     // a plan of C18: every basic block is a switch point, sizes stay small
struct Transcript { static const size_t CAP = 1 << 18; uint64_t ne, nd; uint64_t e[CAP]; double d[CAP]; };
extern thread_local Transcript *g_transcript;
void record_exact(uint64_t v);
void record_value(double v);
struct RunAbort {};  // thrown to end a run early (foreign trouble)

std::string fmt(const char *f, ...);
}  // namespace sim
