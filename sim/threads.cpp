// Simulated threads (C18): real pthreads of which exactly one runs at any time. A seeded scheduler decides at every
// switch point (basic block of the library, allocation, I/O call, random draw, lock) whether another thread goes on.
#include "world.h"
#include <cerrno>
#include <cstring>
#include <dlfcn.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <unistd.h>

namespace sim {
thread_local int g_tid = -1;
bool g_thread_plan = false;
thread_local Transcript *g_transcript = nullptr;
void record_exact(uint64_t v) { Transcript *t = g_transcript; if (t->ne < Transcript::CAP) t->e[t->ne] = v; t->ne++; }
void record_value(double v) { Transcript *t = g_transcript; if (t->nd < Transcript::CAP) t->d[t->nd] = v; t->nd++; }

static const int MAXT = 8;
static struct Baton {
  bool on = false;
  int n = 0, cur = 0;
  bool done[MAXT];
  sem_t sem[MAXT], fin;
  Rng rng{0};
  int style = 0;
  int64_t mean = 1, quantum = 1, maxsw = 0;
  uint64_t points = 0, switches = 0;
  std::vector<uint64_t> at;      // style 1: points at which a preemption happens
  size_t next_at = 0;
} B;
static bool counting = false;
static uint64_t counted = 0;

static void set_quantum() {
  if (B.style == 1) { B.quantum = B.next_at < B.at.size() ? (int64_t)(B.at[B.next_at] - B.points) : INT64_MAX; if (B.quantum < 1) B.quantum = 1; B.next_at++; }
  else B.quantum = 1 + (int64_t)B.rng.below((uint64_t)(2 * B.mean));
}
static int other(int me) { int c[MAXT], k = 0; for (int i = 0; i < B.n; i++) if (i != me && !B.done[i]) c[k++] = i; return k ? c[B.rng.below((uint64_t)k)] : -1; }
static void hand_over(int next) {
  B.cur = next; B.switches++;
  sh->trace = mix64(sh->trace ^ mix64(B.points * 8 + (uint64_t)next));
  sem_post(&B.sem[next]);
}
static void take() { while (sem_wait(&B.sem[g_tid]) && errno == EINTR) {} }
static void switch_point() {
  if (g_tid < 0) return;
  if (!B.on) { counted++; return; }
  B.points++;
  if (--B.quantum > 0) return;
  if ((int64_t)B.switches >= B.maxsw) { B.quantum = INT64_MAX; return; }
  set_quantum();
  int nx = other(g_tid);
  if (nx < 0) return;
  hand_over(nx); take();
}
// a call that leaves the library: style 2 switches here most of the time, so that threads meet inside such calls
static void seam_point() {
  if (g_tid < 0) return;
  if (!B.on || B.style != 2 || (int64_t)B.switches >= B.maxsw || !B.rng.chance(60)) { switch_point(); return; }
  B.points++;
  int nx = other(g_tid);
  if (nx < 0) return;
  hand_over(nx); take();
}
// a thread that has to wait for another one gives way
static void give_way() { int nx = other(g_tid); if (nx < 0) { violation((std::string(sh->where[0] ? "C18" : "C18") + ":C18:deadlock").c_str(), "a thread waits for a lock that nobody can release"); } hand_over(nx); take(); }

struct Job { const Plan *p; int tid; Transcript *t; };
static void run_world(Job *j) {
  g_tid = j->tid; g_transcript = j->t; j->t->ne = j->t->nd = 0;
  { World w(*j->p); w.run(); }
  g_alloc.in_lib = false;
  g_transcript = nullptr;
}
static void *thread_main(void *a) {
  Job *j = (Job *)a;
  g_tid = j->tid;
  take();
  run_world(j);
  B.done[g_tid] = true;
  int nx = other(g_tid);
  if (nx >= 0) hand_over(nx); else sem_post(&B.fin);
  return nullptr;
}
static Transcript *map_transcripts(int n) { return (Transcript *)mmap(nullptr, sizeof(Transcript) * (size_t)n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
static bool same_value(double a, double b) { return a == b || (a != a && b != b) || std::fabs(a - b) <= 1e-9 * std::max(std::fabs(a), std::fabs(b)) + 1e-300; }

void run_threads(const Plan &p) {
  g_thread_plan = true;
  int n = (int)std::min<int64_t>(p.get("threads"), MAXT);
  std::vector<Plan> plans((size_t)n, p);
  for (int t = 0; t < n; t++) { plans[(size_t)t].steps.clear(); for (auto &s : p.steps) if (s.client == t) plans[(size_t)t].steps.push_back(s); }
  Transcript *solo = map_transcripts(n), *got = map_transcripts(n);
  g_switch_hook = switch_point; g_seam_hook = seam_point;
  uint64_t *pts = (uint64_t *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  // what each thread obtains alone
  for (int t = 0; t < n; t++) {
    fs_reset();
    Job j{&plans[(size_t)t], t, &solo[t]};
    SubResult q = subprocess([&] { g_switch_hook = switch_point; g_seam_hook = seam_point; counted = 0; run_world(&j); *pts += counted; _exit(0); }, nullptr, false, 2);
    if (!q.ok()) { sh->own = 0; stat_add("runs ended early: a thread fails alone"); snprintf(sh->where, sizeof sh->where, "thread %d alone: %s", t, describe(q).c_str()); return; }
  }
  fs_reset();
  if (p.get("cf")) return;
  // all of them together
  B.n = n; B.rng = Rng((uint64_t)p.get("sched")); B.mean = std::max<int64_t>(1, p.get("switch", 10)); B.style = (int)p.get("style"); B.maxsw = p.get("maxsw", INT64_MAX);
  if (B.style == 1) { int k = 1 + (int)B.rng.below(8); for (int i = 0; i < k; i++) B.at.push_back(B.rng.below(*pts + 1)); std::sort(B.at.begin(), B.at.end()); }
  set_quantum();
  sem_init(&B.fin, 0, 0);
  for (int t = 0; t < n; t++) { sem_init(&B.sem[t], 0, 0); B.done[t] = false; }
  sh->own = 1; sh->own_ops++;
  B.on = true;
  std::vector<pthread_t> th((size_t)n); std::vector<Job> jobs; for (int t = 0; t < n; t++) jobs.push_back(Job{&plans[(size_t)t], t, &got[t]});
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 16 << 20);
  for (int t = 0; t < n; t++) if (pthread_create(&th[(size_t)t], &at, thread_main, &jobs[(size_t)t])) { fprintf(stderr, "pthread_create failed\n"); _exit(3); }
  B.cur = (int)B.rng.below((uint64_t)n); sem_post(&B.sem[B.cur]);
  while (sem_wait(&B.fin) && errno == EINTR) {}
  for (int t = 0; t < n; t++) pthread_join(th[(size_t)t], nullptr);
  B.on = false;
  sh->own = 1;
  stat_add("simulated thread switches", B.switches); stat_add("switch points", B.points);
  if (B.switches > (uint64_t)n) sh->nontrivial++;
  snprintf(sh->where, sizeof sh->where, "comparison with the solo runs [C18]");
  for (int t = 0; t < n; t++) {
    hash_mix(got[t].ne); hash_mix(got[t].nd);
    size_t m = std::min<size_t>(std::min<size_t>(got[t].ne, solo[t].ne), Transcript::CAP);
    for (size_t i = 0; i < m; i++) { hash_mix(got[t].e[i]); if (got[t].e[i] != solo[t].e[i]) violation("C18:C18:transcript", "thread %d of %d: result %zu is %lx, alone it is %lx (%lu switches)", t, n, i, got[t].e[i], solo[t].e[i], B.switches); }
    if (got[t].ne != solo[t].ne || got[t].nd != solo[t].nd) violation("C18:C18:transcript", "thread %d of %d obtains %lu results, alone %lu", t, n, got[t].ne + got[t].nd, solo[t].ne + solo[t].nd);
    m = std::min<size_t>(got[t].nd, Transcript::CAP);
    for (size_t i = 0; i < m; i++) { uint64_t b; memcpy(&b, &got[t].d[i], 8); hash_mix(b); if (!same_value(got[t].d[i], solo[t].d[i])) violation("C18:C18:transcript", "thread %d of %d: value %zu is %.17g, alone it is %.17g (%lu switches)", t, n, i, got[t].d[i], solo[t].d[i], B.switches); }
  }
  hash_mix(B.switches); hash_mix(B.points);
}
}  // namespace sim
using namespace sim;

extern "C" {
// one call per basic block of the library (only the objects built for this property are compiled with it)
void __sanitizer_cov_trace_pc() { if (g_tid >= 0 && g_alloc.in_lib) switch_point(); }
// locks and guarded initialisations wait by giving way to the other simulated threads
int pthread_mutex_lock(pthread_mutex_t *m) noexcept {
  typedef int (*F)(pthread_mutex_t *);
  static F lock = nullptr, tr = nullptr;
  if (!lock) { tr = (F)dlsym(RTLD_NEXT, "pthread_mutex_trylock"); lock = (F)dlsym(RTLD_NEXT, "pthread_mutex_lock"); }
  if (g_tid < 0 || !B.on) return lock(m);
  for (;;) { int r = tr(m); if (r != EBUSY) return r; give_way(); }
}
// the tokenizer of the C library has one state for all threads; the SDD library reads vtree files with it
char *strtok(char *s, const char *d) {
  static char *lib = nullptr; static thread_local char *own = nullptr;
  if (!g_alloc.in_lib) return strtok_r(s, d, &own);
  if (g_seam_hook) g_seam_hook();
  return strtok_r(s, d, &lib);
}
// ending the process in one of several threads: the exit handlers would wait for the streams that others hold
void exit(int status) {
  typedef void (*F)(int) __attribute__((noreturn));
  if (g_tid >= 0 && B.on) _exit(status);
  ((F)dlsym(RTLD_NEXT, "exit"))(status);
}
int __cxa_guard_acquire(uint64_t *g) {
  unsigned char *b = (unsigned char *)g;
  while (!b[0]) {
    if (!b[1]) { b[1] = 1; return 1; }
    if (g_tid < 0 || !B.on) abort();
    give_way();
  }
  return 0;
}
void __cxa_guard_release(uint64_t *g) { unsigned char *b = (unsigned char *)g; b[0] = 1; b[1] = 0; }
void __cxa_guard_abort(uint64_t *g) { ((unsigned char *)g)[1] = 0; }
}
