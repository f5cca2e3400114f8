// Controller of the simulation: forks one process per simulated run from a process image that never changes,
// gates violations by repetition, minimises plans, collects statistics.
#include "world.h"
#include <algorithm>
#include <cerrno>
#include <cstring>
#include <csignal>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace sim;
namespace sim { void run_threads(const Plan &p); }

static const size_t PLAN_MAX = 1 << 19;
struct Ctl { int mode; char prop[16]; uint64_t seed; size_t plen; int cpu; int child_status; char plan[PLAN_MAX]; };
static Ctl *ctl;
static int cmd_fd, resp_fd;
static bool verbose = false;

static void reset_shared() {
  sh->status = 0; sh->step = -1; sh->own = 0; sh->where[0] = sh->vclass[0] = sh->vmsg[0] = 0;
  sh->hash = sh->trace = sh->shape = 0; sh->steps_done = sh->own_ops = sh->nontrivial = sh->faults_fired = 0;
  memset(&sh->io, 0, sizeof sh->io); sh->nstats = 0; fs_reset();
}
static void child_main() {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  if (!verbose) { int n = open("/dev/null", O_RDWR); dup2(n, 1); dup2(n, 2); close(n); }
  struct itimerval tv = {{0, 0}, {ctl->cpu, 0}}; setitimer(ITIMER_PROF, &tv, nullptr);
  alarm((unsigned)ctl->cpu * 12);
  if (ctl->mode == 0) {
    Plan p = make_plan(ctl->prop, ctl->seed);
    std::string t = p.text();
    if (t.size() >= PLAN_MAX) _exit(3);
    memcpy(ctl->plan, t.data(), t.size()); ctl->plen = t.size();
    _exit(0);
  }
  Plan p;
  if (!Plan::parse(std::string(ctl->plan, ctl->plen), &p)) _exit(3);
  clock_start(p.seed);
  if (p.get("threads") > 0) run_threads(p);
  else { World w(p); w.run(); }
  sh->status = 1;
  _exit(0);
}
// the zygote: its memory image is the same before every fork
static void zygote(int in, int out) {
  char c;
  for (;;) {
    ssize_t k = read(in, &c, 1);
    if (k == 0) _exit(0);
    if (k < 0) { if (errno == EINTR) continue; _exit(0); }
    pid_t p = fork();
    if (p == 0) child_main();
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    ctl->child_status = st;
    if (write(out, &c, 1) != 1) _exit(0);
  }
}
static void start_zygote() {
  int a[2], b[2];
  if (pipe(a) || pipe(b)) { perror("pipe"); exit(2); }
  pid_t p = fork();
  if (p == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); close(a[1]); close(b[0]); zygote(a[0], b[1]); }
  close(a[0]); close(b[1]); cmd_fd = a[1]; resp_fd = b[0];
}
static void go() {
  char c = 'r';
  if (write(cmd_fd, &c, 1) != 1) { fprintf(stderr, "sim: zygote is gone\n"); exit(2); }
  while (read(resp_fd, &c, 1) != 1) { if (errno != EINTR) { fprintf(stderr, "sim: zygote died\n"); exit(2); } }
}
struct Result { bool viol = false; std::string cls, msg; uint64_t hash = 0, trace = 0; bool foreign_crash = false; };

static std::string plan_text(const std::string &prop, uint64_t seed) {
  ctl->mode = 0; snprintf(ctl->prop, sizeof ctl->prop, "%s", prop.c_str()); ctl->seed = seed; ctl->cpu = 10; go();
  if (ctl->child_status != 0) { fprintf(stderr, "sim: plan generation failed for %s %lu\n", prop.c_str(), seed); exit(2); }
  return std::string(ctl->plan, ctl->plen);
}
static Result run_text(const std::string &prop, const std::string &text, int cpu = 10) {
  reset_shared();
  ctl->mode = 1; ctl->plen = text.size(); memcpy(ctl->plan, text.data(), text.size()); ctl->cpu = cpu; go();
  int st = ctl->child_status;
  Result r;
  r.hash = sh->hash; r.trace = mix64(sh->trace ^ mix64(sh->shape));
  if (WIFEXITED(st) && WEXITSTATUS(st) == 3) { fprintf(stderr, "sim: harness error (%s)\n%s", sh->where, text.c_str()); exit(2); }
  if (WIFSIGNALED(st) || (sh->status == 0)) {
    const char *k = WIFSIGNALED(st) ? (WTERMSIG(st) == SIGPROF || WTERMSIG(st) == SIGALRM ? "hang" : "crash") : "exit";
    std::string w = WIFSIGNALED(st) ? fmt("killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st))) : fmt("ended with exit code %d", WEXITSTATUS(st));
    if (sh->own) { r.viol = true; r.cls = prop + ":" + k; r.msg = w + fmt(" in %s", sh->where); }
    else { r.foreign_crash = true; r.msg = w + fmt(" in %s", sh->where); }
    return r;
  }
  if (sh->status == 2) { r.viol = true; r.cls = sh->vclass; r.msg = sh->vmsg; }
  return r;
}
static std::string strip(const std::string &t) {
  std::string o; size_t i = 0;
  while (i < t.size()) { size_t j = t.find('\n', i); if (j == std::string::npos) j = t.size(); if (j > i && t[i] != '#') o.append(t, i, j - i), o += '\n'; i = j + 1; }
  return o;
}
static bool counterfactual(const std::string &prop) { return prop == "C07" || prop == "C17" || prop == "C18"; }
static bool is_hang(const std::string &cls) { return cls.find(":hang") != std::string::npos; }
// a violation of a counterfactual property counts only if the same plan without the cause under test shows none
static Result judge(const std::string &text, int cpu = 10, bool *excused = nullptr) {
  Plan p; if (!Plan::parse(text, &p)) { fprintf(stderr, "sim: bad plan\n"); exit(2); }
  Result r = run_text(p.prop, text, cpu);
  if (excused) *excused = false;
  if (r.viol && counterfactual(p.prop) && !p.get("cf")) {
    Plan q = p; q.cfg["cf"] = 1;
    Result s = run_text(p.prop, q.text(), cpu);
    if (s.viol) { r.viol = false; if (excused) *excused = true; }
  }
  return r;
}
static std::string minimise(const std::string &text, const std::string &cls, int *runs) {
  Plan p; Plan::parse(text, &p);
  double t0 = real_seconds();
  *runs = 0;
  auto ok = [&](const Plan &q) {
    if (*runs >= 600 || (real_seconds() - t0) > 25) return false;
    ++*runs; Result r = judge(q.text()); return r.viol && r.cls == cls; };
  bool changed = true;
  while (changed) {
    changed = false;
    for (size_t chunk = std::max<size_t>(1, p.steps.size() / 2); chunk >= 1; chunk /= 2) {
      for (size_t i = 0; i + chunk <= p.steps.size() || (i < p.steps.size() && chunk == 1);) {
        Plan q = p; q.steps.erase(q.steps.begin() + (long)i, q.steps.begin() + (long)std::min(i + chunk, p.steps.size()));
        if (q.steps.size() < p.steps.size() && ok(q)) { p = q; changed = true; } else i += chunk;
      }
      if (chunk == 1) break;
    }
    for (size_t i = 0; i < p.steps.size(); i++) {
      if (p.steps[i].f.kind) { Plan q = p; q.steps[i].f = Fault(); if (ok(q)) { p = q; changed = true; } }
      if (p.steps[i].f.kind == F_ALLOC && p.steps[i].f.b > 1) { Plan q = p; q.steps[i].f.b = 1; if (ok(q)) p = q; }
    }
    for (auto &kv : std::map<std::string, int64_t>(p.cfg)) {
      if (kv.first == "n") for (int64_t v = 2; v < kv.second; v++) { Plan q = p; q.cfg["n"] = v; if (ok(q)) { p = q; changed = true; break; } }
      if (kv.first == "managers" && p.cfg["managers"] > 1) { Plan q = p; q.cfg["managers"]--; if (ok(q)) { p = q; changed = true; } }
      if ((kv.first == "labels" || kv.first == "shape") && kv.second) { Plan q = p; q.cfg[kv.first] = 0; if (ok(q)) p = q; }
    }
    if (p.steps.size() <= 1) break;
  }
  if (p.get("threads")) for (int64_t k = 0; k <= 4096; k = k ? 2 * k : 1) { Plan q = p; q.cfg["maxsw"] = k; if (ok(q)) { p = q; break; } }
  for (auto &s : p.steps) if (s.client) { Plan q = p; for (auto &z : q.steps) z.client = 0; if (p.get("threads") == 0 && ok(q)) p = q; break; }
  return p.text();
}
static std::string jesc(const std::string &s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if ((unsigned char)c < 32 || (unsigned char)c > 126) o += '?'; else o += c; } return o; }

static int cmd_batch(int argc, char **argv) {
  std::string prop = argv[2]; uint64_t start = strtoull(argv[3], 0, 10), stride = strtoull(argv[4], 0, 10), count = strtoull(argv[5], 0, 10); double secs = atof(argv[6]); std::string out = argv[7];
  (void)argc;
  std::set<std::string> known; if (const char *k = getenv("SIM_KNOWN")) { std::string s = k; size_t i = 0; while (i < s.size()) { size_t j = s.find(',', i); if (j == std::string::npos) j = s.size(); known.insert(s.substr(i, j - i)); i = j + 1; } }
  double t0 = real_seconds();
  auto el = [&] { return (real_seconds() - t0); };
  std::map<std::string, uint64_t> st; std::unordered_set<uint64_t> traces; uint64_t runs = 0, steps = 0, own = 0, faults = 0, nontriv = 0, foreign = 0, viols = 0, excused = 0; std::map<std::string, uint64_t> known_hits;
  uint64_t hx = 0; std::vector<std::string> lines;
  uint64_t first_seed = start, last_seed = start; int nerr = 0; std::string foreign_sample, excused_sample;
  for (uint64_t i = 0; i < count && el() < secs; i++) {
    uint64_t seed = start + i * stride; last_seed = seed;
    std::string text = plan_text(prop, seed);
    bool ex = false;
    Result r = judge(text, 10, &ex);
    if (r.viol && is_hang(r.cls)) { st["runs that needed more than 10 s of processor time"]++; r = judge(text, 60, &ex); }   // slow is not stuck
    runs++; hx = mix64(hx ^ r.hash);
    if (ex) { excused++; if (excused_sample.empty()) excused_sample = fmt("seed %lu ", seed) + r.cls + " " + r.msg; }
    if (r.foreign_crash) { foreign++; if (foreign_sample.empty()) foreign_sample = fmt("seed %lu: ", seed) + r.msg; }
    if (!r.viol) {
      steps += sh->steps_done; own += sh->own_ops; faults += sh->faults_fired;
      if (sh->nontrivial && sh->own_ops) { nontriv++; traces.insert(r.trace); }
      for (int k = 0; k < sh->nstats; k++) st[sh->stat_name[k]] += sh->stat[k];
      continue;
    }
    if (known.count(r.cls)) { known_hits[r.cls]++; continue; }
    // gate: the same plan again must give the same violation
    Result r2 = is_hang(r.cls) ? r : judge(text, 30);      // a hang has been seen twice by now
    if (!r2.viol || r2.cls != r.cls || r2.hash != r.hash) {
      fprintf(stderr, "sim: seed %lu did not repeat exactly (%s %016lx / %s %016lx)\n", seed, r.cls.c_str(), r.hash, r2.cls.c_str(), r2.hash); nerr++;
      if (nerr > 2) break;
      continue;
    }
    viols++;
    int mr = 0; bool hang = is_hang(r.cls);
    std::string mt = hang ? text : minimise(text, r.cls, &mr);
    Result rm = hang ? r : judge(mt, 30);
    if (!rm.viol || rm.cls != r.cls) { mt = text; rm = r; }
    std::string path = out + "/" + prop + "-" + std::to_string(seed) + ".plan";
    FILE *f = fopen(path.c_str(), "w");
    if (!f) { perror(path.c_str()); return 2; }
    Plan pa, pb; Plan::parse(text, &pa); Plan::parse(mt, &pb);
    fprintf(f, "# replay file: property %s, seed %lu, minimised from %zu to %zu steps in %d runs\n# class %s\n# hash %016lx\n# %s\n", prop.c_str(), seed, pa.steps.size(), pb.steps.size(), mr, rm.cls.c_str(), rm.hash, jesc(rm.msg).c_str());
    fputs(mt.c_str(), f); fclose(f);
    lines.push_back(fmt("{\"seed\":%lu,\"path\":\"%s\",\"class\":\"%s\",\"hash\":\"%016lx\",\"msg\":\"", seed, path.c_str(), jesc(rm.cls).c_str(), rm.hash) + jesc(rm.msg) + "\"}");
    break;
  }
  std::string hp = out + "/traces-" + std::to_string(start) + ".bin";
  FILE *f = fopen(hp.c_str(), "wb"); if (f) { for (uint64_t t : traces) fwrite(&t, 8, 1, f); fclose(f); }
  printf("{\"runs\":%lu,\"steps\":%lu,\"own\":%lu,\"faults\":%lu,\"nontrivial_runs\":%lu,\"foreign_crashes\":%lu,\"excused\":%lu,\"violations\":%lu,\"errors\":%d,\"chain\":\"%016lx\",\"first\":%lu,\"last\":%lu,\"wall\":%.3f,\"traces\":\"%s\",", runs, steps, own, faults, nontriv, foreign, excused, viols, nerr, hx, first_seed, last_seed, el(), hp.c_str());
  printf("\"foreign_sample\":\"%s\",\"excused_sample\":\"%s\",\"viol\":[", jesc(foreign_sample).c_str(), jesc(excused_sample).c_str());
  for (size_t i = 0; i < lines.size(); i++) printf("%s%s", i ? "," : "", lines[i].c_str());
  printf("],\"known\":{"); bool fst = true;
  for (auto &k : known_hits) { printf("%s\"%s\":%lu", fst ? "" : ",", jesc(k.first).c_str(), k.second); fst = false; }
  printf("},\"stats\":{"); fst = true;
  for (auto &k : st) { printf("%s\"%s\":%lu", fst ? "" : ",", jesc(k.first).c_str(), k.second); fst = false; }
  printf("}}\n");
  return nerr ? 2 : 0;
}
int main(int argc, char **argv) {
  struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
  setvbuf(stdout, nullptr, _IOFBF, 1 << 16);
  verbose = getenv("SIM_VERBOSE") != nullptr;
  signal(SIGPIPE, SIG_DFL);
  init_shared();
  ctl = (Ctl *)mmap(nullptr, sizeof(Ctl), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  start_zygote();
  std::string c = argc > 1 ? argv[1] : "";
  if (c == "batch" && argc >= 8) return cmd_batch(argc, argv);
  if (c == "dump" && argc >= 4) { fputs(plan_text(argv[2], strtoull(argv[3], 0, 10)).c_str(), stdout); return 0; }
  if (c == "exec" && argc >= 3) {
    std::string t; FILE *f = fopen(argv[2], "r"); if (!f) { perror(argv[2]); return 2; }
    char b[4096]; size_t k; while ((k = fread(b, 1, sizeof b, f)) > 0) t.append(b, k); fclose(f);
    bool ex = false; Result r = judge(strip(t), 60, &ex);
    printf("{\"violation\":%s,\"excused\":%s,\"class\":\"%s\",\"hash\":\"%016lx\",\"foreign\":%s,\"msg\":\"%s\"}\n", r.viol ? "true" : "false", ex ? "true" : "false", jesc(r.cls).c_str(), r.hash, r.foreign_crash ? "true" : "false", jesc(r.msg).c_str());
    return r.viol ? 1 : 0;
  }
  if (c == "min" && argc >= 3) {
    std::string t; FILE *f = fopen(argv[2], "r"); if (!f) { perror(argv[2]); return 2; }
    char b[4096]; size_t k; while ((k = fread(b, 1, sizeof b, f)) > 0) t.append(b, k); fclose(f);
    t = strip(t); Result r = judge(t, 60); if (!r.viol) { puts("no violation"); return 0; }
    int n; std::string m = minimise(t, r.cls, &n); printf("# class %s\n%s", r.cls.c_str(), m.c_str()); return 1;
  }
  if (c == "hashes" && argc >= 6) {   // prop start stride count: one line per seed
    uint64_t s = strtoull(argv[3], 0, 10), d = strtoull(argv[4], 0, 10), n = strtoull(argv[5], 0, 10);
    for (uint64_t i = 0; i < n; i++) { std::string t = plan_text(argv[2], s + i * d); Result r = run_text(argv[2], t); printf("%lu %016lx %016lx %s\n", s + i * d, r.hash, r.trace, r.cls.c_str()); }
    return 0;
  }
  if (c == "list") return 0;
  fprintf(stderr, "usage: sim batch PROP START STRIDE COUNT SECONDS OUTDIR | exec FILE | min FILE | dump PROP SEED | hashes PROP START STRIDE COUNT\n");
  return 2;
}
