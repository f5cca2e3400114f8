// Plans: what a run does, decided from one seed; their text form is the replay file.
#include "sim.h"
#include <algorithm>
#include <cstring>
#include <cstdlib>
#include <set>

namespace sim {
std::string Plan::text() const {
  std::string o = "prop " + prop + "\nseed " + std::to_string(seed) + "\n";
  for (auto &k : cfg) o += "cfg " + k.first + " " + std::to_string(k.second) + "\n";
  for (auto &s : steps) o += "step " + s.op + " " + std::to_string(s.seed) + " " + std::to_string(s.client) + " " + std::to_string(s.f.kind) + " " + std::to_string(s.f.a) + " " + std::to_string(s.f.b) + "\n";
  return o;
}
bool Plan::parse(const std::string &t, Plan *p) {
  size_t i = 0;
  while (i < t.size()) {
    size_t j = t.find('\n', i); if (j == std::string::npos) j = t.size();
    std::string l = t.substr(i, j - i); i = j + 1;
    if (l.empty() || l[0] == '#') continue;
    char w[16], a[64]; unsigned long long s, fa, fb; int cl, k; long long v;
    if (sscanf(l.c_str(), "prop %15s", w) == 1) p->prop = w;
    else if (sscanf(l.c_str(), "seed %llu", &s) == 1) p->seed = s;
    else if (sscanf(l.c_str(), "cfg %63s %lld", a, &v) == 2) p->cfg[a] = v;
    else if (sscanf(l.c_str(), "step %63s %llu %d %d %llu %llu", a, &s, &cl, &k, &fa, &fb) == 6) { Step st; st.op = a; st.seed = s; st.client = cl; st.f.kind = k; st.f.a = fa; st.f.b = fb; p->steps.push_back(st); }
    else return false;
  }
  return !p->prop.empty();
}

struct OpW { const char *op; int w; bool prim; };
struct Profile {
  std::vector<OpW> ops;
  int smin, smax;              // steps
  int nmin, nmax;              // variables
  int managers, groups;
  int fault_pct;               // percentage of plans that carry allocation/generator faults
  int builders;                // initial builder steps
};
static const std::vector<OpW> build_ops = {{"b_direct", 8, false}, {"b_sdd", 5, false}, {"b_cnf", 3, false}, {"b_true", 1, false}};

static Profile profile(const std::string &p) {
  std::vector<OpW> dist = {{"b_direct", 6, false}, {"b_sdd", 4, false}, {"b_cnf", 2, false}, {"b_sub", 2, false}, {"b_true", 1, false}, {"mult", 4, false}, {"learn", 2, false}, {"sample", 3, false},
                           {"q_eval", 2, false}, {"q_mpe", 2, false}, {"q_marg", 2, false}, {"q_count", 2, false}, {"q_cons", 1, false}, {"q_size", 1, false}, {"q_tosdd", 2, false}, {"q_dsample", 1, false},
                           {"gc", 3, false}, {"normalize", 1, false}, {"load", 2, false}, {"xmult", 1, false}, {"delmgr", 1, false}, {"newmgr", 1, false}, {"drop", 2, false}, {"f_psdd", 1, false}, {"v_ops", 1, false}, {"conform", 2, false}, {"burn", 1, false}, {"far", 1, false}};
  Profile f{dist, 6, 26, 1, 7, 1, 1, 35, 3};
  auto prim = [&](const char *op, int w) { for (auto &o : f.ops) if (!strcmp(o.op, op)) { o.w = w; o.prim = true; return; } f.ops.push_back({op, w, true}); };
  auto rm = [&](const char *op) { f.ops.erase(std::remove_if(f.ops.begin(), f.ops.end(), [&](const OpW &o) { return !strcmp(o.op, op); }), f.ops.end()); };
  auto only = [&](std::initializer_list<OpW> l) { f.ops.assign(l.begin(), l.end()); };
  if (p == "C01") { prim("mult", 40); prim("big_mult", 2); }
  else if (p == "C02") { prim("q_eval", 30); prim("big_eval", 2); prim("learn", 4); prim("sample", 5); }
  else if (p == "C03") { prim("q_mpe", 30); prim("big_mpe", 2); prim("learn", 4); prim("sample", 5); }
  else if (p == "C04") { prim("q_marg", 30); prim("big_marg", 2); prim("learn", 4); prim("sample", 5); }
  else if (p == "C05") { prim("q_count", 12); prim("q_cons", 12); prim("q_size", 10); prim("big_count", 4); }
  else if (p == "C06") { prim("ident", 35); prim("u_table", 6); prim("b_direct", 10); prim("b_true", 3); prim("conform", 8); prim("burn", 3); }
  else if (p == "C07") { prim("gc", 18); prim("big_gc", 1); prim("far", 3); prim("ident", 6); prim("mult", 8); prim("conform", 6); f.managers = 2; f.smax = 32; }
  else if (p == "C08") { only({{"mem", 30, true}, {"gc", 10, true}, {"cycle", 6, true}, {"mgrcycle", 8, true}, {"netcycle", 5, true}, {"big_mem", 1, true}, {"big_gc", 1, true}, {"b_direct", 8, false}, {"b_sdd", 4, false}, {"b_cnf", 2, false}, {"mult", 6, false}, {"learn", 3, false}, {"sample", 4, false}, {"load", 2, false}, {"normalize", 1, false}, {"drop", 6, false}, {"b_sub", 2, false}, {"xmult", 1, false}, {"delmgr", 4, true}, {"newmgr", 3, true}}); f.managers = 2; f.groups = 1; f.smax = 20; f.nmax = 6; f.fault_pct = 0; }
  else if (p == "C09") { prim("b_sdd", 30); prim("q_tosdd", 20); prim("big_sdd", 3); }
  else if (p == "C10") { prim("b_cnf", 25); prim("f_cnf", 25); prim("big_cnf", 3); f.smax = 18; }
  else if (p == "C11") { prim("learn", 35); prim("big_learn", 2); f.nmax = 6; }
  else if (p == "C12") { prim("sample", 35); prim("big_sample", 1); prim("rng", 2); prim("b_sub", 4); f.nmax = 6; }
  else if (p == "C13") { prim("q_dsample", 35); prim("big_dsample", 1); prim("rng", 2); prim("b_direct", 8); }
  else if (p == "C14") { prim("f_psdd", 30); prim("big_file", 3); f.smax = 16; }
  else if (p == "C15") { only({{"f_psdd_fault", 30, true}, {"f_data_fault", 8, true}, {"b_direct", 8, false}, {"b_sdd", 4, false}, {"b_cnf", 2, false}, {"mult", 3, false}, {"learn", 3, false}, {"sample", 4, false}, {"gc", 2, false}, {"drop", 1, false}}); f.smin = 3; f.smax = 9; f.fault_pct = 0; f.nmax = 6; f.builders = 2; }
  else if (p == "C16") { prim("load", 20); prim("normalize", 12); prim("xmult", 18); prim("load_small", 12); prim("big_load", 2); prim("delmgr", 4); prim("newmgr", 6); f.managers = 3; f.nmax = 6; }
  else if (p == "C17") { prim("b_direct", 10); prim("conform", 4); prim("b_sdd", 14); prim("b_cnf", 8); prim("mult", 14); prim("learn", 12); prim("sample", 12); prim("load", 6); prim("normalize", 4); prim("xmult", 5); prim("gc", 6); prim("q_eval", 5); prim("q_mpe", 5); prim("q_marg", 5); prim("q_count", 5); prim("q_cons", 4); prim("q_tosdd", 5); prim("q_dsample", 5); prim("ident", 4); prim("load_small", 4); rm("f_psdd"); f.managers = 2; f.fault_pct = 100; f.nmax = 6; }
  else if (p == "C18") { only({{"b_direct", 10, true}, {"b_sdd", 6, true}, {"b_cnf", 4, true}, {"mult", 8, true}, {"learn", 5, true}, {"sample", 5, true}, {"q_eval", 4, true}, {"q_mpe", 4, true}, {"q_marg", 4, true}, {"q_count", 4, true}, {"q_cons", 3, true}, {"q_size", 2, true}, {"q_dsample", 4, true}, {"rng", 1, true}, {"q_tosdd", 4, true}, {"gc", 4, true}, {"load", 3, true}, {"normalize", 2, true}, {"xmult", 2, true}, {"ident", 3, true}, {"v_ops", 3, true}, {"newmgr", 2, true}, {"delmgr", 1, true}, {"f_psdd", 4, true}, {"f_cnf", 2, true}, {"f_data", 2, true}, {"f_data_json", 2, true}, {"f_uai", 2, true}, {"net", 2, true}, {"vgen", 2, true}, {"drop", 1, true}, {"b_true", 1, true}, {"conform", 2, true}});
    f.smin = 8; f.smax = 30; f.nmax = 5; f.managers = 1; f.fault_pct = 0; f.builders = 4; }
  else if (p == "C19") { only({{"f_data", 40, true}, {"f_data_json", 15, true}, {"f_data_fault", 25, true}, {"f_csv", 25, true}, {"b_direct", 3, false}, {"gc", 1, false}}); f.smin = 2; f.smax = 8; f.builders = 0; f.fault_pct = 0; }
  else if (p == "C20") { only({{"f_uai", 40, true}, {"f_uai_fault", 25, true}}); f.smin = 2; f.smax = 7; f.builders = 0; f.fault_pct = 0; }
  else if (p == "C21") { only({{"net", 40, true}, {"big_net", 3, true}, {"b_direct", 3, false}, {"mult", 2, false}}); f.smin = 1; f.smax = 5; f.builders = 0; f.fault_pct = 0; }
  else if (p == "C22") { only({{"vgen", 40, true}}); f.smin = 1; f.smax = 4; f.builders = 0; f.fault_pct = 0; }
  else if (p == "C23") { only({{"t_inf", 40, true}, {"big_tool", 2, true}, {"b_direct", 10, false}, {"b_sdd", 5, false}, {"mult", 4, false}, {"learn", 4, false}}); f.smin = 3; f.smax = 8; f.builders = 2; f.fault_pct = 0; f.nmax = 6; }
  else if (p == "C24") { only({{"t_uai", 40, true}, {"big_uai", 3, true}}); f.smin = 1; f.smax = 3; f.builders = 0; f.fault_pct = 0; }
  else if (p == "C25") { only({{"v_ops", 40, true}, {"newmgr", 4, false}, {"b_direct", 3, false}, {"b_sdd", 4, false}, {"mult", 3, false}, {"normalize", 2, false}, {"delmgr", 2, false}}); f.nmax = 9; f.managers = 2; f.groups = 2; f.fault_pct = 0; }
  return f;
}
static const std::set<std::string> faultable = {"b_direct", "b_true", "conform", "far", "b_sdd", "b_cnf", "mult", "learn", "sample", "load", "normalize", "xmult", "load_small", "gc", "q_eval", "q_mpe", "q_marg", "q_count", "q_cons", "q_tosdd", "q_dsample"};

Plan make_plan(const std::string &prop, uint64_t seed) {
  uint64_t h = 1469598103934665603ULL; for (char c : prop) h = (h ^ (unsigned char)c) * 1099511628211ULL;
  Rng r(mix64(seed * 0x9E3779B97F4A7C15ULL ^ h));
  Profile f = profile(prop);
  Plan p; p.prop = prop; p.seed = seed;
  static const int sizes[] = {1, 2, 2, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 6, 6, 7, 8, 9};
  int n; do n = sizes[r.below(18)]; while (n < f.nmin || n > f.nmax);
  p.cfg["n"] = n;
  p.cfg["groups"] = f.groups > 1 ? r.range(1, f.groups) : 1;
  p.cfg["managers"] = f.managers > 1 ? r.range(1, f.managers) : (r.chance(20) ? 2 : 1);
  p.cfg["labels"] = r.chance(45) ? 0 : (int)r.below(4);
  p.cfg["shape"] = r.chance(50) ? 0 : (int)r.below(4);
  p.cfg["vseed"] = (int64_t)r.below(1u << 30);
  p.cfg["handles"] = r.range(6, 16);
  if (r.chance(15)) p.cfg["longnames"] = (int64_t)(1 + r.below(r.chance(50) ? 150 : 900));
  int clients = 1 + (int)r.below(4);
  if (prop == "C18") { p.cfg["threads"] = r.range(2, 4); clients = (int)p.cfg["threads"]; p.cfg["switch"] = (int64_t)1 << r.below(17); p.cfg["style"] = r.chance(30) ? 1 : r.chance(40) ? 2 : 0; p.cfg["sched"] = (int64_t)r.below(1u << 30); }
  // swarm: a random subset of the operations
  std::vector<OpW> ops; for (auto &o : f.ops) if (o.prim || r.chance(72)) ops.push_back(o);
  int primw = 0; for (auto &o : ops) if (o.prim) primw += o.w;
  int tot = 0; for (auto &o : ops) tot += o.w;
  int len = (int)r.range(f.smin, f.smax);
  if (r.chance(10)) len *= 2;
  // bursts of primary operations alternate with disturbance
  int frate = r.chance(f.fault_pct) ? (prop == "C17" ? 15 + (int)r.below(45) : r.chance(50) ? 10 : 25) : 0;
  int primpct = prop == "C17" || prop == "C18" ? 0 : 20 + (int)r.below(60);
  auto pick = [&](bool pr) -> const char * {
    int w = (int)r.below((uint64_t)(pr ? primw : tot));
    for (auto &o : ops) { if (pr && !o.prim) continue; if (w < o.w) return o.op; w -= o.w; }
    return ops[0].op; };
  auto add = [&](const char *op, int client) {
    Step s; s.op = op; s.seed = r.next() >> 1; s.client = client;
    if (frate && faultable.count(op) && r.chance(frate)) {
      if ((s.op == "sample" || s.op == "q_dsample") && r.chance(45)) { s.f.kind = F_GEN; s.f.a = r.below(1 + r.below(24)); }
      else { s.f.kind = F_ALLOC; s.f.a = r.below((uint64_t)1 << r.below(11)); s.f.b = r.chance(75) ? 1 : r.chance(60) ? 2 + r.below(6) : (uint64_t)1 << 40; }
    }
    p.steps.push_back(s); };
  int nb = f.builders ? f.builders - 1 + (int)r.below(3) : 0;
  for (int i = 0; i < nb; i++) {
    int w = (int)r.below(17), k = 0; for (auto &o : build_ops) { if (w < o.w) break; w -= o.w; k++; }
    add(build_ops[(size_t)std::min(k, 3)].op, prop == "C18" ? i % clients : (int)r.below((uint64_t)clients));
  }
  if (prop == "C18" && r.chance(35)) {     // all threads start the same kind of work at about the same time
    static const char *rush[] = {"net", "net", "vgen", "f_psdd", "f_uai", "f_cnf", "f_data", "f_data_json", "q_tosdd", "b_cnf", "b_sdd", "learn", "sample"};
    const char *op = rush[r.below(13)]; int rounds = 1 + (int)r.below(2);
    for (int i = 0; i < rounds * clients; i++) add(op, i % clients);
  }
  // an operation is sometimes repeated: right away or later, by the same or another client, under the same or another flag
  int rep = r.chance(70) ? 12 : 0;
  auto again = [&](Step s) {
    s.f = Fault(); if (r.chance(50)) s.f.b = 1 + r.below(8);
    if (prop != "C18" && r.chance(20)) s.client = (int)r.below((uint64_t)clients);
    p.steps.push_back(s); };
  for (int i = 0; i < len; i++) {
    if (p.steps.size() > 1 && r.chance(rep)) { again(p.steps[p.steps.size() - 1 - r.below(std::min<size_t>(p.steps.size(), 8))]); continue; }
    add(pick(r.chance(primpct)), (int)r.below((uint64_t)clients));
    Step last = p.steps.back();
    if (last.f.kind != F_NONE && r.chance(prop == "C17" ? 50 : 15)) {
      size_t gap = r.below(3);
      for (size_t g = 0; g < gap; g++) add(r.chance(40) ? "gc" : pick(r.chance(primpct)), (int)r.below((uint64_t)clients));
      again(last);
    }
  }
  return p;
}
}  // namespace sim
