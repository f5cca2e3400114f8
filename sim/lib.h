#pragma once
#include "world.h"
#include <cmath>
#include <psdd/binary_data.h>
#include <psdd/cnf.h>
#include <psdd/psdd_parameter.h>
#include <psdd/random_double_generator.h>
namespace sim {
const VSpec *spec_at(const Mgr *m, Vtree *v);
Vtree *random_vnode(Mgr *m, Rng &r, int root_pct);
void check_cnf(World &W, Mgr *m, PsddNode *x, const Formula &f, uintmax_t flag, const char *how, bool keep);
std::vector<std::vector<SddLiteral>> cnf_clauses(Mgr *m, const Formula &f);
Formula random_cnf(Rng &r, Mgr *m);
bool tame(Handle *h);
void check_product(World &W, const char *owner, Mgr *m, Handle *a, const Table &ta, const Table &tb, std::pair<PsddNode *, PsddParameter> res, Vtree *at, uintmax_t flag);
struct RecGen : RandomDoubleGenerator {
  Rng r; int style; double scale = 1; std::vector<double> draws; int64_t throw_at; size_t replay = 0; const std::vector<double> *from = nullptr; int64_t n = 0;
  RecGen(uint64_t seed, int st, int64_t th) : r(seed), style(st), throw_at(th) {}
  double generate() override {
    NoLib nl;
    if (g_switch_hook) { g_alloc.in_lib = true; g_switch_hook(); g_alloc.in_lib = false; }
    if (throw_at >= 0 && n == throw_at) { n++; throw GenThrow(); }
    n++;
    double d;
    if (from) d = replay < from->size() ? (*from)[replay++] : 1.0;
    else switch (style) {
      case 1: d = std::pow(10.0, 20 * (r.real() - 0.5)); break;
      case 2: d = 1.0; break;
      case 3: d = r.chance(50) ? 1.0 : std::pow(10.0, -9 - 3 * r.real()); break;
      default: d = (0.05 + r.real()) * scale;
    }
    draws.push_back(d);
    return d;
  }
};
struct ScriptGen : RandomDoubleFromUniformGenerator {
  Rng r; int style; double lo, hi; int64_t n = 0, throw_at; std::vector<double> script; std::vector<double> used;
  ScriptGen(double a, double b, uint64_t seed, int st, int64_t th) : RandomDoubleFromUniformGenerator(a, b, 1), r(seed), style(st), lo(a), hi(b), throw_at(th) {}
  double generate() override {
    NoLib nl;
    if (g_switch_hook) { g_alloc.in_lib = true; g_switch_hook(); g_alloc.in_lib = false; }
    if (throw_at >= 0 && n == throw_at) { n++; throw GenThrow(); }
    double u;
    if ((size_t)n < script.size()) u = script[(size_t)n];
    else switch (style) {
      case 1: u = 0; break;
      case 2: u = 1.0 - 1.0 / 9007199254740992.0; break;                 // the largest draw below the maximum
      case 3: u = r.chance(30) ? 0 : r.chance(40) ? 1.0 - 1.0 / 9007199254740992.0 : r.real(); break;
      case 4: u = std::pow(10.0, -18 * r.real()); break;
      case 5: u = 1.0 - std::pow(10.0, -5 - 11 * r.real()); break;
      default: u = r.real();
    }
    n++;
    double d = lo + u * (hi - lo);
    if (d >= hi) d = std::nextafter(hi, lo);
    if (d < lo) d = lo;
    used.push_back(d);
    return d;
  }
};
IoPlan benign_plan(Rng &r);
std::string new_path(World &W, const char *kind);
void note_io(const char *what);
bool benign_call(World &W, Rng &r, const std::function<void()> &f);
const char *io_name(int e);
uint64_t cut_point(Rng &r, const std::string &s);
struct RawNet { int vars; bool bayes; bool free = false; /* variables without factors */ std::vector<std::vector<size_t>> scopes; std::vector<std::vector<std::string>> entries; };   // scopes 0-based
RawNet raw_net(Rng &r);
std::string raw_text(Rng &r, const RawNet &n, size_t *last_entry);
uint64_t frees_seen();          // blocks of the library released so far; the last 32768 of them can be asked about
SubResult run_tool(int (*tool)(int, const char **), const std::vector<std::string> &args, const IoPlan *io, uint64_t heur);
void log_tool(const SubResult &q);
bool close_log(double got, double want);
std::string shown(Rng &r, const std::string &p);
std::string same_tree(Vtree *v, const VSpec *want, Vtree *parent);
bool block_freed(void *p);      // the block that starts at p was obtained by the library and has been deleted
PsddNode *rerequest(Mgr *m, PsddNode *x, Rng &r, PsddManager *pm = nullptr);   // asks the manager again for the content of x
bool sdd_eval(SddNode *n, const std::function<bool(SddLiteral)> &val, std::map<SddSize, bool> &memo);
}  // namespace sim
