// World: the managers, clients and PSDD handles of one simulated run, with reference distributions.
#pragma once
#include "sim.h"
#include <memory>
#include <psdd/psdd_manager.h>
#include <psdd/psdd_node.h>
#include <set>
#include <unordered_map>
#include <unordered_set>

namespace sim {
typedef long double real;
typedef std::vector<real> Table;          // one value per complete assignment of a manager's variables
typedef std::bitset<MAX_VAR> Bits;

// ---------------------------------------------------------------- vtree specification (the harness' own trees)
struct VSpec { int var; std::unique_ptr<VSpec> l, r; bool leaf() const { return !l; } };
typedef std::shared_ptr<VSpec> VSpecP;
std::unique_ptr<VSpec> vspec_random(const std::vector<int> &vars, int shape, Rng &r);   // shape 0 random 1 balanced 2 right-linear 3 left-linear
Vtree *vspec_build(const VSpec *s);
std::unique_ptr<VSpec> vspec_of(Vtree *v);
std::unique_ptr<VSpec> vspec_clone(const VSpec *s);
std::unique_ptr<VSpec> vspec_project(const VSpec *s, const std::set<int> &keep);
std::unique_ptr<VSpec> vspec_map(const VSpec *s, const std::map<int, int> &m);
bool vspec_same(const VSpec *a, const VSpec *b);
std::string vspec_text(const VSpec *s);
void vspec_leaves(const VSpec *s, std::vector<int> *out);
int vspec_depth(const VSpec *s);

struct VInfo { int pos; Vtree *left, *right, *parent; int var; uint32_t mask; int depth; };
struct Mgr {
  PsddManager *m = nullptr;
  int id = 0, group = 0;
  VSpecP spec;
  std::vector<int> vars;                 // sorted; bit i of an assignment is vars[i]
  std::map<int, int> bit;                // variable -> bit
  std::map<Vtree *, VInfo> vinfo;
  std::vector<Vtree *> vlist;            // deterministic order (BFS)
  int64_t blocks_before = 0;             // live library blocks when the manager was created
  int n() const { return (int)vars.size(); }
  uint32_t full() const { return n() >= 32 ? 0xffffffffu : ((1u << n()) - 1); }
};
struct Handle {
  int id = 0;
  PsddNode *root = nullptr;
  Mgr *mgr = nullptr;
  int client = 0;
  uintmax_t flag = 0;
  Table t;
  Vtree *at = nullptr;
  bool norm = false;      // locally normalised
  bool pos = true;        // no zero parameter
  bool exactp = true;     // parameters not rounded by a file
  size_t nodes = 0;
  uint64_t sig = 0;
};

// an open-addressing map from nodes, for the evaluations over tens of thousands of nodes
template <class V> class NodeMap {
  std::vector<std::pair<PsddNode *, V>> t; size_t n = 0;
  size_t slot(PsddNode *x) const { size_t m = t.size() - 1, i = (size_t)(((uint64_t)(uintptr_t)x * 0x9e3779b97f4a7c15ull) >> 20) & m; while (t[i].first && t[i].first != x) i = (i + 1) & m; return i; }
 public:
  NodeMap() : t(64) {}
  size_t count(PsddNode *x) const { return t[slot(x)].first ? 1 : 0; }
  V &operator[](PsddNode *x) {
    size_t i = slot(x); if (t[i].first) return t[i].second;
    if (++n * 2 > t.size()) { std::vector<std::pair<PsddNode *, V>> o(t.size() * 4); o.swap(t); for (auto &k : o) if (k.first) t[slot(k.first)] = std::move(k); i = slot(x); }
    t[i].first = x; return t[i].second;
  }
};
// ---------------------------------------------------------------- structural reading of PSDDs (through accessors only)
struct Shape {            // a validated view of the nodes under one root, children before parents
  std::vector<PsddNode *> post;
  bool norm = true, pos = true;
  uint64_t sig = 0;
};
// reads the structure below root; returns an empty string or what is malformed
std::string read_shape(const Mgr *m, PsddNode *root, Shape *out, bool check_vtree = true);
Table table_of(const Mgr *m, const Shape &s);
bool primes_exclusive(const Mgr *m, const Shape &s, std::string *why);
real lin(const PsddParameter &p);
bool self_equal(const PsddParameter &p);   // compares and hashes like the number it denotes
uint32_t mask_of(const Mgr *m, Vtree *v);
bool close_to(real a, real b, double tol);
// compares tables; returns description of the first difference or ""
std::string diff_tables(const Table &got, const Table &want, double tol);
real sum_under(const Mgr *m, const Table &t, uint32_t mask);   // sum over the assignments of mask's variables (others 0)
Bits to_bits(const Mgr *m, uint32_t x);
// log-domain value of a PSDD at one assignment (any number of variables)
double log_value(PsddNode *root, const std::function<int(int)> &val);  // val(var): 0, 1 or -1 = unset (summed out)

class World {
public:
  const Plan &plan;
  std::string prop;
  std::set<std::string> armed;           // properties whose oracles are armed in this run
  bool any = false;                      // every oracle armed (counterfactual properties)
  bool cf = false;                       // counterfactual run (the cause under test is switched off)
  std::vector<std::unique_ptr<Mgr>> mgrs;
  std::vector<std::unique_ptr<Handle>> hs;
  int next_handle = 0, next_mgr = 0, next_file = 0;
  int cur_client = 0; int heavy = 0;   // very large operations done in this run
  std::string cur_op;
  Fault cur_fault;
  bool fault_pending = false;
  bool call_failed = false;             // the injected fault surfaced in this step
  int step_no = 0;

  explicit World(const Plan &p);
  ~World();
  void run();
  void step(const Step &s, int i);

  // managers
  Mgr *add_mgr(Rng &r, int group = -1);
  Mgr *adopt_mgr(PsddManager *m, VSpecP spec, int group);
  Mgr *pick_mgr(Rng &r);
  void del_mgr(Mgr *m);
  // handles
  Handle *add(Mgr *m, PsddNode *root, uintmax_t flag, const char *why);
  Handle *pick(Rng &r, Mgr *m, const std::function<bool(Handle *)> &ok = nullptr);
  void drop(Handle *h);
  void trim();
  void verify_all(const char *owner, const char *what);

  // oracles
  bool on(const char *owner) const { return any || armed.count(owner) > 0; }
  // reports a violation if the owner's oracles are armed, otherwise ends the run quietly when fatal
  void bad(const char *owner, const char *what, const std::string &msg, bool fatal = false);
  void activity(const char *owner, const char *f, ...);   // what is being done, and for which property it counts

  // runs a library call under the step's fault; returns true if it completed, false if the injected fault surfaced
  bool call(const std::function<void()> &f, bool gen_fault = false);
  void log(uint64_t v) { hash_mix(v); }
  void logd(double v);
};

typedef void (*OpFn)(World &, Rng &);
struct OpDef { const char *name; OpFn fn; };
void register_op(const char *name, OpFn fn);
OpFn find_op(const std::string &name);
struct OpReg { OpReg(const char *n, OpFn f) { register_op(n, f); } };
#define OP(name) static void op_##name(World &W, Rng &r); static OpReg reg_##name(#name, op_##name); static void op_##name(World &W, Rng &r)

// builders shared by several operations
PsddNode *build_direct(Mgr *m, Vtree *v, Rng &r, uintmax_t flag, std::map<int, int> fixed, int style, std::vector<PsddNode *> *pool);
std::vector<double> random_simplex(size_t k, Rng &r, int style);
// random Boolean function over bits 0..n-1 as truth table together with an SDD for it
struct Formula { std::vector<std::vector<int>> clauses; bool dnf; };   // literals: +-(index+1)
Formula random_formula(Rng &r, int n, const std::vector<int> &over);
bool eval_formula(const Formula &f, uint32_t x);
SddNode *formula_sdd(const Formula &f, SddManager *sm, const std::vector<SddLiteral> &var_of_index);
// an SDD manager over the given vtree spec with its variables renamed to 1..k
struct SddSide {
  SddManager *sm = nullptr;
  std::vector<SddLiteral> var_of;             // index in `vars` -> SDD variable
  std::unordered_map<SddLiteral, SddLiteral> to_sdd;   // PSDD variable -> SDD variable
  SddSide(const VSpec *spec, const std::vector<int> &vars, Rng &r) {
    std::vector<int> perm; for (size_t i = 0; i < vars.size(); i++) perm.push_back((int)i + 1);
    if (r.chance(60)) for (size_t i = perm.size(); i-- > 1;) std::swap(perm[i], perm[r.below(i + 1)]);
    std::map<int, int> mp;
    for (size_t i = 0; i < vars.size(); i++) { mp[vars[i]] = perm[i]; var_of.push_back(perm[i]); to_sdd[vars[i]] = perm[i]; }
    auto sp = vspec_map(spec, mp);
    Vtree *v = vspec_build(sp.get());
    sm = sdd_manager_new(v);
    sdd_vtree_free(v);
    sdd_manager_auto_gc_and_minimize_off(sm);
  }
  ~SddSide() { sdd_manager_free(sm); }
};
const VSpec *spec_at(const Mgr *m, Vtree *v);
uintmax_t pick_flag(Rng &r);
extern thread_local uint64_t g_flag_shift;   // a repeated step may run under another flag (field b of a step without fault)
std::vector<PsddNode *> node_pool(World &W, Mgr *m, size_t limit = 400);

// draws
struct GenThrow {};
}  // namespace sim
