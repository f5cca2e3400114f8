#include "world.h"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <new>
#include <sys/mman.h>
#include <unistd.h>

namespace sim {
// ---------------------------------------------------------------- vtree specs
static std::unique_ptr<VSpec> leaf(int v) { auto s = std::make_unique<VSpec>(); s->var = v; return s; }
std::unique_ptr<VSpec> vspec_random(const std::vector<int> &vars, int shape, Rng &r) {
  if (vars.size() == 1) return leaf(vars[0]);
  size_t k;
  switch (shape) {
    case 1: k = vars.size() / 2; break;
    case 2: k = 1; break;
    case 3: k = vars.size() - 1; break;
    default: k = 1 + r.below(vars.size() - 1);
  }
  auto s = std::make_unique<VSpec>(); s->var = 0;
  s->l = vspec_random(std::vector<int>(vars.begin(), vars.begin() + k), shape, r);
  s->r = vspec_random(std::vector<int>(vars.begin() + k, vars.end()), shape, r);
  return s;
}
static Vtree *build_rec(const VSpec *s) {
  if (s->leaf()) return new_leaf_vtree(s->var);
  Vtree *l = build_rec(s->l.get()); Vtree *r = build_rec(s->r.get());
  return new_internal_vtree(l, r);
}
Vtree *vspec_build(const VSpec *s) { Vtree *v = build_rec(s); set_vtree_properties(v); return v; }
std::unique_ptr<VSpec> vspec_of(Vtree *v) {
  if (!v) return nullptr;
  if (sdd_vtree_is_leaf(v)) return leaf((int)sdd_vtree_var(v));
  auto s = std::make_unique<VSpec>(); s->var = 0; s->l = vspec_of(sdd_vtree_left(v)); s->r = vspec_of(sdd_vtree_right(v)); return s;
}
std::unique_ptr<VSpec> vspec_clone(const VSpec *s) {
  auto t = std::make_unique<VSpec>(); t->var = s->var;
  if (!s->leaf()) { t->l = vspec_clone(s->l.get()); t->r = vspec_clone(s->r.get()); }
  return t;
}
std::unique_ptr<VSpec> vspec_project(const VSpec *s, const std::set<int> &keep) {
  if (s->leaf()) return keep.count(s->var) ? leaf(s->var) : nullptr;
  auto l = vspec_project(s->l.get(), keep), r = vspec_project(s->r.get(), keep);
  if (!l) return r;
  if (!r) return l;
  auto t = std::make_unique<VSpec>(); t->var = 0; t->l = std::move(l); t->r = std::move(r); return t;
}
std::unique_ptr<VSpec> vspec_map(const VSpec *s, const std::map<int, int> &m) {
  auto t = std::make_unique<VSpec>(); t->var = 0;
  if (s->leaf()) t->var = m.at(s->var);
  else { t->l = vspec_map(s->l.get(), m); t->r = vspec_map(s->r.get(), m); }
  return t;
}
bool vspec_same(const VSpec *a, const VSpec *b) {
  if (!a || !b) return a == b;
  if (a->leaf() != b->leaf()) return false;
  if (a->leaf()) return a->var == b->var;
  return vspec_same(a->l.get(), b->l.get()) && vspec_same(a->r.get(), b->r.get());
}
std::string vspec_text(const VSpec *s) {
  if (!s) return "-";
  if (s->leaf()) return std::to_string(s->var);
  return "(" + vspec_text(s->l.get()) + " " + vspec_text(s->r.get()) + ")";
}
void vspec_leaves(const VSpec *s, std::vector<int> *out) {
  if (s->leaf()) out->push_back(s->var); else { vspec_leaves(s->l.get(), out); vspec_leaves(s->r.get(), out); }
}
int vspec_depth(const VSpec *s) { return s->leaf() ? 0 : 1 + std::max(vspec_depth(s->l.get()), vspec_depth(s->r.get())); }

// ---------------------------------------------------------------- reading PSDDs
bool self_equal(const PsddParameter &p) { PsddParameter q = PsddParameter::CreateFromLog(p.parameter()); return p == q && !(p != q) && !(p < q) && !(p > q) && p.hash_value() == q.hash_value(); }
real lin(const PsddParameter &p) { return expl((real)p.parameter()); }
uint32_t mask_of(const Mgr *m, Vtree *v) { auto i = m->vinfo.find(v); return i == m->vinfo.end() ? 0 : i->second.mask; }

std::string read_shape(const Mgr *m, PsddNode *root, Shape *out, bool check_vtree) {
  out->post.clear(); out->norm = true; out->pos = true; out->sig = 0;
  if (!root) return "null node";
  std::unordered_map<PsddNode *, uint64_t> done;
  std::vector<std::pair<PsddNode *, bool>> st;
  st.push_back({root, false});
  while (!st.empty()) {
    auto top = st.back(); st.pop_back();
    PsddNode *x = top.first;
    if (!x) return "null child";
    if (done.count(x)) continue;
    int ty = x->node_type();
    if (ty < 1 || ty > 3) return fmt("node type %d", ty);
    Vtree *v = x->vtree_node();
    const VInfo *vi = nullptr;
    if (check_vtree) {
      auto it = m->vinfo.find(v);
      if (it == m->vinfo.end()) return "node refers to a vtree node of another manager";
      vi = &it->second;
    }
    if (ty == 2) {
      PsddDecisionNode *d = x->psdd_decision_node();
      if (!d) return "decision node cast";
      const auto &P = d->primes(); const auto &S = d->subs(); const auto &A = d->parameters();
      if (P.empty()) return "decision node without elements";
      if (P.size() != S.size() || P.size() != A.size()) return "element arrays of different size";
      if (vi && vi->var) return "decision node at a leaf vtree";
      if (!top.second) {
        st.push_back({x, true});
        for (size_t i = P.size(); i-- > 0;) { st.push_back({S[i], false}); st.push_back({P[i], false}); }
        continue;
      }
      uint64_t h = mix64(2 ^ (uint64_t)(uintptr_t)x * 3 ^ x->flag_index() * 7 ^ x->node_index() * 11 ^ (uint64_t)(uintptr_t)v);
      real sum = 0;
      for (size_t i = 0; i < P.size(); i++) {
        if (!P[i] || !S[i]) return "null child";
        if (vi) {
          if (P[i]->vtree_node() != vi->left) return "prime not at the left child of the vtree node";
          if (S[i]->vtree_node() != vi->right) return "sub not at the right child of the vtree node";
        }
        double lp = A[i].parameter();
        if (std::isnan(lp)) return "parameter is not a number";
        if (!self_equal(A[i])) return "parameter compares as another number than it is";
        uint64_t bits; memcpy(&bits, &lp, 8);
        h = mix64(h ^ done[P[i]]); h = mix64(h ^ done[S[i]]); h = mix64(h ^ bits);
        real a = expl((real)lp); sum += a; if (a == 0) out->pos = false;
      }
      if (!(fabsl(sum - 1) < 2e-5L)) out->norm = false;
      done[x] = h;
    } else if (ty == 1) {
      PsddLiteralNode *l = x->psdd_literal_node();
      if (!l) return "literal node cast";
      if (vi && vi->var != (int)l->variable_index()) return "literal at the vtree node of another variable";
      done[x] = mix64(1 ^ (uint64_t)(uintptr_t)x * 3 ^ x->flag_index() * 7 ^ x->node_index() * 11 ^ (uint64_t)(uint32_t)l->literal() * 13 ^ (uint64_t)(uintptr_t)v);
    } else {
      PsddTopNode *t = x->psdd_top_node();
      if (!t) return "top node cast";
      if (vi && vi->var != (int)t->variable_index()) return "top node at the vtree node of another variable";
      double a = t->true_parameter().parameter(), b = t->false_parameter().parameter();
      if (std::isnan(a) || std::isnan(b)) return "parameter is not a number";
      if (!self_equal(t->true_parameter()) || !self_equal(t->false_parameter())) return "parameter compares as another number than it is";
      uint64_t ba, bb; memcpy(&ba, &a, 8); memcpy(&bb, &b, 8);
      real s = expl((real)a) + expl((real)b);
      if (!(fabsl(s - 1) < 2e-5L)) out->norm = false;
      if (std::isinf(a) || std::isinf(b)) out->pos = false;
      done[x] = mix64(mix64(3 ^ (uint64_t)(uintptr_t)x * 3 ^ x->flag_index() * 7 ^ x->node_index() * 11 ^ t->variable_index() * 13 ^ (uint64_t)(uintptr_t)v) ^ ba * 5 ^ bb);
    }
    out->post.push_back(x);
    if (out->post.size() > 200000) return "endless structure";
  }
  out->sig = done[root];
  return "";
}
Table table_of(const Mgr *m, const Shape &s) {
  size_t N = (size_t)1 << m->n();
  std::unordered_map<PsddNode *, Table> T;
  for (PsddNode *x : s.post) {
    Table t(N, 0);
    if (x->node_type() == 1) {
      auto l = x->psdd_literal_node(); auto b = m->bit.find((int)l->variable_index());
      for (size_t i = 0; i < N; i++) t[i] = (b != m->bit.end() && ((i >> b->second) & 1) == (size_t)(l->literal() > 0)) ? 1 : 0;
    } else if (x->node_type() == 3) {
      auto p = x->psdd_top_node(); auto b = m->bit.find((int)p->variable_index());
      real a = lin(p->true_parameter()), c = lin(p->false_parameter());
      for (size_t i = 0; i < N; i++) t[i] = (b != m->bit.end() && ((i >> b->second) & 1)) ? a : c;
    } else {
      auto d = x->psdd_decision_node();
      for (size_t e = 0; e < d->primes().size(); e++) {
        const Table &p = T[d->primes()[e]], &q = T[d->subs()[e]];
        real a = lin(d->parameters()[e]);
        for (size_t i = 0; i < N; i++) t[i] += a * p[i] * q[i];
      }
    }
    T[x] = std::move(t);
  }
  return T[s.post.back()];
}
bool primes_exclusive(const Mgr *m, const Shape &s, std::string *why) {
  size_t N = (size_t)1 << m->n();
  std::unordered_map<PsddNode *, std::vector<char>> T;
  for (PsddNode *x : s.post) {
    std::vector<char> t(N, 0);
    if (x->node_type() == 1) { auto l = x->psdd_literal_node(); int b = m->bit.at((int)l->variable_index()); for (size_t i = 0; i < N; i++) t[i] = ((i >> b) & 1) == (size_t)(l->literal() > 0); }
    else if (x->node_type() == 3) t.assign(N, 1);
    else {
      auto d = x->psdd_decision_node();
      std::vector<char> seen(N, 0);
      for (size_t e = 0; e < d->primes().size(); e++) {
        auto &p = T[d->primes()[e]]; auto &q = T[d->subs()[e]];
        for (size_t i = 0; i < N; i++) { if (p[i]) { if (seen[i]) { *why = "two primes of one decision node share a model"; return false; } seen[i] = 1; if (q[i]) t[i] = 1; } }
      }
    }
    T[x] = std::move(t);
  }
  return true;
}
bool close_to(real a, real b, double tol) {
  if (a == b) return true;
  real m = fabsl(a) > fabsl(b) ? fabsl(a) : fabsl(b);
  return fabsl(a - b) <= tol * m;
}
std::string diff_tables(const Table &g, const Table &w, double tol) {
  if (g.size() != w.size()) return fmt("sizes %zu and %zu", g.size(), w.size());
  for (size_t i = 0; i < g.size(); i++) {
    bool zg = g[i] == 0, zw = w[i] == 0;
    if (zg != zw || !close_to(g[i], w[i], tol)) return fmt("at assignment %zu: got %.12Lg, expected %.12Lg", i, g[i], w[i]);
  }
  return "";
}
real sum_under(const Mgr *m, const Table &t, uint32_t mask) {
  (void)m; real s = 0;
  for (size_t i = 0; i < t.size(); i++) if ((i & ~(size_t)mask) == 0) s += t[i];
  return s;
}
Bits to_bits(const Mgr *m, uint32_t x) { Bits b; for (int i = 0; i < m->n(); i++) if ((x >> i) & 1) b.set((size_t)m->vars[i]); return b; }

double log_value(PsddNode *root, const std::function<int(int)> &val) {
  NodeMap<double> T;
  std::vector<std::pair<PsddNode *, bool>> st{{root, false}};
  const double NI = -INFINITY;
  auto add = [&](double a, double b) { if (a == NI) return b; if (b == NI) return a; return a > b ? a + std::log1p(std::exp(b - a)) : b + std::log1p(std::exp(a - b)); };
  while (!st.empty()) {
    auto top = st.back(); st.pop_back(); PsddNode *x = top.first;
    if (T.count(x)) continue;
    if (x->node_type() == 1) { auto l = x->psdd_literal_node(); int v = val((int)l->variable_index()); T[x] = (v < 0 || v == (l->literal() > 0)) ? 0 : NI; }
    else if (x->node_type() == 3) { auto t = x->psdd_top_node(); int v = val((int)t->variable_index());
      double a = t->true_parameter().parameter(), b = t->false_parameter().parameter(); T[x] = v < 0 ? add(a, b) : v ? a : b; }
    else {
      auto d = x->psdd_decision_node();
      if (!top.second) { st.push_back({x, true}); for (auto p : d->primes()) st.push_back({p, false}); for (auto p : d->subs()) st.push_back({p, false}); continue; }
      double s = NI;
      for (size_t e = 0; e < d->primes().size(); e++) s = add(s, d->parameters()[e].parameter() + T[d->primes()[e]] + T[d->subs()[e]]);
      T[x] = s;
    }
  }
  return T[root];
}

// ---------------------------------------------------------------- registry
static std::vector<OpDef> &ops() { static std::vector<OpDef> v; return v; }
void register_op(const char *n, OpFn f) { ops().push_back({n, f}); }
OpFn find_op(const std::string &n) { for (auto &o : ops()) if (n == o.name) return o.fn; return nullptr; }

// ---------------------------------------------------------------- world
World::World(const Plan &p) : plan(p), prop(p.prop) {
  cf = p.get("cf") != 0;
  any = prop == "C07" || prop == "C17" || prop == "C18";
  armed.insert(prop);
}
World::~World() {}
void World::logd(double v) { if (g_transcript) { record_value(v); return; } uint64_t b; memcpy(&b, &v, 8); hash_mix(b); }

void World::bad(const char *owner, const char *what, const std::string &msg, bool fatal) {
  if (on(owner)) {
    violation(fmt("%s:%s:%s", prop.c_str(), owner, what).c_str(), "step %d (%s, client %d): %s", step_no, cur_op.c_str(), cur_client, msg.c_str());
  }
  stat_add("foreign mismatches (not this property)");
  if (fatal) throw RunAbort();
}
void World::activity(const char *owner, const char *f, ...) {
  char b[160]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
  sh->own = on(owner);
  if (sh->own) sh->own_ops++;
  snprintf(sh->where, sizeof sh->where, "step %d op %s: %s [%s]", step_no, cur_op.c_str(), b, owner);
  g_alloc.armed = false;
}

bool World::call(const std::function<void()> &f, bool gen_fault) {
  bool armed_here = fault_pending && cur_fault.kind == F_ALLOC && !cf;
  fault_pending = false;
  if (armed_here) { g_alloc.armed = true; g_alloc.count = 0; g_alloc.fail_at = cur_fault.a; g_alloc.fail_n = cur_fault.b ? cur_fault.b : 1; g_alloc.fired = 0; }
  bool ok = false;
  try {
    Lib l;
    f();
    ok = true;
  } catch (const std::bad_alloc &) {
    g_alloc.armed = false;
    if (!armed_here || !g_alloc.fired) { g_alloc.in_lib = false; bad("C17", "bad_alloc", "std::bad_alloc without an injected failure", true); }
    sh->faults_fired++; stat_add("fault: allocation failed, exception delivered"); stat_add(("alloc fault in " + cur_op).c_str());
  } catch (const GenThrow &) {
    g_alloc.armed = false;
    if (!gen_fault) throw;
    sh->faults_fired++; stat_add("fault: generator threw, exception delivered");
  }
  if (ok && armed_here && g_alloc.fired) { sh->faults_fired++; stat_add("fault: allocation failed, absorbed by the operation"); }
  g_alloc.armed = false;
  hash_mix(ok ? 1 : 2);
  if (!ok) call_failed = true;
  return ok;
}

Mgr *World::adopt_mgr(PsddManager *pm, VSpecP spec, int group) {
  auto m = std::make_unique<Mgr>();
  m->m = pm; m->id = next_mgr++; m->group = group; m->spec = spec;
  vspec_leaves(spec.get(), &m->vars); std::sort(m->vars.begin(), m->vars.end());
  for (size_t i = 0; i < m->vars.size(); i++) m->bit[m->vars[i]] = (int)i;
  std::vector<std::pair<Vtree *, int>> q{{pm->vtree(), 0}};
  for (size_t i = 0; i < q.size(); i++) {
    Vtree *v = q[i].first; VInfo vi; vi.pos = (int)sdd_vtree_position(v); vi.depth = q[i].second; vi.parent = sdd_vtree_parent(v); vi.left = vi.right = nullptr; vi.var = 0; vi.mask = 0;
    if (sdd_vtree_is_leaf(v)) { vi.var = (int)sdd_vtree_var(v); auto b = m->bit.find(vi.var); vi.mask = b == m->bit.end() || b->second > 31 ? 0 : 1u << b->second; }
    else { vi.left = sdd_vtree_left(v); vi.right = sdd_vtree_right(v); q.push_back({vi.left, vi.depth + 1}); q.push_back({vi.right, vi.depth + 1}); }
    m->vinfo[v] = vi; m->vlist.push_back(v);
    if (q.size() > 5000) break;
  }
  for (size_t i = m->vlist.size(); i-- > 0;) { VInfo &vi = m->vinfo[m->vlist[i]]; if (vi.left) vi.mask = m->vinfo[vi.left].mask | m->vinfo[vi.right].mask; }
  auto got = vspec_of(pm->vtree());
  if (!vspec_same(got.get(), spec.get())) bad("C25", "manager-vtree", fmt("manager created over %s has vtree %s", vspec_text(spec.get()).c_str(), vspec_text(got.get()).c_str()), true);
  mgrs.push_back(std::move(m));
  return mgrs.back().get();
}
// labels of the variables of a group: contiguous, shuffled, sparse or large
static std::vector<int> labels(Rng &r, int n, int style) {
  std::vector<int> v;
  std::set<int> used;
  for (int i = 0; i < n; i++) {
    int x;
    if (style == 0 || style == 1) x = i + 1;
    else if (style == 2) { do x = 1 + (int)r.below(40); while (used.count(x)); }
    else { do x = 1 + (int)r.below(65535); while (used.count(x)); if (i == 0 && r.chance(30)) x = 65535; if (used.count(x)) x = 65534 - i; }
    used.insert(x); v.push_back(x);
  }
  if (style != 0) for (int i = n - 1; i > 0; i--) std::swap(v[i], v[r.below(i + 1)]);
  return v;
}
Mgr *World::add_mgr(Rng &r0, int group) {
  // all managers of a group have the same vtree, decided by the configuration
  (void)r0;
  int groups = (int)plan.get("groups", 1);
  if (group < 0) group = (int)(next_mgr % groups);
  int64_t blocks = g_lib_blocks;
  VSpecP spec;
  for (auto &m : mgrs) if (m->group == group) spec = m->spec;
  if (!spec) {
    Rng r(mix64((uint64_t)plan.get("vseed") + 77 * (uint64_t)group));
    int n = (int)plan.get("n", 4);
    auto L = labels(r, n, (int)plan.get("labels"));
    spec = VSpecP(vspec_random(L, (int)plan.get("shape"), r).release());
  }
  Vtree *v = vspec_build(spec.get());
  PsddManager *pm = nullptr;
  { Lib l; pm = PsddManager::GetPsddManagerFromVtree(v); }
  sdd_vtree_free(v);
  Mgr *m = adopt_mgr(pm, spec, group);
  m->blocks_before = blocks;
  return m;
}
Mgr *World::pick_mgr(Rng &r) {
  if (mgrs.empty()) return nullptr;
  // clients prefer "their" manager
  if (r.chance(70)) return mgrs[(size_t)cur_client % mgrs.size()].get();
  return mgrs[r.below(mgrs.size())].get();
}
void World::del_mgr(Mgr *m) {
  for (size_t i = 0; i < hs.size();) if (hs[i]->mgr == m) hs.erase(hs.begin() + i); else i++;
  { Lib l; delete m->m; }
  for (size_t i = 0; i < mgrs.size(); i++) if (mgrs[i].get() == m) { mgrs.erase(mgrs.begin() + i); break; }
}
Handle *World::add(Mgr *m, PsddNode *root, uintmax_t flag, const char *why) {
  if (!root) return nullptr;
  Shape s;
  std::string e = read_shape(m, root, &s);
  if (!e.empty()) { stat_add("foreign: malformed PSDD"); (void)why; throw RunAbort(); }
  auto h = std::make_unique<Handle>();
  h->id = next_handle++; h->root = root; h->mgr = m; h->client = cur_client; h->flag = flag; h->at = root->vtree_node();
  h->t = table_of(m, s); h->norm = s.norm; h->pos = s.pos; h->nodes = s.post.size(); h->sig = s.sig;
  hash_mix(h->nodes);
  for (real v : h->t) logd((double)v);
  hs.push_back(std::move(h));
  return hs.back().get();
}
Handle *World::pick(Rng &r, Mgr *m, const std::function<bool(Handle *)> &ok) {
  std::vector<Handle *> own, all;
  for (auto &h : hs) { if (m && h->mgr != m) continue; if (ok && !ok(h.get())) continue; all.push_back(h.get()); if (h->client == cur_client) own.push_back(h.get()); }
  if (all.empty()) return nullptr;
  if (!own.empty() && r.chance(60)) {
    if (r.chance(50)) return own.back();
    return own[r.below(own.size())];
  }
  return all[r.below(all.size())];
}
void World::drop(Handle *h) { for (size_t i = 0; i < hs.size(); i++) if (hs[i].get() == h) { hs.erase(hs.begin() + i); return; } }
void World::trim() {
  size_t cap = (size_t)plan.get("handles", 14);
  while (hs.size() > cap) hs.erase(hs.begin() + (long)(mix64(plan.seed ^ (uint64_t)step_no * 31) % (hs.size() - 1)));
}
void World::verify_all(const char *owner, const char *what) {
  if (!on(owner)) return;
  sh->own = 1;
  snprintf(sh->where, sizeof sh->where, "step %d op %s: verification of all held PSDDs [%s]", step_no, cur_op.c_str(), owner);
  for (auto &h : hs) {
    Shape s;
    std::string e = read_shape(h->mgr, h->root, &s);
    if (!e.empty()) bad(owner, what, fmt("PSDD %d held by client %d is damaged: %s", h->id, h->client, e.c_str()), true);
    if (s.sig != h->sig) {
      Table t = table_of(h->mgr, s);
      std::string d = diff_tables(t, h->t, 0);
      bad(owner, what, fmt("PSDD %d held by client %d has changed (%s)", h->id, h->client, d.empty() ? "node content" : d.c_str()), true);
    }
  }
}
void World::step(const Step &s, int i) {
  step_no = i; cur_client = s.client; cur_op = s.op; cur_fault = s.f; fault_pending = s.f.kind != F_NONE;
  sh->step = i; sh->own = 0;
  OpFn f = find_op(s.op);
  if (!f) { fprintf(stderr, "unknown op %s\n", s.op.c_str()); _exit(3); }
  hash_mix((uint64_t)i); hash_str(s.op.c_str());
  sh->trace = mix64(sh->trace ^ mix64((uint64_t)s.client * 1000003 + (uint64_t)s.f.kind)); for (char c : s.op) sh->trace = sh->trace * 31 + (uint64_t)c;
  uint64_t ff = sh->faults_fired;
  g_flag_shift = s.f.kind == F_NONE ? s.f.b : 0;
  Rng r(s.seed);
  snprintf(sh->where, sizeof sh->where, "step %d op %s", i, s.op.c_str());
  call_failed = false;
  f(*this, r);
  g_alloc.armed = false; g_alloc.in_lib = false;
  if (call_failed && prop == "C17") {          // the failure must have left no trace; the operation is then repeated
    sh->own = 1; sh->own_ops++; sh->nontrivial++;
    snprintf(sh->where, sizeof sh->where, "step %d op %s: verification after the failure [C17]", i, s.op.c_str());
    verify_all("C17", "after-failure");
    fault_pending = false; cur_fault = Fault();
    if (mix64(s.seed ^ 0x7e7e) % 100 < 50) {   // otherwise the plan goes on, and may repeat the operation later
      Rng r2(s.seed);
      f(*this, r2);
      g_alloc.armed = false; g_alloc.in_lib = false;
    }
  }
  if (sh->faults_fired != ff) sh->trace = mix64(sh->trace ^ 0xfau);
  sh->trace = mix64(sh->trace ^ hs.size());
  size_t nn = 0; for (auto &h : hs) nn += h->nodes;
  sh->shape = mix64(sh->shape ^ nn);
  sh->steps_done++;
  stat_add(("op " + s.op).c_str());
  trim();
}
void World::run() {
  Rng r0(plan.seed);
  int nm = (int)plan.get("managers", 1);
  try {
    for (int i = 0; i < nm; i++) add_mgr(r0);
    for (size_t i = 0; i < plan.steps.size(); i++) step(plan.steps[i], (int)i);
    if (any) { snprintf(sh->where, sizeof sh->where, "final verification"); sh->own = 1; verify_all(prop.c_str(), "final"); }
  } catch (const RunAbort &) {
    stat_add("runs ended early by a foreign mismatch");
  }
}
}  // namespace sim
