// Operations over many variables, wide nodes and tens of thousands of nodes: beyond truth tables.
#include "lib.h"
#include <psdd/pgm_compiler.h>
#include <algorithm>
#include <cmath>
#include <cstring>
#include <gmpxx.h>

extern "C" int psdd_inference_tool_main(int argc, const char *argv[]);
extern "C" int uai_compiler_tool_main(int argc, const char *argv[]);

namespace sim {
// ---------------------------------------------------------------- many variables: beyond truth tables
struct Big { PsddManager *m = nullptr; std::vector<int> vars; VSpecP spec; Mgr mg; std::map<Vtree *, VInfo> info;
  ~Big() { if (m) { Lib l; delete m; } } };
static void big_make(World &W, Big &B, Rng &r, int n = 0) {
  (void)W;
  if (!n) n = (int)r.range(20, r.chance(20) ? 300 : 90);
  if (n > 40 && r.chance(4)) n = (int)r.range(300, 900);
  std::set<int> used; for (int i = 0; i < n; i++) { int x; do x = r.chance(50) ? i + 1 : 1 + (int)r.below(65535); while (used.count(x)); used.insert(x); B.vars.push_back(x); }
  for (int i = n - 1; i > 0; i--) std::swap(B.vars[i], B.vars[r.below(i + 1)]);
  int shape = (int)r.below(4); if (n > 120 && shape >= 2) shape = 1;
  B.spec = VSpecP(vspec_random(B.vars, shape, r).release());
  Vtree *v = vspec_build(B.spec.get()); { Lib l; B.m = PsddManager::GetPsddManagerFromVtree(v); } sdd_vtree_free(v);
}
// bottom-up construction with bounded width: every vtree node gets a few PSDD nodes (a partition of nothing: supports of
// the primes at one node are made exclusive by a distinguishing literal)
// style 0: normalised; 1: normalised, near uniform; 2: not normalised; 3: not normalised and extreme; 4: normalised and extreme
static PsddNode *big_term(Big &B, Vtree *v, std::map<int, int> &a, uintmax_t flag) {
  if (sdd_vtree_is_leaf(v)) { int x = (int)sdd_vtree_var(v); return B.m->GetPsddLiteralNode(a[x] ? x : -x, flag); }
  return B.m->GetConformedPsddDecisionNode({big_term(B, sdd_vtree_left(v), a, flag)}, {big_term(B, sdd_vtree_right(v), a, flag)}, {PsddParameter::CreateFromDecimal(1)}, flag);
}
static int big_style(Rng &r, bool unnorm) { int k = (int)r.below(100); return k < 60 ? 0 : k < 75 || !unnorm ? 1 : k < 88 ? 2 : 3; }
static PsddNode *big_build(Big &B, Rng &r, uintmax_t flag, int style = 0, int widest = 9) {
  double extreme = style == 3 && r.chance(35) ? 3000 : 200;       // beyond what a decimal number can hold
  auto pars = [&](size_t k) {
    std::vector<PsddParameter> A; std::vector<double> w(k); double s = 0;
    for (auto &x : w) { x = style == 0 ? 0.05 + 0.9 * r.real() : style == 4 ? std::pow(10.0, -14 * r.real()) : style == 1 ? 0.45 + 0.1 * r.real() : style == 2 ? std::pow(5.0, 2 * r.real() - 1) : -extreme * r.real(); s += x; }
    for (auto x : w) A.push_back(style == 3 ? PsddParameter::CreateFromLog(x) : PsddParameter::CreateFromDecimal(style < 2 || style == 4 ? x / s : x));
    return A; };
  int wide = r.chance(25) ? 1 : 0;       // one decision node with an element for (nearly) every assignment of its left variables
  bool dense = r.chance(20);             // and small ones of that kind
  // for every vtree node: nodes grouped by the value of its first leaf variable (index 0: false, 1: true, 2: either)
  std::map<Vtree *, std::vector<PsddNode *>> at[3];
  std::vector<Vtree *> q{B.m->vtree()};
  for (size_t i = 0; i < q.size(); i++) if (!sdd_vtree_is_leaf(q[i])) { q.push_back(sdd_vtree_left(q[i])); q.push_back(sdd_vtree_right(q[i])); }
  for (size_t i = q.size(); i-- > 0;) {
    Vtree *v = q[i];
    if (sdd_vtree_is_leaf(v)) {
      int x = (int)sdd_vtree_var(v);
      at[0][v].push_back(B.m->GetPsddLiteralNode(-x, flag)); at[1][v].push_back(B.m->GetPsddLiteralNode(x, flag));
      int c = 1 + (int)r.below(2); for (int k = 0; k < c; k++) { auto p = pars(2); at[2][v].push_back(B.m->GetPsddTopNode((uint32_t)x, flag, p[0], p[1])); }
      continue;
    }
    Vtree *l = sdd_vtree_left(v), *rr = sdd_vtree_right(v);
    int nl = (int)sdd_vtree_var_count(l);
    auto any = [&](Vtree *w) { int g = r.chance(70) ? 2 : (int)r.below(2); auto &x = at[g][w]; return x[r.below(x.size())]; };
    for (int g = 0; g < 3; g++) {
      int c = 1 + (int)r.below(2);
      for (int k = 0; k < c; k++) {
        std::vector<PsddNode *> P, S; std::vector<PsddParameter> A;
        if (g < 2) { P = {at[g][l][r.below(at[g][l].size())]}; S = {any(rr)}; A = style == 2 || style == 3 ? pars(1) : std::vector<PsddParameter>{PsddParameter::CreateFromDecimal(1)}; }
        else if ((wide && nl >= 6 && nl <= widest && r.chance(50)) || (dense && nl >= 2 && nl <= 4 && r.chance(30))) {
          if (nl >= 6) { wide = 0; stat_add("probe: decision node with many elements"); }
          std::vector<int> lv; std::vector<Vtree *> w{l}; for (size_t j = 0; j < w.size(); j++) if (sdd_vtree_is_leaf(w[j])) lv.push_back((int)sdd_vtree_var(w[j])); else { w.push_back(sdd_vtree_left(w[j])); w.push_back(sdd_vtree_right(w[j])); }
          bool skip = r.chance(50);
          for (uint32_t x = 0; x < 1u << nl; x++) { if (skip && x && r.chance(5)) continue; std::map<int, int> a; for (int j = 0; j < nl; j++) a[lv[(size_t)j]] = (x >> j) & 1; P.push_back(big_term(B, l, a, flag)); S.push_back(any(rr)); }
          A = pars(P.size());
        }
        else { P = {at[0][l][r.below(at[0][l].size())], at[1][l][r.below(at[1][l].size())]}; S = {any(rr), any(rr)}; A = pars(2); }
        at[g][v].push_back(B.m->GetConformedPsddDecisionNode(P, S, A, flag));
      }
    }
  }
  auto &x = at[2][B.m->vtree()]; return x[r.below(x.size())];
}
static std::vector<PsddNode *> big_post(PsddNode *root) {
  std::vector<PsddNode *> out; NodeMap<char> seen; std::vector<std::pair<PsddNode *, bool>> st{{root, false}};
  while (!st.empty()) { auto t = st.back(); st.pop_back(); if (t.second) { out.push_back(t.first); continue; } if (seen[t.first]) continue; seen[t.first] = 1; st.push_back({t.first, true}); if (t.first->node_type() == 2) { for (auto p : t.first->psdd_decision_node()->primes()) st.push_back({p, false}); for (auto p : t.first->psdd_decision_node()->subs()) st.push_back({p, false}); } }
  return out;
}
static std::map<int, int> big_sample(PsddNode *root, Rng &r) {   // a model drawn by the harness
  std::map<int, int> a; std::vector<PsddNode *> st{root};
  while (!st.empty()) { PsddNode *x = st.back(); st.pop_back();
    if (x->node_type() == 1) a[(int)x->psdd_literal_node()->variable_index()] = x->psdd_literal_node()->literal() > 0;
    else if (x->node_type() == 3) a[(int)x->psdd_top_node()->variable_index()] = (int)r.below(2);
    else { auto d = x->psdd_decision_node(); size_t e = r.below(d->primes().size()); st.push_back(d->primes()[e]); st.push_back(d->subs()[e]); } }
  return a;
}
static Bits big_bits(const std::map<int, int> &a) { Bits b; for (auto &k : a) if (k.second) b.set((size_t)k.first); return b; }
static std::function<int(int)> valf(const std::map<int, int> &a) { return [&a](int v) { auto i = a.find(v); return i == a.end() ? -1 : i->second; }; }
static bool near_log(double a, double b, double tol) { if (a == b) return true; return std::fabs(a - b) <= tol; }

static PsddNode *huge_build(Big &B, Rng &r, uintmax_t flag, size_t elements);
static PsddNode *big_or_huge(World &W, Big &B, Rng &r, uintmax_t flag, int style) {
  if (r.below(100) == 0 && !W.heavy++) {     // once per run
    for (;;) { big_make(W, B, r, (int)r.range(60, 120)); Vtree *v = B.m->vtree(); if (sdd_vtree_var_count(sdd_vtree_left(v)) >= 15 && sdd_vtree_var_count(sdd_vtree_right(v)) >= 20) break; { Lib l; delete B.m; } B.m = nullptr; B.vars.clear(); }
    size_t per = (size_t)(2 * sdd_vtree_var_count(sdd_vtree_right(B.m->vtree())) - 1); stat_add("probe: more than 65536 nodes");
    Lib l; return huge_build(B, r, flag, r.range(66000, 75000) / per + 1);
  }
  big_make(W, B, r); Lib l; return big_build(B, r, flag, style, r.chance(10) ? 11 : 9);
}
OP(big_mult) {
  Big B; big_make(W, B, r); uintmax_t f1 = pick_flag(r), f2 = pick_flag(r);
  PsddNode *x, *y; int st = big_style(r, true); { Lib l; x = big_build(B, r, f1, st, 7); y = r.chance(10) ? x : big_build(B, r, f1, st, 7); }
  std::pair<PsddNode *, PsddParameter> res;
  W.activity("C01", "Multiply over %zu variables", B.vars.size()); sh->nontrivial++;
  { Lib l; res = B.m->Multiply(x, y, f2); }
  if (!res.first) {  // exclusive?  a model of x that is a model of y refutes it
    for (int i = 0; i < 200; i++) { auto a = big_sample(i & 1 ? x : y, r); if (log_value(x, valf(a)) > -1e300 && log_value(y, valf(a)) > -1e300) W.bad("C01", "lost", "PSDDs with a common model have no product", true); }
    return;
  }
  auto norm = log_value(res.first, [](int) { return -1; });
  if (!near_log(norm, 0, 1e-5 * (double)B.vars.size())) W.bad("C01", "normalised", fmt("product over %zu variables sums to exp(%g)", B.vars.size(), norm), true);
  for (int i = 0; i < 40; i++) {
    auto a = big_sample(i % 3 == 0 ? x : i % 3 == 1 ? y : res.first, r);
    double want = log_value(x, valf(a)) + log_value(y, valf(a)), got = log_value(res.first, valf(a)) + res.second.parameter();
    bool zg = got < -1e300, zw = want < -1e300;
    if (zg != zw || (!zg && !near_log(got, want, 1e-5 * (double)B.vars.size()))) W.bad("C01", "value", fmt("over %zu variables: result * partition is exp(%.10g), expected exp(%.10g)", B.vars.size(), got, want), true);
  }
  stat_add("probe: more than 32 variables", B.vars.size() > 32);
}
OP(big_eval) {
  Big B; int st = big_style(r, true); PsddNode *x = big_or_huge(W, B, r, 0, st);
  for (int i = 0; i < 20; i++) {
    auto a = big_sample(x, r); if (r.chance(20)) { int v = B.vars[r.below(B.vars.size())]; a[v] ^= 1; }
    Bits vb; for (auto it = a.begin(); it != a.end();) if (st < 2 && i % 2 && r.chance(60)) it = a.erase(it); else { vb.set((size_t)it->first); ++it; }
    Probability p;
    W.activity("C02", "Evaluate over %zu variables", B.vars.size()); sh->nontrivial++;
    { Lib l; p = psdd_node_util::Evaluate(vb, big_bits(a), x); }
    double want = log_value(x, valf(a)); bool zg = p.parameter() < -1e300, zw = want < -1e300;
    if (zg != zw || (!zg && !near_log(p.parameter(), want, 1e-5 * (double)B.vars.size()))) W.bad("C02", "value", fmt("over %zu variables: got exp(%.10g), expected exp(%.10g)", B.vars.size(), p.parameter(), want), true);
  }
}
OP(big_mpe) {
  Big B; PsddNode *x = big_or_huge(W, B, r, 0, big_style(r, true));
  std::pair<Bits, Probability> res;
  W.activity("C03", "MPE over %zu variables", B.vars.size()); sh->nontrivial++;
  { Lib l; res = psdd_node_util::GetMPESolution(x); }
  std::map<int, int> a; for (int v : B.vars) { a[v] = res.first.test((size_t)v); res.first.reset((size_t)v); }
  if (res.first.any()) W.bad("C03", "outside", "the MPE assignment sets a variable the PSDD does not have", true);
  double got = log_value(x, valf(a));
  std::unordered_map<PsddNode *, double> best;
  for (auto q : big_post(x)) {
    if (q->node_type() == 1) best[q] = 0;
    else if (q->node_type() == 3) best[q] = std::max(q->psdd_top_node()->true_parameter().parameter(), q->psdd_top_node()->false_parameter().parameter());
    else { double b = -INFINITY; auto d = q->psdd_decision_node(); for (size_t e = 0; e < d->primes().size(); e++) b = std::max(b, d->parameters()[e].parameter() + best[d->primes()[e]] + best[d->subs()[e]]); best[q] = b; }
  }
  double tol = 1e-5 * (double)B.vars.size();
  if (!near_log(got, res.second.parameter(), 1e-6 + 1e-12 * std::fabs(got))) W.bad("C03", "probability", fmt("over %zu variables: MPE reports exp(%.10g), its assignment has exp(%.10g)", B.vars.size(), res.second.parameter(), got), true);
  if (!near_log(got, best[x], tol)) W.bad("C03", "maximum", fmt("over %zu variables: MPE has exp(%.10g), the maximum is exp(%.10g)", B.vars.size(), got, best[x]), true);
}
OP(big_marg) {
  Big B; PsddNode *x = big_or_huge(W, B, r, 0, big_style(r, false));
  std::unordered_map<uint32_t, std::pair<Probability, Probability>> res;
  W.activity("C04", "marginals over %zu variables", B.vars.size()); sh->nontrivial++;
  { Lib l; res = psdd_node_util::GetMarginals(psdd_node_util::SerializePsddNodes(x)); }
  if (res.size() != B.vars.size()) W.bad("C04", "variables", fmt("%zu marginals for %zu variables", res.size(), B.vars.size()), true);
  for (int i = 0; i < 12; i++) {
    int v = B.vars[r.below(B.vars.size())]; std::map<int, int> a{{v, 1}};
    double wt = log_value(x, valf(a)); a[v] = 0; double wf = log_value(x, valf(a));
    auto it = res.find((uint32_t)v); if (it == res.end()) { W.bad("C04", "variables", "a variable has no marginal", true); continue; }
    real f = lin(it->second.first), t = lin(it->second.second);
    if (!close_to(f, expl(wf), 1e-3) || !close_to(t, expl(wt), 1e-3)) W.bad("C04", "value", fmt("over %zu variables, variable %d: got (%.8Lg, %.8Lg), expected (%.8Lg, %.8Lg)", B.vars.size(), v, f, t, expl(wf), expl(wt)), true);
  }
}
OP(big_count) {
  Big B; PsddNode *x = big_or_huge(W, B, r, 0, big_style(r, true));
  mpz_class got; uintmax_t size = 0; bool cons = false;
  auto a = big_sample(x, r); Bits vb; for (auto it = a.begin(); it != a.end();) if (r.chance(40)) it = a.erase(it); else { vb.set((size_t)it->first); ++it; }
  W.activity("C05", "count over %zu variables", B.vars.size()); sh->nontrivial++;
  { Lib l; got = psdd_node_util::ModelCount(psdd_node_util::SerializePsddNodes(x)); size = psdd_node_util::GetPsddSize(x); cons = psdd_node_util::IsConsistent(x, vb, big_bits(a)); }
  std::unordered_map<PsddNode *, mpz_class> c; uintmax_t want_size = 0;
  for (auto q : big_post(x)) {
    if (q->node_type() == 1) c[q] = 1; else if (q->node_type() == 3) { c[q] = 2; want_size++; }
    else { mpz_class s = 0; auto d = q->psdd_decision_node(); for (size_t e = 0; e < d->primes().size(); e++) s += c[d->primes()[e]] * c[d->subs()[e]]; c[q] = s; want_size += d->primes().size() - 1; }
  }
  if (got != c[x]) W.bad("C05", "count", fmt("over %zu variables: %s models counted, %s exist", B.vars.size(), got.get_str().c_str(), c[x].get_str().c_str()), true);
  if (size != want_size) W.bad("C05", "size", fmt("over %zu variables: size %ju, expected %ju", B.vars.size(), size, want_size), true);
  if (!cons) W.bad("C05", "consistent", "a part of a model is called inconsistent", true);
  {      // complete assignments: models, others one or a few variables away from one, and arbitrary ones
    std::map<int, int> f = big_sample(x, r); int k = r.chance(15) ? 1000 : (int)r.below(4); for (int i = 0; i < k; i++) f[B.vars[r.below(B.vars.size())]] ^= 1;
    Bits vs; for (auto &e : f) vs.set((size_t)e.first); Bits ib = big_bits(f); bool got_c = false; auto post = big_post(x);
    std::unordered_map<PsddNode *, char> act;
    for (auto q : post) {
      char w = 1;
      if (q->node_type() == 1) { int l = q->psdd_literal_node()->literal(); w = f.at(std::abs(l)) == (l > 0); }
      else if (q->node_type() == 2) { w = 0; auto d = q->psdd_decision_node(); for (size_t e = 0; e < d->primes().size() && !w; e++) w = act[d->primes()[e]] && act[d->subs()[e]]; }
      act[q] = w;
    }
    W.activity("C05", "consistency of a complete assignment of %zu variables", B.vars.size());
    { Lib l; auto ser = psdd_node_util::SerializePsddNodes(x); got_c = psdd_node_util::IsConsistent(ser, vs, ib); psdd_node_util::SetActivationFlag(ib, ser); }
    bool bad = false; for (auto q : post) bad |= q->activation_flag() != (bool)act[q];
    { Lib l; for (auto q : post) q->ResetActivationFlag(); }
    if (got_c != (bool)act[x]) W.bad("C05", "consistent", fmt("a complete assignment of %zu variables is called %s", B.vars.size(), got_c ? "consistent" : "inconsistent"), true);
    if (bad) W.bad("C05", "activation", fmt("over %zu variables: the wrong nodes are activated by a complete assignment", B.vars.size()), true);
    if (!act[x]) stat_add("probe: inconsistent assignment of many variables");
  }
  if (c[x] > mpz_class("18446744073709551615")) stat_add("probe: more than 2^64 models");
}
}  // namespace sim
namespace sim {
// tens of thousands of nodes: many elements, each with a sub of its own
static PsddNode *huge_build(Big &B, Rng &r, uintmax_t flag, size_t elements) {
  Vtree *lv = sdd_vtree_left(B.m->vtree()), *rv = sdd_vtree_right(B.m->vtree());
  std::vector<SddLiteral> lo; std::function<void(Vtree *)> leaves = [&](Vtree *t) { if (sdd_vtree_is_leaf(t)) lo.push_back(sdd_vtree_var(t)); else { leaves(sdd_vtree_left(t)); leaves(sdd_vtree_right(t)); } }; leaves(lv);
  std::vector<PsddNode *> P, S; std::vector<PsddParameter> A; double unit = 1.0 / (double)elements;
  std::function<PsddNode *(Vtree *, bool)> cell = [&](Vtree *t, bool free) -> PsddNode * {
    if (sdd_vtree_is_leaf(t)) { double p = 0.001 + 0.998 * r.real(); return B.m->GetPsddTopNode((uint32_t)sdd_vtree_var(t), flag, PsddParameter::CreateFromDecimal(p), PsddParameter::CreateFromDecimal(1 - p)); }
    PsddNode *a = cell(sdd_vtree_left(t), free), *b = cell(sdd_vtree_right(t), free);
    return B.m->GetConformedPsddDecisionNode({a}, {b}, {PsddParameter::CreateFromDecimal(1)}, flag); };
  for (size_t e = 0; e < elements; e++) {
    std::map<int, int> as; for (size_t i = 0; i < lo.size(); i++) as[(int)lo[i]] = i < 20 ? (int)(e >> i & 1) : (int)r.below(2);
    P.push_back(big_term(B, lv, as, flag)); S.push_back(cell(rv, true)); A.push_back(PsddParameter::CreateFromDecimal(unit));
  }
  return B.m->GetConformedPsddDecisionNode(P, S, A, flag);
}
OP(big_file) {
  Big B; uintmax_t flag = pick_flag(r); PsddNode *x = big_or_huge(W, B, r, flag, big_style(r, true)), *y = nullptr;
  auto before = big_post(x); std::vector<std::map<int, int>> as; std::vector<double> want;
  for (int i = 0; i < 20; i++) { auto a = big_sample(x, r); if (i % 4 == 3) a[B.vars[r.below(B.vars.size())]] ^= 1; want.push_back(log_value(x, valf(a))); as.push_back(a); }
  IoPlan io; io.benign = r.next() | 1;
  W.activity("C14", "write and read %zu nodes over %zu variables", before.size(), B.vars.size()); sh->nontrivial++;
  fs_set_plan(io);
  { Lib l; psdd_node_util::WritePsddToFile(x, "/simfs/big"); y = B.m->ReadPsddFile("/simfs/big", flag + 1); }
  fs_clear_plan();
  if (sh->io.shorts) stat_add("fault: short read or write", sh->io.shorts);
  if (fs_read("/simfs/big").size() >= FS_BYTES) return;
  if (!y) W.bad("C14", "read", "reading back gave no PSDD", true);
  if (big_post(y).size() > before.size()) W.bad("C14", "size", fmt("%zu nodes written, %zu read back", before.size(), big_post(y).size()), true);
  if (psdd_node_util::GetPsddSize(x) < psdd_node_util::GetPsddSize(y)) W.bad("C14", "size", "the PSDD read back is larger", true);
  for (size_t i = 0; i < as.size(); i++) {
    double g = log_value(y, valf(as[i])); bool zg = g < -1e300, zw = want[i] < -1e300;
    if (zg != zw || (!zg && std::fabs(g - want[i]) > 2e-6 * 2 * (double)B.vars.size())) W.bad("C14", "value", fmt("over %zu variables: exp(%.10g) written, exp(%.10g) read back", B.vars.size(), want[i], g), true);
    if (log_value(x, valf(as[i])) != want[i]) W.bad("C14", "disturbed", "writing changed the PSDD", true);
  }
}
// copies over many variables and deep vtrees, within and between managers
OP(big_load) {
  Big B; uintmax_t flag = pick_flag(r); PsddNode *x = big_or_huge(W, B, r, flag, big_style(r, true));
  auto post = big_post(x);
  PsddManager *o = nullptr; bool other = r.chance(75); if (other) { Lib l; o = PsddManager::GetPsddManagerFromVtree(B.m->vtree()); }
  PsddManager *dst = other ? o : B.m; std::map<SddLiteral, Vtree *> at; { std::vector<Vtree *> q{dst->vtree()}; for (size_t i = 0; i < q.size(); i++) { at[sdd_vtree_position(q[i])] = q[i]; if (!sdd_vtree_is_leaf(q[i])) { q.push_back(sdd_vtree_left(q[i])); q.push_back(sdd_vtree_right(q[i])); } } }
  for (int i = 0; i < 4; i++) {
    PsddNode *part = i == 0 ? x : post[r.below(post.size())]; uintmax_t f2 = pick_flag(r);
    Vtree *v = at[sdd_vtree_position(part->vtree_node())]; int up = (int)r.below(r.chance(50) ? 4 : 400); while (i && up-- && sdd_vtree_parent(v)) v = sdd_vtree_parent(v);
    if (i == 1 && r.chance(50)) v = dst->vtree();
    bool norm = !other && r.chance(60); PsddNode *y = nullptr; if (norm) f2 = flag;
    W.activity("C16", "%s a part of %zu nodes over %zu variables", norm ? "normalise" : "load", big_post(part).size(), B.vars.size()); sh->nontrivial++;
    { Lib l; y = norm ? dst->NormalizePsddNode(v, part, f2) : dst->LoadPsddNode(v, part, f2); }
    if (!y) { W.bad("C16", "none", "a copy over many variables gave no PSDD", true); return; }
    if (y->vtree_node() != v) W.bad("C16", "place", fmt("the copy over %zu variables is not at the requested vtree node", B.vars.size()), true);
    for (auto q : big_post(y)) { if (at[sdd_vtree_position(q->vtree_node())] != q->vtree_node()) W.bad("C16", "owner", "a copied node is at a vtree node of another manager", true); if (!norm && q->flag_index() != f2) W.bad("C16", "flag", "a loaded node carries another flag", true); }
    for (int k = 0; k < 8; k++) {
      auto a = big_sample(part, r); if (k % 3 == 2 && !a.empty()) { auto it = a.begin(); std::advance(it, (long)r.below(a.size())); it->second ^= 1; }
      double want = log_value(part, valf(a)); for (int q : B.vars) if (!a.count(q)) a[q] = (int)r.below(2);
      double got = log_value(y, valf(a)); bool zg = got < -1e300, zw = want < -1e300;
      if (zg != zw || (!zg && !near_log(got, want, 2e-6 * 2 * (double)B.vars.size()))) W.bad("C16", "value", fmt("over %zu variables: exp(%.10g) copied, exp(%.10g) in the copy", B.vars.size(), want, got), true);
    }
  }
  if (o) { Lib l; delete o; }
}
// learning from many examples, or over many variables
OP(big_learn) {
  bool many = r.chance(60);
  Big B; big_make(W, B, r, many ? (int)r.range(1, 6) : (int)r.range(10, r.chance(20) ? 200 : 60)); PsddNode *x; { Lib l; x = big_build(B, r, 0, big_style(r, true), many ? 7 : r.chance(40) ? 10 : 8); }
  static const int sizes[] = {255, 256, 257, 1000, 4096, 32768, 65535, 65536, 65537, 70000, 131073, 200000};
  size_t N = many ? (size_t)sizes[r.below(12)] : (size_t)r.range(0, 150);
  // few distinct records, one of them dominating at times
  std::vector<std::map<int, int>> rec; size_t k = 1 + r.below(many ? 8 : 60);
  for (size_t i = 0; i < k; i++) { auto a = big_sample(x, r); if (r.chance(15)) a[B.vars[r.below(B.vars.size())]] ^= 1; rec.push_back(a); }
  std::vector<uint64_t> mult(k, 0); std::vector<uint16_t> pick(N);
  int skew = r.chance(50) ? 90 : 0;
  for (size_t i = 0; i < N; i++) { size_t c = r.chance(skew) ? 0 : r.below(k); pick[i] = (uint16_t)c; mult[c]++; }
  std::unordered_map<int32_t, BatchedPsddValue> ex;
  for (int v : B.vars) { BatchedPsddValue b(N); for (size_t i = 0; i < N; i++) b[i] = rec[pick[i]][v] != 0; ex[v] = b; }
  static const double alphas[] = {1, 0.5, 1e-3, 100, 0};
  double alpha = alphas[r.below(5)]; if (r.chance(20)) alpha = std::pow(10.0, -r.real() * 60); uintmax_t flag = pick_flag(r); PsddNode *y = nullptr;
  W.activity("C11", "learn from %zu examples over %zu variables", N, B.vars.size()); sh->nontrivial++;
  { Lib l; y = B.m->LearnPsddParameters(x, ex, N, PsddParameter::CreateFromDecimal(alpha), flag); }
  if (!y) { W.bad("C11", "none", "learning returned no PSDD", true); return; }
  auto post = big_post(x); std::unordered_map<PsddNode *, std::vector<double>> cnt;
  for (auto q : post) cnt[q].assign(q->node_type() == 2 ? q->psdd_decision_node()->primes().size() : 2, 0);
  for (size_t i = 0; i < k; i++) if (mult[i]) {
    NodeMap<char> ok;
    for (auto q : post) {
      if (q->node_type() == 1) ok[q] = rec[i][(int)q->psdd_literal_node()->variable_index()] == (q->psdd_literal_node()->literal() > 0);
      else if (q->node_type() == 3) ok[q] = 1;
      else { char c = 0; auto d = q->psdd_decision_node(); for (size_t e = 0; e < d->primes().size(); e++) c |= ok[d->primes()[e]] && ok[d->subs()[e]]; ok[q] = c; }
    }
    if (!ok[x]) continue;
    std::vector<PsddNode *> st{x};
    while (!st.empty()) { auto q = st.back(); st.pop_back();
      if (q->node_type() == 3) cnt[q][(size_t)rec[i][(int)q->psdd_top_node()->variable_index()]] += (double)mult[i];
      else if (q->node_type() == 2) { auto d = q->psdd_decision_node(); for (size_t e = 0; e < d->primes().size(); e++) if (ok[d->primes()[e]] && ok[d->subs()[e]]) { cnt[q][e] += (double)mult[i]; st.push_back(d->primes()[e]); st.push_back(d->subs()[e]); } } }
  }
  for (int i = 0; i < 25; i++) {
    auto a = i < (int)k && i < 8 ? rec[(size_t)i] : big_sample(x, r);
    NodeMap<double> T;
    for (auto q : post) {
      auto &c = cnt[q]; double tot = alpha * (double)c.size(); for (double v : c) tot += v;
      auto th = [&](size_t e) { return std::log(tot == 0 ? 1 / (double)c.size() : (c[e] + alpha) / tot); };
      if (q->node_type() == 1) T[q] = a[(int)q->psdd_literal_node()->variable_index()] == (q->psdd_literal_node()->literal() > 0) ? 0 : -INFINITY;
      else if (q->node_type() == 3) T[q] = th((size_t)a[(int)q->psdd_top_node()->variable_index()]);
      else { double b = -INFINITY; auto d = q->psdd_decision_node(); for (size_t e = 0; e < c.size(); e++) b = std::max(b, th(e) + T[d->primes()[e]] + T[d->subs()[e]]); T[q] = b; }   // at most one element agrees
    }
    double g = log_value(y, valf(a)), w = T[x]; bool zg = g < -1e300, zw = w < -1e300;
    if (zg != zw || (!zg && !near_log(g, w, 1e-5 * (double)(1 + B.vars.size())))) W.bad("C11", "estimate", fmt("learned from %zu examples over %zu variables with alpha %g: exp(%.10g), expected exp(%.10g)", N, B.vars.size(), alpha, g, w), true);
  }
  stat_add("probe: more than 65535 examples", N > 65535);
}
}

namespace sim {
// ---------------------------------------------------------------- more operations over many variables
static std::vector<int> big_leaves(const Big &B) { std::vector<int> l; vspec_leaves(B.spec.get(), &l); return l; }
static std::string big_content(PsddNode *x) {
  std::string k = fmt("%d|%lx|%ju|%ju|", x->node_type(), (unsigned long)(uintptr_t)x->vtree_node(), x->flag_index(), x->node_index()); auto bits = [](double d) { uint64_t b; memcpy(&b, &d, 8); return b; };
  if (x->node_type() == 1) k += fmt("%d", x->psdd_literal_node()->literal());
  else if (x->node_type() == 3) k += fmt("%lx %lx", bits(x->psdd_top_node()->true_parameter().parameter()), bits(x->psdd_top_node()->false_parameter().parameter()));
  else { auto d = x->psdd_decision_node(); for (size_t i = 0; i < d->primes().size(); i++) k += fmt("%lx,%lx,%lx;", (unsigned long)(uintptr_t)d->primes()[i], (unsigned long)(uintptr_t)d->subs()[i], bits(d->parameters()[i].parameter())); }
  return k;
}
// drawing from PSDDs with wide nodes and many variables
OP(big_dsample) {
  Big B; PsddNode *x = big_or_huge(W, B, r, 0, big_style(r, false));
  std::set<int> mine(B.vars.begin(), B.vars.end());
  for (int i = 0; i < 12; i++) {
    int style = r.chance(50) ? 0 : (int)r.below(6); ScriptGen g(r.chance(50) ? 0 : -2, r.chance(50) ? 1 : 5, r.next(), style, -1); Bits b;
    W.activity("C13", "direct sample over %zu variables", B.vars.size()); sh->nontrivial++;
    { Lib l; x->DirectSample(&b, &g); }
    std::map<int, int> a; for (int v : B.vars) { a[v] = b.test((size_t)v); b.reset((size_t)v); }
    if (b.any()) W.bad("C13", "outside", "a sample sets a variable the PSDD does not have", true);
    if (log_value(x, valf(a)) < -1e300) W.bad("C13", "possible", fmt("over %zu variables: drew an assignment of probability zero", B.vars.size()), true);
    for (int v : B.vars) W.log((uint64_t)a[v]);
  }
  // the branch that is taken at the widest node for evenly spaced draws
  PsddNode *w = nullptr; for (auto q : big_post(x)) if (q->node_type() == 2 && (!w || q->psdd_decision_node()->primes().size() > w->psdd_decision_node()->primes().size())) w = q;
  if (!w) return;
  auto d = w->psdd_decision_node(); size_t k = d->primes().size(), K = std::min<size_t>(4 * k + 1, 6000); std::vector<int> hits(k, 0);
  auto post = big_post(w); if (K < 4 * k || K * post.size() > 40000000) return;
  std::unordered_map<PsddNode *, int> at; for (auto q : post) { int i = (int)at.size(); at[q] = i; }
  std::vector<std::vector<std::pair<int, int>>> el(post.size()); for (size_t i = 0; i < post.size(); i++) if (post[i]->node_type() == 2) { auto c = post[i]->psdd_decision_node(); for (size_t e = 0; e < c->primes().size(); e++) if (c->parameters()[e].parameter() > -1e300) el[i].push_back({at[c->primes()[e]], at[c->subs()[e]]}); }
  std::vector<char> ok(post.size());
  for (size_t i = 0; i < K; i++) {
    ScriptGen g(0, 1, 7 + i, 0, -1); g.script = {((double)i + 0.5) / (double)K}; Bits b; { Lib l; w->DirectSample(&b, &g); }
    for (size_t q = 0; q < post.size(); q++) {
      if (post[q]->node_type() == 1) ok[q] = b.test(post[q]->psdd_literal_node()->variable_index()) == (post[q]->psdd_literal_node()->literal() > 0);
      else if (post[q]->node_type() == 3) ok[q] = 1; else { ok[q] = 0; for (auto &p : el[q]) ok[q] |= ok[p.first] && ok[p.second]; }
    }
    int e0 = -1; for (size_t e = 0; e < k && e0 < 0; e++) if (ok[at[d->primes()[e]]] && ok[at[d->subs()[e]]]) e0 = (int)e;
    if (e0 < 0) W.bad("C13", "possible", "drew an assignment of probability zero from a wide node", true); else hits[(size_t)e0]++;
  }
  for (size_t e = 0; e < k; e++) { real th = lin(d->parameters()[e]); if (fabsl((real)hits[e] - th * (real)K) > 1.6L) W.bad("C13", "proportion", fmt("branch %zu of %zu with parameter %.6Lg is taken by %d of %zu equally spaced draws", e, k, th, hits[e], K), true); }
}
OP(big_sample) {
  Big B; PsddNode *x = big_or_huge(W, B, r, pick_flag(r), big_style(r, true)); uintmax_t flag = pick_flag(r);
  auto before = big_post(x); std::vector<std::string> keys; for (size_t i = 0; i < before.size(); i += 1 + before.size() / 400) keys.push_back(big_content(before[i]));
  RecGen g(r.next(), 0, -1); PsddNode *y = nullptr;
  W.activity("C12", "sample the parameters of %zu nodes over %zu variables", before.size(), B.vars.size()); sh->nontrivial++;
  { Lib l; y = B.m->SampleParameters(&g, x, flag); }
  if (!y) { W.bad("C12", "none", "sampling returned no PSDD", true); return; }
  auto after = big_post(y); size_t branches = 0, single = 0, mi = 0, mo = 0;
  for (auto q : before) if (q->node_type() == 3) { branches += 2; mi++; } else if (q->node_type() == 2) { size_t k = q->psdd_decision_node()->primes().size(); branches += k; if (k == 1) single++; else mi++; }
  std::vector<double> th;
  for (auto q : after) {
    if (q->flag_index() != flag) W.bad("C12", "flag", "a node of the sampled PSDD carries another flag", true);
    if (q->node_type() == 1) continue;
    real s = 0; std::vector<PsddParameter> A; if (q->node_type() == 3) A = {q->psdd_top_node()->true_parameter(), q->psdd_top_node()->false_parameter()}; else A = q->psdd_decision_node()->parameters();
    for (auto &p : A) { real v = lin(p); s += v; if (!(v > 0)) W.bad("C12", "zero", "a sampled parameter is zero although every draw is positive", true); }
    if (!close_to(s, 1, 1e-6)) W.bad("C12", "normalised", fmt("the %zu parameters of a sampled node sum to %.9Lg", A.size(), s), true);
    if (A.size() > 1) { mo++; if (A.size() > 3) { std::vector<real> v; for (auto &p : A) v.push_back(lin(p)); std::sort(v.begin(), v.end()); if (v.back() - v[0] < 1e-9L) W.bad("C12", "draws", "the parameters of a sampled node are all equal", true); } }
  }
  if (g.draws.size() != branches && g.draws.size() != branches - single) W.bad("C12", "draws", fmt("%zu draws for %zu parameters", g.draws.size(), branches), true);
  if (mo > mi || mo + 2 + mi / 1000 < mi) W.bad("C12", "sharing", fmt("%zu distinct nodes with several branches became %zu", mi, mo), true);
  for (int i = 0; i < 20; i++) { auto a = big_sample(i & 1 ? x : y, r); if (r.chance(30)) a[B.vars[r.below(B.vars.size())]] ^= 1; if ((log_value(x, valf(a)) < -1e300) != (log_value(y, valf(a)) < -1e300)) W.bad("C12", "support", "sampling changes the support", true); }
  for (size_t i = 0, j = 0; i < before.size(); i += 1 + before.size() / 400, j++) if (big_content(before[i]) != keys[j]) W.bad("C12", "disturbed", "sampling changed its input", true);
  if (r.chance(40)) { RecGen g2(0, 0, -1); g2.from = &g.draws; PsddNode *z = nullptr; { Lib l; z = B.m->SampleParameters(&g2, x, flag); } for (int i = 0; i < 8; i++) { auto a = big_sample(y, r); if (!near_log(log_value(z, valf(a)), log_value(y, valf(a)), 1e-6 * (double)B.vars.size())) W.bad("C12", "repeat", "the same draws give another result", true); } }
}
// a formula over many variables whose models can be counted: independent blocks of neighbouring leaves
struct Blocks { std::vector<std::vector<int>> vars; std::vector<std::vector<std::vector<int>>> clauses; std::vector<std::vector<uint32_t>> models; mpz_class count = 1;   // literals: +-variable
  bool holds(const std::function<int(int)> &val) const { for (auto &c : clauses) for (auto &cl : c) { bool any = false; for (int l : cl) any |= val(std::abs(l)) == (l > 0); if (!any) return false; } return true; } };
static Blocks make_blocks(const Big &B, Rng &r) {
  Blocks K; auto lv = big_leaves(B); int dens = 20 + (int)r.below(80);
  for (size_t i = 0; i < lv.size();) {
    size_t k = std::min<size_t>(lv.size() - i, 1 + r.below(r.chance(10) ? 8 : 5)); std::vector<int> vs(lv.begin() + (long)i, lv.begin() + (long)(i + k)); i += k;
    if (!r.chance(dens)) { mpz_class p = 1; for (size_t j = 0; j < k; j++) p *= 2; K.count *= p; continue; }
    std::vector<std::vector<int>> cs; std::vector<uint32_t> ms;
    do {
      cs.clear(); ms.clear(); size_t c = 1 + r.below(k + 1);
      for (size_t j = 0; j < c; j++) { std::vector<int> cl; size_t len = 1 + r.below(std::min<size_t>(k, 4)); for (size_t q = 0; q < len; q++) { int v = vs[r.below(k)]; cl.push_back(r.chance(50) ? v : -v); } cs.push_back(cl); }
      for (uint32_t a = 0; a < 1u << k; a++) { bool ok = true; for (auto &cl : cs) { bool any = false; for (int l : cl) { size_t p = (size_t)(std::find(vs.begin(), vs.end(), std::abs(l)) - vs.begin()); any |= ((a >> p) & 1) == (uint32_t)(l > 0); } ok &= any; } if (ok) ms.push_back(a); }
    } while (ms.empty());
    K.vars.push_back(vs); K.clauses.push_back(cs); K.models.push_back(ms); K.count *= (unsigned long)ms.size();
  }
  return K;
}
static std::map<int, int> block_model(const Big &B, const Blocks &K, Rng &r) { std::map<int, int> a; for (int v : B.vars) a[v] = (int)r.below(2); for (size_t i = 0; i < K.vars.size(); i++) { uint32_t m = K.models[i][r.below(K.models[i].size())]; for (size_t j = 0; j < K.vars[i].size(); j++) a[K.vars[i][j]] = (int)((m >> j) & 1); } return a; }
static mpz_class big_models(PsddNode *x) {
  std::unordered_map<PsddNode *, mpz_class> c;
  for (auto q : big_post(x)) { if (q->node_type() == 1) c[q] = 1; else if (q->node_type() == 3) c[q] = 2; else { mpz_class s = 0; auto d = q->psdd_decision_node(); for (size_t e = 0; e < d->primes().size(); e++) s += c[d->primes()[e]] * c[d->subs()[e]]; c[q] = s; } }
  return c[x];
}
static void check_blocks(World &W, const char *own, Big &B, const Blocks &K, PsddNode *x, uintmax_t flag, const char *what, Rng &r) {
  if (!x) { W.bad(own, "false", fmt("%s: a satisfiable formula over %zu variables gave no PSDD", what, B.vars.size()), true); return; }
  if (x->vtree_node() != B.m->vtree()) W.bad(own, "place", fmt("%s: the PSDD is not at the root of the vtree", what), true);
  for (auto q : big_post(x)) if (q->flag_index() != flag) { W.bad(own, "flag", fmt("%s: a node carries another flag", what), true); break; }
  mpz_class c = big_models(x); if (c != K.count) W.bad(own, "models", fmt("%s: %s models over %zu variables instead of %s", what, c.get_str().c_str(), B.vars.size(), K.count.get_str().c_str()), true);
  for (int i = 0; i < 24; i++) { auto a = i % 2 ? block_model(B, K, r) : big_sample(x, r); if (i % 4 == 3) a[B.vars[r.below(B.vars.size())]] ^= 1; bool w = K.holds(valf(a)), g = log_value(x, valf(a)) > -1e300; if (w != g) W.bad(own, "models", fmt("%s over %zu variables: an assignment is %sa model of the formula, but %s of the PSDD", what, B.vars.size(), w ? "" : "not ", g ? "it is" : "not"), true); }
}
OP(big_sdd) {
  Big B; big_make(W, B, r, (int)r.range(10, r.chance(30) ? 250 : 70)); uintmax_t flag = pick_flag(r);
  auto vars = B.vars; std::sort(vars.begin(), vars.end()); SddSide side(B.spec.get(), vars, r);
  if (r.chance(4)) {     // an SDD manager whose next node has a number above 65536
    stat_add("probe: SDD manager with 65536 earlier nodes"); SddSize top = 0, goal = 65536 - r.below(60) + r.below(3000); auto lv = big_leaves(B); size_t k = std::min<size_t>(lv.size(), 40);
    for (int i = 0; i < 60000 && top < goal; i++) { SddNode *t = sdd_manager_true(side.sm); for (size_t j = 0; j < k; j++) { SddLiteral v = side.to_sdd[lv[lv.size() - 1 - j]]; t = sdd_conjoin(sdd_manager_literal(r.chance(50) ? v : -v, side.sm), t, side.sm); } top = std::max(top, sdd_id(t)); }
  }
  Blocks K = make_blocks(B, r); SddNode *sn = sdd_manager_true(side.sm);
  for (auto &blk : K.clauses) { SddNode *bn = sdd_manager_true(side.sm); for (auto &cl : blk) { SddNode *c = sdd_manager_false(side.sm); for (int l : cl) { SddLiteral v = side.to_sdd[std::abs(l)]; c = sdd_disjoin(c, sdd_manager_literal(l > 0 ? v : -v, side.sm), side.sm); } bn = sdd_conjoin(bn, c, side.sm); } sn = sdd_conjoin(sn, bn, side.sm); }
  PsddNode *x = nullptr;
  W.activity("C09", "SDD over %zu variables to PSDD", B.vars.size()); sh->nontrivial++;
  bool how = r.chance(50); { Lib l; x = how ? B.m->ConvertSddToPsdd(sn, sdd_manager_vtree(side.sm), flag) : B.m->FromSdd(sn, sdd_manager_vtree(side.sm), flag, B.m->vtree()); }
  check_blocks(W, "C09", B, K, x, flag, "SDD to PSDD", r); if (!x) return;
  PsddNode *src = x; if (r.chance(40)) { Lib l; src = big_build(B, r, flag, 0, 6); }
  SddNode *back = nullptr; W.activity("C09", "PSDD over %zu variables to SDD", B.vars.size());
  bool automatic = r.chance(50); sdd_ref(sn, side.sm); if (r.chance(30)) sdd_manager_garbage_collect(side.sm); if (automatic) sdd_manager_auto_gc_and_minimize_on(side.sm);
  { Lib l; back = psdd_node_util::ConvertPsddNodeToSddNode(psdd_node_util::SerializePsddNodes(src), side.to_sdd, side.sm); }
  if (!!sdd_manager_is_auto_gc_and_minimize_on(side.sm) != automatic) W.bad("C09", "manager", "PSDD to SDD conversion changed the mode of the SDD manager", true);
  sdd_manager_auto_gc_and_minimize_off(side.sm);
  if (src == x && back != sn && !automatic) W.bad("C09", "back", fmt("SDD over %zu variables to PSDD and back gives another function", B.vars.size()), true);
  std::unordered_map<SddLiteral, int> inv; for (auto &k : side.to_sdd) inv[k.second] = (int)k.first;
  for (int i = 0; i < 16; i++) { auto a = big_sample(src, r); if (i % 2) a[B.vars[r.below(B.vars.size())]] ^= 1; std::map<SddSize, bool> memo; bool g = sdd_eval(back, [&](SddLiteral v) { return a[inv[v]] != 0; }, memo), w = log_value(src, valf(a)) > -1e300; if (g != w) W.bad("C09", "tosdd", fmt("PSDD over %zu variables to SDD: an assignment is %s of the PSDD, %s of the SDD", B.vars.size(), w ? "a model" : "no model", g ? "a model" : "no model"), true); }
  stat_add("probe: SDD conversion over more than 32 variables", B.vars.size() > 32);
}
OP(big_cnf) {
  Big B; big_make(W, B, r, (int)r.range(10, r.chance(30) ? 250 : 70)); uintmax_t flag = pick_flag(r);
  Blocks K = make_blocks(B, r); std::vector<std::vector<SddLiteral>> cl; for (auto &b : K.clauses) for (auto &c : b) cl.push_back(std::vector<SddLiteral>(c.begin(), c.end()));
  for (size_t i = cl.size(); i-- > 1;) std::swap(cl[i], cl[r.below(i + 1)]);
  bool unsat = !cl.empty() && r.chance(10); if (unsat) { size_t i = r.below(K.vars.size()); for (uint32_t m : K.models[i]) { std::vector<SddLiteral> c; for (size_t j = 0; j < K.vars[i].size(); j++) c.push_back((m >> j) & 1 ? -K.vars[i][j] : K.vars[i][j]); cl.push_back(c); } }
  CNF *c = nullptr; PsddNode *x = nullptr; bool file = r.chance(60);
  W.activity("C10", "CNF of %zu clauses over %zu variables", cl.size(), B.vars.size()); sh->nontrivial++;
  if (file) {
    std::string s = fmt("c over many variables\np cnf %d %zu\n", *std::max_element(B.vars.begin(), B.vars.end()), cl.size()); for (auto &q : cl) { for (auto l : q) s += std::to_string(l) + " "; s += "0\n"; }
    std::string p = new_path(W, "cnf"); fs_write(p.c_str(), s); if (!benign_call(W, r, [&] { c = new CNF(p.c_str()); })) return;
    if (c->clauses() != cl) W.bad("C10", "clauses", fmt("%zu clauses in the file, %zu read or others", cl.size(), c->clauses().size()), true);
  } else { Lib l; c = new CNF(cl); }
  { Lib l; x = c->Compile(B.m, flag); delete c; }
  if (unsat) { if (x) W.bad("C10", "unsat", "an unsatisfiable CNF compiled to a PSDD", true); return; }
  check_blocks(W, "C10", B, K, x, flag, "CNF", r);
}
// collections among thousands of nodes, with many roots
OP(big_gc) {
  Big B; std::vector<PsddNode *> all; uintmax_t f1 = pick_flag(r); PsddNode *x = big_or_huge(W, B, r, f1, big_style(r, true)), *y, *z; { Lib l; y = big_build(B, r, pick_flag(r), 0, 7); z = big_build(B, r, pick_flag(r), 0, 7); }
  std::vector<PsddNode *> roots; if (r.chance(75)) roots.push_back(x); if (r.chance(60)) roots.push_back(y); auto post = big_post(z), px = big_post(x);
  size_t extra = r.chance(40) ? 0 : 1 + r.below(r.chance(30) ? 2000 : 60); for (size_t i = 0; i < extra; i++) roots.push_back(r.chance(50) ? post[r.below(post.size())] : px[r.below(px.size())]);
  for (size_t i = roots.size(); i-- > 1;) std::swap(roots[i], roots[r.below(i + 1)]);
  std::unordered_set<PsddNode *> keep; std::vector<PsddNode *> kept; for (auto q : roots) if (!keep.count(q)) for (auto n : big_post(q)) if (keep.insert(n).second) kept.push_back(n);
  size_t step = 1 + kept.size() / 500; std::vector<std::string> keys; for (size_t i = 0; i < kept.size(); i += step) keys.push_back(big_content(kept[i]));
  std::vector<PsddNode *> gone; for (auto v : {px, post, big_post(y)}) for (auto n : v) if (!keep.count(n)) gone.push_back(n);
  W.activity("C07", "collection with %zu roots keeping %zu nodes over %zu variables", roots.size(), kept.size(), B.vars.size()); sh->nontrivial++;
  bool skip = W.cf && W.prop == "C07"; uint64_t s2 = r.next(), f0 = frees_seen(); int64_t b0 = g_lib_blocks;
  if (!skip) { Lib l; B.m->DeleteUnusedPsddNodes(roots); }
  int64_t b1 = g_lib_blocks; bool asked = frees_seen() - f0 < 32000;
  if (!skip && !asked && b0 - b1 < (int64_t)gone.size()) W.bad("C08", "kept", fmt("a collection released %ld blocks, %zu nodes were unused", (long)(b0 - b1), gone.size()), true);
  for (size_t i = 0, j = 0; i < kept.size(); i += step, j++) if (big_content(kept[i]) != keys[j]) W.bad("C07", "damaged", fmt("a node in use changed in a collection with %zu roots", roots.size()), true);
  if (!skip && asked) for (auto n : gone) if (!block_freed(n)) { W.bad("C08", "kept", fmt("an unused node was not released by a collection with %zu roots", roots.size()), true); break; }
  Rng q(s2);
  for (int i = 0; i < 40 && !kept.empty(); i++) { PsddNode *n = kept[q.below(kept.size())], *o; { Lib l; o = rerequest(nullptr, n, q, B.m); } if (o != n) W.bad("C07", "identity", "after the collection, requesting the content of a surviving node gives another node", true); }
  if (!roots.empty() && roots.size() < 50) for (int i = 0; i < 3; i++) { PsddNode *n = roots[q.below(roots.size())]; if (n->vtree_node() != B.m->vtree()) continue; std::pair<PsddNode *, PsddParameter> res; auto a = big_sample(n, q); { Lib l; Probability p = psdd_node_util::Evaluate(Bits().set(), big_bits(a), n); double w = log_value(n, valf(a)); if (!near_log(p.parameter(), w, 1e-5 * (double)B.vars.size())) W.bad("C07", "value", "evaluation after the collection gives another value", true); } }
}
OP(big_mem) {   // everything a manager of thousands of nodes ever obtained is released with it
  int64_t b1 = 0, c1 = 0; uint64_t ws = r.next();
  W.activity("C08", "creating, using and destroying a manager of thousands of nodes"); sh->nontrivial++;
  for (int k = 0; k < 3; k++) {
    { Rng q(ws); Big B; PsddNode *x = big_or_huge(W, B, q, 0, 0), *y; { Lib l; y = big_build(B, q, 1, 0, 6); }
      bool huge = big_post(x).size() > 60000; if (huge && k) return;
      { Lib l; if (!huge && q.chance(50)) { auto res = B.m->Multiply(x, y, 2); if (q.chance(50)) B.m->DeleteUnusedPsddNodes(res.first ? std::vector<PsddNode *>{res.first} : std::vector<PsddNode *>{}); } else if (q.chance(50)) B.m->DeleteUnusedPsddNodes({y}); if (q.chance(50)) B.m->GetTrueNode(B.m->vtree(), 5); } }
    if (k == 0) b1 = g_lib_blocks, c1 = c_blocks();
  }
  if (g_lib_blocks > b1) W.bad("C08", "manager", fmt("creating and destroying a manager twice more leaves %ld blocks behind", (long)(g_lib_blocks - b1)), true);
  if (c_blocks() > c1 + 1) W.bad("C08", "manager", fmt("creating and destroying a manager twice more leaves %ld blocks of the C allocator behind", (long)(c_blocks() - c1)), true);
}
// networks of dozens of variables whose graph is a chain, a band or a tree, compiled on a vtree that suits it
static void big_network(World &W, Rng &r, bool tool) {
  int n = (int)r.range(8, r.chance(5) ? 200 : r.chance(20) ? 70 : 40), shape = (int)r.below(3), band = shape == 1 ? 3 : 2;
  std::vector<int> order; for (int i = 1; i <= n; i++) order.push_back(i);
  if (r.chance(60)) for (int i = n - 1; i > 0; i--) std::swap(order[i], order[r.below(i + 1)]);
  std::vector<int> pos(n + 1); for (int i = 0; i < n; i++) pos[order[i]] = i;
  struct F { std::vector<int> sc; std::vector<std::string> txt; std::vector<real> e; }; std::vector<F> fs;
  auto factor = [&](std::vector<int> sc) { for (size_t j = sc.size(); j-- > 1;) std::swap(sc[j], sc[r.below(j + 1)]); fs.push_back({sc, {}, {}}); };
  std::vector<int> up(n, -1);                       // the tree: parents in the order
  for (int i = 0; i < n; i++) {
    if (shape == 2) { if (i) { up[i] = r.chance(50) ? i - 1 : (int)r.range(std::max(0, i - 5), i - 1);   /* a wider cut makes the PSDD itself exponential */ factor({order[i], order[up[i]]}); } else factor({order[i]}); }
    else if (i + band <= n && !r.chance(6)) { std::vector<int> sc; for (int k = 0; k < band; k++) if (!k || !r.chance(15)) sc.push_back(order[i + k]); factor(sc); }
    if (r.chance(20)) factor({order[i]});
    if (r.chance(3)) for (int k = 0; k < 15; k++) factor({order[i]});
  }
  std::vector<char> seen(n + 1); for (auto &f : fs) for (int v : f.sc) seen[v] = 1;
  for (int v = 1; v <= n; v++) if (!seen[v] && !r.chance(10)) factor({v});
  for (size_t j = fs.size(); j-- > 1;) std::swap(fs[j], fs[r.below(j + 1)]);
  int zero = r.chance(50) ? 0 : r.chance(50) ? 4 : 15;
  for (auto &f : fs) for (size_t k = 0; k < (size_t)1 << f.sc.size(); k++) {
    std::string t = r.chance(zero) ? "0" : r.chance(10) ? "1" : r.chance(10) ? fmt("%e", std::pow(10, 5 - 10 * r.real())) : fmt("%.5f", 0.01 + 0.98 * r.real());
    f.txt.push_back(t); f.e.push_back(strtold(t.c_str(), nullptr));
  }
  // the partition by eliminating the variables: the last of the order first, which keeps tables small in all three shapes
  struct T { std::vector<int> v; std::vector<real> e; }; std::vector<T> ts; real z = 1; for (auto &f : fs) ts.push_back({f.sc, f.e});
  for (int i = n; i-- > 0;) {
    int x = order[i]; std::set<int> sc; std::vector<T> in, rest; for (auto &t : ts) { bool has = std::count(t.v.begin(), t.v.end(), x) > 0; if (has) for (int v : t.v) if (v != x) sc.insert(v); (has ? in : rest).push_back(t); }
    T o; o.v.assign(sc.begin(), sc.end()); o.e.assign((size_t)1 << o.v.size(), 0); std::map<int, int> a;
    for (size_t k = 0; k < o.e.size() * 2; k++) { for (size_t j = 0; j < o.v.size(); j++) a[o.v[o.v.size() - 1 - j]] = (k >> j) & 1; a[x] = (int)(k >> o.v.size()); real p = 1; for (auto &t : in) { size_t q = 0; for (int v : t.v) q = 2 * q + (size_t)a[v]; p *= t.e[q]; } o.e[k & (o.e.size() - 1)] += p; }
    if (o.v.empty()) z *= o.e[0]; else rest.push_back(o);
    ts.swap(rest);
  }
  // a vtree on which every factor is a chain and contexts stay small
  VSpecP spec; auto leaf = [](int v) { auto s = std::make_unique<VSpec>(); s->var = v; return s; };
  std::function<std::unique_ptr<VSpec>(std::vector<int>)> build = [&](std::vector<int> p) -> std::unique_ptr<VSpec> {   // p: positions
    if (p.size() == 1) return leaf(order[p[0]]);
    auto s = std::make_unique<VSpec>(); s->var = 0;
    if (shape != 0 || r.chance(30)) { int v = p[0]; p.erase(p.begin()); s->l = leaf(order[v]); s->r = build(p); return s; }   // right-linear
    size_t mid = p.size() / 2; std::vector<int> a(p.begin(), p.begin() + (long)mid), b(p.begin() + (long)mid + 1, p.end());   // split the chain at its middle
    s->l = leaf(order[p[mid]]);
    if (a.empty() || b.empty()) s->r = build(a.empty() ? b : a); else { s->r = std::make_unique<VSpec>(); s->r->var = 0; s->r->l = build(a); s->r->r = build(b); }
    return s;
  };
  std::vector<int> all; for (int i = 0; i < n; i++) all.push_back(i); if (shape && r.chance(50)) std::reverse(all.begin(), all.end());
  spec = VSpecP(build(all).release()); Vtree *v = vspec_build(spec.get()); std::string vp = new_path(W, "nvtree"); sdd_vtree_save(vp.c_str(), v); sdd_vtree_free(v);
  std::string s = fmt("%s\n%d\n", r.chance(50) ? "MARKOV" : "BAYES", n); for (int i = 0; i < n; i++) s += i + 1 < n ? "2 " : "2\n"; s += fmt("%zu\n", fs.size());
  for (auto &f : fs) { s += fmt("%zu", f.sc.size()); for (int x : f.sc) s += fmt(" %d", x - 1); s += "\n"; } s += "\n";
  for (auto &f : fs) { s += fmt("%zu\n", f.txt.size()); for (auto &t : f.txt) s += " " + t; s += "\n"; }
  std::string np = new_path(W, "net"); fs_write(np.c_str(), s);
  auto lz = [](real x) { return x == 0 ? -INFINITY : (double)logl(x); };
  auto weight = [&](std::map<int, int> &a, const F &f) { size_t k = 0; for (int x : f.sc) k = 2 * k + (size_t)a[x]; return f.e[k]; };
  if (tool) {
    bool own = n > 24 || r.chance(60); std::string out = np + ".psdd", vout = np + ".vtree"; if (r.chance(30)) { fs_write(out.c_str(), std::string(r.below(200000), 'x')); fs_write(vout.c_str(), std::string(r.below(20000), 'x')); }
    std::vector<std::string> args{"uai_compiler", shown(r, np), own ? shown(r, vp) : "4"}; if (r.chance(30)) args.push_back("/simfs/wd"); IoPlan io; if (r.chance(40)) io.benign = r.next() | 1;
    W.activity("C24", "compiler tool on %d variables and %zu factors, %s", n, fs.size(), own ? "vtree file" : "method 4"); sh->nontrivial++;
    SubResult q = run_tool(uai_compiler_tool_main, args, &io, r.next()); note_io("none"); log_tool(q);
    if (z == 0) { if (q.hang || q.sig || q.ok()) W.bad("C24", "null", "the tool on a large network without a positive assignment: " + describe(q), true); return; }
    if (!q.ok()) { W.bad("C24", "failed", fmt("the tool fails on a good network of %d variables: ", n) + describe(q), true); return; }
    size_t k = q.out.find("Log Partition "); double part = k == std::string::npos ? NAN : strtod(q.out.c_str() + k + 14, nullptr), tol = 2e-4 + 1e-5 * std::fabs(part) + 1e-5 * (double)(fs.size() + (size_t)n);
    if (!near_log(part, lz(z), tol)) W.bad("C24", "value", fmt("network of %d variables: the tool prints the partition exp(%.8g), it is exp(%.8g)", n, part, lz(z)), true);
    Vtree *t = sdd_vtree_read(vout.c_str()); if (!t) { W.bad("C24", "vtree", "the vtree file cannot be read", true); return; }
    if (own) { std::string d = same_tree(t, spec.get(), nullptr); if (!d.empty()) W.bad("C24", "vtree", "the vtree file is not the vtree that was given: " + d, true); }
    PsddManager *m; PsddNode *x; { Lib l; m = PsddManager::GetPsddManagerFromVtree(t); x = m->ReadPsddFile(out.c_str(), 0); } sdd_vtree_free(t);
    if (x->vtree_node() != m->vtree()) W.bad("C24", "psdd", "the PSDD file is not at the root of the vtree file", true);
    std::set<int> have; for (Vtree *w : vtree_util::SerializeVtree(m->vtree())) if (sdd_vtree_is_leaf(w)) have.insert((int)sdd_vtree_var(w));
    if ((int)have.size() != n || *have.begin() != 1 || *have.rbegin() != n) W.bad("C24", "vtree", "the vtree file has other variables than the network", true);
    if (!near_log(log_value(x, [](int) { return -1; }), 0, tol)) W.bad("C24", "value", "the PSDD file is not normalised", true);
    for (int i = 0; i < 14; i++) {
      std::map<int, int> a = big_sample(x, r); for (int v2 = 1; v2 <= n; v2++) if (i % 7 == 6 || !a.count(v2)) a[v2] = (int)r.below(2);
      if (i % 3 == 1) a[1 + (int)r.below((uint64_t)n)] ^= 1;
      double w = 0; for (auto &f : fs) w += lz(weight(a, f)); double g = log_value(x, valf(a)) + part; bool zg = g < -1e300, zw = w < -1e300;
      if (zg != zw || (!zg && !near_log(g, w, tol))) W.bad("C24", "value", fmt("network of %d variables, %zu factors: weight exp(%.10g), PSDD file times partition exp(%.10g)", n, fs.size(), w, g), true);
    }
    { Lib l; delete m; }
    return;
  }
  W.activity("C21", "network of %d variables and %zu factors", n, fs.size()); sh->nontrivial++;
  auto *pc = new PgmCompiler("/simfs"); { Lib l; pc->read_uai_file(np.c_str()); pc->init_psdd_manager_from_vtree(vp.c_str()); }
  PsddManager *m = pc->psdd_manager();
  auto check = [&](std::pair<PsddNode *, PsddParameter> res, double wz, std::function<double(std::map<int, int> &)> want, const char *what) {
    if (wz < -1e300) { if (res.first || res.second.parameter() > -1e300) W.bad("C21", "zero", fmt("%s over %d variables: %s although no assignment has a positive weight", what, n, res.first ? "a PSDD" : "a partition above zero"), true); return; }
    if (!res.first) { W.bad("C21", "none", fmt("%s over %d variables gave no PSDD", what, n), true); return; }
    if (res.first->vtree_node() != m->vtree()) W.bad("C21", "place", fmt("%s: the PSDD is not at the root of the vtree", what), true);
    double tol = 5e-5 * (1 + (double)fs.size() / 10), one = log_value(res.first, [](int) { return -1; });
    if (!near_log(one + res.second.parameter(), wz, tol)) W.bad("C21", "partition", fmt("%s over %d variables: mass exp(%.10g) times partition exp(%.10g), the weights sum to exp(%.10g)", what, n, one, res.second.parameter(), wz), true);
    for (int i = 0; i < 14; i++) {
      std::map<int, int> a = big_sample(res.first, r); for (int x = 1; x <= n; x++) if (i % 7 == 6 || !a.count(x)) a[x] = (int)r.below(2);
      if (i % 3 == 1) a[1 + (int)r.below((uint64_t)n)] ^= 1;
      double w = want(a), g = log_value(res.first, valf(a)) + res.second.parameter(); bool zg = g < -1e300, zw = w < -1e300;
      if (zg != zw || (!zg && !near_log(g, w, tol))) W.bad("C21", "value", fmt("%s over %d variables, %zu factors: weight exp(%.10g), PSDD times partition exp(%.10g)", what, n, fs.size(), w, g), true);
    }
  };
  for (int k = 0; k < 3; k++) { size_t f = r.below(fs.size()); real fz = 0; for (real e : fs[f].e) fz += e; std::pair<PsddNode *, PsddParameter> res; { Lib l; res = pc->compile_factor(f); } check(res, lz(fz) + (double)(n - (int)fs[f].sc.size()) * std::log(2.0), [&](std::map<int, int> &a) { return lz(weight(a, fs[f])); }, "compiled factor"); }
  for (int k = 0; k < 2; k++) {
    int st = (int)r.below(3); size_t gc = r.chance(15) ? 1000 : 1 + r.below(40); std::pair<PsddNode *, PsddParameter> res;
    { Lib l; res = st == 0 ? pc->compile_network(gc) : st == 1 ? pc->compile_network_with_vtree(gc) : pc->compile_network_dc(gc); }
    check(res, lz(z), [&](std::map<int, int> &a) { double w = 0; for (auto &f : fs) w += lz(weight(a, f)); return w; }, st == 0 ? "compile_network" : st == 1 ? "compile_network_with_vtree" : "compile_network_dc");
    if (res.first && r.chance(40)) { std::vector<std::string> keys; auto po = big_post(res.first); for (auto q : po) keys.push_back(big_content(q)); { Lib l; m->DeleteUnusedPsddNodes({res.first}); } for (size_t i = 0; i < po.size(); i++) if (big_content(po[i]) != keys[i]) W.bad("C07", "damaged", "a node of a compiled network changed in a collection", true); }
  }
  { Lib l; delete m; } delete pc;
}
OP(big_net) { big_network(W, r, false); }
OP(big_uai) { big_network(W, r, true); }
// the inference tool on PSDDs over many variables, with evidence of any probability
OP(big_tool) {
  Big B; big_make(W, B, r, (int)r.range(8, r.chance(25) ? 220 : 70)); PsddNode *x; { Lib l; x = big_build(B, r, 0, r.chance(35) ? 4 : big_style(r, false), 6); }
  std::string pp = "/simfs/big.psdd", vp = "/simfs/big.vtree", cp = "/simfs/big.cnf";
  W.activity("C23", "write a PSDD over %zu variables for the tool", B.vars.size()); sh->nontrivial++;
  { Lib l; psdd_node_util::WritePsddToFile(x, pp.c_str()); } sdd_vtree_save(vp.c_str(), B.m->vtree());
  // evidence: a part of a model, at times an unlikely one or none at all
  auto post = big_post(x); std::map<int, int> evid, model = big_sample(x, r); bool ev = r.chance(80);
  if (r.chance(50)) { model.clear(); std::vector<PsddNode *> st{x}; while (!st.empty()) { PsddNode *n = st.back(); st.pop_back();
    if (n->node_type() == 1) model[(int)n->psdd_literal_node()->variable_index()] = n->psdd_literal_node()->literal() > 0;
    else if (n->node_type() == 3) { auto t = n->psdd_top_node(); model[(int)t->variable_index()] = t->true_parameter() < t->false_parameter(); }
    else { auto d = n->psdd_decision_node(); size_t e = 0; for (size_t i = 1; i < d->primes().size(); i++) if (d->parameters()[i] < d->parameters()[e]) e = i; st.push_back(d->primes()[e]); st.push_back(d->subs()[e]); } } }
  std::string cnf; size_t clauses = 0;
  if (ev) {
    int pct = r.chance(30) ? 100 : (int)r.below(101); for (int v : B.vars) if (r.chance(pct)) evid[v] = model[v]; if (r.chance(8) && !evid.empty()) { auto it = evid.begin(); std::advance(it, (long)r.below(evid.size())); it->second ^= 1; }
    for (auto &k : evid) { cnf += fmt("%d 0\n", k.second ? k.first : -k.first); clauses++; if (r.chance(4)) { cnf += fmt("%d %d 0\n", B.vars[r.below(B.vars.size())], k.second ? k.first : -k.first); clauses++; } }   // clauses that follow from the others as well
    fs_write(cp.c_str(), fmt("p cnf %d %zu\n", *std::max_element(B.vars.begin(), B.vars.end()), clauses) + cnf);
  }
  double pe = log_value(x, valf(evid)); bool unsat = pe < -1e300;
  std::vector<std::string> args{"psdd_inference", "--mpe_query", "--mar_query"}; if (ev) { args.push_back("--cnf_evid"); args.push_back(shown(r, cp)); } args.push_back(shown(r, pp)); args.push_back(shown(r, vp));
  IoPlan io; if (r.chance(40)) io.benign = r.next() | 1;
  W.activity("C23", "inference tool over %zu variables, %zu of them observed", B.vars.size(), evid.size());
  SubResult q = run_tool(psdd_inference_tool_main, args, &io, 1); note_io("none"); log_tool(q);
  if (!q.ok()) { W.bad("C23", "failed", fmt("the tool fails on good files over %zu variables: ", B.vars.size()) + describe(q), true); return; }
  auto find = [&](const char *k) { size_t i = q.out.find(k); if (i == std::string::npos) return std::string("?"); i += strlen(k); return q.out.substr(i, q.out.find('\n', i) - i); };
  if ((find("UNSATISFIED") != "?") != unsat) { W.bad("C23", "unsat", fmt("evidence on %zu variables has probability exp(%.10g): the tool %s UNSATISFIED", evid.size(), pe, unsat ? "does not print" : "prints"), true); return; }
  if (unsat) { stat_add("probe: unsatisfiable evidence"); return; }
  stat_add("probe: evidence below 1e-300", pe < -700);
  double tol = 1e-5 * (double)B.vars.size(); auto near = [&](double a, double b) { return a == b || (!std::isnan(a) && std::fabs(a - b) <= tol + 1e-5 * std::fabs(b)); };
  std::string s = find("MPE result="); std::map<int, int> a; for (const char *c = s.c_str(); *c;) { int v, b, k = 0; if (sscanf(c, "%d:%d,%n", &v, &b, &k) != 2 || !k) break; a[v] = b; c += k; }
  if (a.size() != B.vars.size()) W.bad("C23", "mpe", fmt("the MPE answer names %zu of %zu variables", a.size(), B.vars.size()), true);
  for (auto &k : evid) if (!a.count(k.first) || a[k.first] != k.second) W.bad("C23", "mpe", fmt("the MPE answer contradicts the evidence on variable %d", k.first), true);
  std::unordered_map<PsddNode *, double> best;
  for (auto n : post) {
    auto lit = [&](int v, int b) { auto it = evid.find(v); return it == evid.end() || it->second == b; };
    if (n->node_type() == 1) { auto l = n->psdd_literal_node(); best[n] = lit((int)l->variable_index(), l->literal() > 0) ? 0 : -INFINITY; }
    else if (n->node_type() == 3) { auto t = n->psdd_top_node(); int v = (int)t->variable_index(); best[n] = std::max(lit(v, 1) ? t->true_parameter().parameter() : -INFINITY, lit(v, 0) ? t->false_parameter().parameter() : -INFINITY); }
    else { double m = -INFINITY; auto d = n->psdd_decision_node(); for (size_t e = 0; e < d->primes().size(); e++) m = std::max(m, d->parameters()[e].parameter() + best[d->primes()[e]] + best[d->subs()[e]]); best[n] = m; }
  }
  double lp = atof(find("MPE pr=").c_str()), la = log_value(x, valf(a)) - pe, lb = best[x] - pe;
  if (!near(lp, lb) || !near(la, lb)) W.bad("C23", "mpe", fmt("over %zu variables: MPE probability printed exp(%.6g), of the printed assignment exp(%.6g), maximum exp(%.6g)", B.vars.size(), lp, la, lb), true);
  s = find("MAR result="); std::map<int, std::pair<double, double>> mar; for (size_t i = 0; i < s.size();) { size_t j = s.find(',', i); if (j == std::string::npos) j = s.size(); std::string t = s.substr(i, j - i); i = j + 1; size_t c = t.find(':'), b = t.find('|'); if (c == std::string::npos || b == std::string::npos) continue; mar[atoi(t.c_str())] = {strtod(t.c_str() + c + 1, nullptr), strtod(t.c_str() + b + 1, nullptr)}; }
  if (mar.size() != B.vars.size()) W.bad("C23", "mar", fmt("marginals of %zu of %zu variables", mar.size(), B.vars.size()), true);
  for (int i = 0; i < 10; i++) {
    int v = B.vars[r.below(B.vars.size())]; if (!mar.count(v)) { W.bad("C23", "mar", fmt("no marginal of variable %d", v), true); continue; }
    auto e = evid; double want[2]; for (int b = 0; b < 2; b++) { if (evid.count(v) && evid[v] != b) want[b] = -INFINITY; else { e[v] = b; want[b] = log_value(x, valf(e)) - pe; if (want[b] < -1e300) want[b] = -INFINITY; } }
    auto same = [&](double g, double w) { return std::isinf(w) ? g < -1e300 : near(g, w); };
    if (!same(mar[v].first, want[0]) || !same(mar[v].second, want[1])) W.bad("C23", "mar", fmt("over %zu variables: the marginal of variable %d is exp(%.6g)|exp(%.6g), expected exp(%.6g)|exp(%.6g)", B.vars.size(), v, mar[v].first, mar[v].second, want[0], want[1]), true);
  }
}
}  // namespace sim
