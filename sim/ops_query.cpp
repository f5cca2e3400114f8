// Queries: evaluation, MPE, marginals, counting, consistency, size, direct sampling; large-variable variants.
#include "lib.h"
#include <algorithm>
#include <gmpxx.h>

namespace sim {
static Bits var_bits(const Mgr *m, uint32_t mask) { return to_bits(m, mask); }
// bits that belong to no variable of the PSDD: their value must not matter
static void add_garbage(Bits *b, const Mgr *m, uint32_t psdd_mask, Rng &r) {
  std::set<int> mine; for (int i = 0; i < m->n(); i++) if ((psdd_mask >> i) & 1) mine.insert(m->vars[i]);
  for (int k = 0; k < 4; k++) { int x = r.chance(50) ? 1 + (int)r.below(64) : (int)r.below(MAX_VAR); if (!mine.count(x)) b->set((size_t)x, r.chance(60)); }
}
// sum of the table over the completions of `x` on `given`, relative to the variables in `mk`
static real total(const Table &t, uint32_t mk, uint32_t given, uint32_t x) {
  real s = 0;
  for (uint32_t a = 0; a < t.size(); a++) if ((a & ~mk) == 0 && (a & given) == (x & given)) s += t[a];
  return s;
}
OP(q_eval) {
  Handle *h = W.pick(r, nullptr); if (!h) return;
  Mgr *m = h->mgr; uint32_t mk = m->vinfo[h->at].mask;
  int reps = 1 + (int)r.below(6);
  for (int k = 0; k < reps; k++) {
    uint32_t x = (uint32_t)r.below(h->t.size());
    bool partial = h->norm && r.chance(65);
    uint32_t given = partial ? (uint32_t)r.next() & m->full() : m->full();
    if (partial && r.chance(10)) given = 0;
    if (h->pos && r.chance(50)) { std::vector<uint32_t> md; for (uint32_t a = 0; a < h->t.size(); a++) if (h->t[a] != 0) md.push_back(a); if (!md.empty()) x = md[r.below(md.size())]; }
    Bits vb = var_bits(m, given), ib = to_bits(m, x);
    if (partial && r.chance(50)) { for (int i = 0; i < m->n(); i++) if (!((given >> i) & 1)) ib.set((size_t)m->vars[i], r.chance(50)); }
    else if (partial) for (int i = 0; i < m->n(); i++) if (!((given >> i) & 1)) ib.reset((size_t)m->vars[i]);
    add_garbage(&vb, m, mk, r); add_garbage(&ib, m, mk, r);
    Probability p, q; bool both = r.chance(40), second = r.chance(50);
    W.activity("C02", "Evaluate PSDD %d under %s evidence", h->id, (given & mk) == mk ? "complete" : "partial");
    if (W.step_no > 3) sh->nontrivial++;
    if (!W.call([&] {
          if (second || both) p = psdd_node_util::Evaluate(vb, ib, h->root);
          else p = psdd_node_util::Evaluate(vb, ib, psdd_node_util::SerializePsddNodes(h->root)); })) return;
    real want = (given & mk) == mk ? h->t[x & mk] : total(h->t, mk, given & mk, x);
    real got = lin(p);
    if ((got == 0) != (want == 0) || !close_to(got, want, (given & mk) == mk ? 1e-8 : 2e-5)) W.bad("C02", "value", fmt("PSDD %d, evidence mask %x, assignment %x: got %.12Lg, expected %.12Lg", h->id, given, x, got, want), true);
    if (both) { Lib l; q = psdd_node_util::Evaluate(vb, ib, psdd_node_util::SerializePsddNodes(h->root)); }
    if (both && q.parameter() != p.parameter()) W.bad("C02", "forms", fmt("the two forms of Evaluate give %.17g and %.17g", p.parameter(), q.parameter()), true);
    if (got == 0) stat_add("probe: impossible evidence");
    W.logd(p.parameter());
  }
  W.verify_all("C02", "disturbed");
}
OP(q_mpe) {
  Handle *h = W.pick(r, nullptr); if (!h) return;
  Mgr *m = h->mgr; uint32_t mk = m->vinfo[h->at].mask;
  std::pair<Bits, Probability> res; bool second = r.chance(50);
  W.activity("C03", "MPE of PSDD %d", h->id);
  if (W.step_no > 3) sh->nontrivial++;
  if (!W.call([&] { if (second) res = psdd_node_util::GetMPESolution(h->root); else res = psdd_node_util::GetMPESolution(psdd_node_util::SerializePsddNodes(h->root)); })) return;
  uint32_t x = 0; Bits rest = res.first;
  for (int i = 0; i < m->n(); i++) if ((mk >> i) & 1) { if (rest.test((size_t)m->vars[i])) x |= 1u << i; rest.reset((size_t)m->vars[i]); }
  real best = 0; for (real v : h->t) best = std::max(best, v);
  real p = lin(res.second);
  W.logd(res.second.parameter());
  if (rest.any()) W.bad("C03", "outside", "the MPE assignment sets a variable the PSDD does not have", true);
  if (best < 1e-4000L) return;   // below the reference's range
  if (h->t[x] == 0) W.bad("C03", "model", fmt("PSDD %d: the MPE assignment %x is not a model", h->id, x), true);
  if (!close_to(p, h->t[x], 1e-8)) W.bad("C03", "probability", fmt("PSDD %d: MPE reports %.12Lg for assignment %x whose value is %.12Lg", h->id, p, x, h->t[x]), true);
  if (!(h->t[x] >= best * (1 - 1e-5L))) W.bad("C03", "maximum", fmt("PSDD %d: MPE assignment %x has %.12Lg, the maximum is %.12Lg", h->id, x, h->t[x], best), true);
  W.verify_all("C03", "disturbed");
}
OP(q_marg) {
  Handle *h = W.pick(r, nullptr, [](Handle *x) { return x->norm; }); if (!h) return;
  Mgr *m = h->mgr; uint32_t mk = m->vinfo[h->at].mask;
  std::unordered_map<uint32_t, std::pair<Probability, Probability>> res;
  W.activity("C04", "marginals of PSDD %d", h->id);
  if (W.step_no > 3) sh->nontrivial++;
  if (!W.call([&] { res = psdd_node_util::GetMarginals(psdd_node_util::SerializePsddNodes(h->root)); })) return;
  for (auto &kv : res) { auto b = m->bit.find((int)kv.first); if (b == m->bit.end() || !((mk >> b->second) & 1)) W.bad("C04", "variables", fmt("PSDD %d: marginal for variable %u, which the PSDD does not have", h->id, kv.first), true); }
  real z = total(h->t, mk, 0, 0);
  for (int i = 0; i < m->n(); i++) if ((mk >> i) & 1) {
    auto it = res.find((uint32_t)m->vars[i]);
    if (it == res.end()) { W.bad("C04", "variables", fmt("PSDD %d: no marginal for variable %d", h->id, m->vars[i]), true); continue; }
    real f = lin(it->second.first), t = lin(it->second.second);
    real wf = total(h->t, mk, 1u << i, 0) / z, wt = total(h->t, mk, 1u << i, 1u << i) / z;
    W.logd(it->second.first.parameter());
    if (!close_to(f + t, 1, 1e-8)) W.bad("C04", "sum", fmt("PSDD %d variable %d: marginal pair sums to %.12Lg", h->id, m->vars[i], f + t), true);
    if ((f == 0) != (wf == 0) || (t == 0) != (wt == 0) || !close_to(f, wf, 2e-4) || !close_to(t, wt, 2e-4)) W.bad("C04", "value", fmt("PSDD %d variable %d: got (%.10Lg, %.10Lg), expected (%.10Lg, %.10Lg)", h->id, m->vars[i], f, t, wf, wt), true);
    if (wf == 0 || wt == 0) stat_add("probe: deterministic marginal");
  }
  W.verify_all("C04", "disturbed");
}
OP(q_count) {
  Handle *h = W.pick(r, nullptr, [](Handle *x) { return x->pos; }); if (!h) return;
  Mgr *m = h->mgr; uint32_t mk = m->vinfo[h->at].mask;
  mpz_class c;
  W.activity("C05", "model count of PSDD %d", h->id);
  if (W.step_no > 3) sh->nontrivial++;
  if (!W.call([&] { c = psdd_node_util::ModelCount(psdd_node_util::SerializePsddNodes(h->root)); })) return;
  unsigned long want = 0; for (uint32_t a = 0; a < h->t.size(); a++) if ((a & ~mk) == 0 && h->t[a] != 0) want++;
  if (c != want) W.bad("C05", "count", fmt("PSDD %d: %s models counted, %lu exist", h->id, c.get_str().c_str(), want), true);
  W.log(want);
  W.verify_all("C05", "disturbed");
}
OP(q_cons) {
  Handle *h = W.pick(r, nullptr, [](Handle *x) { return x->pos; }); if (!h) return;
  Mgr *m = h->mgr; uint32_t mk = m->vinfo[h->at].mask;
  int reps = 1 + (int)r.below(5);
  for (int k = 0; k < reps; k++) {
    uint32_t given = (uint32_t)r.next() & m->full(), x = (uint32_t)r.next() & m->full();
    if (r.chance(20)) given = m->full();
    int form = (int)r.below(4);
    int maxv = 0; for (int v : m->vars) maxv = std::max(maxv, v);
    if (form == 3 && (W.plan.get("labels") >= 2 || maxv > m->n())) form = 0;
    if (form == 3) given = m->full();
    Bits vb = to_bits(m, given), ib = to_bits(m, x);
    add_garbage(&vb, m, mk, r); add_garbage(&ib, m, mk, r);
    std::unordered_map<uint32_t, bool> pm;
    for (int i = 0; i < m->n(); i++) if ((given >> i) & 1) pm[(uint32_t)m->vars[i]] = (x >> i) & 1;
    bool got = false;
    W.activity("C05", "consistency of PSDD %d (form %d)", h->id, form);
    if (W.step_no > 3) sh->nontrivial++;
    if (!W.call([&] {
          switch (form) {
            case 0: got = psdd_node_util::IsConsistent(h->root, vb, ib); break;
            case 1: got = psdd_node_util::IsConsistent(psdd_node_util::SerializePsddNodes(h->root), vb, ib); break;
            case 2: got = ((const PsddNode *)h->root)->IsConsistent(pm); break;
            default: got = h->root->IsConsistent(ib, (uint32_t)m->n()); } })) return;
    bool want = false; for (uint32_t a = 0; a < h->t.size() && !want; a++) if ((a & ~mk) == 0 && (a & given & mk) == (x & given & mk) && h->t[a] != 0) want = true;
    if (got != want) W.bad("C05", "consistent", fmt("PSDD %d, form %d, mask %x, assignment %x: got %d", h->id, form, given, x, got), true);
    if (!want) stat_add("probe: inconsistent evidence");
    W.log(got);
  }
  W.verify_all("C05", "disturbed");
}
OP(q_size) {
  Handle *h = W.pick(r, nullptr); if (!h) return;
  uintmax_t s = 0;
  W.activity("C05", "size of PSDD %d", h->id);
  if (!W.call([&] { s = psdd_node_util::GetPsddSize(h->root); })) return;
  Shape sh0; read_shape(h->mgr, h->root, &sh0); uintmax_t want = 0;
  for (auto q : sh0.post) want += q->node_type() == 2 ? q->psdd_decision_node()->primes().size() - 1 : q->node_type() == 3 ? 1 : 0;
  if (s != want) W.bad("C05", "size", fmt("PSDD %d: size %ju, expected %ju", h->id, s, want), true);
  std::vector<PsddNode *> ser; { Lib l; ser = psdd_node_util::SerializePsddNodes(h->root); }
  std::set<PsddNode *> a(ser.begin(), ser.end()), b(sh0.post.begin(), sh0.post.end());
  if (a.size() != ser.size() || a != b) W.bad("C05", "serialise", "serialisation does not list each distinct node once", true);
  std::unordered_map<PsddNode *, size_t> posn; for (size_t i = 0; i < ser.size(); i++) posn[ser[i]] = i;
  for (auto q : ser) if (q->node_type() == 2) for (size_t i = 0; i < q->psdd_decision_node()->primes().size(); i++) if (posn[q->psdd_decision_node()->primes()[i]] < posn[q] || posn[q->psdd_decision_node()->subs()[i]] < posn[q]) W.bad("C05", "serialise", "a child is listed before its parent", true);
  W.log(s);
  if (r.chance(50)) {      // several roots at once, some of them sharing nodes, some named twice
    std::vector<PsddNode *> roots{h->root}; std::set<PsddNode *> all(b); int k = 1 + (int)r.below(3);
    for (int i = 0; i < k; i++) { Handle *g = W.pick(r, h->mgr); if (!g) break; Shape sg; read_shape(g->mgr, g->root, &sg); roots.push_back(r.chance(30) ? sg.post[r.below(sg.post.size())] : g->root); Shape sr; read_shape(g->mgr, roots.back(), &sr); all.insert(sr.post.begin(), sr.post.end()); }
    for (size_t i = roots.size(); i-- > 1;) std::swap(roots[i], roots[r.below(i + 1)]);
    W.activity("C05", "list the nodes of %zu PSDDs", roots.size());
    std::vector<PsddNode *> ml; std::unordered_map<uintmax_t, PsddNode *> cov; { Lib l; ml = psdd_node_util::SerializePsddNodes(roots); cov = psdd_node_util::GetCoveredPsddNodes(roots); }
    std::set<PsddNode *> ms(ml.begin(), ml.end());
    if (ms.size() != ml.size() || ms != all) W.bad("C05", "serialise", fmt("serialisation of %zu roots does not list each distinct node once", roots.size()), true);
    std::unordered_map<PsddNode *, size_t> mp; for (size_t i = 0; i < ml.size(); i++) mp[ml[i]] = i;
    for (auto q : ml) if (q->node_type() == 2) for (size_t i = 0; i < q->psdd_decision_node()->primes().size(); i++) if (mp[q->psdd_decision_node()->primes()[i]] < mp[q] || mp[q->psdd_decision_node()->subs()[i]] < mp[q]) W.bad("C05", "serialise", "a child is listed before its parent", true);
    std::set<PsddNode *> cs; for (auto &c : cov) { cs.insert(c.second); if (c.first != c.second->node_index()) W.bad("C05", "covered", "a covered node is filed under another index", true); }
    if (cs != all) W.bad("C05", "covered", fmt("%zu covered nodes instead of %zu", cs.size(), all.size()), true);
  }
  if (r.chance(50)) {      // the nodes that agree with a complete assignment
    Mgr *m = h->mgr; uint32_t x = (uint32_t)r.next() & m->full(); Bits ib = to_bits(m, x);
    W.activity("C05", "activation of PSDD %d", h->id);
    { Lib l; psdd_node_util::SetActivationFlag(ib, ser); }
    std::unordered_map<PsddNode *, bool> act;
    for (auto q : sh0.post) {
      bool w = true;
      if (q->node_type() == 1) w = ((x >> m->bit.at((int)q->psdd_literal_node()->variable_index())) & 1) == (q->psdd_literal_node()->literal() > 0);
      else if (q->node_type() == 2) { w = false; auto d = q->psdd_decision_node(); for (size_t i = 0; i < d->primes().size(); i++) w |= act[d->primes()[i]] && act[d->subs()[i]]; }
      act[q] = w;
      if (q->activation_flag() != w) W.bad("C05", "activation", fmt("PSDD %d: a node is %s by assignment %x", h->id, w ? "not activated" : "activated", x), true);
    }
    Lib l; for (auto q : ser) q->ResetActivationFlag();
  }
}

// ---------------------------------------------------------------- the library's own generators
// Several generators alive at the same time, drawn from in any order: each gives the sequence of its own seed, in its range.
OP(rng) {
  struct G { bool uni; double a, b; uint seed; RandomDoubleGenerator *g = nullptr; std::vector<double> got; };
  int k = 1 + (int)r.below(5); std::vector<G> gs;
  static const double lo[] = {0, -1, 5, -1000, 1e-3}, hi[] = {1, 1, 6, 1000, 2e-3}, al[] = {1, 0.5, 2, 10, 0.1}, be[] = {1, 0.1, 2, 100, 1};
  for (int i = 0; i < k; i++) { G g; int c = (int)r.below(5); g.uni = r.chance(50); g.a = g.uni ? lo[c] : al[c]; g.b = g.uni ? hi[c] : be[r.below(5)]; g.seed = (uint)r.below(r.chance(50) ? 3 : 100000); gs.push_back(g); }
  auto make = [](const G &g) -> RandomDoubleGenerator * { Lib l; if (g.uni) return new RandomDoubleFromUniformGenerator(g.a, g.b, g.seed); if (!g.seed && g.a >= 1) return new RandomDoubleFromGammaGenerator(g.a, g.b); return new RandomDoubleFromGammaGenerator(g.a, g.b, g.seed); };
  auto pc = [](const G &g) { return g.uni ? "C13" : "C12"; };
  W.activity("C13", "draw from %d generators of the library", k); sh->nontrivial++;
  int draws = r.chance(10) ? 3000 : 1 + (int)r.below(200);
  for (int i = 0; i < draws; i++) for (auto &g : gs) {
    if (r.chance(35)) continue;
    if (!g.g) g.g = make(g);
    double d; { Lib l; d = g.g->generate(); } g.got.push_back(d);
    if (g.uni ? !(d >= g.a && d <= g.b) : !(d >= 0 && std::isfinite(d))) W.bad(pc(g), "range", fmt("a generator of %s(%g, %g) gave %.17g", g.uni ? "uniform" : "gamma", g.a, g.b, d), true);
    if (g.g && r.chance(1)) { RandomDoubleGenerator *o = make(g); { Lib l; if (!g.got.empty() && o->generate() != g.got[0]) { NoLib nl; W.bad(pc(g), "repeat", "a second generator of the same seed begins with another draw", true); } } Lib l; delete o; }
  }
  for (auto &g : gs) if (g.g) {
    if (g.uni) { auto u = static_cast<RandomDoubleFromUniformGenerator *>(g.g); double x, y; { Lib l; x = u->min(); y = u->max(); } if (x != g.a || y != g.b) W.bad("C13", "bounds", fmt("a generator of range [%g, %g] reports [%g, %g]", g.a, g.b, x, y), true); }
    { Lib l; delete g.g; }
    RandomDoubleGenerator *o = make(g); bool eq = true; for (double d : g.got) { double e; { Lib l; e = o->generate(); } eq &= e == d; } { Lib l; delete o; }
    if (!eq) W.bad(pc(g), "repeat", fmt("%zu draws among those of %d other generators are not the sequence of seed %u alone", g.got.size(), k - 1, g.seed), true);
    real m = 0; for (double d : g.got) m += d; size_t n = g.got.size(); W.logd((double)m);
    if (n < 500) continue;
    m /= (real)n; real want = g.uni ? ((real)g.a + g.b) / 2 : (real)g.a * g.b, sd = g.uni ? ((real)g.b - g.a) / sqrtl(12) : sqrtl((real)g.a) * g.b;
    if (fabsl(m - want) > 9 * sd / sqrtl((real)n)) W.bad(pc(g), "mean", fmt("the mean of %zu draws of %s(%g, %g) is %Lg", n, g.uni ? "uniform" : "gamma", g.a, g.b, m), true);
  }
}

// ---------------------------------------------------------------- direct sampling
OP(q_dsample) {
  Handle *h = W.pick(r, nullptr, [](Handle *x) { return x->norm && x->exactp; }); if (!h) return;
  Mgr *m = h->mgr; uint32_t mk = m->vinfo[h->at].mask;
  static const double los[] = {0, 0, 0, -1, 5, -1000, 1e-3}, his[] = {1, 1, 100, 1, 6, 1000, 2e-3};
  int gi = (int)r.below(7);
  int style = r.chance(40) ? 0 : 1 + (int)r.below(5);
  int64_t th = W.fault_pending && W.cur_fault.kind == F_GEN && !W.cf ? (int64_t)W.cur_fault.a : -1;
  ScriptGen g(los[gi], his[gi], r.next(), style, th);
  Bits b;
  W.activity("C13", "direct sample of PSDD %d (draw style %d, range [%g,%g))", h->id, style, los[gi], his[gi]);
  sh->nontrivial++;
  if (!W.call([&] { h->root->DirectSample(&b, &g); }, true)) return;
  W.fault_pending = false;
  auto decode = [&](const Bits &bb, const char *what) {
    uint32_t x = 0; Bits rest = bb;
    for (int i = 0; i < m->n(); i++) if ((mk >> i) & 1) { if (rest.test((size_t)m->vars[i])) x |= 1u << i; rest.reset((size_t)m->vars[i]); }
    if (rest.any()) W.bad("C13", "outside", fmt("a %s sets a variable the PSDD does not have", what), true);
    return x; };
  uint32_t x = decode(b, "sample");
  W.log(x);
  if (h->t[x] == 0) W.bad("C13", "possible", fmt("PSDD %d: drew assignment %x of probability zero", h->id, x), true);
  if ((size_t)g.n > 2 * (size_t)m->n()) W.bad("C13", "draws", fmt("%ld draws for one sample", (long)g.n), true);
  if (W.on("C13") && !W.any) {
    // proportion: drive only the first decision with equally spaced draws, the rest with a fixed stream
    PsddNode *root = h->root;
    if (r.chance(40) && (root->node_type() == 2 || root->node_type() == 3)) {
      W.activity("C13", "proportion over equally spaced draws of PSDD %d", h->id);
      const int K = 512;
      Shape s; read_shape(m, root, &s);
      std::unordered_map<PsddNode *, int> dummy;
      size_t k = root->node_type() == 3 ? 2 : root->psdd_decision_node()->primes().size();
      std::vector<real> th2(k); std::vector<std::vector<char>> sup(k);
      std::vector<int> hits(k, 0);
      if (root->node_type() == 3) { th2[0] = lin(root->psdd_top_node()->true_parameter()); th2[1] = lin(root->psdd_top_node()->false_parameter()); }
      else for (size_t e = 0; e < k; e++) {
        th2[e] = lin(root->psdd_decision_node()->parameters()[e]);
        Shape sp; read_shape(m, root->psdd_decision_node()->primes()[e], &sp); Table tp = table_of(m, sp);
        sup[e].resize(tp.size()); for (size_t a = 0; a < tp.size(); a++) sup[e][a] = tp[a] != 0;
      }
      for (int i = 0; i < K; i++) {
        ScriptGen q(los[gi], his[gi], 99 + (uint64_t)i, 0, -1); q.script = {(i + 0.5) / K};
        Bits bb; { Lib l; root->DirectSample(&bb, &q); }
        uint32_t y = decode(bb, "sample");
        if (h->t[y] == 0) W.bad("C13", "possible", fmt("PSDD %d: drew assignment %x of probability zero", h->id, y), true);
        if (root->node_type() == 3) hits[(y & mk) ? 0 : 1]++;
        else { int w = -1; for (size_t e = 0; e < k; e++) if (sup[e][y]) w = (int)e; if (w >= 0) hits[(size_t)w]++; }
      }
      for (size_t e = 0; e < k; e++) if (fabsl((real)hits[e] - th2[e] * K) > 1.6L) W.bad("C13", "proportion", fmt("branch %zu with parameter %.6Lg is taken by %d of %d equally spaced draws", e, th2[e], hits[e], K), true);
    } else if (h->t.size() <= 64 && r.chance(25)) {
      // whole distribution over many independent uniform draws
      W.activity("C13", "distribution of 4000 samples of PSDD %d", h->id);
      const int K = 4000; std::vector<int> hist(h->t.size(), 0);
      ScriptGen q(los[gi], his[gi], r.next(), 0, -1);
      for (int i = 0; i < K; i++) { Bits bb; { Lib l; root->DirectSample(&bb, &q); } hist[decode(bb, "sample")]++; }
      for (uint32_t a = 0; a < h->t.size(); a++) if ((a & ~mk) == 0) {
        real e = h->t[a] * K, sd = sqrtl(e * (1 - h->t[a])) + 1;
        if (h->t[a] == 0 && hist[a]) W.bad("C13", "possible", fmt("drew assignment %x of probability zero", a), true);
        if (fabsl(hist[a] - e) > 8 * sd + 4) W.bad("C13", "distribution", fmt("assignment %x with probability %.6Lg was drawn %d times in %d", a, h->t[a], hist[a], K), true);
      }
    } else if (r.chance(15)) {   // the library's own generator
      W.activity("C13", "direct samples with the library's generator");
      RandomDoubleFromUniformGenerator q(los[gi], his[gi], (uint)r.below(1000));
      for (int i = 0; i < 50; i++) { Bits bb; { Lib l; root->DirectSample(&bb, &q); } uint32_t y = decode(bb, "sample"); if (h->t[y] == 0) W.bad("C13", "possible", fmt("drew assignment %x of probability zero", y), true); }
    }
  }
  W.verify_all("C13", "disturbed");
}
}  // namespace sim
