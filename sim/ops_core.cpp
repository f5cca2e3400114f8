// Builders and core operations: construction, multiplication, learning, sampling, conversions, transfer.
#include "world.h"
#include "lib.h"
#include <psdd/psdd_unique_table.h>
#include <algorithm>
#include <cmath>
#include <cstring>

namespace sim {
// ---------------------------------------------------------------- helpers
thread_local uint64_t g_flag_shift = 0;
uintmax_t pick_flag(Rng &r) { static const uintmax_t f[] = {0, 0, 0, 1, 1, 2, 7, 1000003, ~(uintmax_t)0, (uintmax_t)1 << 32, ((uintmax_t)3 << 32) + 1}; return f[(r.below(11) + g_flag_shift) % 11]; }

std::vector<double> random_simplex(size_t k, Rng &r, int style) {
  std::vector<double> v(k); double s = 0;
  for (size_t i = 0; i < k; i++) {
    switch (style) {
      case 1: v[i] = std::pow(10.0, -30.0 * r.real()); break;
      case 2: v[i] = 1; break;
      case 3: v[i] = i == 0 ? 1 : std::pow(10.0, -6 - 6 * r.real()); break;
      case 4: v[i] = (double)(1 + r.below(4)); break;
      case 5: v[i] = std::pow(5.0, 2 * r.real() - 1); break;                       // not normalised
      case 6: v[i] = std::pow(10.0, 20 - 120 * r.real()); break;                   // not normalised, extreme
      case 7: v[i] = r.chance(30) ? 0 : 0.02 + r.real(); break;                    // with zeros
      default: v[i] = 0.02 + r.real();
    }
    s += v[i];
  }
  if (style == 3 && k > 1) std::swap(v[0], v[r.below(k)]);
  if (style == 5 || style == 6) return v;
  if (s == 0) s = v[r.below(k)] = 1;
  for (auto &x : v) x /= s;
  return v;
}
static int style_of(Rng &r) { static const int s[] = {0, 0, 0, 0, 4, 4, 2, 1, 3, 0}; return s[r.below(10)]; }

PsddNode *build_direct(Mgr *m, Vtree *v, Rng &r, uintmax_t flag, std::map<int, int> fixed, int style, std::vector<PsddNode *> *pool) {
  const VInfo &vi = m->vinfo.at(v);
  if (vi.var) {
    auto f = fixed.find(vi.var);
    if (f != fixed.end()) return m->m->GetPsddLiteralNode(f->second ? vi.var : -vi.var, flag);
    if (r.chance(20)) return m->m->GetPsddLiteralNode(r.chance(50) ? vi.var : -vi.var, flag);
    auto p = random_simplex(2, r, style < 0 ? style_of(r) : style);
    return m->m->GetPsddTopNode((uint32_t)vi.var, flag, PsddParameter::CreateFromDecimal(p[0]), PsddParameter::CreateFromDecimal(p[1]));
  }
  auto from_pool = [&](Vtree *w) -> PsddNode * {
    if (!pool || pool->empty()) return nullptr;
    for (int i = 0; i < 6; i++) { PsddNode *x = (*pool)[r.below(pool->size())]; if (x->vtree_node() == w) return x; }
    return nullptr;
  };
  std::vector<int> freev;
  bool fixed_left = false, fixed_right = false;
  for (auto &b : m->bit) {
    uint32_t mk = 1u << b.second;
    if (m->vinfo.at(vi.left).mask & mk) { if (fixed.count(b.first)) fixed_left = true; else freev.push_back(b.first); }
    else if (m->vinfo.at(vi.right).mask & mk) { if (fixed.count(b.first)) fixed_right = true; }
  }
  size_t j = std::min<size_t>(freev.size(), r.below(3));
  if (r.chance(8)) j = std::min<size_t>(freev.size(), 3);
  if (r.chance(2)) j = std::min<size_t>(freev.size(), 6);
  for (size_t i = freev.size(); i-- > 1;) std::swap(freev[i], freev[r.below(i + 1)]);
  std::vector<PsddNode *> P, S;
  for (size_t c = 0; c < ((size_t)1 << j); c++) {
    if (c + 1 < ((size_t)1 << j) || !P.empty()) if (j && r.chance(15)) continue;
    auto f = fixed;
    for (size_t i = 0; i < j; i++) f[freev[i]] = (int)((c >> i) & 1);
    PsddNode *p = nullptr, *q = nullptr;
    if (j == 0 && !fixed_left && r.chance(25)) p = from_pool(vi.left);
    if (!fixed_right && r.chance(25)) q = from_pool(vi.right);
    if (!p) p = build_direct(m, vi.left, r, flag, f, style, pool);
    if (!q) { if (!S.empty() && r.chance(20)) q = S[r.below(S.size())]; else q = build_direct(m, vi.right, r, flag, fixed, style, pool); }
    P.push_back(p); S.push_back(q);
  }
  auto w = random_simplex(P.size(), r, style < 0 ? style_of(r) : style);
  std::vector<PsddParameter> A;
  for (double x : w) A.push_back(PsddParameter::CreateFromDecimal(x));
  // hand the elements over in a random order
  for (size_t i = P.size(); i-- > 1;) { size_t k = r.below(i + 1); std::swap(P[i], P[k]); std::swap(S[i], S[k]); std::swap(A[i], A[k]); }
  return m->m->GetConformedPsddDecisionNode(P, S, A, flag);
}

Formula random_formula(Rng &r, int n, const std::vector<int> &over) {
  Formula f; f.dnf = r.chance(40);
  (void)n;
  size_t k = over.size();
  size_t c = r.chance(8) ? 0 : 1 + r.below(1 + std::min<size_t>(k + 2, 8));
  for (size_t i = 0; i < c; i++) {
    std::vector<int> cl;
    size_t len = 1 + r.below(std::min<size_t>(k, 4));
    if (r.chance(4)) len = 0;
    for (size_t j = 0; j < len; j++) { int v = over[r.below(k)] + 1; cl.push_back(r.chance(50) ? v : -v); }
    f.clauses.push_back(cl);
  }
  return f;
}
bool eval_formula(const Formula &f, uint32_t x) {
  for (auto &c : f.clauses) {
    bool any = false, all = true;
    for (int l : c) { bool v = ((x >> (std::abs(l) - 1)) & 1) == (uint32_t)(l > 0); any |= v; all &= v; }
    if (f.dnf) { if (all) return true; } else if (!any) return false;
  }
  return !f.dnf;
}
SddNode *formula_sdd(const Formula &f, SddManager *sm, const std::vector<SddLiteral> &var) {
  SddNode *tot = f.dnf ? sdd_manager_false(sm) : sdd_manager_true(sm);
  for (auto &c : f.clauses) {
    SddNode *x = f.dnf ? sdd_manager_true(sm) : sdd_manager_false(sm);
    for (int l : c) { SddLiteral v = var[std::abs(l) - 1]; SddNode *ln = sdd_manager_literal(l > 0 ? v : -v, sm); x = f.dnf ? sdd_conjoin(x, ln, sm) : sdd_disjoin(x, ln, sm); }
    tot = f.dnf ? sdd_disjoin(tot, x, sm) : sdd_conjoin(tot, x, sm);
  }
  return tot;
}
std::vector<PsddNode *> node_pool(World &W, Mgr *m, size_t limit) {
  std::vector<PsddNode *> v; std::set<PsddNode *> seen;
  for (auto &h : W.hs) if (h->mgr == m) {
    Shape s; if (!read_shape(m, h->root, &s).empty()) continue;
    for (auto x : s.post) { if (v.size() >= limit) return v; if (seen.insert(x).second) v.push_back(x); }
  }
  return v;
}
Vtree *random_vnode(Mgr *m, Rng &r, int root_pct) { if (r.chance(root_pct)) return m->m->vtree(); return m->vlist[r.below(m->vlist.size())]; }

const VSpec *spec_at(const Mgr *m, Vtree *v) {
  // walk spec and vtree together
  std::vector<std::pair<const VSpec *, Vtree *>> q{{m->spec.get(), m->m->vtree()}};
  for (size_t i = 0; i < q.size(); i++) {
    if (q[i].second == v) return q[i].first;
    if (!q[i].first->leaf()) { auto p = q[i]; q.push_back({p.first->l.get(), sdd_vtree_left(p.second)}); q.push_back({p.first->r.get(), sdd_vtree_right(p.second)}); }
  }
  return nullptr;
}

// ---------------------------------------------------------------- builders
OP(b_true) {
  Mgr *m = W.pick_mgr(r); uintmax_t f = pick_flag(r); Vtree *v = random_vnode(m, r, 75);
  PsddNode *x = nullptr;
  W.activity("C06", "GetTrueNode");
  if (!W.call([&] { x = m->m->GetTrueNode(v, f); })) return;
  Handle *h = W.add(m, x, f, "true");
  for (size_t i = 0; i < h->t.size(); i++) if (h->t[i] != 1) { W.bad("C06", "true-node", fmt("GetTrueNode has value %.9Lg at assignment %zu instead of 1", h->t[i], i)); break; }
  if (h->at != v) W.bad("C06", "true-node", "GetTrueNode is at another vtree node");
}
OP(b_direct) {
  Mgr *m = W.pick_mgr(r); uintmax_t f = pick_flag(r); Vtree *v = random_vnode(m, r, 85);
  int sc = (int)r.below(100), style = sc < 55 ? 0 : sc < 80 ? -1 : sc < 90 ? 5 : sc < 94 ? 6 : 7;
  auto pool = node_pool(W, m);
  bool share = r.chance(60);
  PsddNode *x = nullptr;
  W.activity("C06", "node construction");
  if (!W.call([&] { x = build_direct(m, v, r, f, {}, style, share ? &pool : nullptr); })) return;
  W.add(m, x, f, "direct");
}
// elements whose primes and subs lie anywhere below the children of the new node: the manager fills the gaps with true nodes
OP(conform) {
  Mgr *m = W.pick_mgr(r); uintmax_t f = pick_flag(r);
  std::vector<Vtree *> in; for (auto v : m->vlist) if (!m->vinfo.at(v).var) in.push_back(v);
  if (in.empty()) return;
  Vtree *v = r.chance(40) ? m->m->vtree() : in[r.below(in.size())]; const VInfo &vi = m->vinfo.at(v);
  auto inside = [&](PsddNode *x, Vtree *w) { uint32_t a = m->vinfo.at(x->vtree_node()).mask, b = m->vinfo.at(w).mask; return (a & b) == a; };
  auto leaf_in = [&](Vtree *w) { std::vector<int> c; for (auto &b : m->bit) if (m->vinfo.at(w).mask >> b.second & 1) c.push_back(b.first); return c[r.below(c.size())]; };
  auto pool = node_pool(W, m);
  std::vector<PsddNode *> pl, pr; for (auto x : pool) { if (inside(x, vi.left)) pl.push_back(x); else if (inside(x, vi.right)) pr.push_back(x); }
  auto some = [&](std::vector<PsddNode *> &c, Vtree *w) -> PsddNode * {
    if (!c.empty() && r.chance(55)) return c[r.below(c.size())];
    int q = leaf_in(w); if (r.chance(50)) return m->m->GetPsddLiteralNode(r.chance(50) ? q : -q, f);
    double a = 0.05 + 0.9 * r.real(); return m->m->GetPsddTopNode((uint32_t)q, f, PsddParameter::CreateFromDecimal(a), PsddParameter::CreateFromDecimal(1 - a)); };
  std::vector<PsddNode *> P, S; std::vector<PsddParameter> A; PsddNode *x = nullptr; int kind = (int)r.below(3);
  W.activity("C06", "node construction from parts below");
  if (!W.call([&] {
        if (kind == 0) { P = {some(pl, vi.left)}; S = {some(pr, vi.right)}; A = {PsddParameter::CreateFromDecimal(1)}; }
        else {   // exclusive primes: the two literals of a variable, or with a second one three of the four combinations
          int q = leaf_in(vi.left); double a = 0.05 + 0.9 * r.real(); bool sw = r.chance(50);
          P = {m->m->GetPsddLiteralNode(sw ? q : -q, f), m->m->GetPsddLiteralNode(sw ? -q : q, f)};
          A = {PsddParameter::CreateFromDecimal(a), PsddParameter::CreateFromDecimal(1 - a)};
          S = {some(pr, vi.right), kind == 1 ? some(pr, vi.right) : (PsddNode *)nullptr}; if (!S[1]) S[1] = S[0];
        }
        x = m->m->GetConformedPsddDecisionNode(P, S, A, f);
      })) return;
  sh->nontrivial++;
  Table want((size_t)1 << m->n(), 0);
  auto tab = [&](PsddNode *y) { Shape s; if (!read_shape(m, y, &s).empty()) return Table(); return table_of(m, s); };
  for (size_t i = 0; i < P.size(); i++) { Table a = tab(P[i]), b = tab(S[i]); if (a.empty() || b.empty()) return; real w = lin(A[i]); for (size_t k = 0; k < want.size(); k++) want[k] += w * a[k] * b[k]; }
  if (W.on("C06")) {
    if (!x || x->vtree_node() != v || x->flag_index() != f) W.bad("C06", "merged", "a node of parts below is not at the vtree node or has not the flag that were asked for", true);
    Shape s; std::string e = read_shape(m, x, &s); if (!e.empty()) W.bad("C06", "merged", "a node of parts below is malformed: " + e, true);
    e = diff_tables(table_of(m, s), want, 2e-6); if (!e.empty()) W.bad("C06", "merged", "a node of parts below: " + e, true);
  }
  W.add(m, x, f, "conform");
}
// many nodes nobody keeps: node indices grow, tables rehash
OP(burn) {
  Mgr *m = W.pick_mgr(r); int k = 20 + (int)r.below(r.chance(15) ? 1200 : 300);
  int q = m->bit.begin()->first; uintmax_t f = 1000000 + r.below(1000);
  for (auto &b : m->bit) if (r.chance(30)) q = b.first;
  if (!W.call([&] { for (int i = 0; i < k; i++) { double a = (i + 1.0) / (k + 2.0); m->m->GetPsddTopNode((uint32_t)q, f, PsddParameter::CreateFromDecimal(a), PsddParameter::CreateFromDecimal(1 - a)); } })) return;
}
// one PSDD whose parts were made far apart: their indices agree in the low 8 (rarely 16) bits
OP(far) {
  Mgr *m = W.pick_mgr(r); uintmax_t f = pick_flag(r);
  std::vector<Vtree *> in; for (auto v : m->vlist) if (!m->vinfo.at(v).var) in.push_back(v);
  if (in.empty()) return;
  Vtree *v = r.chance(85) ? m->m->vtree() : in[r.below(in.size())]; const VInfo &vi = m->vinfo.at(v);
  bool wide = r.chance(6); uint64_t gap = wide ? 65536 : 256;
  int q = 0; for (auto &b : m->bit) if (m->vinfo.at(vi.left).mask >> b.second & 1) if (!q || r.chance(40)) q = b.first;
  uintmax_t own = 2000000 + r.below(1u << 20), waste = 4000000 + r.below(1u << 20); uint64_t same = r.next();
  PsddNode *x = nullptr, *y = nullptr, *twin = nullptr;
  auto burn = [&](PsddNode *s) {
    Shape sh0; if (!read_shape(m, s, &sh0).empty()) return; uint64_t first = ~0ull; for (auto z : sh0.post) if (z->flag_index() == own) first = std::min<uint64_t>(first, z->node_index());
    if (first == ~0ull) return;
    for (uint64_t i = 0; i < 2 * gap; i++) { double a = (i + 1.0) / (2.0 * (double)gap + 2); PsddNode *z = m->m->GetPsddTopNode((uint32_t)q, waste, PsddParameter::CreateFromDecimal(a), PsddParameter::CreateFromDecimal(1 - a)); if ((z->node_index() + 1) % gap == first % gap) break; } };
  W.activity("C06", "node construction from parts made far apart");
  if (!W.call([&] {
        Rng r1(same), r2(r.chance(50) ? same : r.next());
        PsddNode *s1 = build_direct(m, vi.right, r1, own, {}, 0, nullptr); burn(s1);
        PsddNode *s2 = build_direct(m, vi.right, r2, own + (r.chance(50) ? 1 : 0), {}, 0, nullptr);
        double a = 0.05 + 0.9 * r.real();
        x = m->m->GetConformedPsddDecisionNode({m->m->GetPsddLiteralNode(q, own), m->m->GetPsddLiteralNode(-q, own)}, {s1, s2}, {PsddParameter::CreateFromDecimal(a), PsddParameter::CreateFromDecimal(1 - a)}, f);
        if (r.chance(50)) for (uint64_t i = 0; i < 2 * gap && !twin; i++) { double c = (i + 1.0) / (2.0 * (double)gap + 2); PsddNode *z = m->m->GetPsddTopNode((uint32_t)q, waste + 1, PsddParameter::CreateFromDecimal(c), PsddParameter::CreateFromDecimal(1 - c)); if (z->node_index() % gap == x->node_index() % gap) twin = z; }
        else if (r.chance(60)) { burn(x); Rng r3(r.chance(50) ? same : r.next()); y = build_direct(m, v, r3, own + 2, {}, 0, nullptr); }
      })) return;
  sh->nontrivial++; stat_add(wide ? "probe: node indices 65536 apart in one PSDD" : "probe: node indices 256 apart in one PSDD");
  W.add(m, x, f, "far"); if (y) W.add(m, y, own + 2, "far"); if (twin) W.add(m, twin, waste + 1, "far");
}
// a unique table used on its own: the registered node of a content, what flags forget, what a collection releases
OP(u_table) {
  Mgr *m = W.pick_mgr(r); struct N { PsddNode *n; std::string key; uintmax_t flag; std::vector<PsddNode *> kids; };
  std::vector<N> reg, lost; std::map<std::string, size_t> of;      // registered, forgotten but still ours
  PsddUniqueTable *t; { Lib l; t = PsddUniqueTable::GetPsddUniqueTable(); }
  uintmax_t next = r.chance(20) ? ((uintmax_t)1 << 32) - 5 : r.below(3); uintmax_t flags[3]; for (auto &f : flags) f = pick_flag(r);
  int steps = 5 + (int)r.below(r.chance(20) ? 300 : 60); W.activity("C06", "a unique table of its own, %d requests", steps); sh->nontrivial++;
  auto par = [&](int k) { return PsddParameter::CreateFromDecimal((double)k / 16); };
  std::vector<Vtree *> leaves, inner; for (Vtree *v : m->vlist) (sdd_vtree_is_leaf(v) ? leaves : inner).push_back(v);
  for (int i = 0; i < steps; i++) {
    int op = (int)r.below(100);
    if (op < 90) {
      N n; n.flag = flags[r.below(3)]; int kind = (int)r.below(3); PsddNode *x = nullptr;
      if (kind < 2 || inner.empty()) {
        Vtree *v = leaves[r.below(leaves.size())]; int var = (int)sdd_vtree_var(v);
        if (kind == 0) { int lit = r.chance(50) ? var : -var; n.key = fmt("L %d %lu", lit, (unsigned long)n.flag); uintmax_t c = next; bool plain = r.chance(60); { Lib l; x = plain ? new PsddLiteralNode(next, v, n.flag, lit) : n.flag == 0 && r.chance(50) ? new PsddLiteralNode(&c, v, lit) : new PsddLiteralNode(&c, v, n.flag, lit); } if (x->node_index() != next || c != next + (plain ? 0 : 1)) W.bad("C06", "table", "a new node does not take the index it is given", true); }
        else { int a = (int)r.below(5); a = a < 2 ? 4 + 4 * a : (int)r.range(1, 15); n.key = fmt("T %d %lu %d", var, (unsigned long)n.flag, a); Lib l; x = new PsddTopNode(next, v, n.flag, (uint32_t)var, par(a), par(16 - a)); }
      } else {
        Vtree *v = inner[r.below(inner.size())]; std::vector<PsddNode *> lp, ls; for (auto &k : reg) { if (k.n->vtree_node() == sdd_vtree_left(v)) lp.push_back(k.n); if (k.n->vtree_node() == sdd_vtree_right(v)) ls.push_back(k.n); }
        if (lp.empty() || ls.empty()) continue;
        for (size_t j = lp.size(); j-- > 1;) std::swap(lp[j], lp[r.below(j + 1)]);
        lp.resize(1 + r.below(std::min<size_t>(lp.size(), 5))); std::vector<PsddNode *> sub; std::vector<PsddParameter> pa; std::map<uintmax_t, std::string> parts;
        for (auto q : lp) { PsddNode *y = ls[r.below(std::min<size_t>(ls.size(), 3))]; int a = (int)r.range(1, 3); sub.push_back(y); pa.push_back(par(a)); parts[q->node_index()] = fmt(" %lu/%lu/%d", (unsigned long)q->node_index(), (unsigned long)y->node_index(), a); n.kids.push_back(q); n.kids.push_back(y); }
        n.key = fmt("D %ld %lu", (long)sdd_vtree_position(v), (unsigned long)n.flag); for (auto &k : parts) n.key += k.second;
        uintmax_t c = next; bool plain = r.chance(60); { Lib l; x = plain ? new PsddDecisionNode(next, v, n.flag, lp, sub, pa) : new PsddDecisionNode(&c, v, n.flag, lp, sub, pa); } if (x->node_index() != next || c != next + (plain ? 0 : 1)) W.bad("C06", "table", "a new node does not take the index it is given", true);
      }
      auto it = of.find(n.key); uintmax_t before = next; bool counted = r.chance(85); PsddNode *got;
      for (auto &k : reg) {     // the comparison of nodes agrees
        if (k.n->node_type() != x->node_type() || k.n->vtree_node() != x->vtree_node()) continue;
        bool same; { Lib l; same = x->node_type() == 1 ? *x->psdd_literal_node() == *k.n->psdd_literal_node() : x->node_type() == 2 ? *x->psdd_decision_node() == *k.n->psdd_decision_node() : *x->psdd_top_node() == *k.n->psdd_top_node(); }
        if (same != (k.key == n.key)) W.bad("C06", "equality", fmt("two nodes of %s content compare %s", k.key == n.key ? "the same" : "different", same ? "equal" : "unequal"), true);
        if (same && k.n->hash_value() != x->hash_value()) W.bad("C06", "equality", "two equal nodes have different hash values", true);
      }
      { Lib l; got = t->GetUniqueNode(x, counted ? &next : nullptr); }
      if (it != of.end()) {
        if (got != reg[it->second].n) { W.bad("C06", "table", "a unique table returns another node than the registered one for the same content", true); return; }
        if (next != before) W.bad("C06", "table", "the index counter moves although no node was registered", true);
      } else {
        if (got != x) { W.bad("C06", "table", "a unique table does not return a node whose content is new", true); return; }
        if (counted && next != before + 1) W.bad("C06", "table", "the index counter does not move by one for a new node", true);
        if (!counted) next++;
        n.n = x; of[n.key] = reg.size(); reg.push_back(n);
      }
    } else if (op < 95) {       // forget all but some flags; the nodes stay ours
      std::unordered_set<uintmax_t> keep; for (auto f : flags) if (r.chance(60)) keep.insert(f); if (r.chance(20)) keep.insert(77);
      { Lib l; t->DeletePsddNodesWithoutFlagIndexes(keep); }
      std::vector<N> k; of.clear(); for (auto &n : reg) if (keep.count(n.flag)) { of[n.key] = k.size(); k.push_back(n); } else lost.push_back(n); reg.swap(k);
    } else if (lost.empty()) {  // a collection releases what the roots do not reach
      std::vector<PsddNode *> roots; for (auto &n : reg) if (r.chance(8)) roots.push_back(n.n); std::set<PsddNode *> live(roots.begin(), roots.end()); for (size_t j = reg.size(); j-- > 0;) if (live.count(reg[j].n)) live.insert(reg[j].kids.begin(), reg[j].kids.end());
      { Lib l; t->DeleteUnusedPsddNodes(roots); }
      std::vector<N> k; of.clear(); for (auto &n : reg) { bool fr = block_freed(n.n); if (fr == (live.count(n.n) > 0)) { W.bad("C06", "table", fr ? "a collection of a unique table releases a node in use" : "a collection of a unique table keeps an unused node", true); return; } if (!fr) { of[n.key] = k.size(); k.push_back(n); } } reg.swap(k);
    }
  }
  hash_mix(reg.size() * 31 + next);
  { Lib l; delete t; for (auto &n : reg) delete n.n; for (auto &n : lost) delete n.n; }
}
OP(b_sub) {   // a client keeps a handle on a part of an existing PSDD
  Handle *h = W.pick(r, nullptr); if (!h) return;
  Shape s; if (!read_shape(h->mgr, h->root, &s).empty()) return;
  PsddNode *x = s.post[r.below(s.post.size())];
  W.add(h->mgr, x, x->flag_index(), "sub");
}
OP(drop) { Handle *h = W.pick(r, nullptr); if (h && W.hs.size() > 2) W.drop(h); }
OP(newmgr) { if (W.mgrs.size() < 4) W.add_mgr(r); }

// ---------------------------------------------------------------- SDD conversions (C09)
OP(b_sdd) {
  Mgr *m = W.pick_mgr(r); uintmax_t flag = pick_flag(r);
  bool whole = r.chance(60);
  Vtree *v = whole ? m->m->vtree() : random_vnode(m, r, 20);
  const VSpec *sp = spec_at(m, v);
  std::vector<int> vars; vspec_leaves(sp, &vars); std::sort(vars.begin(), vars.end());
  SddSide side(sp, vars, r);
  std::vector<int> over; for (size_t i = 0; i < vars.size(); i++) if (over.empty() || r.chance(80)) over.push_back((int)i);
  int reps = r.chance(25) ? 2 : 1;
  for (int k = 0; k < reps; k++) {
    Formula f = random_formula(r, (int)vars.size(), over);
    SddNode *sn = formula_sdd(f, side.sm, side.var_of);
    if (r.chance(30)) { sdd_ref(sn, side.sm); sdd_manager_garbage_collect(side.sm); }
    Vtree *sv = sdd_manager_vtree(side.sm);
    PsddNode *x = nullptr;
    int how = v == m->m->vtree() ? (int)r.below(3) : 1 + (int)r.below(2);
    W.activity("C09", "SDD to PSDD (%s)", how == 0 ? "ConvertSddToPsdd" : how == 1 ? "FromSdd sub-vtree" : "FromSdd variables");
    std::unordered_set<SddLiteral> used(vars.begin(), vars.end());
    if (!W.call([&] {
          if (how == 0) x = m->m->ConvertSddToPsdd(sn, sv, flag);
          else if (how == 1) x = m->m->FromSdd(sn, sv, flag, v);
          else x = m->m->FromSdd(sn, sv, flag, used);
        })) return;
    Table want((size_t)1 << m->n(), 0); bool sat = false;
    for (uint32_t a = 0; a < want.size(); a++) {
      uint32_t y = 0; for (size_t i = 0; i < vars.size(); i++) if ((a >> m->bit[vars[i]]) & 1) y |= 1u << i;
      if (eval_formula(f, y)) { want[a] = 1; sat = true; }
    }
    if (!sat) { if (x) W.bad("C09", "false", "an unsatisfiable SDD was converted to a PSDD", true); stat_add("probe: conversion of false"); continue; }
    if (!x) { W.bad("C09", "false", "a satisfiable SDD was converted to no PSDD", true); continue; }
    if (W.on("C09")) {
      Shape s; std::string e = read_shape(m, x, &s);
      if (!e.empty()) W.bad("C09", "malformed", "converted PSDD is malformed: " + e, true);
      if (x->vtree_node() != v) W.bad("C09", "place", "converted PSDD is not at the requested vtree node", true);
      Table t = table_of(m, s);
      for (size_t a = 0; a < t.size(); a++) if ((t[a] != 0) != (want[a] != 0)) { W.bad("C09", "models", fmt("assignment %zu: PSDD says %s, SDD says %s", a, t[a] != 0 ? "model" : "not a model", want[a] != 0 ? "model" : "not a model"), true); }
      std::string why; if (!primes_exclusive(m, s, &why)) W.bad("C09", "exclusive", why, true);
      for (auto q : s.post) if (q->flag_index() != flag) { W.bad("C09", "flag", "converted PSDD carries another flag", true); }
    }
    W.add(m, x, flag, "sdd");
    W.verify_all("C09", "disturbed");
  }
}
bool sdd_eval(SddNode *n, const std::function<bool(SddLiteral)> &val, std::map<SddSize, bool> &memo) {
  if (sdd_node_is_true(n)) return true;
  if (sdd_node_is_false(n)) return false;
  if (sdd_node_is_literal(n)) { SddLiteral l = sdd_node_literal(n); return val(std::labs(l)) == (l > 0); }
  auto it = memo.find(sdd_id(n)); if (it != memo.end()) return it->second;
  SddNode **e = sdd_node_elements(n); SddSize k = sdd_node_size(n); bool res = false;
  for (SddSize i = 0; i < k && !res; i++) res = sdd_eval(e[2 * i], val, memo) && sdd_eval(e[2 * i + 1], val, memo);
  return memo[sdd_id(n)] = res;
}
OP(q_tosdd) {
  Handle *h = W.pick(r, nullptr, [](Handle *x) { return x->pos; }); if (!h) return;
  Mgr *m = h->mgr;
  SddSide side(m->spec.get(), m->vars, r);
  SddNode *sn = nullptr;
  W.activity("C09", "PSDD to SDD");
  bool automatic = r.chance(40); if (automatic) { sdd_manager_auto_gc_and_minimize_on(side.sm); stat_add("probe: conversion into an SDD manager that collects by itself"); }
  SddSize vsize = (SddSize)sdd_manager_var_count(side.sm);
  if (!W.call([&] { auto ser = psdd_node_util::SerializePsddNodes(h->root); sn = psdd_node_util::ConvertPsddNodeToSddNode(ser, side.to_sdd, side.sm); })) return;
  if (W.on("C09") && (!!sdd_manager_is_auto_gc_and_minimize_on(side.sm) != automatic || (SddSize)sdd_manager_var_count(side.sm) != vsize)) W.bad("C09", "manager", "PSDD to SDD conversion changed the settings of the SDD manager", true);
  sdd_manager_auto_gc_and_minimize_off(side.sm);
  if (sn && r.chance(30)) { sdd_ref(sn, side.sm); sdd_manager_garbage_collect(side.sm); stat_add("probe: SDD manager collected after a conversion"); }
  if (W.on("C09")) {
    if (!sn) W.bad("C09", "tosdd", "PSDD to SDD conversion returned nothing", true);
    for (uint32_t a = 0; a < h->t.size(); a++) {
      std::map<SddSize, bool> memo;
      bool got = sdd_eval(sn, [&](SddLiteral v) { for (size_t i = 0; i < m->vars.size(); i++) if (side.var_of[i] == v) return ((a >> i) & 1) != 0; return false; }, memo);
      if (got != (h->t[a] != 0)) W.bad("C09", "tosdd", fmt("assignment %u: SDD says %d, PSDD says %d", a, got, h->t[a] != 0), true);
      W.log(got);
    }
    W.verify_all("C09", "disturbed");
    if (r.chance(40)) {   // and back again
      PsddNode *x = nullptr; uintmax_t flag = pick_flag(r);
      W.activity("C09", "PSDD to SDD and back");
      { Lib l; x = m->m->ConvertSddToPsdd(sn, sdd_manager_vtree(side.sm), flag); }
      Handle *g = W.add(m, x, flag, "sddback");
      for (size_t a = 0; g && a < g->t.size(); a++) if ((g->t[a] != 0) != (h->t[a] != 0)) W.bad("C09", "back", fmt("converting to an SDD and back changes assignment %zu", a), true);
      if (!g) W.bad("C09", "back", "converting to an SDD and back loses the PSDD", true);
    }
  }
}

// ---------------------------------------------------------------- CNF from clauses (C10)
void check_cnf(World &W, Mgr *m, PsddNode *x, const Formula &f, uintmax_t flag, const char *how, bool keep) {
  (void)how;
  bool sat = false; Table want((size_t)1 << m->n(), 0);
  for (uint32_t a = 0; a < want.size(); a++) if (eval_formula(f, a)) { want[a] = 1; sat = true; }
  if (!sat) { stat_add("probe: unsatisfiable CNF"); if (x) W.bad("C10", "unsat", "an unsatisfiable CNF compiled to a PSDD", true); return; }
  if (!x) { W.bad("C10", "unsat", "a satisfiable CNF compiled to no PSDD", true); return; }
  if (W.on("C10")) {
    Shape s; std::string e = read_shape(m, x, &s);
    if (!e.empty()) W.bad("C10", "malformed", e, true);
    Table t = table_of(m, s);
    for (size_t a = 0; a < t.size(); a++) if ((t[a] != 0) != (want[a] != 0)) W.bad("C10", "models", fmt("assignment %zu: PSDD says %s, CNF says %s", a, t[a] != 0 ? "model" : "not a model", want[a] != 0 ? "model" : "not a model"), true);
  }
  if (keep) W.add(m, x, flag, "cnf");
}
std::vector<std::vector<SddLiteral>> cnf_clauses(Mgr *m, const Formula &f) {
  std::vector<std::vector<SddLiteral>> c;
  for (auto &cl : f.clauses) { std::vector<SddLiteral> k; for (int l : cl) k.push_back(l > 0 ? m->vars[l - 1] : -m->vars[-l - 1]); c.push_back(k); }
  return c;
}
Formula random_cnf(Rng &r, Mgr *m) { std::vector<int> over; for (int i = 0; i < m->n(); i++) if (over.empty() || r.chance(85)) over.push_back(i); Formula f = random_formula(r, m->n(), over); f.dnf = false; return f; }
OP(b_cnf) {
  Mgr *m = W.pick_mgr(r); uintmax_t flag = pick_flag(r);
  Formula f = random_cnf(r, m);
  auto cl = cnf_clauses(m, f);
  PsddNode *x = nullptr;
  W.activity("C10", "CNF compile");
  CNF *cnf = nullptr;
  { cnf = new CNF(cl); }
  int reps = r.chance(20) ? 2 : 1;
  for (int k = 0; k < reps; k++) {
    if (!W.call([&] { x = cnf->Compile(m->m, flag); })) break;
    check_cnf(W, m, x, f, flag, "clauses", k == 0);
  }
  delete cnf;
  W.verify_all("C10", "disturbed");
}

// ---------------------------------------------------------------- multiplication (C01)
bool tame(Handle *h) {
  if (!h->pos) return false;
  for (real v : h->t) if (v != 0 && v < 1e-800L) return false;
  return true;
}
void check_product(World &W, const char *owner, Mgr *m, Handle *a, const Table &ta, const Table &tb, std::pair<PsddNode *, PsddParameter> res, Vtree *at, uintmax_t flag) {
  Table prod(ta.size()); real tot = 0;
  uint32_t mk = m->vinfo.at(at).mask;
  for (size_t i = 0; i < ta.size(); i++) { prod[i] = ta[i] * tb[i]; if ((i & ~(size_t)mk) == 0) tot += prod[i]; }
  (void)a;
  if (tot == 0) {
    stat_add("probe: product of disjoint PSDDs");
    if (res.first) W.bad(owner, "disjoint", "PSDDs without a common model have a product", true);
    if (!(lin(res.second) == 0)) W.bad(owner, "disjoint", "PSDDs without a common model have a non-zero partition", true);
    return;
  }
  if (!res.first) { W.bad(owner, "lost", "PSDDs with a common model have no product", true); return; }
  if (W.on(owner)) {
    if (!self_equal(res.second)) W.bad(owner, "partition", "the partition compares as another number than it is", true);
    Shape s; std::string e = read_shape(m, res.first, &s);
    if (!e.empty()) W.bad(owner, "malformed", "product is malformed: " + e, true);
    if (res.first->vtree_node() != at) W.bad(owner, "place", "product is at another vtree node", true);
    if (!s.norm) W.bad(owner, "normalised", "product is not normalised", true);
    std::string why; if (!primes_exclusive(m, s, &why)) W.bad(owner, "exclusive", "product: " + why, true);
    for (auto q : s.post) if (q->flag_index() != flag) W.bad(owner, "flag", "a node of the product carries another flag", true);
    Table t = table_of(m, s); real z = lin(res.second);
    for (auto &v : t) v *= z;
    std::string d = diff_tables(t, prod, 2e-5);
    if (!d.empty()) W.bad(owner, "value", "result(x) * partition " + d, true);
  }
  W.add(m, res.first, flag, "mult");
}
OP(mult) {
  Handle *a = W.pick(r, nullptr, tame); if (!a) return;
  Mgr *m = a->mgr;
  Handle *b = r.chance(14) ? a : W.pick(r, m, [&](Handle *x) { return tame(x) && x->at == a->at; });
  if (!b) return;
  if (r.chance(50)) std::swap(a, b);
  uintmax_t flag = pick_flag(r);
  std::pair<PsddNode *, PsddParameter> res{nullptr, PsddParameter()};
  W.activity("C01", "Multiply PSDD %d by PSDD %d", a->id, b->id);
  if (a->client != b->client || W.step_no > 4) sh->nontrivial++;
  if (!W.call([&] { res = m->m->Multiply(a->root, b->root, flag); })) return;
  Table ta = a->t, tb = b->t; Vtree *at = a->at; PsddNode *ra = a->root, *rb = b->root; bool ok = tame(a) && tame(b);
  W.logd(res.second.parameter());
  check_product(W, "C01", m, a, ta, tb, res, at, flag);
  if (ok && W.on("C01") && r.chance(35)) {     // argument order and repetition do not matter
    std::pair<PsddNode *, PsddParameter> r2{nullptr, PsddParameter()};
    bool swap = r.chance(60);
    W.activity("C01", "Multiply again");
    { Lib l; r2 = swap ? m->m->Multiply(rb, ra, flag) : m->m->Multiply(ra, rb, flag); }
    check_product(W, "C01", m, a, ta, tb, r2, at, flag);
    if (!swap && r2.first != res.first) W.bad("C06", "repeat-multiply", "repeating a multiplication gives another node");
  }
  W.verify_all("C01", "disturbed");
}

// ---------------------------------------------------------------- parameter sampling (C12)
OP(sample) {
  Mgr *m = W.pick_mgr(r);
  std::vector<Handle *> roots;
  size_t k = r.chance(60) ? 1 : 2 + r.below(3);
  for (size_t i = 0; i < k; i++) { Handle *h = W.pick(r, m); if (h) roots.push_back(h); }
  if (roots.empty()) return;
  std::vector<PsddNode *> rn; for (auto h : roots) rn.push_back(h->root);
  if (k > 1 && r.chance(40)) {   // a part of a root as further root
    Shape s; read_shape(m, rn[0], &s); PsddNode *x = s.post[r.below(s.post.size())];
    if (r.chance(50)) rn.push_back(x); else rn.insert(rn.begin(), x);
    stat_add("probe: sampling with a root inside another root");
  }
  uintmax_t flag = pick_flag(r);
  int style = r.chance(75) ? 0 : (int)r.below(4);
  int64_t th = W.fault_pending && W.cur_fault.kind == F_GEN && !W.cf ? (int64_t)W.cur_fault.a : -1;
  RecGen g(r.next(), style, th); if (style == 0 && r.chance(30)) g.scale = std::pow(10.0, 500 * (r.real() - 0.5));   // only proportions count
  std::vector<PsddNode *> out;
  W.activity("C12", "sample parameters of %zu roots", rn.size());
  if (rn.size() > 1 || W.step_no > 4) sh->nontrivial++;
  bool single = rn.size() == 1 && r.chance(60);
  if (!W.call([&] { if (single) out = {m->m->SampleParameters(&g, rn[0], flag)}; else out = m->m->SampleParametersForMultiplePsdds(&g, rn, flag); }, true)) return;
  W.fault_pending = false;
  if (W.on("C12")) {
    if (out.size() != rn.size()) W.bad("C12", "roots", fmt("%zu roots in, %zu out", rn.size(), out.size()), true);
    // distinct inner nodes over all roots, before and after
    std::set<PsddNode *> in_nodes, out_nodes; size_t branches = 0, inner_in = 0, inner_out = 0, multi_in = 0, multi_out = 0;
    std::vector<PsddNode *> outs;
    for (auto x : rn) { Shape s; read_shape(m, x, &s); for (auto q : s.post) if (in_nodes.insert(q).second) { if (q->node_type() == 2) { size_t k = q->psdd_decision_node()->primes().size(); branches += k; inner_in++; multi_in += k > 1; } else if (q->node_type() == 3) branches += 2, inner_in++, multi_in++; } }
    for (size_t i = 0; i < out.size(); i++) {
      Shape s; std::string e = read_shape(m, out[i], &s);
      if (!e.empty()) W.bad("C12", "malformed", fmt("sampled PSDD %zu is malformed: %s", i, e.c_str()), true);
      if (!s.norm) W.bad("C12", "normalised", fmt("sampled PSDD %zu is not normalised", i), true);
      if (out[i]->vtree_node() != rn[i]->vtree_node()) W.bad("C12", "place", "sampled PSDD is at another vtree node", true);
      std::string why; if (!primes_exclusive(m, s, &why)) W.bad("C12", "exclusive", why, true);
      for (auto q : s.post) { if (q->flag_index() != flag) W.bad("C12", "flag", "a node of the sampled PSDD carries another flag", true); if (out_nodes.insert(q).second) { outs.push_back(q); if (q->node_type() != 1) { inner_out++; multi_out += q->node_type() == 3 || q->psdd_decision_node()->primes().size() > 1; } } }
      Shape si; read_shape(m, rn[i], &si);
      // same structural support
      std::unordered_map<PsddNode *, int> dummy;
      Table ti = table_of(m, si), to = table_of(m, s);
      if (si.pos && s.pos) for (size_t a = 0; a < ti.size(); a++) if ((ti[a] != 0) != (to[a] != 0)) W.bad("C12", "support", fmt("sampling changes the support at assignment %zu", a), true);
      for (size_t j = 0; j < i; j++) if (rn[j] == rn[i] && out[j] != out[i]) W.bad("C12", "repeated-root", "the same root twice gives different results", true);
    }
    for (auto q : outs) {
      if (q->node_type() == 3 && (std::isinf(q->psdd_top_node()->true_parameter().parameter()) || std::isinf(q->psdd_top_node()->false_parameter().parameter()))) W.bad("C12", "zero", "a sampled parameter is zero although every draw was positive", true);
    }
    if (style == 0) {
      // generic draws: every inner node has its own fresh draws, used exactly once (a single element may do without)
      if (g.draws.size() != branches && g.draws.size() != branches - (inner_in - multi_in)) W.bad("C12", "draws", fmt("%zu draws for %zu parameters", g.draws.size(), branches), true);
      // parameters are told apart up to 1e-7, so two groups of draws may coincide by chance (about once in 1e6 runs)
      bool coincide = false;
      { std::vector<real> q; for (size_t i = 0; i < g.draws.size(); i++) for (size_t j = 0; j < g.draws.size(); j++) if (i != j && g.draws.size() <= 200) q.push_back(logl((real)g.draws[i] / ((real)g.draws[i] + g.draws[j])));
        std::sort(q.begin(), q.end()); for (size_t i = 1; i < q.size() && q.size() < 400; i++) if (q[i] - q[i - 1] < 3e-7L) coincide = true;
        if (q.size() >= 400) { q.clear(); for (size_t i = 0; i + 1 < g.draws.size(); i++) q.push_back(logl((real)g.draws[i] / ((real)g.draws[i] + g.draws[i + 1]))); std::sort(q.begin(), q.end()); for (size_t i = 1; i < q.size(); i++) if (q[i] - q[i - 1] < 3e-7L) coincide = true; } }
      // nodes with a single element have no draws of their own to tell them apart, so they may become one
      if (!coincide && (multi_out != multi_in || inner_out > inner_in)) W.bad("C12", "sharing", fmt("%zu distinct inner nodes (%zu with several branches) became %zu (%zu)", inner_in, multi_in, inner_out, multi_out), true);
      std::multimap<double, size_t> dm; for (size_t i = 0; i < g.draws.size(); i++) dm.insert({g.draws[i], i});
      std::vector<char> used(g.draws.size(), 0), done(outs.size(), 0); int loose = 0;   // two coincidences in one call do not happen
      // first the nodes whose parameters are the quotients to the last digits; then, among the draws left over, the
      // nodes that the manager already held with parameters equal up to 1e-7
      for (real tol : {1e-12L, 1e-6L}) if (!coincide) for (size_t oi = 0; oi < outs.size(); oi++) {
        if (done[oi]) continue;
        auto q = outs[oi];
        auto find_draw = [&](real d) -> long { auto it = dm.lower_bound((double)(d * (1 - tol))); for (; it != dm.end() && it->first <= d * (1 + tol); ++it) if (!used[it->second]) return (long)it->second; return -1; };
        std::vector<real> th2;
        if (q->node_type() == 1) continue;
        if (q->node_type() == 3) { th2 = {lin(q->psdd_top_node()->true_parameter()), lin(q->psdd_top_node()->false_parameter())}; }
        else for (auto &p : q->psdd_decision_node()->parameters()) th2.push_back(lin(p));
        if (th2.size() == 1) { if (!close_to(th2[0], 1, 1e-6)) W.bad("C12", "single", "a single element has a parameter other than one", true); continue; }
        bool found = false;
        for (size_t c = 0; c < g.draws.size() && !found; c++) {
          if (used[c]) continue;
          real S = (real)g.draws[c] / th2[0]; std::vector<size_t> grp{c}; used[c] = 1; real sum = g.draws[c]; bool ok = true;
          for (size_t i = 1; i < th2.size() && ok; i++) { long d = find_draw(th2[i] * S); if (d < 0) ok = false; else { used[d] = 1; grp.push_back((size_t)d); sum += g.draws[(size_t)d]; } }
          if (ok && close_to(sum, S, tol * 4)) found = true; else for (auto i : grp) used[i] = 0;
        }
        if (found) { done[oi] = 1; loose += tol > 1e-9L; }
        if (tol > 1e-9L && (!found || loose > 1)) W.bad("C12", "proportion", fmt("the %zu parameters of a sampled node are not a group of fresh draws divided by their sum", th2.size()), true);
      }
    }
    W.verify_all("C12", "disturbed");
    // the same draws give the same result
    RecGen g2(0, 0, -1); g2.from = &g.draws;
    std::vector<PsddNode *> out2;
    { Lib l; out2 = m->m->SampleParametersForMultiplePsdds(&g2, rn, flag); }
    for (size_t i = 0; i < out.size(); i++) if (out2[i] != out[i]) {
      Shape s1, s2; read_shape(m, out[i], &s1); std::string e = read_shape(m, out2[i], &s2);
      if (!e.empty()) W.bad("C12", "repeat", "repeating with the same draws: " + e, true);
      if (!diff_tables(table_of(m, s2), table_of(m, s1), 1e-6).empty()) W.bad("C12", "repeat", "the same draws give another distribution", true);
    }
  }
  if (W.any) {   // results depend on the order of draws, so counterfactual runs do not keep them
    for (auto x : out) { Shape s; if (!read_shape(m, x, &s).empty() || !s.norm) W.bad("C12", "malformed", "sampled PSDD is malformed", true); }
    return;
  }
  for (auto x : out) W.add(m, x, flag, "sample");
}

// ---------------------------------------------------------------- learning (C11)
struct Counts { std::unordered_map<PsddNode *, std::vector<uint64_t>> c; };
static bool sat(PsddNode *x, uint32_t a, Mgr *m, std::unordered_map<PsddNode *, char> &memo) {
  if (x->node_type() == 3) return true;
  if (x->node_type() == 1) return ((a >> m->bit[(int)x->psdd_literal_node()->variable_index()]) & 1) == (uint32_t)(x->psdd_literal_node()->literal() > 0);
  auto it = memo.find(x); if (it != memo.end()) return it->second;
  auto d = x->psdd_decision_node(); bool res = false;
  for (size_t e = 0; e < d->primes().size() && !res; e++) res = sat(d->primes()[e], a, m, memo) && sat(d->subs()[e], a, m, memo);
  memo[x] = res; return res;
}
static void count(PsddNode *x, uint32_t a, Mgr *m, Counts &C, std::unordered_map<PsddNode *, char> &memo) {
  if (x->node_type() == 1) return;
  auto &c = C.c[x];
  if (x->node_type() == 3) { if (c.empty()) c.resize(2, 0); c[(a >> m->bit[(int)x->psdd_top_node()->variable_index()]) & 1]++; return; }
  auto d = x->psdd_decision_node(); if (c.empty()) c.resize(d->primes().size(), 0);
  for (size_t e = 0; e < d->primes().size(); e++) if (sat(d->primes()[e], a, m, memo) && sat(d->subs()[e], a, m, memo)) { c[e]++; count(d->primes()[e], a, m, C, memo); count(d->subs()[e], a, m, C, memo); }
}
OP(learn) {
  Handle *h = W.pick(r, nullptr, [](Handle *x) { return x->nodes <= 400; }); if (!h) return;
  Mgr *m = h->mgr;
  static const int sizes[] = {0, 1, 2, 3, 5, 8, 13, 20, 40, 63, 64, 65, 100, 128, 130};
  size_t N = (size_t)sizes[r.below(15)];
  std::vector<uint32_t> models; for (uint32_t a = 0; a < h->t.size(); a++) if (h->t[a] != 0) models.push_back(a);
  std::vector<uint32_t> data; int off = r.chance(30) ? 30 : 0;
  for (size_t i = 0; i < N; i++) {
    uint32_t a = models.empty() || r.chance(off) ? (uint32_t)r.below(h->t.size()) : models[r.below(models.size())];
    if (i && r.chance(30)) a = data[r.below(i)];
    data.push_back(a);
  }
  std::unordered_map<int32_t, BatchedPsddValue> ex;
  for (int b = 0; b < m->n(); b++) { BatchedPsddValue v(N); for (size_t i = 0; i < N; i++) v[i] = (data[i] >> b) & 1; ex[m->vars[b]] = v; }
  static const double alphas[] = {1, 1, 0.5, 2, 0.01, 1e-6, 10, 1e3, 0, 0};
  double alpha = alphas[r.below(10)]; if (r.chance(20)) alpha = std::pow(10.0, -r.real() * (r.chance(50) ? 14 : 200));
  uintmax_t flag = pick_flag(r);
  PsddNode *x = nullptr;
  W.activity("C11", "learn from %zu examples, alpha %g", N, alpha);
  if (N && W.step_no > 3) sh->nontrivial++;
  if (!W.call([&] { x = m->m->LearnPsddParameters(h->root, ex, N, PsddParameter::CreateFromDecimal(alpha), flag); })) return;
  if (!x) { W.bad("C11", "none", "learning returned no PSDD", true); return; }
  if (W.on("C11")) {
    Shape in, out; read_shape(m, h->root, &in);
    std::string e = read_shape(m, x, &out);
    if (!e.empty()) W.bad("C11", "malformed", "learned PSDD is malformed: " + e, true);
    if (!out.norm) W.bad("C11", "normalised", "learned PSDD is not normalised", true);
    if (x->vtree_node() != h->at) W.bad("C11", "place", "learned PSDD is at another vtree node", true);
    for (auto q : out.post) if (q->flag_index() != flag) W.bad("C11", "flag", "a node of the learned PSDD carries another flag", true);
    Counts C; for (uint32_t a : data) { std::unordered_map<PsddNode *, char> memo; count(h->root, a, m, C, memo); }
    // closed form on the original structure
    size_t T = h->t.size(); std::unordered_map<PsddNode *, Table> tab;
    for (auto q : in.post) {
      Table t(T, 0);
      auto &c = C.c[q];
      if (q->node_type() == 1) { int b = m->bit[(int)q->psdd_literal_node()->variable_index()]; for (size_t i = 0; i < T; i++) t[i] = ((i >> b) & 1) == (size_t)(q->psdd_literal_node()->literal() > 0); }
      else if (q->node_type() == 3) { if (c.empty()) c.resize(2, 0); real tot = (real)(c[0] + c[1]) + 2 * (real)alpha; int b = m->bit[(int)q->psdd_top_node()->variable_index()]; for (size_t i = 0; i < T; i++) t[i] = tot == 0 ? 0.5L : ((real)c[(i >> b) & 1] + alpha) / tot; }
      else {
        auto d = q->psdd_decision_node(); size_t k = d->primes().size(); if (c.empty()) c.resize(k, 0);
        real tot = (real)k * alpha; for (auto v : c) tot += (real)v;
        for (size_t el = 0; el < k; el++) { const Table &p = tab[d->primes()[el]], &s = tab[d->subs()[el]]; real th = tot == 0 ? 1 / (real)k : ((real)c[el] + alpha) / tot; for (size_t i = 0; i < T; i++) t[i] += th * p[i] * s[i]; }
      }
      tab[q] = std::move(t);
    }
    std::string d = diff_tables(table_of(m, out), tab[h->root], 2e-5);
    if (!d.empty()) W.bad("C11", "estimate", fmt("learned from %zu examples with alpha %g: ", N, alpha) + d, true);
    W.verify_all("C11", "disturbed");
    if (r.chance(25)) {
      PsddNode *y = nullptr; { Lib l; y = m->m->LearnPsddParameters(h->root, ex, N, PsddParameter::CreateFromDecimal(alpha), flag); }
      if (y != x) { Shape s2; std::string e2 = read_shape(m, y, &s2); if (!e2.empty() || !diff_tables(table_of(m, s2), table_of(m, out), 1e-6).empty()) W.bad("C11", "repeat", "learning again from the same data gives another result", true); }
    }
  }
  W.add(m, x, flag, "learn");
}

// ---------------------------------------------------------------- transfer between managers (C16)
OP(load) {
  if (W.mgrs.empty()) return;
  Mgr *dst = W.mgrs[r.below(W.mgrs.size())].get();
  Handle *h = W.pick(r, nullptr, [&](Handle *x) { return x->mgr->group == dst->group; }); if (!h) return;
  Mgr *src = h->mgr;
  // target: the corresponding vtree node or one of its ancestors
  Vtree *v = nullptr; int pos = src->vinfo[h->at].pos; for (auto w : dst->vlist) if (dst->vinfo[w].pos == pos) v = w;
  while (r.chance(35) && dst->vinfo[v].parent) v = dst->vinfo[v].parent;
  uintmax_t flag = pick_flag(r);
  PsddNode *x = nullptr;
  W.activity("C16", "load PSDD %d of manager %d into manager %d", h->id, src->id, dst->id);
  if (src != dst) sh->nontrivial++;
  if (!W.call([&] { x = dst->m->LoadPsddNode(v, h->root, flag); })) return;
  if (!x) { W.bad("C16", "none", "LoadPsddNode returned no PSDD", true); return; }
  if (W.on("C16")) {
    Shape s; std::string e = read_shape(dst, x, &s);
    if (!e.empty()) W.bad("C16", "malformed", "loaded PSDD is malformed: " + e, true);
    if (x->vtree_node() != v) W.bad("C16", "place", "loaded PSDD is not at the requested vtree node", true);
    std::string d = diff_tables(table_of(dst, s), h->t, 2e-6);
    if (!d.empty()) W.bad("C16", "value", "loaded PSDD " + d, true);
    for (auto q : s.post) if (q->flag_index() != flag) W.bad("C16", "flag", "a loaded node carries another flag", true);
    if (src != dst) { Shape a; read_shape(src, h->root, &a); std::set<PsddNode *> in(a.post.begin(), a.post.end()); for (auto q : s.post) if (in.count(q)) W.bad("C16", "owner", "the copy shares a node with its source", true); }
    W.verify_all("C16", "disturbed");
  }
  W.add(dst, x, flag, "load");
}
OP(normalize) {
  Handle *h = W.pick(r, nullptr, [](Handle *x) { return x->at != x->mgr->m->vtree(); }); if (!h) return;
  Mgr *m = h->mgr; Vtree *v = h->at;
  do v = m->vinfo[v].parent; while (m->vinfo[v].parent && r.chance(60));
  uintmax_t flag = r.chance(60) ? h->flag : pick_flag(r);
  PsddNode *x = nullptr;
  W.activity("C16", "normalise PSDD %d to a larger vtree", h->id);
  if (!W.call([&] { x = m->m->NormalizePsddNode(v, h->root, flag); })) return;
  if (!x) { W.bad("C16", "none", "NormalizePsddNode returned no PSDD", true); return; }
  if (W.on("C16")) {
    Shape s; std::string e = read_shape(m, x, &s);
    if (!e.empty()) W.bad("C16", "malformed", "normalised PSDD is malformed: " + e, true);
    if (x->vtree_node() != v) W.bad("C16", "place", "normalised PSDD is not at the requested vtree node", true);
    std::string d = diff_tables(table_of(m, s), h->t, 2e-6);
    if (!d.empty()) W.bad("C16", "value", "normalised PSDD " + d, true);
    W.verify_all("C16", "disturbed");
  }
  W.add(m, x, flag, "normalize");
}
OP(xmult) {   // arguments from different managers over equal vtrees
  if (W.mgrs.size() < 2) return;
  Handle *a = W.pick(r, nullptr, tame); if (!a) return;
  int pa = a->mgr->vinfo[a->at].pos;
  Handle *b = W.pick(r, nullptr, [&](Handle *x) { return tame(x) && x->mgr != a->mgr && x->mgr->group == a->mgr->group && x->mgr->vinfo[x->at].pos == pa; }); if (!b) return;
  std::vector<Mgr *> cand; for (auto &q : W.mgrs) if (q->group == a->mgr->group) cand.push_back(q.get());
  Mgr *m = cand[r.below(cand.size())];
  Vtree *at = nullptr; for (auto w : m->vlist) if (m->vinfo[w].pos == pa) at = w;
  uintmax_t flag = pick_flag(r);
  std::pair<PsddNode *, PsddParameter> res{nullptr, PsddParameter()};
  W.activity("C16", "Multiply PSDDs of managers %d and %d in manager %d", a->mgr->id, b->mgr->id, m->id);
  sh->nontrivial++;
  if (!W.call([&] { res = m->m->Multiply(a->root, b->root, flag); })) return;
  Table ta = a->t, tb = b->t;
  check_product(W, "C16", m, a, ta, tb, res, at, flag);
  W.verify_all("C16", "disturbed");
}
// a manager over fewer variables whose vtree is the projection of the target's: its PSDDs load into the larger one
OP(load_small) {
  Mgr *dst = W.pick_mgr(r); if (dst->n() < 2) return;
  std::set<int> keep; for (int v : dst->vars) if (r.chance(55)) keep.insert(v);
  if (keep.empty()) keep.insert(dst->vars[r.below(dst->vars.size())]);
  VSpecP sp(vspec_project(dst->spec.get(), keep).release());
  Vtree *v = vspec_build(sp.get());
  PsddManager *pm = nullptr;
  W.activity("C16", "load from a manager over fewer variables");
  { Lib l; pm = PsddManager::GetPsddManagerFromVtree(v); }
  sdd_vtree_free(v);
  Mgr *src = W.adopt_mgr(pm, sp, 1000 + W.next_mgr);
  PsddNode *x = nullptr, *y = nullptr; uintmax_t flag = pick_flag(r);
  { Lib l; x = build_direct(src, pm->vtree(), r, pick_flag(r), {}, r.chance(70) ? 0 : -1, nullptr); }
  Shape s0; if (!read_shape(src, x, &s0).empty()) { W.del_mgr(src); return; }
  Table t0 = table_of(src, s0);
  Table want((size_t)1 << dst->n());
  for (size_t a = 0; a < want.size(); a++) { size_t b = 0; for (size_t i = 0; i < src->vars.size(); i++) if ((a >> dst->bit[src->vars[i]]) & 1) b |= (size_t)1 << i; want[a] = t0[b]; }
  bool ok = W.call([&] { y = dst->m->LoadPsddNode(dst->m->vtree(), x, flag); });
  if (ok) {
    if (!y) W.bad("C16", "none", "LoadPsddNode returned no PSDD", true);
    else if (W.on("C16")) {
      Shape s; std::string e = read_shape(dst, y, &s);
      if (!e.empty()) W.bad("C16", "malformed", "PSDD loaded from a smaller vtree is malformed: " + e, true);
      if (y->vtree_node() != dst->m->vtree()) W.bad("C16", "place", "PSDD loaded from a smaller vtree is not at the root", true);
      std::string d = diff_tables(table_of(dst, s), want, 2e-6);
      if (!d.empty()) W.bad("C16", "value", "PSDD loaded from a smaller vtree " + d, true);
      Shape s1; e = read_shape(src, x, &s1);
      if (!e.empty() || s1.sig != s0.sig) W.bad("C16", "source", "loading changed the source PSDD", true);
    }
  }
  W.del_mgr(src);    // the copy must not depend on it
  W.activity("C16", "use of a PSDD after its source manager is destroyed");
  if (ok && y) W.add(dst, y, flag, "load_small");
  W.verify_all("C16", "disturbed");
}
OP(delmgr) {
  if (W.mgrs.size() < 2) return;
  Mgr *m = W.mgrs[r.below(W.mgrs.size())].get();
  W.activity("C16", "destroy manager %d", m->id);
  W.del_mgr(m);
  W.verify_all("C16", "survivor");
}
}  // namespace sim
