// Garbage collection, node identity, memory, vtree operations.
#include "lib.h"
#include <algorithm>
#include <cstring>

namespace sim {
PsddNode *rerequest(Mgr *mg, PsddNode *x, Rng &r, PsddManager *pm) {
  if (!pm) pm = mg->m;
  if (x->node_type() == 1) return pm->GetPsddLiteralNode(x->psdd_literal_node()->literal(), x->flag_index());
  if (x->node_type() == 3) { auto t = x->psdd_top_node(); return pm->GetPsddTopNode(t->variable_index(), x->flag_index(), t->true_parameter(), t->false_parameter()); }
  auto d = x->psdd_decision_node();
  std::vector<PsddNode *> P = d->primes(), S = d->subs(); std::vector<PsddParameter> A = d->parameters();
  for (size_t i = P.size(); i-- > 1;) { size_t k = r.below(i + 1); std::swap(P[i], P[k]); std::swap(S[i], S[k]); std::swap(A[i], A[k]); }
  return pm->GetConformedPsddDecisionNode(P, S, A, x->flag_index());
}
OP(gc) {
  Mgr *m = W.pick_mgr(r);
  std::vector<Handle *> keep, lose; int kp = r.chance(30) ? 100 : (int)r.below(101);
  for (auto &h : W.hs) if (h->mgr == m) { if (h->client != W.cur_client || r.chance(kp)) keep.push_back(h.get()); else lose.push_back(h.get()); }
  if (r.chance(15)) { lose.clear(); keep.clear(); for (auto &h : W.hs) if (h->mgr == m) { if (r.chance(kp)) keep.push_back(h.get()); else lose.push_back(h.get()); } }
  std::vector<PsddNode *> roots; for (auto h : keep) roots.push_back(h->root);
  if (!roots.empty() && r.chance(30)) roots.push_back(roots[r.below(roots.size())]);
  if (!keep.empty() && r.chance(30)) { Shape s; read_shape(m, keep[r.below(keep.size())]->root, &s); PsddNode *x = s.post[r.below(s.post.size())]; if (r.chance(50)) roots.push_back(x); else roots.insert(roots.begin(), x); }
  for (size_t i = roots.size(); i-- > 1;) std::swap(roots[i], roots[r.below(i + 1)]);
  W.activity("C07", "collection keeping %zu of %zu PSDDs", keep.size(), keep.size() + lose.size());
  if (!lose.empty() && !keep.empty()) sh->nontrivial++;
  bool skip = W.cf && W.prop == "C07";
  uint64_t again = r.next();
  if (!skip) { if (!W.call([&] { m->m->DeleteUnusedPsddNodes(roots); })) { for (auto h : lose) W.drop(h); return; } }   // an interrupted collection may already have removed what was given up
  else W.call([] {});
  if (lose.size() && !skip) stat_add("probe: collection with garbage");
  for (auto h : lose) W.drop(h);
  W.verify_all("C07", "damaged");
  if (W.on("C07")) {   // survivors keep their identity
    Rng q(again); auto pool = node_pool(W, m);
    W.activity("C07", "re-requesting surviving nodes after the collection");
    for (int i = 0; i < 6 && !pool.empty(); i++) {
      PsddNode *x = pool[q.below(pool.size())], *y; { Lib l; y = rerequest(m, x, q); }
      if (y != x) W.bad("C07", "identity", "after the collection, requesting the content of a surviving node gives another node", true);
    }
  }
}

// ---------------------------------------------------------------- identity (C06)
static uint64_t dbits(double d) { uint64_t b; memcpy(&b, &d, 8); return b; }
static std::string content_key(PsddNode *x) {
  std::string k = fmt("%d|%lx|%ju|", x->node_type(), (unsigned long)(uintptr_t)x->vtree_node(), x->flag_index());
  if (x->node_type() == 1) k += fmt("%d", x->psdd_literal_node()->literal());
  else if (x->node_type() == 3) { auto t = x->psdd_top_node(); k += fmt("%u %lx %lx", t->variable_index(), dbits(t->true_parameter().parameter()), dbits(t->false_parameter().parameter())); }
  else {
    auto d = x->psdd_decision_node(); std::vector<std::string> e;
    for (size_t i = 0; i < d->primes().size(); i++) e.push_back(fmt("%lx,%lx,%lx;", (unsigned long)(uintptr_t)d->primes()[i], (unsigned long)(uintptr_t)d->subs()[i], dbits(d->parameters()[i].parameter())));
    std::sort(e.begin(), e.end()); for (auto &s : e) k += s;
  }
  return k;
}
static bool same_param(const PsddParameter &a, const PsddParameter &b) { return a.parameter() == b.parameter() || std::fabs(a.parameter() - b.parameter()) < 2e-7; }
static std::string has_content(PsddNode *x, const std::vector<PsddNode *> &P, const std::vector<PsddNode *> &S, const std::vector<PsddParameter> &A, uintmax_t flag) {
  if (!x || x->node_type() != 2) return "not a decision node";
  auto d = x->psdd_decision_node();
  if (x->flag_index() != flag) return "another flag";
  if (d->primes().size() != P.size()) return fmt("%zu elements instead of %zu", d->primes().size(), P.size());
  for (size_t i = 0; i < P.size(); i++) {
    bool ok = false;
    for (size_t j = 0; j < P.size(); j++) if (d->primes()[j] == P[i] && d->subs()[j] == S[i] && same_param(d->parameters()[j], A[i])) ok = true;
    if (!ok) {
      for (size_t j = 0; j < P.size(); j++) if (d->primes()[j] == P[i] && d->subs()[j] == S[i]) return fmt("parameter %.12g instead of %.12g", d->parameters()[j].parameter(), A[i].parameter());
      return "another prime or sub";
    }
  }
  return "";
}
static void check_canonical(World &W, Mgr *m) {
  auto pool = node_pool(W, m, 3000);
  std::unordered_map<std::string, PsddNode *> by; std::unordered_map<uintmax_t, PsddNode *> idx;
  for (auto x : pool) {
    auto k = content_key(x); auto it = by.find(k);
    if (it != by.end() && it->second != x) W.bad("C06", "duplicate", "two live nodes have the same flag and content: " + k, true);
    by[k] = x;
    auto j = idx.find(x->node_index());
    if (j != idx.end() && j->second != x) W.bad("C06", "index", fmt("two live nodes have node index %ju", x->node_index()), true);
    idx[x->node_index()] = x;
  }
}
OP(ident) {
  Mgr *m = W.pick_mgr(r);
  W.activity("C06", "identity of live nodes");
  sh->nontrivial++;
  check_canonical(W, m);
  auto pool = node_pool(W, m);
  if (pool.empty()) return;
  int reps = 2 + (int)r.below(8);
  if (r.chance(4) && m->n() > 1) {   // elements whose node indices are far apart
    std::vector<Vtree *> in; for (auto v : m->vlist) if (!m->vinfo.at(v).var) in.push_back(v);
    Vtree *v = in[r.below(in.size())]; int ql = 0, qr = 0; uintmax_t f = pick_flag(r);
    for (auto &b : m->bit) { if (m->vinfo.at(m->vinfo.at(v).left).mask >> b.second & 1) ql = b.first; else if (m->vinfo.at(m->vinfo.at(v).right).mask >> b.second & 1) qr = b.first; }
    uintmax_t gap = r.chance(1) ? 65536 : 256 << r.below(3); double a = r.real() * 0.4 + 0.05; PsddNode *y = nullptr, *z = nullptr; std::vector<PsddNode *> P, S; std::vector<PsddParameter> A;
    auto top = [&](int q, double c) -> PsddNode * { return m->m->GetPsddTopNode((uint32_t)q, f, PsddParameter::CreateFromDecimal(c), PsddParameter::CreateFromDecimal(1 - c)); };
    if (!W.call([&] {
          S = {top(qr, 0.25), top(qr, 0.75)}; P = {top(ql, a)};
          for (uintmax_t i = 1; i < gap; i++) top(ql, (double)i / (4 * (double)gap) + 0.5);
          P.push_back(top(ql, a + 0.01)); A = {PsddParameter::CreateFromDecimal(0.3), PsddParameter::CreateFromDecimal(0.7)};
          y = m->m->GetConformedPsddDecisionNode(P, S, A, f);
          z = m->m->GetConformedPsddDecisionNode({P[1], P[0]}, {S[1], S[0]}, {A[1], A[0]}, f);
        })) return;
    if (y != z) W.bad("C06", "rerequest", "the same elements in another order give another node: " + content_key(y) + " / " + content_key(z), true);
    if (m->vinfo.at(m->vinfo.at(v).left).var && m->vinfo.at(m->vinfo.at(v).right).var) { std::string e = has_content(y, P, S, A, f); if (!e.empty()) W.bad("C06", "merged", "asked for a decision node, got one with " + e, true); }
  }
  for (int k = 0; k < reps; k++) {
    PsddNode *x = pool[r.below(pool.size())];
    int what = (int)r.below(7);
    W.activity("C06", "request of %s", what == 0 ? "the same content" : "slightly different content");
    PsddNode *y = nullptr;
    if (what <= 1) {
      if (!W.call([&] { y = rerequest(m, x, r); })) return;
      if (y != x) W.bad("C06", "rerequest", "requesting the content of a live node again gives another node: " + content_key(x) + " / " + content_key(y), true);
      continue;
    }
    if (x->node_type() == 3) {
      auto t = x->psdd_top_node(); double a = t->true_parameter().parameter(), b = t->false_parameter().parameter(); uintmax_t flag = x->flag_index();
      double delta = (r.chance(50) ? 1 : -1) * std::pow(10.0, -r.real() * 5.5);
      if (what == 2) a += delta; else if (what == 3) b += delta; else if (what == 4) std::swap(a, b); else if (what == 5) flag = pick_flag(r); else b = std::log(r.real() + 0.01);
      if (std::isnan(a) || std::isnan(b)) continue;
      if (!W.call([&] { y = m->m->GetPsddTopNode(t->variable_index(), flag, PsddParameter::CreateFromLog(a), PsddParameter::CreateFromLog(b)); })) return;
      auto u = y->psdd_top_node();
      if (!u || u->variable_index() != t->variable_index() || u->flag_index() != flag || !same_param(u->true_parameter(), PsddParameter::CreateFromLog(a)) || !same_param(u->false_parameter(), PsddParameter::CreateFromLog(b)))
        W.bad("C06", "merged", fmt("asked for a top node (true %.12g, false %.12g), got (true %.12g, false %.12g)", a, b, u ? u->true_parameter().parameter() : NAN, u ? u->false_parameter().parameter() : NAN), true);
      W.logd(u->false_parameter().parameter());
    } else if (x->node_type() == 1) {
      int32_t l = x->psdd_literal_node()->literal(); uintmax_t flag = x->flag_index(); if (what < 5) l = -l; else flag = pick_flag(r);
      if (!W.call([&] { y = m->m->GetPsddLiteralNode(l, flag); })) return;
      if (!y->psdd_literal_node() || y->psdd_literal_node()->literal() != l || y->flag_index() != flag) W.bad("C06", "merged", fmt("asked for literal %d with flag %ju, got another node", l, flag), true);
    } else {
      auto d = x->psdd_decision_node(); std::vector<PsddNode *> P = d->primes(), S = d->subs(); std::vector<PsddParameter> A = d->parameters(); uintmax_t flag = x->flag_index();
      if (what == 2 || what == 3) {   // move weight between two elements, by an amount above the resolution
        size_t i = r.below(P.size()), j = r.below(P.size());
        double delta = std::pow(10.0, -r.real() * 5.5);
        A[i] = PsddParameter::CreateFromLog(A[i].parameter() - delta); if (j != i && what == 3) A[j] = PsddParameter::CreateFromLog(A[j].parameter() + delta);
      } else if (what == 4 && P.size() > 1) { size_t i = r.below(P.size()), j = r.below(P.size()); std::swap(S[i], S[j]); }
      else if (what == 5) flag = pick_flag(r);
      else if (P.size() > 1) { size_t i = r.chance(60) ? P.size() - 1 : r.below(P.size()); P.erase(P.begin() + (long)i); S.erase(S.begin() + (long)i); A.erase(A.begin() + (long)i); }
      bool bad = false; for (auto &p : A) if (std::isnan(p.parameter())) bad = true;
      if (bad) continue;
      if (r.chance(50)) for (size_t i = P.size(); i-- > 1;) { size_t q = r.below(i + 1); std::swap(P[i], P[q]); std::swap(S[i], S[q]); std::swap(A[i], A[q]); }
      if (!W.call([&] { y = m->m->GetConformedPsddDecisionNode(P, S, A, flag); })) return;
      std::string e = has_content(y, P, S, A, flag);
      if (!e.empty()) W.bad("C06", "merged", "asked for a decision node, got one with " + e, true);
      PsddNode *z = nullptr;
      { Lib l; z = m->m->GetConformedPsddDecisionNode(P, S, A, flag); }
      if (z != y) W.bad("C06", "rerequest", "requesting the same decision node twice gives two nodes", true);
    }
    if (r.chance(30)) W.add(m, y, y->flag_index(), "ident");
  }
  check_canonical(W, m);
  W.verify_all("C06", "disturbed");
}

// ---------------------------------------------------------------- memory (C08)
OP(mem) {
  Mgr *m = W.pick_mgr(r);
  std::vector<Handle *> keep, lose; int kp = (int)r.below(101);
  for (auto &h : W.hs) if (h->mgr == m) { if (r.chance(kp)) keep.push_back(h.get()); else lose.push_back(h.get()); }
  std::set<PsddNode *> all, used; std::vector<PsddNode *> order, roots;
  for (auto &h : W.hs) if (h->mgr == m) { Shape s; read_shape(m, h->root, &s); for (auto x : s.post) if (all.insert(x).second) order.push_back(x); }
  for (auto h : keep) { roots.push_back(h->root); Shape s; read_shape(m, h->root, &s); for (auto x : s.post) used.insert(x); }
  W.activity("C08", "collection keeping %zu of %zu nodes", used.size(), all.size());
  if (used.size() < all.size()) sh->nontrivial++;
  std::vector<int> types; for (auto x : order) types.push_back(x->node_type());
  { Lib l; m->m->DeleteUnusedPsddNodes(roots); }
  size_t garbage = 0;
  for (size_t i = 0; i < order.size(); i++) if (!used.count(order[i])) { garbage++; if (!block_freed(order[i])) W.bad("C08", "kept", fmt("an unused node of type %d was not released by the collection", types[i]), true); }
  if (garbage) stat_add("probe: unreachable nodes at a collection", garbage);
  for (auto h : lose) W.drop(h);
  W.verify_all("C07", "damaged");
}
// the same workload again and again, with a collection after each round: memory must not grow
OP(cycle) {
  Mgr *m = W.pick_mgr(r); uint64_t ws = r.next(); bool empty = r.chance(40);
  if (empty) { std::vector<Handle *> v; for (auto &h : W.hs) if (h->mgr == m) v.push_back(h.get()); for (auto h : v) W.drop(h); }
  std::vector<PsddNode *> held; for (auto &h : W.hs) if (h->mgr == m) held.push_back(h->root);
  Handle *base = W.pick(r, m, tame);
  int64_t blocks[6], bytes[6], cbl[6]; std::string path = new_path(W, "psdd");
  W.activity("C08", "repeated workload with %zu held roots", held.size());
  sh->nontrivial++;
  for (int k = 0; k < 5; k++) {
    Rng q(ws); int nops = 1 + (int)q.below(5);
    PsddNode *last = base ? base->root : nullptr;
    for (int i = 0; i < nops; i++) {
      uint64_t s = q.next(); int what = (int)q.below(20);
      Rng z(s);
      Lib l;
      if (what <= 1 || !last) last = build_direct(m, base ? base->at : m->m->vtree(), z, pick_flag(z), {}, 0, nullptr);
      else if (what == 2 && base && tame(base)) { PsddNode *o = build_direct(m, base->at, z, 0, {}, 0, nullptr); auto res = m->m->Multiply(base->root, o, 3); if (res.first) last = res.first; }
      else if (what == 3) { RecGen g(s, 0, -1); last = m->m->SampleParameters(&g, last, 1); NoLib nl; g.draws = std::vector<double>(); }
      else if (what == 4 && base && tame(base)) { psdd_node_util::GetMPESolution(last); psdd_node_util::GetMarginals(psdd_node_util::SerializePsddNodes(last)); psdd_node_util::ModelCount(psdd_node_util::SerializePsddNodes(last)); }
      else if (what == 5) { std::unordered_map<int32_t, BatchedPsddValue> ex; for (int v : m->vars) ex[v] = BatchedPsddValue(7, (v & 1) != 0); last = m->m->LearnPsddParameters(last, ex, 7, PsddParameter::CreateFromDecimal(1), 2); }
      else if (what == 6) m->m->GetTrueNode(m->m->vtree(), 5);
      else if (what <= 12) {                 // conversions
        NoLib nl;
        Vtree *at = random_vnode(m, z, 60); std::vector<int> vars; const VSpec *sp = spec_at(m, at); vspec_leaves(sp, &vars); std::sort(vars.begin(), vars.end());
        std::vector<int> over; for (size_t i = 0; i < vars.size(); i++) over.push_back((int)i);
        SddSide side(sp, vars, z); Formula f = random_formula(z, (int)vars.size(), over); if (z.chance(15)) f.clauses.resize(std::min<size_t>(f.clauses.size(), z.below(2)));
        SddNode *sn = formula_sdd(f, side.sm, side.var_of); if (z.chance(15)) { SddLiteral v = side.var_of[z.below(vars.size())]; sn = sdd_manager_literal(z.chance(50) ? v : -v, side.sm); }
        std::unordered_set<SddLiteral> used(vars.begin(), vars.end()); int how = at == m->m->vtree() ? (int)z.below(3) : 1 + (int)z.below(2);
        PsddNode *x = nullptr;
        { Lib l2; if (how == 0) x = m->m->ConvertSddToPsdd(sn, sdd_manager_vtree(side.sm), 0); else if (how == 1) x = m->m->FromSdd(sn, sdd_manager_vtree(side.sm), 0, at); else x = m->m->FromSdd(sn, sdd_manager_vtree(side.sm), 0, used);
          if (x) { auto ser = psdd_node_util::SerializePsddNodes(x); psdd_node_util::ConvertPsddNodeToSddNode(ser, side.to_sdd, side.sm); } }
      }
      else if (what == 13) { std::vector<std::vector<SddLiteral>> cl; for (int c = (int)z.below(4); c-- > 0;) { std::vector<SddLiteral> k2; for (int j = 1 + (int)z.below(3); j-- > 0;) { int v = m->vars[z.below(m->vars.size())]; k2.push_back(z.chance(50) ? v : -v); } cl.push_back(k2); } CNF cnf(cl); PsddNode *x = cnf.Compile(m->m, 1); if (x) last = x; }
      else if (what == 14) { Vtree *c = vtree_util::CopyVtree(m->m->vtree()); std::vector<SddLiteral> some; for (int v : m->vars) if (some.empty() || z.chance(50)) some.push_back(v); Vtree *p = vtree_util::ProjectVtree(c, some); vtree_util::SubVtreeByVariables(c, {some.begin(), some.end()}); vtree_util::LeftToRightLeafTraverse(p); sdd_vtree_free(p); sdd_vtree_free(c); }
      else if (what == 15) { psdd_node_util::WritePsddToFile(last, path.c_str()); last = m->m->ReadPsddFile(path.c_str(), 1); }
      else if (what == 16) { Bits mask, inst; for (int v : m->vars) { if (z.chance(50)) mask.set((size_t)v); if (z.chance(50)) inst.set((size_t)v); } psdd_node_util::Evaluate(mask, inst, last); psdd_node_util::IsConsistent(last, mask, inst); psdd_node_util::GetPsddSize(last); }
      else if (what == 17) { last = m->m->NormalizePsddNode(m->m->vtree(), last, 1); }
      else if (what == 18) { PsddManager *o = PsddManager::GetPsddManagerFromVtree(m->m->vtree()); PsddNode *x = o->LoadPsddNode(o->vtree(), last, 0); last = m->m->LoadPsddNode(m->m->vtree(), x, 2); delete o; }
      else { std::unordered_map<uint32_t, uint32_t> id; for (int v : m->vars) id[(uint32_t)v] = (uint32_t)v; PsddManager *o = PsddManager::GetPsddManagerFromSddVtree(m->m->vtree(), id); o->GetTrueNode(o->vtree(), 0); delete o; }
    }
    { Lib l; m->m->DeleteUnusedPsddNodes(held); }
    blocks[k] = g_lib_blocks; bytes[k] = g_lib_bytes; cbl[k] = c_blocks();
  }
  if (blocks[4] > blocks[1] + 2) W.bad("C08", "growth", fmt("live library blocks after rounds of the same workload and a collection: %ld %ld %ld %ld %ld", (long)blocks[0], (long)blocks[1], (long)blocks[2], (long)blocks[3], (long)blocks[4]), true);
  if (bytes[4] > bytes[1] + 256) W.bad("C08", "growth", fmt("live library bytes after rounds of the same workload and a collection: %ld %ld %ld %ld %ld", (long)bytes[0], (long)bytes[1], (long)bytes[2], (long)bytes[3], (long)bytes[4]), true);
  if (cbl[4] > cbl[1] + 2) W.bad("C08", "growth", fmt("live blocks of the C allocator (vtrees, lists of SDD nodes) after rounds of the same workload and a collection: %ld %ld %ld %ld %ld", (long)cbl[0], (long)cbl[1], (long)cbl[2], (long)cbl[3], (long)cbl[4]), true);
  W.log((uint64_t)(blocks[4] - blocks[1]));
  W.verify_all("C07", "damaged");
}
OP(mgrcycle) {
  W.activity("C08", "creating, using and destroying a manager");
  sh->nontrivial++;
  int64_t b0 = g_lib_blocks, b1 = 0, c1 = 0; uint64_t ws = r.next();
  for (int k = 0; k < 3; k++) {
    Rng q(ws);
    auto sp = vspec_clone(W.mgrs[0]->spec.get()); Vtree *v = vspec_build(sp.get()); PsddManager *pm; { Lib l; pm = PsddManager::GetPsddManagerFromVtree(v); } sdd_vtree_free(v);
    Mgr *m = W.adopt_mgr(pm, VSpecP(sp.release()), 2000);
    { Lib l; PsddNode *x = build_direct(m, pm->vtree(), q, 0, {}, 0, nullptr), *y = build_direct(m, pm->vtree(), q, 1, {}, 0, nullptr);
      auto res = pm->Multiply(x, y, 2);
      if (q.chance(60)) pm->DeleteUnusedPsddNodes(res.first ? std::vector<PsddNode *>{res.first} : std::vector<PsddNode *>{});
      if (q.chance(60)) pm->GetTrueNode(pm->vtree(), 9); }
    W.del_mgr(m);
    if (k == 0) b1 = g_lib_blocks, c1 = c_blocks();
  }
  if (g_lib_blocks > b1) W.bad("C08", "manager", fmt("creating and destroying a manager twice more leaves %ld blocks behind (%ld after the first)", (long)(g_lib_blocks - b1), (long)(b1 - b0)), true);
  if (c_blocks() > c1 + 1) W.bad("C08", "manager", fmt("creating and destroying a manager twice more leaves %ld blocks of the C allocator (vtrees) behind", (long)(c_blocks() - c1)), true);
  if (b1 > b0 + 8) W.bad("C08", "manager", fmt("creating and destroying a manager leaves %ld blocks behind", (long)(b1 - b0)), true);
}

// ---------------------------------------------------------------- vtree operations (C25)
static std::vector<Vtree *> vnodes(Vtree *v) { std::vector<Vtree *> q{v}; for (size_t i = 0; i < q.size(); i++) if (!sdd_vtree_is_leaf(q[i])) { q.push_back(sdd_vtree_left(q[i])); q.push_back(sdd_vtree_right(q[i])); } return q; }
std::string same_tree(Vtree *v, const VSpec *want, Vtree *parent) {
  if (!v) return "no tree";
  auto got = vspec_of(v);
  if (!vspec_same(got.get(), want)) return "got " + vspec_text(got.get()) + ", expected " + vspec_text(want);
  if (sdd_vtree_parent(v) != parent) return "the root has a parent";
  Vtree *ref = vspec_build(want);
  auto a = vnodes(v), b = vnodes(ref); std::string e;
  for (size_t i = 0; i < a.size(); i++) {
    if (sdd_vtree_data(a[i])) e = "user data of the operation is left behind on its nodes";
    if (sdd_vtree_position(a[i]) != sdd_vtree_position(b[i])) e = "positions are wrong";
    if (sdd_vtree_var_count(a[i]) != sdd_vtree_var_count(b[i])) e = "variable counts are wrong";
    if (!sdd_vtree_is_leaf(a[i]) && (sdd_vtree_parent(sdd_vtree_left(a[i])) != a[i] || sdd_vtree_parent(sdd_vtree_right(a[i])) != a[i])) e = "parent links are wrong";
  }
  sdd_vtree_free(ref);
  return e;
}
OP(v_ops) {
  // the source: a tree of its own, the tree of a manager, or the tree of an SDD manager
  int kind = (int)r.below(3); Mgr *m = W.pick_mgr(r); if (kind == 1 && !m) kind = 0;
  VSpecP spec; Vtree *src = nullptr; SddManager *sm = nullptr;
  if (kind == 1) { spec = m->spec; src = m->m->vtree(); }
  else {
    int n = 1 + (int)r.below(r.chance(20) ? 40 : 9); if (g_tid < 0 && r.chance(4) && !W.heavy++) { n = (int)r.range(100, r.chance(30) ? 1400 : 400); stat_add("probe: vtree of hundreds of leaves"); } std::vector<int> L; std::set<int> used;
    for (int i = 0; i < n; i++) { int x; if (kind == 2) x = i + 1; else do x = 1 + (int)r.below(n < 50 && r.chance(50) ? 60 : 65535); while (used.count(x)); used.insert(x); L.push_back(x); }
    for (int i = n - 1; i > 0; i--) std::swap(L[i], L[r.below(i + 1)]);
    spec = VSpecP(vspec_random(L, (int)r.below(4), r).release());
    src = vspec_build(spec.get());
    if (kind == 2) { sm = sdd_manager_new(src); sdd_vtree_free(src); src = sdd_manager_vtree(sm); }
  }
  std::vector<int> leaves; vspec_leaves(spec.get(), &leaves);
  std::vector<Vtree *> mine;
  int reps = 2 + (int)r.below(9);
  sh->nontrivial++;
  for (int k = 0; k < reps; k++) {
    // work on the whole tree or one of its sub-trees
    Vtree *at = src; const VSpec *sp = spec.get();
    while (r.chance(30) && !sp->leaf()) { if (r.chance(50)) { at = sdd_vtree_left(at); sp = sp->l.get(); } else { at = sdd_vtree_right(at); sp = sp->r.get(); } }
    std::vector<int> lv; vspec_leaves(sp, &lv);
    int what = (int)r.below(8); std::string e; Vtree *out = nullptr;
    static const char *names[] = {"CopyVtree", "CopyVtree with renaming", "ProjectVtree", "VariablesUnderVtree", "SubVtreeByVariables", "LeftToRightLeafTraverse", "SerializeVtree", "manager creation"};
    W.activity("C25", "%s of %s", names[what], vspec_text(sp).substr(0, 80).c_str());
    if (what == 0) { { Lib l; out = vtree_util::CopyVtree(at); } e = same_tree(out, sp, nullptr); }
    else if (what == 1 || (what == 7 && r.chance(50))) {
      bool wide = r.chance(40); std::unordered_map<SddLiteral, SddLiteral> mp; std::unordered_map<uint32_t, uint32_t> mp2; std::map<int, int> mm; std::set<int> used; for (int v : lv) { int x; do x = 1 + (int)r.below(wide ? 65535 : lv.size() < 50 ? 70 : 2 * lv.size()); while (used.count(x)); used.insert(x); mp[v] = x; mp2[(uint32_t)v] = (uint32_t)x; mm[v] = x; }
      if (r.chance(40)) for (int i = 0; i < 3; i++) { int v = 66000 + (int)r.below(50); mp[v] = 1; mp2[(uint32_t)v] = 1; }   // entries for other variables
      auto want = vspec_map(sp, mm);
      if (what == 1) { { Lib l; out = vtree_util::CopyVtree(at, mp); } e = same_tree(out, want.get(), nullptr); }
      else { PsddManager *pm; { Lib l; pm = PsddManager::GetPsddManagerFromSddVtree(at, mp2); } e = same_tree(pm->vtree(), want.get(), nullptr);
        if (e.empty()) { Lib l; PsddNode *x = pm->GetTrueNode(pm->vtree(), 1); if (x->vtree_node() != pm->vtree()) e = "the manager is not usable"; }
        Lib l; delete pm; }
    } else if (what == 7) {
      PsddManager *pm; { Lib l; pm = PsddManager::GetPsddManagerFromVtree(at); } e = same_tree(pm->vtree(), sp, nullptr);
      if (e.empty()) { Lib l; PsddNode *x = pm->GetTrueNode(pm->vtree(), 1); if (x->vtree_node() != pm->vtree()) e = "the manager is not usable"; }
      Lib l; delete pm;
    } else if (what == 2) {
      std::set<int> keep; for (int v : lv) if (r.chance(50)) keep.insert(v); if (keep.empty()) keep.insert(lv[r.below(lv.size())]);
      std::vector<SddLiteral> arg(keep.begin(), keep.end()); if (r.chance(30)) arg.push_back(66000 + (SddLiteral)r.below(9)); if (r.chance(30)) arg.push_back(arg[0]);
      for (size_t i = arg.size(); i-- > 1;) std::swap(arg[i], arg[r.below(i + 1)]);
      auto want = vspec_project(sp, keep);
      { Lib l; out = vtree_util::ProjectVtree(at, arg); } e = same_tree(out, want.get(), nullptr);
    } else if (what == 3) {
      std::vector<SddLiteral> g; { Lib l; g = vtree_util::VariablesUnderVtree(at); }
      std::vector<SddLiteral> a = g, b(lv.begin(), lv.end()); std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); if (a != b) e = fmt("%zu variables listed, %zu exist, or others", a.size(), b.size());
    } else if (what == 4) {
      std::unordered_set<SddLiteral> arg; Vtree *want = nullptr;
      auto all = vnodes(at);
      int mode = (int)r.below(4);
      if (mode <= 1) { Vtree *t = all[r.below(all.size())]; auto ts = vspec_of(t); std::vector<int> tl; vspec_leaves(ts.get(), &tl); arg.insert(tl.begin(), tl.end()); if (mode == 1) { if (r.chance(50)) arg.insert(lv[r.below(lv.size())]); else arg.erase(tl[r.below(tl.size())]); } }
      else { for (int v : lv) if (r.chance(50)) arg.insert(v); if (mode == 3) arg.insert(66000 + (SddLiteral)r.below(9)); }
      for (auto t : all) if ((size_t)sdd_vtree_var_count(t) == arg.size()) { auto ts = vspec_of(t); std::vector<int> tl; vspec_leaves(ts.get(), &tl); { bool eq = true; for (int v : tl) if (!arg.count(v)) eq = false; if (eq) want = t; } }
      Vtree *g; { Lib l; g = vtree_util::SubVtreeByVariables(at, arg); }
      if (g != want) e = want ? (g ? "another sub-tree was found" : "an existing sub-tree was not found") : "a sub-tree was found although none has exactly these variables";
    } else if (what == 5) {
      std::vector<SddLiteral> g; { Lib l; g = vtree_util::LeftToRightLeafTraverse(at); }
      if (g != std::vector<SddLiteral>(lv.begin(), lv.end())) e = "the leaves are not listed from left to right";
    } else {
      std::vector<Vtree *> g; { Lib l; g = vtree_util::SerializeVtree(at); }
      auto all = vnodes(at); std::set<Vtree *> a(g.begin(), g.end()), b(all.begin(), all.end());
      if (a != b || a.size() != g.size()) e = "not every vtree node is listed once";
      std::map<Vtree *, size_t> ps; for (size_t i = 0; i < g.size(); i++) ps[g[i]] = i;
      for (auto t : all) if (e.empty() && !sdd_vtree_is_leaf(t) && (ps[sdd_vtree_left(t)] < ps[t] || ps[sdd_vtree_right(t)] < ps[t])) e = "a child is listed before its parent";
    }
    if (!e.empty()) W.bad("C25", names[what], fmt("%s of %s: %s", names[what], vspec_text(sp).c_str(), e.c_str()), true);
    if (W.on("C25")) {
      e = same_tree(src, spec.get(), nullptr);
      if (!e.empty()) W.bad("C25", "source", fmt("%s changed its source: %s", names[what], e.c_str()), true);
    }
    W.log((uint64_t)what);
    if (out) mine.push_back(out);
    if (!mine.empty() && r.chance(40)) { size_t i = r.below(mine.size()); sdd_vtree_free(mine[i]); mine.erase(mine.begin() + (long)i); }
  }
  for (auto t : mine) sdd_vtree_free(t);
  W.activity("C25", "use of the source after the operations");
  std::string e = same_tree(src, spec.get(), nullptr);
  if (!e.empty()) W.bad("C25", "source", "the source tree changed: " + e, true);
  if (sm) { SddNode *a = sdd_manager_literal(1, sm); for (size_t i = 1; i < leaves.size() && i < 60; i++) a = sdd_conjoin(a, sdd_manager_literal((SddLiteral)(i % 2 ? -(long)(i + 1) : (long)(i + 1)), sm), sm); if (sdd_node_is_false(a)) W.bad("C25", "source", "the SDD manager of the source tree is damaged", true); sdd_manager_free(sm); }
  else if (kind == 0) sdd_vtree_free(src);
}
}  // namespace sim
