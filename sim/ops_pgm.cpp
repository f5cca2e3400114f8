// Networks and command-line tools: compilation of networks (C21), generated vtrees (C22), the inference tool (C23) and
// the compiler tool (C24). External heuristics answer through the seeded stubs in heur.cpp.
#include "lib.h"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <psdd/hypergraph_decomposition_vtree.h>
#include <psdd/jointree_vtree.h>
#include <psdd/minfill_vtree.h>
#include <psdd/pgm_compiler.h>
#include <psdd/uai_network.h>
#include <unistd.h>
extern "C" {
#include <sdd/sddapi.h>
}
extern "C" int psdd_inference_tool_main(int argc, const char *argv[]);
extern "C" int uai_compiler_tool_main(int argc, const char *argv[]);

namespace sim {
void heur_seed(uint64_t s);

// ---------------------------------------------------------------- networks with a positive partition
static Table net_table(const RawNet &n) {
  Table t((size_t)1 << n.vars, 1);
  for (size_t f = 0; f < n.scopes.size(); f++) {
    std::vector<real> e; for (auto &s : n.entries[f]) e.push_back(strtold(s.c_str(), nullptr));
    for (size_t a = 0; a < t.size(); a++) { size_t k = 0; for (size_t v : n.scopes[f]) k = 2 * k + ((a >> v) & 1); t[a] *= e[k]; }
  }
  return t;
}
static Table factor_table(const RawNet &n, size_t f) { RawNet one = n; one.scopes = {n.scopes[f]}; one.entries = {n.entries[f]}; return net_table(one); }
static std::string entry(Rng &r, int zero, bool tiny) {
  if (r.chance(zero)) return "0";
  if (zero >= 0 && tiny && r.chance(30)) return fmt("%.6e", std::pow(10, -25 * r.real()));
  switch (r.below(6)) { case 0: return "1"; case 1: return fmt("%.3g", 0.001 + r.real() * 100); case 2: return fmt("%e", std::pow(10, 6 - 12 * r.real())); case 3: return fmt("0.%04d", 1 + (int)r.below(9999)); default: return fmt("%.6f", 0.01 + 0.98 * r.real()); }
}
static RawNet make_net(Rng &r, int vmax, int fmax, int many = 0, int freepct = 0, int nullpct = 0, int widest = 0) {
  bool null_ok = r.chance(nullpct);       // the product of the factors may be zero everywhere
  RawNet n; n.vars = 1 + (int)r.below((uint64_t)vmax); n.bayes = r.chance(40);
  int F = 1 + (int)r.below((uint64_t)fmax); if (g_tid < 0 && many && r.chance(many)) { F = 40 + (int)r.below(r.chance(50) ? 60 : 180); n.vars = std::min(n.vars, 5); stat_add("probe: network of dozens of factors"); }
  int zero = r.chance(50) ? 0 : r.chance(60) ? 12 : 35; if (F >= 40 && zero) zero = 1;
  int smax = widest ? widest : r.chance(20) ? 5 : 3; bool tiny = r.chance(12); if (tiny) stat_add("probe: factor entries down to 1e-25");
  int shape = (int)r.below(4);          // random, chain, disconnected halves, star
  auto shuffle = [&](std::vector<size_t> &v) { for (size_t j = v.size(); j-- > 1;) std::swap(v[j], v[r.below(j + 1)]); };
  std::vector<char> seen((size_t)n.vars, 0);
  for (int i = 0; i < F; i++) {
    std::vector<size_t> v;
    if (shape == 1) { size_t a = r.below((uint64_t)n.vars); for (size_t k = a; k < (size_t)n.vars && k < a + 2; k++) v.push_back(k); }
    else if (shape == 2) { bool hi = r.chance(50); for (int k = 0; k < n.vars; k++) if ((k >= n.vars / 2) == hi) v.push_back((size_t)k); if (v.empty()) v.push_back(0); }
    else for (int k = 0; k < n.vars; k++) v.push_back((size_t)k);
    shuffle(v);
    v.resize(std::min<size_t>(v.size(), 1 + r.below((uint64_t)smax)));
    if (shape == 3 && n.vars > 1 && std::find(v.begin(), v.end(), (size_t)0) == v.end() && r.chance(80)) v[r.below(v.size())] = 0;
    n.scopes.push_back(v); for (size_t x : v) seen[x] = 1;
    if (r.chance(12)) { auto w = v; shuffle(w); n.scopes.push_back(w); }     // two factors over the same variables
  }
  bool leave = n.vars > 1 && r.chance(freepct);
  for (int k = 0; k < n.vars; k++) if (!seen[(size_t)k]) { if (leave && r.chance(80)) { n.free = true; continue; } if (r.chance(50)) n.scopes.push_back({(size_t)k}); else { auto &v = n.scopes[r.below(n.scopes.size())]; if (v.size() < 5) v.push_back((size_t)k); else n.scopes.push_back({(size_t)k}); } }
  if (r.chance(6)) { n.scopes.push_back({}); stat_add("probe: network with a factor without variables"); }
  if (r.chance(2)) { n.scopes.assign(r.below(6), {}); n.free = true; stat_add("probe: network of constants"); }      // no factor has a variable
  if (r.chance(50)) for (size_t j = n.scopes.size(); j-- > 1;) std::swap(n.scopes[j], n.scopes[r.below(j + 1)]);
  for (int tries = 0;; tries++) {
    n.entries.clear();
    for (auto &v : n.scopes) { std::vector<std::string> e; for (size_t k = 0; k < ((size_t)1 << v.size()); k++) e.push_back(entry(r, tries > 3 ? 0 : null_ok ? 60 : zero, tiny)); n.entries.push_back(e); }
    if (n.vars > 12) break;
    real z = 0; for (real x : net_table(n)) z += x;
    if (z > 0 || (null_ok && tries < 3)) break;
  }
  if (g_tid < 0) for (auto &v : n.scopes) { uint64_t h = 7; for (size_t x : v) h = mix64(h * 31 + x); sh->shape = mix64(sh->shape ^ h); }
  return n;
}
// each factor's variables form a chain of the vtree: every one is outside the smallest sub-vtree of the later ones
static bool chain_ok(const VSpec *root, const std::vector<size_t> &scope1, std::string *why) {
  if (scope1.empty()) return true;
  std::map<int, std::vector<const VSpec *>> path; std::vector<int> order;
  std::vector<const VSpec *> cur;
  std::function<void(const VSpec *)> go = [&](const VSpec *s) { cur.push_back(s); if (s->leaf()) { path[s->var] = cur; order.push_back(s->var); } else { go(s->l.get()); go(s->r.get()); } cur.pop_back(); };
  go(root);
  std::vector<int> v; for (int x : order) for (size_t y : scope1) if ((size_t)x == y) v.push_back(x);
  if (v.size() != scope1.size()) { *why = "a variable of a factor is not in the vtree"; return false; }
  size_t depth = 0;       // depth of the smallest sub-vtree of v[i+1..]
  for (size_t i = v.size(); i-- > 0;) {
    auto &p = path[v[i]];
    if (i + 1 < v.size()) {
      auto &q = path[v.back()]; size_t c = 0; while (c < p.size() && c < q.size() && p[c] == q[c]) c++;
      if (c >= depth && depth) { *why = fmt("variable %d lies inside the smallest sub-vtree of the variables after it", v[i]); return false; }
      depth = c;
    } else depth = p.size();
  }
  return true;
}
static bool chains_ok(const VSpec *root, const std::vector<std::vector<size_t>> &scopes1, std::string *why) {
  for (size_t f = 0; f < scopes1.size(); f++) if (!chain_ok(root, scopes1[f], why)) { *why = fmt("factor %zu: ", f) + *why; return false; }
  return true;
}
static std::vector<std::vector<size_t>> scopes1(const RawNet &n) { auto s = n.scopes; for (auto &v : s) for (auto &x : v) x++; return s; }
// a vtree of the harness' own on which every factor is a chain
static std::unique_ptr<VSpec> own_vtree(Rng &r, const RawNet &n) {
  auto sc = scopes1(n);
  std::string why; std::vector<int> all; for (int i = 1; i <= n.vars; i++) all.push_back(i);
  for (int k = 0; k < 4; k++) { auto s = vspec_random(all, (int)r.below(4), r); if (chains_ok(s.get(), sc, &why)) return s; }
  std::function<std::unique_ptr<VSpec>(std::vector<int>)> go = [&](std::vector<int> vs) -> std::unique_ptr<VSpec> {
    auto leaf = [](int v) { auto s = std::make_unique<VSpec>(); s->var = v; return s; };
    if (vs.size() == 1) return leaf(vs[0]);
    std::set<int> in(vs.begin(), vs.end()), comp{vs[r.below(vs.size())]};
    for (bool ch = true; ch;) { ch = false; for (auto &f : sc) { bool touch = false; for (size_t x : f) touch |= comp.count((int)x) > 0; if (touch) for (size_t x : f) if (in.count((int)x) && comp.insert((int)x).second) ch = true; } }
    auto s = std::make_unique<VSpec>(); s->var = 0;
    if (comp.size() < in.size() && r.chance(75)) {
      std::vector<int> a, b; for (int v : vs) (comp.count(v) ? a : b).push_back(v);
      if (r.chance(50)) std::swap(a, b);
      s->l = go(a); s->r = go(b); return s;
    }
    int v = vs[r.below(vs.size())]; vs.erase(std::find(vs.begin(), vs.end(), v));
    s->l = leaf(v); s->r = go(vs); return s;
  };
  return go(all);
}
static std::string write_net(World &W, Rng &r, const RawNet &n, size_t *last) {
  std::string p = new_path(W, "net"); std::string s = raw_text(r, n, last); fs_write(p.c_str(), s); hash_mix(s.size()); return p;
}

// ---------------------------------------------------------------- C21
OP(net) {
  RawNet n = make_net(r, 7, r.chance(20) ? 10 : r.chance(20) ? 2 : 5, 3, 25, 12); if (n.free) stat_add("probe: network with variables outside every factor");
  size_t last; std::string path = write_net(W, r, n, &last);
  std::string why;
  W.activity("C21", "network of %d variables and %zu factors", n.vars, n.scopes.size());
  if (n.scopes.size() > 2) sh->nontrivial++;
  auto *pc = new PgmCompiler(g_tid < 0 || r.chance(50) ? "/simfs" : fmt("/simfs/t%d", g_tid));
  int method = (int)r.below(5);
  heur_seed(r.next());
  bool io = r.chance(50); if (io) fs_set_plan(benign_plan(r));
  { Lib l; pc->read_uai_file(path.c_str()); }
  if (method < 3) { static const char modes[] = {VTREE_METHOD_MINFILL, VTREE_METHOD_JOINTREE, VTREE_METHOD_HYPER_FIXED_BF}; Lib l; pc->init_psdd_manager(modes[method]); }
  else {
    auto sp = own_vtree(r, n); Vtree *v = vspec_build(sp.get()); std::string vp = new_path(W, "nvtree");
    sdd_vtree_save(vp.c_str(), v); sdd_vtree_free(v);
    Lib l; pc->init_psdd_manager_from_vtree(vp.c_str());
  }
  fs_clear_plan(); if (io) note_io("none");
  VSpecP spec(vspec_of(pc->psdd_manager()->vtree()).release());
  std::vector<int> lv; vspec_leaves(spec.get(), &lv); std::sort(lv.begin(), lv.end());
  bool leaves = (int)lv.size() == n.vars; for (int i = 0; leaves && i < n.vars; i++) leaves = lv[(size_t)i] == i + 1;
  if (!leaves || !chains_ok(spec.get(), scopes1(n), &why)) { W.bad("C22", "vtree", "network compiled on an unsuitable vtree", true); return; }
  Mgr *m = W.adopt_mgr(pc->psdd_manager(), spec, 2000 + W.next_mgr);
  Table want = net_table(n);
  auto check = [&](std::pair<PsddNode *, PsddParameter> res, const Table &wt, const char *what, double tol, bool whole) {
    real wz = 0; for (real x : wt) wz += x;
    if (wz == 0) {
      stat_add("probe: network without a positive assignment");
      if (res.first || lin(res.second) != 0) W.bad("C21", "zero", fmt("%s: %s and partition %Lg although no assignment has a positive weight", what, res.first ? "a PSDD" : "no PSDD", lin(res.second)), true);
      return;
    }
    if (!res.first) W.bad("C21", "none", fmt("%s gave no PSDD", what), true);
    if (!self_equal(res.second)) W.bad("C21", "partition", fmt("%s: the partition compares as another number than it is", what), true);
    Shape s; std::string e = read_shape(m, res.first, &s);
    if (!e.empty()) W.bad("C21", "malformed", fmt("%s: ", what) + e, true);
    if (whole && !s.norm) W.bad("C21", "normalised", fmt("%s: the PSDD is not normalised", what), true);
    if (res.first->vtree_node() != m->m->vtree()) W.bad("C21", "place", fmt("%s: the PSDD is not at the root of the vtree", what), true);
    std::string ex; if (!primes_exclusive(m, s, &ex)) W.bad("C21", "exclusive", fmt("%s: ", what) + ex, true);
    Table t = table_of(m, s); real z = lin(res.second); for (auto &x : t) x *= z;
    std::string d = diff_tables(t, wt, tol);
    if (!d.empty()) W.bad("C21", "value", fmt("%s of %d variables and %zu factors: PSDD times partition ", what, n.vars, n.scopes.size()) + d, true);
  };
  if (r.chance(50)) for (size_t f = 0; f < n.scopes.size(); f++) {
    Table ft = factor_table(n, f);
    W.activity("C21", "compile factor %zu", f);
    std::pair<PsddNode *, PsddParameter> res{nullptr, PsddParameter()};
    { Lib l; res = pc->compile_factor(f); }
    check(res, ft, "compiled factor", 1e-6, false);
  }
  int k = 1 + (int)r.below(4); PsddNode *keep = nullptr;
  for (int i = 0; i < k; i++) {
    size_t gc = r.chance(15) ? 100 : 1 + r.below(4); int st = (int)r.below(3);
    static const char *names[] = {"compile_network", "compile_network_with_vtree", "compile_network_dc"};
    W.activity("C21", "%s, collection frequency %zu", names[st], gc);
    std::pair<PsddNode *, PsddParameter> res{nullptr, PsddParameter()};
    { Lib l; res = st == 0 ? pc->compile_network(gc) : st == 1 ? pc->compile_network_with_vtree(gc) : pc->compile_network_dc(gc); }
    stat_add(fmt("probe: %s, vtree method %d", names[st], std::min(method, 3)).c_str());
    if (gc <= n.scopes.size() && st) stat_add("probe: collections during network compilation");
    W.logd(res.second.parameter());
    check(res, want, fmt("%s (collection frequency %zu)", names[st], gc).c_str(), 5e-5 * (1 + (double)n.scopes.size() / 10), true);
    keep = res.first;
    if (keep && r.chance(15)) { W.activity("C21", "collection between compilations"); Lib l; m->m->DeleteUnusedPsddNodes({keep}); }
  }
  W.verify_all("C21", "disturbed");
  if (W.mgrs.size() > 4) W.del_mgr(m); else W.add(m, keep, 0, "net");
}

// the same network compiled again and again by one compiler, with a collection after each round: memory must not grow
OP(netcycle) {
  RawNet n = make_net(r, 6, 5, 3, 25, 30); size_t last; std::string path = write_net(W, r, n, &last), vp = new_path(W, "nvtree");
  auto sp = own_vtree(r, n); Vtree *v = vspec_build(sp.get()); sdd_vtree_save(vp.c_str(), v); sdd_vtree_free(v);
  W.activity("C08", "repeated compilation of a network of %d variables and %zu factors", n.vars, n.scopes.size()); sh->nontrivial++;
  auto *pc = new PgmCompiler("/simfs"); { Lib l; pc->read_uai_file(path.c_str()); pc->init_psdd_manager_from_vtree(vp.c_str()); }
  PsddManager *m = pc->psdd_manager(); uint64_t ws = r.next(); int64_t blocks[5], bytes[5], cbl[5];
  for (int k = 0; k < 5; k++) {
    Rng q(ws); std::pair<PsddNode *, PsddParameter> res{nullptr, PsddParameter()};
    for (int i = 1 + (int)q.below(3); i-- > 0;) {
      size_t f = n.scopes.empty() ? 0 : q.below(n.scopes.size()), gc = q.chance(30) ? 100 : 1 + q.below(4); int st = n.scopes.empty() ? 2 + (int)q.below(3) : (int)q.below(5);
      Lib l; res = st < 2 ? pc->compile_factor(f) : st == 2 ? pc->compile_network(gc) : st == 3 ? pc->compile_network_with_vtree(gc) : pc->compile_network_dc(gc);
      if (!res.first) { NoLib nl; stat_add("probe: repeated compilation without a positive assignment"); }
    }
    { Lib l; m->DeleteUnusedPsddNodes({}); }
    blocks[k] = g_lib_blocks; bytes[k] = g_lib_bytes; cbl[k] = c_blocks();
  }
  if (blocks[4] > blocks[1] + 2 || bytes[4] > bytes[1] + 256) W.bad("C08", "growth", fmt("live library blocks (bytes) after rounds of compiling the same network and a collection: %ld (%ld) after two rounds, %ld (%ld) after five", (long)blocks[1], (long)bytes[1], (long)blocks[4], (long)bytes[4]), true);
  if (cbl[4] > cbl[1] + 2) W.bad("C08", "growth", fmt("live blocks of the C allocator after rounds of compiling the same network and a collection: %ld, %ld", (long)cbl[1], (long)cbl[4]), true);
  { Lib l; delete m; } delete pc;
}

// ---------------------------------------------------------------- C22
OP(vgen) {
  bool large = r.chance(1) && r.chance(40); if (large) stat_add("probe: vtree for a network of hundreds of variables");
  RawNet n = large ? make_net(r, 700, 900, 0, 25, 10, 0) : make_net(r, r.chance(4) ? 80 : r.chance(30) ? 24 : 8, r.chance(4) ? 60 : r.chance(30) ? 20 : 7, 0, 25, 10, r.chance(10) ? 11 : 0); if (n.free) stat_add("probe: network with variables outside every factor");
  auto sc = scopes1(n);
  std::vector<std::vector<PsddParameter>> par; for (auto &e : n.entries) { std::vector<PsddParameter> p; for (auto &s : e) p.push_back(PsddParameter::CreateFromDecimal(strtod(s.c_str(), nullptr))); par.push_back(p); }
  UaiNetwork *u = new UaiNetwork((size_t)n.vars, n.scopes.size(), n.bayes ? BAYESIAN_NETWORK_TYPE : MARKOV_NETWORK_TYPE, sc, par);
  int reps = 1 + (int)r.below(3);
  for (int k = 0; k < reps; k++) {
    int method = (int)r.below(3);
    static const char *names[] = {"minfill", "join tree", "hypergraph"};
    heur_seed(r.next());
    std::string dir = "/simfs/w" + std::to_string(g_tid < 0 || r.chance(60) ? r.below(2) : 10 + (uint64_t)g_tid);      // threads may share a working directory
    if (r.chance(8)) dir += "/" + std::string(1 + r.below(900), 'd');
    if (method == 2 && g_tid < 0 && r.chance(35)) {    // an earlier run left its file behind, complete, torn or foreign
      if (r.chance(50)) { fs_write((dir + "/config.ini").c_str(), "mode=recursive\nmode=direct\nseed=1\n" + std::string(r.below(4000), 'x')); }
      else { IoPlan io; io.err = r.chance(70) ? IO_CRASH_W : IO_ENOSPC; io.at = r.below(1800); subprocess([&] { Lib l; HypergraphDecompositionVtree g(u, dir.c_str()); g.ConstructVtree(); }, &io); note_io(io_name(io.err)); }
      stat_add("probe: configuration file left by an earlier run");
    }
    W.activity("C22", "%s vtree for %d variables and %zu factors", names[method], n.vars, n.scopes.size());
    if (n.vars > 2) sh->nontrivial++;
    stat_add(fmt("probe: %s vtree", names[method]).c_str());
    Vtree *v = nullptr;
    bool io = r.chance(50); if (io) fs_set_plan(benign_plan(r));
    {
      Lib l;
      if (method == 0) { MinFillVtree g(u); v = g.ConstructVtree(); }
      else if (method == 1) { JointreeVtree g(u); v = g.ConstructVtree(); }
      else { HypergraphDecompositionVtree g(u, dir.c_str()); v = g.ConstructVtree(); }
    }
    fs_clear_plan(); if (io) note_io("none");
    if (!v) { W.bad("C22", "none", fmt("the %s method returned no vtree", names[method]), true); return; }
    if (sdd_vtree_parent(v)) W.bad("C22", "root", fmt("the %s vtree is not a root", names[method]), true);
    VSpecP spec(vspec_of(v).release());
    std::vector<int> lv; vspec_leaves(spec.get(), &lv);
    hash_str(vspec_text(spec.get()).c_str());
    std::vector<int> so = lv; std::sort(so.begin(), so.end());
    bool ok = (int)so.size() == n.vars; for (int i = 0; ok && i < n.vars; i++) ok = so[(size_t)i] == i + 1;
    if (!ok) W.bad("C22", "leaves", fmt("the %s vtree of a network over variables 1..%d is %s", names[method], n.vars, vspec_text(spec.get()).c_str()), true);
    // in-order positions
    std::vector<Vtree *> st{v}; size_t cnt = 0; std::set<long> pos;
    while (!st.empty()) { Vtree *x = st.back(); st.pop_back(); cnt++; pos.insert((long)sdd_vtree_position(x)); if (!sdd_vtree_is_leaf(x)) { Vtree *a = sdd_vtree_left(x), *b = sdd_vtree_right(x); if (sdd_vtree_parent(a) != x || sdd_vtree_parent(b) != x) W.bad("C22", "links", "parent links of the vtree are wrong", true); st.push_back(a); st.push_back(b); } }
    if (pos.size() != cnt || *pos.begin() != 0 || *pos.rbegin() != (long)cnt - 1) W.bad("C22", "positions", fmt("the positions of the %s vtree are not 0..%zu", names[method], cnt - 1), true);
    std::string why; if (!chains_ok(spec.get(), sc, &why)) W.bad("C22", "chain", fmt("the %s vtree %s does not fit: ", names[method], vspec_text(spec.get()).c_str()) + why, true);
    // the tool's own path: factors compiled on the vtree
    if (n.vars <= 9 && r.chance(50)) {
      size_t last; std::string path = write_net(W, r, n, &last), vp = new_path(W, "gvtree");
      sdd_vtree_save(vp.c_str(), v);
      auto *pc = new PgmCompiler(dir);
      W.activity("C22", "compile the factors on the %s vtree", names[method]);
      bool again = r.chance(50);
      { Lib l; pc->read_uai_file(path.c_str()); if (again) { static const char modes[] = {VTREE_METHOD_MINFILL, VTREE_METHOD_JOINTREE, VTREE_METHOD_HYPER_FIXED_BF}; pc->init_psdd_manager(modes[method]); } else pc->init_psdd_manager_from_vtree(vp.c_str()); }
      VSpecP ps(vspec_of(pc->psdd_manager()->vtree()).release());
      if (!again && !vspec_same(ps.get(), spec.get())) W.bad("C22", "file", "the vtree read back from its file is another one", true);
      std::string w2; if (again && !chains_ok(ps.get(), sc, &w2)) W.bad("C22", "chain", "generated vtree does not fit: " + w2, true);
      Mgr *m = W.adopt_mgr(pc->psdd_manager(), ps, 2000 + W.next_mgr);
      for (size_t f = 0; f < n.scopes.size(); f++) {
        Table ft = factor_table(n, f); real z = 0; for (real x : ft) z += x;
        std::pair<PsddNode *, PsddParameter> res{nullptr, PsddParameter()};
        W.activity("C22", "compile factor %zu on the %s vtree", f, names[method]);
        { Lib l; res = pc->compile_factor(f); }
        Shape s; std::string e = z == 0 ? res.first ? "a PSDD for a factor of zeros" : "" : res.first ? read_shape(m, res.first, &s) : "no PSDD";
        if (e.empty() && z > 0) { Table t = table_of(m, s); real zz = lin(res.second); for (auto &x : t) x *= zz; e = diff_tables(t, ft, 1e-6); }
        if (!e.empty()) W.bad("C22", "factor", fmt("factor %zu compiled on the %s vtree: ", f, names[method]) + e, true);
      }
      W.activity("C22", "discard"); W.del_mgr(m);
    }
    sdd_vtree_free(v);
  }
  delete u;
}

// ---------------------------------------------------------------- running the tools
SubResult run_tool(int (*tool)(int, const char **), const std::vector<std::string> &args, const IoPlan *io, uint64_t heur) {
  return subprocess([&] { heur_seed(heur); g_simcwd = true; std::vector<const char *> a; for (auto &s : args) a.push_back(s.c_str()); a.push_back(nullptr); int rc = 0; { Lib l; rc = tool((int)args.size(), a.data()); } fflush(stdout); exit(rc); }, io, true);
}
void log_tool(const SubResult &q) { hash_mix((uint64_t)(q.exited ? q.code : 1000 + q.sig)); hash_str(q.out.c_str()); }
bool close_log(double got, double want) { if (got == want) return true; if (std::isinf(got) || std::isinf(want) || std::isnan(got)) return false; return std::fabs(got - want) <= 2e-4 + 1e-5 * std::fabs(want); }

// a name as it is given on the command line: absolute, or relative to the working directory
std::string shown(Rng &r, const std::string &p) { if (p[7] == (char)45) return "./" + p.substr(7); switch (r.below(4)) { case 0: stat_add("probe: relative file name on a command line"); return p.substr(7); case 1: return "./" + p.substr(7); default: return p; } }
static std::string some_dir(Rng &r) {
  static const char *d[] = {"4/", "1/", "a b/", "22/", "-x/", "tool/", "4.d/"};
  return "/simfs/" + (r.chance(20) ? std::string(1 + r.below(r.chance(50) ? 120 : 1100), 'd') + "/" : r.chance(30) ? d[r.below(7)] : "");
}

// ---------------------------------------------------------------- C23
OP(t_inf) {
  Handle *h = W.pick(r, nullptr, [](Handle *x) { return x->norm && x->nodes <= 500 && x->at == x->mgr->m->vtree() && tame(x); }); if (!h) return;
  Mgr *m = h->mgr;
  std::string dir = some_dir(r);
  std::string pp = dir + "tool.psdd", vp = dir + "tool.vtree", cp = dir + "tool.cnf";
  W.activity("C23", "write the files for the tool");
  { Lib l; psdd_node_util::WritePsddToFile(h->root, pp.c_str()); } sdd_vtree_save(vp.c_str(), m->m->vtree());
  std::string psdd = fs_read(pp.c_str()), cnf;
  bool mpe = r.chance(70), mar = r.chance(70), ev = r.chance(65);
  Formula f; f.dnf = false; if (ev) {
    if (r.chance(40)) { int k = (int)r.below((uint64_t)m->n() + 1); for (int i = 0; i < k; i++) { int v = 1 + (int)r.below((uint64_t)m->n()); f.clauses.push_back({r.chance(50) ? v : -v}); } }   // plain evidence: unit clauses
    else f = random_cnf(r, m);
    cnf = fmt("c evidence\np cnf %d %zu\n", m->vars.back(), f.clauses.size());
    for (auto &c : cnf_clauses(m, f)) { for (auto l : c) cnf += std::to_string(l) + " "; cnf += "0\n"; }
    fs_write(cp.c_str(), cnf);
  }
  Table post = h->t; real z = 0; for (size_t a = 0; a < post.size(); a++) { if (ev && !eval_formula(f, (uint32_t)a)) post[a] = 0; z += post[a]; }
  if (z > 0) for (auto &x : post) x /= z;
  std::vector<std::string> args{"psdd_inference"};
  std::vector<std::string> opts; if (mpe) opts.push_back("--mpe_query"); if (mar) opts.push_back("--mar_query");
  if (ev) { if (r.chance(50)) { opts.push_back("--cnf_evid"); opts.push_back(shown(r, cp)); } else opts.push_back("--cnf_evid=" + shown(r, cp)); }
  for (auto &o : opts) args.push_back(o);      // POSIX order: options, then files
  args.push_back(shown(r, pp)); args.push_back(shown(r, vp));
  IoPlan io; if (r.chance(60)) io.benign = r.next() | 1;
  int kind = r.chance(55) ? 0 : 1 + (int)r.below(7); bool must_fail = false; const char *what = "no fault";
  if (kind == 1) { uint64_t at = cut_point(r, psdd); fs_write(pp.c_str(), psdd.substr(0, at)); what = "PSDD file cut short"; must_fail = true; stat_add("fault: torn file"); sh->faults_fired++; }
  else if (kind == 2) { fs_remove(pp.c_str()); what = "PSDD file missing"; must_fail = true; stat_add("fault: missing file"); sh->faults_fired++; }
  else if (kind == 3) { io.err = r.chance(80) ? IO_EIO_R : IO_OPEN; io.at = r.chance(50) ? r.below(psdd.size()) : cut_point(r, psdd); strcpy(io.path, ".psdd"); what = "PSDD file unreadable"; must_fail = true; }
  else if (kind == 4 && ev) { fs_remove(cp.c_str()); what = "evidence file missing"; must_fail = true; stat_add("fault: missing file"); sh->faults_fired++; }
  else if (kind == 5 && ev) { io.err = r.chance(80) ? IO_EIO_R : IO_OPEN; io.at = r.below(cnf.size()); strcpy(io.path, ".cnf"); what = "evidence file unreadable"; must_fail = true; }
  else if ((kind == 6 && ev && z > 0) || (kind == 7 && ev)) {   // evidence about a variable the PSDD does not have; a line that is no clause
    static const char *junk[] = {"%", "x", "1 x 0", "1 2.5 0", "evidence 1 0"}; std::string l = junk[r.below(5)];
    if (kind == 6) { int v = 1; while (std::find(m->vars.begin(), m->vars.end(), v) != m->vars.end() || (r.chance(60) && v < 900)) v++; l = std::to_string(r.chance(50) ? v : -v); l += r.chance(40) ? fmt(" %d 0", m->vars[0]) : std::string(" 0"); }
    size_t at = r.chance(50) ? cnf.size() : cnf.find('\n') + 1; cnf.insert(at, l + "\n"); fs_write(cp.c_str(), cnf);
    what = kind == 6 ? "evidence about an unknown variable" : "evidence file with a line that is no clause"; must_fail = true; stat_add(kind == 6 ? "fault: unknown variable" : "fault: line that is not a clause"); sh->faults_fired++;
  }
  W.activity("C23", "inference tool%s%s%s, %s at byte %lu", mpe ? " mpe" : "", mar ? " mar" : "", ev ? " evidence" : "", what, io.at);
  sh->nontrivial++;
  SubResult q = run_tool(psdd_inference_tool_main, args, &io, 1);
  note_io(what);
  log_tool(q);
  std::string shown = q.out.substr(0, 300);
  if (q.hang) W.bad("C23", "hang", fmt("%s: the tool makes no progress", what), true);
  if (must_fail) {
    if (q.ok()) W.bad("C23", "silent", fmt("%s (byte %lu): the tool reports success with output \"%s\"", what, io.at, shown.c_str()), true);
    if (q.out.find("result=") != std::string::npos || q.out.find("UNSAT") != std::string::npos) W.bad("C23", "silent", fmt("%s: the tool prints an answer \"%s\"", what, shown.c_str()), true);
    stat_add("outcome: tool reported the fault");
    return;
  }
  if (!q.ok()) W.bad("C23", "failed", fmt("the tool fails on good files (%s), %s evidence", describe(q).c_str(), z == 0 ? "unsatisfiable" : ev ? "satisfiable" : "no"), true);
  std::vector<std::string> lines; { size_t i = 0; while (i < q.out.size()) { size_t j = q.out.find('\n', i); if (j == std::string::npos) j = q.out.size(); if (j > i) lines.push_back(q.out.substr(i, j - i)); i = j + 1; } }
  auto find = [&](const char *k) -> std::string { size_t n = strlen(k); for (auto &l : lines) if (!l.compare(0, n, k)) return l.substr(n); return "?"; };
  bool unsat = false; for (auto &l : lines) if (l == "UNSATISFIED") unsat = true;
  if (unsat != (z == 0)) W.bad("C23", "unsat", fmt("evidence of probability %Lg: the tool %s UNSATISFIED: \"...%s\"", z, unsat ? "prints" : "does not print", q.out.substr(q.out.size() > 300 ? q.out.size() - 300 : 0).c_str()), true);
  if (z == 0) { stat_add("probe: unsatisfiable evidence"); if (find("MPE result=") != "?" || find("MAR result=") != "?") W.bad("C23", "unsat", "an answer is printed for impossible evidence", true); return; }
  if (mpe) {
    std::string s = find("MPE result="), p = find("MPE pr=");
    if (s == "?" || p == "?") W.bad("C23", "mpe", "no MPE answer in \"" + shown + "\"", true);
    uint32_t a = 0; std::set<int> seen; const char *c = s.c_str();
    while (*c) { int v, b, k; if (sscanf(c, "%d:%d,%n", &v, &b, &k) != 2 || !m->bit.count(v) || (b != 0 && b != 1) || !seen.insert(v).second) { W.bad("C23", "mpe", "unreadable MPE answer \"" + s + "\"", true); break; } if (b) a |= 1u << m->bit[v]; c += k; }
    if ((int)seen.size() != m->n()) W.bad("C23", "mpe", "the MPE answer does not name every variable: \"" + s + "\"", true);
    real best = 0; for (real x : post) best = std::max(best, x);
    double lp = atof(p.c_str()), lb = (double)logl(best), la = (double)logl(post[a]);
    if (!close_log(lp, lb)) W.bad("C23", "mpe", fmt("MPE probability exp(%s), the maximum is exp(%.6g)", p.c_str(), lb), true);
    if (!close_log(la, lb)) W.bad("C23", "mpe", fmt("the printed assignment has probability exp(%.6g), the maximum is exp(%.6g)", la, lb), true);
  }
  if (mar) {
    std::string s = find("MAR result=");
    if (s == "?") W.bad("C23", "mar", "no marginals in \"" + shown + "\"", true);
    std::set<int> seen; size_t i = 0;
    while (i < s.size()) {
      size_t j = s.find(',', i); if (j == std::string::npos) j = s.size();
      std::string t = s.substr(i, j - i); i = j + 1;
      size_t c = t.find(':'), b = t.find('|');
      int v = atoi(t.c_str());
      if (c == std::string::npos || b == std::string::npos || !m->bit.count(v) || !seen.insert(v).second) { W.bad("C23", "mar", "unreadable marginals \"" + t + "\"", true); break; }
      double lf = strtod(t.c_str() + c + 1, nullptr), lt = strtod(t.c_str() + b + 1, nullptr);
      real pf = 0, pt = 0; for (size_t a = 0; a < post.size(); a++) ((a >> m->bit[v]) & 1 ? pt : pf) += post[a];
      auto same = [&](double got, real want) { return want == 0 ? std::isinf(got) && got < 0 : close_log(got, (double)logl(want)); };
      if (!same(lf, pf) || !same(lt, pt)) W.bad("C23", "mar", fmt("marginal of variable %d is exp(%g)|exp(%g), expected %Lg|%Lg", v, lf, lt, pf, pt), true);
    }
    if ((int)seen.size() != m->n()) W.bad("C23", "mar", "the marginals do not name every variable: \"" + s + "\"", true);
  }
  if (!mpe && find("MPE") != "?") W.bad("C23", "mpe", "an MPE answer that was not asked for", true);
  if (!mar && find("MAR") != "?") W.bad("C23", "mar", "marginals that were not asked for", true);
}

// ---------------------------------------------------------------- C24
OP(t_uai) {
  RawNet n = make_net(r, 6, r.chance(20) ? 2 : 6, 6, 20, 10);
  size_t last; std::string text = raw_text(r, n, &last), path = some_dir(r) + "tool.uai", out = path + ".psdd", vout = path + ".vtree";
  fs_write(path.c_str(), text); hash_mix(text.size());
  int method = (int)r.below(4); static const char *un[] = {"/simfs/user.vtree", "/simfs/4.vtree", "/simfs/1st/v", "/simfs/2", "/simfs/24"}; std::string user = method == 3 && r.chance(15) ? vout : un[r.below(5)], usern = shown(r, user); if (usern == "2") usern = "./2"; const char *ms[] = {"1", "2", "4", usern.c_str()};
  std::unique_ptr<VSpec> given; if (method == 3) { given = own_vtree(r, n); Vtree *v = vspec_build(given.get()); sdd_vtree_save(user.c_str(), v); sdd_vtree_free(v); }
  std::vector<std::string> args{"uai_compiler", shown(r, path), ms[method]}; if (r.chance(60)) args.push_back(r.chance(50) ? "/simfs/wd" : "wd"); else stat_add("probe: default working directory");
  uint64_t hs = r.next();
  bool stale = r.chance(40); if (stale) { fs_write(out.c_str(), "psdd 1\nT 0 0 1 -0.1 -0.2\n" + std::string(r.below(3000), '#')); if (user != vout) fs_write(vout.c_str(), "vtree 1\nL 0 1\n" + std::string(r.below(2000), '#')); if (method == 0) fs_write("/simfs/wd/config.ini", std::string(r.below(5000), 'x')); }
  Table want = net_table(n);
  // reads back what the tool wrote
  auto check = [&](const SubResult &q, const char *what) {
    std::string shown = q.out.substr(q.out.size() > 200 ? q.out.size() - 200 : 0);
    if (!q.ok()) W.bad("C24", "failed", fmt("%s: the tool fails on good files (%s)", what, describe(q).c_str()), true);
    size_t k = q.out.find("Log Partition ");
    if (k == std::string::npos) { W.bad("C24", "output", fmt("%s: no partition in the output \"%s\"", what, shown.c_str()), true); return; }
    double lz = strtod(q.out.c_str() + k + 14, nullptr);
    SubResult s = subprocess([&] {
      Vtree *v = sdd_vtree_read(vout.c_str());
      if (!v) W.bad("C24", "vtree", "the vtree file cannot be read", true);
      VSpecP sp(vspec_of(v).release());
      std::vector<int> lv; vspec_leaves(sp.get(), &lv); std::sort(lv.begin(), lv.end());
      bool ok = (int)lv.size() == n.vars; for (int i = 0; ok && i < n.vars; i++) ok = lv[(size_t)i] == i + 1;
      if (!ok) W.bad("C24", "vtree", "the vtree file has other variables than the network", true);
      PsddManager *pm; { Lib l; pm = PsddManager::GetPsddManagerFromVtree(v); } sdd_vtree_free(v);
      Mgr *m = W.adopt_mgr(pm, sp, 700);
      PsddNode *x; { Lib l; x = pm->ReadPsddFile(out.c_str(), 0); }
      Shape sx; std::string e = x ? read_shape(m, x, &sx) : "no PSDD"; if (!e.empty()) W.bad("C24", "psdd", fmt("%s: the PSDD file: ", what) + e, true);
      if (method == 3) { std::string d = same_tree(pm->vtree(), given.get(), nullptr); if (!d.empty()) W.bad("C24", "vtree", "the vtree file is not the vtree that was given: " + d, true); }
      if (x->vtree_node() != pm->vtree()) W.bad("C24", "psdd", "the PSDD file is not at the root of the vtree file", true);
      Table t = table_of(m, sx); real z = expl((real)lz); for (auto &y : t) y *= z;
      std::string d = diff_tables(t, want, 2e-4 + 1e-5 * std::fabs(lz) + 5e-6 * (double)n.scopes.size());
      if (!d.empty()) W.bad("C24", "value", fmt("%s, %d variables, %zu factors, method %s: files times partition exp(%.6g) ", what, n.vars, n.scopes.size(), ms[method], lz) + d, true);
    }, nullptr);
    if (!s.ok()) W.bad("C24", "read", fmt("%s: reading the tool's files back failed: ", what) + describe(s), true);
    stat_add(fmt("probe: tool files read back, method %d", method).c_str());
  };
  IoPlan io; if (r.chance(60)) io.benign = r.next() | 1;
  int kind = r.chance(40) ? 0 : 1 + (int)r.below(method == 3 ? 6 : 5); std::string userv = method == 3 ? fs_read(user.c_str()) : ""; const char *what = "no fault"; bool must_fail = kind != 0;
  real wz = 0; for (real x : want) wz += x;
  if (wz == 0) {     // there is nothing to write
    W.activity("C24", "compiler tool, method %s, no assignment of positive weight", ms[method]); stat_add("probe: network without a positive assignment");
    SubResult q = run_tool(uai_compiler_tool_main, args, &io, hs); note_io("none"); log_tool(q);
    if (q.hang || q.sig || !q.exited) W.bad("C24", "null", "the tool fails on a network without a positive assignment: " + describe(q), true);
    if (q.ok()) W.bad("C24", "null", "the tool ends successfully on a network without a positive assignment", true);
    return;
  }
  W.activity("C24", "compiler tool, method %s", ms[method]); sh->nontrivial++;
  if (kind == 0) { SubResult q = run_tool(uai_compiler_tool_main, args, &io, hs); note_io("none"); log_tool(q); check(q, stale ? "with files of an earlier run" : "first run"); return; }
  if (kind == 1) { uint64_t at = r.below(last + 1); fs_write(path.c_str(), text.substr(0, at)); what = "network file cut short"; stat_add("fault: torn file"); sh->faults_fired++; }
  else if (kind == 2) { io.err = r.chance(80) ? IO_EIO_R : IO_OPEN; io.at = r.below(last + 1); strcpy(io.path, "tool.uai"); what = "network file unreadable"; if (io.err == IO_EIO_R && 0) must_fail = false; }
  else if (kind == 6) { fs_remove(user.c_str()); what = "vtree file missing"; stat_add("fault: missing file"); sh->faults_fired++; }
  else {
    // how long is the PSDD file?  a fault-free run tells
    SubResult q0 = run_tool(uai_compiler_tool_main, args, nullptr, hs); check(q0, "run before the fault");
    size_t len = fs_read(out.c_str()).size(); if (!len) return;
    if (r.chance(50)) { fs_remove(out.c_str()); if (user != vout) fs_remove(vout.c_str()); }
    static const int errs[] = {IO_ENOSPC, IO_EIO_W, IO_CLOSE, IO_OPEN_W}; io.err = kind == 5 ? IO_CRASH_W : errs[r.below(4)]; io.at = r.below(len); strcpy(io.path, ".uai.psdd"); what = io_name(io.err);
  }
  W.activity("C24", "compiler tool, %s at byte %lu", what, io.at);
  SubResult q = run_tool(uai_compiler_tool_main, args, &io, hs);
  bool struck = sh->io.errs || sh->io.crashes || kind == 1 || kind == 6;
  note_io(what); log_tool(q);
  if (q.hang) W.bad("C24", "hang", fmt("%s: the tool makes no progress", what), true);
  if (struck && must_fail && q.ok()) W.bad("C24", "silent", fmt("%s at byte %lu: the tool ends successfully", what, io.at), true);
  if (struck) stat_add("outcome: tool reported the fault");
  // afterwards the same command works
  fs_write(path.c_str(), text); if (kind == 6) fs_write(user.c_str(), userv);
  W.activity("C24", "compiler tool again after: %s", what);
  SubResult q2 = run_tool(uai_compiler_tool_main, args, nullptr, hs); log_tool(q2); check(q2, "run after a fault");
}
}  // namespace sim
