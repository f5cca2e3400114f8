// Seeded stand-ins for the two external heuristics: libhtd (orders, tree decompositions) and KaHyPar (bipartitions).
// Every answer is legal for the problem posed; which legal answer is given is decided by the seed.
#include "sim.h"
#include "htd/main.hpp"
#include <cstring>
#include <kahypar/libkahypar.h>

namespace sim {
thread_local uint64_t g_heur = 1;
void heur_seed(uint64_t s) { g_heur = mix64(s); }
uint64_t heur_next() { g_heur += 0x9e3779b97f4a7c15ULL; return mix64(g_heur); }
static bool chance(int p) { return heur_below(100) < (uint64_t)p; }
}  // namespace sim
using namespace sim;
namespace htd {
static std::vector<std::set<vertex_t>> primal(const IMultiHypergraph &g) {
  std::vector<std::set<vertex_t>> a(g.n_ + 1);
  for (auto &e : g.e_) for (auto x : e) for (auto y : e) if (x != y) a[x].insert(y);
  return a;
}
std::vector<vertex_t> random_order(const IMultiHypergraph &g) {
  std::vector<vertex_t> o;
  auto a = primal(g);
  int style = (int)heur_below(4);        // 0,1 random; 2 identity; 3 min degree with random ties
  std::set<vertex_t> left; for (vertex_t i = 1; i <= g.n_; i++) left.insert(i);
  while (!left.empty()) {
    vertex_t v = 0;
    if (style == 2) v = *left.begin();
    else if (style < 2) { auto it = left.begin(); std::advance(it, (long)heur_below(left.size())); v = *it; }
    else { std::size_t best = (std::size_t)-1; for (auto x : left) if (a[x].size() < best || (a[x].size() == best && chance(40))) { best = a[x].size(); v = x; } }
    for (auto x : a[v]) { a[x].erase(v); for (auto y : a[v]) if (x != y) a[x].insert(y); }
    left.erase(v); o.push_back(v);
  }
  return o;
}
ITreeDecomposition *random_decomposition(const IMultiHypergraph &g) {
  auto a = primal(g);
  auto ord = random_order(g);
  std::vector<std::size_t> at(g.n_ + 1); for (std::size_t i = 0; i < ord.size(); i++) at[ord[i]] = i;
  std::vector<std::vector<vertex_t>> bag; std::vector<std::vector<std::size_t>> adj(ord.size());
  for (std::size_t i = 0; i < ord.size(); i++) {
    vertex_t v = ord[i]; std::vector<vertex_t> b{v}; std::size_t up = ord.size();
    for (auto x : a[v]) { b.push_back(x); up = std::min(up, at[x]); for (auto y : a[v]) if (x != y) a[x].insert(y); }
    for (auto x : a[v]) a[x].erase(v);
    if (up == ord.size() && i + 1 < ord.size()) up = i + 1 + heur_below(ord.size() - i - 1);   // components hang anywhere
    if (up < ord.size()) { adj[i].push_back(up); adj[up].push_back(i); }
    for (std::size_t k = b.size(); k-- > 1;) std::swap(b[k], b[heur_below(k + 1)]);
    bag.push_back(b);
  }
  auto *d = new ITreeDecomposition();
  auto mk = [&](vertex_t parent, std::vector<vertex_t> b) { ITreeDecomposition::Node n; n.parent = parent; n.bag = std::move(b); d->t_.push_back(n); vertex_t id = d->t_.size() - 1; if (parent) d->t_[parent].kids.push_back(id); return id; };
  int refine = (int)heur_below(3);     // 0 plain, 1 some intermediate nodes, 2 nice
  bool eroot = chance(40), eleaf = chance(40);
  std::function<void(std::size_t, std::size_t, vertex_t)> go = [&](std::size_t x, std::size_t from, vertex_t parent) {
    if (parent && refine) {            // walk from the parent's bag to this one: forget (seen from below) and introduce single vertices
      std::vector<vertex_t> cur = d->t_[parent].bag;
      for (auto v : std::vector<vertex_t>(cur)) if (std::find(bag[x].begin(), bag[x].end(), v) == bag[x].end() && (refine == 2 || chance(40))) { cur.erase(std::find(cur.begin(), cur.end(), v)); parent = mk(parent, cur); }
      std::vector<vertex_t> base; for (auto v : cur) if (std::find(bag[x].begin(), bag[x].end(), v) != bag[x].end()) base.push_back(v);
      cur = base;
      for (auto v : bag[x]) if (std::find(cur.begin(), cur.end(), v) == cur.end() && (refine == 2 || chance(40))) { cur.push_back(v); parent = mk(parent, cur); }
    }
    vertex_t me = mk(parent, bag[x]);
    bool leaf = true;
    for (auto y : adj[x]) if (y != from) { leaf = false; go(y, x, me); }
    if (leaf && eleaf) mk(me, {});
  };
  vertex_t top = 0;
  if (eroot || ord.empty()) top = mk(0, {});
  if (!ord.empty()) go(heur_below(ord.size()), (std::size_t)-1, top);
  d->root_ = 1;
  return d;
}
}  // namespace htd

// ---------------------------------------------------------------- KaHyPar
struct kahypar_context_s { bool configured = false; };
extern "C" {
kahypar_context_t *kahypar_context_new() { return new kahypar_context_s(); }
void kahypar_context_free(kahypar_context_t *c) { delete c; }
void kahypar_configure_context_from_file(kahypar_context_t *c, const char *f) {
  FILE *fp = fopen(f, "r");
  if (!fp) { fprintf(stderr, "Could not load context file at: %s\n", f); exit(255); }
  std::set<std::string> keys; char l[1024];
  while (fgets(l, sizeof l, fp)) {
    std::string s = l; while (!s.empty() && (s.back() == '\n' || s.back() == ' ')) s.pop_back();
    if (s.empty() || s[0] == '#') continue;
    size_t e = s.find('=');
    if (e == std::string::npos || !keys.insert(s.substr(0, e)).second) { fprintf(stderr, "bad configuration line %s\n", s.c_str()); exit(254); }   // boost::program_options refuses both
  }
  fclose(fp);
  if (!keys.count("mode") || !keys.count("objective")) { fprintf(stderr, "configuration is incomplete\n"); exit(253); }
  c->configured = true;
}
void kahypar_partition(const kahypar_hypernode_id_t n, const kahypar_hyperedge_id_t m, const double eps, const kahypar_partition_id_t k, const kahypar_hypernode_weight_t *, const kahypar_hyperedge_weight_t *,
                       const size_t *idx, const kahypar_hyperedge_id_t *e, kahypar_hyperedge_weight_t *obj, kahypar_context_t *c, kahypar_partition_id_t *part) {
  if (!c->configured || k != 2 || n < 2) { fprintf(stderr, "kahypar stub: unsupported call\n"); abort(); }
  for (size_t i = 0; i < m; i++) { if (idx[i] > idx[i + 1]) abort(); for (size_t j = idx[i]; j < idx[i + 1]; j++) if (e[j] >= n) { fprintf(stderr, "kahypar stub: pin of an unknown vertex\n"); abort(); } }
  size_t cap = (size_t)((1 + eps) * (double)((n + 1) / 2)); if (cap >= n) cap = n - 1; if (cap < (n + 1) / 2) cap = (n + 1) / 2;
  size_t a = n - cap + heur_below(2 * cap - n + 1);
  std::vector<size_t> p(n); for (size_t i = 0; i < n; i++) p[i] = i;
  bool random = sim::heur_below(3) != 0;
  if (random) for (size_t i = n; i-- > 1;) std::swap(p[i], p[heur_below(i + 1)]);
  for (size_t i = 0; i < n; i++) part[p[i]] = i < a ? 0 : 1;
  int cut = 0; for (size_t i = 0; i < m; i++) for (size_t j = idx[i] + 1; j < idx[i + 1]; j++) if (part[e[j]] != part[e[idx[i]]]) { cut++; break; }
  if (obj) *obj = cut;
}
}
