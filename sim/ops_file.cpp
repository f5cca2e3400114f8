// Files: PSDD round trips, torn and failing files, CNF, data sets and network files, all on the simulated file system.
#include "lib.h"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <psdd/csvparser.h>
#include <psdd/uai_network.h>
#include <unistd.h>
extern "C" {
#include <sdd/sddapi.h>
}

extern long g_arena_live;
namespace sim {
IoPlan benign_plan(Rng &r) { IoPlan p; p.benign = r.next() | 1; return p; }
std::string new_path(World &W, const char *kind) { std::string s = g_tid < 0 ? "" : fmt("t%d-", g_tid); int k = W.next_file++; if (W.plan.get("longnames") && k % 3 == 0) s += std::string((size_t)(W.plan.get("longnames") + k % 2), 'p') + "/"; return "/simfs/" + s + fmt("%s%d", kind, k % 5); }
void note_io(const char *what) {
  if (sh->io.shorts) stat_add("fault: short read or write", sh->io.shorts);
  if (sh->io.eintr) stat_add("fault: interrupted call", sh->io.eintr);
  if (sh->io.errs) { stat_add(fmt("fault: %s", what).c_str()); sh->faults_fired++; }
  if (sh->io.crashes) { stat_add("fault: crash while writing"); sh->faults_fired++; }
  hash_mix(sh->io.shorts * 31 + sh->io.eintr * 37 + sh->io.errs);
}
// runs f in this process under a plan of benign irregularities (short reads and writes, interruptions)
bool benign_call(World &W, Rng &r, const std::function<void()> &f) {
  bool plan = r.chance(70);
  if (plan) fs_set_plan(benign_plan(r));
  bool ok = W.call(f);
  fs_clear_plan();
  if (plan) note_io("none");
  return ok;
}

// ---------------------------------------------------------------- comparing two PSDDs element by element
struct Matcher {
  const Mgr *ma, *mb;
  std::unordered_map<PsddNode *, std::vector<char>> sup;
  std::set<std::pair<PsddNode *, PsddNode *>> done;
  std::string why;
  double tol;
  void fill(const Mgr *m, const Shape &s) {
    size_t N = (size_t)1 << m->n();
    for (PsddNode *x : s.post) {
      std::vector<char> t(N, 0);
      if (x->node_type() == 1) { auto l = x->psdd_literal_node(); int b = m->bit.at((int)l->variable_index()); for (size_t i = 0; i < N; i++) t[i] = ((i >> b) & 1) == (size_t)(l->literal() > 0); }
      else if (x->node_type() == 3) t.assign(N, 1);
      else { auto d = x->psdd_decision_node(); for (size_t e = 0; e < d->primes().size(); e++) { auto &p = sup[d->primes()[e]]; auto &q = sup[d->subs()[e]]; for (size_t i = 0; i < N; i++) if (p[i] && q[i]) t[i] = 1; } }
      sup[x] = std::move(t);
    }
  }
  bool par(const PsddParameter &a, const PsddParameter &b) {
    double x = a.parameter(), y = b.parameter();
    if (x == y || std::fabs(x - y) <= tol) return true;
    why = fmt("a parameter is exp(%.9g) instead of exp(%.9g)", y, x); return false;
  }
  bool same(PsddNode *a, PsddNode *b) {
    if (!done.insert({a, b}).second) return true;
    if (a->node_type() != b->node_type()) { why = "a node has another kind"; return false; }
    if (a->node_type() == 1) { if (a->psdd_literal_node()->literal() == b->psdd_literal_node()->literal()) return true; why = "another literal"; return false; }
    if (a->node_type() == 3) { auto s = a->psdd_top_node(), t = b->psdd_top_node(); if (s->variable_index() != t->variable_index()) { why = "another variable"; return false; } return par(s->true_parameter(), t->true_parameter()) && par(s->false_parameter(), t->false_parameter()); }
    auto d = a->psdd_decision_node(), e = b->psdd_decision_node();
    if (d->primes().size() != e->primes().size()) { why = fmt("a decision node has %zu elements instead of %zu", e->primes().size(), d->primes().size()); return false; }
    for (size_t i = 0; i < d->primes().size(); i++) {
      size_t j = 0; auto &sp = sup[d->primes()[i]];
      while (j < e->primes().size() && sup[e->primes()[j]] != sp) j++;
      if (j == e->primes().size()) { why = "a prime is missing"; return false; }
      if (!par(d->parameters()[i], e->parameters()[j]) || !same(d->primes()[i], e->primes()[j]) || !same(d->subs()[i], e->subs()[j])) return false;
    }
    return true;
  }
};
// "" or how the PSDD y (in manager mb) differs from x (in ma), beyond the precision of a PSDD file
static std::string file_diff(Mgr *ma, PsddNode *x, const Table &tx, Mgr *mb, PsddNode *y) {
  Shape a, b;
  std::string e = read_shape(mb, y, &b); if (!e.empty()) return "malformed: " + e;
  read_shape(ma, x, &a);
  if (mb->vinfo.at(y->vtree_node()).pos != ma->vinfo.at(x->vtree_node()).pos) return "at another vtree node";
  std::string d = diff_tables(table_of(mb, b), tx, 5e-5); if (!d.empty()) return d;
  Matcher M{ma, mb, {}, {}, "", 2.2e-6};
  M.fill(ma, a); M.fill(mb, b);
  if (!M.same(x, y)) return M.why;
  return "";
}

// the same PSDD as another program would write it: comments anywhere, any node numbers, any order in which a node follows its
// children, elements in any order, any blanks between the numbers
static std::string rewrite_psdd(Rng &r, const std::string &text) {
  struct Line { std::vector<std::string> t; size_t wait = 0; std::vector<size_t> up; };
  std::vector<Line> L; std::string head, out; std::unordered_map<std::string, size_t> at; size_t pos = 0;
  while (pos < text.size()) {
    size_t e = text.find('\n', pos); if (e == std::string::npos) e = text.size();
    std::string line = text.substr(pos, e - pos); pos = e + 1;
    if (line.empty()) continue;
    if (line[0] == 'c') { if (r.chance(30)) head += line + "\n"; continue; }
    if (line[0] == 'p') { if (r.chance(90)) head += line + "\n"; continue; }
    Line n; size_t i = 0; while (i < line.size()) { size_t j = line.find(' ', i); if (j == std::string::npos) j = line.size(); if (j > i) n.t.push_back(line.substr(i, j - i)); i = j + 1; }
    if (n.t.size() < 4) return text;
    at[n.t[1]] = L.size(); L.push_back(n);
  }
  for (size_t i = 0; i < L.size(); i++) if (L[i].t[0] == "D") for (size_t j = 4; j < L[i].t.size(); j += 3) for (int c = 0; c < 2; c++) {
    auto k = at.find(L[i].t[j + (size_t)c]); if (k == at.end() || k->second >= i || j + 2 >= L[i].t.size()) return text;
    L[k->second].up.push_back(i); L[i].wait++; }
  int style = (int)r.below(4); std::set<uint64_t> used; std::vector<std::string> id(L.size());
  uint64_t base = r.next() >> r.below(60), low = r.below(5);
  for (size_t i = 0; i < L.size(); i++) { uint64_t x; do x = style == 0 ? r.next() >> r.below(32) : style == 1 ? (r.below(L.size() * 2 + 2) << 32) + low : style == 2 ? base + r.below(4 * L.size() + 4) : ~(uint64_t)0 - r.below(4 * L.size() + 4); while (!used.insert(x).second); id[i] = std::to_string(x); }
  auto comment = [&] { if (r.chance(8)) out += r.chance(50) ? "c\n" : "c D 1 2 3 " + std::string(r.below(r.chance(10) ? 9000 : 20), 'x') + "\n"; };
  auto blank = [&] { return r.chance(4) ? r.chance(50) ? "  " : "\t" : " "; };
  std::vector<size_t> ready; for (size_t i = 0; i < L.size(); i++) if (!L[i].wait) ready.push_back(i);
  while (!ready.empty()) {
    size_t k = r.chance(50) ? r.below(ready.size()) : ready.size() - 1, i = ready[k]; ready[k] = ready.back(); ready.pop_back();
    comment(); auto &t = L[i].t; std::string line = t[0] + blank() + id[i];
    if (t[0] != "D") for (size_t j = 2; j < t.size(); j++) line += blank() + t[j];
    else {
      line += blank() + t[2] + blank() + t[3]; std::vector<size_t> o; for (size_t j = 4; j < t.size(); j += 3) o.push_back(j);
      if (r.chance(60)) for (size_t j = o.size(); j-- > 1;) std::swap(o[j], o[r.below(j + 1)]);
      for (auto j : o) line += blank() + id[at[t[j]]] + blank() + id[at[t[j + 1]]] + blank() + t[j + 2];
    }
    out += line + (r.chance(3) ? " \n" : "\n");
    for (auto u : L[i].up) if (!--L[u].wait) ready.push_back(u);
  }
  comment(); return head + out;
}

OP(f_psdd) {
  Handle *h = W.pick(r, nullptr, [](Handle *x) { return x->nodes <= 1500; }); if (!h) return;
  Mgr *m = h->mgr;
  std::string path = new_path(W, "psdd");
  if (r.chance(30)) fs_write(path.c_str(), "D 7 stale content that must not survive\n");
  int wm = (int)r.below(g_tid < 0 ? 3 : 2);
  W.activity("C14", "write PSDD %d%s", h->id, wm == 2 ? " in another process" : "");
  if (W.step_no > 3) sh->nontrivial++;
  if (wm == 2) {
    IoPlan io = benign_plan(r);
    SubResult s = subprocess([&] { Lib l; psdd_node_util::WritePsddToFile(h->root, path.c_str()); }, &io);
    note_io("none");
    if (!s.ok()) { W.bad("C14", "write", "writing without any fault failed: " + describe(s), true); return; }
  } else if (!benign_call(W, r, [&] { psdd_node_util::WritePsddToFile(h->root, path.c_str()); })) return;
  W.verify_all("C14", "disturbed");
  if (!fs_exists(path.c_str())) { W.bad("C14", "write", "no file was written", true); return; }
  hash_mix(fs_read(path.c_str()).size());
  if (r.chance(25)) { fs_write(path.c_str(), rewrite_psdd(r, fs_read(path.c_str()))); stat_add("probe: PSDD file in another writer's form"); }
  int rm = (int)r.below(g_tid < 0 ? 5 : 4);
  uintmax_t flag = r.chance(40) ? h->flag : pick_flag(r);
  if (rm == 4) {     // a later process that only has the vtree file and the PSDD file
    std::string vp = new_path(W, "vtree");
    W.activity("C14", "read PSDD %d back in a later process", h->id);
    sdd_vtree_save(vp.c_str(), m->m->vtree());
    IoPlan io = benign_plan(r);
    SubResult s = subprocess([&] {
      Vtree *v = sdd_vtree_read(vp.c_str());
      PsddManager *pm; { Lib l; pm = PsddManager::GetPsddManagerFromVtree(v); } sdd_vtree_free(v);
      Mgr *q = W.adopt_mgr(pm, m->spec, 500);
      PsddNode *x; { Lib l; x = pm->ReadPsddFile(path.c_str(), flag); }
      if (!x) W.bad("C14", "read", "reading back gave no PSDD", true);
      std::string d = file_diff(m, h->root, h->t, q, x);
      if (!d.empty()) W.bad("C14", "value", fmt("PSDD %d written and read back in a later process: ", h->id) + d, true);
    }, &io);
    note_io("none");
    if (!s.ok()) W.bad("C14", "read", "reading an undamaged file in a later process failed: " + describe(s), true);
    return;
  }
  Mgr *dst = m; bool temp = false;
  if (rm == 2) { std::vector<Mgr *> c; for (auto &q : W.mgrs) if (q->group == m->group) c.push_back(q.get()); dst = c[r.below(c.size())]; }
  if (rm == 3) {
    Vtree *v = vspec_build(m->spec.get()); PsddManager *pm; { Lib l; pm = PsddManager::GetPsddManagerFromVtree(v); } sdd_vtree_free(v);
    dst = W.adopt_mgr(pm, m->spec, m->group); temp = W.mgrs.size() > 3;
  }
  PsddNode *x = nullptr;
  W.activity("C14", "read PSDD %d back into manager %d", h->id, dst->id);
  if (!benign_call(W, r, [&] { x = dst->m->ReadPsddFile(path.c_str(), flag); })) return;
  if (!x) { W.bad("C14", "read", "reading back gave no PSDD", true); return; }
  if (W.on("C14")) {
    std::string d = file_diff(m, h->root, h->t, dst, x);
    if (!d.empty()) W.bad("C14", "value", fmt("PSDD %d written and read back: ", h->id) + d, true);
    Shape s; read_shape(dst, x, &s); for (auto q : s.post) if (q->flag_index() != flag) W.bad("C14", "flag", "a node read back carries another flag", true);
    W.verify_all("C14", "disturbed");
    if (r.chance(35)) {    // write what was read: an equivalent file
      std::string p2 = new_path(W, "again");
      PsddNode *y = nullptr;
      W.activity("C14", "write and read again");
      if (benign_call(W, r, [&] { psdd_node_util::WritePsddToFile(x, p2.c_str()); y = dst->m->ReadPsddFile(p2.c_str(), flag); })) {
        Shape sx; read_shape(dst, x, &sx); Table tx = table_of(dst, sx);
        std::string d2 = y ? file_diff(dst, x, tx, dst, y) : "no PSDD";
        if (!d2.empty()) W.bad("C14", "again", "writing and reading a second time: " + d2, true);
      }
      W.verify_all("C14", "disturbed");
    }
  }
  if (temp) { W.del_mgr(dst); return; }
  Handle *g = W.add(dst, x, flag, "read");
  if (g) g->exactp = false;
}

// ---------------------------------------------------------------- C15
const char *io_name(int e) {
  switch (e) { case IO_ENOSPC: return "disk full while writing"; case IO_EIO_W: return "write error"; case IO_EIO_R: return "read error"; case IO_CRASH_W: return "crash while writing"; case IO_OPEN: return "open fails"; case IO_CLOSE: return "close fails"; case IO_OPEN_W: return "open for writing fails"; }
  return "none";
}
uint64_t cut_point(Rng &r, const std::string &s) {
  if (s.empty()) return 0;
  switch (r.below(6)) {
    case 0: return r.below(s.size());
    case 1: return s.size() - 1 - r.below(std::min<size_t>(s.size(), 24));
    case 2: { std::vector<size_t> p; for (size_t i = 0; i + 1 < s.size(); i++) if (s[i] == '\n') p.push_back(i + 1); if (p.empty()) return r.below(s.size()); return r.chance(50) ? p[r.below(p.size())] : p[p.size() - 1 - r.below(std::min<size_t>(p.size(), 3))]; }   // a line boundary
    case 3: { std::vector<size_t> p; for (size_t i = 0; i < s.size(); i++) if (s[i] == ' ' || s[i] == '\n') p.push_back(i); if (p.empty()) return 0; return p[p.size() - 1 - r.below(std::min<size_t>(p.size(), 30))]; }
    case 4: { size_t k = s.find("\npsdd"); if (k == std::string::npos) return r.below(s.size()); return std::min<uint64_t>(k + r.below(14), s.size() - 1); }
    default: { size_t k = s.find("\npsdd"); if (k == std::string::npos) k = 0; return k + r.below(s.size() - k); }
  }
}
OP(f_psdd_fault) {
  Handle *h = W.pick(r, nullptr, [](Handle *x) { return x->nodes <= 600; }); if (!h) return;
  Mgr *m = h->mgr;
  std::string path = new_path(W, "psdd"), good;
  W.activity("C15", "write PSDD %d", h->id);
  { Lib l; psdd_node_util::WritePsddToFile(h->root, path.c_str()); }
  good = fs_read(path.c_str());
  int kind = (int)r.below(10);
  // what a reader makes of the file: an error, or exactly the PSDD
  auto reader = [&](IoPlan *io, const char *what) {
    uintmax_t flag = pick_flag(r); bool fresh = r.chance(40);
    SubResult s = subprocess([&] {
      Mgr *dst = m;
      if (fresh) { Vtree *v = vspec_build(m->spec.get()); PsddManager *pm; { Lib l; pm = PsddManager::GetPsddManagerFromVtree(v); } sdd_vtree_free(v); dst = W.adopt_mgr(pm, m->spec, 500); }
      PsddNode *x = nullptr; bool thrown = false;
      try { Lib l; x = dst->m->ReadPsddFile(path.c_str(), flag); } catch (const std::exception &) { thrown = true; }
      fs_clear_plan();
      if (thrown || !x) { W.verify_all("C15", "manager-damaged"); _exit(1); }
      std::string d = file_diff(m, h->root, h->t, dst, x);
      if (!d.empty()) W.bad("C15", "silent-read", fmt("PSDD %d of %zu nodes, %s: the reader reports success with another PSDD (%s)", h->id, h->nodes, what, d.c_str()), true);
    }, io);
    note_io(io ? io_name(io->err) : "torn file");
    hash_mix((uint64_t)(s.exited ? s.code : 1000 + s.sig));
    if (s.hang) W.bad("C15", "hang", fmt("%s: the reader makes no progress", what), true);
    stat_add(s.ok() ? "outcome: reader returned the complete PSDD" : "outcome: reader reported an error");
  };
  sh->nontrivial++;
  if (kind < 4) {            // write fails
    IoPlan io; static const int errs[] = {IO_ENOSPC, IO_EIO_W, IO_ENOSPC, IO_CLOSE, IO_OPEN_W};
    io.err = errs[r.below(5)]; io.at = r.chance(15) ? 0 : r.chance(15) ? good.size() - 1 : r.below(good.size());
    if (r.chance(50)) io.benign = r.next() | 1;
    if (r.chance(35)) { io.once = true; stat_add("plan: transient write error"); }
    bool exists = r.chance(50); if (!exists) fs_remove(path.c_str());
    W.activity("C15", "write PSDD %d, %s at byte %lu of %zu", h->id, io_name(io.err), io.at, good.size());
    SubResult s = subprocess([&] { bool ok = true; try { Lib l; psdd_node_util::WritePsddToFile(h->root, path.c_str()); } catch (const std::exception &) { ok = false; } fs_clear_plan(); if (!ok) { W.verify_all("C15", "manager-damaged"); _exit(1); } }, &io);
    bool struck = sh->io.errs > 0;
    note_io(io_name(io.err));
    hash_mix((uint64_t)(s.exited ? s.code : 1000 + s.sig));
    if (s.hang) W.bad("C15", "hang", fmt("%s: the writer makes no progress", io_name(io.err)), true);
    if (struck && s.ok() && io.once && io.err <= IO_EIO_W && fs_read(path.c_str()) == good) { stat_add("outcome: writer recovered from a transient error"); return; }
    if (struck && s.ok()) W.bad("C15", "silent-write", fmt("writing PSDD %d (%zu bytes), %s at byte %lu: the writer reports success", h->id, good.size(), io_name(io.err), io.at), true);
    if (struck) stat_add("outcome: writer reported the failure");
    if (!struck && !s.ok()) W.bad("C15", "write", "writing without a fault failed: " + describe(s), true);
    // a reader must not be fooled by a file that was cut short, either
    if (r.chance(50) && fs_exists(path.c_str()) && io.err != IO_OPEN_W && good.compare(0, fs_read(path.c_str()).size(), fs_read(path.c_str())) == 0) { W.activity("C15", "read what a failed write left"); reader(nullptr, "file left by a failed write"); }
  } else if (kind < 6) {     // the writer crashes
    IoPlan io; io.err = IO_CRASH_W; io.at = cut_point(r, good);
    if (r.chance(50)) io.benign = r.next() | 1;
    W.activity("C15", "writer of PSDD %d crashes at byte %lu of %zu, then it is read", h->id, io.at, good.size());
    subprocess([&] { Lib l; psdd_node_util::WritePsddToFile(h->root, path.c_str()); }, &io);
    note_io("crash while writing");
    if (!fs_exists(path.c_str())) return;
    reader(nullptr, fmt("writer crashed at byte %lu of %zu", io.at, good.size()).c_str());
  } else if (kind < 8) {     // cut
    uint64_t at = cut_point(r, good);
    W.activity("C15", "read PSDD %d cut to %lu of %zu bytes", h->id, at, good.size());
    fs_write(path.c_str(), good.substr(0, at)); stat_add("fault: torn file"); sh->faults_fired++;
    IoPlan io; io.benign = r.chance(50) ? r.next() | 1 : 0;
    reader(&io, fmt("file cut to %lu of %zu bytes", at, good.size()).c_str());
  } else {                   // read fails
    IoPlan io; io.err = r.chance(80) ? IO_EIO_R : IO_OPEN; io.at = r.chance(50) ? cut_point(r, good) : r.below(good.size() + 1);
    if (r.chance(50)) io.benign = r.next() | 1;
    if (r.chance(30)) io.once = true; 
    if (r.chance(10)) { fs_remove(path.c_str()); stat_add("fault: missing file"); sh->faults_fired++; io.err = IO_OK; }
    W.activity("C15", "read PSDD %d, %s at byte %lu of %zu", h->id, io_name(io.err), io.at, good.size());
    reader(&io, fmt("%s at byte %lu of %zu", io_name(io.err), io.at, good.size()).c_str());
  }
}

// ---------------------------------------------------------------- CNF files (C10)
OP(f_cnf) {
  Mgr *m = W.pick_mgr(r); uintmax_t flag = pick_flag(r);
  Formula f = random_cnf(r, m);
  if (r.chance(6)) f.clauses.insert(f.clauses.begin() + (long)r.below(f.clauses.size() + 1), std::vector<int>());
  if (r.chance(12)) for (auto &c : f.clauses) if (!c.empty() && r.chance(50)) {      // long lines: literals named again, opposite ones too
    size_t k = r.chance(40) ? 20 + r.below(60) : 100 + r.below(1500); bool both = r.chance(5); auto c0 = c;
    while (c.size() < k) c.push_back(both && r.chance(2) ? -c0[r.below(c0.size())] : c0[r.below(c0.size())]);
    stat_add("probe: clause of many literals");
  }
  auto cl = cnf_clauses(m, f);
  std::string s; bool crlf = r.chance(15), blanks = r.chance(25), joins = r.chance(20);
  auto nl = [&] { s += crlf ? "\r\n" : "\n"; };
  if (r.chance(60)) { s += "c a comment 1 -2 0"; nl(); }
  if (r.chance(6)) { s += "c " + std::string(r.below(9000), '7') + " 1 0"; nl(); }
  if (r.chance(80)) { s += fmt("p cnf %d %zu", *std::max_element(m->vars.begin(), m->vars.end()), cl.size()); nl(); }
  for (size_t i = 0; i < cl.size(); i++) {
    if (blanks && r.chance(25)) nl();
    if (r.chance(10) && (s.empty() || s.back() == '\n')) { s += "c 5 0"; nl(); }
    bool lead = false;
    for (auto l : cl[i]) { if (!lead && r.chance(15)) s += std::string(r.chance(95) ? 1 : r.below(5000), ' '); s += std::to_string(l); s += r.chance(10) ? "  " : r.chance(10) ? "\t" : " "; lead = true; }
    bool zero = cl[i].empty() || r.chance(92), join = zero && i + 1 < cl.size() && joins && r.chance(40);
    if (zero) s += "0";
    if (join) { s += r.chance(50) ? " " : "\t "; stat_add("probe: two clauses on a line"); continue; }
    if (i + 1 < cl.size() || r.chance(85)) nl();
  }
  if (g_tid < 0 && r.chance(8)) {        // a line that is not a clause: an error
    static const char *junk[] = {"%", "x", "1 x 0", "1 2.5 0", "-1 1 0 ?", "1;2 0", " p 3 0", "1 0 c 3"};
    std::string j = junk[r.below(8)]; size_t at = s.empty() ? 0 : s.find('\n', r.below(s.size()));
    if (at == std::string::npos) { if (!s.empty() && s.back() != '\n') s += "\n"; at = s.size(); } else if (!s.empty()) at++;
    s.insert(at, j + (crlf ? "\r\n" : "\n"));
    std::string path = new_path(W, "cnf"); fs_write(path.c_str(), s); stat_add("fault: line that is not a clause"); sh->faults_fired++; hash_mix(s.size());
    W.activity("C10", "CNF file with the line \"%s\"", j.c_str()); sh->nontrivial++;
    size_t n = 0; SubResult q = subprocess([&] { CNF *c; { Lib l; c = new CNF(path.c_str()); } n = c->clauses().size(); }, nullptr);
    hash_mix((uint64_t)(q.exited ? q.code : 1000 + q.sig));
    if (q.hang) W.bad("C10", "hang", "reading a CNF file makes no progress", true);
    if (q.ok()) W.bad("C10", "silent-read", fmt("a CNF file with the line \"%s\" is read without an error", j.c_str()), true);
    return;
  }
  std::string path = new_path(W, "cnf");
  fs_write(path.c_str(), s);
  hash_mix(s.size());
  if (g_tid < 0 && r.chance(35)) {        // a fault while reading: an error or the whole formula
    IoPlan io; int k = (int)r.below(4);
    io.err = k == 0 ? IO_OPEN : IO_EIO_R; io.at = r.below(s.size() + 1); if (r.chance(30)) io.once = true; 
    if (k == 1) { fs_remove(path.c_str()); io.err = IO_OK; stat_add("fault: missing file"); sh->faults_fired++; }
    if (r.chance(50)) io.benign = r.next() | 1;
    W.activity("C10", "CNF file, %s at byte %lu of %zu", k == 1 ? "missing" : io_name(io.err), io.at, s.size()); sh->nontrivial++;
    SubResult q = subprocess([&] {
      CNF *c = nullptr; { Lib l; c = new CNF(path.c_str()); } fs_clear_plan();
      if (c->clauses() != cl) W.bad("C10", "silent-read", fmt("CNF file of %zu clauses, %s at byte %lu of %zu: %zu clauses were read without an error", cl.size(), k == 1 ? "missing" : io_name(io.err), io.at, s.size(), c->clauses().size()), true);
    }, &io);
    note_io(io_name(io.err));
    hash_mix((uint64_t)(q.exited ? q.code : 1000 + q.sig));
    if (q.hang) W.bad("C10", "hang", "reading a CNF file makes no progress", true);
    if (k == 1 && q.ok()) W.bad("C10", "silent-read", "a missing CNF file is read without an error", true);
    return;
  }
  CNF *c = nullptr; PsddNode *x = nullptr;
  W.activity("C10", "CNF from a file of %zu bytes", s.size()); if (W.step_no > 3) sh->nontrivial++;
  if (!benign_call(W, r, [&] { c = new CNF(path.c_str()); })) return;
  if (!W.call([&] { x = c->Compile(m->m, flag); })) { delete c; return; }
  check_cnf(W, m, x, f, flag, "file", true);
  delete c;
  W.verify_all("C10", "disturbed");
}

// ---------------------------------------------------------------- data sets (C19)
typedef std::map<std::vector<uint32_t>, uintmax_t> Multi;     // set positions -> count
static std::vector<uint32_t> ones(const Bits &b) { std::vector<uint32_t> v; for (size_t i = b._Find_first(); i < b.size(); i = b._Find_next(i)) v.push_back((uint32_t)i); return v; }
static std::string multi_diff(const BinaryData &d, const Multi &want, uint32_t cols) {
  Multi got; uintmax_t n = 0, w = 0;
  for (auto &k : d.data()) { got[ones(k.first)] += k.second; n += k.second; }
  for (auto &k : want) w += k.second;
  if (d.data_size() != w) return fmt("data_size is %ju, %ju records were given", d.data_size(), w);
  if (n != w) return fmt("the counts add up to %ju, %ju records were given", n, w);
  if (got != want) return fmt("%zu distinct records instead of %zu, or other counts", got.size(), want.size());
  if (w) {      // the mean log-frequency over the records
    real e = 0; for (auto &k : want) e += (real)k.second * (logl((real)k.second) - logl((real)w)); e /= (real)w;
    double h; { Lib l; h = d.CalculateEntropy(); } if (!(fabsl((real)h - e) <= 1e-9L)) return fmt("CalculateEntropy is %.12g, the records give %.12Lg", h, e);
  }
  if (w && d.variable_size() != cols) return fmt("variable_size is %u instead of %u", d.variable_size(), cols);
  return "";
}
static Multi random_multi(Rng &r, uint32_t *cols, bool empty_ok) {
  static const int cs[] = {1, 2, 3, 4, 5, 8, 16, 31, 63, 64, 65, 127, 128, 129, 200};
  *cols = (uint32_t)cs[r.chance(60) ? r.below(6) : r.below(15)];
  bool wide = r.chance(7), many = !wide && r.chance(7);
  if (wide) { *cols = g_thread_plan || r.chance(85) ? 200 + (uint32_t)r.below(1100) : r.chance(50) ? MAX_VAR - 1 : 1300 + (uint32_t)r.below(20000); stat_add("probe: data set with hundreds of columns"); }
  if (many) { *cols = (uint32_t)cs[r.below(6)]; stat_add("probe: record repeated hundreds of times"); }
  size_t n = empty_ok && r.chance(5) ? 0 : 1 + r.below(wide ? (*cols > 1300 ? 2 : 4) : r.chance(30) ? 40 : 8);
  Multi m; std::vector<std::vector<uint32_t>> all; int dens = 5 + (int)r.below(90);
  for (size_t i = 0; i < n; i++) {
    std::vector<uint32_t> v;
    if (i && r.chance(35)) v = all[r.below(all.size())]; else for (uint32_t k = 1; k <= *cols; k++) if (r.chance(dens)) v.push_back(k);
    all.push_back(v); m[v]++;
  }
  if (many && n) m[all[r.below(all.size())]] += !g_thread_plan && r.chance(5) ? 65530 + r.below(9000) : 120 + r.below(600);   // beyond 16 bits
  return m;
}
static Bits bits_of(const std::vector<uint32_t> &v) { Bits b; for (uint32_t k : v) b.set(k); return b; }
static std::string csv_text(Rng &r, const Multi &m, uint32_t cols) {
  std::vector<std::vector<uint32_t>> rows; for (auto &k : m) for (uintmax_t i = 0; i < k.second; i++) rows.push_back(k.first);
  for (size_t i = rows.size(); i-- > 1;) std::swap(rows[i], rows[r.below(i + 1)]);
  bool crlf = r.chance(25), last = r.chance(70), quotes = r.chance(20), spaces = r.chance(15); std::string s;
  for (size_t i = 0; i < rows.size(); i++) {
    std::set<uint32_t> on(rows[i].begin(), rows[i].end());
    for (uint32_t k = 1; k <= cols; k++) { std::string c = on.count(k) ? "1" : "0"; if (spaces && r.chance(40)) c = " " + c; if (quotes && r.chance(40)) c = "\"" + c + "\""; s += (k > 1 ? "," : "") + c; }
    if (i + 1 < rows.size() || last) s += crlf ? "\r\n" : "\n";
  }
  return s;
}
OP(f_data) {
  uint32_t cols; Multi want = random_multi(r, &cols, true);
  BinaryData *d = new BinaryData;
  W.activity("C19", "data set of %zu distinct records over %u columns", want.size(), cols); sh->nontrivial++;
  std::string path = new_path(W, "data");
  if (r.chance(25)) fs_write(path.c_str(), "1,1,1\n0,0,0\nstale");
  if (r.chance(40)) {      // a file made elsewhere
    if (want.empty()) { delete d; return; }
    fs_write(path.c_str(), csv_text(r, want, cols));
  } else {
    { Lib l; d->set_variable_size(cols);
      std::vector<std::vector<uint32_t>> rows; for (auto &k : want) for (uintmax_t i = 0; i < k.second; i++) rows.push_back(k.first);
      for (size_t i = rows.size(); i-- > 1;) std::swap(rows[i], rows[r.below(i + 1)]);
      for (auto &v : rows) d->AddRecord(bits_of(v)); }
    std::string e = multi_diff(*d, want, cols); if (!e.empty()) W.bad("C19", "memory", "records added in memory: " + e, true);
    if (!benign_call(W, r, [&] { d->WriteFile(path.c_str()); })) { delete d; return; }
    e = multi_diff(*d, want, cols); if (!e.empty()) W.bad("C19", "memory", "writing changed the data set: " + e, true);
  }
  hash_mix(fs_read(path.c_str()).size());
  BinaryData *g = r.chance(50) ? new BinaryData : d;     // into a new object or one that already holds records
  int reps = r.chance(30) ? 2 : 1;
  if (r.chance(25)) {                                    // it has read another data set before
    uint32_t c0; Multi m0 = random_multi(r, &c0, false); std::string p0 = new_path(W, "data"); fs_write(p0.c_str(), csv_text(r, m0, c0));
    W.activity("C19", "read a data file of %u columns", c0); { Lib l; g->ReadFile(p0.c_str()); }
    std::string e = multi_diff(*g, m0, c0); if (!e.empty()) W.bad("C19", "file", fmt("data file of %u columns read: ", c0) + e, true);
    stat_add("probe: data object reused for another file");
  }
  for (int k = 0; k < reps; k++) {
    W.activity("C19", "read a data file%s", g == d ? " into a used object" : "");
    if (!benign_call(W, r, [&] { g->ReadFile(path.c_str()); })) break;
    std::string e = multi_diff(*g, want, cols); if (!e.empty()) W.bad("C19", "file", fmt("data file of %u columns read %s: ", cols, k ? "a second time" : g == d ? "into a used object" : "back") + e, true);
  }
  if (r.chance(30) && g->data_size()) {      // and further records on top
    uint32_t c2 = cols; Multi more; for (int i = 0; i < 3; i++) { std::vector<uint32_t> v; for (uint32_t k = 1; k <= c2; k++) if (r.chance(50)) v.push_back(k); more[v]++; { Lib l; g->AddRecord(bits_of(v)); } }
    for (auto &k : more) want[k.first] += k.second;
    std::string e = multi_diff(*g, want, cols); if (!e.empty()) W.bad("C19", "memory", "records added after reading: " + e, true);
    std::string p2 = new_path(W, "data"); BinaryData z;
    if (benign_call(W, r, [&] { g->WriteFile(p2.c_str()); z.ReadFile(p2.c_str()); })) { e = multi_diff(z, want, cols); if (!e.empty()) W.bad("C19", "file", "second generation of a data file: " + e, true); }
  }
  if (g != d) delete g;
  delete d;
}
static std::string json_text(Rng &r, Multi &want, uint32_t cols) {
  std::vector<std::string> ex;
  for (auto &k : want) for (uintmax_t i = 0; i < k.second; i++) {
    std::vector<uint32_t> v = k.first; for (size_t j = v.size(); j-- > 1;) std::swap(v[j], v[r.below(j + 1)]);
    std::string s = "["; for (size_t j = 0; j < v.size(); j++) s += (j ? (r.chance(30) ? ", " : ",") : "") + std::to_string(v[j]); ex.push_back(s + "]"); }
  if (r.chance(30)) ex.push_back(fmt("[%u]", cols + 1));        // examples that do not fit are skipped
  if (r.chance(20)) ex.push_back("[1, \"x\"]");
  if (r.chance(20)) ex.push_back("17");
  for (size_t j = ex.size(); j-- > 1;) std::swap(ex[j], ex[r.below(j + 1)]);
  std::string d = "\"data\": ["; for (size_t j = 0; j < ex.size(); j++) d += (j ? (r.chance(30) ? ",\n" : ",") : "") + ex[j]; d += "]";
  std::string v = fmt("\"variable_size\": %u", cols);
  return r.chance(50) ? "{" + v + ", " + d + "}\n" : "{" + d + ",\n" + v + "}";
}
OP(f_data_json) {
  uint32_t cols; Multi want = random_multi(r, &cols, true);
  std::string path = new_path(W, "json"), s = json_text(r, want, cols);
  fs_write(path.c_str(), s); hash_mix(s.size());
  if (r.chance(12)) {       // examples that are not valid are skipped, the others kept
    static const char *bad[] = {"7", "\"1\"", "null", "{}", "{\"1\": 1}", "[1, \"1\"]", "[\"x\"]", "[[1]]", "[null]", "[true]", "true", "[0]", "[1, 0]", "[-1]", "[1, -1]", "[0.5]", "[1, 1.5]", "[1e30]", "[-1e30]", "[18446744073709551615]", "[4294967297]", "[1, -4294967295]"};
    size_t at = s.find('[', s.find("\"data\"")) + 1; bool none = s.find_first_not_of(" \t\r\n", at) == s.find(']', at);
    for (int i = 1 + (int)r.below(3); i-- > 0; none = false) s.insert(at, (r.chance(40) ? fmt("[%s%u]", r.chance(50) ? "1, " : "", cols + 1 + (uint32_t)r.below(r.chance(50) ? 3 : 100000)) : std::string(bad[r.below(sizeof bad / sizeof *bad)])) + (none ? "" : ", "));
    fs_write(path.c_str(), s); stat_add("probe: sparse data with examples that are not valid");
  }
  BinaryData *d = nullptr;
  if (g_tid < 0 && r.chance(30)) {       // missing fields, missing, cut or failing file: no data set
    int k = (int)r.below(4); IoPlan io; if (r.chance(50)) io.benign = r.next() | 1;
    size_t at = r.below(s.size() - 1); const char *what = "cut";
    if (k == 0) { fs_remove(path.c_str()); what = "missing"; stat_add("fault: missing file"); sh->faults_fired++; }
    else if (k == 1) { io.err = IO_EIO_R; io.at = at; what = "read error"; }
    else if (k == 2) { size_t e = s.find_last_of('}'); at = r.below(e); fs_write(path.c_str(), s.substr(0, at)); stat_add("fault: torn file"); sh->faults_fired++; }
    else { static const char *no[] = {"{\"data\": [[1]]}", "{\"variable_size\": 3}", "{\"variable_size\": 3, \"data\": 5}", "{\"variable_size\": 3, \"data\": {\"a\": [1]}}", "{\"variable_size\": 3, \"data\": null}"}; fs_write(path.c_str(), no[r.below(5)]); what = "a field is missing or no list"; }
    W.activity("C19", "sparse data file, %s", what); sh->nontrivial++;
    SubResult q = subprocess([&] { BinaryData *x = nullptr; bool thrown = false; try { Lib l; x = BinaryData::ReadSparseDataJsonFile(path.c_str()); } catch (const std::exception &) { thrown = true; } if (thrown || !x) _exit(1);
      fs_clear_plan(); std::string e = multi_diff(*x, want, cols); if (k == 3 || !e.empty()) W.bad("C19", "silent-read", fmt("sparse data file, %s: a data set was returned without an error (%s)", what, e.c_str()), true); }, &io);
    note_io("read error");
    if (q.hang) W.bad("C19", "hang", "reading a sparse data file makes no progress", true);
    hash_mix((uint64_t)(q.exited ? q.code : 1000 + q.sig));
    return;
  }
  W.activity("C19", "sparse data file of %zu bytes", s.size()); sh->nontrivial++;
  if (!benign_call(W, r, [&] { d = BinaryData::ReadSparseDataJsonFile(path.c_str()); })) return;
  if (!d) { W.bad("C19", "json", "a correct sparse data file was refused", true); return; }
  std::string e = multi_diff(*d, want, cols); if (!e.empty()) W.bad("C19", "json", "sparse data file: " + e, true);
  if (d->variable_size() != cols) W.bad("C19", "json", "variable_size of a sparse data file", true);
  if (r.chance(40) && d->data_size()) {
    std::string p2 = new_path(W, "data"); BinaryData z;
    if (benign_call(W, r, [&] { d->WriteFile(p2.c_str()); z.ReadFile(p2.c_str()); })) { e = multi_diff(z, want, cols); if (!e.empty()) W.bad("C19", "file", "sparse data written as CSV and read back: " + e, true); }
  }
  delete d;
}
OP(f_data_fault) {
  uint32_t cols; Multi want = random_multi(r, &cols, false);
  std::string path = new_path(W, "data");
  bool wr = W.prop == "C15";
  if (wr) {
    BinaryData d; d.set_variable_size(cols); for (auto &k : want) for (uintmax_t i = 0; i < k.second; i++) d.AddRecord(bits_of(k.first));
    uint64_t bytes = 0; for (auto &k : want) bytes += k.second * (2 * cols);
    IoPlan io; static const int errs[] = {IO_ENOSPC, IO_EIO_W, IO_CLOSE, IO_OPEN_W}; io.err = errs[r.below(4)]; io.at = r.below(bytes); if (r.chance(30)) io.once = true; if (r.chance(50)) io.benign = r.next() | 1;
    W.activity("C15", "write a data file, %s at byte %lu of %lu", io_name(io.err), io.at, bytes); sh->nontrivial++;
    SubResult s = subprocess([&] { Lib l; d.WriteFile(path.c_str()); }, &io);
    bool struck = sh->io.errs > 0; note_io(io_name(io.err));
    hash_mix((uint64_t)(s.exited ? s.code : 1000 + s.sig));
    if (s.hang) W.bad("C15", "hang", "writing a data file makes no progress", true);
    bool whole = false; if (struck && s.ok() && io.once && io.err <= IO_EIO_W) { subprocess([&] { BinaryData z; { Lib l; z.ReadFile(path.c_str()); } if (!multi_diff(z, want, cols).empty()) _exit(1); }, nullptr).ok() ? (void)(whole = true) : (void)0; }
    if (struck && s.ok() && !whole) W.bad("C15", "silent-write", fmt("data file, %s at byte %lu of %lu: the writer reports success", io_name(io.err), io.at, bytes), true);
    return;
  }
  std::string s = csv_text(r, want, cols); fs_write(path.c_str(), s);
  if (r.chance(25)) {       // a row of another length: an error
    std::vector<size_t> e; for (size_t i = 0; i < s.size(); i++) if (s[i] == '\n' && i && s[i - 1] != '\n') e.push_back(i && s[i - 1] == '\r' ? i - 1 : i);
    if (e.size() < 2 || cols < 2) return;
    size_t j = 1 + r.below(e.size() - 1), b = e[j - 1] + (s[e[j - 1]] == '\r' ? 2 : 1); bool more = r.chance(50); if (!more && s[b] == '"') return;
    if (more) s.insert(e[j], r.chance(50) ? ",1" : ",0"); else { size_t c = s.find(',', b); if (c == std::string::npos || c >= e[j]) return; s.erase(b, c + 1 - b); }
    fs_write(path.c_str(), s); W.activity("C19", "data file with a row of another length"); sh->nontrivial++; stat_add("fault: row of another length"); sh->faults_fired++;
    SubResult q = subprocess([&] { BinaryData d; bool thrown = false; try { Lib l; d.ReadFile(path.c_str()); } catch (const std::exception &) { thrown = true; } if (thrown) _exit(1); }, nullptr);
    hash_mix((uint64_t)(q.exited ? q.code : 1000 + q.sig));
    if (q.hang) W.bad("C19", "hang", "reading a data file makes no progress", true);
    if (q.ok()) W.bad("C19", "silent-read", fmt("a data file whose row %zu has one field %s is read without an error", j, more ? "more" : "less"), true);
    return;
  }
  int k = (int)r.below(5); IoPlan io; if (r.chance(50)) io.benign = r.next() | 1;
  if (k == 0) { fs_remove(path.c_str()); stat_add("fault: missing file"); sh->faults_fired++; }
  else { io.err = k == 1 ? IO_OPEN : IO_EIO_R; io.at = r.below(s.size() + 1); if (r.chance(30)) io.once = true; }
  const char *what = k == 0 ? "missing" : io_name(io.err);
  W.activity("C19", "data file, %s at byte %lu of %zu", what, io.at, s.size()); sh->nontrivial++;
  SubResult q = subprocess([&] { BinaryData d; bool thrown = false; try { Lib l; d.ReadFile(path.c_str()); } catch (const std::exception &) { thrown = true; } if (thrown) _exit(1);
    fs_clear_plan(); std::string e = multi_diff(d, want, cols); if (!e.empty()) W.bad("C19", "silent-read", fmt("data file, %s at byte %lu of %zu: reading reports success (%s)", what, io.at, s.size(), e.c_str()), true); }, &io);
  note_io(io_name(io.err));
  hash_mix((uint64_t)(q.exited ? q.code : 1000 + q.sig));
  if (q.hang) W.bad("C19", "hang", fmt("data file, %s: no progress", what), true);
}

// ---------------------------------------------------------------- the reader of separated values itself (C19)
typedef std::vector<std::string> Row;
static std::string csv_rows(Rng &r, std::vector<Row> &rows, char delim, std::vector<size_t> &ends) {
  static const int lens[] = {0, 1, 1, 2, 3, 5, 9, 61, 62, 63, 64, 65, 126, 127, 128, 129, 254, 255, 256, 1000};
  size_t R = r.chance(4) ? 200 + r.below(1500) : r.below(7); int kind = (int)r.below(5); bool crlf = r.chance(30), last = r.chance(70); std::string s;
  for (size_t i = 0; i < R; i++) {
    static const int counts[] = {1, 1, 2, 3, 4, 7, 63, 64, 65, 127, 128, 129, 192, 300};
    size_t F = (size_t)counts[r.below(R < 100 && r.chance(15) ? 14 : 6)]; Row row;
    for (size_t k = 0; k < F; k++) {
      int n = lens[r.below(F > 10 ? 7 : r.chance(25) ? 20 : 7)]; if (R < 10 && r.chance(1)) n = 30000 + (int)r.below(50000); std::string f;
      for (int j = 0; j < n; j++) {
        char c; do switch (kind) { case 0: c = r.chance(50) ? '0' : '1'; break; case 1: c = (char)('a' + r.below(26)); break; case 2: { static const char special[] = "\"\",\n; \tx"; c = r.chance(15) ? delim : special[r.below(8)]; break; } default: c = (char)(1 + r.below(254)); } while (c == '\r');
        f += c;
      }
      bool q = r.chance(20); for (char c : f) if (c == '"' || c == '\n' || c == delim) q = true;
      if (k) s += delim;
      if (q) { s += '"'; for (char c : f) { if (c == '"') s += '"'; s += c; } s += '"'; } else s += f;
      if (i + 1 == R && F == 1 && f.empty() && !q) last = true;
      row.push_back(f);
    }
    rows.push_back(row);
    if (i + 1 < R || last) s += crlf ? "\r\n" : "\n";
    ends.push_back(s.size());
  }
  return s;
}
static std::string row_diff(const CsvRow *g, const Row &w) {
  if (!g) return "no row is returned";
  int n = CsvParser_getNumFields(g); if ((size_t)n != w.size()) return fmt("%d fields instead of %zu", n, w.size());
  const char **f = CsvParser_getFields(g);
  for (int i = 0; i < n; i++) if (w[(size_t)i] != f[i]) return fmt("field %d is of %zu characters instead of %zu or has others", i, strlen(f[i]), w[(size_t)i].size());
  return "";
}
OP(f_csv) {
  static const char delims[] = {',', ',', ';', '\t', '|', ' ', ':'}; char delim = delims[r.below(7)]; char dl[2] = {delim, 0};
  std::vector<Row> rows; std::vector<size_t> ends; std::string s = csv_rows(r, rows, delim, ends); bool str = r.chance(40), head = r.chance(35), ask = head && r.chance(50), dflt = delim == ',' && r.chance(50);
  sh->nontrivial++; hash_mix(s.size());
  int k = r.chance(35) ? 1 + (int)r.below(7) : 0;
  std::string path = new_path(W, "csv");
  if (k == 7) {                 // cut anywhere, inside quotes too: the rows before the cut, at most one more, and an end
    size_t cut = r.below(s.size() + 1); s.resize(cut); fs_write(path.c_str(), s); W.activity("C19", "CSV reader, input cut at byte %zu", cut); sh->faults_fired++; stat_add("fault: torn file");
    SubResult q = subprocess([&] {
      long live = g_arena_live; CsvParser *p; { Lib l; p = str ? CsvParser_new_from_string(s.c_str(), dl, 0) : CsvParser_new(path.c_str(), dl, 0); }
      for (size_t i = 0;; i++) {
        CsvRow *g; { Lib l; g = CsvParser_getRow(p); } bool whole = i < rows.size() && ends[i] <= cut;
        if (!g) { const char *m = CsvParser_getErrorMessage(p); if (whole || !m || strcmp(m, "Reached EOF")) W.bad("C19", "csv", fmt("input cut at byte %zu: the CSV reader stops at row %zu", cut, i), true); break; }
        if (i && !whole && ends[i - 1] > cut) W.bad("C19", "csv", "input cut short: a row is returned after the last one", true);
        if (whole) { std::string e = row_diff(g, rows[i]); if (!e.empty()) W.bad("C19", "csv", fmt("input cut at byte %zu: row %zu: ", cut, i) + e, true); }
        if (i > rows.size()) { W.bad("C19", "csv", "input cut short: rows without end", true); break; }
        { Lib l; CsvParser_destroy_row(g); }
      }
      { Lib l; CsvParser_destroy(p); }
      if (g_arena_live != live) W.bad("C19", "leak", "a CSV reader of a cut input leaves memory behind", true); }, nullptr);
    hash_mix((uint64_t)(q.exited ? q.code : 1000 + q.sig));
    if (q.hang) W.bad("C19", "hang", "reading a cut CSV input makes no progress", true);
    if (!q.ok()) W.bad("C19", "csv", "the CSV reader ends the process at a cut input", true);
    return;
  }
  if (k == 6) {                 // nothing to read from at all
    W.activity("C19", "CSV reader without an input"); sh->faults_fired++; stat_add("fault: no input");
    SubResult q = subprocess([&] {
      long live = g_arena_live;
      { Lib l; CsvParser_destroy(nullptr); CsvParser *p = str ? CsvParser_new_from_string(nullptr, dl, head) : CsvParser_new(nullptr, dl, head);
        for (int i = 0; i < 2; i++) { const CsvRow *g = i == 0 && head ? CsvParser_getHeader(p) : CsvParser_getRow(p); const char *m = CsvParser_getErrorMessage(p); if (g || !m || strcmp(m, str ? "Supplied CSV string is NULL" : "Supplied CSV file path is NULL")) { NoLib nl; W.bad("C19", "csv", "a CSV reader without an input does not say so", true); } }
        CsvParser_destroy(p); }
      if (g_arena_live != live) W.bad("C19", "leak", "a CSV reader without an input leaves memory behind", true); }, nullptr);
    if (!q.ok()) W.bad("C19", "csv", "the CSV reader ends the process when it has no input", true);
    return;
  }
  if (k == 1 || k == 2) {       // refused: no such file (its name may be long), or a delimiter that cannot be one
    if (k == 1) { fs_remove(path.c_str()); if (r.chance(50)) path += std::string(1 + r.below(r.chance(50) ? 200 : 3000), 'q'); stat_add("fault: missing file"); } else { fs_write(path.c_str(), s); stat_add("fault: separator refused"); }
    static const char *refused[] = {"\n", "\r", "", "\""}; const char *rd = refused[r.below(4)]; if (k == 2 && str) path = s;
    W.activity("C19", "CSV reader, %s", k == 1 ? "missing file" : "impossible separator"); sh->faults_fired++;
    bool hdr = r.chance(50);
    SubResult q = subprocess([&] {
      CsvParser *p; CsvRow *g; const CsvRow *h = nullptr; std::string e;
      { Lib l; p = k == 2 && str ? CsvParser_new_from_string(path.c_str(), rd, head) : CsvParser_new(path.c_str(), k == 1 ? dl : rd, head); if (hdr && head) h = CsvParser_getHeader(p); g = CsvParser_getRow(p); const char *m = CsvParser_getErrorMessage(p); e = m ? m : ""; }
      if (g || h) W.bad("C19", "csv", "the CSV reader returns a row of a file it cannot read", true);
      std::string want = k == 1 ? "Error opening CSV file for reading: " + path : "Supplied delimiter is not supported";
      if (e.compare(0, want.size(), want)) W.bad("C19", "csv", "the CSV reader's message: " + e.substr(0, 60), true);
      { Lib l; CsvParser_destroy(p); }
      long live = 0; for (int i = 0; i < 2; i++) { Lib l; live = g_arena_live; p = CsvParser_new(path.c_str(), k == 1 ? dl : rd, head); CsvParser_getRow(p); CsvParser_getRow(p); CsvParser_destroy(p); live = g_arena_live - live; }
      if (live) W.bad("C19", "leak", "a CSV reader that cannot read leaves memory behind", true); }, nullptr);
    hash_mix((uint64_t)(q.exited ? q.code : 1000 + q.sig));
    if (!q.ok()) W.bad("C19", "csv", "the CSV reader ends the process when it cannot read", true);
    return;
  }
  if (k >= 3 && !s.empty()) {   // a read error: correct rows, then none and a message
    fs_write(path.c_str(), s); IoPlan io; io.err = IO_EIO_R; io.at = r.below(s.size() + 1); if (r.chance(50)) io.benign = r.next() | 1;
    W.activity("C19", "CSV reader, read error at byte %lu of %zu", io.at, s.size());
    SubResult q = subprocess([&] {
      long live = g_arena_live; CsvParser *p; { Lib l; p = CsvParser_new(path.c_str(), dl, 0); }
      for (size_t i = 0;; i++) {
        CsvRow *g; { Lib l; g = CsvParser_getRow(p); }
        if (!g) { const char *m = CsvParser_getErrorMessage(p); if (!m || strcmp(m, i < rows.size() ? "Error reading CSV file" : "Reached EOF")) { if (i < rows.size() || !m || strcmp(m, "Error reading CSV file")) W.bad("C19", "csv", fmt("read error: the CSV reader stops after %zu of %zu rows without saying so", i, rows.size()), true); } break; }
        if (i >= rows.size()) W.bad("C19", "csv", "read error: more rows than the file has", true);
        std::string e = row_diff(g, rows[i]); if (!e.empty()) W.bad("C19", "csv", fmt("read error: row %zu: ", i) + e, true);
        { Lib l; CsvParser_destroy_row(g); }
      }
      { Lib l; CsvParser_destroy(p); }
      if (g_arena_live != live) W.bad("C19", "leak", "a CSV reader that met a read error leaves memory behind", true); }, &io);
    note_io("read error");
    hash_mix((uint64_t)(q.exited ? q.code : 1000 + q.sig));
    if (q.hang) W.bad("C19", "hang", "reading separated values makes no progress", true);
    if (!q.ok()) W.bad("C19", "csv", "the CSV reader ends the process at a read error", true);
    return;
  }
  fs_write(path.c_str(), s);
  W.activity("C19", "CSV reader, %zu rows in %zu bytes of a %s%s", rows.size(), s.size(), str ? "string" : "file", head ? " with a header" : "");
  CsvParser *p = nullptr; std::vector<CsvRow *> got; std::vector<std::string> msg; const CsvRow *h1 = nullptr, *h2 = nullptr; std::string hm;
  size_t most = rows.size() + 3;
  if (!benign_call(W, r, [&] {
    p = str ? CsvParser_new_from_string(s.c_str(), dflt ? nullptr : dl, head) : CsvParser_new(path.c_str(), dflt ? nullptr : dl, head);
    if (ask) h1 = CsvParser_getHeader(p);
    while (got.size() < most) { CsvRow *g = CsvParser_getRow(p); got.push_back(g); if (!g) { const char *m = CsvParser_getErrorMessage(p); msg.push_back(m ? m : ""); if (msg.size() == 3) break; } }
    h2 = CsvParser_getHeader(p); const char *m = CsvParser_getErrorMessage(p); if (!head) hm = m ? m : "";
  })) return;
  size_t off = head && !rows.empty() ? 1 : 0;
  for (size_t i = off; i < rows.size(); i++) { std::string e = i - off < got.size() ? row_diff(got[i - off], rows[i]) : "missing"; if (!e.empty()) W.bad("C19", "csv", fmt("CSV row %zu of %zu: ", i, rows.size()) + e, true); }
  for (size_t i = rows.size() - off; i < got.size(); i++) if (got[i]) W.bad("C19", "csv", fmt("CSV input of %zu rows: a row is returned after the last one", rows.size()), true);
  if (msg.empty()) W.bad("C19", "csv", "the CSV reader does not report the end", true);
  for (auto &m : msg) if (m != "Reached EOF") W.bad("C19", "csv", "at the end the CSV reader says: " + m.substr(0, 60), true);
  if (!head) { if (h2 || hm.compare(0, 20, "Cannot supply header")) W.bad("C19", "csv", "a header is returned where there is none", true); }
  else if (rows.empty()) { if (h1 || h2) W.bad("C19", "csv", "a header is returned from an empty input", true); }
  else { std::string e = row_diff(h2, rows[0]); if (!e.empty()) W.bad("C19", "csv", "CSV header: " + e, true); if (ask && h1 != h2) W.bad("C19", "csv", "two different headers", true); }
  { Lib l; for (CsvRow *g : got) if (g) CsvParser_destroy_row(g); CsvParser_destroy(p); }
  long live = 0;            // what the reader takes it gives back
  for (int i = 0; i < 2; i++) {
    Lib l; live = g_arena_live; p = str ? CsvParser_new_from_string(s.c_str(), dl, head) : CsvParser_new(path.c_str(), dl, head); if (ask) CsvParser_getHeader(p);
    size_t stop = r.below(rows.size() + 2); for (size_t j = 0; j < stop; j++) { CsvRow *g = CsvParser_getRow(p); if (g) CsvParser_destroy_row(g); }
    CsvParser_destroy(p); live = g_arena_live - live;
  }
  if (live) W.bad("C19", "leak", fmt("a CSV reader leaves %ld blocks of memory behind when it is destroyed", live), true);
}

// ---------------------------------------------------------------- network files (C20)
RawNet raw_net(Rng &r) {
  RawNet n; n.vars = 1 + (int)r.below(r.chance(20) ? 12 : 6); n.bayes = r.chance(40);
  int F = r.chance(1) ? 0 : 1 + (int)r.below(5);
  int big = r.chance(3) ? 1 + (int)r.below(3) : 0;    // a table of up to 4096 entries, many factors, many variables
  if (big == 1) n.vars = 8 + (int)r.below(5); else if (big == 2) F = 60 + (int)r.below(300); else if (big == 3) { n.vars = 60 + (int)r.below(1200); if (r.chance(12)) n.vars = 32000 + (int)r.below(40000); }
  for (int i = 0; i < F; i++) {
    std::vector<size_t> v; for (int k = 0; k < n.vars; k++) v.push_back((size_t)k);
    for (size_t j = v.size(); j-- > 1;) std::swap(v[j], v[r.below(j + 1)]);
    if (big == 1 && i == 0) v.resize(7 + r.below((uint64_t)n.vars - 6)); else v.resize(r.chance(4) ? 0 : 1 + r.below((uint64_t)std::min(n.vars, 4)));
    std::vector<std::string> e;
    for (size_t k = 0; k < ((size_t)1 << v.size()); k++) {
      switch (r.below(6)) { case 0: e.push_back("0"); break; case 1: e.push_back("1"); break; case 2: e.push_back(fmt("%.3g", r.real() * 100)); break; case 3: e.push_back(fmt("%e", r.real() * std::pow(10, -20 * r.real()))); break; case 4: e.push_back(fmt("0.%04d", (int)r.below(10000))); break; default: e.push_back(fmt("%.17g", r.real())); }
    }
    if (g_tid < 0) { uint64_t h = 7; for (size_t x : v) h = mix64(h * 31 + x); sh->shape = mix64(sh->shape ^ h); }
    n.scopes.push_back(v); n.entries.push_back(e);
  }
  return n;
}
std::string raw_text(Rng &r, const RawNet &n, size_t *last_entry) {
  std::string s = n.bayes ? "BAYES" : "MARKOV"; static const char *tails[] = {" ", "\t", "\r", "  "}; if (r.chance(30)) s += tails[r.below(4)]; s += "\n"; if (r.chance(10)) s += " "; s += std::to_string(n.vars); if (r.chance(15)) s += tails[r.below(4)]; s += "\n";
  for (int i = 0; i < n.vars; i++) s += i ? " 2" : "2"; if (r.chance(15)) s += tails[r.below(4)]; s += "\n"; *last_entry = s.size(); s += std::to_string(n.scopes.size()); if (r.chance(15)) s += tails[r.below(4)]; s += "\n";
  for (auto &v : n.scopes) { s += std::to_string(v.size()); for (size_t x : v) s += (r.chance(10) ? "  " : " ") + std::to_string(x); if (r.chance(10)) s += " "; s += "\n"; }
  int lay = (int)r.below(4), blank = r.chance(70);
  for (size_t i = 0; i < n.entries.size(); i++) {
    if (blank) { if (r.chance(8)) s += tails[r.below(4)]; s += "\n"; if (r.chance(15)) s += "\n"; }
    s += std::to_string(n.entries[i].size()); if (lay == 0) s += " "; else { s += "\n"; if (lay == 1) s += " "; }
    for (size_t k = 0; k < n.entries[i].size(); k++) {
      *last_entry = s.size(); s += n.entries[i][k];
      bool end = k + 1 == n.entries[i].size();
      if (end) s += "\n"; else if (lay == 2 && r.chance(40)) { s += "\n"; if (r.chance(20)) s += "\n"; } else if (lay == 3) s += "\n"; else s += r.chance(15) ? "  " : " ";
    }
  }
  if (r.chance(20)) s.pop_back();
  if (r.chance(20)) s += "\n\n";
  if (r.chance(6)) {       // as another system ends its lines
    std::string t; size_t l = *last_entry; for (size_t i = 0; i < s.size(); i++) { if (i == *last_entry) l = t.size(); if (s[i] == '\n' && (!i || s[i - 1] != '\r')) t += '\r'; t += s[i]; }
    s = t; *last_entry = l; stat_add("probe: network file with carriage returns");
  }
  return s;
}
static std::string net_diff(UaiNetwork &u, const RawNet &n) {
  if (u.var_size() != (size_t)n.vars) return fmt("%zu variables instead of %d", u.var_size(), n.vars);
  if (u.factor_size() != n.scopes.size()) return fmt("%zu factors instead of %zu", u.factor_size(), n.scopes.size());
  if (u.network_type() != (n.bayes ? BAYESIAN_NETWORK_TYPE : MARKOV_NETWORK_TYPE)) return "another network type";
  if (u.factor_scopes().size() != n.scopes.size() || u.params().size() != n.scopes.size()) return fmt("%zu scopes and %zu tables for %zu factors", u.factor_scopes().size(), u.params().size(), n.scopes.size());
  for (size_t i = 0; i < n.scopes.size(); i++) {
    auto w = n.scopes[i]; for (auto &x : w) x++;
    if (u.factor_scopes()[i] != w) return fmt("scope of factor %zu", i);
    if (u.params()[i].size() != n.entries[i].size()) return fmt("factor %zu has %zu entries instead of %zu", i, u.params()[i].size(), n.entries[i].size());
    for (size_t k = 0; k < n.entries[i].size(); k++) { double got = u.params()[i][k].parameter(), want = std::log(strtod(n.entries[i][k].c_str(), nullptr)); if (!(got == want || std::fabs(got - want) < 1e-9)) return fmt("entry %zu of factor %zu is exp(%.12g) instead of %s", k, i, got, n.entries[i][k].c_str()); }
  }
  return "";
}
OP(f_uai) {
  UaiNetwork *u = new UaiNetwork; int reps = r.chance(30) ? 2 : 1;
  for (int k = 0; k < reps; k++) {       // the second file goes into the same object
    RawNet n = raw_net(r); size_t last; std::string s = raw_text(r, n, &last), path = new_path(W, "uai"); fs_write(path.c_str(), s); hash_mix(s.size());
    W.activity("C20", "network file of %zu bytes%s", s.size(), k ? " into a used object" : ""); sh->nontrivial++;
    if (!benign_call(W, r, [&] { u->read_file(path.c_str()); })) break;
    std::string e = net_diff(*u, n); if (!e.empty()) W.bad("C20", "content", fmt("network file%s: ", k ? " read into a used object" : "") + e, true);
  }
  delete u;
}
OP(f_uai_fault) {
  if (r.chance(15)) {       // a file that is no network of binary variables
    RawNet n = raw_net(r); if (n.scopes.empty()) return; size_t last, f = r.below(n.scopes.size()); const char *what; int k = (int)r.below(5); IoPlan io; if (r.chance(50)) io.benign = r.next() | 1;
    if (k == 0 && n.scopes[f].empty()) k = 1;
    if (k == 0) { size_t j = r.below(n.scopes[f].size()); n.scopes[f][j] = (size_t)n.vars + (r.chance(60) ? 0 : r.below(100000)); what = "a scope with an unknown variable"; }
    else if (k == 1) { if (r.chance(50) || n.entries[f].size() < 2) n.entries[f].push_back("0.5"); else n.entries[f].pop_back(); what = "a table of another size"; }
    else if (k < 4) { static const char *no[] = {"x", "0.5y", "-", "1,5", "nan", "#"}; n.entries[f][r.below(n.entries[f].size())] = no[r.below(6)]; what = "an entry that is no number"; }
    else what = "a scope of another length";
    std::string s = raw_text(r, n, &last), path = new_path(W, "uai");
    if (k == 4) { size_t p = 0; for (size_t i = 0; i < 4 + f; i++) p = s.find('\n', p) + 1; size_t e = p; while (isdigit((unsigned char)s[e])) e++; long c = (long)n.scopes[f].size(); s.replace(p, e - p, std::to_string(c && r.chance(50) ? c - 1 : c + 1)); }
    fs_write(path.c_str(), s); stat_add("fault: malformed network file"); sh->faults_fired++; sh->nontrivial++;
    W.activity("C20", "network file with %s", what);
    SubResult q = subprocess([&] { UaiNetwork u; bool thrown = false; try { Lib l; u.read_file(path.c_str()); } catch (const std::exception &) { thrown = true; } if (thrown) _exit(1);
      W.bad("C20", "malformed", fmt("a network file with %s is read as a network", what), true); }, &io, false, 2);
    hash_mix((uint64_t)(q.exited ? q.code : 1000 + q.sig)); if (q.hang) W.bad("C20", "hang", fmt("network file with %s: no progress", what), true);
    return;
  }
  RawNet n = raw_net(r); size_t last; std::string s = raw_text(r, n, &last), path = new_path(W, "uai"); fs_write(path.c_str(), s);
  int k = (int)r.below(8); IoPlan io; if (r.chance(50)) io.benign = r.next() | 1;
  const char *what; uint64_t at = r.below(last + 1); bool must = true;
  if (k == 0) { fs_remove(path.c_str()); what = "missing"; stat_add("fault: missing file"); sh->faults_fired++; }
  else if (k == 1) { io.err = IO_OPEN; what = "open fails"; }
  else if (k < 5) { if (r.chance(40)) { std::vector<size_t> p; for (size_t i = 0; i < last; i++) if (s[i] == '\n') p.push_back(i + (r.chance(50) ? 1 : 0)); at = std::min<uint64_t>(p[r.below(p.size())], last); } fs_write(path.c_str(), s.substr(0, at)); what = "cut short"; stat_add("fault: torn file"); sh->faults_fired++; }
  else { io.err = IO_EIO_R; io.at = at = r.below(s.size() + 1); what = "read error"; if (r.chance(30)) io.once = true; must = at <= last && !io.once; }
  W.activity("C20", "network file %s at byte %lu of %zu", what, at, s.size()); sh->nontrivial++;
  SubResult q = subprocess([&] { UaiNetwork u; bool thrown = false; try { Lib l; u.read_file(path.c_str()); } catch (const std::exception &) { thrown = true; } if (thrown) _exit(1);
    fs_clear_plan(); std::string e = net_diff(u, n); if (must || !e.empty()) W.bad("C20", "silent-read", fmt("network file %s at byte %lu of %zu: reading reports success (%s)", what, at, s.size(), e.c_str()), true); }, &io, false, 2);
  note_io(io_name(io.err));
  hash_mix((uint64_t)(q.exited ? q.code : 1000 + q.sig));
  if (q.hang) W.bad("C20", "hang", fmt("network file %s at byte %lu of %zu: no progress", what, at, s.size()), true);
}
}  // namespace sim
