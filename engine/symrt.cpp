// symx runtime: shadow expressions, path exploration by fork(), SMT queries through z3.
#include "z3++.h"
#include <gmpxx.h>
#include <algorithm>
#include <array>
#include <atomic>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
#include <cerrno>
#include <csignal>
#include <ctime>
#include <fcntl.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <malloc.h>

typedef uint64_t u64; typedef int64_t i64; typedef uint8_t u8; typedef __int128 i128;
using std::string; using std::vector;

static int g_rt = 1;                       // >0: inside the runtime (or before main)
struct RT { RT() { g_rt++; } ~RT() { g_rt--; } };

// ------------------------------------------------------------------ shared statistics
struct Shared {
  sem_t tokens;
  std::atomic<long> paths, forks, branches, forced, queries, q_sat, q_unsat, q_unknown, checks, checks_static, checks_solver, checks_unknown,
      cands, incomplete, assumed_out, conc, procs, solver_us, skipped, modelhits, cachehits, feas_unknown, exhausted, confirmed;
  std::atomic<int> stop, lock, nmsg, nreach, nunsup, nnote, nconf; std::atomic<long> wit;
  struct Msg { char s[200]; std::atomic<long> n; std::atomic<long> ok, unk, bad; } msgs[256];
  Msg reach[128]; Msg unsup[64]; Msg notes[32]; Msg conf[256];
  double deadline;
};
static Shared *G;
static double now() { timeval t; gettimeofday(&t, 0); return t.tv_sec + t.tv_usec * 1e-6; }
static void lockG() { int z = 0; while (!G->lock.compare_exchange_weak(z, 1)) { z = 0; usleep(50); } }
static void unlockG() { G->lock = 0; }
static Shared::Msg *slot(Shared::Msg *a, std::atomic<int> &n, int cap, const char *s) {
  lockG(); Shared::Msg *r = nullptr;
  for (int i = 0; i < n; i++) if (!strncmp(a[i].s, s, 199)) { r = &a[i]; break; }
  if (!r) { if (n < cap) { r = &a[n]; strncpy(r->s, s, 199); n++; } else r = &a[cap - 1]; }
  unlockG(); return r;
}
static string g_out = "."; static int g_ieee = 0; static long g_rlimit = 20000000; static int g_verbose = 0;
static long g_maxcand = 6, g_maxwit = 6;
static bool g_hold = false;                // holds a token
static vector<pid_t> g_kids;
static u64 g_pathhash = 1469598103934665603ull;

// ------------------------------------------------------------------ expressions
enum Kind : u8 { K_ICONST, K_IVAR, K_IBIN, K_ICMP, K_RCMP, K_ICAST, K_IITE, K_R2I, K_FPBITS, K_CONCAT, K_EXTRACT, K_BNOT, K_BAND, K_BOR,
                 K_RPOLY, K_RINF, K_RNAN, K_FVAR, K_FCONST, K_FOP, K_FCMP, K_FITE, K_I2F, K_F2I };
enum { OP_ADD = 13, OP_FADD = 14, OP_SUB = 15, OP_FSUB = 16, OP_MUL = 17, OP_FMUL = 18, OP_UDIV = 19, OP_SDIV = 20, OP_FDIV = 21, OP_UREM = 22,
       OP_SREM = 23, OP_FREM = 24, OP_SHL = 25, OP_LSHR = 26, OP_ASHR = 27, OP_AND = 28, OP_OR = 29, OP_XOR = 30 };
enum { C_TRUNC = 38, C_ZEXT = 39, C_SEXT = 40, C_FPTOUI = 41, C_FPTOSI = 42, C_UITOFP = 43, C_SITOFP = 44, C_FPTRUNC = 45, C_FPEXT = 46, C_BITCAST = 49 };
enum { P_EQ = 32, P_NE, P_UGT, P_UGE, P_ULT, P_ULE, P_SGT, P_SGE, P_SLT, P_SLE };
enum { R_LT = 0, R_LE = 1, R_EQ = 2, R_NE = 3 };
typedef std::array<u64, 4> Sup;
static Sup sor(const Sup &a, const Sup &b) { return Sup{a[0] | b[0], a[1] | b[1], a[2] | b[2], a[3] | b[3]}; }
static bool sinter(const Sup &a, const Sup &b) { return (a[0] & b[0]) | (a[1] & b[1]) | (a[2] & b[2]) | (a[3] & b[3]); }
struct Poly;
struct Expr { Kind k; u8 w; int op; int id; Expr *a, *b, *c; u64 v; Poly *p; i128 lo, hi; Sup sup; };

struct Var { string name; bool real; double dlo, dhi; mpq_class lo, hi; i64 ilo, ihi; Expr *e; bool draw; int atom; };
static vector<Var> vars;

static i64 sx(u64 v, int w) { return w >= 64 ? (i64)v : ((i64)(v << (64 - w))) >> (64 - w); }
static u64 mk(u64 v, int w) { return w >= 64 ? v : v & ((1ull << w) - 1); }
static i128 smin(int w) { return -((i128)1 << (w - 1)); }
static i128 smax(int w) { return ((i128)1 << (w - 1)) - 1; }

struct Key { u64 h[6]; bool operator==(const Key &o) const { return !memcmp(h, o.h, sizeof h); } };
struct KeyH { size_t operator()(const Key &k) const { u64 r = 14695981039346656037ull; for (u64 x : k.h) r = (r ^ x) * 1099511628211ull, r ^= r >> 29; return r; } };
static std::unordered_map<Key, Expr *, KeyH> htab;
static int g_nid = 0;
static Expr *mkE(Kind k, int w, int op, Expr *a, Expr *b, Expr *c, u64 v, Poly *p);

// ------------------------------------------------------------------ polynomials over the reals
struct Mono { int id; vector<std::pair<int, int>> f; Sup sup; bool negsum; };
struct Term { Mono *m; mpq_class c; };
struct Poly { int id; vector<Term> t; Sup sup; bool hasneg; };
enum AK : u8 { A_VAR, A_SUM, A_SQRT, A_LOG, A_EXP, A_ITE, A_I2R, A_FLOOR, A_UF };
struct Atom { AK k; int var; Poly *p, *q; Expr *e; string nm; Sup sup; };
static vector<Atom> atoms;
static std::map<vector<std::pair<int, int>>, Mono *> mtab;
static vector<Poly *> polys;
static std::unordered_map<size_t, vector<Poly *>> ptab;
struct Unsup { string s; };
static size_t g_termcap = 4000;

static Mono *mono(vector<std::pair<int, int>> f) {
  auto it = mtab.find(f); if (it != mtab.end()) return it->second;
  Mono *m = new Mono; m->id = mtab.size(); m->f = f; m->sup = Sup{}; m->negsum = false;
  for (auto &x : f) { m->sup = sor(m->sup, atoms[x.first].sup); if (x.second < 0 && atoms[x.first].k == A_SUM) m->negsum = true; }
  mtab[f] = m; return m;
}
typedef std::map<int, std::pair<Mono *, mpq_class>> Acc;
static void accAdd(Acc &A, Mono *m, const mpq_class &c) {
  if (c == 0) return;
  auto it = A.find(m->id);
  if (it == A.end()) A[m->id] = {m, c};
  else { it->second.second += c; if (it->second.second == 0) A.erase(it); }
  if (A.size() > g_termcap) throw Unsup{"expression too large"};
}
static Poly *internPoly(Acc &A) {
  size_t h = 77; for (auto &x : A) { h = h * 1000003 + x.first; h = h * 31 + mpz_get_si(x.second.second.get_num_mpz_t()) * 7 + mpz_get_si(x.second.second.get_den_mpz_t()); }
  auto &b = ptab[h];
  for (Poly *p : b) if (p->t.size() == A.size()) {
    bool eq = true; size_t i = 0;
    for (auto &x : A) { if (p->t[i].m != x.second.first || p->t[i].c != x.second.second) { eq = false; break; } i++; }
    if (eq) return p;
  }
  Poly *p = new Poly; p->id = polys.size(); p->sup = Sup{}; p->hasneg = false;
  for (auto &x : A) { p->t.push_back({x.second.first, x.second.second}); p->sup = sor(p->sup, x.second.first->sup); p->hasneg |= x.second.first->negsum; }
  polys.push_back(p); b.push_back(p); return p;
}
static Poly *pconst(const mpq_class &c) { Acc A; accAdd(A, mono({}), c); return internPoly(A); }
static Poly *patom(int a) { Acc A; accAdd(A, mono({{a, 1}}), 1); return internPoly(A); }
static bool pisconst(Poly *p) { return p->t.empty() || (p->t.size() == 1 && p->t[0].m->f.empty()); }
static mpq_class pcval(Poly *p) { return p->t.empty() ? mpq_class(0) : p->t[0].c; }
static std::map<std::array<long, 4>, int> atab;
static int atom(AK k, Poly *p, Poly *q = 0, Expr *e = 0, int var = -1, const string &nm = "") {
  std::array<long, 4> key{(long)k, (long)(p ? p->id : -1), (long)(q ? q->id : -1), (long)(e ? e->id : var + 1000000000L)};
  if (k == A_UF) key[3] = std::hash<string>()(nm);
  auto it = atab.find(key); if (it != atab.end()) return it->second;
  Atom a; a.k = k; a.p = p; a.q = q; a.e = e; a.var = var; a.nm = nm; a.sup = Sup{};
  if (p) a.sup = sor(a.sup, p->sup);
  if (q) a.sup = sor(a.sup, q->sup);
  if (e) a.sup = sor(a.sup, e->sup);
  if (var >= 0) a.sup[var / 64] |= 1ull << (var % 64);
  atoms.push_back(a); int id = atoms.size() - 1; atab[key] = id; return id;
}
static Poly *padd(Poly *a, Poly *b, const mpq_class &cb = 1);
static Poly *pmul(Poly *a, Poly *b);
static Poly *pinv(Poly *p);
static Poly *ppow(Poly *p, int n);
static Poly *cancel(Poly *p);
static Poly *pscale(Poly *a, const mpq_class &c) { Acc A; for (auto &t : a->t) accAdd(A, t.m, t.c * c); return internPoly(A); }
static Poly *pexp(Poly *p) { if (pisconst(p) && pcval(p) == 0) return pconst(1); return patom(atom(A_EXP, p)); }
// multiply monomials; adds c*result to accumulator
static void mulMono(Acc &A, Mono *x, Mono *y, const mpq_class &c) {
  if (x->f.empty()) { accAdd(A, y, c); return; }
  if (y->f.empty()) { accAdd(A, x, c); return; }
  vector<std::pair<int, int>> f; size_t i = 0, j = 0;
  while (i < x->f.size() || j < y->f.size()) {
    if (j == y->f.size() || (i < x->f.size() && x->f[i].first < y->f[j].first)) f.push_back(x->f[i++]);
    else if (i == x->f.size() || y->f[j].first < x->f[i].first) f.push_back(y->f[j++]);
    else { int e = x->f[i].second + y->f[j].second; if (e) f.push_back({x->f[i].first, e}); i++; j++; }
  }
  int nexp = 0; bool special = false;
  for (auto &z : f) { AK k = atoms[z.first].k; if (k == A_EXP) { nexp++; if (z.second != 1) special = true; } if (k == A_SQRT && (z.second > 1 || z.second < 0)) special = true; if (k == A_SUM && z.second > 0) special = true; }
  if (nexp > 1) special = true;
  if (!special) { accAdd(A, mono(f), c); return; }
  vector<std::pair<int, int>> g; Poly *extra = pconst(c); Poly *ea = nullptr;
  for (auto &z : f) {
    Atom at = atoms[z.first];
    if (at.k == A_EXP) { Poly *q = pscale(at.p, z.second); ea = ea ? padd(ea, q) : q; }
    else if (at.k == A_SQRT && (z.second > 1 || z.second < 0)) {
      int k = z.second >= 0 ? z.second / 2 : -((-z.second + 1) / 2); int r = z.second - 2 * k;
      if (r) g.push_back({z.first, r});
      extra = pmul(extra, k >= 0 ? ppow(at.p, k) : pinv(ppow(at.p, -k)));
    } else if (at.k == A_SUM && z.second > 0) extra = pmul(extra, ppow(at.p, z.second));
    else g.push_back(z);
  }
  Acc B; accAdd(B, mono(g), 1);
  Poly *r = internPoly(B);
  if (ea && !(pisconst(ea) && pcval(ea) == 0)) {
    // append the single exponential atom
    int a = atom(A_EXP, ea); vector<std::pair<int, int>> g2 = g; g2.push_back({a, 1}); std::sort(g2.begin(), g2.end());
    Acc Z; accAdd(Z, mono(g2), 1); r = internPoly(Z);
  }
  Poly *res = pmul(r, extra);
  for (auto &t : res->t) accAdd(A, t.m, t.c);
}
static Poly *padd(Poly *a, Poly *b, const mpq_class &cb) {
  Acc A; for (auto &t : a->t) accAdd(A, t.m, t.c); for (auto &t : b->t) accAdd(A, t.m, t.c * cb);
  return cancel(internPoly(A));
}
static std::map<std::pair<int, int>, Poly *> mulCache;
static Poly *pmul(Poly *a, Poly *b) {
  if (pisconst(a)) { mpq_class c = pcval(a); return c == 1 ? b : pscale(b, c); }
  if (pisconst(b)) { mpq_class c = pcval(b); return c == 1 ? a : pscale(a, c); }
  std::pair<int, int> key{std::min(a->id, b->id), std::max(a->id, b->id)};
  auto it = mulCache.find(key); if (it != mulCache.end()) return it->second;
  Acc A; for (auto &x : a->t) for (auto &y : b->t) { mpq_class c = x.c * y.c; mulMono(A, x.m, y.m, c); }
  Poly *r = cancel(internPoly(A));
  mulCache[key] = r; return r;
}
static Poly *ppow(Poly *p, int n) { if (n < 0) return pinv(ppow(p, -n)); Poly *r = pconst(1); for (int i = 0; i < n; i++) r = pmul(r, p); return r; }
// lexicographic compare of monomials on descending atom id (integer exponents, a group order)
static int lexcmp(Mono *x, Mono *y) {
  int i = (int)x->f.size() - 1, j = (int)y->f.size() - 1;
  while (i >= 0 || j >= 0) {
    int ai = i >= 0 ? x->f[i].first : -1, aj = j >= 0 ? y->f[j].first : -1;
    if (ai > aj) return x->f[i].second > 0 ? 1 : -1;
    if (aj > ai) return y->f[j].second > 0 ? -1 : 1;
    if (x->f[i].second != y->f[j].second) return x->f[i].second > y->f[j].second ? 1 : -1;
    i--; j--;
  }
  return 0;
}
static Mono *monoDiv(Mono *x, Mono *y) {
  vector<std::pair<int, int>> f; size_t i = 0, j = 0;
  while (i < x->f.size() || j < y->f.size()) {
    if (j == y->f.size() || (i < x->f.size() && x->f[i].first < y->f[j].first)) f.push_back(x->f[i++]);
    else if (i == x->f.size() || y->f[j].first < x->f[i].first) { f.push_back({y->f[j].first, -y->f[j].second}); j++; }
    else { int e = x->f[i].second - y->f[j].second; if (e) f.push_back({x->f[i].first, e}); i++; j++; }
  }
  for (auto &z : f) { AK k = atoms[z.first].k; if ((k == A_SUM && z.second > 0) || k == A_EXP || (k == A_SQRT && z.second != 1)) return nullptr; }
  return mono(f);
}
// exact division Q / p, or null
static Poly *exactDiv(Poly *Q, Poly *p) {
  if (Q == p) return pconst(1);
  if (Q->t.size() < 2) return nullptr;
  const Term *lp = &p->t[0]; for (auto &t : p->t) if (lexcmp(t.m, lp->m) > 0) lp = &t;
  Acc R; for (auto &t : Q->t) accAdd(R, t.m, t.c);
  Acc q; size_t steps = 0, cap = Q->t.size() / p->t.size() * 2 + 8;
  while (!R.empty()) {
    if (steps++ > cap || R.size() > Q->t.size() * 2 + 16) return nullptr;
    auto best = R.begin(); for (auto it = R.begin(); it != R.end(); ++it) if (lexcmp(it->second.first, best->second.first) > 0) best = it;
    Mono *m = monoDiv(best->second.first, lp->m); if (!m) return nullptr;
    mpq_class c = best->second.second / lp->c;
    accAdd(q, m, c);
    for (auto &t : p->t) { mpq_class d = -c * t.c; mulMono(R, m, t.m, d); }
  }
  return internPoly(q);
}
static std::unordered_map<int, Poly *> cancelCache;
static int cancelDepth = 0;
static Poly *cancel(Poly *p) {
  if (!p->hasneg || p->t.size() < 2) return p;
  auto it = cancelCache.find(p->id); if (it != cancelCache.end()) return it->second;
  Poly *orig = p;
  if (++cancelDepth > 40) { cancelDepth--; return p; }
  bool changed = true; int rounds = 0;
  while (changed && p->hasneg && rounds++ < 20) {
    changed = false;
    std::map<std::pair<int, int>, int, std::greater<std::pair<int, int>>> g;   // (sum atom, -exp)
    for (auto &t : p->t) for (auto &z : t.m->f) if (z.second < 0 && atoms[z.first].k == A_SUM) g[{z.first, -z.second}]++;
    for (auto &x : g) {
      int S = x.first.first, k = x.first.second; Poly *ps = atoms[S].p;
      if (x.second < 2) continue;
      Acc in, out; Mono *sm = mono({{S, -k}});
      for (auto &t : p->t) { int e = 0; for (auto &z : t.m->f) if (z.first == S) e = z.second; if (e == -k) { vector<std::pair<int, int>> f; for (auto &z : t.m->f) if (z.first != S) f.push_back(z); accAdd(in, mono(f), t.c); } else accAdd(out, t.m, t.c); }
      Poly *Q = internPoly(in); Poly *q = exactDiv(Q, ps);
      if (!q) continue;
      (void)sm; Acc A; for (auto &t : out) accAdd(A, t.second.first, t.second.second);
      Mono *sm1 = k == 1 ? mono({}) : mono({{S, -(k - 1)}});
      for (auto &t : q->t) mulMono(A, t.m, sm1, t.c);
      p = internPoly(A); changed = true; break;
    }
  }
  cancelDepth--; cancelCache[orig->id] = p; return p;
}
static Poly *pinv(Poly *p) {
  if (p->t.empty()) throw Unsup{"inverse of zero"};
  if (p->t.size() == 1) {
    vector<std::pair<int, int>> f; Poly *extra = nullptr;
    for (auto &z : p->t[0].m->f) {
      Atom a = atoms[z.first];
      if (a.k == A_EXP) { Poly *e = pexp(pscale(a.p, -z.second)); extra = extra ? pmul(extra, e) : e; }
      else if (a.k == A_SUM && z.second < 0) { Poly *e = ppow(a.p, -z.second); extra = extra ? pmul(extra, e) : e; }
      else if (a.k == A_SQRT) { Poly *e = pmul(patom(z.first), pinv(a.p)); extra = extra ? pmul(extra, e) : e; }
      else f.push_back({z.first, -z.second});
    }
    Acc A; accAdd(A, mono(f), 1 / p->t[0].c); Poly *r = internPoly(A); return extra ? pmul(r, extra) : r;
  }
  // content: common monomial
  std::map<int, int> cm; bool first = true;
  for (auto &t : p->t) {
    std::map<int, int> m; for (auto &z : t.m->f) if (atoms[z.first].k != A_EXP && atoms[z.first].k != A_SQRT) m[z.first] = z.second;
    if (first) { cm = m; first = false; continue; }
    std::map<int, int> n;
    for (auto &x : cm) { int e = m.count(x.first) ? m[x.first] : 0; int r = std::min(x.second, e); if (r) n[x.first] = r; }
    for (auto &x : m) if (!cm.count(x.first)) { int r = std::min(0, x.second); if (r) n[x.first] = r; }
    cm = n;
  }
  vector<std::pair<int, int>> cf(cm.begin(), cm.end()); Mono *c = mono(cf);
  Acc A; mpq_class lc = p->t[0].c;
  vector<std::pair<int, int>> icf; Poly *extra = pconst(1);
  for (auto &z : cf) { if (atoms[z.first].k == A_SUM && z.second < 0) extra = pmul(extra, ppow(atoms[z.first].p, -z.second)); else icf.push_back({z.first, -z.second}); }
  for (auto &t : p->t) { Mono *m = monoDiv(t.m, c); if (!m) { m = nullptr; }
    if (!m) { // contains exp/sqrt atoms: rebuild by hand
      vector<std::pair<int, int>> f; for (auto &z : t.m->f) { int e = z.second - (cm.count(z.first) ? cm[z.first] : 0); if (e) f.push_back({z.first, e}); }
      for (auto &x : cm) { bool in = false; for (auto &z : t.m->f) if (z.first == x.first) in = true; if (!in) f.push_back({x.first, -x.second}); }
      std::sort(f.begin(), f.end());
      bool bad = false; for (auto &z : f) if (atoms[z.first].k == A_SUM && z.second > 0) bad = true;
      if (bad) { Poly *tp = pconst(t.c / lc); for (auto &z : f) tp = pmul(tp, (atoms[z.first].k == A_SUM && z.second > 0) ? ppow(atoms[z.first].p, z.second) : [&] { Acc B; accAdd(B, mono({z}), 1); return internPoly(B); }()); for (auto &q : tp->t) accAdd(A, q.m, q.c); continue; }
      m = mono(f);
    }
    accAdd(A, m, t.c / lc); }
  Poly *q = cancel(internPoly(A));
  Poly *rest = pconst(1 / lc);
  if (!icf.empty()) { Acc B; accAdd(B, mono(icf), 1); rest = pmul(rest, internPoly(B)); }
  rest = pmul(rest, extra);
  if (q->t.size() == 1) return pmul(rest, pinv(q));
  int S = atom(A_SUM, q); Acc B; accAdd(B, mono({{S, -1}}), 1);
  return pmul(rest, internPoly(B));
}

// ------------------------------------------------------------------ intervals and signs
struct Iv { bool li, hi_; mpq_class lo, hi; };   // li: lower infinite
static Iv ivAll() { return {true, true, 0, 0}; }
static Iv ivC(const mpq_class &c) { return {false, false, c, c}; }
static Iv ivAdd(const Iv &a, const Iv &b) { Iv r; r.li = a.li || b.li; r.hi_ = a.hi_ || b.hi_; if (!r.li) r.lo = a.lo + b.lo; if (!r.hi_) r.hi = a.hi + b.hi; return r; }
static Iv ivMul(const Iv &a, const Iv &b) {
  // general: handle by sign cases; infinite ends as flags
  auto e = [](const Iv &x, bool up, bool &inf, mpq_class &v) { inf = up ? x.hi_ : x.li; v = up ? x.hi : x.lo; };
  bool any = false; Iv r{false, false, 0, 0};
  for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) {
    bool ia, ib; mpq_class va, vb; e(a, i, ia, va); e(b, j, ib, vb);
    int sa = ia ? (i ? 1 : -1) : sgn(va), sb = ib ? (j ? 1 : -1) : sgn(vb);
    if (ia || ib) { int s = sa * sb; if (s > 0) r.hi_ = true; else if (s < 0) r.li = true; else { if (!any) { r.lo = r.hi = 0; any = true; } else { if (r.lo > 0) r.lo = 0; if (r.hi < 0) r.hi = 0; } } continue; }
    mpq_class v = va * vb; if (!any) { r.lo = r.hi = v; any = true; } else { if (v < r.lo) r.lo = v; if (v > r.hi) r.hi = v; }
  }
  if (!any) { if (!r.li) r.li = true; if (!r.hi_) r.hi_ = true; }
  return r;
}
static std::unordered_map<int, int> polySign;     // facts on this path: poly id -> mask of possible signs (1 neg, 2 zero, 4 pos)
static std::unordered_map<int, Iv> ivMemo; static std::unordered_map<int, Iv> atMemo;
static Iv ivP(Poly *p); static int signP(Poly *p);
static Iv ivInv(const Iv &a) {
  if (!a.li && a.lo > 0) { Iv r; r.hi_ = false; r.hi = 1 / a.lo; if (a.hi_) { r.li = false; r.lo = 0; } else { r.li = false; r.lo = 1 / a.hi; } return r; }
  if (!a.hi_ && a.hi < 0) { Iv r; r.li = false; r.lo = 1 / a.hi; if (a.li) { r.hi_ = false; r.hi = 0; } else { r.hi_ = false; r.hi = 1 / a.lo; } return r; }
  return ivAll();
}
// log x lies within one 2^-20 step of its double value
static bool logStep(const mpq_class &x, bool up, mpq_class &r) { double d = x.get_d(); if (!(d > 1e-300 && d < 1e300)) return false; double l = std::log(d) * 1048576; r = mpq_class(up ? std::ceil(l + 0.5) : std::floor(l - 0.5)) / 1048576; return true; }
static Iv ivAtom(int id) {
  auto it = atMemo.find(id); if (it != atMemo.end()) return it->second;
  Atom a = atoms[id]; Iv r = ivAll();
  switch (a.k) {
  case A_VAR: { Var &v = vars[a.var]; r = {false, false, v.lo, v.hi}; break; }
  case A_SUM: r = ivP(a.p); break;
  case A_EXP: { Iv q = ivP(a.p); r.li = false; r.lo = 0; if (!q.hi_ && q.hi <= 0) { r.hi_ = false; r.hi = 1; } if (!q.li && q.lo >= 0) r.lo = 1; break; }
  case A_SQRT: { Iv q = ivP(a.p); r.li = false; r.lo = 0; if (!q.hi_) { r.hi_ = false; r.hi = q.hi > 1 ? q.hi : mpq_class(1); } if (!q.li && q.lo > 0) r.lo = q.lo < 1 ? q.lo : mpq_class(1); break; }
  case A_LOG: { Iv q = ivP(a.p); if (!q.hi_ && q.hi <= 1) { r.hi_ = false; r.hi = q.hi - 1; } if (!q.li && q.lo >= 1) { r.li = false; r.lo = 0; } if (!q.hi_ && r.hi_) { r.hi_ = false; r.hi = q.hi - 1; } if (!q.li && q.lo > 0 && q.lo < 1) { r.li = false; r.lo = 1 - 1 / q.lo; } mpq_class b; if (!q.li && q.lo > 0 && logStep(q.lo, false, b) && (r.li || b > r.lo)) { r.li = false; r.lo = b; } if (!q.hi_ && q.hi > 0 && logStep(q.hi, true, b) && (r.hi_ || b < r.hi)) { r.hi_ = false; r.hi = b; } break; }
  case A_ITE: { Iv x = ivP(a.p), y = ivP(a.q); r.li = x.li || y.li; r.hi_ = x.hi_ || y.hi_; if (!r.li) r.lo = std::min(x.lo, y.lo); if (!r.hi_) r.hi = std::max(x.hi, y.hi); break; }
  case A_I2R: { r.li = r.hi_ = false; r.lo = mpq_class((double)(i64)a.e->lo); r.hi = mpq_class((double)(i64)a.e->hi); r.lo -= 1024; r.hi += 1024; if (a.e->lo >= -(1LL << 52) && a.e->hi <= (1LL << 52)) { r.lo += 1024; r.hi -= 1024; } else { if (a.e->lo >= 0) r.lo = 0; } break; }
  case A_FLOOR: { Iv q = ivP(a.p); if (!q.li) { r.li = false; mpz_class z; mpz_fdiv_q(z.get_mpz_t(), q.lo.get_num_mpz_t(), q.lo.get_den_mpz_t()); r.lo = z; } if (!q.hi_) { r.hi_ = false; mpz_class z; mpz_fdiv_q(z.get_mpz_t(), q.hi.get_num_mpz_t(), q.hi.get_den_mpz_t()); r.hi = z; } break; }
  default: break;
  }
  atMemo[id] = r; return r;
}
static Iv ivPow(Iv b, int n) {
  if (n < 0) { b = ivInv(b); n = -n; }
  Iv r = ivC(1); for (int i = 0; i < n; i++) r = ivMul(r, b);
  if (n % 2 == 0) { if (r.li || r.lo < 0) { r.li = false; r.lo = 0; } }
  return r;
}
static Iv ivP(Poly *p) {
  auto it = ivMemo.find(p->id); if (it != ivMemo.end()) return it->second;
  Iv r = ivC(0);
  if (p->t.size() <= 200) for (auto &t : p->t) { Iv m = ivC(t.c); for (auto &z : t.m->f) m = ivMul(m, ivPow(ivAtom(z.first), z.second)); r = ivAdd(r, m); }
  else r = ivAll();
  ivMemo[p->id] = r; return r;
}
static int signAtom(int id) {
  Atom &a = atoms[id];
  if (a.k == A_EXP) return 4;
  if (a.k == A_SUM) { int s = signP(a.p) & ~2; return s ? s : 5; }
  int m = 7;
  if (a.k == A_SQRT) { int s = signP(a.p); m = (s & 2) ? 6 : (s & 1) ? 6 : 4; }
  else if (a.k == A_ITE) m = signP(a.p) | signP(a.q);
  Iv v = ivAtom(id); int k = 7;
  if (!v.li && v.lo > 0) k = 4; else if (!v.li && v.lo >= 0) k = 6;
  if (!v.hi_ && v.hi < 0) k &= 1; else if (!v.hi_ && v.hi <= 0) k &= 3;
  Poly *pp = patom(id); auto f = polySign.find(pp->id); if (f != polySign.end()) k &= f->second;
  return (m & k) ? (m & k) : 7;
}
static int signP(Poly *p) {
  if (p->t.empty()) return 2;
  auto f = polySign.find(p->id); int fm = f != polySign.end() ? f->second : 7;
  auto g = polySign.find(pscale(p, -1)->id);
  if (g != polySign.end()) { int s = g->second; fm &= ((s & 1) << 2) | (s & 2) | ((s & 4) >> 2); }
  if (fm == 1 || fm == 2 || fm == 4) return fm;
  bool allnn = true, allnp = true, sp = false, sn = false;
  if (p->t.size() <= 400)
  for (auto &t : p->t) {
    int s = sgn(t.c) > 0 ? 4 : 1;
    for (auto &z : t.m->f) {
      int a = signAtom(z.first); if (z.second < 0) a &= ~2; if (!a) a = 5;
      if (z.second % 2 == 0) a = (a & 2) | ((a & 5) ? 4 : 0);
      int r = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) if ((s >> i & 1) && (a >> j & 1)) { int v = (i - 1) * (j - 1); r |= v < 0 ? 1 : v == 0 ? 2 : 4; }
      s = r;
    }
    if (s & 1) allnn = false; if (s & 4) allnp = false;
    if (s == 4) sp = true; if (s == 1) sn = true;
    if (!allnn && !allnp) break;
  } else allnn = allnp = false;
  int m = 7;
  if (allnn) m = sp ? 4 : 6; else if (allnp) m = sn ? 1 : 3;
  if (m == 7 || m == 6 || m == 3) {
    Iv v = ivP(p);
    if (!v.li) { if (v.lo > 0) m &= 4; else if (v.lo >= 0) m &= 6; }
    if (!v.hi_) { if (v.hi < 0) m &= 1; else if (v.hi <= 0) m &= 3; }
  }
  m &= fm; return m ? m : 7;
}

// ------------------------------------------------------------------ integer expressions
static Expr *iconst(u64 v, int w) { return mkE(K_ICONST, w, 0, 0, 0, 0, mk(v, w), 0); }
static bool isC(Expr *e) { return e->k == K_ICONST; }
static Expr *rexpr(Poly *p) { return mkE(K_RPOLY, 64, 0, 0, 0, 0, 0, p); }
static void ranges(Expr *e) {
  int w = e->w; i128 lo = smin(w), hi = smax(w);
  if (w == 1) { lo = -1; hi = 0; }
  auto fit = [&](i128 l, i128 h) { if (l >= lo && h <= hi) { e->lo = l; e->hi = h; } else { e->lo = lo; e->hi = hi; } };
  e->lo = lo; e->hi = hi;
  switch (e->k) {
  case K_ICONST: e->lo = e->hi = sx(e->v, w); break;
  case K_IVAR: e->lo = vars[e->v].ilo; e->hi = vars[e->v].ihi; break;
  case K_IITE: e->lo = std::min(e->b->lo, e->c->lo); e->hi = std::max(e->b->hi, e->c->hi); break;
  case K_ICAST:
    if (e->op == C_SEXT) { e->lo = e->a->lo; e->hi = e->a->hi; }
    else if (e->op == C_ZEXT) { if (e->a->lo >= 0) { e->lo = e->a->lo; e->hi = e->a->hi; } else { e->lo = 0; e->hi = ((i128)1 << e->a->w) - 1; } }
    else if (e->op == C_TRUNC) fit(e->a->lo, e->a->hi);
    break;
  case K_IBIN: {
    Expr *a = e->a, *b = e->b;
    switch (e->op) {
    case OP_ADD: fit(a->lo + b->lo, a->hi + b->hi); break;
    case OP_SUB: fit(a->lo - b->hi, a->hi - b->lo); break;
    case OP_MUL: { if (w > 32 && (a->hi > ((i128)1 << 40) || a->lo < -((i128)1 << 40) || b->hi > ((i128)1 << 40) || b->lo < -((i128)1 << 40))) break;
      i128 x[4] = {a->lo * b->lo, a->lo * b->hi, a->hi * b->lo, a->hi * b->hi}; fit(*std::min_element(x, x + 4), *std::max_element(x, x + 4)); break; }
    case OP_SDIV: if (isC(b) && b->lo > 0) fit(a->lo / b->lo, a->hi / b->lo); break;
    case OP_UDIV: if (isC(b) && b->lo > 0 && a->lo >= 0) fit(a->lo / b->lo, a->hi / b->lo); break;
    case OP_SREM: if (isC(b) && b->lo > 0) fit(a->lo < 0 ? std::max(a->lo, -(b->lo - 1)) : 0, a->hi > 0 ? std::min(a->hi, b->lo - 1) : 0); break;
    case OP_UREM: if (isC(b) && b->lo > 0) fit(0, a->lo >= 0 ? std::min(a->hi, b->lo - 1) : b->lo - 1); break;
    case OP_AND: if (isC(b) && b->lo >= 0) fit(0, b->lo); else if (a->lo >= 0 && b->lo >= 0) fit(0, std::min(a->hi, b->hi)); break;
    case OP_LSHR: if (isC(b) && a->lo >= 0) fit(a->lo >> (int)b->lo, a->hi >> (int)b->lo); else if (isC(b) && b->lo > 0) fit(0, (((i128)1 << w) - 1) >> (int)b->lo); break;
    case OP_ASHR: if (isC(b)) fit(a->lo >> (int)b->lo, a->hi >> (int)b->lo); break;
    case OP_SHL: if (isC(b) && b->lo < 32 && a->hi < ((i128)1 << 60) && a->lo > -((i128)1 << 60)) fit(a->lo << (int)b->lo, a->hi << (int)b->lo); break;
    case OP_OR: if (a->lo >= 0 && b->lo >= 0) { i128 m = 1; while (m <= std::max(a->hi, b->hi)) m <<= 1; fit(0, m - 1); } break;
    }
    break; }
  case K_R2I: { Iv q = ivP(e->p); if (!q.li && !q.hi_) { mpz_class l, h; mpz_tdiv_q(l.get_mpz_t(), q.lo.get_num_mpz_t(), q.lo.get_den_mpz_t()); mpz_tdiv_q(h.get_mpz_t(), q.hi.get_num_mpz_t(), q.hi.get_den_mpz_t()); if (l.fits_slong_p() && h.fits_slong_p()) fit(l.get_si(), h.get_si()); } break; }
  case K_F2I: break;
  case K_EXTRACT: break;
  default: break;
  }
}
static Expr *mkE(Kind k, int w, int op, Expr *a, Expr *b, Expr *c, u64 v, Poly *p) {
  Key key{{(u64)k | (u64)w << 8 | (u64)(unsigned)op << 16, (u64)a, (u64)b, (u64)c, v, (u64)p}};
  auto it = htab.find(key); if (it != htab.end()) return it->second;
  Expr *e = new Expr; e->k = k; e->w = w; e->op = op; e->id = g_nid++; e->a = a; e->b = b; e->c = c; e->v = v; e->p = p; e->sup = Sup{};
  if (a) e->sup = sor(e->sup, a->sup); if (b) e->sup = sor(e->sup, b->sup); if (c) e->sup = sor(e->sup, c->sup); if (p) e->sup = sor(e->sup, p->sup);
  if (k == K_IVAR || k == K_FVAR) e->sup[v / 64] |= 1ull << (v % 64);
  e->lo = e->hi = 0; if (k < K_RPOLY || k == K_FCMP || k == K_F2I) ranges(e);
  htab[key] = e; return e;
}
static Expr *T() { return iconst(1, 1); }
static Expr *F() { return iconst(0, 1); }
static bool isTrue(Expr *e) { return e->k == K_ICONST && e->v == 1; }
static bool isFalse(Expr *e) { return e->k == K_ICONST && e->v == 0; }
static int invPred(int p) { switch (p) { case P_EQ: return P_NE; case P_NE: return P_EQ; case P_UGT: return P_ULE; case P_UGE: return P_ULT; case P_ULT: return P_UGE; case P_ULE: return P_UGT; case P_SGT: return P_SLE; case P_SGE: return P_SLT; case P_SLT: return P_SGE; default: return P_SGT; } }
static Expr *mkRCmp(int op, Poly *p);
static Expr *mkNot(Expr *e) {
  if (isC(e)) return e->v ? F() : T();
  if (e->k == K_BNOT) return e->a;
  if (e->k == K_ICMP) return mkE(K_ICMP, 1, invPred(e->op), e->a, e->b, 0, 0, 0);
  if (e->k == K_RCMP) { switch (e->op) { case R_EQ: return mkE(K_RCMP, 1, R_NE, 0, 0, 0, 0, e->p); case R_NE: return mkE(K_RCMP, 1, R_EQ, 0, 0, 0, 0, e->p);
    case R_LT: return mkRCmp(R_LE, pscale(e->p, -1)); default: return mkRCmp(R_LT, pscale(e->p, -1)); } }
  if (e->k == K_BAND) return mkE(K_BOR, 1, 0, mkNot(e->a), mkNot(e->b), 0, 0, 0);
  if (e->k == K_BOR) return mkE(K_BAND, 1, 0, mkNot(e->a), mkNot(e->b), 0, 0, 0);
  return mkE(K_BNOT, 1, 0, e, 0, 0, 0, 0);
}
static Expr *mkAnd(Expr *a, Expr *b) {
  if (isFalse(a) || isFalse(b)) return F(); if (isTrue(a)) return b; if (isTrue(b)) return a; if (a == b) return a; if (mkNot(a) == b) return F();
  return mkE(K_BAND, 1, 0, a, b, 0, 0, 0);
}
static Expr *mkOr(Expr *a, Expr *b) {
  if (isTrue(a) || isTrue(b)) return T(); if (isFalse(a)) return b; if (isFalse(b)) return a; if (a == b) return a; if (mkNot(a) == b) return T();
  return mkE(K_BOR, 1, 0, a, b, 0, 0, 0);
}
static Expr *mkIte(Expr *c, Expr *a, Expr *b) {
  if (isC(c)) return c->v ? a : b; if (a == b) return a;
  if (a->w == 1) return mkOr(mkAnd(c, a), mkAnd(mkNot(c), b));
  return mkE(K_IITE, a->w, 0, c, a, b, 0, 0);
}
static u64 evalBin(int op, int w, u64 a, u64 b, bool &ok) {
  i64 x = sx(a, w), y = sx(b, w); a = mk(a, w); b = mk(b, w); ok = true;
  switch (op) {
  case OP_ADD: return mk(a + b, w); case OP_SUB: return mk(a - b, w); case OP_MUL: return mk(a * b, w);
  case OP_UDIV: if (!b) { ok = false; return 0; } return a / b; case OP_UREM: if (!b) { ok = false; return 0; } return a % b;
  case OP_SDIV: if (!b) { ok = false; return 0; } return y == -1 ? mk(-a, w) : mk(x / y, w); case OP_SREM: if (!b) { ok = false; return 0; } return y == -1 ? 0 : mk(x % y, w);
  case OP_SHL: return b >= (u64)w ? 0 : mk(a << b, w); case OP_LSHR: return b >= (u64)w ? 0 : a >> b; case OP_ASHR: return b >= (u64)w ? mk(x < 0 ? -1 : 0, w) : mk(x >> b, w);
  case OP_AND: return a & b; case OP_OR: return a | b; case OP_XOR: return a ^ b;
  }
  ok = false; return 0;
}
static Expr *mkCast(int op, Expr *a, int w);
static Expr *mkCmp(int pred, Expr *a, Expr *b);
static Expr *mkBin(int op, Expr *a, Expr *b) {
  int w = a->w; bool ok;
  if (isC(a) && isC(b)) { u64 r = evalBin(op, w, a->v, b->v, ok); if (ok) return iconst(r, w); }
  if (w == 1) {
    switch (op) { case OP_AND: case OP_MUL: return mkAnd(a, b); case OP_OR: return mkOr(a, b);
    case OP_XOR: case OP_ADD: case OP_SUB: if (isC(b)) return b->v ? mkNot(a) : a; if (isC(a)) return a->v ? mkNot(b) : b; return mkOr(mkAnd(a, mkNot(b)), mkAnd(mkNot(a), b)); }
  }
  if (isC(a) && (op == OP_ADD || op == OP_MUL || op == OP_AND || op == OP_OR || op == OP_XOR)) std::swap(a, b);
  if (op == OP_SUB && isC(b)) return mkBin(OP_ADD, a, iconst(-b->v, w));
  if (op == OP_SHL && isC(b) && b->v < (u64)w) return mkBin(OP_MUL, a, iconst(1ull << b->v, w));
  if (isC(b)) {
    u64 v = b->v;
    switch (op) {
    case OP_ADD: case OP_XOR: case OP_OR: case OP_LSHR: case OP_ASHR: if (v == 0) return a; break;
    case OP_MUL: if (v == 0) return b; if (v == 1) return a; break;
    case OP_AND: if (v == 0) return b; if (v == mk(~0ull, w)) return a; break;
    case OP_UDIV: case OP_SDIV: if (v == 1) return a; break;
    }
    if (op == OP_XOR && v == mk(~0ull, w)) return mkBin(OP_ADD, mkBin(OP_MUL, a, iconst(~0ull, w)), iconst(~0ull, w));
    if (op == OP_OR && a->k == K_IBIN && a->op == OP_OR && isC(a->b)) return mkBin(OP_OR, a->a, iconst(a->b->v | v, w));
    if (op == OP_AND) { // low mask of a zext
      if (a->k == K_ICAST && a->op == C_ZEXT && v >= mk(~0ull, a->a->w) && ((v & mk(~0ull, a->a->w)) == mk(~0ull, a->a->w))) return a;
      int n = 0; while (n < w && v == ((n + 1 < 64 ? (1ull << (n + 1)) : 0) - 1) ? 0 : n < w && (v >> n & 1)) n++;
      if (n > 0 && n < 64 && v == (1ull << n) - 1 && a->lo >= 0 && a->hi <= (i128)v) return a;
    }
    if (op == OP_LSHR && a->lo >= 0 && v < (u64)w && v < 62) return mkBin(OP_UDIV, a, iconst(1ull << v, w));
    if (op == OP_ADD && a->k == K_IBIN && a->op == OP_ADD && isC(a->b)) return mkBin(OP_ADD, a->a, iconst(a->b->v + v, w));
    if (op == OP_MUL && a->k == K_IBIN && a->op == OP_MUL && isC(a->b)) return mkBin(OP_MUL, a->a, iconst(a->b->v * v, w));
    if ((op == OP_SREM || op == OP_UREM) && a->lo >= 0 && sx(v, w) > 0 && a->hi < sx(v, w)) return a;
    if ((op == OP_SDIV || op == OP_UDIV) && a->lo >= 0 && sx(v, w) > 0 && a->hi < sx(v, w)) return iconst(0, w);
  }
  if (op == OP_SUB && a == b) return iconst(0, w);
  if (op == OP_SUB && a->k == K_IBIN && a->op == OP_ADD) { if (a->a == b) return a->b; if (a->b == b) return a->a; }
  if (op == OP_ADD && b->k == K_IBIN && b->op == OP_SUB && b->b == a) return b->a;
  if (op == OP_ADD && a->k == K_IBIN && a->op == OP_SUB && a->b == b) return a->a;
  if ((op == OP_AND || op == OP_OR) && a == b) return a;
  if (op == OP_XOR && a == b) return iconst(0, w);
  if ((op == OP_AND || op == OP_OR) && a->k == K_ICAST && b->k == K_ICAST && a->op == C_ZEXT && b->op == C_ZEXT && a->a->w == 1 && b->a->w == 1)
    return mkCast(C_ZEXT, op == OP_AND ? mkAnd(a->a, b->a) : mkOr(a->a, b->a), w);
  if (op == OP_AND && isC(b) && b->v == 1 && a->k == K_ICAST && a->op == C_ZEXT && a->a->w == 1) return a;
  if (op == OP_XOR && isC(b) && b->v == 1 && a->k == K_ICAST && a->op == C_ZEXT && a->a->w == 1) return mkCast(C_ZEXT, mkNot(a->a), w);
  if ((op == OP_ADD || op == OP_MUL || op == OP_AND || op == OP_OR || op == OP_XOR) && !isC(b) && a->id > b->id) std::swap(a, b);
  return mkE(K_IBIN, w, op, a, b, 0, 0, 0);
}
static Expr *mkExtract(Expr *e, int off, int w) {
  if (off == 0 && w == e->w) return e;
  if (isC(e)) return iconst(e->v >> off, w);
  if (e->k == K_CONCAT) { int lw = e->b->w; if (off >= lw) return mkExtract(e->a, off - lw, w); if (off + w <= lw) return mkExtract(e->b, off, w); }
  if (e->k == K_EXTRACT) return mkExtract(e->a, off + e->op, w);
  if (e->k == K_ICAST && e->op == C_ZEXT) { if (off >= e->a->w) return iconst(0, w); if (off == 0 && w >= e->a->w) return w == e->a->w ? e->a : mkCast(C_ZEXT, e->a, w); if (off + w <= e->a->w) return mkExtract(e->a, off, w); }
  if (e->k == K_ICAST && e->op == C_SEXT && off + w <= e->a->w) return mkExtract(e->a, off, w);
  if (off == 0) return mkCast(C_TRUNC, e, w);
  return mkE(K_EXTRACT, w, off, e, 0, 0, 0, 0);
}
static Expr *mkConcat(Expr *hi, Expr *lo) {
  if (isC(hi) && isC(lo)) return iconst(hi->v << lo->w | lo->v, hi->w + lo->w);
  if (isC(hi) && hi->v == 0) return mkCast(C_ZEXT, lo, hi->w + lo->w);
  if (hi->k == K_EXTRACT && lo->k == K_EXTRACT && hi->a == lo->a && hi->op == lo->op + lo->w) return mkExtract(hi->a, lo->op, hi->w + lo->w);
  if (hi->k == K_EXTRACT && lo->k == K_ICAST && lo->op == C_TRUNC && lo->a == hi->a && hi->op == lo->w) return mkExtract(hi->a, 0, hi->w + lo->w);
  return mkE(K_CONCAT, hi->w + lo->w, 0, hi, lo, 0, 0, 0);
}
static Expr *mkCast(int op, Expr *a, int w) {
  if (w == a->w) return a;
  if (isC(a)) return iconst(op == C_SEXT ? (u64)sx(a->v, a->w) : a->v, w);
  if (op == C_TRUNC) {
    if (a->k == K_ICAST && (a->op == C_ZEXT || a->op == C_SEXT)) { if (a->a->w == w) return a->a; if (a->a->w < w) return mkCast(a->op, a->a, w); return mkCast(C_TRUNC, a->a, w); }
    if (a->k == K_ICAST && a->op == C_TRUNC) return mkCast(C_TRUNC, a->a, w);
    if (a->k == K_CONCAT || a->k == K_EXTRACT) { if (a->k == K_CONCAT && w <= a->b->w) return mkExtract(a->b, 0, w); if (a->k == K_EXTRACT) return mkExtract(a->a, a->op, w); }
    if (a->k == K_IBIN && (a->op == OP_ADD || a->op == OP_SUB || a->op == OP_MUL || a->op == OP_AND || a->op == OP_OR || a->op == OP_XOR)) return mkBin(a->op, mkCast(C_TRUNC, a->a, w), mkCast(C_TRUNC, a->b, w));
    if (a->k == K_IBIN && (a->op == OP_LSHR || a->op == OP_UDIV) && isC(a->b)) {
      // (concat >> k) patterns
      int k = -1; if (a->op == OP_LSHR) k = a->b->v; else { u64 v = a->b->v; if (v && !(v & (v - 1))) { k = 0; while (!(v >> k & 1)) k++; } }
      if (k >= 0 && a->a->k == K_CONCAT && k + w <= a->w) return mkExtract(a->a, k, w);
    }
    if (a->k == K_IITE) return mkIte(a->a, mkCast(op, a->b, w), mkCast(op, a->c, w));
    if (w == 1) return mkCmp(P_NE, mkBin(OP_AND, a, iconst(1, a->w)), iconst(0, a->w));
  }
  if (op == C_ZEXT && a->k == K_ICAST && a->op == C_ZEXT) return mkCast(C_ZEXT, a->a, w);
  if (op == C_SEXT && a->k == K_ICAST && a->op == C_SEXT) return mkCast(C_SEXT, a->a, w);
  if (op == C_SEXT && a->k == K_ICAST && a->op == C_ZEXT) return mkCast(C_ZEXT, a->a, w);
  if (op == C_ZEXT && a->w > 1 && a->lo >= 0) return mkCast(C_SEXT, a, w);
  if (op == C_SEXT && a->k == K_ICAST && a->op == C_TRUNC && a->a->w == w && a->a->lo >= smin(a->w) && a->a->hi <= smax(a->w)) return a->a;
  return mkE(K_ICAST, w, op, a, 0, 0, 0, 0);
}
static Expr *mkCmp(int pred, Expr *a, Expr *b) {
  int w = a->w;
  if (isC(a) && isC(b)) {
    u64 x = a->v, y = b->v; i64 sx_ = sx(x, w), sy = sx(y, w); bool r = false;
    switch (pred) { case P_EQ: r = x == y; break; case P_NE: r = x != y; break; case P_UGT: r = x > y; break; case P_UGE: r = x >= y; break; case P_ULT: r = x < y; break; case P_ULE: r = x <= y; break;
    case P_SGT: r = sx_ > sy; break; case P_SGE: r = sx_ >= sy; break; case P_SLT: r = sx_ < sy; break; case P_SLE: r = sx_ <= sy; break; }
    return r ? T() : F();
  }
  if (a == b) return (pred == P_EQ || pred == P_UGE || pred == P_ULE || pred == P_SGE || pred == P_SLE) ? T() : F();
  if (w == 1) {
    if (pred == P_NE) return mkBin(OP_XOR, a, b); if (pred == P_EQ) return mkNot(mkBin(OP_XOR, a, b));
    Expr *na = mkNot(a), *nb = mkNot(b);
    switch (pred) { case P_UGT: return mkAnd(a, nb); case P_UGE: return mkOr(a, nb); case P_ULT: return mkAnd(na, b); case P_ULE: return mkOr(na, b);
    case P_SGT: return mkAnd(na, b); case P_SGE: return mkOr(na, b); case P_SLT: return mkAnd(a, nb); default: return mkOr(a, nb); }
  }
  if (isC(a)) { static std::map<int, int> sw{{P_EQ, P_EQ}, {P_NE, P_NE}, {P_UGT, P_ULT}, {P_UGE, P_ULE}, {P_ULT, P_UGT}, {P_ULE, P_UGE}, {P_SGT, P_SLT}, {P_SGE, P_SLE}, {P_SLT, P_SGT}, {P_SLE, P_SGE}}; return mkCmp(sw[pred], b, a); }
  bool un = pred >= P_UGT && pred <= P_ULE;
  if (un && a->lo >= 0 && b->lo >= 0) { pred += P_SGT - P_UGT; un = false; }
  if (!un) {
    if (pred == P_SLT || pred == P_SGE) { if (a->hi < b->lo) return pred == P_SLT ? T() : F(); if (a->lo >= b->hi) return pred == P_SLT ? F() : T(); }
    if (pred == P_SGT || pred == P_SLE) { if (a->lo > b->hi) return pred == P_SGT ? T() : F(); if (a->hi <= b->lo) return pred == P_SGT ? F() : T(); }
    if ((pred == P_EQ || pred == P_NE) && (a->hi < b->lo || a->lo > b->hi)) return pred == P_EQ ? F() : T();
  }
  if (isC(b) && a->k == K_ICAST && a->op == C_ZEXT && a->a->w == 1) {
    if (pred == P_EQ) return b->v == 1 ? a->a : b->v == 0 ? mkNot(a->a) : F();
    if (pred == P_NE) return b->v == 1 ? mkNot(a->a) : b->v == 0 ? a->a : T();
  }
  if (isC(b) && a->k == K_ICAST && (a->op == C_SEXT || a->op == C_ZEXT) && a->a->w > 1) {
    int aw = a->a->w; u64 v = b->v;
    bool fits = a->op == C_SEXT ? (u64)sx(mk(v, aw), aw) == (u64)sx(v, w) : mk(v, aw) == v;
    if (fits && (pred == P_EQ || pred == P_NE || (a->op == C_SEXT && !un))) return mkCmp(pred, a->a, iconst(v, aw));
    if (!fits && pred == P_EQ) return F(); if (!fits && pred == P_NE) return T();
  }
  if (a->k == K_ICAST && b->k == K_ICAST && a->op == b->op && a->a->w == b->a->w && a->op != C_TRUNC && a->a->w > 1) {
    if (a->op == C_SEXT || pred == P_EQ || pred == P_NE) return mkCmp(pred, a->a, b->a);
    return mkCmp(un ? pred : (pred >= P_SGT ? pred - (P_SGT - P_UGT) : pred), a->a, b->a);
  }
  if ((pred == P_EQ || pred == P_NE) && isC(b)) {
    if (a->k == K_IITE && isC(a->b) && isC(a->c)) { bool x = a->b->v == b->v, y = a->c->v == b->v; Expr *r = x && y ? T() : x ? a->a : y ? mkNot(a->a) : F(); return pred == P_EQ ? r : mkNot(r); }
    if (a->k == K_IBIN && a->op == OP_ADD && isC(a->b)) return mkCmp(pred, a->a, iconst(b->v - a->b->v, w));
    if (a->k == K_IBIN && a->op == OP_SUB && b->v == 0) return mkCmp(pred, a->a, a->b);
  }
  return mkE(K_ICMP, 1, pred, a, b, 0, 0, 0);
}
// comparisons p op 0 on reals
static Poly *clearDen(Poly *p, int &sign) {
  // multiply by denominators of known sign
  for (int round = 0; round < 30 && !p->t.empty(); round++) {
    std::map<int, int> neg;
    for (auto &t : p->t) for (auto &z : t.m->f) if (z.second < 0) neg[z.first] = std::max(neg[z.first], -z.second);
    if (neg.empty()) break;
    bool did = false;
    for (auto it = neg.rbegin(); it != neg.rend(); ++it) {
      int a = it->first, e = it->second; Atom &at = atoms[a];
      int s = at.k == A_SUM ? signP(at.p) : signAtom(a); s &= ~2;
      if (s != 1 && s != 4 && e % 2) continue;
      Poly *f = at.k == A_SUM ? at.p : patom(a);
      size_t cost = p->t.size(); for (int i = 0; i < e; i++) cost *= f->t.size();
      if (cost > 20000) continue;
      if (s == 1 && e % 2) sign = -sign;
      // multiply exactly: terms without full power get f^(e-k)
      Acc A;
      for (auto &t : p->t) {
        int k = 0; vector<std::pair<int, int>> g; for (auto &z : t.m->f) if (z.first == a) k = z.second; else g.push_back(z);
        Acc B; accAdd(B, mono(g), t.c); Poly *q = internPoly(B);
        int rem = e + k; // k may be negative or positive
        Poly *fp = at.k == A_SUM ? ppow(f, rem) : nullptr;
        if (at.k == A_SUM) q = pmul(q, fp); else { for (int i = 0; i < rem; i++) q = pmul(q, f); }
        for (auto &x : q->t) accAdd(A, x.m, x.c);
      }
      p = cancel(internPoly(A)); did = true; break;
    }
    if (!did) break;
  }
  return p;
}
static Expr *mkRCmp(int op, Poly *p) {
  int s = signP(p);
  auto fold = [&](int s) -> Expr * {
    if (op == R_LT) { if (s == 1) return T(); if (!(s & 1)) return F(); }
    if (op == R_LE) { if (!(s & 4)) return T(); if (s == 4) return F(); }
    if (op == R_EQ) { if (s == 2) return T(); if (!(s & 2)) return F(); }
    if (op == R_NE) { if (s == 2) return F(); if (!(s & 2)) return T(); }
    return nullptr; };
  if (Expr *r = fold(s)) return r;
  int sg = 1; Poly *q = p;
  try { q = clearDen(p, sg); } catch (Unsup &) { q = p; sg = 1; }
  if (sg < 0) q = pscale(q, -1);
  if (q->t.empty()) return (op == R_LE || op == R_EQ) ? T() : F();
  mpq_class l = abs(q->t.back().c); if ((op == R_EQ || op == R_NE) && sgn(q->t.back().c) < 0) l = -l;
  if (l != 1) q = pscale(q, 1 / l);
  if (Expr *r = fold(signP(q))) return r;
  return mkE(K_RCMP, 1, op, 0, 0, 0, 0, q);
}

// ------------------------------------------------------------------ model evaluation
struct Val { mpq_class q; u64 bits; };
struct Model { bool valid; vector<mpq_class> v; vector<double> d; };     // indexed by var id
static Model g_model{true, {}, {}};
struct Eval {
  const Model &m; std::unordered_map<Expr *, u64> im; std::unordered_map<int, mpq_class> am; std::unordered_map<Expr *, double> fm;
  Eval(const Model &mm) : m(mm) {}
  struct Fail {};
  mpq_class atomv(int id) {
    auto it = am.find(id); if (it != am.end()) return it->second;
    Atom a = atoms[id]; mpq_class r;
    switch (a.k) {
    case A_VAR: r = m.v[a.var]; break;
    case A_SUM: r = poly(a.p); break;
    case A_SQRT: { mpq_class x = poly(a.p); if (x < 0) throw Fail(); if (!mpz_perfect_square_p(x.get_num_mpz_t()) || !mpz_perfect_square_p(x.get_den_mpz_t())) throw Fail(); mpz_class n = sqrt(x.get_num()), d = sqrt(x.get_den()); r = mpq_class(n, d); break; }
    case A_LOG: { mpq_class x = poly(a.p); if (x == 1) r = 0; else throw Fail(); break; }
    case A_EXP: { mpq_class x = poly(a.p); if (x == 0) r = 1; else throw Fail(); break; }
    case A_ITE: r = i(a.e) ? poly(a.p) : poly(a.q); break;
    case A_I2R: { i64 x = sx(i(a.e), a.e->w); r = mpq_class((long)x); break; }
    case A_FLOOR: { mpq_class x = poly(a.p); mpz_class z; mpz_fdiv_q(z.get_mpz_t(), x.get_num_mpz_t(), x.get_den_mpz_t()); r = z; break; }
    default: throw Fail();
    }
    am[id] = r; return r;
  }
  mpq_class poly(Poly *p) {
    mpq_class s = 0;
    for (auto &t : p->t) { mpq_class x = t.c; for (auto &z : t.m->f) { mpq_class a = atomv(z.first); int e = z.second; if (e < 0) { if (a == 0) throw Fail(); a = 1 / a; e = -e; } while (e--) x *= a; } s += x; }
    return s;
  }
  double f(Expr *e) {
    auto it = fm.find(e); if (it != fm.end()) return it->second; double r;
    switch (e->k) {
    case K_FVAR: r = m.d[e->v]; break;
    case K_FCONST: memcpy(&r, &e->v, 8); break;
    case K_FOP: { double x = f(e->a), y = e->b ? f(e->b) : 0; if (e->w == 32) throw Fail();
      switch (e->op) { case OP_FADD: r = x + y; break; case OP_FSUB: r = x - y; break; case OP_FMUL: r = x * y; break; case OP_FDIV: r = x / y; break; case 100: r = -x; break; case 101: r = fabs(x); break; case 102: r = sqrt(x); break; default: throw Fail(); } break; }
    case K_FITE: r = i(e->a) ? f(e->b) : f(e->c); break;
    case K_I2F: r = (double)sx(i(e->a), e->a->w); break;
    default: throw Fail();
    }
    fm[e] = r; return r;
  }
  u64 i(Expr *e) {
    if (e->k == K_ICONST) return e->v;
    auto it = im.find(e); if (it != im.end()) return it->second;
    u64 r = 0; bool ok;
    switch (e->k) {
    case K_IVAR: { mpq_class q = m.v[e->v]; r = mk((u64)q.get_num().get_si(), e->w); break; }
    case K_IBIN: r = evalBin(e->op, e->w, i(e->a), i(e->b), ok); if (!ok) throw Fail(); break;
    case K_ICMP: { Expr *x = iconst(i(e->a), e->a->w), *y = iconst(i(e->b), e->b->w); r = mkCmp(e->op, x, y)->v; break; }
    case K_RCMP: { int s = sgn(poly(e->p)); r = e->op == R_LT ? s < 0 : e->op == R_LE ? s <= 0 : e->op == R_EQ ? s == 0 : s != 0; break; }
    case K_ICAST: r = e->op == C_SEXT ? mk(sx(i(e->a), e->a->w), e->w) : mk(i(e->a), e->w); break;
    case K_IITE: r = i(e->a) ? i(e->b) : i(e->c); break;
    case K_R2I: { mpq_class x = poly(e->p); mpz_class z; mpz_tdiv_q(z.get_mpz_t(), x.get_num_mpz_t(), x.get_den_mpz_t()); r = mk((u64)z.get_si(), e->w); break; }
    case K_CONCAT: r = i(e->a) << e->b->w | i(e->b); break;
    case K_EXTRACT: r = mk(i(e->a) >> e->op, e->w); break;
    case K_BNOT: r = !i(e->a); break;
    case K_BAND: r = i(e->a) && i(e->b); break;
    case K_BOR: r = i(e->a) || i(e->b); break;
    case K_FCMP: { double x = f(e->a), y = f(e->b); bool un = std::isnan(x) || std::isnan(y); int p = e->op; bool o = false; if (!un) o = ((p & 1) && x == y) || ((p & 2) && x > y) || ((p & 4) && x < y); else o = p & 8; r = o; break; }
    case K_F2I: r = mk((u64)(i64)f(e->a), e->w); break;
    default: throw Fail();
    }
    im[e] = r; return r;
  }
};
static int evalBool(Expr *c, const Model &m) { if (!m.valid) return -1; try { Eval ev(m); return ev.i(c) ? 1 : 0; } catch (Eval::Fail &) { return -1; } }

// ------------------------------------------------------------------ lowering to z3
static z3::context *zc;
struct BvNeeded {};
struct Lower {
  z3::context &c; vector<z3::expr> side; bool bv; bool hasInt = false, hasReal = false, nonlin = false, trans = false;
  std::unordered_map<Expr *, z3::expr> memo; std::unordered_map<int, z3::expr> amemo, inv; std::unordered_map<int, bool> vdone;
  vector<int> exps, logs;
  std::map<int, std::pair<i128, i128>> tight;
  std::unordered_map<Expr *, std::pair<i128, i128>> rmemo;
  Lower(bool b) : c(*zc), bv(b) {}
  static string num(i128 x) { bool n = x < 0; if (n) x = -x; string s; do { s = char('0' + (int)(x % 10)) + s; x /= 10; } while (x); return n ? "-" + s : s; }
  z3::expr ic(i128 x) { return c.int_val(num(x).c_str()); }
  z3::expr qv(const mpq_class &q) { return c.real_val(q.get_str().c_str()); }
  // ranges under the path's bounds on variables
  std::pair<i128, i128> rng(Expr *e) {
    auto it = rmemo.find(e); if (it != rmemo.end()) return it->second;
    std::pair<i128, i128> r{e->lo, e->hi};
    if (e->k == K_IVAR) { auto t = tight.find(e->v); if (t != tight.end()) r = t->second; }
    else if (e->k == K_IBIN || e->k == K_ICAST || e->k == K_IITE) {
      Expr x = *e, A, B, C; 
      if (e->a) { A = *e->a; if (e->k != K_IITE) { auto q = rng(e->a); A.lo = q.first; A.hi = q.second; } x.a = &A; }
      if (e->b) { B = *e->b; auto q = rng(e->b); B.lo = q.first; B.hi = q.second; x.b = &B; }
      if (e->c) { C = *e->c; auto q = rng(e->c); C.lo = q.first; C.hi = q.second; x.c = &C; }
      ranges(&x); r = {std::max(x.lo, e->lo), std::min(x.hi, e->hi)};
    }
    rmemo[e] = r; return r;
  }
  z3::expr wrap(z3::expr v, int w) { z3::expr m = ic((i128)1 << w), h = ic((i128)1 << (w - 1)); return z3::mod(v + h, m) - h; }
  z3::expr uns(Expr *e) { z3::expr v = I(e); if (rng(e).first >= 0) return v; return z3::ite(v < 0, v + ic((i128)1 << e->w), v); }
  z3::expr tdiv(z3::expr a, z3::expr b, std::pair<i128, i128> ra, std::pair<i128, i128> rb) {
    if (ra.first >= 0 && rb.first > 0) return a / b;
    if (rb.first > 0) return z3::ite(a >= 0, a / b, -((-a) / b));
    return z3::ite(a >= 0, a / b, -((-a) / b));   // z3 int division: sign of divisor handled (floor towards making remainder >= 0)
  }
  z3::expr B(Expr *e) {
    auto it = memo.find(e); if (it != memo.end()) return it->second;
    z3::expr r = c.bool_val(true);
    switch (e->k) {
    case K_ICONST: r = c.bool_val(e->v != 0); break;
    case K_BNOT: r = !B(e->a); break;
    case K_BAND: r = B(e->a) && B(e->b); break;
    case K_BOR: r = B(e->a) || B(e->b); break;
    case K_RCMP: { z3::expr p = R(e->p); z3::expr z = c.real_val(0); r = e->op == R_LT ? p < z : e->op == R_LE ? p <= z : e->op == R_EQ ? p == z : p != z; break; }
    case K_ICMP:
      if (e->a->w == 1) throw Unsup{"bool icmp"};
      if (bv) { z3::expr a = I(e->a), b = I(e->b);
        switch (e->op) { case P_EQ: r = a == b; break; case P_NE: r = a != b; break; case P_UGT: r = z3::ugt(a, b); break; case P_UGE: r = z3::uge(a, b); break; case P_ULT: r = z3::ult(a, b); break; case P_ULE: r = z3::ule(a, b); break;
        case P_SGT: r = a > b; break; case P_SGE: r = a >= b; break; case P_SLT: r = a < b; break; default: r = a <= b; }
      } else {
        bool un = e->op >= P_UGT && e->op <= P_ULE; z3::expr a = un ? uns(e->a) : I(e->a), b = un ? uns(e->b) : I(e->b);
        switch (e->op) { case P_EQ: r = a == b; break; case P_NE: r = a != b; break; case P_UGT: case P_SGT: r = a > b; break; case P_UGE: case P_SGE: r = a >= b; break; case P_ULT: case P_SLT: r = a < b; break; default: r = a <= b; }
      } break;
    case K_FCMP: { z3::expr a = FP(e->a), b = FP(e->b); int p = e->op; z3::expr o = c.bool_val(false);
      auto mkx = [&](Z3_ast x) { return z3::expr(c, x); };
      if (p & 1) o = o || mkx(Z3_mk_fpa_eq(c, a, b)); if (p & 2) o = o || mkx(Z3_mk_fpa_gt(c, a, b)); if (p & 4) o = o || mkx(Z3_mk_fpa_lt(c, a, b));
      if (p & 8) o = o || mkx(Z3_mk_fpa_is_nan(c, a)) || mkx(Z3_mk_fpa_is_nan(c, b)); r = o; break; }
    case K_IITE: r = z3::ite(B(e->a), B(e->b), B(e->c)); break;
    case K_IVAR: { r = c.bool_const(vars[e->v].name.c_str()); break; }
    default: throw Unsup{"bool lowering"};
    }
    memo.emplace(e, r); return r;
  }
  z3::expr FP(Expr *e) {
    auto it = memo.find(e); if (it != memo.end()) return it->second;
    z3::sort s = c.fpa_sort<64>(); z3::expr r = c.bool_val(true);
    switch (e->k) {
    case K_FVAR: { r = c.constant(vars[e->v].name.c_str(), s); if (!vdone[e->v]) { vdone[e->v] = true; side.push_back(z3::expr(c, Z3_mk_fpa_leq(c, c.fpa_val(vars[e->v].dlo), r))); side.push_back(z3::expr(c, Z3_mk_fpa_leq(c, r, c.fpa_val(vars[e->v].dhi)))); } break; }
    case K_FCONST: { double d; memcpy(&d, &e->v, 8); r = c.fpa_val(d); break; }
    case K_FOP: { z3::expr rm = z3::expr(c, Z3_mk_fpa_rne(c)); z3::expr a = FP(e->a);
      switch (e->op) { case OP_FADD: r = z3::expr(c, Z3_mk_fpa_add(c, rm, a, FP(e->b))); break; case OP_FSUB: r = z3::expr(c, Z3_mk_fpa_sub(c, rm, a, FP(e->b))); break; case OP_FMUL: r = z3::expr(c, Z3_mk_fpa_mul(c, rm, a, FP(e->b))); break; case OP_FDIV: r = z3::expr(c, Z3_mk_fpa_div(c, rm, a, FP(e->b))); break;
      case 100: r = z3::expr(c, Z3_mk_fpa_neg(c, a)); break; case 101: r = z3::expr(c, Z3_mk_fpa_abs(c, a)); break; case 102: r = z3::expr(c, Z3_mk_fpa_sqrt(c, rm, a)); break; default: throw Unsup{"fp op"}; } break; }
    case K_FITE: r = z3::ite(B(e->a), FP(e->b), FP(e->c)); break;
    case K_I2F: r = z3::expr(c, Z3_mk_fpa_to_fp_signed(c, z3::expr(c, Z3_mk_fpa_rne(c)), I(e->a), s)); break;
    default: throw Unsup{"fp lowering"};
    }
    memo.emplace(e, r); return r;
  }
  z3::expr I(Expr *e) {
    auto it = memo.find(e); if (it != memo.end()) return it->second;
    z3::expr r = c.bool_val(true); int w = e->w;
    if (w == 1) { z3::expr b = B(e); return bv ? z3::ite(b, c.bv_val(1, 1), c.bv_val(0, 1)) : z3::ite(b, c.int_val(-1), c.int_val(0)); }
    if (bv) {
      switch (e->k) {
      case K_ICONST: r = c.bv_val((uint64_t)e->v, w); break;
      case K_IVAR: { Var &v = vars[e->v]; r = c.bv_const(v.name.c_str(), w); if (!vdone[e->v]) { vdone[e->v] = true; if (v.ilo > smin(w)) side.push_back(c.bv_val((int64_t)v.ilo, w) <= r); if (v.ihi < smax(w)) side.push_back(r <= c.bv_val((int64_t)v.ihi, w)); } break; }
      case K_IBIN: { z3::expr a = I(e->a), b = I(e->b);
        switch (e->op) { case OP_ADD: r = a + b; break; case OP_SUB: r = a - b; break; case OP_MUL: r = a * b; break; case OP_UDIV: r = z3::udiv(a, b); break; case OP_SDIV: r = a / b; break; case OP_UREM: r = z3::urem(a, b); break; case OP_SREM: r = z3::srem(a, b); break;
        case OP_SHL: r = z3::shl(a, b); break; case OP_LSHR: r = z3::lshr(a, b); break; case OP_ASHR: r = z3::ashr(a, b); break; case OP_AND: r = a & b; break; case OP_OR: r = a | b; break; case OP_XOR: r = a ^ b; break; default: throw Unsup{"bv op"}; } break; }
      case K_ICAST: { z3::expr a = I(e->a); if (e->op == C_TRUNC) r = a.extract(w - 1, 0); else if (e->op == C_ZEXT) r = z3::zext(a, w - e->a->w); else r = z3::sext(a, w - e->a->w); break; }
      case K_IITE: r = z3::ite(B(e->a), I(e->b), I(e->c)); break;
      case K_CONCAT: r = z3::concat(I(e->a), I(e->b)); break;
      case K_EXTRACT: r = I(e->a).extract(e->op + w - 1, e->op); break;
      case K_F2I: r = z3::expr(c, Z3_mk_fpa_to_sbv(c, z3::expr(c, Z3_mk_fpa_rtz(c)), FP(e->a), w)); break;
      default: throw Unsup{"bv lowering"};
      }
    } else {
      hasInt = true;
      switch (e->k) {
      case K_ICONST: r = ic(sx(e->v, w)); break;
      case K_IVAR: { Var &v = vars[e->v]; r = c.int_const(v.name.c_str()); if (!vdone[e->v]) { vdone[e->v] = true; side.push_back(r >= ic(v.ilo)); side.push_back(r <= ic(v.ihi)); } break; }
      case K_IBIN: {
        auto ra = rng(e->a), rb = rng(e->b); i128 lo = smin(w), hi = smax(w);
        auto W = [&](z3::expr x, i128 l, i128 h) { return (l >= lo && h <= hi) ? x : wrap(x, w); };
        switch (e->op) {
        case OP_ADD: r = W(I(e->a) + I(e->b), ra.first + rb.first, ra.second + rb.second); break;
        case OP_SUB: r = W(I(e->a) - I(e->b), ra.first - rb.second, ra.second - rb.first); break;
        case OP_MUL: { i128 L = (i128)1 << 62; if (ra.first < -L || ra.second > L || rb.first < -L || rb.second > L) { r = wrap(I(e->a) * I(e->b), w); break; }
          i128 x[4] = {ra.first * rb.first, ra.first * rb.second, ra.second * rb.first, ra.second * rb.second}; r = W(I(e->a) * I(e->b), *std::min_element(x, x + 4), *std::max_element(x, x + 4)); if (!isC(e->a) && !isC(e->b)) nonlin = true; break; }
        case OP_SDIV: if (rb.first <= 0 && rb.second >= -1 && !(rb.first >= 0)) { r = wrap(tdiv(I(e->a), I(e->b), ra, rb), w); } else r = tdiv(I(e->a), I(e->b), ra, rb); if (!isC(e->b)) nonlin = true; break;
        case OP_SREM: { if (ra.first >= 0 && rb.first > 0) { r = z3::mod(I(e->a), I(e->b)); } else { z3::expr a = I(e->a), b = I(e->b); z3::expr m = z3::mod(a, b); r = z3::ite(a >= 0, m, -z3::mod(-a, b)); } if (!isC(e->b)) nonlin = true; break; }
        case OP_UDIV: r = uns(e->a) / uns(e->b); if (!(ra.first >= 0)) r = wrap(r, w); if (!isC(e->b)) nonlin = true; break;
        case OP_UREM: r = z3::mod(uns(e->a), uns(e->b)); if (!(ra.first >= 0) && !(rb.first >= 0)) r = wrap(r, w); if (!isC(e->b)) nonlin = true; break;
        case OP_AND: if (isC(e->b) && e->b->v && !((e->b->v + 1) & e->b->v) && e->b->v < (1ull << 62)) { r = z3::mod(I(e->a), ic((i128)e->b->v + 1)); break; } throw BvNeeded();
        case OP_LSHR: if (isC(e->b) && e->b->v < (u64)w && e->b->v > 0) { r = uns(e->a) / ic((i128)1 << e->b->v); break; } throw BvNeeded();
        case OP_ASHR: if (isC(e->b) && e->b->v < (u64)w) { r = I(e->a) / ic((i128)1 << e->b->v); break; } throw BvNeeded();
        default: throw BvNeeded();
        } break; }
      case K_ICAST: { if (e->op == C_SEXT) r = I(e->a); else if (e->op == C_ZEXT) { if (e->a->w == 1) r = z3::ite(B(e->a), c.int_val(1), c.int_val(0)); else r = uns(e->a); } else { auto ra = rng(e->a); r = (ra.first >= smin(w) && ra.second <= smax(w)) ? I(e->a) : wrap(I(e->a), w); } break; }
      case K_IITE: r = z3::ite(B(e->a), I(e->b), I(e->c)); break;
      case K_CONCAT: { r = wrap(uns(e->a) * ic((i128)1 << e->b->w) + uns(e->b), w); break; }
      case K_EXTRACT: { z3::expr q = uns(e->a) / ic((i128)1 << e->op); r = wrap(q, w); break; }
      case K_R2I: { z3::expr x = R(e->p); string n = "r2i!" + std::to_string(e->id); r = c.int_const(n.c_str()); int s = signP(e->p); z3::expr rr = z3::to_real(r);
        if (!(s & 1)) { side.push_back(rr <= x); side.push_back(x < rr + 1); } else if (!(s & 4)) { side.push_back(rr >= x); side.push_back(x > rr - 1); }
        else { side.push_back(z3::ite(x >= 0, rr <= x && x < rr + 1, rr >= x && x > rr - 1)); } break; }
      default: throw BvNeeded();
      }
    }
    memo.emplace(e, r); return r;
  }
  z3::expr A(int id) {
    auto it = amemo.find(id); if (it != amemo.end()) return it->second;
    Atom a = atoms[id]; string n = "a!" + std::to_string(id); z3::expr r = c.bool_val(true); hasReal = true;
    switch (a.k) {
    case A_VAR: { Var &v = vars[a.var]; r = c.real_const(v.name.c_str()); side.push_back(r >= qv(v.lo)); side.push_back(r <= qv(v.hi)); break; }
    case A_SUM: r = R(a.p); break;
    case A_SQRT: { z3::expr x = R(a.p); r = c.real_const(n.c_str()); side.push_back(r >= 0); side.push_back(r * r == x); nonlin = true; break; }
    case A_EXP: { z3::expr x = R(a.p); r = c.real_const(n.c_str()); side.push_back(r > 0); side.push_back(r >= x + 1); side.push_back(z3::implies(x > 0, r > 1)); side.push_back(z3::implies(x < 0, r < 1)); side.push_back(z3::implies(x == 0, r == 1)); exps.push_back(id); trans = true; break; }
    case A_LOG: { z3::expr x = R(a.p); r = c.real_const(n.c_str()); side.push_back(r <= x - 1); side.push_back(z3::implies(x > 1, r > 0)); side.push_back(z3::implies(x < 1, r < 0)); side.push_back(z3::implies(x == 1, r == 0)); { Iv q = ivAtom(id); if (!q.li) side.push_back(r >= qv(q.lo)); if (!q.hi_) side.push_back(r <= qv(q.hi)); } logs.push_back(id); trans = true; break; }
    case A_ITE: r = z3::ite(B(a.e), R(a.p), R(a.q)); break;
    case A_I2R: r = z3::to_real(I(a.e)); break;
    case A_FLOOR: { z3::expr x = R(a.p); z3::expr k = c.int_const(n.c_str()); r = z3::to_real(k); side.push_back(r <= x); side.push_back(x < r + 1); hasInt = true; break; }
    default: { r = c.real_const(n.c_str()); trans = true; break; }
    }
    amemo.emplace(id, r);
    if (a.k == A_EXP) for (int o : exps) if (o != id) { z3::expr d = R(padd(a.p, atoms[o].p, -1)); z3::expr ro = amemo.at(o); side.push_back(z3::implies(d > 0, r > ro)); side.push_back(z3::implies(d < 0, r < ro)); side.push_back(z3::implies(d == 0, r == ro)); }
    if (a.k == A_LOG) for (int o : logs) if (o != id) { z3::expr d = R(padd(a.p, atoms[o].p, -1)); z3::expr ro = amemo.at(o); side.push_back(z3::implies(d > 0, r > ro)); side.push_back(z3::implies(d < 0, r < ro)); side.push_back(z3::implies(d == 0, r == ro)); }
    return r;
  }
  z3::expr Inv(int id) {
    auto it = inv.find(id); if (it != inv.end()) return it->second;
    z3::expr x = A(id); z3::expr r = c.real_const(("i!" + std::to_string(id)).c_str()); side.push_back(x * r == 1); nonlin = true;
    int s = atoms[id].k == A_SUM ? signP(atoms[id].p) & ~2 : signAtom(id) & ~2;
    if (s == 4) side.push_back(r > 0); else if (s == 1) side.push_back(r < 0);
    inv.emplace(id, r); return r;
  }
  z3::expr R(Poly *p) {
    if (bv) throw Unsup{"real in bv query"};
    z3::expr_vector sum(c); hasReal = true;
    for (auto &t : p->t) {
      z3::expr m = qv(t.c); bool one = t.c == 1; bool first = true; int deg = 0;
      for (auto &z : t.m->f) { z3::expr b = z.second > 0 ? A(z.first) : Inv(z.first); for (int k = std::abs(z.second); k--;) { deg++; if (first && one) { m = b; first = false; } else { m = m * b; first = false; } } }
      if (deg > 1) nonlin = true;
      sum.push_back(m);
    }
    if (sum.size() == 0) return c.real_val(0);
    return sum.size() == 1 ? sum[0] : z3::sum(sum);
  }
};

enum Res { UNSAT, SAT, UNK };
static vector<Expr *> pc;
static std::unordered_map<u64, int> qcache;     // hash of sorted ids -> unsat
static mpq_class parseNum(const z3::expr &v, bool &exact) {
  exact = true; string s;
  if (v.is_numeral(s)) { if (s.find('?') == string::npos) { mpq_class q; if (q.set_str(s, 10) == 0) { q.canonicalize(); return q; } } }
  exact = false;
  if (v.is_algebraic()) { z3::expr l(v.ctx(), Z3_get_algebraic_number_lower(v.ctx(), v, 20)); string t; if (l.is_numeral(t)) { mpq_class q; q.set_str(t, 10); q.canonicalize(); return q; } }
  return 0;
}
static mpq_class defaultVal(Var &v) { if (!v.real) return mpq_class((long)(v.ilo <= 0 && v.ihi >= 0 ? 0 : v.ilo)); if (v.lo <= 1 && v.hi > 1) return 1; mpq_class m = (v.lo + v.hi) / 2; return m; }
static void padModel(Model &m) { while (m.v.size() < vars.size()) { Var &v = vars[m.v.size()]; double d = v.dlo <= 1 && v.dhi >= 1 ? 1.0 : v.dlo; m.v.push_back(defaultVal(v)); m.d.push_back(d); } }
static string g_dump;
// wall-clock guard for one solver call: interrupt z3, and give the path up if that has no effect
static double g_qsecs = 25; static int g_alarms = 0;
[[noreturn]] static void incomplete(const char *why);
static void onAlarm(int) { if (g_alarms++ < 3) Z3_interrupt(*zc); else incomplete("solver call exceeded its time limit"); }
static z3::check_result guarded(z3::solver &s) {
  double lim = std::max(0.3, std::min(g_qsecs, G->deadline + 5 - now())); struct itimerval t; g_alarms = 0; signal(SIGALRM, onAlarm);
  t.it_value.tv_sec = (long)lim; t.it_value.tv_usec = (long)((lim - (long)lim) * 1e6); t.it_interval.tv_sec = 3; t.it_interval.tv_usec = 0; setitimer(ITIMER_REAL, &t, 0);
  z3::check_result r = z3::unknown;
  try { r = s.check(); } catch (z3::exception &ex) { if (g_verbose) fprintf(stderr, "z3: %s\n", ex.msg()); r = z3::unknown; }
  memset(&t, 0, sizeof t); setitimer(ITIMER_REAL, &t, 0); return r;
}
static Res solveZ(const vector<Expr *> &cs, Model *out, long rlimit) {
  // returns verdict on the conjunction of cs
  double t0 = now(); G->queries++;
  Res res = UNK;
  bool anyreal = false;
  std::function<void(Expr *)> scan = [&](Expr *e) { if (!e || anyreal) return; if (e->k == K_RCMP || e->k == K_R2I) { anyreal = true; return; } scan(e->a); scan(e->b); scan(e->c); };
  for (Expr *e : cs) scan(e);
  for (int attempt = 0; attempt < 2 && res == UNK; attempt++) {
    bool bv = (attempt == 1) || g_ieee; if (bv && anyreal) break;
    try {
      Lower L(bv);
      if (!bv) for (Expr *e : cs) if (e->k == K_ICMP && e->a->k == K_IVAR && isC(e->b) && e->a->w > 1) {
        int v = e->a->v; if (!L.tight.count(v)) L.tight[v] = {e->a->lo, e->a->hi}; auto &t = L.tight[v]; i128 k = sx(e->b->v, e->b->w);
        switch (e->op) { case P_SLT: t.second = std::min(t.second, k - 1); break; case P_SLE: t.second = std::min(t.second, k); break; case P_SGT: t.first = std::max(t.first, k + 1); break; case P_SGE: t.first = std::max(t.first, k); break; case P_EQ: t = {k, k}; break; case P_ULT: if (k > 0) t = {std::max(t.first, (i128)0), std::min(t.second, k - 1)}; break; }
      }
      vector<z3::expr> as; 
      // the single-variable bounds used for ranges are asserted as well, so the encoding stays equivalent
      for (Expr *e : cs) as.push_back(L.B(e));
      auto build = [&](z3::solver &s) { z3::params p(*zc); p.set("rlimit", (unsigned)std::min(rlimit, 4000000000L)); s.set(p); for (auto &x : as) s.add(x); for (size_t i = 0; i < L.side.size(); i++) s.add(L.side[i]); };
      vector<int> strat;
      if (L.hasReal && !L.hasInt && L.nonlin) strat = {1, 0}; else if (L.hasReal && L.nonlin) strat = {0, 2}; else strat = {0};
      for (int st : strat) {
        z3::solver s = st == 1 ? z3::tactic(*zc, "qfnra-nlsat").mk_solver() : st == 2 ? z3::tactic(*zc, "smt").mk_solver() : z3::solver(*zc);
        build(s);
        z3::check_result r = guarded(s);
        if (r == z3::unsat) { res = UNSAT; break; }
        if (r == z3::sat) {
          res = SAT;
          if (out) {
            z3::model m = s.get_model(); out->valid = !L.trans; out->v.clear(); out->d.clear(); padModel(*out);
            for (unsigned i = 0; i < vars.size(); i++) {
              Var &v = vars[i];
              try {
                if (g_ieee && v.real) { z3::expr x = m.eval(zc->constant(v.name.c_str(), zc->fpa_sort<64>()), true); z3::expr b = m.eval(z3::expr(*zc, Z3_mk_fpa_to_ieee_bv(*zc, x)), true); uint64_t u = 0; bool have = m.has_interp(zc->constant(v.name.c_str(), zc->fpa_sort<64>()).decl()); if (have && Z3_get_numeral_uint64(*zc, b, &u)) { memcpy(&out->d[i], &u, 8); } continue; }
                z3::expr k = v.real ? zc->real_const(v.name.c_str()) : bv ? zc->bv_const(v.name.c_str(), v.e->w) : zc->int_const(v.name.c_str());
                if (!m.has_interp(k.decl())) continue;
                z3::expr x = m.eval(k, true); bool ex;
                if (!v.real && bv) { uint64_t u; if (Z3_get_numeral_uint64(*zc, x, &u)) out->v[i] = mpq_class((long)sx(u, v.e->w)); }
                else { out->v[i] = parseNum(x, ex); if (!ex) out->valid = false; if (v.real) out->d[i] = out->v[i].get_d(); }
              } catch (z3::exception &) {}
            }
            // log is only axiomatised: where its argument is linear in one variable, that variable is set so that the logarithm has the value of the model
            for (int id : L.logs) { Atom a = atoms[id]; int var = -1;
              for (int depth = 0; depth < 4 && a.p->t.size() == 1 && a.p->t[0].c == 1 && a.p->t[0].m->f.size() == 1 && a.p->t[0].m->f[0].second == 1; depth++) { Atom &it = atoms[a.p->t[0].m->f[0].first]; if (it.k == A_SUM) { a.p = it.p; continue; } if (it.k != A_ITE) break; try { Eval ev(*out); a.p = ev.i(it.e) ? it.p : it.q; } catch (Eval::Fail &) { break; } }
               mpq_class c0 = 0, c1 = 0; bool lin = true;
              for (auto &t : a.p->t) { if (t.m->f.empty()) c0 = t.c; else if (t.m->f.size() == 1 && t.m->f[0].second == 1 && atoms[t.m->f[0].first].k == A_VAR && (var < 0 || var == atoms[t.m->f[0].first].var)) { var = atoms[t.m->f[0].first].var; c1 = t.c; } else lin = false; }
              if (!lin || var < 0) continue;
              try { z3::expr x = m.eval(L.amemo.at(id), true); bool ex; double lv = parseNum(x, ex).get_d(); double u = (std::exp(lv) - c0.get_d()) / c1.get_d(); Var &v = vars[var]; if (!std::isfinite(u)) continue; if (u < v.dlo) u = v.dlo; if (u > v.dhi) u = v.dhi; out->v[var] = mpq_class(u); out->d[var] = u; } catch (z3::exception &) {} catch (std::out_of_range &) {} }
          }
          break;
        }
      }
      break;
    } catch (BvNeeded &) { continue; }
    catch (Unsup &u) { if (g_verbose) fprintf(stderr, "lower: %s\n", u.s.c_str()); break; }
  }
  if (res == SAT) G->q_sat++; else if (res == UNSAT) G->q_unsat++; else G->q_unknown++;
  G->solver_us += (long)((now() - t0) * 1e6);
  if (g_verbose && now() - t0 > 1.0) fprintf(stderr, "[slow query %.2fs -> %d, %zu constraints]\n", now() - t0, res, cs.size());
  return res;
}
// query: path condition and extra; sliced
static Res query(Expr *extra, Model *out, long rlimit = 0) {
  if (!rlimit) rlimit = g_rlimit;
  if (isFalse(extra)) return UNSAT;
  vector<Expr *> rel{extra}; Sup s = extra->sup; vector<bool> used(pc.size()); bool ch = true;
  while (ch) { ch = false; for (size_t i = 0; i < pc.size(); i++) if (!used[i] && sinter(pc[i]->sup, s)) { used[i] = true; rel.push_back(pc[i]); s = sor(s, pc[i]->sup); ch = true; } }
  vector<int> ids; for (Expr *e : rel) ids.push_back(e->id); std::sort(ids.begin(), ids.end());
  u64 h = 99; for (int i : ids) h = (h ^ (u64)i) * 1099511628211ull + 7;
  auto it = qcache.find(h); if (it != qcache.end() && (it->second == UNSAT || !out)) { G->cachehits++; return (Res)it->second; }
  Model m{false, {}, {}};
  Res r = solveZ(rel, out ? &m : nullptr, rlimit);
  if (r != UNK) qcache[h] = r;
  if (r == SAT && out) {
    // variables outside the slice keep the values of the current path model
    Model cur = g_model; padModel(cur); padModel(m);
    *out = cur; out->valid = m.valid && cur.valid;
    for (size_t i = 0; i < vars.size(); i++) if (s[i / 64] >> (i % 64) & 1) { out->v[i] = m.v[i]; out->d[i] = m.d[i]; }
  }
  return r;
}

// ------------------------------------------------------------------ path management
static void learn(Expr *c) {
  if (c->k == K_RCMP) {
    int m = c->op == R_LT ? 1 : c->op == R_LE ? 3 : c->op == R_EQ ? 2 : 5;
    auto it = polySign.find(c->p->id); polySign[c->p->id] = (it == polySign.end() ? 7 : it->second) & m;
    if (polySign[c->p->id] == 0) polySign[c->p->id] = m;
    Poly *n = pscale(c->p, -1); int k = ((m & 1) << 2) | (m & 2) | ((m & 4) >> 2); auto i2 = polySign.find(n->id); polySign[n->id] = (i2 == polySign.end() ? 7 : i2->second) & k; if (!polySign[n->id]) polySign[n->id] = k;
  }
}
static void addPC(Expr *c) { if (isTrue(c)) return; if (c->k == K_BAND) { addPC(c->a); addPC(c->b); return; } pc.push_back(c); learn(c); }
static void waitKid(pid_t p) { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} if (WIFSIGNALED(st)) { G->incomplete++; slot(G->unsup, G->nunsup, 64, "worker process killed")->n++; sem_post(&G->tokens); } }
static void writeModel(const char *prefix, const char *kind, const string &msg, const Model &m0, long n);
static bool checkDeadline();
[[noreturn]] static void finish(bool complete = true) {
  g_rt++;
  if (complete) { G->paths++; padModel(g_model);
    // a few path witnesses are handed to the driver, which replays them on the plain build
    if (g_model.valid && G->wit < g_maxwit) { long n = G->wit++; if (n < g_maxwit) writeModel("path", "path", "path witness", g_model, n); } }
  fflush(stdout); fflush(stderr);
  if (g_hold) { g_hold = false; sem_post(&G->tokens); }
  for (pid_t p : g_kids) waitKid(p);
  _exit(0);
}
[[noreturn]] static void incomplete(const char *why) { G->incomplete++; slot(G->unsup, G->nunsup, 64, why)->n++; finish(false); }
static bool checkDeadline() { if (G->stop) { G->skipped++; finish(false); } if (now() > G->deadline) incomplete("time budget exhausted"); return true; }
extern "C" void symx_tick_arm();
// returns true in the child
static bool spawn() {
  fflush(stdout); fflush(stderr);
  bool conc = sem_trywait(&G->tokens) == 0;
  for (size_t i = 0; i < g_kids.size();) { int st; pid_t r = waitpid(g_kids[i], &st, WNOHANG); if (r == g_kids[i]) { if (WIFSIGNALED(st)) { G->incomplete++; sem_post(&G->tokens); } g_kids.erase(g_kids.begin() + i); } else i++; }
  pid_t p = fork();
  if (p < 0) { if (conc) sem_post(&G->tokens); incomplete("fork failed"); }
  if (p == 0) { g_kids.clear(); G->forks++; g_hold = true; symx_tick_arm(); return true; }
  if (conc) { g_kids.push_back(p); return false; }
  waitKid(p);
  while (sem_wait(&G->tokens) < 0 && errno == EINTR) {}
  g_hold = true;
  return false;
}
static long g_mybr_;
// what the path condition is known to imply (it only ever grows along a path, and a fork inherits it)
static std::unordered_map<int, u64> g_known;
static bool branch1(Expr *c);
static bool branch(Expr *c) {
  if (isC(c)) return c->v;
  auto it = g_known.find(c->id); if (it != g_known.end()) { G->branches++; G->forced++; return it->second; }
  bool r = branch1(c); g_known[c->id] = r; g_known[mkNot(c)->id] = !r; return r;
}
static bool branch1(Expr *c) {
  g_mybr_++;
  checkDeadline();
  G->branches++;
  padModel(g_model);
  // syntactically implied by the path?
  Expr *n = mkNot(c);
  for (Expr *e : pc) { if (e == c) return true; if (e == n) return false; }
  int v = evalBool(c, g_model);
  if (v >= 0) {
    G->modelhits++;
    Model m2; Res r = query(v ? n : c, &m2);
    if (r == UNSAT) { G->forced++; learn(v ? c : n); return v; }
    if (r == UNK) { G->feas_unknown++; m2 = g_model; m2.valid = false; }
    if (spawn()) { addPC(v ? n : c); g_model = m2; g_pathhash = g_pathhash * 31 + 2; return !v; }
    addPC(v ? c : n); g_pathhash = g_pathhash * 31 + 1; return v;
  }
  Model m1, m2; Res r1 = query(c, &m1), r2 = query(n, &m2);
  if (r1 == UNK) { m1 = g_model; m1.valid = false; G->feas_unknown++; }
  if (r2 == UNK) { m2 = g_model; m2.valid = false; G->feas_unknown++; }
  if (r1 == UNSAT && r2 == UNSAT) { G->assumed_out++; finish(false); }
  if (r2 == UNSAT) { G->forced++; learn(c); if (r1 == SAT && m1.valid) g_model = m1; return true; }
  if (r1 == UNSAT) { G->forced++; learn(n); if (r2 == SAT && m2.valid) g_model = m2; return false; }
  if (spawn()) { addPC(n); g_model = m2; return false; }
  addPC(c); g_model = m1; return true;
}
static u64 concretize(Expr *e) {
  if (isC(e)) return e->v;
  auto kn = g_known.find(e->id); if (kn != g_known.end()) return kn->second;
  G->conc++;
  // substitute known equality
  for (int guard = 0; guard < 3000; guard++) {
    checkDeadline(); padModel(g_model);
    u64 val; bool have = false;
    if (g_model.valid) try { Eval ev(g_model); val = ev.i(e); have = true; } catch (Eval::Fail &) {}
    if (!have) {
      // get a fresh model of the path
      Model m; Res r = query(mkCmp(P_EQ, e, e) == T() ? mkE(K_BOR, 1, 0, mkCmp(P_EQ, e, iconst(0, e->w)), mkNot(mkCmp(P_EQ, e, iconst(0, e->w))), 0, 0, 0) : T(), &m);
      if (r == SAT) { try { m.valid = true; Eval ev(m); val = ev.i(e); have = true; } catch (Eval::Fail &) {} }
      if (!have) { // try small values
        for (i64 k = -8; k <= 64 && !have; k++) if (query(mkCmp(P_EQ, e, iconst(k, e->w)), nullptr) == SAT) { val = mk(k, e->w); have = true; }
      }
      if (!have) incomplete("cannot concretise a value");
    }
    if (branch(mkCmp(P_EQ, e, iconst(val, e->w)))) { g_known[e->id] = val; return val; }
  }
  incomplete("too many concrete values");
}

// ------------------------------------------------------------------ violations
static string hexd(double d) { char b[64]; snprintf(b, 64, "%a", d); return b; }
static double clampd(Var &v, const mpq_class &q) {
  double d = q.get_d(); // truncates
  mpq_class e = q - mpq_class(d); double n = std::nextafter(d, sgn(e) > 0 ? INFINITY : -INFINITY); if (e != 0 && abs(mpq_class(n) - q) < abs(e)) d = n;
  if (d < v.dlo) d = v.dlo; if (d > v.dhi) d = v.dhi; return d;
}
static void writeModel(const char *prefix, const char *kind, const string &msg, const Model &m0, long n) {
  Model m = m0; padModel(m);
  string f = g_out + "/" + prefix + "_" + std::to_string(getpid()) + "_" + std::to_string(G->cands.load()) + "_" + std::to_string(n) + ".txt";
  FILE *o = fopen(f.c_str(), "w"); if (!o) return;
  string t = msg; for (char &ch : t) if (ch == '\n') ch = ' ';
  fprintf(o, "kind %s\nmsg %s\n", kind, t.c_str());
  for (size_t i = 0; i < vars.size(); i++) { Var &v = vars[i];
    if (v.real) { double d = g_ieee ? m.d[i] : clampd(v, m.v[i]); fprintf(o, "real %s %s %.17g\n", v.name.c_str(), hexd(d).c_str(), d); }
    else fprintf(o, "int %s %ld\n", v.name.c_str(), m.v[i].get_num().get_si()); }
  fclose(o);
}
static bool candidate(const char *kind, const string &msg, const Model &m0) {
  Shared::Msg *s = slot(G->msgs, G->nmsg, 256, msg.c_str());
  long n = s->bad++; G->cands++;
  if (n >= g_maxcand) return false;
  writeModel("cand", kind, msg, m0, n); return true;
}
static Model pathModel(bool &ok) {
  ok = true; padModel(g_model);
  if (g_model.valid) return g_model;
  Model m{false, {}, {}}; Res r = solveZ(pc, &m, g_rlimit); if (r != SAT) { ok = false; return g_model; } padModel(m); return m;
}
[[noreturn]] static void crashPath(const char *kind, const string &msg) {
  bool ok; Model m = pathModel(ok); slot(G->msgs, G->nmsg, 256, msg.c_str())->n++; G->checks++; candidate(kind, msg, m); finish();
}
static bool transP(Poly *p) { for (auto &t : p->t) for (auto &z : t.m->f) { Atom &a = atoms[z.first]; if (a.k == A_LOG || a.k == A_EXP || a.k == A_UF) return true; if ((a.p && transP(a.p)) || (a.q && transP(a.q))) return true; } return false; }
static vector<Expr *> niceFix(int lvl); static int approxBool(Expr *c, const Model &m); static Expr *spread(const Sup &s, int k, Model *m);
// assertion: c must hold on every value satisfying the path condition
static void checkExpr(Expr *c, Expr *signif, const char *msg) {
  Shared::Msg *s = slot(G->msgs, G->nmsg, 256, msg); s->n++; G->checks++;
  if (isTrue(c)) { G->checks_static++; s->ok++; return; }
  checkDeadline();
  Expr *n = mkNot(c); Model m{false, {}, {}}; Res r;
  if (isFalse(c)) { bool ok; m = pathModel(ok); r = SAT; }
  else {
    padModel(g_model); int v = evalBool(c, g_model);
    if (v == 0) { m = g_model; r = SAT; } else r = query(n, &m);
  }
  if (r == UNSAT) { G->checks_solver++; s->ok++; return; }
  if (r == SAT && signif) {
    Model m2; Res r2 = isTrue(signif) ? SAT : query(signif, &m2);
    if (isTrue(signif)) m2 = m;
    if (r2 == UNSAT) { G->checks_solver++; s->ok++; return; }
    if (r2 == SAT) m = m2;
  }
  if (r == SAT) {
    candidate("check", msg, m);
    // a logarithm on the edge of a comparison does not survive rounding: ask for a counterexample away from the edges
    if (!g_ieee && s->bad <= g_maxcand) { Expr *f = signif ? signif : n; bool any = false; int tries = 0; vector<Expr *> es = pc; es.push_back(n);
      for (Expr *e : es) if (e->k == K_RCMP && (e->op == R_LT || e->op == R_LE) && transP(e->p) && tries++ < 12) for (double de : {1e-2, 1e-5}) { Expr *g = mkAnd(f, mkRCmp(R_LE, padd(e->p, pconst(mpq_class(de))))); Model m3; if (!isFalse(g) && query(g, &m3, g_rlimit / 4) == SAT) { f = g; m = m3; any = true; break; } }
      if (any) candidate("check", msg, m); }
    // further, different counterexamples: ask for simple values
    for (int k = 0; k < 2; k++) { Expr *f = signif ? signif : n; bool any = false; for (Expr *x : niceFix(k)) { Expr *g = mkAnd(f, x); if (isFalse(g)) continue; Model m3; if (query(g, &m3, g_rlimit / 4) == SAT) { f = g; m = m3; any = true; } } if (any) candidate("check", msg, m); }
    // continue on the part of the input space where the assertion holds
    if (isFalse(c)) finish();
    Model m4; Res r4 = query(c, &m4); if (r4 == UNSAT) finish(); addPC(c); if (r4 == SAT) g_model = m4; else g_model.valid = false;
    return;
  }
  // unknown: look for a counterexample among simple values
  for (int k = 0; k < 2; k++) { Expr *f = signif ? signif : n; for (Expr *x : niceFix(k)) f = mkAnd(f, x); Model m3; if (query(f, &m3, g_rlimit / 2) == SAT) { candidate("check", msg, m3); s->unk++; G->checks_unknown++; return; } }
  if (!g_ieee) { Sup all = c->sup; for (Expr *e : pc) all = sor(all, e->sup); bool ok; Model b = pathModel(ok);
    for (int k = -1; k < 6; k++) { Model m3 = b; if (k < 0 && !ok) continue; if (k >= 0) spread(c->sup, k, &m3); bool feas = true; if (k >= 0) for (Expr *e : pc) if (sinter(e->sup, c->sup) && approxBool(e, m3) != 1) { feas = false; break; } if (feas && approxBool(signif ? signif : n, m3) == 1) { candidate("check", msg, m3); break; } } }
  s->unk++; G->checks_unknown++;
}

// ------------------------------------------------------------------ undecided points
static double libm1(const string &n, double x) {
  if (n == "sin") return sin(x); if (n == "cos") return cos(x); if (n == "tan") return tan(x); if (n == "asin") return asin(x); if (n == "acos") return acos(x); if (n == "atan") return atan(x); if (n == "sinh") return sinh(x); if (n == "cosh") return cosh(x); if (n == "tanh") return tanh(x);
  if (n == "cbrt") return cbrt(x); if (n == "erf") return erf(x); if (n == "erfc") return erfc(x); if (n == "tgamma") return tgamma(x); if (n == "lgamma") return lgamma(x); if (n == "log2") return log2(x); if (n == "log10") return log10(x); if (n == "exp2") return exp2(x); if (n == "exp10") return pow(10, x);
  if (n == "floor") return floor(x); if (n == "ceil") return ceil(x); if (n == "trunc") return trunc(x); if (n == "round" || n == "lround" || n == "llround") return round(x); if (n == "rint" || n == "nearbyint" || n == "lrint" || n == "roundeven") return rint(x); if (n == "log") return log(x); if (n == "log1p") return log1p(x); if (n == "exp") return exp(x); if (n == "expm1") return expm1(x); if (n == "sqrt") return sqrt(x); if (n == "fabs") return fabs(x);
  throw Unsup{"math " + n};
}
static double libm2(const string &n, double x, double y) {
  if (n == "pow" || n == "powi") return pow(x, y); if (n == "fmod") return fmod(x, y); if (n == "remainder") return remainder(x, y); if (n == "atan2") return atan2(x, y); if (n == "hypot") return hypot(x, y); if (n == "fmin") return fmin(x, y); if (n == "fmax") return fmax(x, y); if (n == "copysign") return copysign(x, y); if (n == "fdim") return fdim(x, y); if (n == "nextafter") return nextafter(x, y); if (n == "ldexp") return ldexp(x, (int)y);
  throw Unsup{"math2 " + n};
}
// Value of an expression in double arithmetic, transcendental functions included; refuses comparisons that are closer than rounding
struct DEval {
  const Model &m; std::unordered_map<int, double> am; std::unordered_map<Expr *, u64> im; struct Fail {};
  DEval(const Model &mm) : m(mm) {}
  double ok(double x) { if (!std::isfinite(x)) throw Fail(); return x; }
  double atomv(int id) {
    auto it = am.find(id); if (it != am.end()) return it->second; Atom a = atoms[id]; double r;
    switch (a.k) {
    case A_VAR: r = clampd(vars[a.var], m.v[a.var]); break; case A_SUM: r = poly(a.p); break; case A_SQRT: r = sqrt(poly(a.p)); break; case A_LOG: r = log(poly(a.p)); break; case A_EXP: r = exp(poly(a.p)); break;
    case A_ITE: r = i(a.e) ? poly(a.p) : poly(a.q); break; case A_I2R: r = (double)sx(i(a.e), a.e->w); break; case A_FLOOR: r = floor(poly(a.p)); break;
    case A_UF: try { r = libm1(a.nm, poly(a.p)); } catch (Unsup &) { throw Fail(); } break; default: throw Fail(); }
    return am[id] = ok(r);
  }
  double poly(Poly *p, double *scale = nullptr) { double s = 0, q = 0; for (auto &t : p->t) { double x = t.c.get_d(); for (auto &z : t.m->f) x *= std::pow(atomv(z.first), z.second); s += x; q += std::fabs(x); } if (scale) *scale = q; return ok(s); }
  u64 i(Expr *e) {
    if (e->k == K_ICONST) return e->v; auto it = im.find(e); if (it != im.end()) return it->second; u64 r; bool good;
    switch (e->k) {
    case K_IVAR: r = mk((u64)m.v[e->v].get_num().get_si(), e->w); break; case K_IBIN: r = evalBin(e->op, e->w, i(e->a), i(e->b), good); if (!good) throw Fail(); break;
    case K_ICMP: r = mkCmp(e->op, iconst(i(e->a), e->a->w), iconst(i(e->b), e->b->w))->v; break; case K_ICAST: r = e->op == C_SEXT ? mk(sx(i(e->a), e->a->w), e->w) : mk(i(e->a), e->w); break; case K_IITE: r = i(e->a) ? i(e->b) : i(e->c); break;
    case K_RCMP: { double q, v = poly(e->p, &q); if (std::fabs(v) <= 1e-8 * q) throw Fail(); r = e->op == R_LT || e->op == R_LE ? v < 0 : e->op == R_NE; break; }
    case K_R2I: r = mk((u64)(i64)poly(e->p), e->w); break; case K_BNOT: r = !i(e->a); break; case K_BAND: r = i(e->a) && i(e->b); break; case K_BOR: r = i(e->a) || i(e->b); break; case K_CONCAT: r = i(e->a) << e->b->w | i(e->b); break; case K_EXTRACT: r = mk(i(e->a) >> e->op, e->w); break;
    default: throw Fail(); }
    return im[e] = r;
  }
};
static int approxBool(Expr *c, const Model &m) { try { DEval d(m); return d.i(c) ? 1 : 0; } catch (DEval::Fail &) { return -1; } }
// values for the variables in s that are neither special nor on the edge of their ranges
static Expr *spread(const Sup &s, int k, Model *m) {
  Expr *f = T(); static const double fr[] = {0.37, 0.61, 0.83, 0.19, 0.47, 0.71}; int n = k;
  for (size_t i = 0; i < vars.size(); i++) if (s[i / 64] >> (i % 64) & 1) { Var &v = vars[i]; if (!v.real) continue; double q = fr[n++ % 6], lo = v.dlo, hi = v.dhi, d;
    if (lo > 0 && hi / lo > 100) d = lo * std::pow(hi / lo, q); else d = lo + (hi - lo) * q;
    d = strtod((std::to_string(d)).c_str(), 0); if (d < lo || d > hi) d = lo + (hi - lo) * q; if (m) { m->v[i] = mpq_class(d); m->d[i] = d; }
    if (!g_ieee) f = mkAnd(f, mkRCmp(R_EQ, padd(v.e->p, pconst(mpq_class(d)), -1))); }
  return f;
}
// The operation cannot be encoded: its operands are fixed to values the solver finds for them on this path (a few alternatives,
// one path each) and the path goes on. Reported as a cut path: the other values of these operands stay undecided.
static void pin(const Sup &s, const char *why) {
  static bool told = false; if (!told) { told = true; G->incomplete++; slot(G->unsup, G->nunsup, 64, (string("operand fixed: ") + why).c_str())->n++; }
  bool ok; Model base = pathModel(ok); if (!ok) incomplete(why); vector<Model> alt;
  if (!g_ieee) for (int k = 0; k < 3; k++) { Expr *f = spread(s, k, nullptr); if (isTrue(f)) break; Model m; if (!isFalse(f) && query(f, &m) == SAT && m.valid) { spread(s, k, &m); alt.push_back(m); } }
  alt.push_back(base); size_t c = 0; for (; c + 1 < alt.size(); c++) { checkDeadline(); if (spawn()) break; } g_pathhash = g_pathhash * 31 + 17 + c; g_model = alt[c]; g_model.valid = true;
  for (size_t i = 0; i < vars.size(); i++) if (s[i / 64] >> (i % 64) & 1) { Var &v = vars[i];
    if (!v.real) addPC(mkCmp(P_EQ, v.e, iconst((u64)g_model.v[i].get_num().get_si(), v.e->w)));
    else if (g_ieee) { u64 b; memcpy(&b, &g_model.d[i], 8); addPC(mkE(K_FCMP, 1, 1, v.e, mkE(K_FCONST, 64, 0, 0, 0, 0, b, 0), 0, 0, 0)); }
    else addPC(mkRCmp(R_EQ, padd(v.e->p, pconst(g_model.v[i]), -1))); }
}
static double pinned(Expr *e, const char *why) {
  if (e->k == K_RINF) return e->op * INFINITY; if (e->k == K_RNAN) return NAN;
  if (e->k == K_RPOLY && pisconst(e->p)) return pcval(e->p).get_d(); if (e->k == K_FCONST) { double d; memcpy(&d, &e->v, 8); return d; }
  pin(e->sup, why); padModel(g_model);
  try { if (g_ieee) { Eval ev(g_model); return ev.f(e); } if (e->k != K_RPOLY) incomplete(why); DEval d(g_model); return d.poly(e->p); } catch (Eval::Fail &) {} catch (DEval::Fail &) {}
  incomplete(why);
}

// ------------------------------------------------------------------ shadow memory
struct Cell { Expr *e; u8 off, size; };
static const int PGB = 9; static const u64 PGS = 1 << PGB;
struct Page { int n; Cell c[PGS]; };
static std::unordered_map<u64, Page *> pages;
static u64 pg_lo = ~0ull, pg_hi = 0;
static inline Page *pageOf(u64 a) { u64 k = a >> PGB; if (k < pg_lo || k > pg_hi) return nullptr; auto it = pages.find(k); return it == pages.end() ? nullptr : it->second; }
static void clearRange(u64 a, u64 n) {
  if (pages.empty() || !n) return;
  if (((a + n - 1) >> PGB) < pg_lo || (a >> PGB) > pg_hi) return;
  u64 e = a + n;
  while (a < e) {
    u64 pe = std::min(e, ((a >> PGB) + 1) << PGB); Page *p = pageOf(a);
    if (p && p->n) for (u64 x = a; x < pe; x++) { Cell &c = p->c[x & (PGS - 1)]; if (c.e) { c.e = 0; p->n--; } }
    a = pe;
  }
}
static void setCell(u64 a, Expr *e, u8 off, u8 size) {
  Page *p = pageOf(a);
  if (!p) { if (!e) return; p = (Page *)calloc(1, sizeof(Page)); u64 k = a >> PGB; pages[k] = p; pg_lo = std::min(pg_lo, k); pg_hi = std::max(pg_hi, k); }
  Cell &c = p->c[a & (PGS - 1)];
  if (c.e && !e) p->n--; if (!c.e && e) p->n++;
  c.e = e; c.off = off; c.size = size;
}
static Cell getCell(u64 a) { Page *p = pageOf(a); if (!p || !p->n) return Cell{0, 0, 0}; return p->c[a & (PGS - 1)]; }
static bool isReal(Expr *e) { return e->k == K_RPOLY || e->k == K_RINF || e->k == K_RNAN || (e->k >= K_FVAR && e->k != K_FCMP && e->k != K_F2I); }
static Expr *byteOf(Expr *e, int off) { if (isReal(e)) e = mkE(K_FPBITS, 64, 0, e, 0, 0, 0, 0); if (e->w < 8) e = mkCast(C_ZEXT, e, 8); if (off * 8 >= e->w) return iconst(0, 8); return mkExtract(e, off * 8, 8); }

#define X extern "C"
static Expr *E(void *p) { return (Expr *)p; }
template <class Fn> static void *guarded(Fn f) { RT r; try { Expr *e = f(); return e; } catch (Unsup &u) { incomplete(("unsupported: " + u.s).c_str()); } }
static Expr *iv(u64 a, void *s, int w) { if (!s) return iconst(a, w); Expr *e = E(s); if (!isC(e)) { auto it = g_known.find(e->id); if (it != g_known.end()) return iconst(it->second, e->w); } return e; }
static Expr *maybe(Expr *e) { return e; }

X void *__sym_load(void *p, uint32_t size, uint32_t kind) {
  u64 a = (u64)p;
  if (pages.empty()) return nullptr;
  { u64 k = a >> PGB, k2 = (a + size - 1) >> PGB; if (k2 < pg_lo || k > pg_hi) return nullptr; Page *q = pageOf(a), *q2 = k2 == k ? q : pageOf(a + size - 1); if ((!q || !q->n) && (!q2 || !q2->n)) return nullptr; }
  RT rt;
  bool any = false; Cell c0 = getCell(a); bool exact = c0.e && c0.off == 0 && c0.size == size;
  for (u64 i = 0; i < size; i++) { Cell c = getCell(a + i); if (c.e) any = true; if (!c.e || c.e != c0.e || c.off != i || c.size != size) exact = false; }
  if (!any) return nullptr;
  if (exact) {
    Expr *e = c0.e;
    if (kind >= 1000) { if (isReal(e)) return e; if (e->k == K_FPBITS) return e->a; incomplete("integer bits read as floating point"); }
    if (isReal(e)) return mkE(K_FPBITS, 64, 0, e, 0, 0, 0, 0);
    int w = kind; if ((int)e->w == w) return e; return e->w > w ? mkCast(C_TRUNC, e, w) : mkCast(C_ZEXT, e, w);
  }
  if (kind >= 1000) incomplete("partial floating point load");
  try {
    Expr *r = nullptr;
    for (int i = (int)size - 1; i >= 0; i--) { Cell c = getCell(a + i); Expr *b = c.e ? byteOf(c.e, c.off) : iconst(((u8 *)p)[i], 8); r = r ? mkConcat(r, b) : b; }
    if (r->w > (int)kind) r = mkCast(C_TRUNC, r, kind);
    return r;
  } catch (Unsup &u) { incomplete(u.s.c_str()); }
}
X void __sym_store(void *p, uint32_t size, uint32_t kind, void *s) {
  if (!s) { clearRange((u64)p, size); return; }
  RT rt; Expr *e = E(s);
  if (e->k == K_FPBITS && size == 8) e = e->a;
  for (uint32_t i = 0; i < size; i++) setCell((u64)p + i, e, i, size);
}
X void __sym_clear(void *p, u64 n) { clearRange((u64)p, n); }
X void __sym_memcpy(void *d, void *s, u64 n) {
  if (pages.empty() || !n || d == s) return;
  RT rt; u64 D = (u64)d, S = (u64)s;
  bool any = false;
  for (u64 a = S >> PGB; a <= (S + n - 1) >> PGB; a++) { Page *p = pageOf(a << PGB); if (p && p->n) { any = true; break; } }
  if (!any) { clearRange(D, n); return; }
  vector<Cell> tmp(n); for (u64 i = 0; i < n; i++) tmp[i] = getCell(S + i);
  for (u64 i = 0; i < n; i++) setCell(D + i, tmp[i].e, tmp[i].off, tmp[i].size);
}
X void __sym_memset(void *p, uint8_t v, void *s, u64 n) { if (s) { RT rt; Expr *e = E(s); for (u64 i = 0; i < n; i++) setCell((u64)p + i, e, 0, 1); } else clearRange((u64)p, n); }
X void __sym_require_concrete(void *p, u64 n) { if (pages.empty()) return; for (u64 i = 0; i < n; i++) if (getCell((u64)p + i).e) { RT r; incomplete("wide/vector load of symbolic data"); } }
X int32_t __sym_memcmp(void *a, void *b, u64 n) {
  for (u64 i = 0; i < n; i++) {
    Cell x = getCell((u64)a + i), y = getCell((u64)b + i); u8 va = ((u8 *)a)[i], vb = ((u8 *)b)[i];
    if (!x.e && !y.e) { if (va != vb) return va < vb ? -1 : 1; continue; }
    RT r; Expr *ex = x.e ? byteOf(x.e, x.off) : iconst(va, 8), *ey = y.e ? byteOf(y.e, y.off) : iconst(vb, 8);
    if (!branch(mkCmp(P_EQ, ex, ey))) return branch(mkCmp(P_ULT, ex, ey)) ? -1 : 1;
  }
  return 0;
}

// ------------------------------------------------------------------ real/fp operations
static Expr *fconst(double d) {
  if (g_ieee) { u64 b; memcpy(&b, &d, 8); return mkE(K_FCONST, 64, 0, 0, 0, 0, b, 0); }
  if (std::isinf(d)) return mkE(K_RINF, 64, d > 0 ? 1 : -1, 0, 0, 0, 0, 0);
  if (std::isnan(d)) return mkE(K_RNAN, 64, 0, 0, 0, 0, 0, 0);
  return rexpr(pconst(mpq_class(d)));
}
static Expr *fvl(double a, void *s) { return s ? E(s) : fconst(a); }
static Expr *NANX() { return mkE(K_RNAN, 64, 0, 0, 0, 0, 0, 0); }
static Expr *INFX(int s) { return mkE(K_RINF, 64, s, 0, 0, 0, 0, 0); }
static int rsign(Expr *e) { // forks on the sign of a finite real: -1,0,1
  int s = signP(e->p); if (s == 4) return 1; if (s == 1) return -1; if (s == 2) return 0;
  if (branch(mkRCmp(R_EQ, e->p))) return 0; return branch(mkRCmp(R_LT, e->p)) ? -1 : 1;
}
static Expr *rbin(int op, Expr *a, Expr *b) {
  if (g_ieee) {
    if (a->k == K_FCONST && b->k == K_FCONST) { double x, y, r; memcpy(&x, &a->v, 8); memcpy(&y, &b->v, 8); r = op == OP_FADD ? x + y : op == OP_FSUB ? x - y : op == OP_FMUL ? x * y : x / y; return fconst(r); }
    if (op == OP_FREM) throw Unsup{"fp frem"};
    return mkE(K_FOP, 64, op, a, b, 0, 0, 0);
  }
  if (a->k == K_RNAN || b->k == K_RNAN) return NANX();
  if (a->k == K_RINF || b->k == K_RINF) {
    if (op == OP_FSUB) { if (b->k == K_RINF) b = INFX(-b->op); else b = rexpr(pscale(b->p, -1)); op = OP_FADD; }
    if (op == OP_FADD) { if (a->k == K_RINF && b->k == K_RINF) return a->op == b->op ? a : NANX(); return a->k == K_RINF ? a : b; }
    if (op == OP_FMUL) { int sa = a->k == K_RINF ? a->op : rsign(a), sb = b->k == K_RINF ? b->op : rsign(b); int s = sa * sb; return s ? INFX(s) : NANX(); }
    if (op == OP_FDIV) { if (a->k == K_RINF && b->k == K_RINF) return NANX(); if (b->k == K_RINF) return rexpr(pconst(0)); int sb = rsign(b); return INFX(a->op * (sb < 0 ? -1 : 1)); }
    throw Unsup{"inf op"};
  }
  switch (op) {
  case OP_FADD: return rexpr(padd(a->p, b->p));
  case OP_FSUB: return rexpr(padd(a->p, b->p, -1));
  case OP_FMUL: return rexpr(pmul(a->p, b->p));
  case OP_FDIV: {
    if (branch(mkRCmp(R_EQ, b->p))) { int sa = rsign(a); return sa ? INFX(sa) : NANX(); }
    return rexpr(pmul(a->p, pinv(b->p))); }
  }
  throw Unsup{"real op"};
}
static Expr *realIte(Expr *c, Expr *a, Expr *b) {
  if (isC(c)) return c->v ? a : b; if (a == b) return a;
  if (g_ieee) return mkE(K_FITE, 64, 0, c, a, b, 0, 0);
  if (a->k != K_RPOLY || b->k != K_RPOLY) return branch(c) ? a : b;
  // common part is pulled out: ite(c, x+d, x) = x + ite(c,d,0)
  return rexpr(patom(atom(A_ITE, a->p, b->p, c)));
}
static Expr *rcmp(int pred, Expr *a, Expr *b) {
  // LLVM fcmp predicates: bit0 EQ, bit1 GT, bit2 LT, bit3 UNO
  if (pred == 0) return F(); if (pred == 15) return T();
  if (g_ieee) { if (a->k == K_FCONST && b->k == K_FCONST) { double x, y; memcpy(&x, &a->v, 8); memcpy(&y, &b->v, 8); bool un = std::isnan(x) || std::isnan(y); bool o = un ? (pred & 8) : (((pred & 1) && x == y) || ((pred & 2) && x > y) || ((pred & 4) && x < y)); return o ? T() : F(); } return mkE(K_FCMP, 1, pred, a, b, 0, 0, 0); }
  if (a->k == K_RNAN || b->k == K_RNAN) return (pred & 8) ? T() : F();
  if (a->k == K_RINF || b->k == K_RINF) {
    int x = a->k == K_RINF ? a->op : 0, y = b->k == K_RINF ? b->op : 0;
    bool r = ((pred & 1) && x == y) || ((pred & 2) && x > y) || ((pred & 4) && x < y); return r ? T() : F();
  }
  Poly *d = padd(a->p, b->p, -1);
  switch (pred & 7) { case 0: return F(); case 7: return T(); case 1: return mkRCmp(R_EQ, d); case 6: return mkRCmp(R_NE, d); case 4: return mkRCmp(R_LT, d); case 5: return mkRCmp(R_LE, d); case 2: return mkRCmp(R_LT, pscale(d, -1)); default: return mkRCmp(R_LE, pscale(d, -1)); }
}
static Expr *rneg(Expr *a) { if (g_ieee) return mkE(K_FOP, 64, 100, a, 0, 0, 0, 0); if (a->k == K_RINF) return INFX(-a->op); if (a->k == K_RNAN) return a; return rexpr(pscale(a->p, -1)); }
static Expr *rabs(Expr *a) { if (g_ieee) return mkE(K_FOP, 64, 101, a, 0, 0, 0, 0); if (a->k == K_RINF) return INFX(1); if (a->k == K_RNAN) return a; int s = signP(a->p); if (!(s & 1)) return a; if (!(s & 4)) return rneg(a); return realIte(mkRCmp(R_LT, a->p), rneg(a), a); }
static Expr *rsqrt(Expr *a) {
  if (g_ieee) return mkE(K_FOP, 64, 102, a, 0, 0, 0, 0);
  if (a->k == K_RNAN) return a; if (a->k == K_RINF) return a->op > 0 ? a : NANX();
  if (branch(mkRCmp(R_LT, a->p))) return NANX();
  if (pisconst(a->p)) { mpq_class x = pcval(a->p); if (mpz_perfect_square_p(x.get_num_mpz_t()) && mpz_perfect_square_p(x.get_den_mpz_t())) return rexpr(pconst(mpq_class(sqrt(x.get_num()), sqrt(x.get_den())))); }
  return rexpr(patom(atom(A_SQRT, a->p)));
}
static Expr *rfloor(Expr *a) { if (a->k != K_RPOLY) return a; if (pisconst(a->p)) { mpq_class x = pcval(a->p); mpz_class z; mpz_fdiv_q(z.get_mpz_t(), x.get_num_mpz_t(), x.get_den_mpz_t()); return rexpr(pconst(mpq_class(z))); }
  if (a->p->t.size() == 1 && a->p->t[0].c == 1 && a->p->t[0].m->f.size() == 1 && a->p->t[0].m->f[0].second == 1) { AK k = atoms[a->p->t[0].m->f[0].first].k; if (k == A_I2R || k == A_FLOOR) return a; }
  int fa = atom(A_FLOOR, a->p); Iv fi = ivAtom(fa); if (!fi.li && !fi.hi_ && fi.lo == fi.hi) return rexpr(pconst(fi.lo));
  return rexpr(patom(fa)); }
static Expr *rlog(Expr *a) {
  if (a->k == K_RNAN) return a; if (a->k == K_RINF) return a->op > 0 ? a : NANX();
  int s = rsign(a); if (s < 0) return NANX(); if (s == 0) return INFX(-1);
  if (pisconst(a->p) && pcval(a->p) == 1) return rexpr(pconst(0));
  if (a->p->t.size() == 1 && a->p->t[0].c == 1 && a->p->t[0].m->f.size() == 1) { auto z = a->p->t[0].m->f[0]; if (atoms[z.first].k == A_EXP) return rexpr(pscale(atoms[z.first].p, z.second)); }
  if (a->p->t.size() == 1 && a->p->t[0].c == 1 && a->p->t[0].m->f.size() == 1) { auto z = a->p->t[0].m->f[0]; if (z.second != 1) { Poly *b = patom(z.first); if (!(signP(b) & 3)) { Expr *l = rlog(rexpr(b)); if (l->k == K_RPOLY) return rexpr(pscale(l->p, z.second)); } } }   // log(x^k) = k log x
  return rexpr(patom(atom(A_LOG, a->p)));
}
static Expr *newReal(const char *n, double lo, double hi, bool draw);
static Expr *math1(const string &n, Expr *a) {
  if (n == "fabs") return rabs(a);
  if (n == "sqrt") return rsqrt(a);
  if (g_ieee) throw Unsup{"ieee " + n};
  if (n == "floor") return rfloor(a);
  if (n == "ceil") return rneg(rfloor(rneg(a)));
  if (a->k != K_RPOLY && (n == "trunc" || n == "round" || n == "rint")) return a;
  if (n == "trunc") { int s = rsign(a); return s >= 0 ? rfloor(a) : rneg(rfloor(rneg(a))); }
  if (n == "round" || n == "lround" || n == "llround") { int s = rsign(a); Expr *h = fconst(0.5); return s >= 0 ? rfloor(rbin(OP_FADD, a, h)) : rneg(rfloor(rbin(OP_FADD, rneg(a), h))); }
  if (n == "log") return rlog(a);
  if (n == "log1p") return rlog(rbin(OP_FADD, a, fconst(1)));
  if (n == "exp") { if (a->k == K_RNAN) return a; if (a->k == K_RINF) return a->op > 0 ? a : rexpr(pconst(0)); return rexpr(pexp(a->p)); }
  if (n == "log2") return rbin(OP_FDIV, rlog(a), fconst(0.69314718055994530942)); if (n == "log10") return rbin(OP_FDIV, rlog(a), fconst(2.30258509299404568402));
  if (n == "exp2") return math1("exp", rbin(OP_FMUL, a, fconst(0.69314718055994530942)));
  if (n == "expm1") return rbin(OP_FSUB, math1("exp", a), fconst(1));
  if (a->k == K_RPOLY) return rexpr(patom(atom(A_UF, a->p, 0, 0, -1, n)));
  throw Unsup{"math " + n};
}
static Expr *math2(const string &n, Expr *a, Expr *b) {
  if (n == "fmin") return realIte(rcmp(4, a, b), a, b);
  if (n == "fmax") return realIte(rcmp(2, a, b), a, b);
  if (g_ieee) throw Unsup{"ieee " + n};
  if (n == "pow" || n == "powi") {
    if (b->k == K_RPOLY && pisconst(b->p)) {
      mpq_class e = pcval(b->p);
      if (e.get_den() == 1 && abs(e) <= 8) { int k = e.get_num().get_si(); if (k == 0) return fconst(1); Expr *r = fconst(1); for (int i = 0; i < std::abs(k); i++) r = rbin(OP_FMUL, r, a); return k < 0 ? rbin(OP_FDIV, fconst(1), r) : r; }
      if (e == mpq_class(1, 2)) return rsqrt(a);
      if (e == mpq_class(-1, 2)) return rbin(OP_FDIV, fconst(1), rsqrt(a));
      if (e == mpq_class(3, 2)) return rbin(OP_FMUL, a, rsqrt(a));
    }
    if (a->k == K_RPOLY && b->k == K_RPOLY) { int sg = rsign(a); if (sg > 0) return math1("exp", rbin(OP_FMUL, b, rlog(a))); if (sg == 0) { int sb = rsign(b); return sb > 0 ? fconst(0) : sb == 0 ? fconst(1) : INFX(1); } }
    throw Unsup{"general pow"};
  }
  if (n == "hypot") return rsqrt(rbin(OP_FADD, rbin(OP_FMUL, a, a), rbin(OP_FMUL, b, b)));
  if (n == "copysign") { Expr *x = rabs(a); return realIte(rcmp(4, b, fconst(0)), rneg(x), x); }
  if (n == "fdim") return realIte(rcmp(2, a, b), rbin(OP_FSUB, a, b), fconst(0));
  throw Unsup{"math2 " + n};
}
X void *__sym_fbinop(uint32_t op, uint32_t w, double a, void *sa, double b, void *sb) { if (!sa && !sb) return 0; return guarded([&]() -> Expr * { try { return rbin(op, fvl(a, sa), fvl(b, sb)); } catch (Unsup &u) { double x = pinned(fvl(a, sa), u.s.c_str()), y = pinned(fvl(b, sb), u.s.c_str()); return fconst(op == OP_FADD ? x + y : op == OP_FSUB ? x - y : op == OP_FMUL ? x * y : op == OP_FDIV ? x / y : fmod(x, y)); } }); }
X void *__sym_fneg(uint32_t, void *s) { if (!s) return 0; return guarded([&] { return rneg(E(s)); }); }
X void *__sym_fcmp(uint32_t p, uint32_t w, double a, void *sa, double b, void *sb) { if (!sa && !sb) return 0; return guarded([&] { return rcmp(p, fvl(a, sa), fvl(b, sb)); }); }
X void *__sym_math1(const char *n, uint32_t w, double a, void *s) { if (!s) return 0; return guarded([&]() -> Expr * { try { return math1(n, fvl(a, s)); } catch (Unsup &u) { return fconst(libm1(n, pinned(fvl(a, s), u.s.c_str()))); } }); }
X void *__sym_math2(const char *n, uint32_t w, double a, void *sa, double b, void *sb) { if (!sa && !sb) return 0; return guarded([&]() -> Expr * { try { return math2(n, fvl(a, sa), fvl(b, sb)); } catch (Unsup &u) { double x = pinned(fvl(a, sa), u.s.c_str()), y = pinned(fvl(b, sb), u.s.c_str()); return fconst(libm2(n, x, y)); } }); }
X void *__sym_math3(const char *n, uint32_t w, double a, void *sa, double b, void *sb, double c, void *sc) { if (!sa && !sb && !sc) return 0; return guarded([&] { return rbin(OP_FADD, rbin(OP_FMUL, fvl(a, sa), fvl(b, sb)), fvl(c, sc)); }); }
X void *__sym_fpclass(uint32_t w, void *s, uint32_t mask) {
  if (!s) return 0;
  return guarded([&]() -> Expr * { Expr *e = E(s); if (g_ieee) throw Unsup{"ieee fpclass"};
    if (e->k == K_RNAN) return (mask & 3) ? T() : F(); if (e->k == K_RINF) return (mask & (e->op > 0 ? 512 : 4)) ? T() : F();
    // finite: neg normal 8, neg subnormal 16, -0 32, +0 64, pos sub 128, pos normal 256
    bool neg = mask & 8, zero = mask & 96, pos = mask & 256; Expr *r = F();
    if (neg) r = mkOr(r, mkRCmp(R_LT, e->p)); if (zero) r = mkOr(r, mkRCmp(R_EQ, e->p)); if (pos) r = mkOr(r, mkNot(mkRCmp(R_LE, e->p)));
    if (neg && zero && pos) return T(); return r; });
}
// ------------------------------------------------------------------ integer operations
X void *__sym_binop(uint32_t op, uint32_t w, u64 a, void *sa, u64 b, void *sb) { if (!sa && !sb) return 0; return guarded([&] { return mkBin(op, iv(a, sa, w), iv(b, sb, w)); }); }
X void *__sym_icmp(uint32_t p, uint32_t w, u64 a, void *sa, u64 b, void *sb) { if (!sa && !sb) return 0; return guarded([&] { return mkCmp(p, iv(a, sa, w), iv(b, sb, w)); }); }
X void *__sym_cast(uint32_t op, uint32_t sw, uint32_t dw, void *s) {
  if (!s) return 0;
  return guarded([&]() -> Expr * {
    Expr *e = E(s);
    switch (op) {
    case C_TRUNC: case C_ZEXT: case C_SEXT: return mkCast(op, e, dw);
    case C_FPTRUNC: // single precision: the value moves by a relative 2^-24 at most
      if (!g_ieee && dw == 32 && e->k == K_RPOLY && !pisconst(e->p)) return rbin(OP_FMUL, e, rbin(OP_FADD, fconst(1), newReal("float_round", -5.9e-8, 5.9e-8, false)));
      return e;
    case C_FPEXT: return e;
    case C_SITOFP: case C_UITOFP:
      if (e->w == 1) { Expr *z = mkCast(C_ZEXT, e, 32); if (op == C_SITOFP) z = mkBin(OP_SUB, iconst(0, 32), z); e = z; }
      else if (op == C_UITOFP && e->lo < 0) e = e->w < 64 ? mkCast(C_ZEXT, e, 64) : e;
      if (g_ieee) { if (isC(e)) return fconst((double)sx(e->v, e->w)); return mkE(K_I2F, 64, 0, e, 0, 0, 0, 0); }
      if (isC(e)) return rexpr(pconst(mpq_class((long)sx(e->v, e->w))));
      return rexpr(patom(atom(A_I2R, 0, 0, e)));
    case C_FPTOSI: case C_FPTOUI:
      if (g_ieee) return mkE(K_F2I, dw, 0, e, 0, 0, 0, 0);
      if (e->k != K_RPOLY) return iconst(1ull << (dw - 1), dw);
      if (pisconst(e->p)) { mpq_class x = pcval(e->p); mpz_class z; mpz_tdiv_q(z.get_mpz_t(), x.get_num_mpz_t(), x.get_den_mpz_t()); return iconst((u64)z.get_si(), dw); }
      if (e->p->t.size() == 1 && e->p->t[0].c == 1 && e->p->t[0].m->f.size() == 1 && e->p->t[0].m->f[0].second == 1) { Atom &a = atoms[e->p->t[0].m->f[0].first]; if (a.k == A_I2R) { Expr *x = a.e; return x->w == (int)dw ? x : x->w < (int)dw ? mkCast(C_SEXT, x, dw) : mkCast(C_TRUNC, x, dw); }
        }
      { Expr *x = mkE(K_R2I, dw, 0, 0, 0, 0, 0, e->p); if (x->hi - x->lo <= 12) return iconst(concretize(x), dw); return x; }   // few values: one path each
    case C_BITCAST:
      if (isReal(e)) return mkE(K_FPBITS, 64, 0, e, 0, 0, 0, 0);
      if (e->k == K_FPBITS) return e->a;
      throw Unsup{"bitcast"};
    }
    throw Unsup{"cast"};
  });
}
X void *__sym_select(bool c, void *sc, uint32_t w, u64 a, void *sa, u64 b, void *sb) {
  if (!sc && !sa && !sb) return 0;
  return guarded([&]() -> Expr * { if (!sc) return c ? E(sa) : E(sb); return mkIte(E(sc), iv(a, sa, w), iv(b, sb, w)); });
}
X void *__sym_fselect(bool c, void *sc, uint32_t w, double a, void *sa, double b, void *sb) {
  if (!sc && !sa && !sb) return 0;
  return guarded([&]() -> Expr * { if (!sc) return c ? E(sa) : E(sb); return realIte(E(sc), fvl(a, sa), fvl(b, sb)); });
}
X bool __sym_branch(bool c, void *s) { if (!s) return c; RT r; try { return branch(E(s)); } catch (Unsup &u) { incomplete(u.s.c_str()); } }
X u64 __sym_concretize(u64 v, void *s, uint32_t w) { if (!s) return v; RT r; try { return concretize(E(s)); } catch (Unsup &u) { incomplete(u.s.c_str()); } }
X double __sym_concretize_f(double v, void *s, uint32_t w) { if (!s) return v; RT r; Expr *e = E(s); if (e->k == K_RPOLY && pisconst(e->p)) return pcval(e->p).get_d(); if (e->k == K_FCONST) { double d; memcpy(&d, &e->v, 8); return d; } if (e->k == K_RINF) return e->op * INFINITY; return pinned(e, "symbolic real passed to external code"); }
X u64 __sym_divisor(u64 b, void *sb, uint32_t w, u64 a, void *sa, uint32_t op) {
  if (!sb && !sa) { if (b == 0) { RT r; crashPath("crash", "integer division by zero"); } return b; }
  RT r; Expr *e = iv(b, sb, w);
  try { if (sb ? branch(mkCmp(P_EQ, e, iconst(0, w))) : b == 0) crashPath("crash", "integer division by zero"); } catch (Unsup &u) { incomplete(u.s.c_str()); }
  if (sb) return 1;
  return b == mk(~0ull, w) ? 1 : b;
}
X void *__sym_imath(const char *n, uint32_t w, u64 a, void *sa, u64 b, void *sb) {
  if (!sa && !sb) return 0;
  return guarded([&]() -> Expr * { string s = n; Expr *x = iv(a, sa, w), *y = iv(b, sb, w);
    if (s == "umin") return mkIte(mkCmp(P_ULT, x, y), x, y); if (s == "umax") return mkIte(mkCmp(P_UGT, x, y), x, y);
    if (s == "smin") return mkIte(mkCmp(P_SLT, x, y), x, y); if (s == "smax") return mkIte(mkCmp(P_SGT, x, y), x, y);
    if (s == "abs") return mkIte(mkCmp(P_SLT, x, iconst(0, w)), mkBin(OP_SUB, iconst(0, w), x), x);
    if (s == "usubsat") return mkIte(mkCmp(P_ULT, x, y), iconst(0, w), mkBin(OP_SUB, x, y));
    throw Unsup{"imath " + s}; });
}
X void *__sym_ovf(const char *n, uint32_t w, u64 a, void *sa, u64 b, void *sb) {
  if (!sa && !sb) return 0;
  return guarded([&]() -> Expr * { string s = n + 1; Expr *x = iv(a, sa, w), *y = iv(b, sb, w); int op = s[1] == 'a' ? OP_ADD : s[1] == 's' ? OP_SUB : OP_MUL; Expr *r = mkBin(op, x, y);
    if (n[0] == 'r') return r;
    if (w > 32) throw Unsup{"64-bit overflow intrinsic"};
    int c = s[0] == 's' ? C_SEXT : C_ZEXT; return mkCmp(P_NE, mkCast(c, r, 64), mkBin(op, mkCast(c, x, 64), mkCast(c, y, 64))); });
}
X void __sym_unsupported(const char *m) { RT r; incomplete(m); }

// ------------------------------------------------------------------ call protocol
static void *g_callee, *g_retfn; static Expr *g_args[64]; static u64 g_argmask; static Expr *g_rets[16];
X void __sym_call(void *f) { g_callee = f; g_argmask = 0; }
X void __sym_arg_set(uint32_t k, void *s) { if (s && k < 64) { g_args[k] = E(s); g_argmask |= 1ull << k; } }
X void *__sym_arg_get(uint32_t k, void *f) { if (f != g_callee || k >= 64 || !(g_argmask >> k & 1)) return 0; return g_args[k]; }
X void __sym_enter(void *f) { g_callee = nullptr; }
X void __sym_ret_set(uint32_t i, void *s, void *f) { g_retfn = f; if (i < 16) g_rets[i] = E(s); }
static std::unordered_map<void *, void *> dummy;
X void *__sym_ret_get(uint32_t i, void *f) { if (f != g_retfn || i >= 16) return 0; Expr *e = g_rets[i]; g_rets[i] = nullptr; return e; }

// ------------------------------------------------------------------ variables
static std::map<string, int> nameCount;
static string uniq(const char *n) { int k = ++nameCount[n]; return k == 1 ? string(n) : string(n) + "#" + std::to_string(k); }
static Expr *newInt(const char *n, i64 lo, i64 hi, int w) {
  if (vars.size() >= 256) incomplete("too many symbolic variables");
  Var v; v.name = uniq(n); v.real = false; v.ilo = lo; v.ihi = hi; v.draw = false; v.atom = -1; v.dlo = lo; v.dhi = hi; vars.push_back(v);
  Expr *e = mkE(K_IVAR, w, 0, 0, 0, 0, vars.size() - 1, 0); vars.back().e = e; padModel(g_model); return e;
}
static Expr *newReal(const char *n, double lo, double hi, bool draw) {
  if (vars.size() >= 256) incomplete("too many symbolic variables");
  Var v; v.name = uniq(n); v.real = true; v.lo = mpq_class(lo); v.hi = mpq_class(hi); v.dlo = lo; v.dhi = hi; v.draw = draw; v.atom = -1; v.e = 0; v.ilo = v.ihi = 0; vars.push_back(v);
  int id = vars.size() - 1;
  if (g_ieee) vars[id].e = mkE(K_FVAR, 64, 0, 0, 0, 0, id, 0);
  else { vars[id].atom = atom(A_VAR, 0, 0, 0, id); vars[id].e = rexpr(patom(vars[id].atom)); }
  padModel(g_model); return vars[id].e;
}
static vector<Expr *> niceFix(int lvl) {
  vector<Expr *> r; static const double nice[] = {1, 2, 3, 0.5, 5, 0.25, 7, 0.75};
  if (g_ieee) return r; int k = lvl;
  for (auto &v : vars) if (v.real) { double d = nice[k++ % 8]; if (v.draw) d = 0.5; if (d < v.dlo || d > v.dhi) continue; r.push_back(mkRCmp(R_EQ, padd(v.e->p, pconst(mpq_class(d)), -1))); }
  return r;
}
struct IDraw { Expr *e; i64 lo, hi; }; static vector<IDraw> g_idraws;
static vector<Expr *> g_draws; static vector<double> g_next; static int g_ndraw = 0, g_nidraw = 0, g_zero = 0;
// Where the harness asks for it, a draw is a function of the generator's state, which it advances: equal states give equal draws.
static bool g_streams = false; static std::unordered_map<u64, Expr *> g_drawn;
static u64 genKey(void *gen, uint32_t size, double a, double b) { u64 h = 1469598103934665603ull; unsigned char *p = (unsigned char *)gen; for (uint32_t i = 0; i < size; i++) h = (h ^ p[i]) * 1099511628211ull; u64 n = h * 6364136223846793005ull + 1442695040888963407ull; memcpy(gen, &n, 4); u64 x; memcpy(&x, &a, 8); h = (h ^ x) * 1099511628211ull; memcpy(&x, &b, 8); return (h ^ x) * 1099511628211ull; }
X double __sym_uniform_real(double a, double b, void *gen, uint32_t size) {
  RT r; void *self = (void *)__sym_uniform_real; Expr *sa = E(__sym_arg_get(0, self)), *sb = E(__sym_arg_get(1, self));
  if (sa || sb) incomplete("symbolic distribution bounds");
  if (!g_next.empty()) { double v = g_next[0]; g_next.erase(g_next.begin()); g_draws.push_back(fconst(v)); __sym_ret_set(0, g_ieee ? nullptr : g_draws.back(), self); return v; }
  u64 key = 0; if (g_streams && size) { key = genKey(gen, size, a, b); auto it = g_drawn.find(key); if (it != g_drawn.end()) { g_draws.push_back(it->second); __sym_ret_set(0, it->second, self); return 0.5; } }
  // the generator's draws are multiples of 2^-64: zero itself only where the harness asks for it
  double lo = a == 0 && b > 0 && g_ndraw >= g_zero ? std::ldexp(b, -64) : a, hi = std::nextafter(b, a); Expr *e = newReal(("draw" + std::to_string(g_ndraw++)).c_str(), lo, hi, true); g_draws.push_back(e); if (key) g_drawn[key] = e;
  __sym_ret_set(0, e, self); return 0.5;
}
X int32_t __sym_uniform_int(int32_t a, int32_t b, void *gen, uint32_t size) {
  RT r; void *self = (void *)__sym_uniform_int; Expr *sa = E(__sym_arg_get(0, self)), *sb = E(__sym_arg_get(1, self));
  try { if (sa) a = sx(concretize(sa), 32); if (sb) b = sx(concretize(sb), 32); } catch (Unsup &u) { incomplete(u.s.c_str()); }
  if (a > b) crashPath("crash", "uniform_int_distribution with empty range");
  u64 key = 0; Expr *e = 0; if (g_streams && size) { key = genKey(gen, size, a, b); auto it = g_drawn.find(key); if (it != g_drawn.end()) e = it->second; }
  if (!e) { e = newInt(("idraw" + std::to_string(g_nidraw++)).c_str(), a, b, 32); if (key) g_drawn[key] = e; } g_idraws.push_back({e, a, b}); __sym_ret_set(0, isC(e) ? nullptr : e, self); return a;
}
// ------------------------------------------------------------------ harness API
X int sym_int(const char *n, int lo, int hi) { RT r; Expr *e = newInt(n, lo, hi, 32); __sym_ret_set(0, e, (void *)sym_int); return lo; }
X int sym_pick(const char *n, int lo, int hi) {
  RT r; Expr *e = newInt(n, lo, hi, 32); int v = hi; int k = vars.size() - 1;
  // a fresh variable: every value of its range is feasible, one path each
  if (lo < hi) for (int c = lo; c < hi; c++) { checkDeadline(); G->branches++; if (spawn()) { v = c; break; } }
  if (lo < hi) addPC(mkCmp(P_EQ, e, iconst(v, 32)));
  padModel(g_model); g_model.v[k] = mpq_class((long)v); g_model.d[k] = v; g_pathhash = g_pathhash * 31 + (unsigned)v;
  __sym_ret_set(0, nullptr, (void *)sym_pick); return v;
}
X double sym_real(const char *n, double lo, double hi) { RT r; Expr *e = newReal(n, lo, hi, false); __sym_ret_set(0, e, (void *)sym_real); return lo; }
static Expr *argB(uint32_t k, void *f, bool native) { Expr *e = E(__sym_arg_get(k, f)); return e ? e : (native ? T() : F()); }
X void sym_assume(bool b) {
  RT r; Expr *c = argB(0, (void *)sym_assume, b);
  try {
    if (isTrue(c)) return; if (isFalse(c)) { G->assumed_out++; finish(false); }
    padModel(g_model); int v = evalBool(c, g_model); if (v == 1) { addPC(c); return; }
    Model m; Res q = query(c, &m); if (q == UNSAT) { G->assumed_out++; finish(false); }
    addPC(c); if (q == SAT) g_model = m; else g_model.valid = false;
  } catch (Unsup &u) { incomplete(u.s.c_str()); }
}
X void sym_check(bool b, const char *msg) { RT r; Expr *c = argB(0, (void *)sym_check, b); try { checkExpr(c, nullptr, msg); } catch (Unsup &u) { incomplete(u.s.c_str()); } }
static Expr *argD(uint32_t k, void *f, double native) { Expr *e = E(__sym_arg_get(k, f)); return e ? e : fconst(native); }
// an equality or inequality that the normal form already decided is put to the solver as well (the first instances of each
// assertion): the two sides are lowered separately and their difference has to be unsatisfiable
static void confirm(Poly *x, Poly *y, bool eq, const char *msg) {
  Shared::Msg *s = slot(G->conf, G->nconf, 256, msg); if (s->n++ >= 25 || s->unk >= 2) return;
  double t0 = now(); fflush(0); pid_t pid = fork(); if (pid < 0) return;
  if (!pid) { // a separate process, so that a solver that does not listen to its limit can be stopped
    signal(SIGALRM, SIG_DFL); struct itimerval t; memset(&t, 0, sizeof t); t.it_value.tv_sec = 3; setitimer(ITIMER_REAL, &t, 0); int rc = 2;
    try { Lower L(false); z3::expr a = L.R(x), b = L.R(y); z3::solver q(*zc); z3::params p(*zc); p.set("rlimit", (unsigned)(g_rlimit / 8)); q.set(p); q.add(eq ? a != b : a > b); for (Expr *e : pc) q.add(L.B(e)); for (size_t i = 0; i < L.side.size(); i++) q.add(L.side[i]); z3::check_result r = q.check(); rc = r == z3::unsat ? 0 : r == z3::sat ? 1 : 2; } catch (...) {}
    _exit(rc);
  }
  int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {} int r = WIFEXITED(st) ? WEXITSTATUS(st) : 2;
  G->queries++; if (r == 0) { G->q_unsat++; G->confirmed++; } else if (r == 1) G->q_sat++; else { G->q_unknown++; s->unk++; } G->solver_us += (long)((now() - t0) * 1e6);
  if (r == 1 && eq) incomplete("normal form and solver disagree");
}
X void sym_check_close(double a, double b, const char *msg) {
  RT r; void *self = (void *)sym_check_close; Expr *x = argD(0, self, a), *y = argD(1, self, b);
  try {
    if (g_ieee) { checkExpr(rcmp(1, x, y), nullptr, msg); return; }
    if (x->k != K_RPOLY || y->k != K_RPOLY) { checkExpr(x->k == K_RINF && x == y ? T() : F(), nullptr, msg); return; }
    if (pisconst(x->p) && pisconst(y->p)) { double p = pcval(x->p).get_d(), q = pcval(y->p).get_d(); checkExpr(std::fabs(p - q) <= 1e-9 * std::max(std::fabs(p), std::fabs(q)) ? T() : F(), nullptr, msg); return; }
    Poly *d = padd(x->p, y->p, -1); if (d->t.empty() && !pisconst(x->p)) confirm(x->p, y->p, true, msg);
    // floating constants are carried exactly; a relative difference below 1e-8 counts as equal
    Expr *ax = rabs(x), *ay = rabs(y), *ad = rabs(rexpr(d)); Expr *tol = rbin(OP_FMUL, fconst(1e-8), rbin(OP_FADD, ax, ay));
    checkExpr(mkRCmp(R_EQ, d), rcmp(2, ad, tol), msg);
  } catch (Unsup &u) { incomplete(u.s.c_str()); }
}
X void sym_check_either(double v, double a, double b, const char *msg) {
  RT r; void *self = (void *)sym_check_either; Expr *x = argD(0, self, v), *y[2] = {argD(1, self, a), argD(2, self, b)};
  try {
    Expr *ok = F(), *sg = T();
    for (Expr *o : y) {
      if (g_ieee) { ok = mkOr(ok, rcmp(1, x, o)); continue; }
      if (x->k != K_RPOLY || o->k != K_RPOLY) { if (x->k == K_RINF && x == o) ok = T(); continue; }
      Poly *d = padd(x->p, o->p, -1); Expr *tol = rbin(OP_FMUL, fconst(1e-8), rbin(OP_FADD, rabs(x), rabs(o)));
      ok = mkOr(ok, mkRCmp(R_EQ, d)); sg = mkAnd(sg, rcmp(2, rabs(rexpr(d)), tol));
    }
    checkExpr(ok, g_ieee ? nullptr : sg, msg);
  } catch (Unsup &u) { incomplete(u.s.c_str()); }
}
X void sym_check_le(double a, double b, const char *msg) {
  RT r; void *self = (void *)sym_check_le; Expr *x = argD(0, self, a), *y = argD(1, self, b);
  try {
    Expr *sg = nullptr; if (!g_ieee && x->k == K_RPOLY && y->k == K_RPOLY) { Expr *ad = rbin(OP_FSUB, x, y), *tol = rbin(OP_FMUL, fconst(1e-8), rbin(OP_FADD, rabs(x), rabs(y))); sg = rcmp(2, ad, tol); }
    Expr *le = rcmp(5, x, y); if (isTrue(le) && !g_ieee && x->k == K_RPOLY && y->k == K_RPOLY && !(pisconst(x->p) && pisconst(y->p))) confirm(x->p, y->p, false, msg);
    checkExpr(le, sg, msg);
  } catch (Unsup &u) { incomplete(u.s.c_str()); }
}
X void sym_fail(const char *msg) { RT r; slot(G->msgs, G->nmsg, 256, msg)->n++; G->checks++; bool ok; Model m = pathModel(ok); candidate("check", msg, m); finish(); }
X void sym_reach(const char *msg) { RT r; slot(G->reach, G->nreach, 128, msg)->n++; }
X int sym_draw_count() { __sym_ret_set(0, nullptr, (void *)sym_draw_count); return g_draws.size(); }
X double sym_draw_value(int k) { RT r; if (k < 0 || k >= (int)g_draws.size()) { __sym_ret_set(0, nullptr, (void *)sym_draw_value); return -1; } __sym_ret_set(0, g_draws[k], (void *)sym_draw_value); return 0.5; }
X int sym_idraw_count() { __sym_ret_set(0, nullptr, (void *)sym_idraw_count); return g_idraws.size(); }
X int sym_idraw_value(int k) { RT r; void *self = (void *)sym_idraw_value; if (k < 0 || k >= (int)g_idraws.size()) { __sym_ret_set(0, nullptr, self); return -1; } __sym_ret_set(0, g_idraws[k].e, self); return 0; }
X double sym_idraw_size(int k) { RT r; __sym_ret_set(0, nullptr, (void *)sym_idraw_size); return k < 0 || k >= (int)g_idraws.size() ? 0 : (double)(g_idraws[k].hi - g_idraws[k].lo + 1); }
X double sym_exact(double v) { RT r; __sym_ret_set(0, g_ieee ? nullptr : fconst(v), (void *)sym_exact); return v; }
X void sym_zero_draws(int n) { RT r; g_zero = n; }
X void sym_streams() { RT r; g_streams = true; }
X void sym_next_draw(double v) { RT r; g_next.push_back(v); }
X double sym_log(double x) { RT r; void *self = (void *)sym_log; Expr *e = E(__sym_arg_get(0, self)); if (!e) { __sym_ret_set(0, nullptr, self); return std::log(x); } try { __sym_ret_set(0, rlog(e), self); } catch (Unsup &u) { incomplete(u.s.c_str()); } return 0; }
X void sym_note(const char *msg) { RT r; slot(G->notes, G->nnote, 32, msg)->n++; }
X void sym_done() { RT r; finish(); }
X void sym_dump(const char *n, double d) {
  RT r; Expr *e = E(__sym_arg_get(0, (void *)sym_dump)); printf("%s: ", n); if (!e) printf("%g", d); else if (e->k == K_RPOLY) { for (auto &t : e->p->t) { printf("+ %s", t.c.get_str().c_str()); for (auto &z : t.m->f) { Atom &a = atoms[z.first]; printf("*%s%d^%d", a.k == A_VAR ? vars[a.var].name.c_str() : a.k == A_SUM ? "S" : a.k == A_LOG ? "log" : a.k == A_EXP ? "exp" : a.k == A_SQRT ? "sqrt" : "?", a.k == A_VAR ? 0 : z.first, z.second); } } } else printf("kind %d", e->k); printf("\n"); fflush(stdout);
}

// ------------------------------------------------------------------ memory allocation, crashes
struct Hdr { u64 size, magic; };
static const u64 M_USER = 0x5359534155534552ull, M_RT = 0x535953415F525421ull, M_FREED = 0x4652454544213121ull;
static vector<void *> *quarantine; static u64 qbytes = 0;
static void *nalloc(size_t n) {
  Hdr *h = (Hdr *)malloc(n + sizeof(Hdr) + 8); if (!h) { bool user = !g_rt; RT r; if (user) crashPath("crash", "memory exhausted"); incomplete("out of memory"); }
  h->size = n; h->magic = g_rt ? M_RT : M_USER;
  if (!g_rt) { clearRange((u64)(h + 1), n); memset((void *)(h + 1), 0xCD, n); }
  return h + 1;
}
static void nfree(void *p) {
  if (!p) return; Hdr *h = (Hdr *)p - 1;
  if (h->magic == M_FREED) { RT r; crashPath("crash", "double free"); }
  if (h->magic == M_USER) {
    clearRange((u64)p, h->size); memset(p, 0xDD, h->size); h->magic = M_FREED; if (h->size < 65536 && qbytes < (64u << 20)) { qbytes += h->size; return; }
  }
  h->magic = 0; free(h);
}
void *operator new(size_t n) { return nalloc(n); }
void *operator new[](size_t n) { return nalloc(n); }
void operator delete(void *p) noexcept { nfree(p); }
void operator delete[](void *p) noexcept { nfree(p); }
void operator delete(void *p, size_t) noexcept { nfree(p); }
void operator delete[](void *p, size_t) noexcept { nfree(p); }
static int g_incrash = 0;
static void onSig(int s, siginfo_t *, void *) {
  if (g_incrash++ || g_rt > 0) { if (G) { G->incomplete++; slot(G->unsup, G->nunsup, 64, "engine crashed")->n++; if (g_hold) sem_post(&G->tokens); for (pid_t p : g_kids) { int st; waitpid(p, &st, 0); } } _exit(0); }
  g_rt++; crashPath("crash", s == SIGSEGV || s == SIGBUS ? "invalid memory access" : s == SIGFPE ? "arithmetic trap" : s == SIGABRT ? "abnormal termination (abort or uncaught exception)" : "fatal signal");
}
static long g_lastBr = -1; static int g_hangTicks = 0;
static void onTick(int) { if (g_rt > 0) { g_hangTicks = 0; return; } if (g_lastBr == g_mybr_) { if (++g_hangTicks >= 2) { g_rt++; crashPath("hang", "does not terminate (no progress for 15 s of CPU time)"); } } else g_hangTicks = 0; g_lastBr = g_mybr_; }
extern "C" void symx_tick_arm() { struct itimerval t; t.it_interval.tv_sec = 5; t.it_interval.tv_usec = 0; t.it_value = t.it_interval; setitimer(ITIMER_VIRTUAL, &t, 0); g_hangTicks = 0; }
X void __assert_fail(const char *e, const char *f, unsigned l, const char *fn) noexcept {
  g_rt++; const char *b = strrchr(f, '/'); crashPath("crash", string("assertion failed in ") + (b ? b + 1 : f) + ": " + string(e).substr(0, 120));
}
namespace std { void __glibcxx_assert_fail(const char *f, int l, const char *fn, const char *c) noexcept { g_rt++; crashPath("crash", string("libstdc++ precondition failed: ") + (c ? c : "?")); } }

typedef void (*HFn)();
struct HReg { const char *n; HFn f; HReg *next; };
X HReg *sym_harness_list;
HReg *sym_harness_list = nullptr;
X void sym_register(HReg *h) { h->next = sym_harness_list; sym_harness_list = h; }

static void jstr(FILE *o, const char *s) { fputc('"', o); for (; *s; s++) { if (*s == '"' || *s == '\\') fputc('\\', o); if ((u8)*s < 32) fputc(' ', o); else fputc(*s, o); } fputc('"', o); }
int main(int argc, char **argv) {
  if (argc < 3) { fprintf(stderr, "usage: %s harness outdir [seconds] [workers] [ieee]\n", argv[0]); for (HReg *h = sym_harness_list; h; h = h->next) printf("%s\n", h->n); return 2; }
  HReg *h = sym_harness_list; while (h && strcmp(h->n, argv[1])) h = h->next;
  if (!h) { fprintf(stderr, "no harness %s\n", argv[1]); return 2; }
  g_out = argv[2]; mkdir(argv[2], 0777); double secs = argc > 3 ? atof(argv[3]) : 120; int workers = argc > 4 ? atoi(argv[4]) : 8; g_ieee = argc > 5 && atoi(argv[5]);
  if (getenv("SYM_VERBOSE")) g_verbose = atoi(getenv("SYM_VERBOSE"));
  if (getenv("SYM_RLIMIT")) g_rlimit = atol(getenv("SYM_RLIMIT"));
  G = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  new (G) Shared(); memset((void *)G, 0, sizeof(Shared));
  sem_init(&G->tokens, 1, workers); G->deadline = now() + secs; g_qsecs = std::max(5.0, secs / 6);
  double t0 = now();
  fflush(stdout);
  pid_t p = fork();
  if (p == 0) {
    while (sem_wait(&G->tokens) < 0) {} g_hold = true;
    stack_t ss; ss.ss_size = 1 << 18; ss.ss_sp = malloc(ss.ss_size); ss.ss_flags = 0; sigaltstack(&ss, 0);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = onSig; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER; for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGABRT, SIGILL}) sigaction(s, &sa, 0);
    freopen("/dev/null", "w", stdout); if (!g_verbose) freopen("/dev/null", "w", stderr);
    if (g_verbose) dup2(2, 1);
    signal(SIGVTALRM, onTick); symx_tick_arm();
    struct rlimit rl{(rlim_t)12 << 30, (rlim_t)12 << 30}; setrlimit(RLIMIT_AS, &rl);
    { z3::set_param("smt.random_seed", 1); zc = new z3::context(); }
    g_rt = 0; h->f(); g_rt = 1; finish();
  }
  int st; waitpid(p, &st, 0);
  if (WIFSIGNALED(st)) { G->incomplete++; }
  FILE *o = fopen((g_out + "/stats.json").c_str(), "w"); if (!o) { perror("stats.json"); return 2; }
  fprintf(o, "{\"harness\":\"%s\",\"wall_s\":%.3f,\"paths\":%ld,\"forks\":%ld,\"branches\":%ld,\"forced_branches\":%ld,\"queries\":%ld,\"sat\":%ld,\"unsat\":%ld,\"unknown\":%ld,\"cache_hits\":%ld,\"solver_s\":%.3f,\"checks\":%ld,\"checks_normal_form\":%ld,\"checks_unsat\":%ld,\"checks_unknown\":%ld,\"candidates\":%ld,\"incomplete\":%ld,\"assumed_out\":%ld,\"concretisations\":%ld,\"feasibility_unknown\":%ld,\"confirmed\":%ld,",
          h->n, now() - t0, G->paths.load(), G->forks.load(), G->branches.load(), G->forced.load(), G->queries.load(), G->q_sat.load(), G->q_unsat.load(), G->q_unknown.load(), G->cachehits.load(), G->solver_us.load() * 1e-6, G->checks.load(), G->checks_static.load(), G->checks_solver.load(), G->checks_unknown.load(), G->cands.load(), G->incomplete.load(), G->assumed_out.load(), G->conc.load(), G->feas_unknown.load(), G->confirmed.load());
  auto list = [&](const char *n, Shared::Msg *a, int k, bool det) { fprintf(o, "\"%s\":{", n); for (int i = 0; i < k; i++) { if (i) fputc(',', o); jstr(o, a[i].s); if (det) fprintf(o, ":{\"n\":%ld,\"ok\":%ld,\"unknown\":%ld,\"bad\":%ld}", a[i].n.load(), a[i].ok.load(), a[i].unk.load(), a[i].bad.load()); else fprintf(o, ":%ld", a[i].n.load()); } fprintf(o, "}"); };
  list("assertions", G->msgs, G->nmsg, true); fputc(',', o); list("reached", G->reach, G->nreach, false); fputc(',', o); list("notes", G->notes, G->nnote, false); fputc(',', o); list("incomplete_reasons", G->unsup, G->nunsup, false);
  fprintf(o, "}\n"); fclose(o); return 0;
}
