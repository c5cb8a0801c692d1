// Walker and identity records, rate container.
#include "sym.h"
#include "mythical/walker.hpp"
#include "libmythical/identity.hpp"
#include "libmythical/rate_container.hpp"
#include <map>
#include <set>
#include <stdexcept>
#include <string>
using namespace mythical;
static const int IMIN = -2147483647 - 1, IMAX = 2147483647;
template <class F> static bool fails(F f) { try { f(); } catch (std::exception &) { return true; } return false; }

// ---------------------------------------------------------------- C12 walker and identity records
struct Thing : Identity {};
static int anyId(const char *n) { int v = sym_int(n, IMIN, IMAX); sym_assume(v != IMIN); return v; }
HARNESS(C12_walker_history) {
  sym_note("histories of 4 calls (thorough 5) on two walkers; site ids: every int except the reserved one; times: every real in [-1e9,1e9]; ids of features: every int");
  Walker w[2]; bool setc[2] = {0, 0}, setp[2] = {0, 0}, setd[2] = {0, 0}; int c[2], p[2]; double d[2];
  for (int s = 0; s < TIER(4, 5); s++) {
    int k = sym_int("who", 0, 1) ? 1 : 0, op = sym_int("op", 0, 2);
    if (op == 0) { c[k] = anyId("site"); w[k].occupySite(c[k]); setc[k] = true; }
    else if (op == 1) { p[k] = anyId("next"); w[k].setPotentialSite(p[k]); setp[k] = true; }
    else { d[k] = sym_real("time", -1e9, 1e9); w[k].setDwellTime(d[k]); setd[k] = true; }
  }
  for (int k = 0; k < 2; k++) for (int rep = 0; rep < 2; rep++) {
    if (setc[k]) sym_check(w[k].getIdOfSiteCurrentlyOccupying() == c[k], "a walker reports the site it was last put on"); else sym_check(fails([&] { w[k].getIdOfSiteCurrentlyOccupying(); }), "a walker that was never placed has no current site");
    if (setp[k]) sym_check(w[k].getPotentialSite() == p[k], "a walker reports the next site it was last given"); else sym_check(fails([&] { w[k].getPotentialSite(); }), "a walker that was given no next site has none");
    if (setd[k]) sym_check(w[k].getDwellTime() == d[k], "a walker reports the dwell time it was last given"); else sym_check(w[k].getDwellTime() < 0, "a fresh walker has no dwell time");
  }
  sym_reach("end");
}
HARNESS(C12_walker_copy) {
  Walker a; int s = anyId("site"), n = anyId("next"); double t = sym_real("time", 0, 1e9); a.occupySite(s); a.setPotentialSite(n); a.setDwellTime(t);
  Walker b(a); int s2 = anyId("site2"); b.occupySite(s2); b.setPotentialSite(s2); b.setDwellTime(t + 1);
  sym_check(a.getIdOfSiteCurrentlyOccupying() == s & a.getPotentialSite() == n & a.getDwellTime() == t, "changing a copy leaves the original alone");
  sym_check(b.getIdOfSiteCurrentlyOccupying() == s2 & b.getPotentialSite() == s2, "a copy has its own state");
  sym_reach("end");
}
HARNESS(C12_identity) {
  Thing a, b; sym_check(fails([&] { a.getId(); }), "an id that was never set is reported as an error");
  int i = sym_int("i", IMIN, IMAX), j = sym_int("j", IMIN, IMAX); a.setId(i);
  sym_check(fails([&] { b.getId(); }), "setting one id does not set another");
  sym_check(a.getId() == i, "the id is the one last set"); a.setId(j); sym_check(a.getId() == j, "the id can be changed"); sym_check(a.getId() == j, "reading an id does not change it");
  Thing c(a); sym_check(c.getId() == j, "a copy has the same id"); c.setId(i); sym_check(a.getId() == j, "changing the id of a copy leaves the original alone");
  sym_reach("end");
}

// ---------------------------------------------------------------- C13 rates are found exactly as stored
static const int ID[] = {0, 1, -1, 14};   // 1 and 14 share a hash bucket
static double cell[64];
typedef std::map<std::pair<int, int>, double *> Ref;
static void compare(Rate_Container &rc, const Ref &r) {
  for (int i : ID) for (int j : ID) {
    auto it = r.find({i, j});
    try { double *p = rc.getRate(i, j); sym_check(it != r.end(), "asking for a rate that was never added is an error"); if (it != r.end()) sym_check(p == it->second, "a lookup returns the rate that was added"); }
    catch (std::invalid_argument &) { sym_check(it == r.end(), "a rate that was added can be looked up"); }
  }
}
HARNESS(C13_history) {
  sym_note("histories of 3 insertions (thorough 4) between any ordered pair of 3 sites (thorough 4), single or in bulk, duplicates included; in another harness both ids of a lookup are arbitrary ints");
  Rate_Container rc; Ref r; int n = TIER(3, 4), m = TIER(2, 2);
  for (int s = 0; s < n; s++) {
    int i = ID[sym_pick("site", 0, m)], j = ID[sym_pick("neigh", 0, m)]; bool dup = r.count({i, j}); double *p = &cell[s];
    try { rc.addRate(i, j, p); sym_check(!dup, "adding a rate twice is an error"); r[{i, j}] = p; sym_reach("added"); } catch (std::invalid_argument &) { sym_check(dup, "a new rate is accepted"); sym_reach("duplicate"); }
  }
  compare(rc, r); compare(rc, r);
}
HARNESS(C13_bulk) {
  Ref r; Rate_Map first, second; int k = 0; bool clash = false;
  int f = sym_pick("first", 0, 15), g = sym_pick("second", 0, 15), how = sym_pick("how", 0, 1);
  static const int E[4][2] = {{0, 1}, {1, 0}, {1, 14}, {14, 1}};
  for (int e = 0; e < 4; e++) { if (f >> e & 1) { first[E[e][0]][E[e][1]] = &cell[k]; r[{E[e][0], E[e][1]}] = &cell[k++]; } if (g >> e & 1) { second[E[e][0]][E[e][1]] = &cell[32 + k]; if (f >> e & 1) clash = true; else r[{E[e][0], E[e][1]}] = &cell[32 + k]; k++; } }
  Rate_Container a(first), b; b.addRates(first); Rate_Container &rc = how ? b : a;
  try { rc.addRates(second); sym_check(!clash, "adding a rate again in bulk is an error"); compare(rc, r); sym_reach("merged"); } catch (std::invalid_argument &) { sym_check(clash, "rates that are new are accepted in bulk"); sym_reach("clash"); }
}
HARNESS(C13_any_ids) {
  Rate_Container rc; int a = sym_int("a", IMIN, IMAX), c = sym_int("c", IMIN, IMAX), which = sym_pick("which", 0, 1); sym_assume((which == 0) | (a != 77));
  if (which) { rc.addRate(a, 5, &cell[0]); rc.addRate(77, 5, &cell[1]); } else rc.addRate(5, a, &cell[0]);
  try { double *p = which ? rc.getRate(c, 5) : rc.getRate(5, c); sym_check((c == a) | ((which == 1) & (c == 77)), "asking for a rate that was never added is an error"); sym_check((p == &cell[0]) == (c == a), "a lookup returns the rate that was added"); sym_reach("found"); }
  catch (std::invalid_argument &) { sym_check((c != a) & ((which == 0) | (c != 77)), "a rate that was added can be looked up"); sym_reach("missing"); }
}
HARNESS(C13_many) {
  // a container that has grown: thirty rates over ten sites; the pair asked for is arbitrary on one side
  static double v[64]; Rate_Container rc; Ref r; int k = 0, bulk = sym_pick("bulk", 0, 2); Rate_Map m; for (int i = 0; i < 10; i++) for (int j : {1, 3, 4}) { int a = i * 13, b = (i + j) % 10 * 13; r[{a, b}] = &v[k]; if (bulk && (bulk == 1 || i % 2)) m[a][b] = &v[k]; else rc.addRate(a, b, &v[k]); k++; } if (bulk) rc.addRates(m);
  int what = sym_pick("what", 0, 2), at = sym_pick("at", what == 2 ? 9 : 0, 10) * 13, q = sym_int("q", IMIN, IMAX); bool in = false; double *ref = 0; for (auto &e : r) if (e.first.first == at && e.first.second == q) { in = true; ref = e.second; }
  if (what) { bool dup = false; Rate_Map row; if (what == 2) { for (int i = 0; i < 12; i++) row[at][5001 + i * 13] = &v[40 + i]; row[at][q] = &v[63]; } try { if (what == 2) rc.addRates(row); else rc.addRate(at, q, &v[63]); } catch (std::invalid_argument &) { dup = true; } sym_check(dup == in, "in a large container a duplicate, and only a duplicate, is refused"); if (!in) { in = true; ref = &v[63]; } }
  try { double *p = rc.getRate(at, q); sym_check(in, "asking a large container for a rate that was never added is an error"); sym_check(p == ref, "a large container returns the rate that was added"); sym_reach("found"); } catch (std::invalid_argument &) { sym_check(!in, "a large container finds every rate that was added"); sym_reach("missing"); }
  for (auto &e : r) sym_check(rc.getRate(e.first.first, e.first.second) == e.second, "a large container keeps every rate");
}
HARNESS(C13_value_is_shared) {
  double v = sym_real("v", 1e-6, 1e6), w = sym_real("w", 1e-6, 1e6); double x = v; Rate_Container rc; rc.addRate(1, 2, &x);
  sym_check(*rc.getRate(1, 2) == v, "the stored rate has the value it was added with"); x = w; sym_check(*rc.getRate(1, 2) == w, "a later change of the rate is seen"); *rc.getRate(1, 2) = v; sym_check(x == v, "the rate can be changed through the container");
  sym_reach("end");
}

// ---------------------------------------------------------------- C14 topology queries
static void topology(Rate_Container &rc, const Ref &r, const std::set<int> &ids) {
  std::set<int> out, in; for (auto &e : r) { out.insert(e.first.first); in.insert(e.first.second); }
  for (int i : ids) {
    size_t no = 0, ni = 0; for (auto &e : r) { if (e.first.first == i) no++; if (e.first.second == i) ni++; }
    sym_check(rc.outgoingRateCount(i) == no, "the number of outgoing rates is right"); sym_check(rc.incomingRateCount(i) == ni, "the number of incoming rates is right");
    Rate_Map o = rc.getOutgoingRates(i), n = rc.getIncomingRates(i); size_t co = 0, cn = 0;
    for (auto &s : o) for (auto &x : s.second) { co++; auto it = r.find({s.first, x.first}); sym_check(s.first == i && it != r.end() && it->second == x.second, "outgoing rates are the stored ones leaving the site"); }
    for (auto &s : n) for (auto &x : s.second) { cn++; auto it = r.find({s.first, x.first}); sym_check(x.first == i && it != r.end() && it->second == x.second, "incoming rates are the stored ones entering the site"); }
    sym_check(co == no, "every outgoing rate is listed"); sym_check(cn == ni, "every incoming rate is listed");
  }
  std::multiset<int> src, snk, rs, rk; for (int i : rc.getSourceSiteIds()) src.insert(i); for (int i : rc.getSinkSiteIds()) snk.insert(i);
  for (int i : out) if (!in.count(i)) rs.insert(i); for (int i : in) if (!out.count(i)) rk.insert(i);
  sym_check(src == rs, "sources are the sites with outgoing and no incoming rates"); sym_check(snk == rk, "sinks are the sites with incoming and no outgoing rates");
}
HARNESS(C14_graphs) {
  sym_note("every directed graph on 3 sites without self rates (thorough: with them), each edge present or absent symbolically; queries repeated, absent sites included");
  Rate_Container rc; Ref r; int k = 0;
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) if (TIER(0, 1) || i != j) { int on = sym_int("edge", 0, 1); if (on) { rc.addRate(ID[i], ID[j], &cell[k]); r[{ID[i], ID[j]}] = &cell[k]; } k++; }
  std::set<int> ids{0, 1, -1, 14, 99};
  topology(rc, r, ids); topology(rc, r, ids); compare(rc, r); topology(rc, r, ids); sym_reach("end");
}
HARNESS(C14_query_absent) {
  Rate_Container rc; rc.addRate(3, 4, &cell[0]); int q = sym_int("q", IMIN, IMAX), what = sym_pick("what", 0, 4);
  if (what == 0) sym_check(rc.outgoingRateCount(q) == (size_t)(q == 3), "outgoing count of any site"); else if (what == 1) sym_check(rc.incomingRateCount(q) == (size_t)(q == 4), "incoming count of any site");
  else if (what == 2) rc.getOutgoingRates(q); else if (what == 3) rc.getIncomingRates(q); else try { rc.getRate(q, q); } catch (std::invalid_argument &) {}
  std::vector<int> s = rc.getSourceSiteIds(), k = rc.getSinkSiteIds();
  sym_check(s.size() == 1 && s[0] == 3, "a query does not create sources"); sym_check(k.size() == 1 && k[0] == 4, "a query does not create or hide sinks");
  sym_check(rc.outgoingRateCount(3) == 1 && rc.incomingRateCount(4) == 1 && rc.getRate(3, 4) == &cell[0], "a query does not change the stored rates");
  sym_reach("end");
}
HARNESS(C14_many) {
  // a fixed graph of nine sites plus three free edges
  Rate_Container rc; Ref r; int k = 0; std::set<int> ids{99, -7}; static const int E[][2] = {{0, 13}, {13, 26}, {26, 0}, {0, 1}, {2, 0}, {3, 1}, {13, 13}, {5, 6}, {26, 39}, {2, 13}}; for (auto &e : E) { rc.addRate(e[0], e[1], &cell[k]); r[{e[0], e[1]}] = &cell[k++]; ids.insert(e[0]); ids.insert(e[1]); } static const int X[][2] = {{1, 2}, {6, 5}, {39, 3}}; for (auto &e : X) if (sym_int("edge", 0, 1)) { rc.addRate(e[0], e[1], &cell[k]); r[{e[0], e[1]}] = &cell[k++]; }
  topology(rc, r, ids); topology(rc, r, ids); sym_reach("end");
}
HARNESS(C14_bigger_deep) {
  Rate_Container rc; Ref r; int k = 0; std::set<int> ids{99};
  for (int i = 0; i < 4; i++) { ids.insert(ID[i]); for (int j = 0; j < 4; j++) if (i != j) { int on = sym_int("edge", 0, 1); if (on) { rc.addRate(ID[i], ID[j], &cell[k]); r[{ID[i], ID[j]}] = &cell[k]; } k++; } }
  topology(rc, r, ids); sym_reach("end");
}
