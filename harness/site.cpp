// Sites: rates, time constants, hop probabilities, picks, dwell times, occupancy.
#include "sym.h"
#include "libmythical/topologyfeatures/site.hpp"
#include <cmath>
#include <map>
#include <set>
#include <stdexcept>
#include <unordered_map>
using namespace mythical;
static const int IMIN = -2147483647 - 1, IMAX = 2147483647;
static const int NB[] = {4, 17, -3, 0, 1};   // 4 and 17 share a hash bucket
static const double LO = 1e-6, HI = 1e6;

// compares everything a site reports about its rates with the reference: neighbour -> rate
static void compare(Site &s, std::map<int, double> &r) {
  double sum = 0; for (auto &e : r) sum = sum + e.second;
  sym_check_close(s.getTimeConstant() * sum, 1.0, "the time constant is the reciprocal of the total rate off the site");
  std::vector<int> ids = s.getNeighborSiteIds(); std::set<int> u(ids.begin(), ids.end());
  sym_check(ids.size() == r.size() && u.size() == r.size(), "every neighbour is listed once");
  for (int id : NB) sym_check(s.isNeighbor(id) == (r.count(id) == 1), "exactly the sites a rate leads to are neighbours");
  auto pr = s.getProbabilitiesAndIdsOfNeighbors(); std::map<int, int> seen; double tot = 0;
  for (auto &p : pr) { seen[p.first]++; tot = tot + p.second; auto it = r.find(p.first); sym_check(it != r.end(), "only neighbours can be hopped to"); if (it != r.end()) sym_check_close(p.second * sum, it->second, "the probability listed for a neighbour is its rate over the total rate"); }
  sym_check(pr.size() == r.size() && seen.size() == r.size(), "every neighbour has one hop probability"); sym_check_close(tot, 1.0, "hop probabilities sum to one");
  auto all = s.getNeighborsAndRates(); auto &allc = s.getNeighborsAndRatesConst(); sym_check(all.size() == r.size() && allc.size() == r.size(), "the rate table has one entry per neighbour");
  double best = s.getFastestRate(), sumListed = 0; bool isone = false; for (double x : s.getRateToNeighbors()) sumListed = sumListed + x; sym_check_close(sumListed, sum, "the listed rates add up to the total rate");
  for (auto &e : r) {
    sym_check(u.count(e.first) == 1, "a site a rate leads to is listed as neighbour");
    sym_check_close(s.getRateToNeighbor(e.first), e.second, "the rate to a neighbour is the one last given");
    sym_check_close(s.getProbabilityOfHoppingToNeighboringSite(e.first) * sum, e.second, "the probability of a hop is its rate over the total rate");
    sym_check(all.count(e.first) && allc.count(e.first), "the rate table has every neighbour");
    if (all.count(e.first)) sym_check_close(*all[e.first], e.second, "the rate table has the rate last given");
    sym_check_le(e.second, best, "no rate is faster than the fastest rate"); isone = isone | (best == e.second);
  }
  sym_check(isone, "the fastest rate is the rate of a neighbour");
}

// ---------------------------------------------------------------- C15 time constant and hop probabilities
HARNESS(C15_set) {
  sym_note("1..4 neighbours (thorough 5) with hash collisions; every rate any real in [1e-6,1e6]; histories of 3 set/add/reset calls (thorough 4)");
  int n = sym_pick("n", 1, TIER(4, 5)); std::unordered_map<int, double> m; std::map<int, double> r;
  for (int i = 0; i < n; i++) r[NB[i]] = m[NB[i]] = sym_real("rate", LO, HI);
  Site s; s.setId(9); s.setRatesToNeighbors(m); compare(s, r); sym_reach("end");
}
HARNESS(C15_history) {
  static std::unordered_map<int, double> maps[8]; static double cell[8]; int nm = 0, nc = 0; std::map<int, double> r; Site s; s.setId(9); int step = TIER(3, 4);
  for (int k = 0; k < step; k++) {
    int op = sym_pick("op", 0, 2), id = NB[sym_pick("id", 0, 2)];
    if (op == 1 && r.count(id)) { op = 2; }   // adding a neighbour twice is documented as an error
    double v = sym_real("rate", LO, HI);
    if (op == 0) { std::unordered_map<int, double> &m = maps[nm++]; int id2 = NB[(sym_pick("two", 0, 1) ? 2 : 0)]; double v2 = sym_real("rate", LO, HI); m[id] = v; m[id2] = v2; r[id] = v; r[id2] = v2; s.setRatesToNeighbors(m); sym_reach("set"); }
    else if (op == 1) { double *p = &cell[nc++]; *p = v; s.addNeighRate({id, p}); r[id] = v; sym_reach("add"); }
    else { double *p = &cell[nc++]; *p = v; s.resetNeighRate({id, p}); r[id] = v; sym_reach("reset"); }
  }
  compare(s, r);
}
HARNESS(C15_many) {
  // twelve neighbours, two rates free, one of them reset or added afterwards
  static double x; int how = sym_pick("how", 0, 2); std::unordered_map<int, double> m; std::map<int, double> r; for (int i = 0; i < 12; i++) r[i * 13] = m[i * 13] = i < 2 ? sym_real("rate", LO, HI) : sym_exact(0.5 * i); Site s; s.setId(7); s.setRatesToNeighbors(m); compare(s, r);
  x = sym_real("new", LO, HI); int id = how == 0 ? 26 : how == 1 ? 0 : 1000; if (how == 2) s.addNeighRate({id, &x}); else s.resetNeighRate({id, &x}); r[id] = x; compare(s, r); sym_reach("end");
}
HARNESS(C15_rate_changed_outside) {
  std::unordered_map<int, double> m{{4, 1.0}, {17, 1.0}}; m[4] = sym_real("r0", LO, HI); m[17] = sym_real("r1", LO, HI);
  Site s; s.setId(2); s.setRatesToNeighbors(m); double v = sym_real("new", LO, HI); m[4] = v; sym_check(s.getRateToNeighbor(4) == v, "a rate changed by its owner is seen by the site"); s.setRatesToNeighbors(m); std::map<int, double> r{{4, v}, {17, m[17]}}; compare(s, r);
  double *p = &m[17], w = sym_real("new2", LO, HI); *p = w; s.resetNeighRate({17, p}); r[17] = w; compare(s, r); sym_reach("end");
}
HARNESS(C15_two_sites) {
  std::unordered_map<int, double> a, b; std::map<int, double> ra, rb; for (int i = 0; i < 2; i++) { ra[NB[i]] = a[NB[i]] = sym_real("a", LO, HI); rb[NB[i]] = b[NB[i]] = sym_real("b", LO, HI); }
  Site s, t; s.setId(1); t.setId(2); s.setRatesToNeighbors(a); t.setRatesToNeighbors(b); Site c(s); double x = sym_real("c", LO, HI); c.resetNeighRate({17, &x});
  compare(s, ra); compare(t, rb); ra[17] = x; compare(c, ra); sym_reach("end");
}

// ---------------------------------------------------------------- C16 picks
HARNESS(C16_measure) {
  sym_zero_draws(2);
  sym_note("1..4 neighbours (thorough 5); every rate any real in [1e-6,1e6]; every draw in [0,1); a separate check in IEEE arithmetic with fixed rates whose probabilities do not add up to one");
  int n = sym_pick("n", 1, TIER(4, 5)); std::unordered_map<int, double> m; double sum = 0; std::map<int, double> r;
  for (int i = 0; i < n; i++) { r[NB[i]] = m[NB[i]] = sym_real("rate", LO, HI); sum = sum + m[NB[i]]; }
  Site s; s.setId(9); s.setRatesToNeighbors(m); int w = sym_int("walker", IMIN, IMAX);
  int d0 = sym_draw_count(); int p = s.pickNewSiteId(w); int d1 = sym_draw_count(); int q = s.pickNewSiteId(); int d2 = sym_draw_count();
  sym_check((r.count(p) == 1) && (r.count(q) == 1), "a pick is always a neighbour"); sym_check((d1 == d0 + 1) & (d2 == d1 + 1), "every pick is decided by one draw");
  if (d1 == d0 + 1 && d2 == d1 + 1 && p == q && r.count(p)) { double u = sym_draw_value(d0), v = sym_draw_value(d1); sym_check_le((u - v) * sum, r[p], "draws that pick the same neighbour span no more than its probability"); sym_reach("same"); }
  sym_reach("end");
}
HARNESS(C16_many) {
  // twelve neighbours with fixed, very different rates; every pair of draws
  std::unordered_map<int, double> m; std::map<int, double> r; double sum = 0; int set = sym_pick("set", 0, 1); for (int i = 0; i < 12; i++) { double v = sym_exact(set ? (i % 3 == 0 ? 1e-3 : i % 3 == 1 ? 1.0 : 1000.0) : 0.25 * (i + 1)); r[i * 13 - 5] = m[i * 13 - 5] = v; sum = sum + v; }
  Site s; s.setId(1000); s.setRatesToNeighbors(m); int d0 = sym_draw_count(); int p = s.pickNewSiteId(), q = s.pickNewSiteId(3); sym_check(r.count(p) == 1 && r.count(q) == 1, "a pick among many neighbours is a neighbour"); if (sym_draw_count() == d0 + 2 && p == q && r.count(p)) { sym_check_le((sym_draw_value(d0) - sym_draw_value(d0 + 1)) * sum, r[p], "draws that pick the same of many neighbours span no more than its probability"); sym_reach("same"); } sym_reach("end");
}
HARNESS(C16_every_neighbour_reachable) {
  int n = sym_pick("n", 1, 4); std::unordered_map<int, double> m; double fast = sym_real("r", LO, HI);
  for (int i = 0; i < n; i++) m[NB[i]] = fast; // equal rates: the k-th of n equal slices
  Site s; s.setId(9); s.setRatesToNeighbors(m); int p = s.pickNewSiteId(), q = s.pickNewSiteId(); double u = sym_draw_value(0), v = sym_draw_value(1);
  if (sym_draw_count() == 2) { sym_assume((u >= 0) & (v >= 0)); if (p == q) sym_check_le((u - v) * n, 1.0, "equal rates give equal shares"); else if (u < v) sym_reach("different"); }
}
HARNESS(C16_follows_changes) {
  std::unordered_map<int, double> m; m[4] = sym_real("r0", LO, HI); m[17] = sym_real("r1", LO, HI); Site s; s.setId(1); s.setRatesToNeighbors(m); s.pickNewSiteId();
  static double x, y; x = sym_real("x", LO, HI); y = sym_real("y", LO, HI); s.resetNeighRate({17, &x}); s.addNeighRate({-3, &y}); std::map<int, double> r{{4, m[4]}, {17, x}, {-3, y}}; double sum = m[4] + x + y;
  int d0 = sym_draw_count(); int p = s.pickNewSiteId(), q = s.pickNewSiteId(); sym_check(r.count(p) == 1 && r.count(q) == 1, "a pick is always a neighbour");
  if (sym_draw_count() == d0 + 2 && p == q) sym_check_le((sym_draw_value(d0) - sym_draw_value(d0 + 1)) * sum, r[p], "draws that pick the same neighbour span no more than its current probability");
  sym_reach("end");
}
HARNESS(C16_rounding_fp) {
  sym_zero_draws(2);
  static const double R[3][3] = {{0.1, 0.1, 0.1}, {0.7, 0.1, 0.2}, {1e6, 1e-6, 3.0}}; int k = sym_pick("rates", 0, 3); std::unordered_map<int, double> m; int n = k == 3 ? 10 : 3;
  for (int i = 0; i < n; i++) m[i + 1] = k == 3 ? 0.1 : R[k][i];
  Site s; s.setId(0); s.setRatesToNeighbors(m); int p = s.pickNewSiteId(); sym_check((p >= 1) & (p <= n), "a pick is always a neighbour, whatever the rounding"); sym_reach("end");
}

// ---------------------------------------------------------------- C17 dwell times
HARNESS(C17_dwell) {
  sym_zero_draws(2);
  sym_note("sites with 1..3 neighbours; every rate any real in [1e-6,1e6]; every draw in [0,1), zero included; log is axiomatised (sign, monotonicity, log x <= x-1, log of the smallest normal double)");
  int n = sym_pick("n", 1, 3); std::unordered_map<int, double> m; double sum = 0; for (int i = 0; i < n; i++) { m[NB[i]] = sym_real("rate", LO, HI); sum = sum + m[NB[i]]; }
  Site s; s.setId(9); s.setRatesToNeighbors(m); int w = sym_int("walker", IMIN, IMAX); double t0 = s.getTimeConstant();
  int d0 = sym_draw_count(); double d = s.getDwellTime(w); int d1 = sym_draw_count();
  sym_check(std::isfinite(d), "a dwell time is finite"); sym_check(d > 0, "a dwell time is positive");
  sym_check(d1 > d0, "every dwell time is drawn"); if (d1 > d0 + 1) sym_check(sym_draw_value(d0) <= 1e-20, "one draw decides a dwell time");
  if (d1 == d0 + 1) { double u = sym_draw_value(d0); if (u > 1e-20) { double a = -sym_log(u), b = -sym_log(1 - u); sym_check_either(d * sum, a, b, "the dwell time is exponentially distributed with mean one over the total rate"); sym_reach("formula"); } else { sym_reach("zero draw"); } }
  sym_check_close(s.getTimeConstant(), t0, "drawing a dwell time does not change the time constant"); sym_reach("end");
}
HARNESS(C17_independent_of_history) {
  sym_zero_draws(2);
  std::unordered_map<int, double> m; m[4] = sym_real("rate", LO, HI); Site s; s.setId(9); s.setRatesToNeighbors(m); int ops = TIER(3, 4);
  for (int k = 0; k < ops; k++) { int op = sym_pick("op", 0, 2); if (op == 0) s.occupy(); else if (op == 1) s.pickNewSiteId(); else s.getDwellTime(k); }
  int d0 = sym_draw_count(); double d = s.getDwellTime(1); if (sym_draw_count() == d0 + 1) { double u = sym_draw_value(d0); if (u > 1e-20) { double a = -sym_log(u), b = -sym_log(1 - u); sym_check_either(d * m[4], a, b, "every dwell time is drawn afresh from the same distribution"); } }
  sym_reach("end");
}

// ---------------------------------------------------------------- C18 occupancy and visits
HARNESS(C18_occupancy) {
  sym_note("histories of 4 calls (thorough 6) on two sites: occupy, vacate, remove walker; visit counts and status overrides separately; counts: any int in [0,10^6]; the number of walkers on a site never goes below zero");
  Site s[2]; s[0].setId(1); s[1].setId(2); int occ[2] = {0, 0}; long vis[2] = {0, 0};
  for (int k = 0; k < TIER(4, 6); k++) {
    int f = sym_int("site", 0, 1) ? 1 : 0, op = sym_int("op", 0, 3); Site &x = s[f];
    if (op == 0) { x.occupy(); occ[f]++; vis[f]++; sym_reach("occupy"); }
    else if (op == 1) { x.occupy(f + 1); occ[f]++; vis[f]++; }
    else if (op == 2) { if (!occ[f]) sym_done(); x.vacate(); occ[f]--; sym_reach("vacate"); }
    else { if (!occ[f]) sym_done(); x.removeWalker(7, f + 1); occ[f]--; sym_reach("remove"); }
  }
  for (int f = 0; f < 2; f++) { sym_check(s[f].isOccupied() == (occ[f] > 0), "a site is occupied while a walker is on it"); sym_check(s[f].isOccupied(f + 1) == (occ[f] > 0), "occupancy by site id agrees"); sym_check(s[f].getVisitFrequency() == vis[f], "every arrival is one visit and departures are not counted"); sym_check(s[f].getVisitFrequency(f + 1) == vis[f], "visits by site id agree"); }
}
HARNESS(C18_counts) {
  Site s; s.setId(3); int v0 = sym_int("count", 0, 1000000); int how = sym_pick("how", 0, 1); if (how) s.setVisitFrequency(v0, 3); else s.setVisitFrequency(v0);
  sym_check(s.getVisitFrequency() == v0, "the visit count is the one last set"); sym_check(!s.isOccupied(), "setting the count occupies nothing");
  s.occupy(); sym_check(s.getVisitFrequency() == v0 + 1, "an arrival adds one visit"); s.vacate(); sym_check(s.getVisitFrequency() == v0 + 1, "a departure adds none"); sym_check(!s.isOccupied(), "the site is free after the departure");
  s.setToOccupiedStatus(); sym_check(s.isOccupied(), "a site can be declared occupied"); sym_check(s.getVisitFrequency() == v0 + 1, "declaring a site occupied is no visit"); s.setToUnoccupiedStatus(); sym_check(!s.isOccupied() & (s.getVisitFrequency() == v0 + 1), "a site can be declared free");
  s.occupy(3); s.removeWalker(5, 3); sym_check(!s.isOccupied() & (s.getVisitFrequency() == v0 + 2), "removing the only walker frees the site"); sym_reach("end");
}
HARNESS(C18_crowd) {
  // large numbers of walkers and visits
  static const int N[] = {1, 2, 7, 127, 128, 255, 256, 300, 40000, 70000}; int n = N[sym_pick("walkers", 0, 9)], how = sym_pick("how", 0, 1), v0 = sym_int("count", 0, 1000000000); Site s; s.setId(3); s.setVisitFrequency(v0); for (int i = 0; i < n; i++) if (how) s.occupy(3); else s.occupy();
  sym_check(s.isOccupied() & s.isOccupied(3), "a site is occupied by any number of walkers"); sym_check(s.getVisitFrequency() == v0 + n, "every arrival of many is one visit"); for (int i = 0; i + 1 < n; i++) if (how) s.vacate(3); else s.removeWalker(i, 3); sym_check(s.isOccupied(), "a site is occupied until the last walker has left"); s.vacate(); sym_check(!s.isOccupied() & (s.getVisitFrequency() == v0 + n), "a site is free when the last walker has left"); sym_reach("end");
}
HARNESS(C18_cluster_id) {
  Site s, t; s.setId(1); t.setId(2); sym_check(!s.partOfCluster() & (s.getClusterId() < 0), "a fresh site belongs to no cluster"); int c = sym_int("cluster", 0, IMAX); s.setClusterId(c);
  sym_check(s.partOfCluster() & (s.getClusterId() == c), "a site belongs to the cluster it was put in"); sym_check(!t.partOfCluster(), "other sites are unaffected"); s.setClusterId(-1); sym_check(!s.partOfCluster(), "a site can leave its cluster"); sym_reach("end");
}
