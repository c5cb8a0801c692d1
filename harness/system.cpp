// The coarse-grained system: walkers hop over sites and clusters, sites are joined to clusters while they do.
// UGLY, the graph library the coarse-graining uses, is not part of this tree: stubs/UGLY stands in for it.
#include "sym.h"
#include "mythical/coarsegrainsystem.hpp"
#include "mythical/walker.hpp"
#include "libmythical/basin_explorer.hpp"
#include "libmythical/graph_library_adapter.hpp"
#include <algorithm>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
#include <unordered_map>
#include <vector>
using namespace mythical;
static const int IMIN = -2147483647 - 1, IMAX = 2147483647;
typedef std::unordered_map<int, std::unordered_map<int, double>> Rates;
class Electron : public Walker {};
typedef std::pair<int, std::shared_ptr<Walker>> W;
static W walker(int id, int site) { W w(id, std::shared_ptr<Walker>(new Electron)); w.second->occupySite(site); return w; }
template <class E, class F> static bool throws(F f) { try { f(); } catch (const E &) { return true; } catch (...) { return false; } return false; }

// Networks with fixed rates. 1 and 14 (and 0 and 13) share a hash bucket.
static Rates net(int k) {
  Rates r;
  switch (k) {
    case 0: r[1][14] = 1000; r[14][1] = 1000; r[1][5] = 1; r[14][5] = 2; r[5][1] = 3; r[5][14] = 4; break;                                                                             // a fast pair and one more site
    case 1: r[1][14] = 800; r[14][1] = 500; r[1][5] = 1; r[14][18] = 2; r[5][1] = 30; r[5][18] = 4; r[18][14] = 6; r[18][5] = 20; break;                                                // a fast pair within a ring
    case 2: r[1][2] = 10000; r[2][1] = 10000; r[3][4] = 10000; r[4][3] = 10000; r[2][3] = 100; r[3][2] = 100; r[1][9] = 1; r[4][9] = 1; r[9][1] = 1; r[9][4] = 1; break;                 // two fast pairs, joined in the end
    case 3: r[1][2] = 5; r[2][1] = 3; r[2][3] = 4; r[3][2] = 6; r[3][1] = 2; r[1][3] = 7; break;                                                                                       // triangle, nothing to join
    case 4: r[0][13] = 900; r[13][0] = 900; r[13][26] = 900; r[26][13] = 900; r[0][7] = 1; r[26][7] = 0.5; r[7][0] = 2; r[7][26] = 1; break;                                            // three sites in one basin
    case 6: r[1][2] = 100; r[2][1] = 100; r[2][3] = 10; r[3][2] = 10; r[3][4] = 5; r[4][3] = 50; r[1][9] = 0.125; r[9][1] = 1; r[9][4] = 2; r[4][9] = 0.125; break;                        // the basin of one pair holds only part of the other
    case 5: r[1][14] = 1000; r[14][1] = 1000; r[1][5] = 1; r[14][6] = 2; break;                                                                                                        // the ways out lead to drains
  }
  return r;
}
static bool joined(CoarseGrainSystem &s, int a, std::set<int> &members) { members.clear(); int c = s.getClusterIdOfSite(a); if (c == constants::unassignedId) return false; auto m = s.getClusters(); if (!m.count(c)) return false; members.insert(m[c].begin(), m[c].end()); return true; }
// where a walker on site a may go next: a neighbour, or, within a cluster, a member or a neighbour of one
static bool mayGo(CoarseGrainSystem &s, const Rates &r, int a, int b) {
  std::set<int> m; if (!joined(s, a, m)) return r.at(a).count(b) != 0; if (m.count(b)) return true; for (int x : m) if (r.count(x) && r.at(x).count(b)) return true; return false;
}
static std::set<int> allSites(const Rates &r) { std::set<int> s; for (auto &a : r) { s.insert(a.first); for (auto &b : a.second) s.insert(b.first); } return s; }

// ---------------------------------------------------------------- C30 hopping
// the walkers' positions follow their chosen targets; a taken target is refused
static void hops(int k, int threshold, int nw, int steps, const int *start, double (*res)(double)) {
  Rates r = net(k); CoarseGrainSystem s; s.setTimeResolution(res ? res(1000) : 1000); s.setMinCoarseGrainIterationThreshold(threshold); s.initializeSystem(r);
  std::vector<W> w; std::vector<int> at; for (int i = 0; i < nw; i++) { w.push_back(walker(10 * i - 3, start[i])); at.push_back(start[i]); } s.initializeWalkers(w);
  for (int i = 0; i < nw; i++) { sym_check(w[i].second->getIdOfSiteCurrentlyOccupying() == at[i], "initializing leaves a walker on its site"); sym_check(w[i].second->getDwellTime() > 0, "initializing gives a walker a dwell time"); sym_check(mayGo(s, r, at[i], w[i].second->getPotentialSite()), "the first target is a neighbour"); }
  bool moved = false, refused = false;
  for (int t = 0; t < steps; t++) {
    int i = sym_pick("walker", 0, nw - 1); int to = w[i].second->getPotentialSite(); bool taken = false; for (int j = 0; j < nw; j++) if (at[j] == to) taken = true;
    if (!r.count(at[i])) sym_done();   // a drain: the walker is expected to be taken out
    s.hop(w[i]); if (!taken) at[i] = to; moved |= !taken; refused |= taken;
    for (int j = 0; j < nw; j++) sym_check(w[j].second->getIdOfSiteCurrentlyOccupying() == at[j], "a hop moves its walker to a free target, leaves it where the target is taken, and moves nobody else");
    if (!r.count(at[i])) sym_done();
    sym_check(w[i].second->getDwellTime() > 0, "every hop gives a positive dwell time"); sym_check(mayGo(s, r, at[i], w[i].second->getPotentialSite()), "the next target can be reached from where the walker is");
  }
  if (moved) sym_reach("moved"); if (refused) sym_reach("refused"); sym_reach("end");
}
HARNESS(C30_sites_only) {
  sym_note("coarse graining off and on after every hop; four networks of 3 to 5 sites with fixed rates, 1 to 3 walkers, up to 4 hops in any order, every random draw free");
  static const int st[] = {1, 2, 3}; hops(3, constants::inf_iterations, sym_pick("walkers", 1, 3), TIER(3, 4), st, 0);
}
HARNESS(C30_joining) { static const int st[] = {1, 5, 14}; hops(0, sym_pick("threshold", 0, 1), sym_pick("walkers", 1, 3), TIER(3, 4), st, 0); }
HARNESS(C30_ring) { static const int st[] = {14, 18, 5}; hops(1, sym_pick("threshold", 0, 1), sym_pick("walkers", 1, 2), TIER(3, 4), st, 0); }
HARNESS(C30_merging) { static const int st[] = {2, 3, 9}; hops(2, 0, sym_pick("walkers", 1, 2), TIER(3, 4), st, 0); }
HARNESS(C30_basin) { static const int st[] = {0, 7, 26}; hops(4, 0, sym_pick("walkers", 1, 3), TIER(3, 4), st, 0); }

HARNESS(C30_removed) {
  // a walker that is taken out frees its site and no other
  Rates r = net(sym_pick("net", 0, 1) ? 0 : 3); bool tri = !r.count(14); int a = tri ? 1 : 1, b = tri ? 2 : 14, c = tri ? 3 : 5; CoarseGrainSystem s; s.setTimeResolution(1000); s.setMinCoarseGrainIterationThreshold(sym_pick("on", 0, 1) ? 0 : constants::inf_iterations); s.initializeSystem(r);
  std::vector<W> w; w.push_back(walker(4, a)); w.push_back(walker(9, b)); w.push_back(walker(5, c)); s.initializeWalkers(w); int h = sym_pick("first", 0, 1); if (h) s.hop(w[0]);   // every site is taken: refused
  sym_check(w[0].second->getIdOfSiteCurrentlyOccupying() == a, "no hop onto a taken site"); int gone = sym_pick("gone", 1, 2); int freed = gone == 1 ? b : c; if (sym_pick("how", 0, 1)) s.removeWalkerFromSystem(w[gone]); else s.removeWalkerFromSystem(w[gone].first, w[gone].second);
  int to = w[0].second->getPotentialSite(); if (sym_pick("how2", 0, 1)) s.hop(w[0]); else s.hop(w[0].first, w[0].second); sym_check(w[0].second->getIdOfSiteCurrentlyOccupying() == (to == freed ? freed : a), "the site of a walker that was taken out can be entered, the others cannot"); if (to == freed) sym_reach("entered"); else sym_reach("refused");
}
HARNESS(C30_late) {
  // walkers put into the system while it runs: on sites and into clusters
  Rates r = net(0); CoarseGrainSystem s; s.setTimeResolution(1000); s.setMinCoarseGrainIterationThreshold(0); s.initializeSystem(r); std::vector<W> w; w.push_back(walker(4, 1)); s.initializeWalkers(w); int at[3] = {1, 0, 0}; static const int S[] = {1, 14, 5};
  for (int t = 0; t < 2 + TIER(2, 3); t++) {
    if (t == 1) { int b = S[sym_pick("where", 0, 2)]; if (b == at[0]) sym_done(); std::vector<W> n; n.push_back(walker(8, b)); s.initializeWalkers(n); w.push_back(n[0]); at[1] = b; sym_check(mayGo(s, r, b, w[1].second->getPotentialSite()) && w[1].second->getDwellTime() > 0, "a late walker gets a dwell time and a target"); continue; }
    int i = t > 1 ? sym_pick("walker", 0, 1) : 0, to = w[i].second->getPotentialSite(); bool taken = false; for (size_t j = 0; j < w.size(); j++) if (at[j] == to) taken = true; s.hop(w[i]); if (!taken) at[i] = to; for (size_t j = 0; j < w.size(); j++) sym_check(w[j].second->getIdOfSiteCurrentlyOccupying() == at[j], "a late walker holds its site like any other");
    if (t > 1 && taken) sym_reach("refused");
  }
  sym_reach("end");
}

// ---------------------------------------------------------------- C31 clusters are disjoint, listed and consistent
static void consistent(CoarseGrainSystem &s, const Rates &r) {
  auto m = s.getClusters(); auto res = s.getResolutionOfClusters(); auto inc = s.getTimeIncrementOfClusters(); std::map<int, int> of; sym_check(res.size() == m.size() && inc.size() == m.size(), "every cluster has a resolution and a time increment");
  for (auto &c : m) {
    sym_check(c.second.size() >= 2, "a cluster has at least two members"); sym_check(res.count(c.first) && res.at(c.first) >= 2, "the resolution of a cluster is at least two"); sym_check(inc.count(c.first) && inc.at(c.first) > 0, "the time increment of a cluster is positive");
    for (int x : c.second) { sym_check(!of.count(x), "no site belongs to two clusters"); of[x] = c.first; }
  }
  for (int x : allSites(r)) { int c = s.getClusterIdOfSite(x); sym_check(c == (of.count(x) ? of[x] : constants::unassignedId), "a site reports the cluster that lists it"); }
  for (auto &e : of) sym_check(allSites(r).count(e.first) != 0, "the members of clusters are sites of the system");
}
static std::map<int, int> clusterOf(CoarseGrainSystem &s, const Rates &r) { std::map<int, int> m; for (int x : allSites(r)) m[x] = s.getClusterIdOfSite(x); return m; }
static void growing(int k, double ratio, int nw, int steps, const int *start, double resolution = 1000) {
  Rates r = net(k); CoarseGrainSystem s; s.setTimeResolution(resolution); s.setPerformanceRatio(ratio); s.setMinCoarseGrainIterationThreshold(0); s.initializeSystem(r); consistent(s, r); std::vector<W> w; for (int i = 0; i < nw; i++) w.push_back(walker(i, start[i])); s.initializeWalkers(w); auto before = clusterOf(s, r); bool join = false, merge = false;
  for (int t = 0; t < steps; t++) {
    W &x = w[sym_pick("walker", 0, nw - 1)]; if (!r.count(x.second->getIdOfSiteCurrentlyOccupying())) sym_done(); auto steps_ = s.getTimeIncrementOfClusters(); s.hop(x); consistent(s, r); auto after = clusterOf(s, r);
    int on = before[x.second->getIdOfSiteCurrentlyOccupying()]; if (on != constants::unassignedId && steps_.count(on)) { sym_check_le(x.second->getDwellTime(), steps_.at(on), "a walker that hops onto a member of a cluster waits at most one time increment of it"); }
    for (auto &a : before) { if (a.second != constants::unassignedId) sym_check(after[a.first] != constants::unassignedId, "a member of a cluster stays in a cluster"); for (auto &b : before) if (a.second != constants::unassignedId && a.second == b.second) { sym_check(after[a.first] == after[b.first], "members of one cluster stay together"); if (after[a.first] != a.second) merge = true; } else if (a.second != constants::unassignedId && b.second != constants::unassignedId && after[a.first] == after[b.first]) sym_check(after[a.first] <= a.second && after[a.first] <= b.second, "merged clusters carry the smallest of their ids"); if (a.second != after[a.first]) join = true; }
    before = after;
  }
  if (join) sym_reach("joined"); if (merge || k != 2) sym_reach("merged"); sym_reach("end");
}
HARNESS(C31_pair) { static const int st[] = {1, 5}; sym_note("networks of 3 to 5 sites with fixed rates, 1 to 2 walkers, up to 5 hops in any order, every draw free, coarse graining tried after every hop"); growing(sym_pick("net", 0, 1), 1, sym_pick("walkers", 1, 2), TIER(3, 4), st); }
HARNESS(C31_basin) { static const int st[] = {0, 7}; growing(4, 1, sym_pick("walkers", 1, 2), TIER(3, 4), st); }
HARNESS(C31_merge) { static const int st[] = {2, 3}; growing(2, 1, 2, TIER(4, 5), st); }
HARNESS(C31_resolution) { static const int st[] = {1}; static const int K[] = {0, 1, 5}; growing(K[sym_pick("net", 0, 2)], sym_real("ratio", 0.1, 1000), 1, 2, st, sym_real("resolution", 1e-3, 1e3)); }
HARNESS(C31_partial) { static const int st[] = {4, 2}; growing(6, 0.1, 2, TIER(4, 5), st); }

// ---------------------------------------------------------------- C32 visits
HARNESS(C32_sites) {
  sym_note("coarse graining off: networks of 3 to 5 sites, 1 to 3 walkers, up to 4 hops in any order; on: counts of sites that join or change clusters are kept");
  Rates r = net(sym_pick("net", 0, 1) ? 1 : 3); bool tri = !r.count(14); static const int A[] = {1, 2, 3}, B[] = {1, 14, 5}; const int *st = tri ? A : B; int nw = sym_pick("walkers", 1, 3); CoarseGrainSystem s; s.setTimeResolution(1000); s.setMinCoarseGrainIterationThreshold(constants::inf_iterations); s.initializeSystem(r); std::map<int, int> v; for (int x : allSites(r)) { v[x] = 0; sym_check(s.getVisitFrequencyOfSite(x) == 0, "a site starts without visits"); }
  std::vector<W> w; for (int i = 0; i < nw; i++) { w.push_back(walker(i, st[i])); v[st[i]]++; } s.initializeWalkers(w); for (auto &e : v) sym_check(s.getVisitFrequencyOfSite(e.first) == e.second, "placing a walker is a visit");
  for (int t = 0; t < TIER(2, 3); t++) { int i = sym_pick("walker", 0, nw - 1), at = w[i].second->getIdOfSiteCurrentlyOccupying(); s.hop(w[i]); int now = w[i].second->getIdOfSiteCurrentlyOccupying(); for (auto &e : v) { int c = s.getVisitFrequencyOfSite(e.first); if (e.first == now && now != at) { sym_check(c == e.second + 1, "an arrival is one visit"); } else if (e.first == at) sym_check(c >= e.second, "a refused hop loses no visit"); else sym_check(c == e.second, "a hop changes no other count"); e.second = c; } }
  sym_check(s.getClusters().empty(), "nothing is joined when coarse graining is off"); sym_reach("end");
}
static void kept(int k, double ratio, int nw, int steps, const int *start) {
  Rates r = net(k); CoarseGrainSystem s; s.setTimeResolution(1000); s.setPerformanceRatio(ratio); s.setMinCoarseGrainIterationThreshold(0); s.initializeSystem(r); std::vector<W> w; std::map<int, int> v; for (int x : allSites(r)) v[x] = 0; for (int i = 0; i < nw; i++) { w.push_back(walker(i, start[i])); v[start[i]]++; } s.initializeWalkers(w);
  for (int t = 0; t < steps; t++) {
    int i = sym_pick("walker", 0, nw - 1), at = w[i].second->getIdOfSiteCurrentlyOccupying(); auto of = clusterOf(s, r); s.hop(w[i]); int now = w[i].second->getIdOfSiteCurrentlyOccupying();
    for (auto &e : v) { int c = s.getVisitFrequencyOfSite(e.first); sym_check(c >= e.second, "joining and merging lose no visits"); if (of[e.first] == constants::unassignedId && e.first != now && e.first != at) sym_check(c == e.second, "joining a cluster leaves the count of a site as it is"); if (of[e.first] == constants::unassignedId && e.first == now && now != at) sym_check(c == e.second + 1, "an arrival is one visit"); e.second = c; }
  }
  if (!s.getClusters().empty()) sym_reach("joined"); sym_reach("end");
}
HARNESS(C32_joining) { static const int st[] = {1, 5}; kept(sym_pick("net", 0, 1), 1, sym_pick("walkers", 1, 2), TIER(3, 4), st); }
HARNESS(C32_merging) { static const int st[] = {2, 3}; kept(2, 1, 2, TIER(3, 4), st); }

// ---------------------------------------------------------------- C33 what is joined, and when
// shortest time to cross a group of sites, between the two members that are farthest apart
static double crossing(const Rates &r, const std::vector<int> &g) {
  size_t n = g.size(); const double far = 1e9; std::vector<std::vector<double>> d(n, std::vector<double>(n, far)); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) if (i != j && r.count(g[i]) && r.at(g[i]).count(g[j])) d[i][j] = 1 / r.at(g[i]).at(g[j]);
  for (size_t k = 0; k < n; k++) for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) if (i != j && j != k && i != k && d[i][k] + d[k][j] < d[i][j]) d[i][j] = d[i][k] + d[k][j];
  double m = 0; for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) if (i != j && d[i][j] > m) m = d[i][j]; return m;
}
static double exitRate(const Rates &r, const std::vector<int> &g) { double e = 0; for (int x : g) for (auto &y : r.at(x)) if (std::find(g.begin(), g.end(), y.first) == g.end()) e = e + y.second; return e; }
// a system with one walker that has hopped once onto site `to`; coarse graining is tried after that hop
struct Tried { CoarseGrainSystem s; std::vector<W> w; };
static void tried(Tried &t, Rates &r, double res, double ratio, int from, double pick1, double pick2, int threshold) {
  t.s.setTimeResolution(res); t.s.setPerformanceRatio(ratio); t.s.setMinCoarseGrainIterationThreshold(threshold); t.s.initializeSystem(r); t.w.push_back(walker(1, from)); sym_next_draw(0.5); sym_next_draw(pick1); t.s.initializeWalkers(t.w); sym_next_draw(0.5); sym_next_draw(pick2); t.s.hop(t.w[0]);
}
static bool isPair(CoarseGrainSystem &s, int a, int b) { auto m = s.getClusters(); if (m.size() != 1) return false; auto &c = m.begin()->second; return c.size() == 2 && std::find(c.begin(), c.end(), a) != c.end() && std::find(c.begin(), c.end(), b) != c.end(); }
HARNESS(C33_pair) {
  sym_note("pairs: equal inner rates any real in [10,1000] and equal outer rates any real in [1e-3,5], or unequal ones from a list; any time resolution in [1e-3,1e3], any performance ratio in [0.1,1000]; groups of three and four sites with fixed rates, time resolution and ratio free; thresholds 0 to 3");
  Rates r; double a, b, e1, e2; if (sym_pick("equal", 0, 1)) { a = b = sym_real("in", 10, 1000); e1 = e2 = sym_real("out", 1e-3, 5); } else { static const double A[] = {64, 500, 16}, B[] = {32, 700, 900}, E1[] = {1, 0.25, 3}, E2[] = {2, 4, 0.5}; int k = sym_pick("rates", 0, 2); a = A[k]; b = B[k]; e1 = E1[k]; e2 = E2[k]; }
  r[1][14] = a; r[14][1] = b; r[1][5] = e1; r[14][5] = e2; r[5][1] = 1; r[5][14] = 2; double res = sym_real("resolution", 1e-3, 1e3), ratio = sym_real("ratio", 0.1, 1000); Tried t; tried(t, r, res, ratio, 1, 0.9, 0.5, 0);
  if (t.w[0].second->getIdOfSiteCurrentlyOccupying() == 5) sym_done();
  double cross = 2 * (a < b ? 1 / a : 1 / b), leave = 1 / (e1 + e2); sym_assume(leave - cross * ratio > 1e-7 || cross * ratio - leave > 1e-7); sym_assume(cross - res > 1e-9 || res - cross > 1e-9); bool join = leave > cross * ratio && cross < res; bool any = !t.s.getClusters().empty();
  sym_check(any == join, "a pair is joined exactly when leaving it takes longer than crossing it twice (times the ratio) and crossing it twice is faster than the time resolution");
  if (any) { sym_check(isPair(t.s, 1, 14), "the two fast sites are joined"); sym_reach("joined"); } else sym_reach("apart");
}
HARNESS(C33_groups) {
  int k = sym_pick("net", 0, 3); static const int K[] = {0, 1, 4, 2}, F[] = {1, 14, 0, 2}; Rates r = net(K[k]); double res = sym_real("resolution", 1e-3, 1e3), ratio = sym_real("ratio", 0.1, 1000); Tried t; tried(t, r, res, ratio, F[k], 0.3, 0.5, 0); auto m = t.s.getClusters();
  if (m.empty()) { sym_reach("apart"); sym_done(); } sym_check(m.size() == 1, "one attempt makes at most one cluster"); std::vector<int> g = m.begin()->second; double cross = 2 * crossing(r, g), leave = 1 / exitRate(r, g); sym_check_le(cross * ratio, leave, "a group is joined only if leaving it takes longer than crossing it twice, times the ratio"); sym_check_le(cross, res, "a group is joined only if crossing it twice is faster than the time resolution");
  double n = t.s.getTimeIncrementOfClusters().begin()->second; double q = t.s.getResolutionOfClusters().begin()->second; sym_check(q >= 2, "the resolution is at least two"); sym_check(n > 0, "the time increment is positive");
  sym_check_le(n, res, "a new cluster is updated at least once per time resolution"); if (q > 2 * (1 + 1e-9)) sym_check_close(n, res, "a new cluster hands out its time in the coarsest steps allowed"); sym_reach("joined");
}
HARNESS(C33_threshold) {
  // nothing is tried before more hops than the threshold were made
  int n = sym_pick("threshold", 0, 3); bool off = sym_pick("off", 0, 1); Rates r = net(5); CoarseGrainSystem s; s.setTimeResolution(1000); s.setMinCoarseGrainIterationThreshold(off ? constants::inf_iterations : n); s.initializeSystem(r); std::vector<W> w; w.push_back(walker(1, 1)); s.initializeWalkers(w);
  for (int t = 0; t <= n; t++) { sym_check(s.getClusters().empty(), "nothing is joined before the threshold"); s.hop(w[0]); int x = w[0].second->getIdOfSiteCurrentlyOccupying(); if (!r.count(x)) sym_done(); if (!r.count(w[0].second->getPotentialSite())) sym_done(); }
  if (off) { sym_check(s.getClusters().empty(), "nothing is joined when coarse graining is off"); sym_reach("off"); } else { sym_check(isPair(s, 1, 14), "the fast pair is joined when the threshold is passed"); sym_reach("on"); }
}

// ---------------------------------------------------------------- C34 misuse is rejected
HARNESS(C34_rejected) {
  sym_note("time resolutions any double in [-1e300,1e300], site ids any int outside the system, walkers on unknown sites or without one, seeds set late");
  CoarseGrainSystem s; Rates r = net(0); sym_check(throws<std::runtime_error>([&] { s.getTimeResolution(); }), "no time resolution before one is set"); sym_check(throws<std::runtime_error>([&] { s.initializeSystem(r); }), "no system without a time resolution");
  std::vector<W> w; w.push_back(walker(1, 1)); sym_check(throws<std::runtime_error>([&] { s.initializeWalkers(w); }), "no walkers before the system"); double x = sym_real("x", -1e300, 1e300); bool bad = throws<std::invalid_argument>([&] { s.setTimeResolution(x); }); sym_check(bad == (x <= 0), "exactly the time resolutions that are not positive are rejected");
  if (bad) { sym_check(throws<std::runtime_error>([&] { s.getTimeResolution(); }), "a rejected time resolution is not kept"); s.setTimeResolution(2); sym_check(throws<std::invalid_argument>([&] { s.setTimeResolution(x); }) && s.getTimeResolution() == 2, "a rejected time resolution leaves the former one"); } else sym_check_close(s.getTimeResolution(), x, "the time resolution is kept");
  s.setRandomSeed(7); s.initializeSystem(r); sym_check(throws<std::runtime_error>([&] { s.setRandomSeed(8); }), "a seed that comes too late is rejected");
  int id = sym_int("id", IMIN, IMAX); sym_assume(id != 1 && id != 14 && id != 5); sym_check(throws<std::invalid_argument>([&] { s.getVisitFrequencyOfSite(id); }), "no visits of a site that is not in the system"); sym_check(throws<std::invalid_argument>([&] { s.getClusterIdOfSite(id); }), "no cluster of a site that is not in the system"); sym_reach("end");
}
HARNESS(C34_walkers) {
  // one walker of several is on no site or on an unknown one
  CoarseGrainSystem s; Rates r = net(sym_pick("net", 0, 1) ? 5 : 0); s.setTimeResolution(10); s.initializeSystem(r); int k = sym_pick("which", 0, 1), id = sym_int("id", IMIN, IMAX); sym_assume(!allSites(r).count(id)); std::vector<W> w; w.push_back(walker(1, 1)); w.push_back(walker(2, 14)); if (sym_pick("none", 0, 1)) w[k] = W(3, std::shared_ptr<Walker>(new Electron)); else w[k].second->occupySite(id);
  sym_check(throws<std::runtime_error>([&] { s.initializeWalkers(w); }), "a walker that is on no site of the system is rejected"); sym_reach("end");
}
HARNESS(C34_initial) {
  // every site of the rates, and every site they lead to, is in the system, in no cluster and not visited
  CoarseGrainSystem s; Rates r = net(sym_pick("net", 0, 6)); if (sym_pick("seed", 0, 1)) s.setRandomSeed(3); s.setTimeResolution(10); s.initializeSystem(r); for (int x : allSites(r)) { sym_check(s.getVisitFrequencyOfSite(x) == 0, "a new site has no visits"); sym_check(s.getClusterIdOfSite(x) == constants::unassignedId, "a new site is in no cluster"); } sym_check(s.getClusters().empty() && s.getResolutionOfClusters().empty() && s.getTimeIncrementOfClusters().empty(), "a new system has no clusters"); sym_reach("end");
}

// ---------------------------------------------------------------- C35 basins and the graph view of the rates
static void container(Site_Container &sc, Rates &r) { for (int x : allSites(r)) { Site s; s.setId(x); if (r.count(x)) s.setRatesToNeighbors(r[x]); sc.addSite(s); } }
HARNESS(C35_basin) {
  sym_note("chains and stars of 4 sites with three free rates in [1,1000] and the others fixed, every start; limits of 1 to 5 sites");
  Rates r; int shape = sym_pick("shape", 0, 1); double a = sym_real("a", 1, 1000), b = sym_real("b", 1, 1000), c = sym_real("c", 1, 1000);
  if (shape == 0) { r[1][14] = a; r[14][1] = 100; r[14][3] = b; r[3][14] = 50; r[3][4] = c; r[4][3] = 20; } else { r[1][14] = a; r[1][3] = b; r[1][4] = c; r[14][1] = 90; r[3][1] = 10; r[4][1] = 500; }
  Site_Container sc; container(sc, r); Cluster_Container cc; BasinExplorer be; int lim = sym_pick("limit", 0, TIER(2, 5)); if (lim) be.setMaxExplorationCount(lim); static const int S[] = {1, 14, 3, 4}; int st = S[sym_pick("start", 0, 3)]; std::vector<int> g = be.findBasin(sc, cc, st); std::set<int> u(g.begin(), g.end());
  sym_check(u.size() == g.size(), "no site is listed twice"); sym_check((int)g.size() <= (lim ? lim : 5), "a basin has no more sites than allowed"); if (g.empty()) { sym_reach("too_big"); sym_done(); } sym_check(u.count(st) != 0, "the basin holds the site it was started from");
  std::set<int> in; in.insert(st); for (size_t k = 0; k < 4; k++) for (int x : std::set<int>(in)) for (auto &e : r[x]) if (u.count(e.first)) in.insert(e.first); sym_check(in == u, "every site of a basin can be reached within it");
  double best = 0; for (auto &e : r[st]) best = e.second > best ? e.second : best; for (auto &e : r[st]) if (e.second >= best) { sym_check(u.count(e.first) != 0, "the basin holds the fastest neighbour of its start"); }
  double slow = best; for (int x : g) for (auto &e : r[x]) if (e.second >= best) sym_check(u.count(e.first) != 0, "no way out of a basin is as fast as the fastest rate off its start"); (void)slow; sym_reach("end");
}
HARNESS(C35_edges) {
  Rates r; double a = sym_real("a", 1e-3, 1e3), b = sym_real("b", 1e-3, 1e3); r[1][14] = a; r[1][3] = 2; r[14][1] = b; r[14][3] = 5; Site_Container sc; container(sc, r); std::vector<int> ids; ids.push_back(1); ids.push_back(14); if (sym_pick("drain", 0, 1)) ids.push_back(3); int which = sym_pick("which", 0, 3); typedef std::vector<std::shared_ptr<ugly::EdgeDirectedWeighted>> V; V es; std::vector<std::unique_ptr<ugly::EdgeDirectedWeighted>> us; std::map<std::pair<int, int>, double> want;
  if (which == 0) es = convertSitesOutgoingRatesToSharedWeightedEdges<V>(sc, 14); else if (which == 1) es = convertSitesOutgoingRatesToSharedWeightedEdges<V>(sc, ids); else if (which == 2) es = convertSitesOutgoingRatesToTimeSharedWeightedEdges<V>(sc, ids); else us = convertSitesOutgoingRatesToUniqueWeightedEdges<std::vector<std::unique_ptr<ugly::EdgeDirectedWeighted>>>(sc, 14);
  for (auto &x : r) if (which == 1 || which == 2 || x.first == 14) for (auto &y : x.second) want[std::make_pair(x.first, y.first)] = y.second; size_t n = which == 3 ? us.size() : es.size(); sym_check(n == want.size(), "one edge for every rate"); std::set<std::pair<int, int>> seen;
  for (size_t i = 0; i < n; i++) { ugly::EdgeDirectedWeighted *e = which == 3 ? us[i].get() : es[i].get(); auto key = std::make_pair(e->getVertex1(), e->getVertex2()); sym_check(want.count(key) && seen.insert(key).second, "an edge leads from a site to its neighbour"); double v = want.count(key) ? want[key] : 1; sym_check_close(e->getWeight(), which == 2 ? 1 / v : v, "an edge weighs its rate, or the time it takes"); }
  auto nodes = convertSitesToEmptySharedNodes(ids); sym_check(nodes.size() == ids.size() && nodes.count(1) && nodes.count(14), "one node for every site"); sym_reach("end");
}

// ---------------------------------------------------------------- C36 reproducible from the seed
// Here a draw is an unknown function of the state of its generator, the same one for every generator.
static unsigned long seedOf(int k) { static const unsigned long S[] = {1, 0, 42, 5489, 4294967295ul}; return S[k]; }
HARNESS(C36_site) {
  sym_note("generators are unknown functions of their state; seeds 0, 1, 42, 5489 and 2^32-1; sites with rates any real in [1e-3,1e3], clusters and systems with fixed rates; up to 4 calls or hops");
  sym_streams(); Rates r; r[1][2] = sym_real("a", 1e-3, 1e3); r[1][3] = 2; r[1][15] = sym_real("b", 1e-3, 1e3); unsigned long seed = seedOf(sym_pick("seed", 0, 4)); Site a, b; a.setId(1); b.setId(1); int first = sym_pick("first", 0, 1); if (first) { a.setRandomSeed(seed); b.setRandomSeed(seed); } a.setRatesToNeighbors(r[1]); b.setRatesToNeighbors(r[1]); if (!first) { if (sym_pick("used", 0, 1)) { a.pickNewSiteId(); a.getDwellTime(1); } a.setRandomSeed(seed); b.setRandomSeed(seed); }
  int w = 3; double d[4]; int p[4]; for (int t = 0; t < TIER(3, 4); t++) { if (sym_pick("call", 0, 1)) { d[t] = a.getDwellTime(w); sym_check_close(d[t], b.getDwellTime(w), "equal seeds give equal dwell times"); p[t] = -1; } else { p[t] = a.pickNewSiteId(w); sym_check(p[t] == b.pickNewSiteId(w), "equal seeds give equal targets"); } }
  if (sym_pick("again", 0, 1)) { a.occupy(); a.vacate(); a.occupy(); a.setRandomSeed(seed); for (int t = 0; t < TIER(3, 4); t++) if (p[t] < 0) sym_check_close(a.getDwellTime(w), d[t], "seeding again starts over"); else sym_check(a.pickNewSiteId(w) == p[t], "seeding again starts over"); } sym_reach("end");
}
static void mkCluster(Cluster &c, Rates &r, bool seed_first, unsigned long seed) { if (seed_first) c.setRandomSeed(seed); std::vector<Site> v; for (int x : {1, 14}) { Site s; s.setId(x); s.setRatesToNeighbors(r[x]); v.push_back(s); } c.addSites(v); c.updateProbabilitiesAndTimeConstant(); c.setResolution(4); if (!seed_first) c.setRandomSeed(seed); }
HARNESS(C36_cluster) {
  sym_streams(); Rates r; r[1][14] = 30; r[14][1] = 20; r[1][5] = 0.5; r[1][6] = 1; r[14][18] = 2; unsigned long seed = seedOf(sym_pick("seed", 0, 4)); Cluster a, b; bool f = sym_pick("first", 0, 1); mkCluster(a, r, f, seed); mkCluster(b, r, f, seed);
  for (int t = 0; t < TIER(4, 6); t++) { int w = t & 1 ? 8 : 3; double d = a.getDwellTime(w); sym_check_close(d, b.getDwellTime(w), "equal seeds give equal dwell times in a cluster"); int p = a.pickNewSiteId(w); sym_check(p == b.pickNewSiteId(w), "equal seeds give equal targets in a cluster"); } sym_reach("end");
}
static void twins(int k, int threshold, int nw, int steps, const int *start, unsigned long seed) {
  sym_streams(); Rates r = net(k), q = r; CoarseGrainSystem s, u; std::vector<W> w, v; for (int i = 0; i < nw; i++) { w.push_back(walker(i, start[i])); v.push_back(walker(i, start[i])); }
  CoarseGrainSystem *S[] = {&s, &u}; std::vector<W> *L[] = {&w, &v}; for (int i = 0; i < 2; i++) { S[i]->setRandomSeed(seed); S[i]->setTimeResolution(1000); S[i]->setMinCoarseGrainIterationThreshold(threshold); S[i]->initializeSystem(i ? q : r); S[i]->initializeWalkers(*L[i]); }
  for (int t = 0; t <= steps; t++) {
    for (int i = 0; i < nw; i++) { sym_check(w[i].second->getIdOfSiteCurrentlyOccupying() == v[i].second->getIdOfSiteCurrentlyOccupying(), "equal seeds give equal hops"); sym_check(w[i].second->getPotentialSite() == v[i].second->getPotentialSite(), "equal seeds give equal targets in a system"); sym_check_close(w[i].second->getDwellTime(), v[i].second->getDwellTime(), "equal seeds give equal times in a system"); }
    for (int x : allSites(r)) { sym_check((s.getClusterIdOfSite(x) == constants::unassignedId) == (u.getClusterIdOfSite(x) == constants::unassignedId), "equal seeds join the same sites"); sym_check(s.getVisitFrequencyOfSite(x) == u.getVisitFrequencyOfSite(x), "equal seeds give equal visits"); }
    if (t < steps) { int i = sym_pick("walker", 0, nw - 1); s.hop(w[i]); u.hop(v[i]); }
  }
  if (!s.getClusters().empty() || threshold) sym_reach("joined"); sym_reach("end");
}
HARNESS(C36_system) { static const int A[] = {1, 5}; int k = sym_pick("seed", 0, 1); twins(sym_pick("net", 0, 1), sym_pick("on", 0, 1) ? 0 : constants::inf_iterations, sym_pick("walkers", 1, 2), TIER(2, 3), A, seedOf(k)); }

// ---------------------------------------------------------------- C37 walkers wait and hop by the rates of the site they are on
static bool near(double x, double y) { double d = x - y, t = 1e-9 * (x > 0 ? x : -x); return (d <= t) & (-d <= t); }
struct Choice { int site, to; double u; };
// one decision (a dwell time and a target) of a walker on a site outside clusters, made with the draws from d0 on
static void decision(const std::unordered_map<int, double> &row, int site, double dwell, int to, int d0, std::vector<Choice> &made, int end = -1) {
  if (end < 0) end = sym_draw_count();
  double sum = 0; for (auto &e : row) sum = sum + e.second; sym_check(row.count(to) != 0, "a walker goes to a site its site has a rate to"); sym_check(end == d0 + 2, "a wait and a target are drawn afresh for every hop"); if (end != d0 + 2 || !row.count(to)) return;
  double a = sym_draw_value(d0), b = sym_draw_value(d0 + 1), u = b; double D = dwell * sum;
  if (!near(D, -sym_log(a))) { if (near(D, -sym_log(b)) || near(D, -sym_log(1 - b))) u = a; else sym_check_either(D, -sym_log(a), -sym_log(1 - a), "a wait is exponentially distributed with the total rate off the site"); }
  for (auto &c : made) if (c.site == site && c.to == to) { sym_check_le((u - c.u) * sum, row.at(to), "the share of draws that lead to a neighbour is its rate over the total rate"); sym_check_le((c.u - u) * sum, row.at(to), "the share of draws that lead to a neighbour is its rate over the total rate"); sym_reach("compared"); }
  made.push_back(Choice{site, to, u});
}
static void faithful(Rates &r, int threshold, int nw, const int *start, int steps) {
  Rates ref = r; CoarseGrainSystem s; s.setTimeResolution(1000); s.setMinCoarseGrainIterationThreshold(threshold); s.initializeSystem(r); std::vector<W> w; std::vector<Choice> made; 
  struct Stay { int cluster; double rest; }; std::vector<Stay> stay(nw, Stay{constants::unassignedId, 0}); bool bulk = nw > 1 && sym_pick("bulk", 0, 1);
  if (bulk) { for (int i = 0; i < nw; i++) w.push_back(walker(7 * i + 1, start[i])); int d0 = sym_draw_count(); s.initializeWalkers(w); sym_check(sym_draw_count() == d0 + 2 * nw, "a wait and a target are drawn for every walker"); if (sym_draw_count() != d0 + 2 * nw) return; for (int i = 0; i < nw; i++) decision(ref.at(start[i]), start[i], w[i].second->getDwellTime(), w[i].second->getPotentialSite(), d0 + 2 * i, made, d0 + 2 * i + 2); }
  else for (int i = 0; i < nw; i++) { std::vector<W> one; one.push_back(walker(7 * i + 1, start[i])); int d0 = sym_draw_count(); s.initializeWalkers(one); w.push_back(one[0]); decision(ref.at(start[i]), start[i], w[i].second->getDwellTime(), w[i].second->getPotentialSite(), d0, made); }
  for (int t = 0; t < steps; t++) {
    int i = sym_pick("walker", 0, nw - 1), at = w[i].second->getIdOfSiteCurrentlyOccupying(), to = w[i].second->getPotentialSite(); if (!ref.count(to)) { sym_reach("drain"); sym_done(); } auto inc = s.getTimeIncrementOfClusters(); auto res = s.getResolutionOfClusters(); int c0 = s.getClusterIdOfSite(at), c1 = s.getClusterIdOfSite(to); std::map<int, bool> member; for (int x : allSites(ref)) { int y = s.getClusterIdOfSite(x), taken = 0; for (auto &v : w) if (v.second->getIdOfSiteCurrentlyOccupying() == to && v.first != w[i].first) taken = 1; member[x] = y != constants::unassignedId && y == (taken ? c0 : c1); } int d0 = sym_draw_count(); s.hop(w[i]); int now = w[i].second->getIdOfSiteCurrentlyOccupying(), c = now == to ? c1 : c0; double d = w[i].second->getDwellTime();
    if (c == constants::unassignedId) decision(ref.at(now), now, d, w[i].second->getPotentialSite(), d0, made);
    else if (stay[i].cluster == c && c == c0) { sym_check(sym_draw_count() == d0 + 1, "a walker that stays on a cluster only draws a target"); if (stay[i].rest > inc.at(c)) sym_check_close(d, inc.at(c), "a walker that stays on a cluster is handed one time increment"); else sym_check_close(d, stay[i].rest, "the last part of a stay is what is left of it"); stay[i].rest = stay[i].rest - inc.at(c); sym_reach("stayed"); }
    else if (c != c0 || stay[i].cluster == constants::unassignedId) { sym_check(sym_draw_count() == d0 + 2, "a walker that enters a cluster draws its time on it and a target"); if (sym_draw_count() != d0 + 2) return; double D = -sym_log(sym_draw_value(d0)) * inc.at(c) * res.at(c); if (D > inc.at(c)) sym_check_close(d, inc.at(c), "a long stay on a cluster starts with one time increment"); else sym_check_close(d, D, "a short stay on a cluster is exponentially distributed with its time constant"); stay[i] = Stay{c, D - inc.at(c)}; sym_reach("entered"); }
    if (c == constants::unassignedId || !member.count(w[i].second->getPotentialSite()) || !member[w[i].second->getPotentialSite()]) stay[i] = Stay{constants::unassignedId, 0};
  }
  sym_reach("end");
}
HARNESS(C37_sites) {
  sym_note("coarse graining off: triangle with two rates any real in [1e-3,1e3], ring with fixed rates, drains; on: two networks with fixed rates; 1 to 2 walkers, 2 to 4 hops in any order, every draw");
  static const int A[] = {1, 2}; Rates r = net(3); r[1][2] = sym_real("a", 1e-3, 1e3); r[1][3] = sym_real("b", 1e-3, 1e3); faithful(r, constants::inf_iterations, sym_pick("walkers", 1, 2), A, TIER(2, 3));
}
HARNESS(C37_network) { static const int A[] = {18, 5}, B[] = {1, 14}; int k = sym_pick("drains", 0, 1); Rates r = net(k ? 5 : 1); faithful(r, sym_pick("threshold", 0, 1) ? constants::inf_iterations : 1000, sym_pick("walkers", 1, 2), k ? B : A, TIER(3, 4)); }
HARNESS(C37_joining) { static const int A[] = {1, 5}; Rates r = net(sym_pick("net", 0, 1)); faithful(r, 0, 2, A, TIER(3, 4)); }
