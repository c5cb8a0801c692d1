// Clusters: occupation probabilities, hop-off probabilities, picks, dwell accounting, escape time, membership, visits.
#include "sym.h"
#include "libmythical/topologyfeatures/cluster.hpp"
#include <algorithm>
#include <cmath>
#include <map>
#include <set>
#include <stdexcept>
#include <unordered_map>
using namespace mythical;
static const int IMIN = -2147483647 - 1, IMAX = 2147483647;
typedef std::map<int, std::map<int, double>> Net;    // site -> neighbour -> rate
static std::unordered_map<int, double> keep[256]; static int nkeep;
static Site mkSite(int id, const std::map<int, double> &r) { Site s; s.setId(id); std::unordered_map<int, double> &m = keep[nkeep++]; for (auto &e : r) m[e.first] = e.second; s.setRatesToNeighbors(m); return s; }
static void fill(Cluster &c, const Net &n, int iterations) { c.setConvergenceMethod(Cluster::converge_by_iterations_per_cluster); c.setConvergenceIterations(iterations); for (auto &e : n) { Site s = mkSite(e.first, e.second); c.addSite(s); } c.updateProbabilitiesAndTimeConstant(); }
static double total(const std::map<int, double> &r) { double s = 0; for (auto &e : r) s = s + e.second; return s; }

// Shapes. Members are 1, 2, 14 (2 members: 1, 14 share a hash bucket), outside sites 5, 6, 18.
// mode 0: rates are free reals; mode 1: fixed numbers
static double X(double v) { return sym_exact(v); }
static bool fixed_plain = false;   // fixed rates in double arithmetic instead of exactly
static double rate(int mode, double v) { return mode == 0 ? sym_real("rate", 1e-3, 1e3) : fixed_plain ? v : sym_exact(v); }
static Net net(int shape, int mode) {
  Net n;
  switch (shape) {
    case 0: n[1][14] = rate(mode, 40); n[14][1] = rate(mode, 10); n[1][5] = rate(mode, 0.5); n[14][6] = rate(mode, 2); break;              // chain, one exit each
    case 1: n[1][14] = rate(mode, 30); n[14][1] = rate(mode, 60); n[1][5] = rate(mode, 1); n[14][5] = rate(mode, 3); break;                // both lead to the same outside site
    case 2: n[1][14] = rate(mode, 30); n[14][1] = rate(mode, 60); n[1][5] = rate(mode, 1); n[1][18] = rate(mode, 0.25); break;             // all exits on one member, colliding ids
    case 3: n[1][2] = rate(1, 20); n[2][1] = rate(1, 30); n[2][14] = rate(mode, 10); n[14][2] = rate(1, 50); n[1][5] = rate(1, 1); n[2][6] = rate(mode, 2); n[14][5] = rate(1, 0.5); break; // three in a row
    case 4: n[1][2] = rate(1, 20); n[2][1] = rate(1, 30); n[2][14] = rate(1, 10); n[14][2] = rate(1, 50); n[14][1] = rate(1, 25); n[1][14] = rate(mode, 45); n[1][18] = rate(mode, 1); n[14][5] = rate(1, 2); n[2][5] = rate(1, 4); break; // triangle
    case 5: n[1][14] = rate(1, 30); n[14][1] = rate(1, 20); n[1][5] = rate(1, 0.5); n[1][6] = rate(mode, 6); n[14][18] = rate(1, 0.1); n[14][7] = rate(mode, 1); n[14][31] = rate(1, 0.05); break;                // five ways out
    case 6: { static const int R[] = {1, 2, 14, 3, 27}; for (int i = 0; i < 5; i++) { n[R[i]][R[(i + 1) % 5]] = rate(1, 10 + 7 * i); n[R[(i + 1) % 5]][R[i]] = rate(1, 25 - 3 * i); } n[1][5] = rate(mode, 1); n[2][6] = rate(1, 0.5); n[14][5] = rate(1, 0.25); n[27][18] = rate(1, 2); break; } // ring of five, one member without a way out
    case 7: for (int i : {2, 14, 3}) { n[1][i] = rate(1, 4 + i); n[i][1] = rate(1, 30 - i); n[i][i + 40] = rate(1, 0.125 * i); } n[1][5] = rate(mode, 3); break;                                                    // star of four
  }
  return n;
}
// the same network with other ids: zero, negative and large ones, members and outside sites in common hash buckets
static int other(int id) { switch (id) { case 1: return 0; case 2: return 13; case 14: return 70000; case 3: return -5; case 27: return 26; case 5: return 39; case 6: return -1 - 12; case 18: return 1; case 7: return 100; default: return 2 * id + 3; } }
static Net anyNet(int shape, int mode) { Net n = net(shape, mode), m; if (!sym_pick("ids", 0, 1)) return n; for (auto &s : n) for (auto &e : s.second) m[other(s.first)][other(e.first)] = e.second; return m; }
static bool inside(const Net &n, int id) { return n.count(id) != 0; }
static std::map<int, double> exits(const Net &n) { std::map<int, double> k; for (auto &s : n) { k[s.first] = 0; for (auto &e : s.second) if (!inside(n, e.first)) k[s.first] = k[s.first] + e.second; } return k; }

// ---------------------------------------------------------------- C22 occupation probabilities
// one relaxation step of the members' distribution p under the jump chain restricted to the cluster
static std::map<int, double> relax(const Net &n, const std::map<int, double> &p) {
  std::map<int, double> q, r; double t = 0; for (auto &i : n) q[i.first] = 0;
  for (auto &j : n) { double sj = total(j.second); for (auto &e : j.second) if (inside(n, e.first)) q[e.first] = q[e.first] + p.at(j.first) * e.second / sj; }
  for (auto &e : q) t = t + e.second; double z = 1; for (auto &e : q) z = z + p.at(e.first); for (auto &e : q) r[e.first] = (e.second / t + p.at(e.first)) / z; return r;
}
HARNESS(C22_normalised) {
  sym_note("clusters of 2 and 3 members in five connection patterns; rates any real in [1e-3,1e3] (all of them for two members, some of them for three, the others fixed numbers); 1 iteration with free rates, up to 4 with fixed ones");
  int shape = sym_pick("shape", 0, 7); Net n = anyNet(shape, 0); Cluster c; fill(c, n, 1); double t = 0;
  for (auto &s : n) { double p = c.getProbabilityOfOccupyingInternalSite(s.first); sym_check(p > 0, "every member has a positive probability of being occupied"); t = t + p; }
  sym_check_close(t, 1.0, "occupation probabilities sum to one"); sym_reach("end");
}
HARNESS(C22_one_iteration) {
  int shape = sym_pick("shape", 0, 7); Net n = anyNet(shape, 0); Cluster c; fill(c, n, 1); std::map<int, double> p; for (auto &s : n) p[s.first] = 1.0 / n.size(); p = relax(n, p);
  for (auto &s : n) sym_check_close(c.getProbabilityOfOccupyingInternalSite(s.first), p[s.first], "one iteration moves the distribution half way to the one after a hop"); sym_reach("end");
}
HARNESS(C22_iterations) {
  int shape = sym_pick("shape", 0, 4), it = sym_pick("iterations", 1, 4), per = sym_pick("per_site", 0, 1); Net n = net(shape, 1); double x = sym_real("out", 0.5, 2); n[1][77] = x; Cluster c; if (it > 1) { n[1][77] = X(0.75); } if (per && it > 2) sym_done();
  if (per) { c.setConvergenceMethod(Cluster::converge_by_iterations_per_site); c.setConvergenceIterations(it); for (auto &e : n) { Site s = mkSite(e.first, e.second); c.addSite(s); } c.updateProbabilitiesAndTimeConstant(); if (it == 1) n[1][77] = x; } else fill(c, n, it);
  std::map<int, double> p; for (auto &s : n) p[s.first] = 1.0 / n.size(); for (int k = 0; k < it * (per ? (int)n.size() : 1); k++) p = relax(n, p);
  for (auto &s : n) sym_check_close(c.getProbabilityOfOccupyingInternalSite(s.first), p[s.first], "the number of iterations asked for is made"); sym_check(c.getConvergenceIterations() == it, "the number of iterations is kept"); sym_reach("end");
}
static Net ring(int k) { Net n; for (int i = 0; i < k; i++) { n[i * 13][(i + 1) % k * 13] = 5 + 7 * i % 11; n[(i + 1) % k * 13][i * 13] = 3 + 5 * i % 7; if (i % 3 != 1) n[i * 13][1000 + i / 2] = 0.25 + 0.125 * (i % 4); } return n; }
HARNESS(C22_many) {
  // rings of six and twelve members, one free rate out, compared with the reference relaxation
  int k = sym_pick("members", 1, 2) * 6, it = sym_pick("iterations", 1, 2), per = sym_pick("method", 0, 1); Net n = ring(k); n[13][2000] = per || it > 1 ? 0.5 : sym_real("out", 1e-3, 1e3); Cluster c; c.setConvergenceMethod(per ? Cluster::converge_by_iterations_per_site : Cluster::converge_by_iterations_per_cluster); c.setConvergenceIterations(it); for (auto &e : n) { Site s = mkSite(e.first, e.second); c.addSite(s); } c.updateProbabilitiesAndTimeConstant(); std::map<int, double> p; for (auto &s : n) p[s.first] = 1.0 / k; for (int i = 0; i < (per ? it * k : it); i++) p = relax(n, p);
  double t = 0; for (auto &s : n) { double x = c.getProbabilityOfOccupyingInternalSite(s.first); t = t + x; sym_check_close(x, p[s.first], "many members relax as configured"); } sym_check_close(t, 1.0, "occupation probabilities of many members sum to one"); sym_reach("end");
}
HARNESS(C22_balanced_stays_uniform) {
  // equal members: the uniform distribution is stationary, whatever the number of iterations
  double a = sym_real("in", 1e-3, 1e3), b = sym_real("out", 1e-3, 1e3); int k = sym_pick("members", 2, 3), it = sym_pick("iterations", 1, 3), tol = sym_pick("method", 0, 2); Net n; for (int i = 0; i < k; i++) { for (int j = 0; j < k; j++) if (i != j) n[1 + 13 * i][1 + 13 * j] = a; n[1 + 13 * i][5 + i] = b; }
  Cluster c; c.setConvergenceMethod(tol == 2 ? Cluster::converge_by_tolerance : tol ? Cluster::converge_by_iterations_per_site : Cluster::converge_by_iterations_per_cluster); c.setConvergenceIterations(it); c.setConvergenceTolerance(0.001); for (auto &e : n) { Site s = mkSite(e.first, e.second); c.addSite(s); } c.updateProbabilitiesAndTimeConstant();
  for (auto &s : n) sym_check_close(c.getProbabilityOfOccupyingInternalSite(s.first) * k, 1.0, "equal members are equally occupied"); sym_check(c.getConvergenceTolerance() == 0.001, "the tolerance is kept"); sym_reach("end");
}
HARNESS(C22_tolerance) {
  // converged: one more relaxation moves the distribution by no more than the tolerance
  Net n = net(sym_pick("shape", 0, TIER(2, 4)), 1); double tol = sym_pick("tol", 0, TIER(0, 1)) ? 0.02 : 0.05; n[1][77] = sym_real("out", 5, 20); Cluster c; c.setConvergenceMethod(Cluster::converge_by_tolerance); c.setConvergenceTolerance(tol);
  for (auto &e : n) { Site s = mkSite(e.first, e.second); c.addSite(s); } c.updateProbabilitiesAndTimeConstant(); std::map<int, double> p; double t = 0, err = 0; for (auto &s : n) { p[s.first] = c.getProbabilityOfOccupyingInternalSite(s.first); t = t + p[s.first]; } sym_check_close(t, 1.0, "occupation probabilities sum to one");
  auto q = relax(n, p); for (auto &s : n) err = err + (q[s.first] - p[s.first]) * (q[s.first] - p[s.first]); sym_check_le(err, 1.01 * tol * tol, "the probabilities are converged to the tolerance"); sym_reach("end");
}
HARNESS(C22_tolerance_slow) {
  // two pairs joined by a weak link relax slowly: the tolerance is any real, the rates are fixed numbers
  double tol = sym_real("tol", 2e-3, 2e-2); Net n; n[1][2] = 30; n[2][1] = 20; n[14][3] = 25; n[3][14] = 35; n[2][14] = 2; n[14][2] = 0.05; n[1][5] = 0.125; n[3][6] = 0.25; Cluster c; c.setConvergenceMethod(Cluster::converge_by_tolerance); c.setConvergenceTolerance(tol);
  for (auto &e : n) { Site s = mkSite(e.first, e.second); c.addSite(s); } c.updateProbabilitiesAndTimeConstant(); std::map<int, double> p; double err = 0; for (auto &s : n) p[s.first] = c.getProbabilityOfOccupyingInternalSite(s.first);
  auto q = relax(n, p); for (auto &s : n) err = err + (q[s.first] - p[s.first]) * (q[s.first] - p[s.first]); sym_check_le(std::sqrt(err), tol, "the probabilities of a slowly relaxing cluster are converged to the tolerance"); sym_reach("end");
}

// ---------------------------------------------------------------- C23 hops off the cluster
static void offProbabilities(Cluster &c, const Net &n) {
  std::map<int, double> w; double t = 0, tot = 0; for (auto &s : n) { double k = total(s.second), p = c.getProbabilityOfOccupyingInternalSite(s.first); for (auto &e : s.second) if (!inside(n, e.first)) { w[e.first] = w[e.first] + p * e.second / k; t = t + p * e.second / k; } }
  std::vector<int> ids = c.getSiteIdsNeighboringCluster(); std::set<int> u(ids.begin(), ids.end()); sym_check(ids.size() == w.size() && u.size() == w.size(), "every outside neighbour is listed once");
  for (auto &e : w) { sym_check(u.count(e.first) == 1, "the neighbours of a cluster are the outside sites its members lead to"); double h = c.getProbabilityOfHoppingToNeighborOfCluster(e.first); sym_check(h > 0, "a hop to an outside neighbour has positive probability"); sym_check_close(h * t, e.second, "the probability of leaving to a neighbour is the members' occupation times their probability of hopping there"); tot = tot + h; }
  sym_check_close(tot, 1.0, "probabilities of leaving to the neighbours sum to one");
}
HARNESS(C23_neighbours) {
  sym_note("clusters of 2 and 3 members in five connection patterns; rates any real in [1e-3,1e3] (all of them for two members, some for three); 1 iteration; with fixed rates the default three iterations per site");
  int shape = sym_pick("shape", 0, 7); Net n = anyNet(shape, 0); Cluster c; fill(c, n, 1); offProbabilities(c, n); sym_reach("end");
}
HARNESS(C23_default_convergence) {
  int sh = sym_pick("shape", 0, 7); fixed_plain = sh > 4; Net n = anyNet(sh, 1); Cluster c; for (auto &e : n) { Site s = mkSite(e.first, e.second); c.addSite(s); } c.updateProbabilitiesAndTimeConstant(); offProbabilities(c, n); double t = 0; for (auto &s : n) t += c.getProbabilityOfOccupyingInternalSite(s.first); sym_check_close(t, 1.0, "occupation probabilities sum to one"); sym_reach("end");
}

// ---------------------------------------------------------------- C24 picks
static int drawDwell(Cluster &c, int w, double &D) { int d0 = sym_draw_count(); c.getDwellTime(w); int n = sym_draw_count() - d0; double u = n == 1 ? sym_draw_value(d0) : 0.5; D = c.getTimeConstant() * -sym_log(u > 0 ? u : 2.2250738585072014e-308); return n; }
HARNESS(C24_inside_or_outside) {
  sym_zero_draws(2);
  sym_note("clusters of 2 and 3 members; fixed rates with free draws, and two members with free rates in [1e-3,1e3]; every draw in [0,1)");
  int mode = sym_pick("mode", 0, 1); Net n = anyNet(mode ? sym_pick("shape", 0, 7) : 0, mode); Cluster c; fill(c, n, mode ? 2 : 1); int w = 3; double D; int nd = drawDwell(c, w, D); int p = c.pickNewSiteId(w); std::set<int> out; for (auto &s : n) for (auto &e : s.second) if (!inside(n, e.first)) out.insert(e.first);
  sym_check(inside(n, p) || out.count(p), "a pick is a member of the cluster or an outside neighbour");
  if (nd == 1) { double I = c.getTimeIncrement(); if (D > I * 1.0000001) { sym_check(inside(n, p), "while dwell time remains the walker stays inside"); sym_reach("inside"); } else if (D < I * 0.9999999) { sym_check(out.count(p) == 1, "when the dwell time is used up the walker leaves"); sym_reach("outside"); } }
}
// walkers already on the cluster do not change where the next one goes
static void crowd(Cluster &c, const Net &n) { int k = sym_pick("crowd", 0, 2); if (!k) return; for (auto &s : n) { c.occupy(s.first); if (k == 1) break; } if (k == 2) c.vacate(n.begin()->first); }
static void internal(int mode) {
  Net n = mode ? anyNet(sym_pick("shape", 0, 7), 1) : net(sym_pick("shape", 0, 2), 0); Cluster c; fill(c, n, mode ? 2 : 1); double W = 0; std::map<int, double> wt; for (auto &s : n) { wt[s.first] = c.getProbabilityOfOccupyingInternalSite(s.first) / total(s.second); W = W + wt[s.first]; }
  crowd(c, n); double D; drawDwell(c, 3, D); sym_assume(D > c.getTimeIncrement() * 1.0000001); int d0 = sym_draw_count(); int p = c.pickNewSiteId(3), q = c.pickNewSiteId(3); if (!inside(n, p) || !inside(n, q)) sym_done();
  if (sym_draw_count() == d0 + 2 && p == q) { sym_check_le((sym_draw_value(d0) - sym_draw_value(d0 + 1)) * W, wt[p], "draws that pick the same member span no more than its share of the time"); sym_reach("same"); } sym_reach("end");
}
HARNESS(C24_internal_measure) { internal(0); }
HARNESS(C24_internal_measure_fixed) { internal(1); }
static void external(int mode) {
  Net n = mode ? anyNet(sym_pick("shape", 0, 7), 1) : net(sym_pick("shape", 0, 2), 0); Cluster c; fill(c, n, mode ? 2 : 1); crowd(c, n); double D; drawDwell(c, 3, D); sym_assume(D <= c.getTimeIncrement() * 0.9999999); drawDwell(c, 4, D); sym_assume(D <= c.getTimeIncrement() * 0.9999999);
  int d0 = sym_draw_count(); int p = c.pickNewSiteId(3), q = c.pickNewSiteId(4); if (inside(n, p) || inside(n, q)) sym_done();
  if (sym_draw_count() == d0 + 2 && p == q) { sym_check_le(sym_draw_value(d0) - sym_draw_value(d0 + 1), c.getProbabilityOfHoppingToNeighborOfCluster(p), "draws that pick the same outside neighbour span no more than its probability"); sym_reach("same"); } sym_reach("end");
}
HARNESS(C24_external_measure) { external(0); }
HARNESS(C24_external_measure_fixed) { external(1); }
HARNESS(C24_rounding_fp) {
  sym_zero_draws(3);
  // ten equal exits / six equal members: sums of the probabilities fall short of one
  Net n; int k = sym_pick("kind", 0, 1); if (k == 0) { n[1][2] = X(50); n[2][1] = X(50); for (int i = 0; i < 10; i++) n[1 + i % 2][10 + i] = 0.1; } else for (int i = 1; i <= 6; i++) { for (int j = 1; j <= 6; j++) if (i != j) n[i][j] = 0.7; n[i][10] = 0.1; }
  Cluster c; fill(c, n, 1); c.setResolution(2); sym_next_draw(k ? 0.01 : 0.99); c.getDwellTime(1); int p = c.pickNewSiteId(1); sym_check((p >= 1) & (p <= 19), "a pick is a member or an outside neighbour, whatever the rounding"); sym_reach("end");
}

// ---------------------------------------------------------------- C25 dwell accounting
HARNESS(C25_increments) {
  sym_note("two walkers (three in thorough) interleaved on a cluster with free or fixed rates; every dwell time up to 3 time increments (thorough 4); every draw; resolution any real in [2,100]");
  double k = sym_real("out", 1e-3, 1e3); Net n; n[1][14] = X(40); n[14][1] = X(10); n[1][5] = k; n[14][6] = k; Cluster c; fill(c, n, 1); c.setResolution(sym_real("resolution", 2, 100)); double inc = c.getTimeIncrement(), D[2] = {0, 0}, used[2] = {0, 0}; bool started[2] = {0, 0}, gone[2] = {0, 0}; int ids[2] = {3, 16};
  for (int step = 0; step < TIER(5, 7); step++) {
    int f = sym_pick("who", 0, 1); if (gone[f]) sym_done(); int d0 = sym_draw_count(); double t = c.getDwellTime(ids[f]); int nd = sym_draw_count() - d0;
    sym_check(nd == (started[f] ? 0 : 1), "the time on the cluster is drawn once per stay"); if (!started[f]) { if (nd != 1) sym_done(); double u = sym_draw_value(d0); sym_assume(u > 1e-20); D[f] = -sym_log(u) / k; sym_assume(D[f] <= TIER(3, 4) * inc); started[f] = true; }
    sym_check(t > 0, "a time step is positive"); sym_check_le(t, inc, "a time step is at most the time increment"); used[f] = used[f] + t; sym_check_le(used[f], D[f], "the steps never exceed the time drawn");
    int p = c.pickNewSiteId(ids[f]); if (!inside(n, p)) { sym_check_close(used[f], D[f], "the steps of a stay add up to the time drawn"); gone[f] = true; sym_reach("left"); } else sym_check(used[f] < D[f], "the walker leaves when its time is used up");
  }
  sym_reach("end");
}
HARNESS(C25_fresh_stay) {
  double k = sym_real("out", 1e-3, 1e3); Net n; n[1][14] = X(40); n[14][1] = X(10); n[1][5] = k; n[14][6] = k; Cluster c; fill(c, n, 1); int how = sym_pick("how", 0, 1), other = sym_pick("other", 0, 1), a = sym_int("walker", -2, 2); int w = a < 0 ? -7 : a == 0 ? 0 : 13, v = 26; double inc = c.getTimeIncrement();
  if (other) c.getDwellTime(v); int dv = sym_draw_count(); c.occupy(1); c.getDwellTime(w); double u = sym_draw_value(dv); sym_assume(u > 1e-20);
  if (how == 0) { c.removeWalker(w, 1); sym_reach("removed"); } else { int p = c.pickNewSiteId(w); if (inside(n, p)) sym_done(); c.vacate(1); sym_reach("left"); }
  c.occupy(14); int d0 = sym_draw_count(); double t = c.getDwellTime(w); sym_check(sym_draw_count() == d0 + 1, "a new stay draws a new time"); if (sym_draw_count() == d0 + 1) { double x = sym_draw_value(d0); sym_assume(x > 0); double D = -sym_log(x) / k; if (D > inc) sym_check_close(t, inc, "a long stay starts with a full time increment"); else sym_check_close(t, D, "a short stay lasts as long as drawn"); }
  if (other) { int d1 = sym_draw_count(); double y = sym_draw_value(0); sym_assume(y > 0); double E = -sym_log(y) / k; sym_assume(E > inc); double t2 = c.getDwellTime(v); sym_check(sym_draw_count() == d1, "the stay of one walker is unaffected by the others"); if (E > 2 * inc) sym_check_close(t2, inc, "the other walker continues its stay"); else sym_check_close(t2, E - inc, "the other walker uses up its own time"); }
  sym_reach("end");
}
HARNESS(C25_long) {
  // one walker staying up to thirty increments, a new resolution, an update, a merge or other walkers in mid-stay
  double k = 0.5; Net n; n[1][14] = 40; n[14][1] = 10; n[1][5] = k; n[14][6] = k; Cluster c; fill(c, n, 1); c.setResolution(8); int event = sym_pick("event", 0, 4), at = sym_pick("at", 0, 2) * 5 + 1, w = 3; double used = 0, D = 0; int steps = 0;
  for (;;) {
    int d0 = sym_draw_count(); double t = c.getDwellTime(w), inc = c.getTimeIncrement(); int nd = sym_draw_count() - d0; sym_check(nd == (steps ? 0 : 1), "the time of a long stay is drawn once"); if (!steps) { if (nd != 1) sym_done(); double u = sym_draw_value(d0); sym_assume(u > 1e-20); D = -sym_log(u) / k; sym_assume(D <= 30 * inc); } steps++;
    sym_check(t > 0, "every step of a long stay is positive"); sym_check_le(t, inc, "every step of a long stay is at most the time increment"); used = used + t; sym_next_draw(steps % 7 * 0.13 + 0.05); int p = c.pickNewSiteId(w); if (!inside(n, p)) { sym_check_close(used, D, "the steps of a long stay add up to the time drawn"); break; } sym_check_le(used, D, "the walker leaves when its time is used up"); if (steps > 80) { sym_fail("a stay ends"); break; }
    if (steps == at) { if (event == 1) c.setResolution(5); else if (event == 2) c.updateProbabilitiesAndTimeConstant(); else if (event == 3) { for (int i = 20; i < 40; i++) { sym_next_draw(i * 0.02); c.getDwellTime(i); } for (int i = 20; i < 30; i++) c.removeWalker(i, 1); for (int i = 30; i < 40; i++) { int d1 = sym_draw_count(); double t1 = c.getDwellTime(i); sym_check(sym_draw_count() == d1, "each of many walkers keeps its own stay"); sym_check_le(t1, inc, "every step of many walkers is at most the time increment"); } } else if (event == 4) { c.occupy(1); c.occupy(14); c.vacate(1); c.removeWalker(99, 14); } }
  }
  sym_reach("end");
}
HARNESS(C25_positive) {
  sym_zero_draws(2);
  Net n = net(sym_pick("shape", 0, 4), 1); n[1][5] = sym_real("out", 1e-3, 1e3); Cluster c; fill(c, n, 1); int w = sym_int("walker", 0, 100) > 50 ? 1 : 2; double t = c.getDwellTime(w); sym_check(std::isfinite(t) && t > 0, "a time step is positive and finite"); sym_check_le(t, c.getTimeIncrement(), "a time step is at most the time increment"); sym_reach("end");
}

// ---------------------------------------------------------------- C26 escape time
static void escape(Cluster &c, const Net &n) {
  auto k = exits(n); double num = 0, den = 0, best = c.getFastestRateOffCluster(), fast = 0; bool all = true; for (auto &s : n) { double x = c.getProbabilityOfOccupyingInternalSite(s.first) / total(s.second); bool ex = false; for (auto &e : s.second) if (!inside(n, e.first)) { ex = true; fast = e.second > fast ? e.second : fast; } if (!ex) all = false; else { num = num + x; den = den + x * k[s.first]; } }
  double tau = c.getTimeConstant(); sym_check(tau > 0, "the time constant of a cluster with a way out is positive"); sym_check_close(tau * den, num, all ? "the escape rate is the members' escape rates averaged over the time spent on them" : "the escape rate is averaged over the members with a way out");
  for (auto &s : n) (void)s; sym_check_close(c.getTimeIncrement() * c.getResolution(), tau, "the time increment is the time constant over the resolution"); sym_check_close(best, fast, "the fastest rate off the cluster is the fastest rate leading outside");
}
HARNESS(C26_formula) {
  sym_note("clusters of 2 and 3 members in five connection patterns; rates any real in [1e-3,1e3] (all of them for two members, some for three); 1 iteration; resolution any real in [2,100]");
  Net n = anyNet(sym_pick("shape", 0, 7), 0); Cluster c; fill(c, n, 1); escape(c, n); sym_reach("end");
}
HARNESS(C26_equal_exits) {
  double k = sym_real("out", 1e-3, 1e3), a = sym_real("in", 1e-3, 1e3), b = sym_real("back", 1e-3, 1e3); int three = sym_pick("members", 0, 1), it = sym_pick("iterations", 1, 1); Net n; n[1][14] = a; n[14][1] = b; n[1][5] = k; n[14][6] = k; if (three) { n[14][2] = X(7); n[2][14] = X(3); n[2][5] = k; n[14][1] = X(12); } Cluster c; fill(c, n, it);
  sym_check_close(c.getTimeConstant() * k, 1.0, "with the same total rate out of every member the time constant is its reciprocal"); sym_reach("end");
}
HARNESS(C26_bounds) {
  Net n = net(sym_pick("shape", 0, 1), 0); Cluster c; fill(c, n, 1); auto k = exits(n); double lo = k[1] < k[14] ? k[1] : k[14], hi = k[1] < k[14] ? k[14] : k[1]; sym_check_le(1.0, c.getTimeConstant() * hi, "no cluster is left faster than its leakiest member"); sym_check_le(c.getTimeConstant() * lo, 1.0, "no cluster is left slower than its tightest member"); sym_reach("end");
}
HARNESS(C26_resolution) {
  Net n = net(0, 1); double k = sym_real("out", 1e-3, 1e3); n[1][5] = k; Cluster c; fill(c, n, 1); double tau = c.getTimeConstant(), r = sym_real("resolution", 2, 100); sym_check_close(c.getTimeIncrement() * c.getResolution(), tau, "the time increment is the time constant over the resolution"); c.setResolution(r); sym_check(c.getResolution() == r, "the resolution is the one set"); sym_check_close(c.getTimeIncrement() * r, tau, "the time increment follows the resolution"); sym_check_close(c.getTimeConstant(), tau, "the resolution does not change the time constant");
  c.updateProbabilitiesAndTimeConstant(); sym_check(c.getResolution() == r, "an update keeps the resolution"); sym_check_close(c.getTimeIncrement() * r, tau, "the time increment follows the resolution after an update"); sym_reach("end");
}

// ---------------------------------------------------------------- C27 update
static void same(Cluster &c, Cluster &d, const Net &n) {
  for (auto &s : n) sym_check_close(c.getProbabilityOfOccupyingInternalSite(s.first), d.getProbabilityOfOccupyingInternalSite(s.first), "occupation probabilities equal those of a cluster built afresh"); std::vector<int> a = c.getSiteIdsNeighboringCluster(), b = d.getSiteIdsNeighboringCluster(); sym_check(a.size() == b.size() && std::set<int>(a.begin(), a.end()) == std::set<int>(b.begin(), b.end()), "neighbours equal those of a cluster built afresh");
  for (int x : std::set<int>(b.begin(), b.end())) sym_check_close(c.getProbabilityOfHoppingToNeighborOfCluster(x), d.getProbabilityOfHoppingToNeighborOfCluster(x), "hop probabilities equal those of a cluster built afresh"); sym_check_close(c.getTimeConstant(), d.getTimeConstant(), "the time constant equals that of a cluster built afresh"); sym_check_close(c.getTimeIncrement(), d.getTimeIncrement(), "the time increment equals that of a cluster built afresh"); sym_check_close(c.getFastestRateOffCluster(), d.getFastestRateOffCluster(), "the fastest rate equals that of a cluster built afresh");
}
HARNESS(C27_repeat_larger) { Net n = anyNet(sym_pick("shape", 5, 7), 1); Cluster c, d; fill(c, n, 2); fill(d, n, 2); int k = sym_pick("times", 1, 2); for (int i = 0; i < k; i++) c.updateProbabilitiesAndTimeConstant(); same(c, d, n); sym_reach("end"); }
HARNESS(C27_repeat) {
  sym_note("clusters of 2 and 3 members; updates repeated up to 2 times; one or two rates changed to any real in [1e-3,1e3] between updates; sites added between updates; the picks after the update are checked for every draw");
  Net n = net(sym_pick("shape", 0, 4), 0); Cluster c, d; fill(c, n, 1); fill(d, n, 1); int k = sym_pick("times", 1, 2); for (int i = 0; i < k; i++) c.updateProbabilitiesAndTimeConstant(); same(c, d, n); sym_reach("end");
}
HARNESS(C27_rate_changed) {
  int shape = sym_pick("shape", 0, 4); Net n = net(shape, 1); int base = nkeep; Cluster c; fill(c, n, 1); double x = sym_real("new", 1e-3, 1e3), y = sym_real("new2", 1e-3, 1e3); keep[base][5 == 5 && n[1].count(5) ? 5 : 18] = x; n[1][n[1].count(5) ? 5 : 18] = x; int last = base + (int)n.size() - 1; int j = n[14].count(1) ? 1 : 2; keep[last][j] = y; n[14][j] = y;
  c.updateProbabilitiesAndTimeConstant(); Cluster d; fill(d, n, 1); same(c, d, n); sym_reach("end");
}
HARNESS(C27_site_added) {
  // a neighbour becomes a member: the cluster must forget it as a neighbour
  double x = sym_real("rate", 1e-3, 1e3), y = sym_real("rate", 1e-3, 1e3); Net n; n[1][14] = X(40); n[14][1] = X(10); n[1][5] = X(0.5); n[14][2] = x; Cluster c; fill(c, n, 1); n[2][14] = X(30); n[2][6] = y; Site s = mkSite(2, n[2]); int many = sym_pick("bulk", 0, 1); if (many) { std::vector<Site> v{s}; c.addSites(v); } else c.addSite(s); c.updateProbabilitiesAndTimeConstant(); Cluster d; fill(d, n, 1); same(c, d, n);
  for (int k = 0; k < 2; k++) { c.getDwellTime(k); int p = c.pickNewSiteId(k); int q = p; sym_check((q == 1) | (q == 14) | (q == 2) | (q == 5) | (q == 6), "a pick is a member or an outside neighbour"); double u = sym_draw_value(2 * k); sym_assume(u > 1e-20); double D = -sym_log(u) * c.getTimeConstant(); sym_assume(D != c.getTimeIncrement()); if (D > c.getTimeIncrement()) sym_check((q == 1) | (q == 14) | (q == 2), "a walker with time left stays inside"); else sym_check((q == 5) | (q == 6), "a walker whose time is up leaves the cluster"); sym_reach("picked"); }
}
HARNESS(C27_picks_after_update) {
  Net n = net(sym_pick("shape", 0, 2), 1); int base = nkeep; Cluster c; fill(c, n, 1); int o = n[1].count(5) ? 5 : 18; double x = sym_real("new", 1e-3, 1e3); keep[base][o] = x; n[1][o] = x; c.updateProbabilitiesAndTimeConstant(); double D; drawDwell(c, 3, D); sym_assume(D <= c.getTimeIncrement() * 0.9999999); drawDwell(c, 4, D); sym_assume(D <= c.getTimeIncrement() * 0.9999999);
  int d0 = sym_draw_count(); int p = c.pickNewSiteId(3), q = c.pickNewSiteId(4); if (sym_draw_count() == d0 + 2 && p == q && !inside(n, p)) { sym_check_le(sym_draw_value(d0) - sym_draw_value(d0 + 1), c.getProbabilityOfHoppingToNeighborOfCluster(p), "picks follow the current probabilities"); sym_reach("same"); }
}

HARNESS(C27_visits_after_update) {
  // arrivals after an update are spread over the members as in a cluster built afresh
  Net n = net(sym_pick("shape", 0, 2), 1); int base = nkeep; Cluster c; fill(c, n, 1); double y = sym_real("new", 1, 100); int at = sym_pick("which", 0, 1) ? 14 : n[1].count(5) ? 5 : 18; keep[base][at] = y; n[1][at] = y; c.updateProbabilitiesAndTimeConstant(); Cluster d; fill(d, n, 1); int m = sym_pick("arrivals", 0, 1) ? 200 : 7; for (int i = 0; i < m; i++) { c.occupy(1); c.vacate(1); d.occupy(1); d.vacate(1); }
  for (auto &s : n) { int a = c.getVisitFrequency(s.first), b = d.getVisitFrequency(s.first); sym_check((a - b <= 1) & (b - a <= 1), "arrivals are spread over the members as in a cluster built afresh"); } sym_reach("end");
}

// ---------------------------------------------------------------- C28 membership and merging
static void members(Cluster &c, std::set<int> ref) {
  std::vector<int> ids = c.getSiteIdsInCluster(); sym_check(ids.size() == ref.size() && std::set<int>(ids.begin(), ids.end()) == ref, "the members are the sites added, each once"); sym_check(c.getNumberOfSitesInCluster() == (int)ref.size(), "the number of members"); for (int i : {0, 1, 2, 3, 14, 15, 5, 6}) sym_check(c.siteIsInCluster(i) == (ref.count(i) == 1), "membership of a site");
  std::vector<Site> s = c.getSitesInCluster(); std::set<int> u; for (auto &x : s) { u.insert(x.getId()); sym_check(x.getClusterId() == c.getId() & x.partOfCluster(), "members carry the id of their cluster"); } sym_check(s.size() == ref.size() && u == ref, "the member sites are the ones added");
}
HARNESS(C28_members) {
  sym_note("clusters of up to 4 members; every subset of sites added singly or in bulk; merging of two clusters of two members joined by rates in [1e-3,1e3], any visit counts up to 10^6; membership asked for any int");
  int set = sym_int("set", 0, 15), bulk = sym_pick("bulk", 0, 1); static const int I[] = {0, 1, 2, 14}; Cluster c, d; std::set<int> r; std::vector<Site> v; for (int i = 0; i < 4; i++) if (set >> i & 1) { Site s; s.setId(I[i]); r.insert(I[i]); if (bulk) v.push_back(s); else { c.addSite(s); sym_check(s.getClusterId() == c.getId(), "a site added knows its cluster"); } }
  if (bulk) { c.addSites(v); for (auto &s : v) sym_check(s.getClusterId() == c.getId(), "a site added knows its cluster"); } members(c, r); members(d, {}); sym_check(c.getId() != d.getId(), "clusters have distinct ids"); sym_reach("end");
}
HARNESS(C28_any_id) { Cluster c; int a = sym_int("a", IMIN, IMAX), q = sym_int("q", IMIN, IMAX); Site s; s.setId(a); c.addSite(s); sym_check(c.siteIsInCluster(q) == (q == a), "exactly the sites added are members"); sym_reach("end"); }
HARNESS(C28_distinct_ids) { Cluster a, b; Cluster c; sym_check(a.getId() != b.getId() && b.getId() != c.getId() && a.getId() != c.getId(), "every new cluster has an id of its own"); sym_check(a.getId() < b.getId() && b.getId() < c.getId(), "ids grow"); int i = sym_int("id", 0, 1000); a.setId(i); sym_check(a.getId() == i, "the id can be set"); sym_reach("end"); }
HARNESS(C28_merge) {
  double x = sym_real("rate", 1e-3, 1e3), y = sym_real("rate", 1e-3, 1e3); Net n, m, u; n[1][14] = X(40); n[14][1] = X(10); n[1][5] = X(0.5); n[14][2] = x; m[2][3] = X(20); m[3][2] = X(30); m[2][14] = y; m[3][6] = X(0.25); u = n; for (auto &e : m) u[e.first] = e.second; Cluster a, b; fill(a, n, 1); fill(b, m, 1); int v1 = sym_int("v1", 0, 1000000), v2 = sym_int("v2", 0, 1000000), v3 = sym_int("v3", 0, 1000000); a.setVisitFrequency(v1, 1); b.setVisitFrequency(v2, 2); b.setVisitFrequency(v3, 3); int way = sym_pick("way", 0, 1); Cluster &t = way ? b : a, &f = way ? a : b; double res = t.getResolution();
  t.migrateSitesFrom(f); members(t, {1, 2, 3, 14}); members(f, {}); sym_check(f.getSiteIdsNeighboringCluster().empty(), "a cluster that gave its sites away has no neighbours"); Cluster d; fill(d, u, 1); same(t, d, u); sym_check(t.getVisitFrequency(1) == v1, "visit counts survive a merge"); sym_check(t.getVisitFrequency(14) == 0, "visit counts survive a merge"); sym_check(t.getVisitFrequency(2) == v2, "visit counts survive a merge"); sym_check(t.getVisitFrequency(3) == v3, "visit counts survive a merge"); sym_check(t.getResolution() == res, "a merge keeps the resolution"); sym_reach("end");
}
HARNESS(C28_many) {
  // several clusters merged one after another, in any order, into clusters that already merged
  Net n = ring(8); std::vector<Cluster> cl(4); std::map<int, int> vis; for (int i = 0; i < 4; i++) { Net m; for (int j : {2 * i, 2 * i + 1}) m[j * 13] = n[j * 13]; fill(cl[i], m, 2); for (int j : {2 * i, 2 * i + 1}) { vis[j * 13] = 10 * j + 1; cl[i].setVisitFrequency(10 * j + 1, j * 13); } } int ids[4]; for (int i = 0; i < 4; i++) ids[i] = cl[i].getId();
  int a = sym_pick("first", 0, 3), b = sym_pick("into", 0, 2); if (b >= a) b++; cl[b].migrateSitesFrom(cl[a]); int e = b, f = -1, g = -1; for (int i = 0; i < 4; i++) if (i != a && i != b) { if (f < 0) f = i; else g = i; } if (sym_pick("swap", 0, 1)) { cl[f].migrateSitesFrom(cl[e]); e = f; } else cl[e].migrateSitesFrom(cl[f]); if (sym_pick("last", 0, 1)) { cl[g].migrateSitesFrom(cl[e]); e = g; } else cl[e].migrateSitesFrom(cl[g]);
  std::set<int> all; for (auto &s : n) all.insert(s.first); for (int i = 0; i < 4; i++) { sym_check(cl[i].getId() == ids[i], "merging keeps the ids of the clusters"); std::vector<int> v = cl[i].getSiteIdsInCluster(); sym_check(std::set<int>(v.begin(), v.end()) == (i == e ? all : std::set<int>()) && v.size() == (i == e ? 8u : 0u), "all members end up in the last cluster"); } for (auto &s : cl[e].getSitesInCluster()) sym_check(s.getClusterId() == ids[e], "members carry the id of the cluster they ended up in");
  Cluster d; fill(d, n, 2); same(cl[e], d, n); for (auto &v : vis) sym_check(cl[e].getVisitFrequency(v.first) == v.second, "visit counts survive several merges"); sym_reach("end");
}
HARNESS(C28_merge_in_use) {
  // walkers on members, pending arrivals, other resolutions and walkers in mid-stay at the time of the merge
  Net n, m, u; n[1][14] = X(40); n[14][1] = X(10); n[1][5] = X(0.5); n[14][2] = X(3); m[2][3] = X(20); m[3][2] = X(30); m[2][14] = X(1.5); m[3][6] = X(0.25); u = n; for (auto &e : m) u[e.first] = e.second; static const int I[] = {1, 14, 2, 3}; Cluster a, b; fill(a, n, 1); fill(b, m, 1); int w = sym_int("walkers", 0, 15), again = sym_pick("again", 0, 1), stay = sym_pick("stay", 0, 1), way = sym_pick("way", 0, 1), v = sym_int("count", 0, 1000); if (again) { a.setResolution(7); b.setResolution(30); } a.setVisitFrequency(v, 14); b.setVisitFrequency(v, 3);
  for (int i = 0; i < 4; i++) { Cluster &c = i < 2 ? a : b; if (again) { c.occupy(I[i]); c.vacate(I[i]); } if (w >> i & 1) { c.occupy(I[i]); if (stay) c.getDwellTime(i); } } int pre[4]; for (int i = 0; i < 4; i++) pre[i] = (i < 2 ? a : b).getVisitFrequency(I[i]); Cluster &t = way ? b : a, &f = way ? a : b; int ti = t.getId(), fi = f.getId(); double res = t.getResolution(); t.migrateSitesFrom(f);
  sym_check(t.getId() == ti && f.getId() == fi && ti != fi, "a merge keeps the ids of the clusters"); members(t, {1, 2, 3, 14}); members(f, {}); Cluster d; d.setResolution(res); fill(d, u, 1); same(t, d, u); for (int i = 0; i < 4; i++) sym_check(t.getVisitFrequency(I[i]) == pre[i], "visit counts survive a merge of clusters in use"); sym_check(t.getResolution() == res, "a merge keeps the resolution"); sym_reach("end");
}

// ---------------------------------------------------------------- C29 occupancy and visits of a cluster
HARNESS(C29_occupancy) {
  sym_note("histories of 5 calls (thorough 6): at most one walker per member; members occupied, vacated or their walker removed; sites occupied before they join; merging of occupied clusters; visit counts any int in [0,10^6]");
  Net n = net(3, 1); static const int I[] = {1, 2, 14}; bool on[3] = {0, 0, 0}; int cnt = 0; long vis = 0; Cluster c; c.setConvergenceMethod(Cluster::converge_by_iterations_per_cluster); c.setConvergenceIterations(1); int pre = sym_int("before", 0, 3);
  for (int i = 0; i < 3; i++) { Site s = mkSite(I[i], n[I[i]]); if (i < 2 && (pre >> i & 1)) { s.occupy(); on[i] = true; cnt++; } c.addSite(s); } c.updateProbabilitiesAndTimeConstant();
  for (int k = 0; k < TIER(4, 5); k++) { int i = sym_int("site", 0, 2), op = sym_int("op", 0, 1); i = i == 0 ? 0 : i == 1 ? 1 : 2; if (!on[i]) { if (op) sym_done(); c.occupy(I[i]); on[i] = true; cnt++; vis++; sym_reach("occupy"); } else { if (op) c.removeWalker(7, I[i]); else c.vacate(I[i]); on[i] = false; cnt--; sym_reach("vacate"); } }
  sym_check(c.isOccupied() == (cnt > 0), "a cluster is occupied while a walker is on one of its members"); for (int i = 0; i < 3; i++) sym_check(c.isOccupied(I[i]) == on[i], "a member is occupied while a walker is on it"); sym_check(static_cast<TopologyFeature &>(c).getVisitFrequency() == vis, "every arrival on a member is one visit of the cluster");
}
HARNESS(C29_crowded) {
  // any number of walkers on any members: arrivals and departures are counted for the cluster as a whole
  Net n = net(3, 1); static const int I[] = {1, 2, 14}; Cluster c; fill(c, n, 1); int cnt = 0, on[3] = {0, 0, 0}; long vis = 0; for (int k = 0; k < TIER(5, 6); k++) { int i = sym_pick("site", 0, 2), op = on[i] ? sym_pick("op", 0, 1) : 0; if (op) { c.vacate(I[i]); on[i]--; cnt--; } else { c.occupy(I[i]); on[i]++; cnt++; vis++; } sym_check(c.isOccupied() == (cnt > 0), "a cluster is occupied as long as not all walkers have left"); sym_check(static_cast<TopologyFeature &>(c).getVisitFrequency() == vis, "every arrival is one visit of the cluster"); } sym_reach("end");
}
HARNESS(C29_crowd) {
  static const int N[] = {2, 127, 128, 256, 300, 140000}; int m = N[sym_pick("arrivals", 0, 5)]; Net n = net(3, 1); Cluster c; fill(c, n, 1); static const int I[] = {1, 2, 14}; for (int i = 0; i < m; i++) { c.occupy(I[i % 3]); if (i % 3 != 1) c.vacate(I[i % 3]); } sym_check(c.isOccupied() & c.isOccupied(2) & !c.isOccupied(1) & !c.isOccupied(14), "occupancy after many arrivals"); sym_check(static_cast<TopologyFeature &>(c).getVisitFrequency() == m, "every one of many arrivals is a visit"); c.getVisitFrequency(1); sym_check(static_cast<TopologyFeature &>(c).getVisitFrequency() == m, "asking for the visits of a member does not change those of the cluster"); for (int i = 1; i < m; i += 3) { sym_check(c.isOccupied(), "a cluster is occupied until the last walker has left"); c.vacate(2); } sym_check(!c.isOccupied(), "a cluster is free when the last walker has left"); sym_reach("end");
}
HARNESS(C29_merge) {
  Net n, m; n[1][14] = X(40); n[14][1] = X(10); n[1][5] = X(0.5); n[14][2] = X(4); m[2][3] = X(20); m[3][2] = X(30); m[2][14] = X(1); m[3][6] = X(0.25); static const int I[] = {1, 14, 2, 3}; Cluster a, b; fill(a, n, 1); fill(b, m, 1); int w = sym_int("walkers", 0, 15); int cnt = 0; for (int i = 0; i < 4; i++) if (w >> i & 1) { (i < 2 ? a : b).occupy(I[i]); cnt++; } int way = sym_pick("way", 0, 1); Cluster &t = way ? b : a, &f = way ? a : b; t.migrateSitesFrom(f);
  sym_check(t.isOccupied() == (cnt > 0), "walkers stay on their sites when clusters merge"); sym_check(!f.isOccupied(), "a cluster without sites is not occupied"); for (int i = 0; i < 4; i++) sym_check(t.isOccupied(I[i]) == ((w >> i & 1) == 1), "walkers stay on their sites when clusters merge"); for (int i = 0; i < 4; i++) if (w >> i & 1) t.vacate(I[i]); sym_check(!t.isOccupied(), "the merged cluster is free when all walkers have left"); t.occupy(2); sym_check(t.isOccupied(), "the merged cluster is occupied when one arrives"); sym_reach("end");
}
HARNESS(C29_visits) {
  Net n = net(0, 1); double k = sym_real("out", 0.1, 10); n[1][5] = k; Cluster c; fill(c, n, 1); int v = sym_int("count", 0, 1000000), arrivals = sym_pick("arrivals", 0, 2); c.setVisitFrequency(v, 1); sym_check(c.getVisitFrequency(1) == v, "the visit count of a member is the one set"); sym_check(c.getVisitFrequency(14) == 0, "the visit count of the other member is unaffected");
  for (int i = 0; i < arrivals; i++) { c.occupy(1); c.vacate(1); } int a = c.getVisitFrequency(1), b = c.getVisitFrequency(14); sym_check((a >= v) & (b >= 0), "visit counts never decrease"); sym_check((c.getVisitFrequency(1) == a) & (c.getVisitFrequency(14) == b), "asking for a visit count does not change it"); c.updateProbabilitiesAndTimeConstant(); sym_check((c.getVisitFrequency(1) == a) & (c.getVisitFrequency(14) == b), "an update keeps the visit counts"); sym_reach("end");
}
