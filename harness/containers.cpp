// Containers of sites and clusters.
#include "sym.h"
#include "libmythical/site_container.hpp"
#include "libmythical/cluster_container.hpp"
#include <cmath>
#include <map>
#include <set>
#include <stdexcept>
#include <unordered_map>
using namespace mythical;
static const int IMIN = -2147483647 - 1, IMAX = 2147483647;
static const int ID[] = {0, 1, 14, -1, IMAX};   // 1 and 14 share a hash bucket
static const double LO = 1e-6, HI = 1e6;
template <class F> static bool fails(F f) { try { f(); } catch (std::invalid_argument &) { return true; } return false; }
static std::unordered_map<int, double> keep[256]; static int nkeep;
static Site mk(int id, std::unordered_map<int, double> r) { Site s; s.setId(id); keep[nkeep] = r; s.setRatesToNeighbors(keep[nkeep++]); return s; }

// ---------------------------------------------------------------- C19 site container
struct SRef { int occ, cluster; long vis; };
static void compare(Site_Container &c, std::map<int, SRef> &r) {
  sym_check(c.size() == r.size(), "the container has one site per id added"); std::vector<int> ids = c.getSiteIds(); std::set<int> u(ids.begin(), ids.end()); sym_check(ids.size() == r.size() && u.size() == r.size(), "every id is listed once");
  auto all = c.getSites(); sym_check(all.size() == r.size(), "all sites are returned");
  for (int id : ID) {
    auto it = r.find(id); bool in = it != r.end(); sym_check(c.exist(id) == in, "a site exists exactly if it was added"); sym_check((u.count(id) == 1) == in, "exactly the sites added are listed");
    if (in) {
      sym_check(c.getSite(id).getId() == id, "the site found has the id asked for"); sym_check(all.count(id) && all[id].getId() == id, "the sites returned have the ids they are filed under");
      sym_check(c.isOccupied(id) == (it->second.occ > 0), "occupancy is kept per site"); sym_check(c.getSite(id).isOccupied() == (it->second.occ > 0), "occupancy of the stored site agrees"); sym_check(c.getSite(id).getVisitFrequency() == it->second.vis, "visits are kept per site"); sym_check(c.getClusterIdOfSite(id) == it->second.cluster, "the cluster id is kept per site"); sym_check(c.partOfCluster(id) == (it->second.cluster > -1), "cluster membership is kept per site");
      auto one = c.getSites({id}); sym_check(one.size() == 1 && one.count(id) && one[id].getId() == id, "one site can be fetched");
    } else sym_check(fails([&] { c.getSite(id); }) && fails([&] { c.getSites({id}); }) && fails([&] { c.isOccupied(id); }) && fails([&] { c.occupy(id); }) && fails([&] { c.vacate(id); }) && fails([&] { c.setClusterId(id, 0); }) && fails([&] { c.getClusterIdOfSite(id); }) && fails([&] { c.partOfCluster(id); }) && fails([&] { c.getDwellTime(id); }) && fails([&] { c.getTimeConstant(id); }) && fails([&] { c.getFastestRateOffSite(id); }) && fails([&] { c.getRateToNeighborOfSite(id, 0); }) && fails([&] { c.getSiteIdsOfNeighbors(id); }), "every use of a site that was never added is an error");
  }
}
HARNESS(C19_history) {
  sym_note("histories of 4 calls (thorough 5) over 3 ids with hash collisions (add, occupy, vacate, set cluster), in another harness add in bulk; absent ids are probed with every operation; in a third harness the ids are arbitrary ints");
  Site_Container c; std::map<int, SRef> r; int unset = Site().getClusterId();
  for (int k = 0; k < TIER(4, 5); k++) {
    int id = ID[sym_pick("id", 0, 2)], op = sym_pick("op", 0, 3); bool in = r.count(id);
    try {
      if (op == 0) { Site s; s.setId(id); c.addSite(s); sym_check(!in, "adding a site twice is an error"); r[id] = {0, unset, 0}; sym_reach("added"); }
      else if (op == 1) { c.occupy(id); sym_check(in, "occupying an absent site is an error"); r[id].occ++; r[id].vis++; sym_reach("occupied"); }
      else if (op == 2) { if (in && !r[id].occ) sym_done(); c.vacate(id); sym_check(in, "vacating an absent site is an error"); r[id].occ--; sym_reach("vacated"); }
      else { int cl = sym_pick("cluster", 0, 1) ? 5 : 0; c.setClusterId(id, cl); sym_check(in, "assigning an absent site is an error"); r[id].cluster = cl; sym_reach("assigned"); }
    } catch (std::invalid_argument &) { sym_check(op == 0 ? in : !in, "a legal call is accepted"); sym_reach("rejected"); }
  }
  compare(c, r); compare(c, r);
}
HARNESS(C19_bulk) {
  Site_Container c; std::map<int, SRef> r; int unset = Site().getClusterId(), first = sym_pick("first", 0, 7), second = sym_pick("second", 0, 7); bool clash = false; std::vector<Site> a, b;
  for (int e = 0; e < 3; e++) { Site s; s.setId(ID[e]); if (first >> e & 1) { a.push_back(s); r[ID[e]] = {0, unset, 0}; } if (second >> e & 1) { b.push_back(s); if (first >> e & 1) clash = true; } }
  c.addSites(a); compare(c, r);
  try { c.addSites(b); sym_check(!clash, "adding a site twice in bulk is an error"); for (int e = 0; e < 3; e++) if (second >> e & 1) r[ID[e]] = {0, unset, 0}; compare(c, r); sym_reach("merged"); } catch (std::invalid_argument &) { sym_check(clash, "new sites are accepted in bulk"); sym_reach("clash"); }
}
HARNESS(C19_many) {
  // forty sites; one call on an arbitrary id
  Site_Container c; int n = 40; for (int i = 0; i < n; i++) { Site s = mk(i * 13 - 26, {{i, 1.0 + i}}); if (i % 3 == 0) s.setClusterId(i); c.addSite(s); if (i % 2) c.occupy(i * 13 - 26); } int q = sym_int("q", IMIN, IMAX), what = sym_pick("what", 0, 6), k = -1; for (int i = 0; i < n; i++) if (q == i * 13 - 26) k = i;
  try { if (what == 0) { Site s; s.setId(q); c.addSite(s); sym_check(k < 0, "adding a site again is an error"); } else if (what == 1) sym_check(c.isOccupied(q) == (k % 2 == 1), "occupancy is that of the site asked for"); else if (what == 2) sym_check(c.getSite(q).getId() == q, "the site found is the one asked for"); else if (what == 3) sym_check(c.partOfCluster(q) == (k % 3 == 0), "cluster membership is that of the site asked for"); else if (what == 4) c.occupy(q); else if (what == 5) { c.setClusterId(q, 99); sym_check(c.getClusterIdOfSite(q) == 99, "the cluster id set is kept"); } else { std::vector<int> v{q}; auto m = c.getSites(v); sym_check(m.size() == 1 && m.begin()->first == q && m.begin()->second.getId() == q, "the sites asked for are returned"); } sym_check(what == 0 ? k < 0 : k >= 0, "an absent site is an error"); sym_reach("accepted"); } catch (std::invalid_argument &) { sym_check(what == 0 ? k >= 0 : k < 0, "a stored site can be used"); sym_reach("rejected"); }
  if (what == 0) { std::vector<int> v; for (int i = n - 1; i >= 0; i--) v.push_back(i * 13 - 26); auto m = c.getSites(v); bool good = (int)m.size() == n; for (int i = 0; i < n; i++) { int id = i * 13 - 26; good = good && m.count(id) && m[id].getNeighborSiteIds().size() == 1 && m[id].getNeighborSiteIds()[0] == i && m[id].isOccupied() == (i % 2 == 1) && m[id].partOfCluster() == (i % 3 == 0); } sym_check(good, "many sites can be fetched at once, each with its own state"); std::vector<int> ids = c.getSiteIds(); sym_check(ids.size() == c.size() && std::set<int>(ids.begin(), ids.end()).size() == ids.size(), "every one of many ids is listed once"); }
  for (int i = 0; i < n; i++) { int id = i * 13 - 26; sym_check(c.isOccupied(id) == (i % 2 == 1 || (what == 4 && i == k)), "the other sites keep their occupancy"); sym_check(c.getSite(id).getVisitFrequency() == i % 2 + (what == 4 && i == k), "the other sites keep their visits"); sym_check(c.partOfCluster(id) == (i % 3 == 0 || (what == 5 && i == k)), "the other sites keep their cluster"); }
}
HARNESS(C19_any_ids) {
  Site_Container c; int a = sym_int("a", IMIN, IMAX), q = sym_int("q", IMIN, IMAX); Site s; s.setId(a); c.addSite(s); sym_check(c.exist(q) == (q == a), "a site exists exactly if it was added");
  try { Site &t = c.getSite(q); sym_check(q == a, "asking for an absent site is an error"); sym_check(t.getId() == a, "the site found has its id"); sym_reach("found"); } catch (std::invalid_argument &) { sym_check(q != a, "a stored site can be found"); sym_reach("absent"); }
  sym_check(c.size() == 1, "asking for a site adds none");
}
HARNESS(C19_stored_copy) {
  Site_Container c; Site s = mk(1, {{14, 2.0}}); c.addSite(s); s.occupy(); s.setClusterId(7); sym_check(!c.isOccupied(1) & !c.partOfCluster(1), "the container keeps its own copy of a site"); c.occupy(1); sym_check(c.getSite(1).isOccupied(), "a site reached through the container is the stored one"); c.getSite(1).vacate(); sym_check(!c.isOccupied(1), "changing a site reached through the container changes the stored one");
  auto m = c.getSites(); m[1].occupy(); sym_check(!c.isOccupied(1), "the sites returned are copies"); int v = sym_int("visits", 0, 1000000); c.getSite(1).setVisitFrequency(v); sym_check(c.getSite(1).getVisitFrequency() == v, "the visit count set is kept"); sym_reach("end");
}

// ---------------------------------------------------------------- C21 rates and cluster ids seen through the site container
HARNESS(C21_rates) {
  sym_note("three sites with 1..3 neighbours each, every rate any real in [1e-6,1e6]; cluster ids: unassigned or any of three values per site, every subset and order of up to 3 sites queried");
  Site_Container c; std::map<int, std::map<int, double>> r; int shape = sym_pick("shape", 0, 3);
  for (int i = 0; i < 3; i++) { std::unordered_map<int, double> m; for (int j = 0; j < 4; j++) if (j != i && (j == (i + 1) % 3 || (shape >> (j & 1) & 1))) r[ID[i]][ID[j]] = m[ID[j]] = sym_real("rate", LO, HI); Site s = mk(ID[i], m); c.addSite(s); }
  Rate_Map all = c.getRates(); sym_check(all.size() == 3, "the rate table has one row per site");
  for (auto &row : r) {
    double sum = 0, best = c.getFastestRateOffSite(row.first); bool isone = false; for (auto &e : row.second) sum = sum + e.second;
    sym_check(all.count(row.first) && all[row.first].size() == row.second.size(), "a row of the rate table has one entry per neighbour"); std::vector<int> nb = c.getSiteIdsOfNeighbors(row.first); std::set<int> u(nb.begin(), nb.end()); sym_check(nb.size() == row.second.size() && u.size() == nb.size(), "every neighbour of a site is listed once");
    for (auto &e : row.second) { sym_check(u.count(e.first) == 1, "the neighbours listed are the right ones"); sym_check_close(c.getRateToNeighborOfSite(row.first, e.first), e.second, "the rate to a neighbour is the stored one"); sym_check(all[row.first].count(e.first) == 1, "the rate table has every rate"); if (all[row.first].count(e.first)) sym_check_close(*all[row.first][e.first], e.second, "the rate table has the stored rates"); sym_check_le(e.second, best, "no rate off the site is faster than the fastest"); isone = isone | (best == e.second); }
    sym_check(isone, "the fastest rate is one of the rates off the site"); sym_check_close(c.getTimeConstant(row.first) * sum, 1.0, "the time constant is the reciprocal of the total rate");
    int d0 = sym_draw_count(); double d = c.getDwellTime(row.first); if (sym_draw_count() == d0 + 1) { double u = sym_draw_value(d0); if (u > 1e-20) { double a = -sym_log(u), b = -sym_log(1 - u); sym_check_either(d * sum, a, b, "the dwell time is drawn with the time constant of the site asked for"); } } sym_check(d > 0, "a dwell time is positive");
  }
  sym_check(c.size() == 3, "queries add no sites"); sym_reach("end");
}
HARNESS(C21_smallest_cluster) {
  Site_Container c; int cl[3], unset = Site().getClusterId(); for (int i = 0; i < 3; i++) { Site s; s.setId(ID[i]); c.addSite(s); cl[i] = unset; if (sym_pick("assigned", 0, 1)) { cl[i] = sym_int("cluster", 0, 1000); c.setClusterId(ID[i], cl[i]); } }
  int n = sym_pick("n", 0, 3); std::vector<int> q; int ref = unset; for (int k = 0; k < n; k++) { int s = sym_pick("q", 0, 2); q.push_back(ID[s]); if (cl[s] != unset) ref = ref == unset ? cl[s] : (cl[s] < ref ? cl[s] : ref); }
  sym_check(c.getSmallestClusterId(q) == ref, "the smallest cluster id among the sites that have one"); for (int i = 0; i < 3; i++) sym_check(c.getClusterIdOfSite(ID[i]) == cl[i], "asking changes no cluster id"); sym_reach("end");
}
HARNESS(C21_smallest_of_many) {
  Site_Container c; int n = 9, unset = Site().getClusterId(), ref = unset; std::vector<int> q; for (int i = 0; i < n; i++) { Site s; s.setId(i * 13); c.addSite(s); int cl = unset; if (i == 2 || i == 5 || i == 8 ? sym_pick("assigned", 0, 1) : i % 2) { cl = i % 3 == 2 ? sym_int("cluster", 0, IMAX) : 50 + i; c.setClusterId(i * 13, cl); } q.push_back(i * 13); if (cl != unset && (ref == unset || cl < ref)) ref = cl; } if (sym_pick("reverse", 0, 1)) q = std::vector<int>(q.rbegin(), q.rend());
  sym_check(c.getSmallestClusterId(q) == ref, "the smallest cluster id among many sites"); sym_reach("end");
}
HARNESS(C21_smallest_cluster_absent) {
  Site_Container c; Site s; s.setId(1); c.addSite(s); int cl = sym_int("cluster", 0, IMAX); c.setClusterId(1, cl); int q = sym_int("q", IMIN, IMAX), order = sym_pick("order", 0, 1); std::vector<int> v = order ? std::vector<int>{1, q} : std::vector<int>{q, 1};
  try { int r = c.getSmallestClusterId(v); sym_check(q == 1, "an unknown site is an error"); sym_check(r == cl, "the smallest cluster id among the sites"); sym_reach("known"); } catch (std::invalid_argument &) { sym_check(q != 1, "known sites are accepted"); sym_reach("unknown"); }
  sym_check(c.size() == 1 & c.exist(q) == (q == 1), "asking adds no site");
}

// ---------------------------------------------------------------- C20 cluster container
// a cluster of sites a,b with one way out of each
static Cluster mkc(int id, int a, int b, double in, double out) {
  Cluster c; c.setId(id); c.setConvergenceMethod(Cluster::converge_by_iterations_per_cluster); c.setConvergenceIterations(1); Site s = mk(a, {{b, in}, {1000 + a, out}}), t = mk(b, {{a, in}, {1000 + b, out}}); std::vector<Site> v{s, t}; c.addSites(v); c.updateProbabilitiesAndTimeConstant(); return c;
}
struct CRef { int occ; long vis; double out, res; };
static void compare(Cluster_Container &c, std::map<int, CRef> &r) {
  sym_check(c.size() == r.size(), "the container has one cluster per id added"); std::vector<int> ids = c.getClusterIds(); std::set<int> u(ids.begin(), ids.end()); sym_check(ids.size() == r.size() && u.size() == r.size(), "every cluster id is listed once");
  auto res = c.getResolutionOfClusters(); auto inc = c.getTimeIncrementOfClusters(); auto mem = c.getSiteIdsOfClusters(); sym_check(res.size() == r.size() && inc.size() == r.size() && mem.size() == r.size(), "the tables have one row per cluster");
  for (int k = 0; k < 3; k++) {
    int id = ID[k]; auto it = r.find(id); bool in = it != r.end(); sym_check(c.exist(id) == in, "a cluster exists exactly if it was added and not erased"); sym_check((u.count(id) == 1) == in, "exactly the stored clusters are listed");
    if (in) {
      sym_check(c.getCluster(id).getId() == id, "the cluster found has the id asked for"); sym_check(c.isOccupied(id) == (it->second.occ > 0), "occupancy is kept per cluster"); sym_check(c.getCluster(id).isOccupied() == (it->second.occ > 0), "occupancy of the stored cluster agrees"); sym_check(static_cast<TopologyFeature &>(c.getCluster(id)).getVisitFrequency() == it->second.vis, "visits are kept per cluster");
      sym_check(mem.count(id) && mem[id].size() == 2 && std::set<int>(mem[id].begin(), mem[id].end()) == std::set<int>({100 + 2 * k, 101 + 2 * k}), "the member table has the sites of every cluster"); std::vector<int> nb = c.getSiteIdsOfNeighbors(id); sym_check(nb.size() == 2 && std::set<int>(nb.begin(), nb.end()) == std::set<int>({1100 + 2 * k, 1101 + 2 * k}), "the neighbours of a cluster are the outside sites its members lead to");
      sym_check_close(c.getFastestRateOffCluster(id), it->second.out, "the fastest rate off the cluster asked for"); sym_check_close(c.getTimeConstant(id) * it->second.out, 1.0, "the time constant of the cluster asked for"); sym_check_close(res[id], it->second.res, "the resolution table"); sym_check_close(inc[id] * it->second.res * it->second.out, 1.0, "the time increment table");
    } else sym_check(fails([&] { c.getCluster(id); }) && fails([&] { c.isOccupied(id); }) && fails([&] { c.occupy(id); }) && fails([&] { c.vacate(id); }) && fails([&] { c.getDwellTime(1, id); }) && fails([&] { c.getTimeConstant(id); }) && fails([&] { c.getFastestRateOffCluster(id); }) && fails([&] { c.getSiteIdsOfNeighbors(id); }), "every use of a cluster that is not stored is an error");
  }
}
HARNESS(C20_history) {
  sym_note("histories of 3 calls (thorough 4) over 3 ids with hash collisions (add, erase, occupy, vacate); outside rates any real in [0.01,100]; absent ids are probed with every operation; in another harness the id asked for is any int");
  Cluster_Container c; std::map<int, CRef> r; double out[3]; for (int k = 0; k < 3; k++) out[k] = sym_real("out", 0.01, 100);
  { Cluster x = mkc(ID[0], 100, 101, 50.0, out[0]); c.addCluster(x); r[ID[0]] = {0, 0, out[0], 20}; }
  for (int k = 0; k < TIER(3, 4); k++) {
    int n = sym_pick("id", 0, 2), id = ID[n], op = sym_pick("op", 0, 3); bool in = r.count(id);
    try {
      if (op == 0) { Cluster x = mkc(id, 100 + 2 * n, 101 + 2 * n, 50.0, out[n]); c.addCluster(x); sym_check(!in, "adding a cluster twice is an error"); r[id] = {0, 0, out[n], 20}; sym_reach("added"); }
      else if (op == 1) { c.erase(id); r.erase(id); sym_reach("erased"); }
      else if (op == 2) { c.occupy(id); sym_check(in, "occupying an absent cluster is an error"); r[id].occ++; r[id].vis++; }
      else { if (in && !r[id].occ) sym_done(); c.vacate(id); sym_check(in, "vacating an absent cluster is an error"); r[id].occ--; sym_reach("vacated"); }
    } catch (std::invalid_argument &) { sym_check(op == 0 ? in : op > 1 && !in, "a legal call is accepted"); sym_reach("rejected"); }
  }
  compare(c, r);
}
HARNESS(C20_bulk) {
  Cluster_Container c; std::map<int, CRef> r; int first = sym_pick("first", 0, 7), second = sym_pick("second", 0, 7); bool clash = false; std::vector<Cluster> a, b; double out = sym_real("out", 0.01, 100), res = sym_real("resolution", 2, 100);
  for (int e = 0; e < 3; e++) { if ((first | second) >> e & 1) { Cluster x = mkc(ID[e], 100 + 2 * e, 101 + 2 * e, 50.0, out); x.setResolution(res); if (first >> e & 1) { a.push_back(x); r[ID[e]] = {0, 0, out, res}; } if (second >> e & 1) { b.push_back(x); if (first >> e & 1) clash = true; } } }
  c.addClusters(a); compare(c, r);
  try { c.addClusters(b); sym_check(!clash, "adding a cluster twice in bulk is an error"); for (int e = 0; e < 3; e++) if (second >> e & 1) r[ID[e]] = {0, 0, out, res}; compare(c, r); sym_reach("merged"); } catch (std::invalid_argument &) { sym_check(clash, "new clusters are accepted in bulk"); sym_reach("clash"); }
}
HARNESS(C20_many) {
  // nine clusters, some erased; one call on an arbitrary id
  Cluster_Container c; int n = 9; std::set<int> in; for (int i = 0; i < n; i++) { Cluster x = mkc(i * 13, 100 + 2 * i, 101 + 2 * i, 50.0, sym_exact(1.0 + i)); x.setResolution(2 + i); c.addCluster(x); in.insert(i * 13); if (i % 2) c.occupy(i * 13); } int gone = sym_pick("gone", 0, 8); c.erase(gone * 13); in.erase(gone * 13); int q = sym_int("q", IMIN, IMAX), what = sym_pick("what", 0, 5), k = -1; for (int i = 0; i < n; i++) if (i != gone && q == i * 13) k = i;
  sym_check(c.size() == 8 && (c.exist(q) == (k >= 0)), "exactly the clusters added and not erased exist"); auto res = c.getResolutionOfClusters(); auto inc = c.getTimeIncrementOfClusters(); auto mem = c.getSiteIdsOfClusters(); sym_check(res.size() == 8 && inc.size() == 8 && mem.size() == 8, "the tables have one row per cluster"); for (int i = 0; i < n; i++) if (i != gone) { sym_check_close(res[i * 13], 2.0 + i, "the resolution table of many clusters"); sym_check_close(inc[i * 13] * (2 + i) * (1 + i), 1.0, "the time increment table of many clusters"); sym_check(mem[i * 13].size() == 2 && mem[i * 13][0] + mem[i * 13][1] == 201 + 4 * i, "the member table of many clusters"); }
  try { if (what == 0) sym_check(c.isOccupied(q) == (k % 2 == 1), "occupancy is that of the cluster asked for"); else if (what == 1) sym_check(c.getCluster(q).getId() == q, "the cluster found is the one asked for"); else if (what == 2) sym_check_close(c.getTimeConstant(q) * (1 + k), 1.0, "the time constant of the cluster asked for"); else if (what == 3) sym_check_close(c.getFastestRateOffCluster(q), 1.0 + k, "the fastest rate off the cluster asked for"); else if (what == 4) c.occupy(q); else { std::vector<int> v = c.getSiteIdsOfNeighbors(q); sym_check(v.size() == 2 && v[0] + v[1] == 2201 + 4 * k, "the neighbours of the cluster asked for"); } sym_check(k >= 0, "an absent cluster is an error"); sym_reach("accepted"); } catch (std::invalid_argument &) { sym_check(k < 0, "a stored cluster can be used"); sym_reach("rejected"); }
  for (int i = 0; i < n; i++) if (i != gone) sym_check(c.isOccupied(i * 13) == (i % 2 == 1 || (what == 4 && i == k)), "the other clusters keep their occupancy");
}
HARNESS(C20_any_ids) {
  Cluster_Container c; int a = sym_int("a", IMIN, IMAX), q = sym_int("q", IMIN, IMAX), del = sym_pick("erase", 0, 1); Cluster x = mkc(a, 1, 2, 5, 1); c.addCluster(x); bool in = q == a;
  if (del) { c.erase(q); sym_check(c.size() == (size_t)!in & c.exist(a) == !in, "erasing removes exactly the cluster asked for"); sym_check(!c.exist(q), "an erased cluster is gone"); sym_reach("erased"); sym_done(); }
  sym_check(c.exist(q) == in, "a cluster exists exactly if it was added");
  try { Cluster &t = c.getCluster(q); sym_check(in, "asking for an absent cluster is an error"); sym_check(t.getId() == a, "the cluster found has its id"); sym_reach("found"); } catch (std::invalid_argument &) { sym_check(!in, "a stored cluster can be found"); sym_reach("absent"); }
  sym_check(c.size() == 1, "asking for a cluster adds none");
}
HARNESS(C20_dwell) {
  Cluster_Container c; double o1 = sym_real("out1", 0.01, 100), o2 = sym_real("out2", 0.01, 100); Cluster x = mkc(0, 1, 2, 5, o1), y = mkc(14, 3, 4, 5, o2); c.addCluster(x); c.addCluster(y); int w = sym_int("walker", 0, 3) > 1 ? 8 : 21;
  double d = c.getDwellTime(w, 14); sym_check(d > 0, "a dwell time is positive"); sym_check_le(d * o2 * 20, 1.0, "a dwell time is at most the time increment of the cluster asked for"); double e = c.getDwellTime(w, 0); sym_check((e > 0), "a dwell time is positive"); sym_check_le(e * o1 * 20, 1.0, "a dwell time is at most the time increment of the cluster asked for");
  x.setResolution(7); sym_check_close(c.getCluster(0).getResolution(), 20.0, "the container keeps its own copy of a cluster"); c.getCluster(0).setResolution(9); sym_check_close(c.getResolutionOfClusters()[0], 9.0, "a cluster reached through the container is the stored one"); sym_reach("end");
}
HARNESS(C20_dwell_per_walker) {
  // the time left on a cluster belongs to the walker, also when asked through the container
  Cluster_Container c; double o = sym_real("out", 0.01, 100); Cluster x = mkc(0, 1, 2, 5, o), y = mkc(14, 3, 4, 5, o); c.addCluster(x); c.addCluster(y); int w = sym_pick("w", 0, 1) ? 14 : 0, v = sym_pick("v", 0, 1) ? 3 : 13; int n0 = sym_draw_count();
  c.getDwellTime(w, 14); sym_check(sym_draw_count() == n0 + 1, "the first time on a cluster is drawn"); if (sym_draw_count() != n0 + 1) sym_done(); double u = sym_draw_value(n0); sym_assume((u > 0) & (u < 0.5)); c.getDwellTime(v, 14); sym_check(sym_draw_count() == n0 + 2, "every walker has a time of its own on a cluster"); c.getDwellTime(w, 0); sym_check(sym_draw_count() == n0 + 3, "every cluster has a time of its own for a walker"); c.getDwellTime(w, 14); sym_check(sym_draw_count() == n0 + 3, "the time of a stay is drawn once"); sym_reach("end");
}
