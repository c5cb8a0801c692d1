// Cuboid lattice: indexing, bounds, periodic images, neighbours, distances.
#include "sym.h"
#include "mythical/charge_transport/cuboid_lattice.hpp"
#include <algorithm>
#include <cmath>
#include <stdexcept>
using namespace mythical::charge_transport;
typedef BoundarySetting BS;
static const int IMIN = -2147483647 - 1, IMAX = 2147483647;

static const int DIMS[][3] = {{1, 1, 1}, {2, 3, 4}, {4, 3, 2}, {3, 1, 5}, {1, 7, 2}, {7, 11, 13}, {1000, 1000, 1000}, {1290, 1290, 1290}, {1, 1, 1 << 30}, {46340, 46340, 1}, {2147483647, 1, 1}, {1, 613566756, 3}};
#define NDIMS 12
static BS bs(int b) { return b ? BS::Periodic : BS::Fixed; }
// calls f(); returns 1 if it threw std::invalid_argument
template <class F> static int rejects(F f) { try { f(); } catch (std::invalid_argument &) { return 1; } return 0; }

// ---------------------------------------------------------------- C01 index <-> position
HARNESS(C01_index_to_position) {
  sym_note("lattice shapes: twelve fixed shapes from 1x1x1 to 1290^3, 46340x46340x1, 1x1x2^30, (2^31-1)x1x1; index: every int in range");
  const int *d = DIMS[sym_pick("shape", 0, NDIMS - 1)]; int L = d[0], W = d[1], H = d[2]; long n = (long)L * W * H;
  Cuboid c(L, W, H);
  int i = sym_int("i", 0, (int)(n - 1));
  std::vector<int> p = c.getPosition(i);
  sym_check(p.size() == 3, "a position has three coordinates");
  sym_check((p[0] >= 0) & (p[0] < L) & (p[1] >= 0) & (p[1] < W) & (p[2] >= 0) & (p[2] < H), "position lies inside the lattice");
  sym_check(c.getIndex(p) == i, "index -> position -> index is the identity");
  sym_check(c.getIndex(p[0], p[1], p[2]) == i, "index from coordinates agrees with index from vector");
  sym_check(c.getX(i) == p[0], "x accessor agrees with position");
  sym_check(c.getY(i) == p[1], "y accessor agrees with position");
  sym_check(c.getZ(i) == p[2], "z accessor agrees with position");
  sym_reach("end");
}
HARNESS(C01_position_to_index) {
  const int *d = DIMS[sym_pick("shape", 0, NDIMS - 1)]; int L = d[0], W = d[1], H = d[2]; long n = (long)L * W * H;
  int px = sym_pick("px", 0, 1), py = sym_pick("py", 0, 1), pz = sym_pick("pz", 0, 1);
  Cuboid c(L, W, H, 2.5, bs(px), bs(py), bs(pz));
  int x = sym_int("x", 0, L - 1), y = sym_int("y", 0, W - 1), z = sym_int("z", 0, H - 1);
  int i = c.getIndex(x, y, z);
  sym_check((i >= 0) & ((long)i < n), "index lies in 0..n-1");
  sym_check((c.getX(i) == x) & (c.getY(i) == y) & (c.getZ(i) == z), "position -> index -> position is the identity");
  std::vector<int> p{x, y, z};
  sym_check(c.getIndex(p) == i, "vector overload agrees");
  sym_reach("end");
}
HARNESS(C01_injective) {
  const int *d = DIMS[sym_pick("shape", 1, 5)]; int L = d[0], W = d[1], H = d[2];
  Cuboid c(L, W, H);
  int x = sym_int("x", 0, L - 1), y = sym_int("y", 0, W - 1), z = sym_int("z", 0, H - 1);
  int a = sym_int("a", 0, L - 1), b = sym_int("b", 0, W - 1), e = sym_int("e", 0, H - 1);
  int i = c.getIndex(x, y, z), j = c.getIndex(a, b, e);
  sym_check(((i == j) & ((x != a) | (y != b) | (z != e))) == 0, "two different positions never share an index");
  sym_reach("end");
}
HARNESS(C01_getters) {
  int L = sym_pick("L", 1, 4), W = sym_pick("W", 1, 4), H = sym_pick("H", 1, 4); double s = sym_real("s", 1e-6, 1e6);
  int px = sym_pick("px", 0, 1), py = sym_pick("py", 0, 1), pz = sym_pick("pz", 0, 1);
  Cuboid c(L, W, H, s, bs(px), bs(py), bs(pz));
  sym_check(c.getLength() == L && c.getWidth() == W && c.getHeight() == H, "dimensions are reported as constructed");
  sym_check(c.isXPeriodic() == (px == 1) && c.isYPeriodic() == (py == 1) && c.isZPeriodic() == (pz == 1), "boundary settings are reported as constructed");
  sym_check_close(c.getLatticeSpacing(), s, "spacing is reported as constructed");
  Cuboid e(L, W, H, s), f(L, W, H);
  sym_check(e.getLength() == L && e.getWidth() == W && e.getHeight() == H && f.getLength() == L && f.getWidth() == W && f.getHeight() == H, "dimensions are reported as constructed (short constructors)");
  sym_check(!e.isXPeriodic() && !e.isYPeriodic() && !e.isZPeriodic() && !f.isXPeriodic() && !f.isYPeriodic() && !f.isZPeriodic(), "boundaries default to fixed");
  sym_check_close(e.getLatticeSpacing(), s, "spacing is reported (4-argument constructor)");
  sym_check_close(f.getLatticeSpacing(), 1.0, "spacing defaults to one");
  sym_reach("end");
}

// ---------------------------------------------------------------- C02 out-of-range requests are rejected
HARNESS(C02_index_range) {
  sym_note("ten lattice shapes; index and coordinates: every 32-bit int; wrong vector lengths 0..5");
  const int *d = DIMS[sym_pick("shape", 0, NDIMS - 1)]; int L = d[0], W = d[1], H = d[2]; long n = (long)L * W * H;
  int b = sym_pick("bounds", 0, 2); b = b == 2 ? 7 : b * 2; Cuboid c(L, W, H, 1.0, bs(b & 1), bs(b >> 1 & 1), bs(b >> 2 & 1));
  int i = sym_int("i", IMIN, IMAX); bool in = (i >= 0) & ((long)i < n);
  int what = sym_pick("what", 0, 3);
  try {
    if (what == 0) c.getPosition(i); else if (what == 1) c.getX(i); else if (what == 2) c.getY(i); else c.getZ(i);
    sym_check(in, "an index outside the lattice is rejected"); sym_reach("accepted");
  } catch (std::invalid_argument &) { sym_check(!in, "an index inside the lattice is accepted"); sym_reach("rejected"); }
}
HARNESS(C02_neighbor_index_range) {
  int L = sym_pick("L", 1, 3), W = sym_pick("W", 1, 2), H = sym_pick("H", 1, 2), n = L * W * H;
  int b = sym_pick("bounds", 0, 2); b = b == 2 ? 7 : b * 2; Cuboid c(L, W, H, 1.0, bs(b & 1), bs(b >> 1 & 1), bs(b >> 2 & 1));
  int i = sym_int("i", IMIN, IMAX); bool in = (i >= 0) & (i < n); int what = sym_pick("what", 0, 3);
  try {
    if (what == 0) c.getNeighbors(i, 1.0); else if (what == 1) c.getNeighborDistances(i, 1.0); else if (what == 2) c.getSmallestDistance(i, 0); else c.getSmallestDistance(n - 1, i);
    sym_check(in, "neighbour and distance queries reject an index outside the lattice"); sym_reach("accepted");
  } catch (std::invalid_argument &) { sym_check(!in, "neighbour and distance queries accept an index inside the lattice"); sym_reach("rejected"); }
}
HARNESS(C02_position_range) {
  const int *d = DIMS[sym_pick("shape", 0, NDIMS - 1)]; int L = d[0], W = d[1], H = d[2];
  Cuboid c(L, W, H);
  int x = sym_int("x", IMIN, IMAX), y = sym_int("y", IMIN, IMAX), z = sym_int("z", IMIN, IMAX);
  bool in = (x >= 0) & (x < L) & (y >= 0) & (y < W) & (z >= 0) & (z < H);
  try { c.getIndex(x, y, z); sym_check(in, "a position outside a fixed lattice is rejected"); sym_reach("accepted"); }
  catch (std::invalid_argument &) { sym_check(!in, "a position inside the lattice is accepted"); sym_reach("rejected"); }
}
HARNESS(C02_distance_position_range) {
  int L = sym_pick("L", 1, 2), W = sym_pick("W", 1, 3), H = sym_pick("H", 1, 2); int b = sym_pick("bounds", 0, 7);
  Cuboid c(L, W, H, 1.0, bs(b & 1), bs(b >> 1 & 1), bs(b >> 2 & 1));
  int x = sym_int("x", IMIN, IMAX), y = sym_int("y", IMIN, IMAX), z = sym_int("z", IMIN, IMAX);
  bool ix = (x >= 0) & (x < L), iy = (y >= 0) & (y < W), iz = (z >= 0) & (z < H), in = ix & iy & iz, infixed = (ix | (b & 1)) & (iy | (b >> 1 & 1)) & (iz | (b >> 2 & 1));
  try { std::vector<int> p{x, y, z}; c.getNeighborDistances(p, 1.0); sym_check(infixed, "neighbour distances reject a position outside along a fixed direction"); sym_reach("accepted"); }
  catch (std::invalid_argument &) { sym_check(!in, "neighbour distances accept a position inside the lattice"); sym_reach("rejected"); }
}
HARNESS(C02_vector_size) {
  Cuboid c(3, 3, 3); int n = sym_pick("n", 0, 5); std::vector<int> p(n, 1); int what = sym_pick("what", 0, 1);
  try { if (what) c.getNeighborDistances(p, 1.0); else c.getIndex(p); sym_check(n == 3, "a position vector that does not have three entries is rejected"); sym_reach("accepted"); }
  catch (std::invalid_argument &) { sym_check(n != 3, "a position vector with three entries is accepted"); sym_reach("rejected"); }
}
HARNESS(C02_negative_dimension) {
  int L = sym_int("L", -1000, 3), W = sym_int("W", -1000, 3), H = sym_int("H", -1000, 3); int ctor = sym_pick("ctor", 0, 2);
  bool neg = (L < 0) | (W < 0) | (H < 0);
  sym_assume(neg | ((L != 0) & (W != 0) & (H != 0)));
  try { if (ctor == 0) Cuboid c(L, W, H); else if (ctor == 1) Cuboid c(L, W, H, 1.0); else Cuboid c(L, W, H, 1.0, BS::Periodic, BS::Fixed, BS::Periodic);
    sym_check(!neg, "a lattice with a negative dimension is rejected"); sym_reach("accepted"); }
  catch (std::invalid_argument &) { sym_check(neg, "a lattice with positive dimensions is accepted"); sym_reach("rejected"); }
}

// ---------------------------------------------------------------- C03 periodic wrapping
static int shiftMax(int n) { return (IMAX - (n - 1)) / n; }
HARNESS(C03_wrap) {
  sym_note("ten lattice shapes x eight boundary combinations; coordinates: every 32-bit int along periodic directions, every lattice position along fixed ones");
  const int *d = DIMS[sym_pick("shape", 0, NDIMS - 1)]; int L = d[0], W = d[1], H = d[2];
  int px = sym_pick("px", 0, 1), py = sym_pick("py", 0, 1), pz = sym_pick("pz", 0, 1);
  Cuboid c(L, W, H, 1.0, bs(px), bs(py), bs(pz));
  int x = sym_int("x", 0, L - 1), y = sym_int("y", 0, W - 1), z = sym_int("z", 0, H - 1);
  int kx = px ? sym_int("kx", -shiftMax(L), shiftMax(L)) : 0, ky = py ? sym_int("ky", -shiftMax(W), shiftMax(W)) : 0, kz = pz ? sym_int("kz", -shiftMax(H), shiftMax(H)) : 0;
  int i = c.getIndex(x, y, z), j;
  try { j = c.getIndex(x + kx * L, y + ky * W, z + kz * H); } catch (std::invalid_argument &) { sym_fail("a coordinate along a periodic direction is never rejected"); return; }
  sym_check(i == j, "moving a position by whole periods leads to the same site");
  std::vector<int> v{x + kx * L, y + ky * W, z + kz * H};
  sym_check(c.getIndex(v) == i, "the same through the vector overload");
  sym_reach("accepted");
}
HARNESS(C03_extreme) {
  const int *d = DIMS[sym_pick("shape", 0, NDIMS - 1)]; int n = sym_pick("axis", 0, 2), k = sym_pick("value", 0, 5);
  static const int ext[] = {IMIN, IMIN + 1, IMIN + 2, IMAX, IMAX - 1, IMAX - 2}; int q[3] = {0, 0, 0}; q[n] = ext[k];
  Cuboid c(d[0], d[1], d[2], 1.0, BS::Periodic, BS::Periodic, BS::Periodic);
  int e[3] = {0, 0, 0}; e[n] = (int)((((long long)q[n]) % d[n] + d[n]) % d[n]);
  sym_check(c.getIndex(q[0], q[1], q[2]) == c.getIndex(e[0], e[1], e[2]), "the extreme coordinates are wrapped by whole periods");
  sym_reach("end");
}
HARNESS(C03_mixed) {
  sym_note("mixed boundaries: one coordinate at a time takes every 32-bit value");
  const int *d = DIMS[sym_pick("shape", 1, 5)]; int px = sym_pick("px", 0, 1), py = sym_pick("py", 0, 1), pz = sym_pick("pz", 0, 1), n = sym_pick("axis", 0, 2);
  Cuboid c(d[0], d[1], d[2], 1.0, bs(px), bs(py), bs(pz)); int per = n == 0 ? px : n == 1 ? py : pz;
  int v = sym_int("v", IMIN, IMAX); int q[3] = {0, 0, 0}; q[n] = v; bool in = (v >= 0) & (v < d[n]); int i;
  try { i = c.getIndex(q[0], q[1], q[2]); } catch (std::invalid_argument &) { sym_check((per == 0) & !in, "only a coordinate outside a fixed direction is rejected"); sym_reach("rejected"); return; }
  sym_check((per == 1) | in, "a coordinate outside a fixed direction is rejected even when other directions are periodic");
  int r = n == 0 ? c.getX(i) : n == 1 ? c.getY(i) : c.getZ(i);
  sym_check((((long long)v - r) % d[n] == 0) & (r >= 0) & (r < d[n]), "the coordinate is moved into the lattice by whole periods");
  sym_reach("accepted");
}

// ---------------------------------------------------------------- C04 random site on a plane
static int along(Cuboid::Plane p, int L, int W, int H) { return p == Cuboid::Plane::YZ ? L : p == Cuboid::Plane::XZ ? W : H; }
static const int PLANES[][3] = {{5, 7, 9}, {20, 1, 3}, {1, 11, 6}, {4, 30, 2}, {2, 5, 17}, {10, 10, 10}, {100, 3, 50}, {7, 64, 100}};
static void planeShape(int &L, int &W, int &H) { int k = sym_pick("large", 0, 8); if (k == 0) { L = sym_pick("L", 1, TIER(3, 4)); W = sym_pick("W", 1, TIER(3, 4)); H = sym_pick("H", 1, TIER(3, 4)); } else { L = PLANES[k - 1][0]; W = PLANES[k - 1][1]; H = PLANES[k - 1][2]; } }
HARNESS(C04_on_plane) {
  sym_note("lattice dimensions 1..4 (quick 1..3) in every combination and eight larger shapes up to 100 sites per edge; plane index: every 32-bit int; random draws: every value of their range");
  int L, W, H; planeShape(L, W, H); int per = sym_pick("periodic", 0, 1);
  Cuboid c(L, W, H, 1.0, bs(per), bs(per), bs(per));
  int k = sym_pick("plane", 0, 2); Cuboid::Plane pl = k == 0 ? Cuboid::Plane::XY : k == 1 ? Cuboid::Plane::YZ : Cuboid::Plane::XZ;
  int idx = sym_int("plane_index", IMIN, IMAX); bool in = (idx >= 0) & (idx < along(pl, L, W, H));
  int r;
  try { r = c.getRandomSite(pl, idx); } catch (std::invalid_argument &) { sym_check(!in, "a plane inside the lattice is accepted, whatever is drawn"); sym_reach("rejected"); return; }
  sym_check(in, "a plane outside the lattice is rejected");
  sym_check((r >= 0) & (r < L * W * H), "the random site is a site of the lattice");
  int x = r % L, y = (r / L) % W, z = r / (L * W);
  sym_check((k == 0 ? z : k == 1 ? x : y) == idx, "the random site lies on the requested plane");
  sym_reach("accepted");
}
HARNESS(C04_uniform) {
  sym_note("uniformity is decided when the site is a function of bounded integer draws: the draws are in bijection with the sites of the plane");
  int L, W, H; planeShape(L, W, H);
  Cuboid c(L, W, H);
  int k = sym_pick("plane", 0, 2); Cuboid::Plane pl = k == 0 ? Cuboid::Plane::XY : k == 1 ? Cuboid::Plane::YZ : Cuboid::Plane::XZ;
  int idx = sym_int("plane_index", 0, 99); sym_assume(idx < along(pl, L, W, H));
  int r1 = c.getRandomSite(pl, idx); int n = sym_idraw_count();
  int r2 = c.getRandomSite(pl, idx); int m = sym_idraw_count();
  sym_reach("end");
  if (n == 0 || m != 2 * n || sym_draw_count()) return;
  double area = (double)L * W * H / along(pl, L, W, H), prod = 1;
  bool same = true; for (int i = 0; i < n; i++) { prod *= sym_idraw_size(i); same = same & (sym_idraw_value(i) == sym_idraw_value(n + i)); }
  sym_check(prod == area, "every site of the plane can be drawn, all equally likely");
  sym_check((r1 != r2) | same, "different draws give different sites of the plane");
}

// ---------------------------------------------------------------- reference geometry
static int img(int a, int b, int n, int per) { int d = a > b ? a - b : b - a; return per && n - d < d ? n - d : d; }
struct Ref { int L, W, H, px, py, pz; double s;
  int n() const { return L * W * H; }
  int d2(int i, int j) const { int x = img(i % L, j % L, L, px), y = img(i / L % W, j / L % W, W, py), z = img(i / (L * W), j / (L * W), H, pz); return x * x + y * y + z * z; }
  double d(int i, int j) const { return std::sqrt((double)d2(i, j)) * s; } };
static const int SHAPES[][3] = {{1, 1, 1}, {2, 1, 1}, {1, 3, 1}, {1, 1, 4}, {5, 1, 1}, {2, 2, 2}, {3, 2, 1}, {1, 2, 3}, {3, 3, 2}, {2, 3, 4}, {4, 1, 5}, {3, 4, 3}, {5, 5, 2}, {4, 5, 4}};
static Ref lattice(int nshape) {
  const int *d = SHAPES[sym_pick("shape", 0, nshape - 1)]; int b = sym_pick("bounds", 0, 7);
  static const double sp[] = {1.0, 0.7, 2.5};
  return Ref{d[0], d[1], d[2], b & 1, b >> 1 & 1, b >> 2 & 1, sp[sym_pick("spacing", 0, TIER(1, 2))]};
}
static Cuboid mk(const Ref &r) { return Cuboid(r.L, r.W, r.H, r.s, bs(r.px), bs(r.py), bs(r.pz)); }
// any cutoff up to m spacings, away from the lattice distances by a relative 1e-7 (rounding at the shell itself is decided separately)
static double cutoff(const Ref &r, int m2) {
  int q = sym_pick("gap", 0, m2);   // between the shells at sqrt(q) and sqrt(q+1) spacings
  return sym_real("cutoff", std::sqrt((double)q) * r.s * (1 + 1e-7), std::sqrt(q + 1.0) * r.s * (1 - 1e-7));
}
#define NS TIER(10, 14)
#define CUT TIER(4, 10)

// ---------------------------------------------------------------- C05 neighbours within a cutoff
static void checkNeighbors(const Ref &r, int i, double cut) {
  Cuboid c = mk(r); std::vector<int> v = c.getNeighbors(i, cut);
  std::vector<int> cnt(r.n(), 0);
  for (int j : v) { sym_check(j >= 0 && j < r.n(), "a neighbour is a site of the lattice"); sym_check(j != i, "a site is not its own neighbour"); cnt[j]++; }
  for (int j = 0; j < r.n(); j++) if (j != i) {
    double d = r.d(i, j); bool in = d <= cut;
    if (cnt[j] == 0) sym_check(!in, "every site within the cutoff is listed"); else sym_check(in, "every listed site is within the cutoff");
    sym_check(cnt[j] <= 1, "a neighbour is listed once");
  }
}
HARNESS(C05_neighbors) {
  sym_note("shapes up to 2x3x4 (thorough 4x5x4), all boundary combinations, spacings {1,0.7}; site: every index; cutoff: every real up to sqrt(5) (thorough sqrt(11)) spacings except within 1e-7 of a shell; shells at whole multiples of the spacing separately");
  Ref r = lattice(NS); int i = sym_pick("i", 0, r.n() - 1); double cut = cutoff(r, CUT);
  checkNeighbors(r, i, cut); sym_reach("end");
}
HARNESS(C05_neighbors_on_shell) {
  const int *d = SHAPES[sym_pick("shape", 0, NS - 1)]; int b = sym_pick("bounds", 0, 7);
  Ref r{d[0], d[1], d[2], b & 1, b >> 1 & 1, b >> 2 & 1, sym_real("spacing", 1e-3, 1e3)};
  int i = sym_pick("i", 0, r.n() - 1), k = sym_pick("shell", 1, TIER(2, 3));
  checkNeighbors(r, i, k * r.s); sym_reach("end");
}
static Ref larger() {
  static const int big[][3] = {{6, 5, 7}, {9, 2, 3}, {1, 12, 1}, {3, 4, 10}}; const int *d = big[sym_pick("shape", 0, 3)]; static const int B[] = {0, 7, 2, 5}; int b = B[sym_pick("bounds", 0, 3)];
  return Ref{d[0], d[1], d[2], b & 1, b >> 1 & 1, b >> 2 & 1, sym_pick("spacing", 0, 1) ? 3.5 : 0.3};
}
HARNESS(C05_larger) {
  // larger lattices and cutoffs: a corner and a middle site, cutoffs in gaps up to four spacings
  Ref r = larger(); int i = sym_pick("i", 0, 1) ? r.L / 2 + r.L * (r.W / 2 + r.W * (r.H / 2)) : r.n() - 1; static const int G[] = {0, 2, 5, 9, 13, 16}; int q = G[sym_pick("gap", 0, 5)];
  double cut = sym_real("cutoff", std::sqrt((double)q) * r.s * (1 + 1e-7), std::sqrt(q + 1.0) * r.s * (1 - 1e-7)); checkNeighbors(r, i, cut); sym_reach("end");
}
HARNESS(C05_symmetric) {
  Ref r = lattice(6); int i = sym_pick("i", 0, r.n() - 1), j = sym_pick("j", 0, r.n() - 1); double cut = cutoff(r, 4);
  Cuboid c = mk(r); std::vector<int> a = c.getNeighbors(i, cut), b = c.getNeighbors(j, cut);
  sym_check((std::find(a.begin(), a.end(), j) != a.end()) == (std::find(b.begin(), b.end(), i) != b.end()), "being neighbours is symmetric");
  sym_reach("end");
}

// ---------------------------------------------------------------- C06 neighbour distances
static void checkList(const Ref &r, int i, double cut, const std::vector<std::pair<int, double>> &v) {
  std::vector<int> cnt(r.n(), 0);
  for (auto &p : v) { sym_check(p.first >= 0 && p.first < r.n() && p.first != i, "a listed neighbour is another site of the lattice"); cnt[p.first]++; sym_check_close(p.second, r.d(i, p.first), "the listed distance is the shortest one"); }
  for (int j = 0; j < r.n(); j++) if (j != i) { bool in = r.d(i, j) <= cut; if (cnt[j] == 0) sym_check(!in, "every site within the cutoff has a distance"); else sym_check(in, "only sites within the cutoff have a distance"); sym_check(cnt[j] <= 1, "a neighbour has one distance"); }
}
HARNESS(C06_per_site) {
  sym_note("same space as the neighbour lists; the whole-lattice table is compared entry by entry with the reference geometry");
  Ref r = lattice(NS); int i = sym_pick("i", 0, r.n() - 1); double cut = cutoff(r, CUT);
  Cuboid c = mk(r);
  if (sym_pick("by_position", 0, 1)) { std::vector<int> p{i % r.L, i / r.L % r.W, i / (r.L * r.W)}; checkList(r, i, cut, c.getNeighborDistances(p, cut)); }
  else checkList(r, i, cut, c.getNeighborDistances(i, cut));
  sym_reach("end");
}
HARNESS(C06_larger) {
  Ref r = larger(); int i = sym_pick("i", 0, 1) ? r.L / 2 + r.L * (r.W / 2 + r.W * (r.H / 2)) : r.n() - 1; static const int G[] = {0, 2, 5, 9, 13, 16}; int q = G[sym_pick("gap", 0, 5)]; Cuboid c = mk(r);
  double cut = sym_real("cutoff", std::sqrt((double)q) * r.s * (1 + 1e-7), std::sqrt(q + 1.0) * r.s * (1 - 1e-7)); std::vector<int> p{i % r.L, i / r.L % r.W, i / (r.L * r.W)}; checkList(r, i, cut, c.getNeighborDistances(p, cut)); checkList(r, i, cut, c.getNeighborDistances(i, cut)); sym_reach("end");
}
static void checkTable(const Ref &r, double cut) {
  Cuboid c = mk(r); auto t = c.getNeighborDistances(cut);
  for (auto &a : t) { sym_check(a.first >= 0 && a.first < r.n(), "table keys are sites"); for (auto &b : a.second) sym_check(b.first >= 0 && b.first < r.n() && b.first != a.first, "table entries are other sites"); }
  for (int i = 0; i < r.n(); i++) for (int j = 0; j < r.n(); j++) if (i != j) {
    bool have = t.count(i) && t.at(i).count(j); bool in = r.d(i, j) <= cut;
    if (!have) sym_check(!in, "the table holds every pair within the cutoff"); else { sym_check(in, "the table holds only pairs within the cutoff"); sym_check_close(t.at(i).at(j), r.d(i, j), "the table holds the shortest distance of each pair"); }
  }
}
HARNESS(C06_whole_lattice) { Ref r = lattice(NS); double cut = cutoff(r, CUT); checkTable(r, cut); sym_reach("end"); }
HARNESS(C06_whole_larger) { Ref r = larger(); int q = sym_pick("gap", 1, 3); checkTable(r, sym_real("cutoff", std::sqrt((double)q) * r.s * (1 + 1e-7), std::sqrt(q + 1.0) * r.s * (1 - 1e-7))); sym_reach("end"); }
HARNESS(C06_whole_lattice_on_shell) {
  const int *d = SHAPES[sym_pick("shape", 0, NS - 1)]; int b = sym_pick("bounds", 0, 7);
  Ref r{d[0], d[1], d[2], b & 1, b >> 1 & 1, b >> 2 & 1, sym_real("spacing", 1e-3, 1e3)}; checkTable(r, r.s * sym_pick("shell", 1, TIER(2, 3))); sym_reach("end");
}
HARNESS(C06_per_site_on_shell) {
  const int *d = SHAPES[sym_pick("shape", 0, NS - 1)]; int b = sym_pick("bounds", 0, 7);
  Ref r{d[0], d[1], d[2], b & 1, b >> 1 & 1, b >> 2 & 1, sym_real("spacing", 1e-3, 1e3)}; int i = sym_pick("i", 0, r.n() - 1); double cut = r.s * sym_pick("shell", 1, TIER(2, 3));
  checkList(r, i, cut, mk(r).getNeighborDistances(i, cut)); sym_reach("end");
}

// ---------------------------------------------------------------- C07 minimum-image distance
HARNESS(C07_small) {
  sym_note("shapes up to 2x3x4 (thorough 4x5x4), all boundary combinations, every pair of sites; spacing: every real in [1e-3,1e3]; 1-D lattices of 1..400 sites with symbolic indices");
  const int *d = SHAPES[sym_pick("shape", 0, NS - 1)]; int b = sym_pick("bounds", 0, 7);
  Ref r{d[0], d[1], d[2], b & 1, b >> 1 & 1, b >> 2 & 1, 1.0}; r.s = sym_real("spacing", 1e-3, 1e3);
  int i = sym_pick("i", 0, r.n() - 1); Cuboid c = mk(r);
  for (int j = 0; j < r.n(); j++) {
    double a = c.getSmallestDistance(i, j);
    sym_check_close(a, r.d(i, j), "the distance is the shortest one under the boundary settings");
    sym_check_close(c.getSmallestDistance(j, i), a, "the distance is symmetric");
    if (i == j) sym_check(a == 0, "a site is at distance zero from itself"); else sym_check(a > 0, "two sites are at a positive distance");
  }
  sym_reach("end");
}
HARNESS(C07_line) {
  int axis = sym_pick("axis", 0, 2), per = sym_pick("periodic", 0, 1); static const int N[] = {1, 2, 3, 7, 10, 400}; int n = N[sym_pick("n", 0, 5)];
  Cuboid c(axis == 0 ? n : 1, axis == 1 ? n : 1, axis == 2 ? n : 1, 1.0, bs(per), bs(per), bs(per));
  int i = sym_int("i", 0, n - 1), j = sym_int("j", 0, n - 1);
  double a = c.getSmallestDistance(i, j); int d = i > j ? i - j : j - i; int m = per && n - d < d ? n - d : d;
  sym_check_close(a * a, (double)(m * m), "distance along a line of sites is the shortest one");
  sym_check(a >= 0, "distance is not negative");
  sym_reach("end");
}
HARNESS(C07_large) {
  // one coordinate of the second site is free, the first site is a corner, an edge or the middle
  static const int big[][3] = {{7, 11, 13}, {20, 3, 9}, {100, 100, 100}}; int sh = sym_pick("shape", 0, 2); const int *d = big[sh]; int b = sym_pick("bounds", 0, 7), ax = sym_pick("axis", 0, 2);
  Cuboid c(d[0], d[1], d[2], 1.0, bs(b & 1), bs(b >> 1 & 1), bs(b >> 2 & 1)); int at = sym_pick("at", 0, 2), off = sym_pick("off", 0, 2); int p[3], q[3], m[3];
  for (int k = 0; k < 3; k++) { p[k] = at == 0 ? 0 : at == 1 ? d[k] / 2 : d[k] - 1; q[k] = off == 0 ? p[k] : off == 1 ? (p[k] + 1) % d[k] : d[k] - 1 - p[k]; } q[ax] = sh == 2 ? sym_pick("q", 0, 6) * 33 / 2 : sym_int("q", 0, d[ax] - 1);
  int i = p[0] + d[0] * (p[1] + d[1] * p[2]), j = q[0] + d[0] * (q[1] + d[1] * q[2]);
  double a = c.getSmallestDistance(i, j); for (int k = 0; k < 3; k++) m[k] = img(p[k], q[k], d[k], b >> k & 1);
  sym_check_close(a * a, (double)(m[0] * m[0] + m[1] * m[1] + m[2] * m[2]), "the distance in a large lattice is the shortest one"); sym_reach("end");
}
