// Plain implementation of the harness API: inputs come from a counterexample file.
// exit 0: the harness ran and every check held; 3: a check failed; 4: input left the assumed space
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <unordered_map>
#include <vector>
#include "sym.h"
static std::map<std::string, double> rv; static std::map<std::string, long> iv; static std::map<std::string, int> cnt;
struct ID { int v; double n; }; static std::vector<ID> idraws; static std::vector<double> draws; static int nd = 0, nid = 0; static sym_HReg *list = nullptr;
static std::string uniq(const char *n) { int k = ++cnt[n]; return k == 1 ? n : std::string(n) + "#" + std::to_string(k); }
static bool quiet = false;
static long getI(const char *n, long d) { std::string u = uniq(n); long r = iv.count(u) ? iv[u] : d; if (!quiet) fprintf(stderr, "  %s = %ld\n", u.c_str(), r); return r; }
static double getR(const char *n, double d) { std::string u = uniq(n); double r = rv.count(u) ? rv[u] : d; if (!quiet) fprintf(stderr, "  %s = %.17g\n", u.c_str(), r); return r; }
static void bad(const char *m) { fprintf(stderr, "CHECK FAILED: %s\n", m); fflush(stderr); _Exit(3); }
extern "C" {
int sym_int(const char *n, int lo, int hi) { long v = getI(n, lo <= 0 && hi >= 0 ? 0 : lo); if (v < lo || v > hi) _Exit(4); return v; }
int sym_pick(const char *n, int lo, int hi) { return sym_int(n, lo, hi); }
double sym_real(const char *n, double lo, double hi) { double v = getR(n, lo <= 1 && hi >= 1 ? 1 : lo); if (!(v >= lo && v <= hi)) _Exit(4); return v; }
void sym_assume(bool b) { if (!b) { fprintf(stderr, "assumption not met\n"); _Exit(4); } }
void sym_check(bool b, const char *m) { if (!b) bad(m); }
void sym_check_close(double a, double b, const char *m) { if (a == b) return; if (!(std::fabs(a - b) <= 1e-9 * std::fmax(std::fabs(a), std::fabs(b)))) { fprintf(stderr, "  %.17g vs %.17g\n", a, b); bad(m); } }
void sym_check_either(double v, double a, double b, const char *m) { auto near = [](double x, double y) { return x == y || std::fabs(x - y) <= 1e-9 * std::fmax(std::fabs(x), std::fabs(y)); }; if (!near(v, a) && !near(v, b)) { fprintf(stderr, "  %.17g vs %.17g or %.17g\n", v, a, b); bad(m); } }
void sym_check_le(double a, double b, const char *m) { if (!(a <= b + 1e-9 * (std::fabs(a) + std::fabs(b)))) { fprintf(stderr, "  %.17g vs %.17g\n", a, b); bad(m); } }
void sym_fail(const char *m) { bad(m); }
void sym_reach(const char *) {}
void sym_note(const char *) {}
int sym_draw_count() { return draws.size(); }
double sym_draw_value(int k) { return k < 0 || k >= (int)draws.size() ? -1 : draws[k]; }
int sym_idraw_count() { return idraws.size(); }
int sym_idraw_value(int k) { return k < 0 || k >= (int)idraws.size() ? -1 : idraws[k].v; }
double sym_idraw_size(int k) { return k < 0 || k >= (int)idraws.size() ? 0 : idraws[k].n; }
static std::vector<double> nextd;
double sym_exact(double v) { return v; }
void sym_zero_draws(int) {}
void sym_next_draw(double v) { nextd.push_back(v); }
double sym_log(double x) { return std::log(x); }
void sym_done() { fflush(stderr); _Exit(0); }
void sym_dump(const char *n, double d) { printf("%s: %g\n", n, d); }
void sym_register(sym_HReg *h) { h->next = list; list = h; }
static bool streams = false; static std::unordered_map<uint64_t, double> drawn;
void sym_streams() { streams = true; }
static uint64_t genKey(void *gen, unsigned size, double a, double b) { uint64_t h = 1469598103934665603ull; unsigned char *p = (unsigned char *)gen; for (unsigned i = 0; i < size; i++) h = (h ^ p[i]) * 1099511628211ull; uint64_t n = h * 6364136223846793005ull + 1442695040888963407ull; memcpy(gen, &n, 4); uint64_t x; memcpy(&x, &a, 8); h = (h ^ x) * 1099511628211ull; memcpy(&x, &b, 8); return (h ^ x) * 1099511628211ull; }
double __sym_uniform_real(double a, double b, void *gen, unsigned size) { if (!nextd.empty()) { double v = nextd[0]; nextd.erase(nextd.begin()); draws.push_back(v); return v; } uint64_t key = 0; if (streams && size) { key = genKey(gen, size, a, b); auto it = drawn.find(key); if (it != drawn.end()) { draws.push_back(it->second); return it->second; } } double v = getR(("draw" + std::to_string(nd++)).c_str(), a + (b - a) / 2); if (key) drawn[key] = v; draws.push_back(v); return v; }
int __sym_uniform_int(int a, int b, void *gen, unsigned size) { if (a > b) { fprintf(stderr, "uniform_int_distribution with empty range\n"); abort(); } uint64_t key = 0; if (streams && size) { key = genKey(gen, size, a, b); auto it = drawn.find(key); if (it != drawn.end()) { idraws.push_back({(int)it->second, (double)b - a + 1}); return (int)it->second; } } long v = getI(("idraw" + std::to_string(nid++)).c_str(), a); if (v < a) v = a; if (v > b) v = b; if (key) drawn[key] = v; idraws.push_back({(int)v, (double)b - a + 1}); return v; }
}
int main(int argc, char **argv) {
  if (argc < 3) return 2;
  FILE *f = fopen(argv[2], "r"); if (!f) return 2;
  char line[4096];
  while (fgets(line, sizeof line, f)) {
    char n[512], v[512];
    if (sscanf(line, "int %511s %511s", n, v) == 2) iv[n] = atol(v);
    else if (sscanf(line, "real %511s %511s", n, v) == 2) rv[n] = strtod(v, 0);
  }
  fclose(f);
  for (sym_HReg *h = list; h; h = h->next) if (!strcmp(h->n, argv[1])) { h->f(); fprintf(stderr, "replay: every check held\n"); return 0; }
  fprintf(stderr, "no such harness\n"); return 2;
}
