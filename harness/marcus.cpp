// Marcus hopping rate.
#include "sym.h"
#include "mythical/charge_transport/marcus.hpp"
#include "mythical/constants.hpp"
#include <cmath>
using namespace mythical::charge_transport;
// physical constants written out here: the oracle does not take them from the code under test
static const double KB = 8.617333262145e-5, HBAR = 6.582119569e-16, PI_ = 3.14159265358979323846;
#define RANGES "reorganisation energy [0.01,10] eV, temperature [10,5000] K, energies [-10,10] eV, coupling magnitude [1e-6,10] eV: every real in these ranges for which the activation exponent is below 600 (no underflow)"
#define LAMBDA(n) sym_real(n, 0.01, 10)
#define TEMP(n) sym_real(n, 10, 5000)
#define ENERGY(n) sym_real(n, -10, 10)
// the activation exponent (lambda+dG)^2/(4 lambda kB T) stays below 600
static void noUnderflow(double l, double T, double dG) { sym_assume((l + dG) * (l + dG) <= 600 * 4 * l * KB * T); }

HARNESS(C08_detailed_balance) {
  sym_note(RANGES);
  double l = LAMBDA("lambda"), T = TEMP("T"), a = ENERGY("Ei"), b = ENERGY("Ej"), h = sym_real("H", 1e-6, 10);
  noUnderflow(l, T, b - a); noUnderflow(l, T, a - b);
  Marcus m(l, T);
  double f = m.getRate(a, b, h), r = m.getRate(b, a, h);
  sym_check_close(f, r * std::exp(-(b - a) / (KB * T)), "forward/backward ratio is the Boltzmann factor of the energy difference");
  sym_reach("end");
}
HARNESS(C08_coupling) {
  double l = LAMBDA("lambda"), T = TEMP("T"), a = ENERGY("Ei"), b = ENERGY("Ej"), h = sym_real("H", 1e-6, 10), k = sym_real("k", 0.1, 10);
  noUnderflow(l, T, b - a);
  Marcus m(l, T);
  double f = m.getRate(a, b, h);
  sym_check(f > 0, "the rate is positive");
  sym_check_close(m.getRate(a, b, k * h), k * k * f, "the rate is quadratic in the coupling");
  sym_check_close(m.getRate(a, b, -h), f, "the sign of the coupling does not matter");
  sym_check(m.getRate(a, b, 0.0) == 0, "no coupling, no rate");
  sym_reach("end");
}
HARNESS(C08_energy_shift) {
  double l = LAMBDA("lambda"), T = TEMP("T"), a = ENERGY("Ei"), b = ENERGY("Ej"), h = sym_real("H", 1e-6, 10), s = sym_real("shift", -5, 5);
  noUnderflow(l, T, b - a);
  Marcus m(l, T);
  sym_check_close(m.getRate(a + s, b + s, h), m.getRate(a, b, h), "only the energy difference matters");
  sym_reach("end");
}
HARNESS(C08_optimum) {
  double l = LAMBDA("lambda"), T = TEMP("T"), a = ENERGY("Ei"), d = ENERGY("d"), h = sym_real("H", 1e-6, 10);
  noUnderflow(l, T, d - l);
  Marcus m(l, T);
  double top = m.getRate(a, a - l, h);
  sym_check_le(m.getRate(a, a - l + d, h), top, "the rate is largest when the energy drop equals the reorganisation energy");
  sym_check_close(m.getRate(a, a - l + d, h), m.getRate(a, a - l - d, h), "the rate is symmetric around its maximum");
  sym_check_close(top, m.getRate(0.0, -l, h), "the largest rate does not depend on where the energies lie");
  sym_reach("end");
}
HARNESS(C08_objects) {
  double l = LAMBDA("lambda"), T = TEMP("T"), l2 = LAMBDA("lambda2"), T2 = TEMP("T2"), a = ENERGY("Ei"), b = ENERGY("Ej");
  noUnderflow(l, T, b - a);
  Marcus m(l, T); double before = m.getRate(a, b, 0.5);
  Marcus n(l2, T2); n.getRate(b, a, 0.25);
  sym_check_close(m.getRate(a, b, 0.5), before, "a calculator keeps its own parameters");
  Marcus k(m); sym_check_close(k.getRate(a, b, 0.5), before, "a copied calculator gives the same rate");
  sym_reach("end");
}
// documented prefactor 2 pi/hbar |H|^2 / sqrt(4 pi kB T): compared up to the 1e-6 accuracy of the stored constants
HARNESS(C09_value) {
  sym_note(RANGES "; constants compared to a relative 1e-6");
  double l = LAMBDA("lambda"), T = TEMP("T"), a = ENERGY("Ei"), b = ENERGY("Ej"), h = sym_real("H", 1e-6, 10);
  noUnderflow(l, T, b - a);
  Marcus m(l, T); double f = m.getRate(a, b, h), e = std::exp(-(l + b - a) * (l + b - a) / (4.0 * l * KB * T));
  double c = 2 * PI_ / HBAR / std::sqrt(4 * PI_ * KB) , ref = c * h * h * e / std::sqrt(T);
  sym_check_le(f, ref * (1 + 1e-6), "the rate is not above the Marcus expression");
  sym_check_le(ref * (1 - 1e-6), f, "the rate is not below the Marcus expression");
  sym_reach("end");
}
HARNESS(C09_temperature) {
  double l = LAMBDA("lambda"), T = TEMP("T"), h = sym_real("H", 1e-6, 10);
  // at the optimum the exponential is one: only the prefactor is left, and rate^2 * T is a constant of nature times H^4
  Marcus m(l, T); double f = m.getRate(0.0, -l, h); double c = 2 * PI_ / HBAR; double q = c * c / (4 * PI_ * KB) * h * h * h * h;
  sym_check_le(f * f * T, q * (1 + 1e-6), "prefactor follows the inverse square root of the temperature (upper)");
  sym_check_le(q * (1 - 1e-6), f * f * T, "prefactor follows the inverse square root of the temperature (lower)");
  sym_reach("end");
}
