// SRC: src/math_physics/randomization/global_randomization.cpp
// MODE: bits
// BOUNDS: every draw the congruential generator can give (k/(2^31-1), k = 1 .. 2^31-2)
// OVERRIDE: MinimalStandardLcg::operator double gives a_m * k for a symbolic k (its own behaviour is decided in M11_lcg)
#include "util.hpp"
#include <math_physics/randomization/minimal_standard_linear_congruential_generator.hpp>
#include <math_physics/randomization/global_randomization.hpp>
using namespace s2e::randomization;
static const long MOD = 2147483647;
static long drawn = 1;
extern "C" double lcg_draw(MinimalStandardLcg*) __asm__("_ZN3s2e13randomization18MinimalStandardLcgcvdEv");
extern "C" double lcg_draw(MinimalStandardLcg*) { return (1.0 / 2147483647.0) * (double)drawn; }
CHECK(made_seeds_usable) {
  GlobalRandomization g;
  g.SetSeed(12345);
  drawn = sym_int("draw", 1, MOD - 1);
  long k = g.MakeSeed();
  sym_assert(k != 0, "generated seed is not zero");
  sym_assert(k != MOD && k != -MOD, "generated seed does not freeze the generator");
  sym_assert(k > -2 * MOD && k < 2 * MOD, "generated seed is in the supported range");
}
CHECK(draws_spread_to_seeds) {
  GlobalRandomization g;
  drawn = sym_int("draw", 1, MOD - 1);
  long k = g.MakeSeed();
  sym_assert(drawn < 1073741823 ? k < 0 : true, "lower half of the draws gives the negative seeds");
  sym_assert(drawn > 1073741824 ? k > 0 : true, "upper half of the draws gives the positive seeds");
}
