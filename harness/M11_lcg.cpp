// SRC: src/math_physics/randomization/minimal_standard_linear_congruential_generator.cpp src/math_physics/randomization/minimal_standard_linear_congruential_generator_with_shuffle.cpp
// MODE: bits
// BOUNDS: every seed in [-2^31, 2^32) that is not a multiple of the modulus, one draw from any state; shuffled generator on 6 concrete seeds x 200 draws
#include "util.hpp"
#include <math_physics/randomization/minimal_standard_linear_congruential_generator.hpp>
#include <math_physics/randomization/minimal_standard_linear_congruential_generator_with_shuffle.hpp>
#include <stdexcept>
#include <vector>
using namespace s2e::randomization;
static const long MOD = 2147483647;
static long any_seed() {
  int half = sym_choose("range", 0, 2);
  long s = half == 0 ? sym_int("seed", 1, MOD - 1) : half == 1 ? sym_int("seed", MOD + 1, 4294967295l) : sym_int("seed", -2147483648l, -1);
  sym_assume(s != 2 * MOD && s != -MOD);
  return s;
}
static long step(long s) { long r = (16807 * s) % MOD; return r < 0 ? r + MOD : r; }
CHECK(lcg_step) {
  long s = any_seed();
  MinimalStandardLcg g(s);
  double a = g;
  long x = step(s);
  sym_assert(a > 0 && a < 1, "draw lies strictly between 0 and 1");
  sym_assert(a == (1.0 / 2147483647.0) * (double)x, "draw is the next element of the multiplicative sequence");
}
CHECK(lcg_reinitialised) {
  long s = sym_int("seed", 1, MOD - 1);
  MinimalStandardLcg g;
  g.Initialize(7);
  double a = g;
  g.Initialize(s);
  double b = g;
  (void)a;
  sym_assert(b == (1.0 / 2147483647.0) * (double)step(s), "draw after a new seed");
}
CHECK(seed_zero_is_refused) {
  bool t1 = false, t2 = false;
  try { MinimalStandardLcg g(0); } catch (const std::invalid_argument&) { t1 = true; }
  MinimalStandardLcg h(1);
  try { h.Initialize(0); } catch (const std::invalid_argument&) { t2 = true; }
  sym_assert(t1 && t2, "a zero seed, which would freeze the generator, is refused");
}
CHECK(shuffle) {
  long seeds[6] = {1, 12345, 0xdeadbeef, -77, 2147483646, 99999999};
  for (long s : seeds) {
    MinimalStandardLcgWithShuffle g(s);
    long x = s;
    double t[32], pos = 0;
    size_t p = 0;
    (void)pos;
    for (int i = 0; i < 8; i++) x = step(x);
    for (int i = 0; i < 32; i++) { x = step(x); t[i] = (1.0 / 2147483647.0) * x; }
    bool same = true, in = true;
    for (int i = 0; i < 200; i++) {
      double o = g, e = t[p];
      x = step(x);
      t[p] = (1.0 / 2147483647.0) * x;
      p = (size_t)(e * 2147483647.0) % 32;
      same &= o == e;
      in &= o > 0 && o < 1;
    }
    sym_assert(in, "shuffled draws lie in (0,1)");
    sym_assert(same, "each draw comes from the table entry chosen by the previous draw");
  }
}
