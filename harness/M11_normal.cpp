// SRC: src/math_physics/randomization/normal_randomization.cpp src/math_physics/randomization/global_randomization.cpp src/math_physics/randomization/minimal_standard_linear_congruential_generator.cpp
// MODE: real
// BOUNDS: every accepted pair of uniform draws, up to 2 rejected pairs before it; mean in [-10,10], standard deviation in [0,10]; random walk state and limit in [-5,5]
// OVERRIDE: MinimalStandardLcgWithShuffle::operator double gives symbolic draws in (0,1) (its own behaviour is decided in M11_lcg)
#include "util.hpp"
#include <cmath>
#include <math_physics/randomization/normal_randomization.hpp>
#include <math_physics/randomization/random_walk.hpp>
using namespace s2e::randomization;
using namespace s2e::math;
static double draws[16];
static int n_draw = 0;
extern "C" double shuffled_draw(MinimalStandardLcgWithShuffle*) __asm__("_ZN3s2e13randomization29MinimalStandardLcgWithShufflecvdEv");
extern "C" double shuffled_draw(MinimalStandardLcgWithShuffle*) { return draws[n_draw++]; }
static void put_draws(int rejected) {
  n_draw = 0;
  int n = 0;
  for (int i = 0; i < rejected; i++) {
    if (i % 2) { draws[n++] = 0.5; draws[n++] = 0.5; }
    else { draws[n++] = 0.9375; draws[n++] = 0.0625; }
  }
  double a = sym_double("u1", 0.001, 0.999), b = sym_double("u2", 0.001, 0.999);
  double r = (2 * a - 1) * (2 * a - 1) + (2 * b - 1) * (2 * b - 1);
  sym_assume(r >= 1e-6 && r <= 0.999);
  draws[n++] = a;
  draws[n++] = b;
}
CHECK(box_muller) {
  int rejected = sym_choose("rejected", 0, 2);
  put_draws(rejected);
  double v1 = 2 * draws[2 * rejected] - 1, v2 = 2 * draws[2 * rejected + 1] - 1, rsq = v1 * v1 + v2 * v2;
  NormalRand g;
  double first = g, second = g;
  sym_assert(n_draw == 2 * rejected + 2, "two values per accepted pair of draws, rejected pairs are drawn again");
  double want = -2.0 * std::log(rsq);
  sym_assert_close(first * first + second * second, want, 1e-9, "squared radius is exponentially distributed: -2 ln r^2");
  sym_assert_close(first * v1, second * v2, 1e-9, "direction is that of the accepted point");
  sym_assert(first * v2 >= 0 && second * v1 >= 0, "signs follow the accepted point");
}
CHECK(mean_and_deviation) {
  put_draws(0);
  double v1 = 2 * draws[0] - 1, v2 = 2 * draws[1] - 1, rsq = v1 * v1 + v2 * v2;
  double fac = std::sqrt(-2.0 * std::log(rsq) / rsq);
  double mean = sym_double("mean", -10, 10), sd = sym_double("sd", 0, 10);
  int how = sym_choose("how", 0, 3);
  NormalRand a(mean, sd), b(mean, sd, 77), c, d;
  c.SetParameters(mean, sd);
  d.SetParameters(mean, sd, 99);
  NormalRand& g = how == 0 ? a : how == 1 ? b : how == 2 ? c : d;
  sym_assert_close(g.GetAverage(), mean, 1e-9, "mean is kept");
  sym_assert_close(g.GetStandardDeviation(), sd, 1e-9, "deviation is kept");
  double first = g, second = g;
  sym_assert_close(first, mean + sd * v2 * fac, 1e-9, "first value is mean + deviation * standard normal");
  sym_assert_close(second, mean + sd * v1 * fac, 1e-9, "second value is mean + deviation * standard normal");
}
CHECK(parameters_changed_between_draws) {
  put_draws(0);
  double v1 = 2 * draws[0] - 1, v2 = 2 * draws[1] - 1, rsq = v1 * v1 + v2 * v2;
  double fac = std::sqrt(-2.0 * std::log(rsq) / rsq);
  NormalRand g(1.0, 2.0);
  double first = g;
  (void)first;
  double mean = sym_double("mean", -10, 10), sd = sym_double("sd", 0, 10);
  g.SetAverage(mean);
  g.SetStandardDeviation(sd);
  double second = g;
  sym_assert_close(second, mean + sd * v1 * fac, 1e-9, "held value is scaled with the current mean and deviation");
}
CHECK(random_walk) {
  Vector<3> sd, lim, st, rhs;
  double s[3];
  for (int i = 0; i < 3; i++) {
    sd[i] = s[i] = 0.5 + i;
    lim[i] = sym_double("limit", 0, 5);
    st[i] = sym_double("state", -5, 5);
  }
  n_draw = 0;
  double n[3];
  const double uv[6] = {0.25, 0.625, 0.75, 0.375, 0.125, 0.4375};
  int flip = sym_choose("flip", 0, 1);
  for (int i = 0; i < 6; i++) draws[i] = flip ? 1 - uv[i] : uv[i];
  for (int i = 0; i < 3; i++) {
    double v1 = 2 * draws[2 * i] - 1, v2 = 2 * draws[2 * i + 1] - 1, r = v1 * v1 + v2 * v2;
    n[i] = v2 * std::sqrt(-2.0 * std::log(r) / r) * s[i];
  }
  RandomWalk<3> w(0.1, sd, lim);
  w.DerivativeFunction(0.0, st, rhs);
  for (int i = 0; i < 3; i++) {
    sym_assert_close(rhs[i] * rhs[i], n[i] * n[i], 1e-9, "walk is excited by its own noise, with its own deviation");
    if (st[i] > lim[i]) sym_assert(rhs[i] <= 0, "walk above the limit is pushed down");
    else if (st[i] < -lim[i]) sym_assert(rhs[i] >= 0, "walk below the limit is pushed up");
    else sym_assert_close(rhs[i], n[i], 1e-9, "free walk inside the limit");
  }
}
