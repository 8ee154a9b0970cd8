// normal random numbers replaced by arbitrary values: average + standard deviation * draw, draws recorded in order
#pragma once
#include <math_physics/randomization/normal_randomization.hpp>
static double g_draw[256];
static int g_draws = 0;
static double g_draw_max = 3.0;
extern "C" double vu_normal(s2e::randomization::NormalRand*) __asm__("_ZN3s2e13randomization10NormalRandcvdEv");
extern "C" double vu_normal(s2e::randomization::NormalRand* o) {
  if (o->GetStandardDeviation() == 0.0) return o->GetAverage();
  double d = sym_double("draw", -g_draw_max, g_draw_max);
  g_draw[g_draws++] = d;
  return o->GetAverage() + o->GetStandardDeviation() * d;
}
