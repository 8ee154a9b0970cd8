// SRC: src/math_physics/orbit/sgp4/sgp4unit.cpp src/math_physics/orbit/sgp4/sgp4ext.cpp
// MODE: real
// BOUNDS: Julian dates within 9 days of 8 epochs between 1950 and 2100
// OPT: real_ints=40
#include "util.hpp"
#include <math_physics/orbit/sgp4/sgp4unit.h>
static const double TWO_PI = 6.28318530717958647692;
CHECK(sidereal_time) {
  const double base[8] = {2433282.5, 2451545.0, 2451179.5, 2459000.5, 2460310.5, 2469807.5, 2488000.25, 2447892.0};
  double b = base[sym_choose("epoch", 0, 7)], jd = sym_double("jd", b - 9, b + 9);
  double g = gstime(jd);
  sym_assert(g >= -1e-9 && g < 6.2832, "sidereal angle lies in [0, 2 pi)");
  double T = (jd - 2451545.0) / 36525.0;
  double sec = 67310.54841 + T * (3155760000.0 + 8640184.812866) - 0.0000062 * T * T * T + 0.093104 * T * T;
  double want = sec / 86400.0;  // turns
  double turns = want - g / TWO_PI;
  double k = std::floor(turns + 0.5);
  sym_assert_close(turns, k, 1e-7, "sidereal angle is that of the date up to whole turns");
}
