// SRC: src/math_physics/atmosphere/simple_air_density_model.cpp src/math_physics/atmosphere/harris_priester_model.cpp src/math_physics/geodesy/geodetic_position.cpp
// MODE: real
// BOUNDS: altitudes in [-10, 2000] km (every layer of both tables), every longitude and Sun direction at 4 latitudes and 3 altitudes, exponent 2, 4 and 6
// OPT: real_ints=40
#include "util.hpp"
#include <math_physics/atmosphere/simple_air_density_model.hpp>
#include <math_physics/atmosphere/harris_priester_model.hpp>
#include <math_physics/atmosphere/harris_priester_coefficients.hpp>
using namespace s2e;
using geodesy::GeodeticPosition;
using math::Vector;
// base altitude [km], nominal density [kg/m3], scale height [km] (Vallado, exponential atmosphere)
static const double T[28][3] = {{0, 1.225, 7.249}, {25, 3.899e-2, 6.349}, {30, 1.774e-2, 6.682}, {40, 3.972e-3, 7.554}, {50, 1.057e-3, 8.382}, {60, 3.206e-4, 7.714}, {70, 8.770e-5, 6.549},
  {80, 1.905e-5, 5.799}, {90, 3.396e-6, 5.382}, {100, 5.297e-7, 5.877}, {110, 9.661e-8, 7.263}, {120, 2.438e-8, 9.473}, {130, 8.484e-9, 12.636}, {140, 3.845e-9, 16.149}, {150, 2.070e-9, 22.523},
  {180, 5.464e-10, 29.740}, {200, 2.789e-10, 37.105}, {250, 7.248e-11, 45.546}, {300, 2.418e-11, 53.628}, {350, 9.518e-12, 53.298}, {400, 3.725e-12, 58.515}, {450, 1.585e-12, 60.828},
  {500, 6.967e-13, 63.822}, {600, 1.454e-13, 71.835}, {700, 3.614e-14, 88.667}, {800, 1.170e-14, 124.64}, {900, 5.245e-15, 181.05}, {1000, 3.019e-15, 268.0}};
CHECK(exponential_layers) {
  int i = sym_choose("layer", 0, 27);
  double alt = sym_double("altitude", T[i][0] * 1000, i == 27 ? 2e6 : T[i + 1][0] * 1000);
  if (i < 27) sym_assume(alt < T[i + 1][0] * 1000);
  double rho = atmosphere::CalcAirDensityWithSimpleModel(alt);
  sym_assert(rho > 0, "density is positive");
  sym_assert_close(rho / T[i][1], std::exp(-(alt / 1000 - T[i][0]) / T[i][2]), 1e-12, "density decays exponentially from the base of the layer");
}
CHECK(below_ground) {
  double alt = sym_double("altitude", -1e4, -0.001);
  sym_assert_close(atmosphere::CalcAirDensityWithSimpleModel(alt), 0, 0, "no atmosphere below the surface");
}
// density does not grow and does not jump by more than 15 % across a layer boundary
CHECK(layer_boundaries) {
  int i = sym_choose("boundary", 1, 27);
  double h = T[i][0] * 1000, a = atmosphere::CalcAirDensityWithSimpleModel(h - 0.01), b = atmosphere::CalcAirDensityWithSimpleModel(h), c = atmosphere::CalcAirDensityWithSimpleModel(h + 0.01);
  sym_assert(a > b * 0.998 && a < b * 1.15, "density joins from below");
  sym_assert(c < b && c > b * 0.999, "density joins from above");
}
static double tab(bool max, int i, bool height) {
  auto& t = max ? atmosphere::harris_priester_max_density_table : atmosphere::harris_priester_min_density_table;
  auto it = t.begin();
  for (int k = 0; k < i; k++) ++it;
  return height ? it->first : it->second;
}
static Vector<3> sun_dir() { return vu::unit_vec("sun"); }
static void inside(int i, int n, double lat, double lon, double alt, const Vector<3>& s) {
  double h1 = tab(false, i, true), h2 = tab(false, i + 1, true);
  GeodeticPosition g(lat, lon, alt);
  Vector<3> p = g.CalcEcefPosition();
  double d = atmosphere::CalcAirDensityWithHarrisPriester_kg_m3(g, s, 150.0, n);
  const double c30 = std::cos(0.52359877559829887), s30 = std::sin(0.52359877559829887);
  double apex[3] = {c30 * s[0] - s30 * s[1], s30 * s[0] + c30 * s[1], s[2]};
  double r = std::sqrt(p[0] * p[0] + p[1] * p[1] + p[2] * p[2]);
  double c2 = 0.5 + (p[0] * apex[0] + p[1] * apex[1] + p[2] * apex[2]) / r / 2;  // cos^2 of half the angle to the bulge
  double f = c2;
  for (int k = 1; k < n / 2; k++) f *= c2;
  double v[2];
  for (int k = 0; k < 2; k++) {
    double d1 = tab(k, i, false), d2 = tab(k, i + 1, false);
    v[k] = d1 * std::exp((h1 - alt / 1000) / ((h1 - h2) / std::log(d2 / d1)));
  }
  double scale = 1e12 / tab(true, i, false);
  sym_assert_close(d * scale, (v[0] + (v[1] - v[0]) * f) * (1e12 * 1e-12) / tab(true, i, false), 1e-9, "density swings between the night and day profiles with the angle to the diurnal bulge");
}
CHECK(harris_priester_layers) {
  int i = sym_choose("layer", 0, 48);
  double h1 = tab(false, i, true), h2 = tab(false, i + 1, true), alt = sym_double("altitude", h1 * 1000, h2 * 1000);
  sym_assume(alt < h2 * 1000);
  Vector<3> s;
  s[0] = -0.36; s[1] = 0.48; s[2] = 0.8;
  inside(i, 4, 0.4, 2.5, alt, s);
}
CHECK(harris_priester_bulge) {
  int i = sym_choose("layer", 10, 12), n = 2 * sym_choose("half exponent", 1, 3);
  const double lats[4] = {-1.2, -0.3, 0.0, 1.45};
  double lat = lats[sym_choose("latitude", 0, 3)], lon = sym_double("lon", -7, 7);
  Vector<3> s = sun_dir();
  sym_assume(s[0] * s[0] + s[1] * s[1] > 0.01);
  inside(i, n, lat, lon, tab(false, i, true) * 1000 + 2500, s);
}
CHECK(harris_priester_nodes) {
  int i = sym_choose("node", 0, 48);
  double lon = sym_double("lon", -3, 3), h = tab(false, i, true);
  GeodeticPosition g(0.0, lon, h * 1000);
  Vector<3> s(0.0);
  s[0] = 1;
  double d = atmosphere::CalcAirDensityWithHarrisPriester_kg_m3(g, s, 150.0, 2.0), lo = tab(false, i, false) * 1e-12, hi = tab(true, i, false) * 1e-12;
  double c2 = 0.5 + 0.5 * std::cos(lon - 0.52359877559829887);
  sym_assert_close(d / hi, (lo + (hi - lo) * c2) / hi, 1e-9, "tabulated values at tabulated altitudes");
  sym_assert(d <= hi * 1.0000001 && d >= lo * 0.9999999, "between the night and day tables");
}
CHECK(harris_priester_outside) {
  int above = sym_choose("above", 0, 1);
  double alt = above ? sym_double("altitude", 1e6, 2e6) : sym_double("altitude", 0, 99999);
  GeodeticPosition g(0.3, 0.2, alt);
  double d = atmosphere::CalcAirDensityWithHarrisPriester_kg_m3(g, sun_dir(), 150.0, 4.0);
  if (above) sym_assert(d >= 0 && d <= 0.01810e-12, "above the table the density stays within its last row");
  else sym_assert_close(d / 497400e-12, 1, 1e-6, "below the table the density is that of its first row");
}
