// SRC: src/dynamics/orbit/time_series_file_orbit_propagation.cpp src/dynamics/orbit/orbit.cpp src/math_physics/orbit/interpolation_orbit.cpp src/math_physics/math/interpolation.cpp
// MODE: real
// BOUNDS: a file of 6 unequally spaced records of arbitrary cubic (or lower) motion, 2 to 4 interpolation points, arbitrary start date and two later dates
// STUBS: ECEF to geodetic conversion (M08), CSV reader
// OPT: max_paths=6000
#include "orb.hpp"
#include "ini.hpp"
#include <dynamics/orbit/time_series_file_orbit_propagation.hpp>
using namespace s2e;
using namespace s2e::dynamics::orbit;
using math::Vector;
namespace s2e::geodesy {
GeodeticPosition::GeodeticPosition() { latitude_rad_ = longitude_rad_ = altitude_m_ = 0; }
void GeodeticPosition::UpdateFromEcef(const Vector<3>) { altitude_m_ = 1000.0; }
}  // namespace s2e::geodesy
static std::vector<std::vector<double>> g_file;
namespace s2e::setting_file_reader {
void IniAccess::ReadCsvDoubleWithHeader(std::vector<std::vector<double>>& v, const size_t n, const size_t r, const size_t c) {
  sym_assert(n == 7 && r == 1 && c == 0, "layout of the file");
  v = g_file;
}
}  // namespace s2e::setting_file_reader
static const double T[6] = {0, 60, 120, 210, 240, 300}, T0 = 691200.0;
static double g_c[6][4];
static int g_n;
static double poly(int k, double t) {
  double r = 0, s = t / 64, q = 1;
  for (int i = 0; i < g_n; i++) { r += g_c[k][i] * q; q *= s; }
  return r;
}
static void expect(const Orbit& o, double jd, const char* l) {
  double t = (jd - 2451545.0) * 86400.0 - T0;
  if (t < 0) t = 0;        // before the file: its first record
  if (t > 300) t = 300;    // behind the file: its last record
  for (int k = 0; k < 3; k++) {
    sym_assert_close(o.GetPosition_i_m()[k], poly(k, t), 1e-6, l);
    sym_assert_close(o.GetVelocity_i_m_s()[k], poly(3 + k, t), 1e-6, l);
    sym_assert_close(o.GetPosition_ecef_m()[k], poly(k, t), 1e-6, l);
  }
}
static void make(int n) {
  g_n = n;
  for (int k = 0; k < 6; k++)
    for (int i = 0; i < n; i++) g_c[k][i] = (k == 1 || k == 5) ? sym_double("c", -4, 4) : 0.25 * (k + 1) * (i % 2 ? -1 : 1);
  g_file.clear();
  for (int j = 0; j < 6; j++) {
    std::vector<double> r{T0 + T[j]};
    for (int k = 0; k < 6; k++) r.push_back(poly(k, T[j]));
    g_file.push_back(r);
  }
}
static void run(int n) {
  orbenv::World w;
  make(n);
  const double j0 = 2451545.0 + 8.0, s = 0.0000152587890625;  // 2^-16 days
  double d0 = sym_double("start", -50, 300), d1 = sym_double("wait", 0, 300), d2 = sym_double("wait 2", 0, 300);
  TimeSeriesFileOrbitPropagation o(w.gc.get(), "", n, sym_choose("method", 0, 1) * 2, 6000.0, j0 + d0 * s);
  sym_assert(!o.GetIsCalcEnabled(), "disabled until it is switched on");
  expect(o, j0 + d0 * s, "initial state");
  o.Propagate(1.0, j0 + (d0 + d1) * s);
  expect(o, j0 + d0 * s, "disabled");
  o.SetIsCalcEnabled(true);
  o.Propagate(1.0, j0 + (d0 + d1) * s);
  expect(o, j0 + (d0 + d1) * s, "state at the date");
  o.Propagate(2.0, j0 + (d0 + d1 + d2) * s);
  expect(o, j0 + (d0 + d1 + d2) * s, "state at a later date");
}
CHECK(follows_the_file_2) { run(2); }
CHECK(follows_the_file_4) { run(4); }
CHECK(follows_the_file_3) { run(3); }
// every record is met exactly with the trigonometric method
CHECK(trigonometric) {
  orbenv::World w;
  make(3);
  const double j0 = 2451545.0 + 8.0;
  int k = sym_choose("record", 0, 5);
  TimeSeriesFileOrbitPropagation o(w.gc.get(), "", 3, 1, 6000.0, j0);
  o.SetIsCalcEnabled(true);
  o.Propagate(1.0, j0 + T[k] / 86400.0);
  expect(o, j0 + T[k] / 86400.0, "record");
}
