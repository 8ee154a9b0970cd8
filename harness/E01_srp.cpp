// SRC: src/environment/local/solar_radiation_pressure_environment.cpp
// MODE: real
// BOUNDS: the sun 0.05 to 40 au away along each axis (any apparent radius up to 0.5 rad), up to two shadow sources 1000 km to 10 million km away, any apparent radius up to 1.4 rad and any angle to the sun
// ASSUME: a shadow source is not exactly as large as the sun and exactly in front of it
// STUBS: body positions (E03), INI file access
#include "ini.hpp"
#include "open.hpp"
#include "util.hpp"
#include <math_physics/math/constants.hpp>
#include <algorithm>
#include <cmath>
#include <cstring>
#include <environment/local/solar_radiation_pressure_environment.hpp>
using namespace s2e;
using namespace s2e::environment;
using SRP = SolarRadiationPressureEnvironment;
static math::Vector<3> g_pos[4];  // sun, earth, moon, mars seen from the spacecraft
static int body(const char* n) { return !strcmp(n, "SUN") ? 0 : !strcmp(n, "EARTH") ? 1 : !strcmp(n, "MOON") ? 2 : 3; }
namespace s2e::environment {
int CelestialInformation::CalcBodyIdFromName(const char* n) const { return body(n); }
math::Vector<3> LocalCelestialInformation::GetPositionFromSpacecraft_i_m(const char* n) const { return g_pos[body(n)]; }
}  // namespace s2e::environment
static int g_third;
static bool g_calc, g_log;
namespace s2e::setting_file_reader {
bool IniAccess::ReadEnable(const char*, const char* key) { return !strcmp(key, "calculation") ? g_calc : g_log; }
int IniAccess::ReadInt(const char*, const char*) { return g_third; }
std::vector<std::string> IniAccess::ReadVectorString(const char*, const char*, const size_t n) {
  std::vector<std::string> v;
  if (n > 0) v.push_back("MOON");
  if (n > 1) v.push_back("MARS");
  return v;
}
}  // namespace s2e::setting_file_reader
struct World {
  Raw<LocalCelestialInformation> lc;
  Raw<CelestialInformation> gc;
  double radius[4];
  World(const char* center, int bodies) {
    lc->global_celestial_information_ = gc.get();
    gc->celestial_body_mean_radius_m_ = radius;
    new (&gc->center_body_name_) std::string(center);
    gc->number_of_selected_bodies_ = 4;
    const char* nm[4] = {"sun", "earth", "moon", "mars"};
    int ax = sym_choose("axis", 0, 2);
    ds = sym_double("sun_au", 0.05, 40) * 149597870700.0;
    a = sym_double("sun_apparent_radius", 0.0001, 0.5);
    radius[0] = ds * std::sin(a);
    g_pos[0][ax] = ds;
    for (int b = 1; b <= bodies; b++) {
      double d = sym_double(nm[b], 1e6, 1e10);
      std::string n = std::string(nm[b]) + "_apparent_radius", m = std::string(nm[b]) + "_deviation";
      o[b] = sym_double(n.c_str(), 0.0001, 1.4);
      c[b] = sym_double(m.c_str(), 0, 3.14);
      radius[b] = d * std::sin(o[b]);
      g_pos[b][ax] = d * std::cos(c[b]);
      g_pos[b][(ax + b) % 3] = d * std::sin(c[b]);
    }
  }
  double ds, a, o[4], c[4];
  // part of the solar disk that stays visible beside body b (Montenbruck and Gill 3.4.2)
  double visible(int b) {
    double o = this->o[b], c = this->c[b];
    sym_assume(c > 0 || a != o);
    if (c > a + o) return 1;
    if (o >= a && c < o - a) return 0;
    if (a > o && c < a - o) return 1 - o * o / (a * a);
    double x = (c * c + a * a - o * o) / (2 * c);
    double q = a * a - x * x;
    double y = q > 0 ? std::sqrt(q) : 0.0;
    double hidden = a * a * std::acos(x / a) + o * o * std::acos((c - x) / o) - c * y;
    return 1 - hidden / (math::pi * a * a);
  }
  double pressure() {
    double au = 149597870700.0;
    return 1366.0 / 299792458.0 * (au / ds) * (au / ds);
  }
  void expect(SRP& e, double k) {
    sym_assert_close(e.GetShadowCoefficient(), k, 1e-9, "product of the visible parts of the solar disk");
    sym_assert_close(e.GetPressureWithoutEclipse_Nm2(), pressure(), 1e-12, "pressure falls with the squared distance");
    sym_assert_close(e.GetPressure_N_m2(), e.GetPressureWithoutEclipse_Nm2() * e.GetShadowCoefficient(), 1e-12, "pressure in the shadow");
    sym_assert_close(e.GetPowerDensity_W_m2(), e.GetPressure_N_m2() * 299792458.0, 1e-6, "power density");
    sym_assert(e.GetIsEclipsed() == (e.GetShadowCoefficient() < 1.0), "eclipse flag");
  }
};
CHECK(one_source) {
  World w("EARTH", 1);
  SRP e(w.lc.get());
  e.UpdateAllStates();
  w.expect(e, w.visible(1));
}
// every source takes its part of the sunlight, nothing is kept from the step before
CHECK(two_sources) {
  World w("EARTH", 2);
  SRP e(w.lc.get());
  e.AddShadowSource("MOON");
  e.shadow_coefficient_ = 0.25;
  e.UpdateAllStates();
  w.expect(e, w.visible(1) * w.visible(2));
}
CHECK(orbit_around_the_sun) {
  World w("SUN", 0);
  SRP e(w.lc.get());
  e.UpdateAllStates();
  w.expect(e, 1.0);
}
CHECK(disabled_keeps_its_values) {
  World w("EARTH", 1);
  SRP e(w.lc.get());
  e.IsCalcEnabled = false;
  double p = e.GetPressureWithoutEclipse_Nm2();
  e.UpdateAllStates();
  sym_assert(e.GetShadowCoefficient() == 1.0 && e.GetPressureWithoutEclipse_Nm2() == p, "no calculation");
  sym_assert_close(p, 1366.0 / 299792458.0, 1e-12, "initial pressure");
}
CHECK(settings) {
  World w("EARTH", 0);
  g_third = sym_choose("third_sources", 0, 2);
  g_calc = sym_choose("calculation", 0, 1);
  g_log = sym_choose("log", 0, 1);
  SRP e = InitSolarRadiationPressureEnvironment("", w.lc.get());
  sym_assert(e.IsCalcEnabled == g_calc && e.is_log_enabled_ == g_log, "flags");
  sym_assert((int)e.shadow_source_name_list_.size() == 1 + g_third, "number of sources");
  sym_assert(e.shadow_source_name_list_[0] == "EARTH", "center body");
  if (g_third > 0) sym_assert(e.shadow_source_name_list_[1] == "MOON", "first source");
  if (g_third > 1) sym_assert(e.shadow_source_name_list_[2] == "MARS", "second source");
  sym_assert(e.sun_radius_m_ == w.radius[0], "sun radius");
}
