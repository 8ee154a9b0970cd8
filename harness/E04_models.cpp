// SRC: src/environment/local/atmosphere.cpp src/environment/local/earth_albedo.cpp src/environment/local/earth_infrared.cpp src/environment/local/geomagnetic_field.cpp
// MODE: real
// BOUNDS: any model output, position, sun direction, Earth rotation, solar activity, noise draw, flux and temperature in the boxes; two magnetic environments over three updates
// STUBS: density models (M10), NRLMSISE-00 and IGRF (recorded arguments, arbitrary results), INI file access; normal random numbers replaced by arbitrary values
// OVERRIDE: normal random numbers are arbitrary values around the average
#include "ini.hpp"
#include "open.hpp"
#include "noise.hpp"
#include "util.hpp"
#include <cstring>
#include <dynamics/orbit/orbit.hpp>
#include <environment/local/atmosphere.hpp>
#include <environment/local/earth_albedo.hpp>
#include <environment/local/earth_infrared.hpp>
#include <environment/local/geomagnetic_field.hpp>
#include <math_physics/geomagnetic/igrf.h>
#include <math_physics/atmosphere/harris_priester_model.hpp>
#include <math_physics/atmosphere/simple_air_density_model.hpp>
using namespace s2e;
using namespace s2e::environment;
using geodesy::GeodeticPosition;
using math::Matrix;
using math::Vector;
static double g_rho, g_alt, g_args[8], g_sun[3], g_igrf[3], g_iargs[5];
static int g_simple, g_hp, g_nrl, g_table_ok, g_size = -1;
static bool g_manual;
static double g_table_args[2];
namespace s2e::geodesy {
GeodeticPosition::GeodeticPosition() { latitude_rad_ = longitude_rad_ = altitude_m_ = 0; }
}  // namespace s2e::geodesy
namespace s2e::atmosphere {
double CalcAirDensityWithSimpleModel(const double a) { g_simple++; g_alt = a; return g_rho; }
double CalcAirDensityWithHarrisPriester_kg_m3(const GeodeticPosition p, const Vector<3> s, const double, const double) {
  g_hp++;
  g_alt = p.GetAltitude_m();
  for (int i = 0; i < 3; i++) g_sun[i] = s[i];
  return g_rho;
}
double CalcNRLMSISE00(double y, double lat, double lon, double alt, const std::vector<nrlmsise_table>& t, bool m, double f, double fa, double ap) {
  g_nrl++;
  double a[7] = {y, lat, lon, alt, f, fa, ap};
  for (int i = 0; i < 7; i++) g_args[i] = a[i];
  g_manual = m;
  return g_rho;
}
size_t GetSpaceWeatherTable_(double y, double end, const std::string&, std::vector<nrlmsise_table>& t) {
  g_table_args[0] = y;
  g_table_args[1] = end;
  return g_table_ok;
}
}  // namespace s2e::atmosphere
void IgrfCalc(double y, double lat, double lon, double alt, double side, double* mag) {
  double a[5] = {y, lat, lon, alt, side};
  for (int i = 0; i < 5; i++) g_iargs[i] = a[i];
  for (int i = 0; i < 3; i++) mag[i] = g_igrf[i];
}
void set_file_path(const char*) {}
namespace s2e::environment {
int CelestialInformation::CalcBodyIdFromName(const char* n) const { return !strcmp(n, "SUN") ? 0 : 1; }
}  // namespace s2e::environment
static double g_sun_m[6];
struct World {
  Raw<LocalCelestialInformation> lc;
  Raw<CelestialInformation> gc;
  Raw<EarthRotation> er;
  Raw<SimulationTime> t;
  Raw<dynamics::orbit::Orbit> orbit;
  World() {
    lc->global_celestial_information_ = gc.get();
    gc->earth_rotation_ = er.get();
    gc->number_of_selected_bodies_ = 2;
    gc->celestial_body_position_from_center_i_m_ = g_sun_m;
    t->current_decyear_ = 2020.5;
    t->end_sec_ = 3600;
    GeodeticPosition& p = orbit->spacecraft_geodetic_position_;
    p.latitude_rad_ = sym_double("latitude", -1.5, 1.5);
    p.longitude_rad_ = sym_double("longitude", -3, 3);
    p.altitude_m_ = sym_double("altitude", 1e5, 2e6);
    g_rho = sym_double("density", 0.001, 10);
  }
  const dynamics::orbit::Orbit& o() { return *orbit.get(); }
  const GeodeticPosition& p() { return orbit->spacecraft_geodetic_position_; }
};
// the density used by the disturbances and the log is the one returned: model density with its relative noise
CHECK(density) {
  World w;
  const char* models[4] = {"STANDARD", "NRLMSISE00", "HARRIS_PRIESTER", "NOTHING"};
  int m = sym_choose("model", 0, 3), manual = sym_choose("manual", 0, 1);
  g_table_ok = sym_choose("table", 0, 1);
  double rate = sym_double("noise_rate", 0, 0.5), f = sym_double("f107", 50, 300), fa = sym_double("f107a", 50, 300), ap = sym_double("ap", 0, 50), y = sym_double("year", 2000, 2050);
  double u[3];
  sym_unit("sun", 3, u);
  for (int i = 0; i < 3; i++) g_sun_m[i] = u[i] * 1024.0;
  double ang = sym_double("earth_angle", -3, 3), c = std::cos(ang), s = std::sin(ang);
  Matrix<3, 3> d(0.0);
  d[0][0] = d[1][1] = c; d[0][1] = s; d[1][0] = -s; d[2][2] = 1;
  w.er->dcm_j2000_to_ecef_ = d;
  Atmosphere a(models[m], "table", rate, manual, f, fa, ap, w.lc.get(), w.t.get());
  bool enabled = sym_choose("enabled", 0, 1);
  a.SetCalcFlag(enabled);
  bool use_nrl = m == 1 && (manual || g_table_ok);
  for (int step = 0; step < 2; step++) {
    g_draws = 0;
    double r = a.CalcAirDensity_kg_m3(y, w.o());
    sym_assert(a.GetAirDensity_kg_m3() == r, "the kept density is the calculated one");
    if (!enabled || m == 3) { sym_assert(r == 0, "no atmosphere"); continue; }
    double noise = g_draws ? g_draw[0] : 0;
    sym_assert_close(r, g_rho * (1 + rate * noise), 1e-9, "density with relative noise");
    sym_assert(g_simple == ((m == 0 || (m == 1 && !use_nrl)) ? step + 1 : 0) && g_hp == (m == 2 ? step + 1 : 0) && g_nrl == (use_nrl ? step + 1 : 0), "selected model");
    if (use_nrl) {
      double e[7] = {y, w.p().GetLatitude_rad(), w.p().GetLongitude_rad(), w.p().GetAltitude_m(), f, fa, ap};
      for (int i = 0; i < 7; i++) sym_assert(g_args[i] == e[i], "NRLMSISE-00 arguments");
      sym_assert(g_manual == (bool)manual, "manual parameters");
    } else {
      sym_assert(g_alt == w.p().GetAltitude_m(), "altitude");
    }
    if (m == 2) {
      double e[3] = {c * u[0] + s * u[1], -s * u[0] + c * u[1], u[2]};
      for (int i = 0; i < 3; i++) sym_assert_close(g_sun[i], e[i], 1e-9, "sun direction in the frame of the position");
    }
    g_rho = sym_double("next_density", 0.001, 10);
  }
  if (m == 1 && !manual) sym_assert(g_table_args[0] == 2020.5 && g_table_args[1] == 3600, "space weather period");
}
static double g_f, g_fa;
static bool g_en[2];
namespace s2e::setting_file_reader {
bool IniAccess::ReadEnable(const char*, const char* key) { return !strcmp(key, "calculation") ? g_en[0] : g_en[1]; }
double IniAccess::ReadDouble(const char*, const char* key) {
  if (!strcmp(key, "manual_daily_f107")) return g_f;
  if (!strcmp(key, "manual_average_f107")) return g_fa;
  if (!strcmp(key, "manual_ap")) return 7;
  if (!strcmp(key, "air_density_standard_deviation")) return 0.25;
  if (!strcmp(key, "earth_albedo_factor")) return 0.375;
  if (!strcmp(key, "earth_infrared_temperature_hot_side_K")) return 275;
  if (!strcmp(key, "earth_infrared_temperature_cold_side_K")) return 225;
  if (!strcmp(key, "magnetic_field_random_walk_standard_deviation_nT")) return 10;
  if (!strcmp(key, "magnetic_field_random_walk_limit_nT")) return 400;
  if (!strcmp(key, "magnetic_field_white_noise_standard_deviation_nT")) return 50;
  return -1;
}
std::string IniAccess::ReadString(const char*, const char* key) { return !strcmp(key, "model") ? "STANDARD" : "file"; }
}  // namespace s2e::setting_file_reader
CHECK(settings) {
  World w;
  g_f = sym_double("f107", 0, 300);
  g_fa = sym_double("f107a", 0, 300);
  g_en[0] = sym_choose("calculation", 0, 1);
  g_en[1] = sym_choose("log", 0, 1);
  Atmosphere a = InitAtmosphere("", w.lc.get(), w.t.get());
  sym_assert(a.is_calc_enabled_ == g_en[0] && a.is_log_enabled_ == g_en[1], "atmosphere flags");
  sym_assert(a.manual_daily_f107_ == (g_f < 50 ? 150 : g_f) && a.manual_average_f107_ == (g_fa < 50 ? 150 : g_fa) && a.manual_ap_ == 7, "solar activity, implausible values replaced");
  sym_assert(a.gauss_standard_deviation_rate_ == 0.25 && a.model_ == "STANDARD", "noise and model");
  EarthAlbedo l = InitEarthAlbedo("", w.lc.get(), nullptr);
  sym_assert(l.GetIsCalcEarthAlbedoEnabled() == g_en[0] && l.GetEarthAlbedoFactor() == 0.375, "albedo");
  EarthInfrared r = InitEarthInfrared("", w.lc.get(), nullptr);
  sym_assert(r.GetIsCalcEarthInfraredEnabled() == g_en[0] && r.earth_infrared_temperature_hot_side_K_ == 275 && r.earth_infrared_temperature_cold_side_K_ == 225, "infrared");
  GeomagneticField g = InitGeomagneticField("");
  sym_assert(g.IsCalcEnabled == g_en[0] && g.is_log_enabled_ == g_en[1], "magnetic field flags");
  sym_assert(g.random_walk_standard_deviation_nT_ == 10 && g.random_walk_limit_nT_ == 400 && g.white_noise_standard_deviation_nT_ == 50, "magnetic noise");
}
CHECK(earth_radiation) {
  World w;
  Raw<SolarRadiationPressureEnvironment> srp;
  srp->solar_radiation_pressure_N_m2_ = sym_double("pressure", 0, 1e-4);
  srp->shadow_coefficient_ = sym_double("shadow", 0, 1);
  EarthAlbedo a(w.lc.get(), srp.get());
  EarthInfrared r(w.lc.get(), srp.get());
  double k = sym_double("albedo", 0, 1), hot = sym_double("hot", 100, 400), cold = sym_double("cold", 100, 400);
  a.SetEarthAlbedoFactor(k);
  r.SetEarthTempHotSide_K(hot);
  r.SetEarthTempColdSide_K(cold);
  a.UpdateAllStates();
  r.UpdateAllStates();
  sym_assert(a.GetEarthAlbedoRadiationPower_W_m2() == 0 && r.GetEarthInfraredRadiationPower_W_m2() == 0, "off until enabled");
  a.SetIsCalcEarthAlbedoEnabled(true);
  r.SetIsCalcEarthInfraredEnabled(true);
  a.UpdateAllStates();
  r.UpdateAllStates();
  sym_assert_close(a.GetEarthAlbedoRadiationPower_W_m2(), srp->solar_radiation_pressure_N_m2_ * 299792458.0 * srp->shadow_coefficient_ * k, 1e-6, "albedo share of the sunlight");
  double t = srp->shadow_coefficient_ < 1 ? cold : hot;
  sym_assert_close(r.GetEarthInfraredRadiationPower_W_m2(), 5.670374419e-8 * t * t * t * t, 1e-6, "black body of the side below");
}
// each spacecraft has its own noise
CHECK(magnetic_field) {
  World w;
  double wn = sym_double("white_noise", 0, 100), rw = sym_double("random_walk", 0, 100), y = sym_double("year", 2000, 2030), sd = sym_double("sidereal", 0, 6);
  GeomagneticField noisy("f", rw, 1e6, wn);
  GeomagneticField a(noisy), b("f", 0, 0, 0);
  math::Quaternion q = vu::unit_quat("q");
  Matrix<3, 3> d = q.ConvertToDcm();
  int off = sym_choose("disabled_step", 0, 3);
  double walk[3] = {0, 0, 0};
  Vector<3> last(0.0), last_b(0.0);
  for (int k = 1; k <= 3; k++) {
    for (int i = 0; i < 3; i++) g_igrf[i] = sym_double("igrf", -5e4, 5e4);
    g_draws = 0;
    a.IsCalcEnabled = b.IsCalcEnabled = k != off;
    a.CalcMagneticField(y, sd, w.p(), q);
    int n = g_draws;
    Vector<3> f = a.GetGeomagneticField_i_nT(), fb = a.GetGeomagneticField_b_nT();
    if (k == off) {
      for (int i = 0; i < 3; i++) sym_assert(f[i] == last[i] && fb[i] == last_b[i], "disabled keeps the field");
      continue;
    }
    double e[5] = {y, w.p().GetLatitude_rad(), w.p().GetLongitude_rad(), w.p().GetAltitude_m(), sd};
    for (int i = 0; i < 5; i++) sym_assert(g_iargs[i] == e[i], "IGRF arguments");
    int white = wn > 0 ? 3 : 0;
    for (int i = 0; i < 3; i++) {
      sym_assert_close(f[i], g_igrf[i] + walk[i] + (white ? wn * g_draw[i] : 0), 1e-6, "field with white noise and random walk");
      double s = 0;
      for (int j = 0; j < 3; j++) s += d[i][j] * f[j];
      sym_assert_close(fb[i], s, 1e-6, "body frame");
      walk[i] = a.random_walk_[i];
    }
    last = f;
    last_b = fb;
    b.CalcMagneticField(y, sd, w.p(), q);
    for (int i = 0; i < 3; i++) sym_assert_close(b.GetGeomagneticField_i_nT()[i], g_igrf[i], 1e-9, "no noise without noise settings");
  }
}
