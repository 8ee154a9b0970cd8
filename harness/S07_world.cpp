// SRC: src/environment/local/solar_radiation_pressure_environment.cpp src/environment/local/atmosphere.cpp src/environment/local/earth_albedo.cpp src/environment/local/earth_infrared.cpp src/environment/local/geomagnetic_field.cpp src/disturbances/air_drag.cpp src/disturbances/geopotential.cpp src/disturbances/gravity_gradient.cpp src/disturbances/lunar_gravity_field.cpp src/disturbances/magnetic_disturbance.cpp src/disturbances/solar_radiation_pressure_disturbance.cpp src/disturbances/surface_force.cpp src/disturbances/third_body_gravity.cpp src/environment/local/local_celestial_information.cpp src/environment/global/hipparcos_catalogue.cpp src/logger/initialize_log.cpp
// MODE: real
// BOUNDS: every value of every number in the settings sections of the local environment and of the disturbances, every combination of their flags; centre body Earth or Moon; up to two shadowing bodies and two third bodies; gravity fields of degree up to 3
// STUBS: the settings file holds an arbitrary value for every key (text decoding is decided by S04); celestial information has three bodies; gravity coefficient files and the IGRF, space weather and star files are not read (S04), their names are recorded
// ASSUME: third bodies are among the selected bodies and not the centre (asserted by the code)
// OVERRIDE: coefficient and catalogue files are not read, their names are recorded
#include "settings.hpp"
#include "open.hpp"
#include <cstring>
#include <environment/local/atmosphere.hpp>
#include <environment/local/earth_albedo.hpp>
#include <environment/local/earth_infrared.hpp>
#include <environment/local/geomagnetic_field.hpp>
#include <environment/local/solar_radiation_pressure_environment.hpp>
#include <environment/global/hipparcos_catalogue.hpp>
#include <disturbances/air_drag.hpp>
#include <disturbances/geopotential.hpp>
#include <disturbances/gravity_gradient.hpp>
#include <disturbances/lunar_gravity_field.hpp>
#include <disturbances/magnetic_disturbance.hpp>
#include <disturbances/solar_radiation_pressure_disturbance.hpp>
#include <disturbances/third_body_gravity.hpp>
#include <logger/initialize_log.hpp>
using namespace s2e;
using namespace s2e::environment;
using namespace s2e::disturbances;
using st::Sec;
static std::string g_igrf, g_table, g_gravity, g_stars, g_log;
static bool g_table_ok;
void set_file_path(const char* n) { g_igrf = n; }
namespace s2e::atmosphere {
size_t GetSpaceWeatherTable_(double y, double e, const std::string& n, std::vector<nrlmsise_table>&) { g_table = n; return g_table_ok; }
}
namespace s2e::environment {
int CelestialInformation::CalcBodyIdFromName(const char* n) const { return !strcmp(n, "SUN") ? 0 : !strcmp(n, "EARTH") ? 1 : 2; }
bool HipparcosCatalogue::ReadContents(const std::string& n, const char) { g_stars = n; return true; }
}
namespace s2e::disturbances {
bool Geopotential::ReadCoefficientsEgm96(std::string n) { g_gravity = n; return true; }
bool LunarGravityField::ReadCoefficientsGrgm1200a(std::string n) { g_gravity = n; gravity_constants_km3_s2_ = 1; reference_radius_km_ = 1; return true; }
}
namespace s2e::logger {
Logger::Logger(const std::string& f, const std::filesystem::path& d, const std::filesystem::path& i, const bool save, const bool on) {
  g_log = f + "|" + d.string() + "|" + i.string() + "|" + (save ? "save" : "-") + "|" + (on ? "on" : "off");
}
}
struct World {
  Raw<CelestialInformation> g;
  int ids[3] = {10, 399, 301};
  double radius[3], mu[3];
  std::string center;
  LocalCelestialInformation* l;
  World() {
    center = sym_choose("center", 0, 1) ? "MOON" : "EARTH";
    g->number_of_selected_bodies_ = 3;
    g->selected_body_ids_ = ids;
    new (&g->center_body_name_) std::string(center);
    for (int i = 0; i < 3; i++) { radius[i] = sym_double("radius", 1, 8); mu[i] = sym_double("gravity_constant", 1, 8); }
    g->celestial_body_mean_radius_m_ = radius;
    g->celestial_body_gravity_constant_m3_s2_ = mu;
    l = new LocalCelestialInformation(g.get());
  }
};
static const char* F = "environment.ini";
// "calculation" and "logging" are spelled ENABLE in the file
static bool on(const Sec& s, const char* k = "calculation") { return s.i(std::string(k) + " ENABLE") != 0; }

CHECK(sunlight) {
  World w;
  Sec s{F, "SOLAR_RADIATION_PRESSURE_ENVIRONMENT"};
  int n = (int)sym_choose("shadow_sources", 0, 2);
  s.set("number_of_third_shadow_source", n);
  s.text("third_shadow_source_name(0)", "MOON");
  s.text("third_shadow_source_name(1)", "MARS");
  SolarRadiationPressureEnvironment c = InitSolarRadiationPressureEnvironment(F, w.l);
  sym_assert(c.IsCalcEnabled == on(s), "calculated if the file says so");
  sym_assert(c.is_log_enabled_ == on(s, "logging"), "logged if the file says so");
  sym_assert(c.shadow_source_name_list_[0] == w.center, "the centre body casts a shadow");
  // the bodies of the file as well, each once (naming the centre body again is refused or ignored)
  for (int i = 0; i < n; i++) {
    const char* m = i ? "MARS" : "MOON";
    int found = 0;
    for (auto& x : c.shadow_source_name_list_) found += x == m;
    sym_assert(found >= 1, "the bodies of the file cast a shadow");
  }
  sym_assert((int)c.shadow_source_name_list_.size() <= n + 1, "no other body casts a shadow");
  st::eq(c.sun_radius_m_, w.radius[0], "radius of the Sun");
  sym_assert(c.local_celestial_information_ == w.l, "celestial information");
}
CHECK(air) {
  World w;
  Raw<SimulationTime> t;
  Sec s{F, "ATMOSPHERE"};
  int m = (int)sym_choose("model", 0, 3);
  g_table_ok = sym_choose("table_readable", 0, 1) != 0;
  const char* name[] = {"STANDARD", "NRLMSISE00", "HARRIS_PRIESTER", "SOMETHING"};
  s.text("model", name[m]);
  for (auto k : {"manual_daily_f107", "manual_average_f107"}) s.range(k, 0.0, 300.0);
  Atmosphere c = InitAtmosphere(F, w.l, t.get());
  bool manual = on(s, "is_manual_parameter_used");
  sym_assert(c.is_calc_enabled_ == on(s), "calculated if the file says so");
  sym_assert(c.is_log_enabled_ == on(s, "logging"), "logged if the file says so");
  sym_assert(c.is_manual_param_used_ == manual, "manual parameters");
  bool read = m == 1 && !manual;
  sym_assert(c.model_ == (read && !g_table_ok ? "STANDARD" : name[m]), "model of the file, the standard one when its table cannot be read");
  if (read) sym_assert(g_table == st::S(F, "ATMOSPHERE", "nrlmsise00_table_file"), "table of the file");
  double d = s.d("manual_daily_f107"), a = s.d("manual_average_f107");
  st::eq(c.manual_daily_f107_, d < 50.0 ? 150.0 : d, "daily F10.7, 150 when the file has less than 50");
  st::eq(c.manual_average_f107_, a < 50.0 ? 150.0 : a, "average F10.7, 150 when the file has less than 50");
  st::eq(c.manual_ap_, s.d("manual_ap"), "ap");
  st::eq(c.gauss_standard_deviation_rate_, s.d("air_density_standard_deviation"), "density noise");
}
CHECK(albedo_and_infrared) {
  World w;
  auto* srp = (SolarRadiationPressureEnvironment*)0x1000;
  Sec s{F, "EARTH_ALBEDO"}, r{F, "EARTH_INFRARED"};
  EarthAlbedo a = InitEarthAlbedo(F, w.l, srp);
  sym_assert(a.GetIsCalcEarthAlbedoEnabled() == on(s), "albedo calculated if the file says so");
  st::eq(a.GetEarthAlbedoFactor(), s.d("earth_albedo_factor"), "albedo factor");
  sym_assert(a.srp_environment_ == srp, "sunlight");
  EarthInfrared i = InitEarthInfrared(F, w.l, srp);
  sym_assert(i.is_calc_earth_infrared_enabled_ == on(r), "infrared calculated if the file says so");
  st::eq(i.earth_infrared_temperature_hot_side_K_, r.d("earth_infrared_temperature_hot_side_K"), "hot side");
  st::eq(i.earth_infrared_temperature_cold_side_K_, r.d("earth_infrared_temperature_cold_side_K"), "cold side");
  sym_assert(i.srp_environment_ == srp && i.local_celestial_information_ == w.l, "sunlight and celestial information");
}
CHECK(magnetic_field) {
  Sec s{F, "MAGNETIC_FIELD_ENVIRONMENT"};
  s.range("magnetic_field_white_noise_standard_deviation_nT", 0.0, 8.0);
  GeomagneticField c = InitGeomagneticField(F);
  sym_assert(c.IsCalcEnabled == on(s), "calculated if the file says so");
  sym_assert(c.is_log_enabled_ == on(s, "logging"), "logged if the file says so");
  sym_assert(g_igrf == st::S(F, s.s, "coefficient_file"), "coefficient file");
  st::eq(c.white_noise_.standard_deviation_, s.d("magnetic_field_white_noise_standard_deviation_nT"), "white noise");
  for (int i = 0; i < 3; i++) {
    st::eq(c.random_walk_.limit_[i], s.d("magnetic_field_random_walk_limit_nT"), "limit of the random walk");
    st::eq(c.random_walk_.normal_randomizer_[i].standard_deviation_, s.d("magnetic_field_random_walk_standard_deviation_nT"), "random walk");
  }
}
CHECK(star_catalogue) {
  Sec s{F, "HIPPARCOS_CATALOGUE"};
  HipparcosCatalogue* c = InitHipparcosCatalogue(F);
  sym_assert(c->IsCalcEnabled == on(s), "calculated if the file says so");
  sym_assert(c->is_log_enabled_ == on(s, "logging"), "logged if the file says so");
  sym_assert(g_stars == st::S(F, s.s, "catalogue_file_path"), "catalogue file");
  st::eq(c->max_magnitude_, s.d("max_magnitude"), "faintest star");
}
CHECK(log_of_the_run) {
  Sec s{F, "SIMULATION_SETTINGS"};
  s.text("log_file_save_directory", "/out/");
  bool mc = sym_choose("monte_carlo", 0, 1) != 0, enable = sym_choose("enabled", 0, 1) != 0;
  if (mc) logger::InitMonteCarloLog(F, enable); else logger::InitLog(F);
  std::string want = std::string(mc ? "monte_carlo.csv" : "default.csv") + "|/out/|" + F + "|" + (on(s, "save_initialize_files") ? "save" : "-") + "|" + (!mc || enable ? "on" : "off");
  sym_assert(g_log == want, "directory and copies of the settings as the file says, an ordinary run is always logged");
}
// ------------------------------------------------------------------ disturbances
struct Hull {
  std::vector<spacecraft::Surface> surfaces;
  math::Vector<3> cog;
  Hull() { for (int i = 0; i < 2; i++) surfaces.push_back(spacecraft::Surface(vu::vec3("p", -1, 1), vu::vec3("n", -1, 1), 1, 0, 0, 0)); cog = vu::vec3("cog", -1, 1); }
};
static void both(const Disturbance& d, const Sec& s, bool attitude) {
  sym_assert(d.is_calculation_enabled_ == on(s), "calculated if the file says so");
  sym_assert(d.is_log_enabled_ == on(s, "logging"), "logged if the file says so");
  sym_assert(d.is_attitude_dependent_ == attitude, "depends on the attitude");
  for (int i = 0; i < 3; i++) {
    sym_assert(d.force_b_N_[i] == 0 && d.torque_b_Nm_[i] == 0, "no force or torque before the first update");
    sym_assert(d.acceleration_i_m_s2_[i] == 0 && d.acceleration_b_m_s2_[i] == 0, "no acceleration before the first update");
  }
}
CHECK(air_drag) {
  Hull h;
  Sec s{F, "AIR_DRAG"};
  AirDrag c = InitAirDrag(F, h.surfaces, h.cog);
  both(c, s, true);
  // Celsius to kelvin (the code uses 273)
  sym_assert_close(c.wall_temperature_K_, s.d("wall_temperature_degC") + 273.075, 0.08, "wall temperature in kelvin");
  sym_assert_close(c.molecular_temperature_K_, s.d("molecular_temperature_degC") + 273.075, 0.08, "molecule temperature in kelvin");
  st::eq(c.molecular_weight_g_mol_, s.d("molecular_weight_g_mol"), "molecular weight");
  sym_assert(&c.surfaces_ == &h.surfaces && &c.center_of_gravity_b_m_ == &h.cog, "the hull and centre of mass of the satellite");
  sym_assert(c.cn_.size() == 2 && c.ct_.size() == 2, "coefficients for every surface");
}
CHECK(solar_pressure) {
  Hull h;
  Sec s{F, "SOLAR_RADIATION_PRESSURE_DISTURBANCE"};
  SolarRadiationPressureDisturbance c = InitSolarRadiationPressureDisturbance(F, h.surfaces, h.cog);
  both(c, s, true);
  sym_assert(&c.surfaces_ == &h.surfaces && &c.center_of_gravity_b_m_ == &h.cog, "the hull and centre of mass of the satellite");
}
CHECK(gravity_gradient) {
  Sec s{F, "GRAVITY_GRADIENT"};
  double mu = sym_double("mu", 1, 8);
  GravityGradient c = InitGravityGradient(F, mu);
  both(c, s, true);
  st::eq(c.gravity_constant_m3_s2_, mu, "gravity constant of the centre body");
  GravityGradient e = InitGravityGradient(F);
  both(e, s, true);
  sym_assert_close(e.gravity_constant_m3_s2_, 3.986004418e14, 1e10, "gravity constant of the Earth");
}
CHECK(magnetic_torque) {
  Sec s{F, "MAGNETIC_DISTURBANCE"};
  math::Vector<3> m = vu::vec3("moment", -1, 1);
  double wd = sym_double("walk", 0, 1), wl = sym_double("walk_limit", 0, 1), wn = sym_double("white", 0, 1);
  spacecraft::ResidualMagneticMoment r(m, wd, wl, wn);
  MagneticDisturbance c = InitMagneticDisturbance(F, r);
  both(c, s, true);
  sym_assert(&c.residual_magnetic_moment_ == &r, "residual moment of the satellite");
  for (int i = 0; i < 3; i++) {
    st::eq(c.rmm_b_Am2_[i], m[i], "constant moment");
    st::eq(c.random_walk_.limit_[i], wl, "limit of the random walk");
    st::eq(c.random_walk_.normal_randomizer_[i].standard_deviation_, wd, "random walk");
  }
  st::eq(c.white_noise_.standard_deviation_, wn, "white noise");
}
CHECK(gravity_fields) {
  bool moon = sym_choose("moon", 0, 1) != 0;
  Sec s{F, moon ? "LUNAR_GRAVITY_FIELD" : "GEOPOTENTIAL"};
  int d = (int)sym_choose("degree", 0, 3);
  s.set("degree", d);
  size_t got;
  if (moon) { LunarGravityField c = InitLunarGravityField(F); both(c, s, false); got = c.degree_; }
  else { Geopotential c = InitGeopotential(F); both(c, s, false); got = c.degree_; }
  sym_assert((int)got == (d <= 1 ? 0 : d), "degree of the file, none below two");
  if (d >= 2) sym_assert(g_gravity == st::S(F, s.s, "coefficients_file_path"), "coefficient file");
}
CHECK(third_bodies) {
  Sec s{F, "THIRD_BODY_GRAVITY"}, b{"base.ini", "CELESTIAL_INFORMATION"};
  int n = (int)sym_choose("bodies", 0, 2);
  s.set("number_of_third_body", n);
  b.set("number_of_selected_body", 3);
  b.text("center_object", "EARTH");
  b.text("selected_body_name(0)", "SUN");
  b.text("selected_body_name(1)", "MOON");
  b.text("selected_body_name(2)", "MARS");
  s.text("third_body_name(0)", "MARS");
  s.text("third_body_name(1)", "SUN");
  ThirdBodyGravity c = InitThirdBodyGravity(F, "base.ini");
  both(c, s, false);
  if (on(s)) {
    sym_assert((int)c.third_body_list_.size() == n, "number of bodies");
    if (n > 0) sym_assert(c.third_body_list_.count("MARS") == 1, "first body of the file");
    if (n > 1) sym_assert(c.third_body_list_.count("SUN") == 1, "second body of the file");
  }
}
