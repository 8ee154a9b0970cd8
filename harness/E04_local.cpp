// SRC: src/environment/local/local_environment.cpp
// MODE: real
// BOUNDS: every combination of update flags, any orbit and attitude state, center body the Earth or not
// STUBS: every model of the local environment (E01, E03, E04_models; recorded calls), INI file access, log directory
// OVERRIDE: no settings file is copied to the log directory
#include "ini.hpp"
#include "open.hpp"
#include "util.hpp"
#include <cstring>
#include <dynamics/dynamics.hpp>
#include <environment/local/local_environment.hpp>
#include <logger/logger.hpp>
using namespace s2e;
using namespace s2e::environment;
using geodesy::GeodeticPosition;
using math::Vector;
static int g_clock, g_celestial, g_magnetic, g_srp, g_albedo, g_infrared, g_air, g_logs;
static Vector<3> g_r, g_v, g_w;
static math::Quaternion g_q, g_qm;
static double g_year, g_sid, g_alt, g_air_year;
static const dynamics::orbit::Orbit* g_orbit;
static bool g_en = true;
static const SimulationTime* g_time;
static const LocalCelestialInformation* g_lc[4];
static SolarRadiationPressureEnvironment* g_sp[2];
namespace s2e::geodesy {
GeodeticPosition::GeodeticPosition() { latitude_rad_ = longitude_rad_ = altitude_m_ = 0; }
}  // namespace s2e::geodesy
namespace s2e::setting_file_reader {
std::string IniAccess::ReadString(const char*, const char*) { return "local.ini"; }
bool IniAccess::ReadEnable(const char* section, const char*) { return strcmp(section, "LOCAL_CELESTIAL_INFORMATION") ? true : g_en; }
}  // namespace s2e::setting_file_reader
namespace s2e::logger {
void Logger::CopyFileToLogDirectory(const std::filesystem::path&) {}
}  // namespace s2e::logger
namespace s2e::environment {
std::string GeomagneticField::GetLogHeader() const { return ""; }
std::string GeomagneticField::GetLogValue() const { return ""; }
GeomagneticField InitGeomagneticField(std::string) {
  Raw<GeomagneticField> g;
  new (&g->igrf_file_name_) std::string("f");
  g->IsCalcEnabled = true;
  return *g.get();
}
void GeomagneticField::CalcMagneticField(const double y, const double s, const GeodeticPosition p, const math::Quaternion q) {
  g_magnetic = ++g_clock;
  g_year = y;
  g_sid = s;
  g_alt = p.GetAltitude_m();
  g_qm = q;
}
LocalCelestialInformation::LocalCelestialInformation(const CelestialInformation* g) : global_celestial_information_(g) {}
LocalCelestialInformation::~LocalCelestialInformation() {}
std::string LocalCelestialInformation::GetLogHeader() const { return ""; }
std::string LocalCelestialInformation::GetLogValue() const { return ""; }
void LocalCelestialInformation::UpdateAllObjectsInformation(const Vector<3> r, const Vector<3> v, const math::Quaternion q, const Vector<3> w) {
  g_celestial = ++g_clock;
  g_r = r;
  g_v = v;
  g_q = q;
  g_w = w;
}
Atmosphere::Atmosphere(const std::string, const std::string, const double, const bool, const double, const double, const double, const LocalCelestialInformation* l, const SimulationTime* t) {
  g_lc[0] = l;
  g_time = t;
}
std::string Atmosphere::GetLogHeader() const { return ""; }
std::string Atmosphere::GetLogValue() const { return ""; }
Atmosphere InitAtmosphere(const std::string, const LocalCelestialInformation* l, const SimulationTime* t) { return Atmosphere("", "", 0, 0, 0, 0, 0, l, t); }
double Atmosphere::CalcAirDensity_kg_m3(const double y, const dynamics::orbit::Orbit& o) { g_air = ++g_clock; g_air_year = y; g_orbit = &o; return 0; }
SolarRadiationPressureEnvironment::SolarRadiationPressureEnvironment(LocalCelestialInformation* l) { g_lc[1] = l; }
std::string SolarRadiationPressureEnvironment::GetLogHeader() const { return ""; }
std::string SolarRadiationPressureEnvironment::GetLogValue() const { return ""; }
SolarRadiationPressureEnvironment InitSolarRadiationPressureEnvironment(std::string, LocalCelestialInformation* l) { return SolarRadiationPressureEnvironment(l); }
void SolarRadiationPressureEnvironment::UpdateAllStates() { g_srp = ++g_clock; }
EarthAlbedo::EarthAlbedo(LocalCelestialInformation* l, SolarRadiationPressureEnvironment* s) { g_lc[2] = l; g_sp[0] = s; }
std::string EarthAlbedo::GetLogHeader() const { return ""; }
std::string EarthAlbedo::GetLogValue() const { return ""; }
EarthAlbedo InitEarthAlbedo(std::string, LocalCelestialInformation* l, SolarRadiationPressureEnvironment* s) { return EarthAlbedo(l, s); }
void EarthAlbedo::UpdateAllStates() { g_albedo = ++g_clock; }
EarthInfrared::EarthInfrared(LocalCelestialInformation* l, SolarRadiationPressureEnvironment* s) { g_lc[3] = l; g_sp[1] = s; }
std::string EarthInfrared::GetLogHeader() const { return ""; }
std::string EarthInfrared::GetLogValue() const { return ""; }
EarthInfrared InitEarthInfrared(std::string, LocalCelestialInformation* l, SolarRadiationPressureEnvironment* s) { return EarthInfrared(l, s); }
void EarthInfrared::UpdateAllStates() { g_infrared = ++g_clock; }
}  // namespace s2e::environment
struct Att : dynamics::attitude::Attitude {
  Att(const math::Matrix<3, 3>& i) : Attitude(i, "a") {}
  void Propagate(const double) override {}
};
struct World {
  simulation::SimulationConfiguration sc;
  Raw<GlobalEnvironment> ge;
  Raw<CelestialInformation> gc;
  Raw<SimulationTime> t;
  Raw<logger::Logger> log;
  ~World() { sc.main_logger_ = nullptr; }
  World(const char* center) {
    new (&gc->center_body_name_) std::string(center);
    ge->celestial_information_ = gc.get();
    ge->simulation_time_ = t.get();
    sc.main_logger_ = log.get();
    sc.spacecraft_file_list_.push_back("sat.ini");
  }
};
CHECK(update_order) {
  World w("EARTH");
  LocalEnvironment l(&w.sc, w.ge.get(), 0);
  Raw<dynamics::Dynamics> d;
  Raw<dynamics::orbit::Orbit> o;
  math::Matrix<3, 3> inertia = math::MakeIdentityMatrix<3>();
  Att a(inertia);
  d->orbit_ = o.get();
  d->attitude_ = &a;
  Vector<3> r = vu::vec3("r", -1e7, 1e7), v = vu::vec3("v", -1e4, 1e4), rate = vu::vec3("w", -1, 1);
  math::Quaternion q = vu::free_quat("q");
  o->spacecraft_position_i_m_ = r;
  o->spacecraft_velocity_i_m_s_ = v;
  a.quaternion_i2b_ = q;
  a.angular_velocity_b_rad_s_ = rate;
  o->spacecraft_geodetic_position_.altitude_m_ = sym_double("altitude", 0, 1e6);
  bool fa = sym_choose("attitude_flag", 0, 1), fo = sym_choose("orbit_flag", 0, 1);
  w.t->attitude_update_flag_ = fa;
  w.t->orbit_update_flag_ = fo;
  w.t->current_decyear_ = sym_double("year", 2000, 2030);
  w.t->current_sidereal_ = sym_double("sidereal", 0, 6);
  l.Update(d.get(), w.t.get());
  sym_assert((g_celestial > 0) == fa && (g_magnetic > 0) == fa, "attitude dependent environments");
  sym_assert((g_srp > 0) == fo && (g_albedo > 0) == fo && (g_infrared > 0) == fo && (g_air > 0) == fo, "position dependent environments");
  if (fa) {
    for (int i = 0; i < 3; i++) sym_assert(g_r[i] == r[i] && g_v[i] == v[i] && g_w[i] == rate[i], "current state");
    for (int i = 0; i < 4; i++) sym_assert(g_q[i] == q[i] && g_qm[i] == q[i], "current attitude");
    sym_assert(g_year == w.t->current_decyear_ && g_sid == w.t->current_sidereal_ && g_alt == o->spacecraft_geodetic_position_.altitude_m_, "current date and place");
  }
  if (fo) {
    sym_assert(g_srp < g_albedo && g_srp < g_infrared, "Earth radiation uses the new sunlight");
    sym_assert(g_orbit == o.get() && g_air_year == w.t->current_decyear_, "air of the current orbit");
  }
  if (fa && fo) sym_assert(g_celestial < g_srp && g_celestial < g_air, "celestial bodies first");
}
CHECK(composition) {
  int earth = sym_choose("earth", 0, 1);
  g_en = sym_choose("log", 0, 1);
  World w(earth ? "EARTH" : "SUN");
  LocalEnvironment l(&w.sc, w.ge.get(), 0);
  sym_assert(l.geomagnetic_field_->IsCalcEnabled == (bool)earth && l.atmosphere_->is_calc_enabled_ == (bool)earth, "Earth models only around the Earth");
  for (int i = 0; i < 4; i++) sym_assert(g_lc[i] == l.celestial_information_, "shared celestial information");
  sym_assert(g_sp[0] == l.solar_radiation_pressure_environment_ && g_sp[1] == g_sp[0], "shared sunlight");
  sym_assert(g_time == w.t.get() && l.celestial_information_->is_log_enabled_ == g_en, "time and log");
}
