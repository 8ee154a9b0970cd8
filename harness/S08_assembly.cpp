// SRC: src/simulation/spacecraft/structure/structure.cpp src/environment/local/local_environment.cpp src/dynamics/dynamics.cpp src/disturbances/disturbances.cpp
// SRC: src/environment/local/local_celestial_information.cpp src/environment/local/geomagnetic_field.cpp src/environment/local/atmosphere.cpp src/environment/local/earth_albedo.cpp src/environment/local/earth_infrared.cpp src/environment/local/solar_radiation_pressure_environment.cpp
// SRC: src/math_physics/randomization/global_randomization.cpp
// SRC: src/disturbances/gravity_gradient.cpp src/disturbances/air_drag.cpp src/disturbances/geopotential.cpp src/disturbances/lunar_gravity_field.cpp src/disturbances/magnetic_disturbance.cpp src/disturbances/solar_radiation_pressure_disturbance.cpp src/disturbances/third_body_gravity.cpp src/disturbances/surface_force.cpp
// DELETE: Init(GeomagneticField|Atmosphere|SolarRadiationPressureEnvironment|EarthAlbedo|EarthInfrared)
// DELETE: Init(GravityGradient|AirDrag|Geopotential|LunarGravityField|MagneticDisturbance|SolarRadiationPressureDisturbance|ThirdBodyGravity)
// MODE: real
// BOUNDS: any of three spacecraft of one case; Earth, Moon, Mars and Sun as centre; any mass properties, step times and dates
// STUBS: the Init* function of each part records what it is given (S03, S05 decide them); settings are "file/key"
// OVERRIDE: IniAccess and the parts' Init functions record what they are given
#include "ini.hpp"
#include "orb.hpp"
#include <disturbances/air_drag.hpp>
#include <disturbances/disturbances.hpp>
#include <disturbances/geopotential.hpp>
#include <disturbances/gravity_gradient.hpp>
#include <disturbances/lunar_gravity_field.hpp>
#include <disturbances/magnetic_disturbance.hpp>
#include <disturbances/solar_radiation_pressure_disturbance.hpp>
#include <disturbances/third_body_gravity.hpp>
#include <dynamics/dynamics.hpp>
#include <environment/global/global_environment.hpp>
#include <environment/local/local_environment.hpp>
#include <logger/logger.hpp>
#include <simulation/spacecraft/structure/initialize_structure.hpp>
using namespace s2e;
using math::Matrix;
using math::Quaternion;
using math::Vector;
struct Call { std::string what, file, other; const void* p[4] = {0, 0, 0, 0}; double v[3] = {0, 0, 0}; int id = -1; Vector<3> cg; Matrix<3, 3> inertia; Vector<3> rmm; size_t surfaces = 0; double area = 0; };
static Call g_call[16];
static int g_n;
static Call& rec(const char* what, const std::string& f, const void* a = 0, const void* b = 0, const void* c = 0) {
  Call& r = g_call[g_n++];
  r.what = what; r.file = f; r.p[0] = a; r.p[1] = b; r.p[2] = c;
  return r;
}
static Call& got(const char* what) {  // the only call of that name
  int k = -1, n = 0;
  for (int i = 0; i < g_n; i++) if (g_call[i].what == what) k = i, n++;
  sym_assert(n == 1, "each part made once");
  return g_call[k];
}
static bool has(const char* what) { for (int i = 0; i < g_n; i++) if (g_call[i].what == what) return true; return false; }
static std::string g_copied;
static int g_ncopied;
static bool g_flag, g_other;
static std::string g_flag_file;
static double g_mu[4];
static const char* g_body[4] = {"EARTH", "MOON", "MARS", "SUN"};
namespace s2e::logger { void Logger::CopyFileToLogDirectory(const std::filesystem::path& p) { g_copied = p.string(); g_ncopied++; } }
namespace s2e::setting_file_reader {
std::string IniAccess::ReadString(const char* s, const char* k) { return file_path_ + "/" + s + "/" + k; }
bool IniAccess::ReadEnable(const char* s, const char* k) { return std::string(s) == "LOCAL_CELESTIAL_INFORMATION" && std::string(k) == "logging" && file_path_ == g_flag_file ? g_flag : g_other; }
}  // namespace s2e::setting_file_reader
namespace s2e::spacecraft {
static double g_mass[3];
KinematicsParameters InitKinematicsParameters(std::string f) { rec("kin", f); return KinematicsParameters(Vector<3>(g_mass[0]), g_mass[1], g_mass[2] * math::MakeIdentityMatrix<3>()); }
std::vector<Surface> InitSurfaces(std::string f) { rec("surf", f); return std::vector<Surface>(2, Surface(Vector<3>(1.0), Vector<3>(0.0), g_mass[1], 0, 0, 0)); }
ResidualMagneticMoment InitResidualMagneticMoment(std::string f) { rec("rmm", f); return ResidualMagneticMoment(Vector<3>(g_mass[2]), 0, 0, 0); }
}  // namespace s2e::spacecraft
namespace s2e::environment {
static Raw<GeomagneticField> g_geo;
static Raw<Atmosphere> g_atm;
static Raw<SolarRadiationPressureEnvironment> g_srp;
static Raw<EarthAlbedo> g_alb;
static Raw<EarthInfrared> g_ir;
GeomagneticField InitGeomagneticField(std::string f) { rec("geo", f); g_geo->IsCalcEnabled = g_flag; return *g_geo; }
Atmosphere InitAtmosphere(const std::string f, const LocalCelestialInformation* l, const SimulationTime* t) { rec("atm", f, l, t); g_atm->is_calc_enabled_ = g_flag; return *g_atm; }
SolarRadiationPressureEnvironment InitSolarRadiationPressureEnvironment(std::string f, LocalCelestialInformation* l) { rec("srp", f, l); g_srp->IsCalcEnabled = g_flag; return *g_srp; }
EarthAlbedo InitEarthAlbedo(std::string f, LocalCelestialInformation* l, SolarRadiationPressureEnvironment* s) { rec("alb", f, l, s); g_alb->is_calc_earth_albedo_enabled_ = g_flag; return *g_alb; }
EarthInfrared InitEarthInfrared(std::string f, LocalCelestialInformation* l, SolarRadiationPressureEnvironment* s) { rec("ir", f, l, s); g_ir->is_calc_earth_infrared_enabled_ = g_flag; return *g_ir; }
int CelestialInformation::CalcBodyIdFromName(const char* body) const {
  for (int i = 0; i < 4; i++) if (std::string(g_body[i]) == body) return i;
  return 0;
}
}  // namespace s2e::environment
namespace s2e::disturbances {
static Raw<GravityGradient> g_gg;
static Raw<SolarRadiationPressureDisturbance> g_srp;
static Raw<ThirdBodyGravity> g_third;
static Raw<LunarGravityField> g_lunar;
static Raw<AirDrag> g_air;
static Raw<MagneticDisturbance> g_mag;
static Raw<Geopotential> g_pot;
static void body(Call& r, const std::vector<spacecraft::Surface>& s, const Vector<3>& c) { r.p[0] = &s; r.p[1] = &c; }
GravityGradient InitGravityGradient(const std::string f) { rec("gg", f).v[0] = -1; return *g_gg; }
GravityGradient InitGravityGradient(const std::string f, const double mu) { rec("gg", f).v[0] = mu; return *g_gg; }
SolarRadiationPressureDisturbance InitSolarRadiationPressureDisturbance(const std::string f, const std::vector<spacecraft::Surface>& s, const Vector<3>& c) { body(rec("srpd", f), s, c); return *g_srp; }
ThirdBodyGravity InitThirdBodyGravity(const std::string f, const std::string g) { rec("third", f).other = g; return *g_third; }
LunarGravityField InitLunarGravityField(const std::string f) { rec("lunar", f); return *g_lunar; }
AirDrag InitAirDrag(const std::string f, const std::vector<spacecraft::Surface>& s, const Vector<3>& c) { body(rec("air", f), s, c); return *g_air; }
MagneticDisturbance InitMagneticDisturbance(const std::string f, const spacecraft::ResidualMagneticMoment& r) { rec("mag", f, &r); return *g_mag; }
Geopotential InitGeopotential(const std::string f) { rec("pot", f); return *g_pot; }
}  // namespace s2e::disturbances
struct Orb : dynamics::orbit::Orbit {
  Orb() : Orbit(nullptr) {}
  void Propagate(const double, const double) override {}
};
struct Att : dynamics::attitude::Attitude {
  Att(const Matrix<3, 3>& i) : Attitude(i, "a") {}
  void Propagate(const double) override {}
};
static dynamics::orbit::Orbit* g_orb;
static dynamics::attitude::Attitude* g_att;
static Raw<dynamics::thermal::Temperature> g_temp;
namespace s2e::dynamics::orbit {
Orbit* InitOrbit(const environment::CelestialInformation* c, std::string f, double step, double jd, double mu, std::string section, simulation::RelativeInformation* r) {
  Call& k = rec("orbit", f, c, r);
  k.v[0] = step; k.v[1] = jd; k.v[2] = mu; k.other = section;
  return g_orb;
}
}  // namespace s2e::dynamics::orbit
namespace s2e::dynamics::attitude {
Attitude* InitAttitude(std::string f, const orbit::Orbit* o, const environment::LocalCelestialInformation* l, const double step, const Matrix<3, 3>& inertia, const int id) {
  Call& k = rec("att", f, o, l);
  k.v[0] = step; k.inertia = inertia; k.id = id;
  return g_att;
}
}  // namespace s2e::dynamics::attitude
namespace s2e::dynamics::thermal {
Temperature* InitTemperature(const std::string f, const double step, const environment::SolarRadiationPressureEnvironment* s, const environment::EarthAlbedo* a, const environment::EarthInfrared* i) {
  rec("temp", f, s, a, i).v[0] = step;
  return g_temp.get();
}
}  // namespace s2e::dynamics::thermal
// a case of three spacecraft around one body
struct Case {
  Raw<simulation::SimulationConfiguration> conf;
  Raw<logger::Logger> log;
  Raw<environment::GlobalEnvironment> glo;
  Raw<environment::CelestialInformation> cel;
  Raw<environment::SimulationTime> time;
  int id, center;
  std::string file;
  Case() {
    id = (int)sym_choose("spacecraft", 0, 2);
    center = (int)sym_choose("centre", 0, 3);
    new (&conf->spacecraft_file_list_) std::vector<std::string>{"sat0.ini", "sat1.ini", "sat2.ini"};
    new (&conf->initialize_base_file_name_) std::string("base.ini");
    conf->main_logger_ = log.get();
    conf->number_of_simulated_spacecraft_ = 3;
    new (&cel->center_body_name_) std::string(g_body[center]);
    glo->celestial_information_ = cel.get();
    glo->simulation_time_ = time.get();
    for (double& m : g_mu) m = sym_double("mu", 1, 1e6);
    cel->number_of_selected_bodies_ = 4;
    cel->celestial_body_gravity_constant_m3_s2_ = g_mu;
    time->current_jd_ = sym_double("jd", 2.4e6, 2.5e6);
    time->orbit_rk_step_sec_ = sym_double("orbit step", 0.001, 10);
    time->attitude_rk_step_sec_ = sym_double("attitude step", 0.001, 10);
    time->thermal_rk_step_sec_ = sym_double("thermal step", 0.001, 10);
    for (double& m : spacecraft::g_mass) m = sym_double("body", 0.5, 100);
    g_n = g_ncopied = 0;
    file = std::string("sat") + char('0' + id) + ".ini";
  }
  std::string named(const char* key) const { return file + "/SETTING_FILES/" + key; }
};
CHECK(structure) {
  Case c;
  spacecraft::Structure s(c.conf.get(), c.id);
  std::string f = c.named("structure_file");
  sym_assert(got("kin").file == f && got("surf").file == f && got("rmm").file == f, "this spacecraft's structure file");
  sym_assert(g_ncopied == 1 && g_copied == f, "the file used is kept with the log");
  sym_assert_close(s.GetKinematicsParameters().GetMass_kg(), spacecraft::g_mass[1], 1e-12, "mass");
  for (int i = 0; i < 3; i++) {
    sym_assert_close(s.GetKinematicsParameters().GetCenterOfGravity_b_m()[i], spacecraft::g_mass[0], 1e-12, "centre of gravity");
    sym_assert_close(s.GetKinematicsParameters().GetInertiaTensor_b_kgm2()[i][i], spacecraft::g_mass[2], 1e-12, "inertia");
    sym_assert_close(s.GetResidualMagneticMoment().GetConstantValue_b_Am2()[i], spacecraft::g_mass[2], 1e-12, "residual magnetic moment");
  }
  sym_assert(s.GetSurfaces().size() == 2, "all surfaces");
  sym_assert_close(s.GetSurfaces()[1].GetArea_m2(), spacecraft::g_mass[1], 1e-12, "surface");
}
CHECK(environment) {
  Case c;
  std::string f = g_flag_file = c.named("local_environment_file");
  g_flag = sym_choose("flag", 0, 1); g_other = !g_flag;
  auto* env = new environment::LocalEnvironment(c.conf.get(), c.glo.get(), c.id);
  const environment::LocalCelestialInformation* l = &env->GetCelestialInformation();
  sym_assert(&l->GetGlobalInformation() == c.cel.get(), "the bodies of the case");
  sym_assert(got("geo").file == f && got("atm").file == f && got("srp").file == f && got("alb").file == f && got("ir").file == f, "this spacecraft's environment file");
  sym_assert(g_ncopied == 1 && g_copied == f, "the file used is kept with the log");
  sym_assert(got("atm").p[0] == l && got("srp").p[0] == l && got("alb").p[0] == l && got("ir").p[0] == l, "bodies as seen from this spacecraft");
  sym_assert(got("atm").p[1] == c.time.get(), "the shared clock");
  sym_assert(got("alb").p[1] == &env->GetSolarRadiationPressure() && got("ir").p[1] == &env->GetSolarRadiationPressure(), "this spacecraft's sunlight");
  bool on = g_flag && c.center == 0;
  sym_assert(env->geomagnetic_field_->IsCalcEnabled == on && env->atmosphere_->is_calc_enabled_ == on, "Earth's field and air only around the Earth");
  sym_assert(env->solar_radiation_pressure_environment_->IsCalcEnabled == g_flag && env->earth_albedo_->is_calc_earth_albedo_enabled_ == g_flag && env->earth_infrared_->is_calc_earth_infrared_enabled_ == g_flag, "the others as set");
  sym_assert(l->is_log_enabled_ == g_flag, "logging as set");
}
CHECK(dynamics) {
  Case c;
  Raw<environment::LocalEnvironment> env;
  Raw<environment::LocalCelestialInformation> l;
  Raw<spacecraft::Structure> st;
  Raw<environment::EarthAlbedo> alb;
  Raw<environment::EarthInfrared> ir;
  Raw<environment::SolarRadiationPressureEnvironment> srp;
  int rel;
  l->global_celestial_information_ = c.cel.get();
  env->celestial_information_ = l.get();
  env->earth_albedo_ = alb.get(); env->earth_infrared_ = ir.get(); env->solar_radiation_pressure_environment_ = srp.get();
  spacecraft::KinematicsParameters kin(Vector<3>(0.0), 1, spacecraft::g_mass[1] * math::MakeIdentityMatrix<3>());
  kin.inertia_tensor_b_kgm2_[0][1] = spacecraft::g_mass[2];
  st->kinematics_parameters_ = &kin;
  Orb o;
  Att a(kin.inertia_tensor_b_kgm2_);
  a.quaternion_i2b_ = vu::unit_quat("q");
  o.spacecraft_velocity_i_m_s_ = vu::vec3("v", -8, 8);
  g_orb = &o; g_att = &a;
  Raw<dynamics::Dynamics> raw;
  dynamics::Dynamics* d = new (raw.get()) dynamics::Dynamics(c.conf.get(), c.time.get(), env.get(), c.id, st.get(), (simulation::RelativeInformation*)&rel);
  sym_assert(got("orbit").file == c.file && got("att").file == c.file && got("temp").file == c.file, "this spacecraft's file");
  Call& k = got("orbit");
  sym_assert(k.p[0] == c.cel.get() && k.p[1] == &rel && k.other == "ORBIT", "orbit settings");
  sym_assert_close(k.v[0], c.time->orbit_rk_step_sec_, 1e-12, "orbit step");
  sym_assert_close(k.v[1], c.time->current_jd_, 1e-12, "epoch");
  sym_assert_close(k.v[2], g_mu[c.center], 1e-9, "gravity constant of the centre");
  sym_assert(got("att").p[0] == &o && got("att").p[1] == l.get() && got("att").id == c.id, "attitude settings");
  sym_assert_close(got("att").v[0], c.time->attitude_rk_step_sec_, 1e-12, "attitude step");
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) sym_assert_close(got("att").inertia[i][j], kin.inertia_tensor_b_kgm2_[i][j], 1e-12, "inertia of the structure");
  sym_assert(got("temp").p[0] == srp.get() && got("temp").p[1] == alb.get() && got("temp").p[2] == ir.get(), "thermal sources");
  sym_assert_close(got("temp").v[0], c.time->thermal_rk_step_sec_, 1e-12, "thermal step");
  sym_assert(&d->GetOrbit() == &o && &d->GetAttitude() == &a && &d->GetTemperature() == g_temp.get(), "its parts");
  vu::close_vec(d->GetOrbit().GetVelocity_b_m_s(), a.quaternion_i2b_.FrameConversion(o.spacecraft_velocity_i_m_s_), 1e-9, "body-frame velocity from the first moment");
}
CHECK(disturbances) {
  Case c;
  Raw<spacecraft::Structure> st;
  spacecraft::KinematicsParameters kin(Vector<3>(0.0), 1, math::MakeIdentityMatrix<3>());
  spacecraft::ResidualMagneticMoment rmm(Vector<3>(0.0), 0, 0, 0);
  new (&st->surfaces_) std::vector<spacecraft::Surface>;
  st->kinematics_parameters_ = &kin; st->residual_magnetic_moment_ = &rmm;
  std::string f = c.named("disturbance_file");
  Raw<disturbances::Disturbances> raw;
  disturbances::Disturbances* d = new (raw.get()) disturbances::Disturbances(c.conf.get(), c.id, st.get(), c.glo.get());
  for (int i = 0; i < g_n; i++) sym_assert(g_call[i].file == f, "this spacecraft's disturbance file");
  sym_assert_close(got("gg").v[0], g_mu[c.center], 1e-9, "gravity gradient of the centre");
  sym_assert(got("srpd").p[0] == &st->GetSurfaces() && got("srpd").p[1] == &kin.GetCenterOfGravity_b_m(), "light on this spacecraft's surfaces");
  sym_assert(got("third").other == "base.ini", "third bodies among the case's bodies");
  bool earth = c.center == 0, moon = c.center == 1;
  sym_assert(has("air") == earth && has("mag") == earth && has("pot") == earth && has("lunar") == moon, "what exists around this body");
  if (earth) {
    sym_assert(got("air").p[0] == &st->GetSurfaces() && got("air").p[1] == &kin.GetCenterOfGravity_b_m(), "air on this spacecraft's surfaces");
    sym_assert(got("mag").p[0] == &rmm && got("pot").what == "pot", "this spacecraft's residual moment");
  }
  sym_assert((int)d->disturbances_list_.size() == g_n, "all of them act");
  for (size_t i = 0; i < d->disturbances_list_.size(); i++)
    for (size_t j = 0; j < i; j++) sym_assert(d->disturbances_list_[i] != d->disturbances_list_[j], "each once");
  for (int i = 0; i < 3; i++) sym_assert(d->GetTorque_b_Nm()[i] == 0 && d->GetForce_b_N()[i] == 0 && d->GetAcceleration_i_m_s2()[i] == 0, "none before the first update");
  g_ncopied = 0;
  Raw<logger::Logger> log;
  new (&log->log_list_) std::vector<logger::ILoggable*>;
  d->LogSetup(*log);
  sym_assert((int)log->log_list_.size() == g_n && g_ncopied == 1 && g_copied == f, "all logged, the file kept");
}
