// SRC: src/disturbances/disturbances.cpp
// MODE: real
// BOUNDS: three disturbances with any outputs, attitude dependence and enabling over three updates with any flags; centre body Earth, Moon or another
// STUBS: INI file access; gravity fields and their coefficient files (F03), log directory
// OVERRIDE: settings are symbolic, coefficient files are not read
#include "ini.hpp"
#include "open.hpp"
#include "util.hpp"
#include <cmath>
#include <cstring>
#include <disturbances/air_drag.hpp>
#include <disturbances/disturbances.hpp>
#include <disturbances/geopotential.hpp>
#include <disturbances/gravity_gradient.hpp>
#include <disturbances/lunar_gravity_field.hpp>
#include <disturbances/magnetic_disturbance.hpp>
#include <disturbances/solar_radiation_pressure_disturbance.hpp>
#include <disturbances/third_body_gravity.hpp>
#include <environment/global/global_environment.hpp>
#include <logger/logger.hpp>
#include <simulation/spacecraft/structure/structure.hpp>
using namespace s2e;
using namespace s2e::disturbances;
using math::Vector;
static int g_bad;
static std::string g_copied;
static std::vector<logger::ILoggable*> g_logged;
namespace s2e::setting_file_reader {
double IniAccess::ReadDouble(const char*, const char*) { return 1; }
int IniAccess::ReadInt(const char*, const char*) { return 0; }
bool IniAccess::ReadEnable(const char*, const char*) { if (file_path_ != "dist.ini") g_bad = 1; return true; }
std::string IniAccess::ReadString(const char* s, const char* k) {
  if (!strcmp(s, "SETTING_FILES") && !strcmp(k, "disturbance_file")) { if (file_path_ != "sat1.ini") g_bad = 2; return "dist.ini"; }
  if (!strcmp(s, "CELESTIAL_INFORMATION") && file_path_ != "base.ini") g_bad = 3;
  return "x";
}
}  // namespace s2e::setting_file_reader
namespace s2e::disturbances {
bool Geopotential::ReadCoefficientsEgm96(std::string) { return false; }
bool LunarGravityField::ReadCoefficientsGrgm1200a(std::string) { return false; }
}  // namespace s2e::disturbances
namespace s2e::environment {
static std::string g_centre;
int CelestialInformation::CalcBodyIdFromName(const char* n) const { return g_centre == n ? 1 : 0; }
}  // namespace s2e::environment
namespace s2e::logger {
void Logger::CopyFileToLogDirectory(const std::filesystem::path& p) { g_copied = p.string(); }
}  // namespace s2e::logger
struct Fake : Disturbance {
  int calls = 0;
  Vector<3> f, t, a;
  Fake(bool e, bool d) : Disturbance(e, d) {}
  void Update(const environment::LocalEnvironment&, const dynamics::Dynamics&) override { calls++; force_b_N_ = f; torque_b_Nm_ = t; acceleration_i_m_s2_ = a; }
  std::string GetLogHeader() const override { return ""; }
  std::string GetLogValue() const override { return ""; }
};
CHECK(totals) {
  Raw<Disturbances> d;
  Raw<environment::SimulationTime> t;
  Raw<environment::LocalEnvironment> env;
  Raw<dynamics::Dynamics> dyn;
  bool en[3] = {true, (bool)sym_choose("enabled", 0, 1), true}, dep[3] = {true, (bool)sym_choose("dependent", 0, 1), false};
  Fake* k[3];
  for (int i = 0; i < 3; i++) { k[i] = new Fake(en[i], dep[i]); d->disturbances_list_.push_back(k[i]); }
  double held[3][9] = {};
  for (int u = 0; u < 3; u++) {
    int flags = (int)sym_choose("flags", 0, 3);
    t->attitude_update_flag_ = flags & 1;
    t->orbit_update_flag_ = flags >> 1;
    int before[3];
    for (int i = 0; i < 3; i++) {
      before[i] = k[i]->calls;
      k[i]->f = vu::vec3("f", -4, 4); k[i]->t = vu::vec3("t", -4, 4); k[i]->a = vu::vec3("a", -4, 4);
    }
    d->Update(*env.get(), *dyn.get(), t.get());
    double sum[9] = {};
    for (int i = 0; i < 3; i++) {
      bool due = (flags & 2) || ((flags & 1) && dep[i]);
      sym_assert(k[i]->calls - before[i] == (due && en[i]), "updated once when position or attitude changed");
      if (due) for (int c = 0; c < 3; c++) { held[i][c] = en[i] ? k[i]->f[c] : 0; held[i][3 + c] = en[i] ? k[i]->t[c] : 0; held[i][6 + c] = en[i] ? k[i]->a[c] : 0; }
      for (int c = 0; c < 9; c++) sum[c] += held[i][c];
    }
    for (int c = 0; c < 3; c++) {
      sym_assert_close(d->GetForce_b_N()[c], sum[c], 1e-12, "total force");
      sym_assert_close(d->GetTorque_b_Nm()[c], sum[3 + c], 1e-12, "total torque");
      sym_assert_close(d->GetAcceleration_i_m_s2()[c], sum[6 + c], 1e-12, "total acceleration");
    }
  }
}
CHECK(instances) {
  Raw<simulation::SimulationConfiguration> conf;
  Raw<environment::GlobalEnvironment> ge;
  Raw<environment::CelestialInformation> gc;
  Raw<spacecraft::Structure> st;
  conf->spacecraft_file_list_ = {"sat0.ini", "sat1.ini"};
  new (&conf->initialize_base_file_name_) std::string("base.ini");
  const char* centres[3] = {"EARTH", "MOON", "SUN"};
  int c = (int)sym_choose("centre", 0, 2);
  environment::g_centre = centres[c];
  new (&gc->center_body_name_) std::string(centres[c]);
  double mu[2] = {sym_double("mu", 1, 4096), sym_double("mu2", 1, 4096)};
  gc->celestial_body_gravity_constant_m3_s2_ = mu;
  gc->number_of_selected_bodies_ = 2;
  ge->celestial_information_ = gc.get();
  Raw<spacecraft::KinematicsParameters> kin;
  Raw<spacecraft::ResidualMagneticMoment> rmm;
  st->kinematics_parameters_ = kin.get();
  st->residual_magnetic_moment_ = rmm.get();
  Disturbances* d = new Disturbances(conf.get(), 1, st.get(), ge.get());
  std::vector<Disturbance*>& l = d->disturbances_list_;
  int n[7] = {};
  for (auto p : l) {
    if (auto x = dynamic_cast<GravityGradient*>(p)) { n[0]++; sym_assert(x->gravity_constant_m3_s2_ == mu[1], "gravity gradient of the centre body"); }
    if (auto x = dynamic_cast<SolarRadiationPressureDisturbance*>(p)) { n[1]++; sym_assert(&x->surfaces_ == &st->surfaces_ && &x->center_of_gravity_b_m_ == &kin->center_of_gravity_b_m_, "current structure"); }
    if (dynamic_cast<ThirdBodyGravity*>(p)) n[2]++;
    if (dynamic_cast<LunarGravityField*>(p)) n[3]++;
    if (auto x = dynamic_cast<AirDrag*>(p)) { n[4]++; sym_assert(&x->surfaces_ == &st->surfaces_ && &x->center_of_gravity_b_m_ == &kin->center_of_gravity_b_m_, "current structure"); }
    if (auto x = dynamic_cast<MagneticDisturbance*>(p)) { n[5]++; sym_assert(&x->residual_magnetic_moment_ == rmm.get(), "current structure"); }
    if (dynamic_cast<Geopotential*>(p)) n[6]++;
  }
  int e = c == 0, m = c == 1, expect[7] = {1, 1, 1, m, e, e, e};
  for (int i = 0; i < 7; i++) sym_assert(n[i] == expect[i], "disturbances of the centre body");
  for (int i = 0; i < 3; i++) sym_assert(d->GetForce_b_N()[i] == 0 && d->GetTorque_b_Nm()[i] == 0 && d->GetAcceleration_i_m_s2()[i] == 0, "zero before the first update");
  Raw<logger::Logger> lg;
  d->LogSetup(*lg.get());
  sym_assert(lg->log_list_.size() == l.size() && g_copied == "dist.ini" && !g_bad, "all disturbances logged, settings saved");
  for (size_t i = 0; i < l.size(); i++) sym_assert(lg->log_list_[i] == l[i], "all disturbances logged, settings saved");
  delete d;
}
