// SRC: src/simulation/spacecraft/spacecraft.cpp src/simulation/spacecraft/installed_components.cpp
// MODE: real
// BOUNDS: three updates with any attitude, mass, disturbances, component outputs and propagation flags; one or two spacecraft being constructed and destroyed
// STUBS: local environment, disturbances and structure are recorded (E03, F04 and S06 decide them)
// OVERRIDE: local environment, disturbances and structure record their calls
#include "orb.hpp"
#include <components/base/interface_tickable.hpp>
#include <dynamics/attitude/attitude.hpp>
#include <dynamics/dynamics.hpp>
#include <logger/logger.hpp>
#include <simulation/spacecraft/spacecraft.hpp>
using namespace s2e;
using math::Matrix;
using math::Quaternion;
using math::Vector;
namespace s2e::geodesy {
GeodeticPosition::GeodeticPosition() { latitude_rad_ = longitude_rad_ = altitude_m_ = 0; }
}  // namespace s2e::geodesy
static std::string g_order, g_files;
static const void* g_time;
static double g_elapsed;
static Vector<3> g_df, g_dt, g_da, g_cf, g_ct, g_tick_torque, g_after_tick;
static spacecraft::Spacecraft* g_sc;
static const void* g_made[8];
namespace s2e::dynamics::orbit {
std::string Orbit::GetLogHeader() const { return ""; }
std::string Orbit::GetLogValue() const { return ""; }
}  // namespace s2e::dynamics::orbit
namespace s2e::dynamics::thermal {
void Temperature::Propagate(const environment::LocalCelestialInformation*, const double) { g_order += "H"; }
std::string Temperature::GetLogHeader() const { return ""; }
std::string Temperature::GetLogValue() const { return ""; }
}  // namespace s2e::dynamics::thermal
namespace s2e::environment {
LocalEnvironment::LocalEnvironment(const simulation::SimulationConfiguration* c, const GlobalEnvironment* g, const int i) { g_made[0] = c; g_made[1] = g; g_order += "env" + std::to_string(i); }
LocalEnvironment::~LocalEnvironment() { g_order += "~env"; }
void LocalEnvironment::Update(const dynamics::Dynamics* d, const SimulationTime* t) {
  g_order += "E";
  sym_assert(d == &g_sc->GetDynamics() && t == g_time, "environment at the spacecraft's own state");
}
void LocalEnvironment::LogSetup(logger::Logger&) { g_order += "logE"; }
}  // namespace s2e::environment
namespace s2e::disturbances {
Disturbances::Disturbances(const simulation::SimulationConfiguration* c, const int i, const spacecraft::Structure* s, const environment::GlobalEnvironment* g) {
  g_made[2] = c; g_made[3] = s; g_made[4] = g; g_order += "dist" + std::to_string(i);
}
Disturbances::~Disturbances() { g_order += "~dist"; }
void Disturbances::Update(const environment::LocalEnvironment& e, const dynamics::Dynamics& d, const environment::SimulationTime* t) {
  g_order += "D";
  sym_assert(&e == &g_sc->GetLocalEnvironment() && &d == &g_sc->GetDynamics() && t == g_time, "disturbances in the spacecraft's own environment");
  total_force_b_N_ = g_df; total_torque_b_Nm_ = g_dt; total_acceleration_i_m_s2_ = g_da;
}
void Disturbances::LogSetup(logger::Logger&) { g_order += "logD"; }
}  // namespace s2e::disturbances
namespace s2e::spacecraft {
Structure::Structure(const simulation::SimulationConfiguration* c, const int i) { g_made[5] = c; g_order += "st" + std::to_string(i); }
Structure::~Structure() { g_order += "~st"; }
}  // namespace s2e::spacecraft
namespace s2e::dynamics {
Dynamics::Dynamics(const simulation::SimulationConfiguration* c, const environment::SimulationTime* t, const environment::LocalEnvironment* l, const int i, spacecraft::Structure* s, simulation::RelativeInformation* r) {
  structure_ = s; local_environment_ = l; g_made[6] = t; g_made[7] = r; g_order += "dyn" + std::to_string(i);
  sym_assert(c == g_made[0], "one configuration");
}
Dynamics::~Dynamics() { g_order += "~dyn"; }
}  // namespace s2e::dynamics
namespace s2e::logger {
static const void* g_logged[8];
static int g_nlogged;
void Logger::AddLogList(ILoggable* l) { g_logged[g_nlogged++] = l; g_order += "log"; }
void Logger::CopyFileToLogDirectory(const std::filesystem::path& p) { g_files += p.string() + ";"; }
}  // namespace s2e::logger
namespace s2e::simulation {
static int g_reg = -1, g_rem = -1;
static const void* g_regd;
void RelativeInformation::RegisterDynamicsInfo(const size_t i, const dynamics::Dynamics* d) { g_reg = (int)i; g_regd = d; }
void RelativeInformation::RemoveDynamicsInfo(const size_t i) { g_rem = (int)i; g_order += "rm"; }
}  // namespace s2e::simulation
struct Orb : dynamics::orbit::Orbit {
  Vector<3> seen, next;
  Orb() : Orbit(nullptr) {}
  void Propagate(const double t, const double) override { g_order += "O"; sym_assert(t == g_elapsed, "end of the step"); seen = spacecraft_acceleration_i_m_s2_; }
};
struct Att : dynamics::attitude::Attitude {
  Vector<3> seen;
  Quaternion next{0, 0, 0, 1};
  Att(const Matrix<3, 3>& i) : Attitude(i, "a") {}
  void Propagate(const double t) override { g_order += "A"; sym_assert(t == g_elapsed, "end of the step"); seen = torque_b_Nm_; quaternion_i2b_ = next; }
};
struct Part : components::ITickable {
  int n = 0;
  void Tick(const unsigned int c) override { sym_assert((int)c == n, "counted"); n++; g_order += "T"; g_tick_torque = g_after_tick; }
  void FastTick(const unsigned int) override { g_order += "F"; }
};
struct Comps : spacecraft::InstalledComponents {
  Vector<3> GenerateForce_b_N() override { g_order += "f"; return g_cf; }
  Vector<3> GenerateTorque_b_Nm() override { g_order += "t"; return g_ct + g_tick_torque; }
  void ComponentInterference() override { g_order += "I"; }
  void LogSetup(logger::Logger&) override { g_order += "logC"; }
  ~Comps() override { g_order += "~comp"; }
};
static bool before(char a, char b) {  // every a comes before every b
  size_t x = g_order.rfind(a), y = g_order.find(b);
  return x == std::string::npos || y == std::string::npos || x < y;
}
static int count(char a) { int n = 0; for (char c : g_order) n += c == a; return n; }
CHECK(step) {
  Raw<spacecraft::Spacecraft> sc;
  spacecraft::Spacecraft* s = sc.get();
  new (&s->clock_generator_) environment::ClockGenerator;
  g_sc = s;
  Matrix<3, 3> I = math::MakeIdentityMatrix<3>();
  Att a(I);
  Orb o;
  Raw<dynamics::thermal::Temperature> th;
  Raw<dynamics::Dynamics> dyn;
  Raw<environment::LocalEnvironment> env;
  Raw<environment::LocalCelestialInformation> lc;
  Raw<disturbances::Disturbances> dist;
  Raw<spacecraft::Structure> st;
  Raw<spacecraft::KinematicsParameters> kin;
  Raw<environment::SimulationTime> t;
  Comps c;
  Part tick;
  kin->mass_kg_ = sym_double("mass", 0.5, 100);
  st->kinematics_parameters_ = kin.get();
  dyn->attitude_ = &a; dyn->orbit_ = &o; dyn->temperature_ = th.get(); dyn->structure_ = st.get();
  env->celestial_information_ = lc.get();
  s->dynamics_ = dyn.get(); s->local_environment_ = env.get(); s->disturbances_ = dist.get(); s->structure_ = st.get(); s->components_ = &c;
  s->clock_generator_.RegisterComponent(&tick);
  g_time = t.get();
  int ticks = 0;
  for (int u = 0; u < 3; u++) {
    int flags = u == 1 ? (int)sym_choose("flags", 0, 7) : 7;
    t->attitude_update_flag_ = flags & 1; t->orbit_update_flag_ = flags >> 1 & 1; t->component_update_flag_ = flags >> 2;
    t->elapsed_time_sec_ = g_elapsed = sym_double("elapsed", 0, 1e5);
    Quaternion q = a.quaternion_i2b_ = vu::unit_quat("q");
    a.next = vu::unit_quat("next");
    g_df = vu::vec3("df", -4, 4); g_dt = vu::vec3("dt", -4, 4); g_da = vu::vec3("da", -4, 4);
    g_cf = vu::vec3("cf", -4, 4); g_ct = vu::vec3("ct", -4, 4); g_after_tick = vu::vec3("tick", -4, 4);
    o.seen = a.seen = Vector<3>(0.0);
    Vector<3> held = g_tick_torque;
    g_order = "";
    s->spacecraft::Spacecraft::Update(t.get());
    ticks += flags >> 2;
    if (flags >> 2) held = g_after_tick;
    sym_assert(tick.n == ticks && count('E') == 1 && count('D') == 1 && count('T') == flags >> 2 && count('I') == 1 && count('f') == 1 && count('t') == 1 && count('A') == (flags & 1) && count('O') == (flags >> 1 & 1), "everything once, by its flag");
    sym_assert(before('E', 'D') && before('E', 'T') && before('T', 'I') && before('T', 't') && before('I', 't') && before('I', 'f') && before('D', 'A') && before('t', 'A') && before('f', 'O') && before('D', 'O'), "environment, then forces, then motion");
    Vector<3> acc = g_da + (1.0 / kin->mass_kg_) * q.InverseFrameConversion(g_df + g_cf);
    if (flags & 1) vu::close_vec(a.seen, g_dt + g_ct + held, 1e-9, "torque of this step only");
    if (flags >> 1 & 1) vu::close_vec(o.seen, acc, 1e-6, "acceleration of this step only");
  }
  s->spacecraft::Spacecraft::Clear();
  for (int k = 0; k < 3; k++) { sym_assert_close(a.torque_b_Nm_[k], 0, 0, "cleared torque"); sym_assert_close(o.spacecraft_acceleration_i_m_s2_[k], 0, 0, "cleared acceleration"); }
}
CHECK(life) {
  Raw<simulation::SimulationConfiguration> conf;
  Raw<environment::GlobalEnvironment> ge;
  Raw<environment::SimulationTime> t;
  Raw<simulation::RelativeInformation> rel;
  Raw<logger::Logger> lg;
  ge->simulation_time_ = t.get();
  conf->main_logger_ = lg.get();
  conf->spacecraft_file_list_ = {"sat0.ini", "sat1.ini", "sat2.ini"};
  int id = (int)sym_choose("id", 0, 2);
  bool with = sym_choose("relative", 0, 1);
  simulation::RelativeInformation* r = with ? rel.get() : nullptr;
  spacecraft::Spacecraft* s = new spacecraft::Spacecraft(conf.get(), ge.get(), id, r);
  sym_assert((int)s->GetSpacecraftId() == id, "id");
  sym_assert(g_made[0] == conf.get() && g_made[1] == ge.get() && g_made[2] == conf.get() && g_made[3] == s->structure_ && g_made[4] == ge.get() && g_made[5] == conf.get() && g_made[6] == t.get() && g_made[7] == r, "wired to each other");
  sym_assert(s->dynamics_->structure_ == s->structure_ && s->dynamics_->local_environment_ == s->local_environment_, "dynamics of its own structure and environment");
  for (const char* p : {"env", "dist", "st", "dyn"}) sym_assert(g_order.find(p + std::to_string(id)) != std::string::npos, "settings of its own id");
  sym_assert(g_files == "sat" + std::to_string(id) + ".ini;", "settings saved");
  sym_assert(with ? simulation::g_reg == id && simulation::g_regd == s->dynamics_ : simulation::g_reg == -1, "registered as reference");
  Comps* c = new Comps;
  s->components_ = c;
  s->dynamics_->attitude_ = (dynamics::attitude::Attitude*)nullptr;
  s->dynamics_->orbit_ = nullptr;
  s->dynamics_->temperature_ = nullptr;
  g_order = "";
  s->LogSetup(*lg.get());
  sym_assert(logger::g_nlogged == 3 && g_order.find("logE") != std::string::npos && g_order.find("logD") != std::string::npos && g_order.find("logC") != std::string::npos, "all parts logged");
  g_order = "";
  delete s;
  for (const char* p : {"~env", "~dist", "~st", "~dyn", "~comp"}) sym_assert(g_order.find(p) != std::string::npos && g_order.find(p) == g_order.rfind(p), "owned parts released once");
  sym_assert(with ? simulation::g_rem == id && g_order.find("rm") < g_order.find("~dyn") : simulation::g_rem == -1, "no dangling reference");
}
CHECK(no_components) {
  spacecraft::InstalledComponents c;
  for (int k = 0; k < 3; k++) sym_assert_close(c.GenerateForce_b_N()[k], 0, 0, "no force"), sym_assert_close(c.GenerateTorque_b_Nm()[k], 0, 0, "no torque");
}
