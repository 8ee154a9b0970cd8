// SRC: src/dynamics/dynamics.cpp
// MODE: real
// BOUNDS: every combination of propagation flags; two updates with a force and torque reset in between
// OVERRIDE: thermal propagation only recorded
#include "orb.hpp"
#include <dynamics/dynamics.hpp>
using namespace s2e;
using namespace s2e::dynamics;
using math::Quaternion;
using math::Vector;
namespace s2e::geodesy {
GeodeticPosition::GeodeticPosition() { latitude_rad_ = longitude_rad_ = altitude_m_ = 0; }
}  // namespace s2e::geodesy
namespace s2e::dynamics::orbit {
std::string Orbit::GetLogHeader() const { return ""; }
std::string Orbit::GetLogValue() const { return ""; }
}  // namespace s2e::dynamics::orbit
static double g_att_t, g_orb_t, g_jd, g_th_t;
static int g_na, g_no, g_nt;
static const void* g_lc;
namespace s2e::dynamics::thermal {
void Temperature::Propagate(const environment::LocalCelestialInformation* lc, const double t) { g_nt++; g_th_t = t; g_lc = lc; }
}  // namespace s2e::dynamics::thermal
struct Orb : dynamics::orbit::Orbit {
  Vector<3> next;
  Orb() : Orbit(nullptr) {}
  void Propagate(const double t, const double jd) override { g_no++; g_orb_t = t; g_jd = jd; spacecraft_velocity_i_m_s_ = next; }
};
struct Att : attitude::Attitude {
  Quaternion next{0, 0, 0, 1};
  Att(const math::Matrix<3, 3>& i) : Attitude(i, "a") {}
  void Propagate(const double t) override { g_na++; g_att_t = t; quaternion_i2b_ = next; }
};
CHECK(propagated_by_their_flags) {
  math::Matrix<3, 3> I = math::MakeIdentityMatrix<3>();
  Att a(I);
  Orb o;
  Raw<thermal::Temperature> th;
  Raw<Dynamics> d;
  Raw<environment::SimulationTime> t;
  Raw<environment::LocalCelestialInformation> lc;
  d->attitude_ = &a;
  d->orbit_ = &o;
  d->temperature_ = th.get();
  Quaternion q0 = vu::unit_quat("q0");
  Vector<3> v0 = vu::vec3("v0", -5, 5);
  a.quaternion_i2b_ = q0;
  o.spacecraft_velocity_i_m_s_ = v0;
  a.next = vu::unit_quat("q1");
  o.next = vu::vec3("v1", -5, 5);
  t->elapsed_time_sec_ = sym_double("elapsed", 0, 1e5);
  t->current_jd_ = sym_double("jd", 2458000, 2459000);
  bool fa = sym_choose("attitude", 0, 1), fo = sym_choose("orbit", 0, 1), ft = sym_choose("thermal", 0, 1);
  t->attitude_update_flag_ = fa;
  t->orbit_update_flag_ = fo;
  t->thermal_update_flag_ = ft;
  d->Update(t.get(), lc.get());
  sym_assert(g_na == fa && g_no == fo && g_nt == ft, "each propagator runs once, when its flag is set");
  if (fa) sym_assert(g_att_t == t->elapsed_time_sec_, "end time of the attitude");
  if (fo) sym_assert(g_orb_t == t->elapsed_time_sec_ && g_jd == t->current_jd_, "end time of the orbit");
  if (ft) sym_assert(g_th_t == t->elapsed_time_sec_ && g_lc == lc.get(), "end time of the temperature");
  Quaternion q = fa ? a.next : q0;
  vu::close_vec(o.GetVelocity_b_m_s(), q.FrameConversion(fo ? o.next : v0), 1e-9, "body frame velocity of the new attitude and orbit");
  Vector<3> f = vu::vec3("force", -1, 1), m = vu::vec3("torque", -1, 1);
  a.AddTorque_b_Nm(m);
  o.AddForce_i_N(f, 2.0);
  d->ClearForceTorque();
  for (int i = 0; i < 3; i++) sym_assert(a.torque_b_Nm_[i] == 0 && o.spacecraft_acceleration_i_m_s2_[i] == 0, "forces and torques are cleared");
  // forces and torques reach the propagators
  Raw<spacecraft::Structure> st;
  Raw<spacecraft::KinematicsParameters> kp;
  st->kinematics_parameters_ = kp.get();
  d->structure_ = st.get();
  double mass = kp->mass_kg_ = sym_double("mass", 0.5, 10);
  a.quaternion_i2b_ = q;
  Vector<3> da = vu::vec3("acceleration", -1, 1);
  d->AddTorque_b_Nm(m);
  d->AddForce_b_N(f);
  d->AddAcceleration_i_m_s2(da);
  vu::close_vec(a.torque_b_Nm_, m, 0, "torque");
  Vector<3> fi = q.InverseFrameConversion(f);
  for (int i = 0; i < 3; i++) sym_assert_close((o.spacecraft_acceleration_i_m_s2_[i] - da[i]) * mass, fi[i], 1e-9, "force over mass and acceleration");
}
