// SRC: src/components/ideal/angular_velocity_observer.cpp src/components/ideal/attitude_observer.cpp src/components/ideal/force_generator.cpp src/components/ideal/torque_generator.cpp src/components/ideal/orbit_observer.cpp src/components/base/component.cpp src/components/ports/power_port.cpp
// MODE: real
// BOUNDS: any attitude, rate, orbit, command, standard deviation and noise draw (within 3 deviations) in the boxes; command histories of up to 3 steps
// OVERRIDE: normal random numbers are arbitrary values
// STUBS: Orbit::CalcQuaternion_i2lvlh returns an arbitrary unit quaternion (decided in D04)
#include "open.hpp"
#include "noise.hpp"
#include <components/ideal/angular_velocity_observer.hpp>
#include <components/ideal/attitude_observer.hpp>
#include <components/ideal/force_generator.hpp>
#include <components/ideal/orbit_observer.hpp>
#include <components/ideal/torque_generator.hpp>
using namespace s2e;
using namespace s2e::components;
using math::Vector;
using math::Quaternion;
static Quaternion g_rtn{0, 0, 0, 1};
namespace s2e::dynamics::orbit {
math::Quaternion Orbit::CalcQuaternion_i2lvlh() const { return g_rtn; }
}  // namespace s2e::dynamics::orbit
struct Att : dynamics::attitude::Attitude {
  Att() : Attitude(math::Matrix<3, 3>(0.0), "a") {}
  void Propagate(const double) override {}
};
struct Orb : dynamics::orbit::Orbit {
  void Propagate(const double, const double) override {}
};
struct World {
  environment::ClockGenerator g;
  Att att;
  Raw<Orb> orb;
  Raw<dynamics::Dynamics> d;
  World() {
    g.ClearTimerCount();
    d->attitude_ = &att;
    d->orbit_ = orb.get();
    g_draws = 0;
  }
};
static double dot(const Vector<3>& a, const Vector<3>& b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
// the angular velocity observer measures the body rate through the sensor model
CHECK(angular_velocity_observer) {
  World w;
  math::Matrix<3, 3> sf(0.0);
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) sf[i][j] = sym_double("scale", -2, 2);
  Vector<3> range(10.0), bias = vu::vec3("bias", -1, 1), zero(0.0), sd;
  for (int i = 0; i < 3; i++) sd[i] = sym_double("deviation", 0.001, 0.1);
  Sensor<3> base(sf, range, 100.0 * Vector<3>(1.0), bias, sd, 0.1, zero, Vector<3>(1.0));
  AngularVelocityObserver* o = new AngularVelocityObserver(1, &w.g, base, w.att);
  Vector<3> r = w.att.angular_velocity_b_rad_s_ = vu::vec3("rate", -1, 1);
  w.g.TickToComponents();
  sym_assert(g_draws == 3, "one draw per axis");
  for (int i = 0; i < 3; i++) sym_assert_close(o->GetAngularVelocity_b_rad_s()[i], sf[i][0] * r[0] + sf[i][1] * r[1] + sf[i][2] * r[2] + bias[i] + sd[i] * g_draw[i], 1e-9, "measured rate");
}
// the attitude observer reports the true attitude turned by the noise angle about the random direction
CHECK(attitude_observer) {
  World w;
  Quaternion q = w.att.quaternion_i2b_ = vu::unit_quat("q_i2b");
  bool noisy = sym_choose("noisy", 0, 1);
  double sd = noisy ? sym_double("deviation", 1e-4, 0.5) : 0.0;
  AttitudeObserver* o = new AttitudeObserver(1, &w.g, sd, w.att);
  w.g.TickToComponents();
  Quaternion p = o->GetQuaternion_i2b();
  if (!noisy) {
    vu::close_quat(p, q, 1e-9, "no noise, true attitude");
    return;
  }
  sym_assert(g_draws == 4, "direction and angle");
  double n2 = g_draw[0] * g_draw[0] + g_draw[1] * g_draw[1] + g_draw[2] * g_draw[2];
  sym_assume(n2 > 1e-6);
  // error rotation e with p = e q: e = p q^-1 has scalar part cos(angle / 2) and vector part along the random direction
  Quaternion e = p * q.Conjugate();
  double h = sd * g_draw[3] / 2;
  sym_assert_close(e[3], std::cos(h), 1e-9, "turned by the noise angle");
  double n = std::sqrt(n2);
  for (int i = 0; i < 3; i++) sym_assert_close(e[i] * n, std::sin(h) * g_draw[i], 1e-6, "about the random direction");
}
// the force generator gives the commanded force; noise turns and scales it only when commanded
CHECK(force_without_noise) {
  World w;
  ForceGenerator f(1, &w.g, 0.0, 0.0, w.d.get());
  w.att.quaternion_i2b_ = vu::unit_quat("q_i2b");
  g_rtn = vu::unit_quat("q_rtn");
  Vector<3> c = vu::vec3("command", -10, 10), b;
  int frame = (int)sym_choose("frame", 0, 2);
  if (frame == 0) f.SetForce_b_N(c), b = c;
  if (frame == 1) f.SetForce_i_N(c), b = w.att.quaternion_i2b_.FrameConversion(c);
  if (frame == 2) f.SetForce_rtn_N(c), b = w.att.quaternion_i2b_.FrameConversion(g_rtn.InverseFrameConversion(c));
  vu::close_vec(f.ordered_force_b_N_, b, 1e-9, "ordered force in the body frame");
}
static void draws_ok(int from) { sym_assume(g_draw[from] * g_draw[from] + g_draw[from + 1] * g_draw[from + 1] + g_draw[from + 2] * g_draw[from + 2] > 1e-6); }
CHECK(force_noise) {
  World w;
  double ms = 0.25, ds = 0.125;
  ForceGenerator f(1, &w.g, ms, ds, w.d.get());
  double F = sym_double("magnitude", 0.01, 10);
  int ax = (int)sym_choose("axis", 0, 2);
  Vector<3> c(0.0);
  c[ax] = F;
  f.SetForce_b_N(c);
  w.g.TickToComponents();
  sym_assert(g_draws == 5, "direction, angle and magnitude draws");
  draws_ok(0);
  Vector<3> g = f.GetGeneratedForce_b_N();
  double M = F + ms * g_draw[4];
  sym_assert_close(dot(g, g), M * M, 1e-6, "magnitude is commanded magnitude plus noise");
  double a = g_draw[0], b2 = g_draw[1] * g_draw[1] + g_draw[0] * g_draw[0] + g_draw[2] * g_draw[2] - g_draw[ax] * g_draw[ax];
  if (b2 > 1e-3) sym_assert_close(g[ax], M * std::cos(ds * g_draw[3]), 1e-6, "direction turned by the noise angle");
}
CHECK(force_frames) {
  World w;
  ForceGenerator f(1, &w.g, 0.25, 0.125, w.d.get());
  w.att.quaternion_i2b_ = vu::unit_quat("q_i2b");
  g_rtn = vu::unit_quat("q_rtn");
  bool zero = sym_choose("zero", 0, 1);
  Vector<3> c(0.0);
  if (!zero) c[2] = 2.0;
  f.SetForce_b_N(c);
  w.g.TickToComponents();
  if (zero) {
    sym_assert(g_draws == 0, "no noise without a command");
    for (int i = 0; i < 3; i++) sym_assert(f.GetGeneratedForce_b_N()[i] == 0 && f.generated_force_i_N_[i] == 0 && f.generated_force_rtn_N_[i] == 0, "no force without a command");
    return;
  }
  f.generated_force_b_N_ = vu::vec3("junk", -1, 1);
  static_cast<Component&>(f).MainRoutine(1);
  Vector<3> b = f.GetGeneratedForce_b_N();
  Vector<3> i = w.att.quaternion_i2b_.InverseFrameConversion(b);
  vu::close_vec(f.GetGeneratedForce_i_N(), i, 1e-9, "same force in the inertial frame");
  vu::close_vec(f.GetGeneratedForce_rtn_N(), g_rtn.FrameConversion(i), 1e-9, "same force in the RTN frame");
  static_cast<Component&>(f).PowerOffRoutine();
  for (int k = 0; k < 3; k++) sym_assert(f.GetGeneratedForce_b_N()[k] == 0 && f.GetGeneratedForce_i_N()[k] == 0 && f.GetGeneratedForce_rtn_N()[k] == 0, "no force without power");
}
// commands are held and replaced
CHECK(force_history) {
  World w;
  ForceGenerator f(1, &w.g, 0.0, 0.0, w.d.get());
  Vector<3> cur(0.0);
  for (int k = 0; k < 3; k++) {
    if (sym_choose("new", 0, 1)) {
      Vector<3> c(0.0);
      c[(int)sym_choose("axis", 0, 2)] = sym_double("command", 0.01, 10);
      f.SetForce_b_N(c);
      cur = c;
    }
    w.g.TickToComponents();
    g_draws = 0;
    for (int i = 0; i < 3; i++) sym_assert_close(f.GetGeneratedForce_b_N()[i], cur[i], 1e-9, "the latest command");
  }
}
CHECK(torque_noise) {
  World w;
  double ms = 0.25, ds = 0.125;
  TorqueGenerator f(1, &w.g, ms, ds, w.d.get());
  double F = sym_double("magnitude", 0.01, 10);
  int ax = (int)sym_choose("axis", 0, 3);
  Vector<3> c(0.0);
  if (ax < 3) c[ax] = F;
  f.SetTorque_b_Nm(c);
  w.g.TickToComponents();
  Vector<3> g = f.GetGeneratedTorque_b_Nm();
  if (ax == 3) {
    sym_assert(g_draws == 0 && g[0] == 0 && g[1] == 0 && g[2] == 0, "no torque without a command");
    return;
  }
  sym_assert(g_draws == 5, "direction, angle and magnitude draws");
  draws_ok(0);
  double M = F + ms * g_draw[4];
  sym_assert_close(dot(g, g), M * M, 1e-6, "magnitude is commanded magnitude plus noise");
  double b2 = g_draw[1] * g_draw[1] + g_draw[0] * g_draw[0] + g_draw[2] * g_draw[2] - g_draw[ax] * g_draw[ax];
  if (b2 > 1e-3) sym_assert_close(g[ax], M * std::cos(ds * g_draw[3]), 1e-6, "direction turned by the noise angle");
  static_cast<Component&>(f).PowerOffRoutine();
  for (int k = 0; k < 3; k++) sym_assert(f.GetGeneratedTorque_b_Nm()[k] == 0, "no torque without power");
}
CHECK(torque_history) {
  World w;
  TorqueGenerator f(1, &w.g, 0.0, 0.0, w.d.get());
  Vector<3> cur(0.0);
  for (int k = 0; k < 3; k++) {
    if (sym_choose("new", 0, 1)) {
      Vector<3> c(0.0);
      c[(int)sym_choose("axis", 0, 2)] = sym_double("command", 0.01, 10);
      f.SetTorque_b_Nm(c);
      cur = c;
    }
    w.g.TickToComponents();
    g_draws = 0;
    for (int i = 0; i < 3; i++) sym_assert_close(f.GetGeneratedTorque_b_Nm()[i], cur[i], 1e-9, "the latest command");
  }
}
// the orbit observer adds the noise of each axis in the stated frame
CHECK(orbit_observer) {
  World w;
  g_rtn = vu::unit_quat("q_rtn");
  Vector<3> r = w.orb->spacecraft_position_i_m_ = vu::vec3("position", -1e8, 1e8), v = w.orb->spacecraft_velocity_i_m_s_ = vu::vec3("velocity", -1e4, 1e4);
  Vector<6> sd;
  for (int i = 0; i < 6; i++) sd[i] = sym_double("deviation", 0.001, 100);
  bool rtn = sym_choose("rtn", 0, 1);
  OrbitObserver* o = new OrbitObserver(1, &w.g, rtn ? NoiseFrame::kRtn : NoiseFrame::kInertial, sd, *w.orb);
  w.g.TickToComponents();
  sym_assert(g_draws == 6, "one draw per axis");
  // draws are taken in the order of the standard deviations they scale
  Vector<3> ep, ev, p = o->GetPosition_i_m() - r, u = o->GetVelocity_i_m_s() - v;
  if (rtn) p = g_rtn.FrameConversion(p), u = g_rtn.FrameConversion(u);
  for (int i = 0; i < 3; i++) {
    double a = p[i], b = u[i];
    int k = rtn ? 2 * i : 2 * i;
    sym_assert_close(a, sd[i] * g_draw[k], 1e-6, "position noise of the axis");
    sym_assert_close(b, sd[i + 3] * g_draw[k + 1], 1e-6, "velocity noise of the axis");
  }
}
CHECK(noise_frame_names) {
  sym_choose("none", 0, 0);
  sym_assert(SetNoiseFrame("INERTIAL") == NoiseFrame::kInertial && SetNoiseFrame("RTN") == NoiseFrame::kRtn, "names of the frames");
}
