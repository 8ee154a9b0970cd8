// SRC: src/components/real/aocs/reaction_wheel.cpp src/components/real/aocs/reaction_wheel_ode.cpp src/components/real/aocs/reaction_wheel_jitter.cpp src/components/base/component.cpp src/components/ports/power_port.cpp
// MODE: real
// BOUNDS: any mounting quaternion, rotor inertia, torque limit, command, initial speed, friction coefficients, time constant in the boxes; dead times of 0..3 steps; histories of up to 5 steps; jitter of 2 harmonics over 2 fast steps
// STUBS: std::random_device gives a fixed value (initial jitter phases)
#include "open.hpp"
#include <components/real/aocs/reaction_wheel.hpp>
#include <math_physics/math/constants.hpp>
using namespace s2e;
using namespace s2e::components;
using math::Vector;
static const double H = 0.125;
struct Par {
  double inertia = 2e-3, tmax = 0.5, rpm = 6000, dead = 0, tau = 0, stop = 0.01, w0 = 0;
  math::Quaternion q{0, 0, 0, 1};
  Vector<3> pos{0.0};
  std::vector<double> fr;
  bool jitter = false, drive = true;
};
static ReactionWheelJitter* no_jitter() {
  static std::vector<std::vector<double>> e;
  static ReactionWheelJitter j(e, e, H, math::Quaternion(0, 0, 0, 1), 100, 0.1, 1, false);
  return &j;
}
static ReactionWheel* make(environment::ClockGenerator* g, const Par& p, ReactionWheelJitter* j = nullptr, PowerPort* pp = nullptr) {
  if (!j) j = no_jitter();
  if (pp) return new ReactionWheel(1, g, pp, 1, H, p.inertia, p.tmax, p.rpm, p.q, p.pos, p.dead, p.tau, p.fr, p.stop, p.jitter, false, 1, *j, p.drive, p.w0);
  return new ReactionWheel(1, g, 1, H, p.inertia, p.tmax, p.rpm, p.q, p.pos, p.dead, p.tau, p.fr, p.stop, p.jitter, false, 1, *j, p.drive, p.w0);
}
// torque on the body is minus the change of the rotor momentum, along the mounted axis
CHECK(momentum_exchange) {
  environment::ClockGenerator g;
  g.ClearTimerCount();
  Par p;
  p.q = vu::unit_quat("q_b2c");
  p.inertia = sym_double("inertia", 1e-3, 1e-2);
  p.w0 = sym_double("w0", -100, 100);
  ReactionWheel* rw = make(&g, p);
  double cmd = sym_double("torque", -0.4, 0.4);
  rw->SetTargetTorque_rw_Nm(cmd);
  Vector<3> axis = p.q.InverseFrameConversion(Vector<3>{0.0});
  Vector<3> ez(0.0);
  ez[2] = 1.0;
  axis = p.q.InverseFrameConversion(ez);
  double w = p.w0;
  sym_assert(rw->GetAngularVelocity_rad_s() == w, "initial speed");
  for (int k = 0; k < 2; k++) {
    g.TickToComponents();
    double w1 = rw->GetAngularVelocity_rad_s();
    // buffer of one step: the command acts from the second step on
    sym_assert_close(w1, k == 0 ? w : w + H * cmd / p.inertia, 1e-9, "speed follows the commanded torque");
    vu::close_vec(rw->GetOutputTorque_b_Nm(), (-p.inertia * (w1 - w) / H) * axis, 1e-9, "torque on the body is minus the momentum change");
    vu::close_vec(rw->GetAngularMomentum_b_Nms(), (p.inertia * w1) * axis, 1e-9, "rotor momentum along the wheel axis");
    sym_assert_close(rw->GetAngularVelocity_rpm(), w1 * math::rad_s_to_rpm, 1e-9, "speed in rpm");
    w = w1;
  }
}
// torque limit and sign conventions
CHECK(torque_limit) {
  environment::ClockGenerator g;
  g.ClearTimerCount();
  Par p;
  p.tmax = sym_double("max_torque", 0.01, 1);
  ReactionWheel* rw = make(&g, p);
  double cmd = sym_double("torque", -3, 3);
  bool body = sym_choose("body_frame_command", 0, 1) != 0;
  if (body) rw->SetTargetTorque_b_Nm(cmd); else rw->SetTargetTorque_rw_Nm(cmd);
  g.TickToComponents();
  g.TickToComponents();
  double e = cmd > p.tmax ? p.tmax : cmd < -p.tmax ? -p.tmax : cmd;
  sym_assert_close(rw->GetOutputTorque_b_Nm()[2], body ? e : -e, 1e-9, "commanded torque within the limit; a body command acts on the body");
}
// dead time and first order lag
CHECK(delay) {
  environment::ClockGenerator g;
  g.ClearTimerCount();
  Par p;
  int steps = (int)sym_choose("dead_steps", 0, 2);
  p.dead = steps * H + 0.25 * H;
  p.tau = sym_double("time_constant", 0, 2);
  ReactionWheel* rw = make(&g, p);
  double c[5], lag = 0, w = 0;
  for (int k = 0; k < 5; k++) {
    c[k] = sym_double("torque", -0.4, 0.4);
    rw->SetTargetTorque_rw_Nm(c[k]);
    g.TickToComponents();
    double in = k >= steps + 1 ? c[k - steps - 1] / p.inertia : 0.0;
    lag = (p.tau * lag + H * in) / (p.tau + H);
    w += H * lag;
    sym_assert_close(rw->GetAngularVelocity_rad_s(), w, 1e-6, "commands act after the dead time through a first-order lag");
  }
}
// speed limit: no acceleration beyond the limit, deceleration always possible
CHECK(speed_limit) {
  environment::ClockGenerator g;
  g.ClearTimerCount();
  Par p;
  p.w0 = sym_double("w0", -120, 120);
  ReactionWheel* rw = make(&g, p);
  double lim = sym_double("limit_rpm", 60, 900);
  rw->SetVelocityLimit_rpm(lim);
  double L = lim * math::rpm_to_rad_s;
  double cmd = sym_double("torque", -0.4, 0.4);
  rw->SetTargetTorque_rw_Nm(cmd);
  g.TickToComponents();
  g.TickToComponents();
  double w = rw->GetAngularVelocity_rad_s(), a = cmd / p.inertia;
  double lo = p.w0 < p.w0 + H * a ? p.w0 : p.w0 + H * a, hi = p.w0 < p.w0 + H * a ? p.w0 + H * a : p.w0;
  sym_assert(w >= lo - 1e-9 && w <= hi + 1e-9, "speed moves between no and full acceleration");
  if (p.w0 > L && cmd > 0) sym_assert_close(w, p.w0, 1e-9, "no acceleration above the limit");
  if (p.w0 < -L && cmd < 0) sym_assert_close(w, p.w0, 1e-9, "no acceleration below the negative limit");
  if (cmd <= 0 && p.w0 + H * a >= -L) sym_assert_close(w, p.w0 + H * a, 1e-9, "full deceleration from above");
  if (cmd >= 0 && p.w0 + H * a <= L) sym_assert_close(w, p.w0 + H * a, 1e-9, "full acceleration below the limit");
}
CHECK(speed_limit_setting) {
  environment::ClockGenerator g;
  g.ClearTimerCount();
  Par p;
  p.rpm = 100;
  p.w0 = 11;
  ReactionWheel* rw = make(&g, p);
  if (sym_choose("set", 0, 1)) rw->SetVelocityLimit_rpm(sym_double("limit_rpm", 100, 1000));
  rw->SetTargetTorque_rw_Nm(0.3);
  g.TickToComponents();
  g.TickToComponents();
  sym_assert_close(rw->GetAngularVelocity_rad_s(), 11, 1e-9, "the limit never exceeds the wheel's maximum speed");
}
// coasting: friction always opposes the rotation, slow rotation stops
CHECK(coasting) {
  environment::ClockGenerator g;
  g.ClearTimerCount();
  Par p;
  p.drive = false;
  p.w0 = sym_double("w0", -100, 100);
  p.stop = sym_double("stop_limit", 0.01, 1);
  p.fr.push_back(sym_double("f0", 0, 0.01));
  p.fr.push_back(sym_double("f1", 0, 0.01));
  p.fr.push_back(sym_double("f2", 0, 1e-4));
  double aw = p.w0 < 0 ? -p.w0 : p.w0;
  sym_assume(aw >= p.stop || aw <= p.stop - 1e-9);
  ReactionWheel* rw = make(&g, p);
  rw->SetTargetTorque_rw_Nm(sym_double("torque", -0.4, 0.4));
  g.TickToComponents();
  double w = rw->GetAngularVelocity_rad_s(), f = p.fr[0] + p.fr[1] * aw + p.fr[2] * aw * aw;
  if (aw < p.stop) sym_assert_close(w, 0.0, 1e-12, "slow rotation stops");
  else sym_assert_close(w, p.w0 > 0 ? p.w0 - H * f : p.w0 + H * f, 1e-9, "friction opposes the rotation");
  sym_assert_close(rw->GetOutputTorque_b_Nm()[2], -p.inertia * (w - p.w0) / H, 1e-9, "the lost momentum goes to the body");
}
// switching the drive and the power
CHECK(drive_switch) {
  environment::ClockGenerator g;
  g.ClearTimerCount();
  Par p;
  p.w0 = sym_double("w0", 1, 100);
  p.fr.push_back(0.0);
  PowerPort pp(1, 10.0, 3.3, 1.0);
  pp.SetVoltage_V(5.0);
  ReactionWheel* rw = make(&g, p, nullptr, &pp);
  double c = sym_double("torque", 0.1, 0.4);
  rw->SetTargetTorque_rw_Nm(c);
  g.TickToComponents();
  g.TickToComponents();
  double w = rw->GetAngularVelocity_rad_s();
  bool by_power = sym_choose("by_power", 0, 1) != 0;
  if (by_power) pp.SetVoltage_V(0.0); else rw->SetDriveFlag(false);
  g.TickToComponents();
  vu::close_vec(rw->GetOutputTorque_b_Nm(), Vector<3>(0.0), 1e-12, "no torque when the motor is off and there is no friction");
  sym_assert(!rw->GetDriveFlag(), "power off switches the drive off");
  sym_assert_close(rw->GetAngularVelocity_rad_s(), w, 1e-12, "momentum is kept");
  if (by_power) pp.SetVoltage_V(5.0);
  g.TickToComponents();
  sym_assert_close(rw->GetAngularVelocity_rad_s(), w, 1e-12, "the drive stays off until it is switched on");
  rw->SetDriveFlag(true);
  double w1 = rw->GetAngularVelocity_rad_s();
  g.TickToComponents();
  double w2 = rw->GetAngularVelocity_rad_s();
  sym_assert_close(rw->GetOutputTorque_b_Nm()[2], -p.inertia * (w2 - w1) / H, 1e-9, "momentum balance when switched on again");
}
// commands from before an idle time are dropped, in whatever stage of the dead time they were
CHECK(idle_drops_commands) {
  environment::ClockGenerator g;
  g.ClearTimerCount();
  Par p;
  int steps = (int)sym_choose("dead_steps", 0, 3);
  p.dead = steps * H + 0.25 * H;
  p.w0 = 300;
  p.fr.push_back(0.0);
  ReactionWheel* rw = make(&g, p);
  int driven = (int)sym_choose("driven_steps", 1, 4), idle = (int)sym_choose("idle_steps", 1, 2);
  for (int k = 0; k < driven; k++) {
    rw->SetTargetTorque_rw_Nm(sym_double("torque", 0.015625, 0.0625));
    g.TickToComponents();
  }
  double w = rw->GetAngularVelocity_rad_s();
  rw->SetDriveFlag(false);
  for (int k = 0; k < idle; k++) {
    rw->SetTargetTorque_rw_Nm(sym_double("torque_idle", 0.015625, 0.0625));
    g.TickToComponents();
    sym_assert_close(rw->GetAngularVelocity_rad_s(), w, 1e-9, "idle wheel without friction keeps its momentum");
  }
  rw->SetDriveFlag(true);
  double c[5];
  for (int k = 0; k < 5; k++) {
    c[k] = sym_double("torque_again", 0.015625, 0.0625);
    rw->SetTargetTorque_rw_Nm(c[k]);
    g.TickToComponents();
    if (k >= steps + 1) w += H * (c[k - steps - 1] / p.inertia);
    sym_assert_close(rw->GetAngularVelocity_rad_s(), w, 1e-6, "after an idle time only new commands act");
  }
}
// jitter: force and torque of each harmonic rotate with the wheel and scale with the squared speed
static std::vector<std::vector<double>> table(double h1, double c1, double h2, double c2) {
  std::vector<std::vector<double>> t(2);
  t[0].push_back(h1); t[0].push_back(c1);
  t[1].push_back(h2); t[1].push_back(c2);
  return t;
}
CHECK(jitter) {
  double c1 = sym_double("c1", 1e-9, 1e-6), c2 = sym_double("c2", 1e-9, 1e-6), w = sym_double("w", 10, 300);
  math::Quaternion q = vu::unit_quat("q_b2c");
  ReactionWheelJitter j(table(1, c1, 2.5, c2), table(1, 2 * c2, 3, 3 * c1), 0.001, q, 300, 0.1, 1, false);
  double pf[2] = {j.jitter_force_rotation_phase_[0], j.jitter_force_rotation_phase_[1]}, pt[2] = {j.jitter_torque_rotation_phase_[0], j.jitter_torque_rotation_phase_[1]};
  for (int k = 1; k <= 2; k++) {
    j.CalcJitter(w);
    Vector<3> f(0.0), t(0.0);
    double hf[2] = {1, 2.5}, cf[2] = {c1, c2}, ht[2] = {1, 3}, ct[2] = {2 * c2, 3 * c1};
    for (int i = 0; i < 2; i++) {
      pf[i] += hf[i] * w * 0.001;
      pt[i] += ht[i] * w * 0.001;
      f[0] += cf[i] * w * w * sin(pf[i]);
      f[1] += cf[i] * w * w * cos(pf[i]);
      t[0] += ct[i] * w * w * sin(pt[i]);
      t[1] += ct[i] * w * w * cos(pt[i]);
    }
    vu::close_vec(j.GetJitterForce_c_N(), f, 1e-9, "jitter force in the wheel frame");
    vu::close_vec(j.GetJitterTorque_c_Nm(), t, 1e-9, "jitter torque in the wheel frame");
    vu::close_vec(j.GetJitterForce_b_N(), q.InverseFrameConversion(f), 1e-9, "jitter force in the body frame");
    vu::close_vec(j.GetJitterTorque_b_Nm(), q.InverseFrameConversion(t), 1e-9, "jitter torque in the body frame");
  }
}
CHECK(jitter_output) {
  environment::ClockGenerator g;
  g.ClearTimerCount();
  Par p;
  p.jitter = sym_choose("jitter_enabled", 0, 1) != 0;
  p.pos = vu::vec3("position", -1, 1);
  p.w0 = sym_double("w0", 10, 100);
  ReactionWheelJitter j(table(1, 1e-5, 2, 2e-5), table(1, 3e-5, 2, 4e-5), 0.125, p.q, 300, 0.1, 1, false);
  ReactionWheel* rw = make(&g, p, &j);
  // another wheel's jitter set up in the same object afterwards
  j = ReactionWheelJitter(table(5, 1, 6, 1), table(7, 1, 8, 1), 0.001, math::Quaternion(0, 0, 0, 1), 300, 0.1, 1, false);
  g.TickToComponents();
  sym_assert(rw->GetNeedsFastUpdate() == p.jitter, "fast update only with jitter");
  ReactionWheelJitter r(table(1, 1e-5, 2, 2e-5), table(1, 3e-5, 2, 4e-5), 0.125, p.q, 300, 0.1, 1, false);
  r.CalcJitter(p.w0);
  Vector<3> want(0.0);
  if (p.jitter) want = -1.0 * math::OuterProduct(p.pos, r.GetJitterForce_b_N()) - r.GetJitterTorque_b_Nm();
  vu::close_vec(rw->GetOutputTorque_b_Nm(), want, 1e-9, "jitter of this wheel acts at its mounting position");
}
// structural resonance filter: unit gain at rest frequency, amplification as configured by the bilinear transform of (s^2+2 z w s+w^2)/(s^2+2 b z w s+w^2)
CHECK(resonance) {
  double z = sym_double("damping", 0.01, 1), b = sym_double("bandwidth", 0.1, 2), dt = 1.0 / 1024, f0 = 100;
  std::vector<std::vector<double>> one(1);
  one[0].push_back(0.0);
  one[0].push_back(1.0);
  ReactionWheelJitter j(one, one, dt, math::Quaternion(0, 0, 0, 1), f0, z, b, true);
  double W = 2.0 / dt * tan(math::tau * f0 * dt / 2.0), k = 2.0 / dt;
  // coefficients of the bilinear transform s = k (1 - z^-1)/(1 + z^-1), normalised by dt^2
  double n0 = k * k + 2 * z * W * k + W * W, n1 = 2 * W * W - 2 * k * k, n2 = k * k - 2 * z * W * k + W * W;
  double d0 = k * k + 2 * b * z * W * k + W * W, d1 = n1, d2 = k * k - 2 * b * z * W * k + W * W;
  double x1 = 0, x2 = 0, y1 = 0, y2 = 0;
  for (int s = 0; s < 3; s++) {
    double w = sym_double("w", 1, 10);
    j.CalcJitter(w);
    double ph = j.jitter_force_rotation_phase_[0], x = w * w * sin(ph);
    double y = (n0 * x + n1 * x1 + n2 * x2 - d1 * y1 - d2 * y2) / d0;
    sym_assert_close(j.GetJitterForce_c_N()[0], y, 1e-6, "filtered force");
    double yt = j.GetJitterTorque_c_Nm()[0];
    (void)yt;
    x2 = x1; x1 = x; y2 = y1; y1 = y;
  }
}
