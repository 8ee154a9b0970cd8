// SRC: src/components/real/aocs/magnetorquer.cpp src/components/real/aocs/reaction_wheel.cpp src/components/real/aocs/reaction_wheel_jitter.cpp src/components/real/aocs/mtq_magnetometer_interference.cpp src/components/real/propulsion/simple_thruster.cpp src/components/ideal/torque_generator.cpp src/components/ideal/force_generator.cpp src/components/ideal/orbit_observer.cpp src/components/ideal/attitude_observer.cpp src/components/ideal/angular_velocity_observer.cpp src/components/ports/power_port.cpp src/components/base/component.cpp
// MODE: real
// BOUNDS: every value of every number in the settings section of the component, prescalers 0 to 3, with and without a power port; component identifiers 0 and 12; 2 friction coefficients, 2 rows of jitter harmonics, 2 interference degrees
// STUBS: the settings file holds an arbitrary value for every key (text decoding is decided by S04); std::random_device gives a fixed value
// ASSUME: quaternions and directions in the settings have unit norm; step widths, inertias and limits are positive
#include "settings.hpp"
#include <environment/global/clock_generator.hpp>
#include <components/real/aocs/magnetorquer.hpp>
#include <components/real/aocs/magnetometer.hpp>
#include <components/real/aocs/reaction_wheel.hpp>
#include <components/real/aocs/mtq_magnetometer_interference.hpp>
#include <components/real/propulsion/simple_thruster.hpp>
#include <components/ideal/torque_generator.hpp>
#include <components/ideal/force_generator.hpp>
#include <components/ideal/orbit_observer.hpp>
#include <components/ideal/attitude_observer.hpp>
#include <components/ideal/angular_velocity_observer.hpp>
#include "open.hpp"
using namespace s2e;
using namespace s2e::components;
using st::Sec;
static const char* F = "component.ini";
static const double kDeg = 3.14159265358979323846 / 180.0;
static int any_id() { return sym_choose("identifier", 0, 1) ? 12 : 0; }
static int presc(const Sec& s) { int p = s.i("prescaler"); return p <= 1 ? 1 : p; }
static void port(const PowerPort& p) {
  Sec s{F, "POWER_PORT"};
  st::eq(p.minimum_voltage_V_, s.d("minimum_voltage_V"), "minimum voltage");
  st::eq(p.assumed_power_consumption_W_, s.d("assumed_power_consumption_W"), "assumed power consumption");
}
struct World {
  environment::ClockGenerator clk;
  PowerPort port;
  bool powered;
  World(bool may = true) : powered(may && sym_choose("power_port", 0, 1) != 0) {}
  void common(const Component& c, const Sec& s) {
    sym_assert(c.prescaler_ == (unsigned)presc(s), "update period");
    sym_assert(c.clock_generator_ == &clk, "registered with the given clock");
    if (powered) { sym_assert(c.power_port_ == &port, "supplied by the given port"); ::port(port); }
  }
};
static Sec sec(const std::string& name, int id) { Sec s{F, name + std::to_string(id)}; s.range("prescaler", 0, 3); return s; }
static Sec sec1(const std::string& name) { Sec s{F, name}; s.range("prescaler", 0, 3); return s; }

CHECK(magnetorquer) {
  World w;
  int id = any_id();
  Sec s = sec("MAGNETORQUER_", id);
  st::unit4(s, "quaternion_b2c");
  auto* g = (environment::GeomagneticField*)0x1000;
  Magnetorquer c = w.powered ? InitMagnetorquer(&w.clk, &w.port, id, F, 0.5, g) : InitMagnetorquer(&w.clk, id, F, 0.5, g);
  w.common(c, s);
  st::eqi(c.component_id_, id, "identifier");
  st::eqq(c.quaternion_b2c_, s, "quaternion_b2c", "mounting");
  st::eqm(c.scale_factor_, s, "scale_factor_c", "scale factor");
  st::eqv(c.max_magnetic_moment_c_Am2_, s, "max_output_magnetic_moment_c_Am2", "maximum");
  st::eqv(c.min_magnetic_moment_c_Am2_, s, "min_output_magnetic_moment_c_Am2", "minimum");
  st::eqv(c.bias_noise_c_Am2_, s, "constant_bias_noise_c_Am2", "bias");
  st::eqv(c.random_walk_c_Am2_.limit_, s, "random_walk_limit_c_Am2", "random walk limit");
  st::eq(c.random_walk_c_Am2_.GetStepWidth(), 0.5 * presc(s), "random walk period");
  for (int i = 0; i < 3; i++) {
    st::eq(c.random_walk_c_Am2_.normal_randomizer_[i].standard_deviation_, s.d("random_walk_standard_deviation_c_Am2", i), "random walk step");
    st::eq(c.random_noise_c_Am2_[i].standard_deviation_, s.d("white_noise_standard_deviation_c_Am2", i), "white noise");
  }
  sym_assert(c.geomagnetic_field_ == g, "geomagnetic field");
}
CHECK(interference) {
  Sec s{F, "MTQ_MAGNETOMETER_INTERFERENCE_" + std::to_string(any_id())};
  s.range("polynomial_degree", 0, 2);
  Raw<Magnetometer> m;
  Raw<Magnetorquer> q;
  MtqMagnetometerInterference c(F, *m, *q, s.s.back() == '2' ? 12 : 0);
  int n = s.i("polynomial_degree");
  st::eqi((int)c.polynomial_degree_, n, "degree");
  st::eqi((int)c.additional_bias_by_mtq_coefficients_.size(), n, "one matrix per degree");
  for (int k = 1; k <= n; k++) st::eqm(c.additional_bias_by_mtq_coefficients_[k - 1], s, ("additional_bias_by_mtq_coefficients_" + std::to_string(k)).c_str(), "coefficients");
  sym_assert(&c.magnetometer_ == &*m && &c.magnetorquer_ == &*q, "the given pair");
}
CHECK(reaction_wheel) {
  World w;
  int id = any_id();
  Sec s = sec("REACTION_WHEEL_", id), j{F, "REACTION_WHEEL_JITTER_" + std::to_string(id)};
  bool direct = sym_choose("direction", 0, 1) != 0;
  s.text("direction_determination_mode", direct ? "DIRECTION" : "QUATERNION");
  if (direct) st::unit3(s, "direction_b");
  else st::unit4(s, "quaternion_b2c");
  s.set("friction_order", 2);
  s.range("prescaler", w.powered ? 0 : 2, 2);
  int dead = (int)sym_choose("dead_steps", 0, 1);
  int flags = (int)sym_choose("flags", 0, 3);
  s.set("initial_motor_drive_flag", flags & 1);
  j.set("jitter_calculation ENABLE", flags >> 1);
  j.set("jitter_logging ENABLE", (flags ^ (flags >> 1)) & 1);
  double step = 0.5 * presc(s);
  s.range("dead_time_s", (dead + 0.125) * step, (dead + 0.875) * step);
  s.range("time_constant_s", 1.0, 4.0);
  for (auto k : {"moment_of_inertia_kgm2", "max_output_torque_Nm", "damping_factor", "bandwidth"}) s.range(k, 0.125, 4.0);
  s.range("max_angular_velocity_rpm", 100.0, 6000.0);
  s.range("initial_angular_velocity_rad_s", -8.0, 8.0);
  j.range("fast_prescaler", 1, 2);
  j.set("harmonics_degree", 2);
  j.range("structural_resonance_frequency_Hz", 1.0, 8.0);
  for (auto k : {"damping_factor", "bandwidth"}) j.range(k, 0.125, 1.0);
  j.text("radial_force_harmonics_coefficient_file", "force.csv");
  j.text("radial_torque_harmonics_coefficient_file", "torque.csv");
  j.set("considers_structural_resonance ENABLE", 0);
  ReactionWheel c = w.powered ? InitReactionWheel(&w.clk, &w.port, id, F, 0.5) : InitReactionWheel(&w.clk, id, F, 0.5);
  w.common(c, s);
  int fp = j.i("fast_prescaler") <= 1 ? 1 : j.i("fast_prescaler");
  sym_assert(c.fast_prescaler_ == (unsigned)fp, "fast update period");
  st::eqi(c.component_id_, id, "identifier");
  st::eq(c.rotor_inertia_kgm2_, s.d("moment_of_inertia_kgm2"), "inertia");
  st::eq(c.max_torque_Nm_, s.d("max_output_torque_Nm"), "maximum torque");
  st::eq(c.max_velocity_rpm_, s.d("max_angular_velocity_rpm"), "maximum velocity");
  st::eq(c.velocity_limit_rpm_, s.d("max_angular_velocity_rpm"), "velocity limit");
  st::eqv(c.position_b_m_, s, "position_b_m", "position");
  if (direct) {
    // the rotation that takes the given direction to the wheel axis (its construction is decided by M02)
    math::Vector<3> z(0.0), d;
    z[2] = 1.0;
    for (int i = 0; i < 3; i++) d[i] = s.d("direction_b", i);
    math::Quaternion q = math::Quaternion(d, z).Conjugate();
    for (int i = 0; i < 4; i++) sym_assert_close(c.quaternion_b2c_[i], q[i], 1e-9, "mounting along the given direction");
  } else st::eqq(c.quaternion_b2c_, s, "quaternion_b2c", "mounting");
  st::eq(c.step_width_s_, step, "step width");
  st::eq(c.dead_time_s_, s.d("dead_time_s"), "dead time");
  st::eqi((int)c.acceleration_delay_buffer_.size(), dead + 1, "dead time in steps");
  st::eq(c.delayed_acceleration_rad_s2_.time_constant_s_, s.d("time_constant_s"), "time constant");
  st::eq(c.delayed_acceleration_rad_s2_.time_step_s_, step, "lag step");
  st::eqi((int)c.coasting_friction_coefficients_.size(), 2, "friction order");
  for (int i = 0; i < 2; i++) st::eq(c.coasting_friction_coefficients_[i], s.d("friction_coefficients", i), "friction");
  st::eq(c.stop_limit_angular_velocity_rad_s_, s.d("stop_limit_angular_velocity_rad_s"), "stop limit");
  st::eqi(c.drive_flag_, s.i("initial_motor_drive_flag") != 0, "initial drive");
  st::eq(c.angular_velocity_rad_s_, s.d("initial_angular_velocity_rad_s"), "initial velocity");
  st::eqi(c.is_calculated_jitter_, j.i("jitter_calculation ENABLE"), "jitter computed");
  st::eqi(c.is_logged_jitter_, j.i("jitter_logging ENABLE"), "jitter logged");
  const ReactionWheelJitter& q = c.rw_jitter_;
  st::eq(q.update_interval_s_, 0.5 * fp, "jitter interval");
  for (int i = 0; i < 2; i++)
    for (int k = 0; k < 2; k++) {
      st::eq(q.radial_force_harmonics_coefficients_[i][k], st::D("force.csv", std::to_string(i), std::to_string(k)), "force harmonics");
      st::eq(q.radial_torque_harmonics_coefficients_[i][k], st::D("torque.csv", std::to_string(i), std::to_string(k)), "torque harmonics");
    }
  st::eq(q.structural_resonance_frequency_Hz_, j.d("structural_resonance_frequency_Hz"), "resonance");
  st::eq(q.damping_factor_, j.d("damping_factor"), "damping");
  st::eq(q.bandwidth_, j.d("bandwidth"), "bandwidth");
  for (int i = 0; i < 4; i++) st::eq(q.quaternion_b2c_[i], c.quaternion_b2c_[i], "jitter mounting");
}
CHECK(two_wheels_do_not_mix) {
  environment::ClockGenerator clk;
  for (int id = 0; id < 2; id++) {
    Sec s{F, "REACTION_WHEEL_" + std::to_string(id)}, j{F, "REACTION_WHEEL_JITTER_" + std::to_string(id)};
    s.set("prescaler", 1);
    s.set("friction_order", id + 1);
    s.text("direction_determination_mode", "QUATERNION");
    st::unit4(s, "quaternion_b2c");
    s.range("dead_time_s", 0.125, 0.375);
    s.range("time_constant_s", 1.0, 4.0);
    s.range("initial_angular_velocity_rad_s", -1.0, 1.0);
    s.range("max_angular_velocity_rpm", 100.0, 6000.0);
    j.set("fast_prescaler", 1);
    j.set("harmonics_degree", 2);
    j.text("radial_force_harmonics_coefficient_file", "force" + std::to_string(id));
    j.text("radial_torque_harmonics_coefficient_file", "torque" + std::to_string(id));
    j.set("jitter_calculation ENABLE", 0);
    j.set("jitter_logging ENABLE", 0);
    j.set("considers_structural_resonance ENABLE", 0);
    s.set("initial_motor_drive_flag", id == 0);
  }
  ReactionWheel a = InitReactionWheel(&clk, 0, F, 0.5), b = InitReactionWheel(&clk, 1, F, 0.5);
  int id = 0;
  for (ReactionWheel* c : {&a, &b}) {
    Sec s{F, "REACTION_WHEEL_" + std::to_string(id)};
    st::eqi((int)c->coasting_friction_coefficients_.size(), id + 1, "own friction order");
    for (int i = 0; i <= id; i++) st::eq(c->coasting_friction_coefficients_[i], s.d("friction_coefficients", i), "own friction");
    st::eqi((int)c->rw_jitter_.radial_force_harmonics_coefficients_.size(), 2, "own harmonics only");
    st::eq(c->rw_jitter_.radial_force_harmonics_coefficients_[1][1], st::D("force" + std::to_string(id), "1", "1"), "own harmonics");
    st::eqq(c->quaternion_b2c_, s, "quaternion_b2c", "own mounting");
    st::eqi(c->drive_flag_, id == 0, "own drive flag");
    id++;
  }
}
CHECK(thruster) {
  World w;
  int id = any_id();
  Sec s = sec("THRUSTER_", id);
  st::unit3(s, "thruster_direction_b");
  int dead = (int)sym_choose("dead_steps", 0, 2);
  st::dv()[st::id(F, s.s, "step_width_s")] = 0.25;
  s.range("dead_time_s", (dead + 0.125) * 0.25, (dead + 0.875) * 0.25);
  s.range("time_constant_s", 1.0, 4.0);
  auto* str = (spacecraft::Structure*)0x1000;
  auto* dyn = (dynamics::Dynamics*)0x2000;
  SimpleThruster c = w.powered ? InitSimpleThruster(&w.clk, &w.port, id, F, str, dyn) : InitSimpleThruster(&w.clk, id, F, str, dyn);
  w.common(c, s);
  st::eqi(c.component_id_, id, "identifier");
  st::eqv(c.thruster_position_b_m_, s, "thruster_position_b_m", "position");
  for (int i = 0; i < 3; i++) sym_assert_close(c.thrust_direction_b_[i], s.d("thruster_direction_b", i), 1e-9, "direction");
  st::eq(c.thrust_magnitude_max_N_, s.d("thrust_magnitude_N"), "thrust");
  st::eq(c.magnitude_random_noise_.standard_deviation_, s.d("thrust_error_standard_deviation_N"), "magnitude error");
  st::eq(c.direction_noise_standard_deviation_rad_, s.d("direction_error_standard_deviation_deg") * kDeg, "direction error");
  st::eq(c.direction_random_noise_.standard_deviation_, s.d("direction_error_standard_deviation_deg") * kDeg, "direction error deviation");
  st::eq(c.dead_time_s_, s.d("dead_time_s"), "dead time");
  st::eq(c.step_width_s_, 0.25, "step width");
  st::eqi((int)c.duty_delay_buffer_.size(), dead + 1, "dead time in steps");
  st::eq(c.delayed_duty_.time_constant_s_, s.d("time_constant_s"), "time constant");
  sym_assert(c.structure_ == str && c.dynamics_ == dyn, "vehicle");
}
CHECK(generators) {
  World w(false);
  Sec b = sec1("COMPONENT_BASE"), t{F, "TORQUE_GENERATOR"}, f{F, "FORCE_GENERATOR"};
  auto* dyn = (dynamics::Dynamics*)0x1000;
  TorqueGenerator tg = InitializeTorqueGenerator(&w.clk, F, dyn);
  w.common(tg, b);
  st::eq(tg.magnitude_noise_.standard_deviation_, t.d("torque_magnitude_standard_deviation_Nm"), "torque magnitude error");
  st::eq(tg.direction_error_standard_deviation_rad_, t.d("torque_direction_standard_deviation_deg") * kDeg, "torque direction error");
  ForceGenerator fg = InitializeForceGenerator(&w.clk, F, dyn);
  w.common(fg, b);
  st::eq(fg.magnitude_noise_.standard_deviation_, f.d("force_magnitude_standard_deviation_N"), "force magnitude error");
  st::eq(fg.direction_error_standard_deviation_rad_, f.d("force_direction_standard_deviation_deg") * kDeg, "force direction error");
  sym_assert(tg.dynamics_ == dyn && fg.dynamics_ == dyn, "vehicle");
}
CHECK(observers) {
  World w(false);
  Sec b = sec1("COMPONENT_BASE"), o{F, "ORBIT_OBSERVER"}, a{F, "ATTITUDE_OBSERVER"}, v{F, "SENSOR_BASE_ANGULAR_VELOCITY_OBSERVER"};
  Raw<dynamics::orbit::Orbit> orbit;
  Raw<dynamics::attitude::Attitude> att;
  bool rtn = sym_choose("rtn", 0, 1) != 0;
  o.text("noise_frame", rtn ? "RTN" : "INERTIAL");
  OrbitObserver oo = InitializeOrbitObserver(&w.clk, F, *orbit);
  w.common(oo, b);
  sym_assert((oo.noise_frame_ == NoiseFrame::kRtn) == rtn, "noise frame");
  for (int i = 0; i < 6; i++) st::eq(oo.normal_random_noise_[i].standard_deviation_, o.d("noise_standard_deviation", i), "orbit noise");
  AttitudeObserver ao = InitializeAttitudeObserver(&w.clk, F, *att);
  w.common(ao, b);
  st::eq(ao.angle_noise_.standard_deviation_, a.d("error_angle_standard_deviation_deg") * kDeg, "attitude noise");
  v.range("range_to_constant_rad_s", 1.0, 8.0);
  v.range("range_to_zero_rad_s", 8.0, 16.0);
  v.range("scale_factor_c(0)", 0.5, 2.0);
  v.range("random_walk_limit_c_rad_s", 3, 0.0, 8.0);
  AngularVelocityObserver vo = InitializeAngularVelocityObserver(&w.clk, F, 0.5, *att);
  w.common(vo, b);
  st::eqm(vo.scale_factor_, v, "scale_factor_c", "scale factor");
  st::eqv(vo.bias_noise_c_, v, "constant_bias_c_rad_s", "bias");
  st::eq(vo.random_walk_noise_c_.GetStepWidth(), 0.5 * presc(b), "random walk period");
  sym_assert(&oo.orbit_ == &*orbit && &ao.attitude_ == &*att && &vo.attitude_ == &*att, "observed objects");
}
