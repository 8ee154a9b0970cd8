// SRC: src/components/real/aocs/sun_sensor.cpp src/components/real/aocs/star_sensor.cpp src/components/real/aocs/gyro_sensor.cpp src/components/real/aocs/magnetometer.cpp src/components/real/aocs/gnss_receiver.cpp src/components/ports/power_port.cpp src/components/base/component.cpp
// MODE: real
// BOUNDS: every value of every number in the settings section of the component, prescalers 0 to 3, with and without a power port; component identifiers 0 and 12
// STUBS: the settings file holds an arbitrary value for every key (text decoding is decided by S04)
// ASSUME: quaternions in the settings have unit norm
#include "settings.hpp"
#include <environment/global/clock_generator.hpp>
#include <components/real/aocs/sun_sensor.hpp>
#include <components/real/aocs/star_sensor.hpp>
#include <components/real/aocs/gyro_sensor.hpp>
#include <components/real/aocs/magnetometer.hpp>
#include <components/real/aocs/gnss_receiver.hpp>
#include "open.hpp"
using namespace s2e;
using namespace s2e::components;
using st::Sec;
static const char* F = "component.ini";
static const double kDeg = 3.14159265358979323846 / 180.0;
static int any_id() { return sym_choose("identifier", 0, 1) ? 12 : 0; }
static int presc(const Sec& s) { int p = s.i("prescaler"); return p <= 1 ? 1 : p; }
static void port(const PowerPort& p) {
  Sec s{F, "POWER_PORT"};
  st::eq(p.minimum_voltage_V_, s.d("minimum_voltage_V"), "minimum voltage");
  st::eq(p.assumed_power_consumption_W_, s.d("assumed_power_consumption_W"), "assumed power consumption");
}
struct World {
  environment::ClockGenerator clk;
  PowerPort port;
  bool powered;
  World() : powered(sym_choose("power_port", 0, 1) != 0) {}
  void common(const Component& c, const Sec& s) {
    sym_assert(c.prescaler_ == (unsigned)presc(s), "update period");
    sym_assert(c.clock_generator_ == &clk, "registered with the given clock");
    if (powered) { sym_assert(c.power_port_ == &port, "supplied by the given port"); ::port(port); }
  }
};
static Sec sec(const char* name, int id) { Sec s{F, name + std::to_string(id)}; s.range("prescaler", 0, 3); return s; }

CHECK(sun_sensor) {
  World w;
  int id = any_id();
  Sec s = sec("SUN_SENSOR_", id);
  st::unit4(s, "quaternion_b2c");
  auto* srp = (environment::SolarRadiationPressureEnvironment*)0x1000;
  auto* lc = (environment::LocalCelestialInformation*)0x2000;
  for (auto k : {"white_noise_standard_deviation_deg", "bias_standard_deviation_deg"}) s.range(k, 0.0, 4.0);
  SunSensor c = w.powered ? InitSunSensor(&w.clk, &w.port, id, F, srp, lc) : InitSunSensor(&w.clk, id, F, srp, lc);
  w.common(c, s);
  st::eqi(c.component_id_, id, "identifier");
  st::eqq(c.quaternion_b2c_, s, "quaternion_b2c", "mounting");
  st::eq(c.detectable_angle_rad_, s.d("field_of_view_deg") * kDeg, "field of view in radians");
  st::eq(c.random_noise_alpha_.standard_deviation_, s.d("white_noise_standard_deviation_deg") * kDeg, "white noise in radians (alpha)");
  st::eq(c.random_noise_beta_.standard_deviation_, s.d("white_noise_standard_deviation_deg") * kDeg, "white noise in radians (beta)");
  st::eq(c.intensity_lower_threshold_percent_, s.d("intensity_lower_threshold_percent"), "intensity threshold");
  sym_assert(c.srp_environment_ == srp && c.local_celestial_information_ == lc, "environment");
}
CHECK(star_sensor) {
  World w;
  int id = any_id();
  Sec s = sec("STAR_SENSOR_", id);
  st::unit4(s, "quaternion_b2c");
  int delay = (int)sym_choose("delay_steps", 0, 3), interval = (int)sym_choose("interval_steps", 0, 3);
  double step = 0.5 * presc(s);
  // delays between whole numbers of steps are cut down to whole steps, and at least one
  s.range("output_delay_s", (delay + 0.125) * step, (delay + 0.875) * step);
  s.range("output_interval_s", (interval + 0.125) * step, (interval + 0.875) * step);
  auto* dyn = (dynamics::Dynamics*)0x1000;
  auto* le = (environment::LocalEnvironment*)0x2000;
  StarSensor c = w.powered ? InitStarSensor(&w.clk, &w.port, id, F, 0.5, dyn, le) : InitStarSensor(&w.clk, id, F, 0.5, dyn, le);
  w.common(c, s);
  st::eqi(c.component_id_, id, "identifier");
  st::eqq(c.quaternion_b2c_, s, "quaternion_b2c", "mounting");
  st::eq(c.orthogonal_direction_noise_.standard_deviation_, s.d("standard_deviation_orthogonal_direction_rad"), "noise across the sight");
  st::eq(c.sight_direction_noise_.standard_deviation_, s.d("standard_deviation_sight_direction_rad"), "noise about the sight");
  st::eq(c.step_time_s_, step, "step time");
  st::eqi(c.output_delay_, delay < 1 ? 1 : delay, "delay in steps");
  st::eqi(c.output_interval_, interval < 1 ? 1 : interval, "interval in steps");
  sym_assert(c.max_delay_ > (int)c.output_delay_ && (int)c.delay_buffer_.size() == c.max_delay_, "buffer longer than the delay");
  st::eq(c.sun_forbidden_angle_rad_, s.d("sun_exclusion_angle_deg") * kDeg, "sun exclusion");
  st::eq(c.earth_forbidden_angle_rad_, s.d("earth_exclusion_angle_deg") * kDeg, "earth exclusion");
  st::eq(c.moon_forbidden_angle_rad_, s.d("moon_exclusion_angle_deg") * kDeg, "moon exclusion");
  st::eq(c.capture_rate_limit_rad_s_, s.d("angular_rate_limit_deg_s") * kDeg, "rate limit");
  sym_assert(c.dynamics_ == dyn && c.local_environment_ == le, "environment");
}
template <class C> static void base(const C& c, const Sec& s, const std::string& unit, double step, const Component& comp) {
  Sec b{F, "SENSOR_BASE_" + s.s};
  const Sensor<3>& q = c;
  st::eqm(q.scale_factor_, b, "scale_factor_c", "scale factor");
  st::eqv(q.bias_noise_c_, b, ("constant_bias_c_" + unit).c_str(), "constant bias");
  for (int i = 0; i < 3; i++) {
    st::eq(q.range_to_const_c_[i], b.d("range_to_constant_" + unit), "range to constant");
    st::eq(q.range_to_zero_c_[i], b.d("range_to_zero_" + unit), "range to zero");
    st::eq(q.normal_random_noise_c_[i].standard_deviation_, b.d("normal_random_standard_deviation_c_" + unit, i), "white noise");
    st::eq(q.random_walk_noise_c_.normal_randomizer_[i].standard_deviation_, b.d("random_walk_standard_deviation_c_" + unit, i), "random walk step");
  }
  st::eqv(q.random_walk_noise_c_.limit_, b, ("random_walk_limit_c_" + unit).c_str(), "random walk limit");
  st::eq(q.random_walk_noise_c_.GetStepWidth(), step * comp.prescaler_, "random walk period");
}
static void base_range(const Sec& s, const std::string& unit) {
  Sec b{F, "SENSOR_BASE_" + s.s};
  // ranges are given in order, the scale factor is not all zero
  b.range("range_to_constant_" + unit, 1.0, 8.0);
  b.range("range_to_zero_" + unit, 8.0, 16.0);
  b.range("scale_factor_c(0)", 0.5, 2.0);
  b.range("random_walk_limit_c_" + unit, 3, 0.0, 8.0);
}
CHECK(gyro) {
  World w;
  int id = any_id();
  Sec s = sec("GYRO_SENSOR_", id);
  st::unit4(s, "quaternion_b2c");
  base_range(s, "rad_s");
  auto* dyn = (dynamics::Dynamics*)0x1000;
  GyroSensor c = w.powered ? InitGyroSensor(&w.clk, &w.port, id, F, 0.5, dyn) : InitGyroSensor(&w.clk, id, F, 0.5, dyn);
  w.common(c, s);
  st::eqi(c.sensor_id_, id, "identifier");
  st::eqq(c.quaternion_b2c_, s, "quaternion_b2c", "mounting");
  base(c, s, "rad_s", 0.5, c);
  sym_assert(c.dynamics_ == dyn, "dynamics");
}
CHECK(magnetometer) {
  World w;
  int id = any_id();
  Sec s = sec("MAGNETOMETER_", id);
  st::unit4(s, "quaternion_b2c");
  base_range(s, "nT");
  auto* g = (environment::GeomagneticField*)0x1000;
  Magnetometer c = w.powered ? InitMagnetometer(&w.clk, &w.port, id, F, 0.25, g) : InitMagnetometer(&w.clk, id, F, 0.25, g);
  w.common(c, s);
  st::eqi(c.sensor_id_, id, "identifier");
  st::eqq(c.quaternion_b2c_, s, "quaternion_b2c", "mounting");
  base(c, s, "nT", 0.25, c);
  sym_assert(c.geomagnetic_field_ == g, "geomagnetic field");
}
CHECK(sensor_without_scale) {
  Sec s{F, "SENSOR_BASE_X"};
  base_range(Sec{F, "X"}, "u");
  for (int i = 0; i < 9; i++) st::dv()[st::id(F, s.s, "scale_factor_c(" + std::to_string(i) + ")")] = 0.0;
  Sensor<3> q = ReadSensorInformation<3>(F, 0.5, "X", "u");
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) st::eq(q.scale_factor_[i][j], i == j, "an absent scale factor is the identity");
}
CHECK(gnss_receiver) {
  World w;
  int id = any_id();
  Sec s = sec("GNSS_RECEIVER_", id);
  st::unit4(s, "quaternion_b2c");
  Raw<environment::GnssSatellites> sats;
  bool calc = sym_choose("satellites_computed", 0, 1) != 0, cone = sym_choose("cone", 0, 1) != 0;
  sats->is_calc_enabled_ = calc;
  s.text("antenna_model", cone ? "CONE" : "SIMPLE");
  auto* dyn = (dynamics::Dynamics*)0x1000;
  auto* time = (environment::SimulationTime*)0x2000;
  GnssReceiver c = w.powered ? InitGnssReceiver(&w.clk, &w.port, id, F, dyn, &*sats, time) : InitGnssReceiver(&w.clk, id, F, dyn, &*sats, time);
  w.common(c, s);
  st::eqi((int)c.component_id_, id, "identifier");
  st::eqq(c.quaternion_b2c_, s, "quaternion_b2c", "mounting");
  sym_assert((c.antenna_model_ == AntennaModel::kCone) == (cone && calc), "cone model only with computed satellites");
  st::eqv(c.antenna_position_b_m_, s, "antenna_position_b_m", "antenna position");
  st::eq(c.half_width_deg_, s.d("antenna_half_width_deg"), "antenna half width");
  for (int i = 0; i < 3; i++) {
    st::eq(c.position_random_noise_ecef_m_[i].standard_deviation_, s.d("white_noise_standard_deviation_position_ecef_m", i), "position noise");
    st::eq(c.velocity_random_noise_ecef_m_s_[i].standard_deviation_, s.d("white_noise_standard_deviation_velocity_ecef_m_s", i), "velocity noise");
  }
  sym_assert(c.dynamics_ == dyn && c.gnss_satellites_ == &*sats && c.simulation_time_ == time, "environment");
}
