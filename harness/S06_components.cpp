// SRC: src/components/ideal/angular_velocity_observer.cpp
// SRC: src/components/ideal/attitude_observer.cpp
// SRC: src/components/ideal/force_generator.cpp
// SRC: src/components/ideal/orbit_observer.cpp
// SRC: src/components/ideal/torque_generator.cpp
// SRC: src/components/real/aocs/gnss_receiver.cpp
// SRC: src/components/real/aocs/gyro_sensor.cpp
// SRC: src/components/real/aocs/magnetometer.cpp
// SRC: src/components/real/aocs/magnetorquer.cpp
// SRC: src/components/real/aocs/reaction_wheel.cpp
// SRC: src/components/real/aocs/star_sensor.cpp
// SRC: src/components/real/aocs/sun_sensor.cpp
// SRC: src/components/real/communication/ground_station_calculator.cpp
// SRC: src/components/real/mission/telescope.cpp
// SRC: src/components/real/power/battery.cpp
// SRC: src/components/real/power/pcu_initial_study.cpp
// SRC: src/components/real/power/solar_array_panel.cpp
// SRC: src/components/real/propulsion/simple_thruster.cpp
// MODE: real
// OPT: cosim=0
// BOUNDS: any state of the component (numbers within 1000); two component ids; up to two logged stars
#include "logs.hpp"
#include "open.hpp"
#include <components/ideal/angular_velocity_observer.hpp>
#include <components/ideal/attitude_observer.hpp>
#include <components/ideal/force_generator.hpp>
#include <components/ideal/orbit_observer.hpp>
#include <components/ideal/torque_generator.hpp>
#include <components/real/aocs/gnss_receiver.hpp>
#include <components/real/aocs/gyro_sensor.hpp>
#include <components/real/aocs/magnetometer.hpp>
#include <components/real/aocs/magnetorquer.hpp>
#include <components/real/aocs/reaction_wheel.hpp>
#include <components/real/aocs/star_sensor.hpp>
#include <components/real/aocs/sun_sensor.hpp>
#include <components/real/communication/ground_station_calculator.hpp>
#include <components/real/mission/telescope.hpp>
#include <components/real/power/battery.hpp>
#include <components/real/power/pcu_initial_study.hpp>
#include <components/real/power/solar_array_panel.hpp>
#include <components/real/propulsion/simple_thruster.hpp>
using namespace s2e;
using namespace s2e::components;
using namespace lg;
static int id() { return (int)sym_choose("id", 0, 1) * 12; }
static std::string is_(int i) { return std::to_string(i); }
#define SET(T, m, v) const_cast<std::remove_const_t<decltype(p->m)>&>(p->m) = v
CHECK(ideal) {
  { Raw<AngularVelocityObserver> r; auto* p = r.get(); auto v = p->angular_velocity_b_rad_s_ = vec<3>(); LOG(p, AngularVelocityObserver, 3); is3("angular_velocity_observer_measured_value_b", "rad/s", v); }
  { Raw<AttitudeObserver> r; auto* p = r.get(); auto q = p->observed_quaternion_i2b_ = quat(); LOG(p, AttitudeObserver, 4); isq("attitude_observer_quaternion_i2b", q); }
  {
    Raw<ForceGenerator> r; auto* p = r.get();
    p->ordered_force_b_N_ = vec<3>(); p->generated_force_b_N_ = vec<3>(); p->generated_force_i_N_ = vec<3>(); p->generated_force_rtn_N_ = vec<3>();
    LOG(p, ForceGenerator, 12);
    is3("ideal_force_generator_ordered_force_b", "N", p->ordered_force_b_N_); is3("ideal_force_generator_generated_force_b", "N", p->generated_force_b_N_);
    is3("ideal_force_generator_generated_force_i", "N", p->generated_force_i_N_); is3("ideal_force_generator_generated_force_rtn", "N", p->generated_force_rtn_N_);
  }
  {
    Raw<OrbitObserver> r; auto* p = r.get();
    p->observed_position_i_m_ = vec<3>(); p->observed_velocity_i_m_s_ = vec<3>();
    LOG(p, OrbitObserver, 6);
    is3("orbit_observer_position_i", "m", p->observed_position_i_m_); is3("orbit_observer_velocity_i", "m/s", p->observed_velocity_i_m_s_);
  }
  {
    Raw<TorqueGenerator> r; auto* p = r.get();
    p->ordered_torque_b_Nm_ = vec<3>(); p->generated_torque_b_Nm_ = vec<3>();
    LOG(p, TorqueGenerator, 6);
    is3("ideal_torque_generator_ordered_torque_b", "Nm", p->ordered_torque_b_Nm_); is3("ideal_torque_generator_generated_torque_b", "Nm", p->generated_torque_b_Nm_);
  }
}
CHECK(gnss_receiver) {
  Raw<GnssReceiver> r; auto* p = r.get();
  int n = id();
  SET(GnssReceiver, component_id_, (size_t)n);
  p->position_ecef_m_ = vec<3>(); p->velocity_ecef_m_s_ = vec<3>();
  p->geodetic_position_.latitude_rad_ = num(); p->geodetic_position_.longitude_rad_ = num(); p->geodetic_position_.altitude_m_ = num();
  int y = (int)sym_int("year", 1900, 2200), mo = (int)sym_int("month", 1, 12), d = (int)sym_int("day", 1, 31), h = (int)sym_int("hour", 0, 23), mi = (int)sym_int("minute", 0, 59);
  double s = sym_double("second", 0, 60);
  p->utc_.year = y; p->utc_.month = mo; p->utc_.day = d; p->utc_.hour = h; p->utc_.minute = mi; p->utc_.second = s;
  bool vis = sym_choose("visible", 0, 1);
  p->is_gnss_visible_ = vis;
  int sats = (int)sym_int("satellites", 0, 100);
  p->visible_satellite_number_ = sats;
  LOG(p, GnssReceiver, 17);
  std::string k = "gnss_receiver" + is_(n) + "_";
  isi(k + "measured_utc_time_year", y); isi(k + "measured_utc_time_month", mo); isi(k + "measured_utc_time_day", d); isi(k + "measured_utc_time_hour", h); isi(k + "measured_utc_time_min", mi); is(k + "measured_utc_time_sec", s);
  is3(k + "measured_position_ecef", "m", p->position_ecef_m_); is3(k + "measured_velocity_ecef", "m/s", p->velocity_ecef_m_s_);
  is(k + "measured_latitude[rad]", p->geodetic_position_.latitude_rad_); is(k + "measured_longitude[rad]", p->geodetic_position_.longitude_rad_); is(k + "measured_altitude[m]", p->geodetic_position_.altitude_m_);
  isi(k + "satellite_visible_flag", vis); isi(k + "number_of_visible_satellites", sats);
}
CHECK(sensors) {
  int n = id();
  { Raw<GyroSensor> r; auto* p = r.get(); SET(GyroSensor, sensor_id_, n); p->angular_velocity_c_rad_s_ = vec<3>(); LOG(p, GyroSensor, 3); is3("gyro_sensor" + is_(n) + "_measured_angular_velocity_c", "rad/s", p->angular_velocity_c_rad_s_); }
  { Raw<Magnetometer> r; auto* p = r.get(); SET(Magnetometer, sensor_id_, n); p->magnetic_field_c_nT_ = vec<3>(); LOG(p, Magnetometer, 3); is3("magnetometer" + is_(n) + "_measured_magnetic_field_c", "nT", p->magnetic_field_c_nT_); }
  {
    Raw<StarSensor> r; auto* p = r.get(); SET(StarSensor, component_id_, n);
    bool e = sym_choose("error", 0, 1);
    p->measured_quaternion_i2c_ = quat(); p->error_flag_ = e;
    LOG(p, StarSensor, 5);
    isq("stt" + is_(n) + "_measured_quaternion_i2c", p->measured_quaternion_i2c_); is("stt" + is_(n) + "_error_flag", e);
  }
  {
    Raw<SunSensor> r; auto* p = r.get(); SET(SunSensor, component_id_, n);
    bool e = sym_choose("detected", 0, 1);
    p->measured_sun_direction_c_ = vec<3>(); p->sun_detected_flag_ = e;
    LOG(p, SunSensor, 4);
    is3("sun_sensor" + is_(n) + "_measured_sun_direction_c", "-", p->measured_sun_direction_c_); is("sun_sensor" + is_(n) + "_sun_detected_flag[-]", e);
  }
}
CHECK(actuators) {
  int n = id();
  {
    Raw<Magnetorquer> r; auto* p = r.get(); SET(Magnetorquer, component_id_, n);
    p->output_magnetic_moment_b_Am2_ = vec<3>(); p->torque_b_Nm_ = vec<3>();
    LOG(p, Magnetorquer, 6);
    is3("magnetorquer" + is_(n) + "_output_magnetic_moment_b", "Am2", p->output_magnetic_moment_b_Am2_); is3("magnetorquer" + is_(n) + "_output_torque_b", "Nm", p->torque_b_Nm_);
  }
  {
    Raw<ReactionWheel> r; auto* p = r.get(); SET(ReactionWheel, component_id_, n);
    bool c = sym_choose("jitter calculated", 0, 1), l = sym_choose("jitter logged", 0, 1);
    p->is_calculated_jitter_ = c; p->is_logged_jitter_ = l;
    p->angular_velocity_rad_s_ = num(); p->angular_velocity_rpm_ = num(); p->velocity_limit_rpm_ = num(); p->target_acceleration_rad_s2_ = num(); p->generated_angular_acceleration_rad_s2_ = num();
    p->rw_jitter_.filtered_jitter_force_n_c_ = vec<3>(); p->rw_jitter_.filtered_jitter_torque_n_c_ = vec<3>(); p->rw_jitter_.considers_structural_resonance_ = true;
    LOG(p, ReactionWheel, c && l ? 11 : 5);
    std::string k = "rw" + is_(n) + "_";
    is(k + "angular_velocity[rad/s]", p->angular_velocity_rad_s_); is(k + "angular_velocity[rpm]", p->angular_velocity_rpm_); is(k + "angular_velocity_upper_limit[rpm]", p->velocity_limit_rpm_);
    is(k + "target_angular_acceleration[rad/s2]", p->target_acceleration_rad_s2_); is(k + "angular_acceleration[rad/s2]", p->generated_angular_acceleration_rad_s2_);
    if (c && l) { is3(k + "jitter_force_c", "N", p->rw_jitter_.GetJitterForce_c_N()); is3(k + "jitter_torque_c", "Nm", p->rw_jitter_.GetJitterTorque_c_Nm()); }
  }
  {
    Raw<SimpleThruster> r; auto* p = r.get(); SET(SimpleThruster, component_id_, n);
    p->output_thrust_b_N_ = vec<3>(); p->output_torque_b_Nm_ = vec<3>();
    LOG(p, SimpleThruster, 7);
    std::string k = "simple_thruster" + is_(n) + "_";
    is3(k + "output_thrust_b", "N", p->output_thrust_b_N_); is3(k + "output_torque_b", "Nm", p->output_torque_b_Nm_); is(k + "output_thrust_norm[N]", p->output_thrust_b_N_.CalcNorm());
  }
}
CHECK(others) {
  { Raw<GroundStationCalculator> r; auto* p = r.get(); p->max_bitrate_Mbps_ = num(); p->receive_margin_dB_ = num(); LOG(p, GroundStationCalculator, 2); is("gs_calculator_max_bitrate[Mbps]", p->max_bitrate_Mbps_); is("gs_calculator_receive_margin[dB]", p->receive_margin_dB_); }
  { Raw<Battery> r; auto* p = r.get(); p->battery_voltage_V_ = num(); p->depth_of_discharge_percent_ = num(); LOG(p, Battery, 2); is("battery_voltage[V]", p->battery_voltage_V_); is("battery_dod[%]", p->depth_of_discharge_percent_); }
  { Raw<PcuInitialStudy> r; auto* p = r.get(); p->power_consumption_W_ = num(); p->bus_voltage_V_ = num(); LOG(p, PcuInitialStudy, 2); is("pcu_initial_study_power_consumption[W]", p->power_consumption_W_); is("pcu_initial_study_bus_voltage[V]", p->bus_voltage_V_); }
  { Raw<SolarArrayPanel> r; auto* p = r.get(); int n = id(); SET(SolarArrayPanel, component_id_, n); p->power_generation_W_ = num(); LOG(p, SolarArrayPanel, 1); is("sap" + is_(n) + "_generated_power[W]", p->power_generation_W_); }
}
CHECK(telescope) {
  Raw<Telescope> r; auto* p = r.get();
  Raw<environment::HipparcosCatalogue> h;
  bool calc = sym_choose("catalogue", 0, 1), f[3];
  int stars = (int)sym_choose("stars", 0, 2);
  h.get()->IsCalcEnabled = calc;
  p->hipparcos_ = h.get();
  p->number_of_logged_stars_ = stars;
  for (bool& b : f) b = sym_choose("flag", 0, 1);
  p->is_sun_in_forbidden_angle = f[0]; p->is_earth_in_forbidden_angle = f[1]; p->is_moon_in_forbidden_angle = f[2];
  p->sun_position_image_sensor = vec<2>(); p->earth_position_image_sensor = vec<2>(); p->moon_position_image_sensor = vec<2>();
  p->ground_position_x_image_sensor_ = num(); p->ground_position_y_image_sensor_ = num();
  int64_t ids[2];
  std::vector<Star> list(stars);
  for (int i = 0; i < stars; i++) { ids[i] = sym_int("id", 0, 120000); list[i].hipparcos_data.hipparcos_id = (int)ids[i]; list[i].hipparcos_data.visible_magnitude = num(); list[i].position_image_sensor = vec<2>(); }
  p->star_list_in_sight = list;
  LOG(p, Telescope, 11 + (calc ? 4 * stars : 0));
  isi("telescope_sun_in_exclusion_angle[]", f[0]); isi("telescope_earth_in_exclusion_angle[]", f[1]); isi("telescope_moon_in_exclusion_angle[]", f[2]);
  is2("telescope_sun_position_img", "pix", p->sun_position_image_sensor); is2("telescope_earth_position_img", "pix", p->earth_position_image_sensor); is2("telescope_moon_position_img", "pix", p->moon_position_image_sensor);
  is("telescope_ground_position_x[pix]", p->ground_position_x_image_sensor_); is("telescope_ground_position_y[pix]", p->ground_position_y_image_sensor_);
  for (int i = 0; calc && i < stars; i++) {
    isi("telescope_hipparcos_id (" + is_(i) + ")[ ]", ids[i]); is("telescope_visible_magnitude (" + is_(i) + ")[ ]", list[i].hipparcos_data.visible_magnitude);
    is2("telescope_star_position (" + is_(i) + ")_img", "pix", list[i].position_image_sensor);
  }
}
