// SRC: src/disturbances/air_drag.cpp
// SRC: src/disturbances/geopotential.cpp
// SRC: src/disturbances/gravity_gradient.cpp
// SRC: src/disturbances/lunar_gravity_field.cpp
// SRC: src/disturbances/magnetic_disturbance.cpp
// SRC: src/disturbances/solar_radiation_pressure_disturbance.cpp
// SRC: src/disturbances/third_body_gravity.cpp
// SRC: src/dynamics/attitude/attitude.cpp
// SRC: src/dynamics/attitude/attitude_with_cantilever_vibration.cpp
// SRC: src/dynamics/orbit/orbit.cpp
// SRC: src/dynamics/thermal/temperature.cpp
// SRC: src/environment/global/celestial_information.cpp
// SRC: src/environment/global/gnss_satellites.cpp
// SRC: src/environment/global/simulation_time.cpp
// SRC: src/environment/local/atmosphere.cpp
// SRC: src/environment/local/earth_albedo.cpp
// SRC: src/environment/local/earth_infrared.cpp
// SRC: src/environment/local/geomagnetic_field.cpp
// SRC: src/environment/local/local_celestial_information.cpp
// SRC: src/environment/local/solar_radiation_pressure_environment.cpp
// SRC: src/simulation/ground_station/ground_station.cpp
// SRC: src/simulation/multiple_spacecraft/relative_information.cpp
// MODE: real
// OPT: cosim=0
// BOUNDS: any state of the model (numbers within 1000); up to three thermal nodes, two celestial bodies, three spacecraft for a ground station, four related spacecraft
// STUBS: SPICE bodc2n_c gives the names of two bodies
// OVERRIDE: GnssSatellites::GetPosition_ecef_m and GetClock_s give symbolic values per satellite
#include "SpiceUsr.h"
#include "logs.hpp"
#include "open.hpp"
#include <disturbances/air_drag.hpp>
#include <disturbances/geopotential.hpp>
#include <disturbances/gravity_gradient.hpp>
#include <disturbances/lunar_gravity_field.hpp>
#include <disturbances/magnetic_disturbance.hpp>
#include <disturbances/solar_radiation_pressure_disturbance.hpp>
#include <disturbances/third_body_gravity.hpp>
#include <dynamics/attitude/attitude_with_cantilever_vibration.hpp>
#include <dynamics/orbit/orbit.hpp>
#include <dynamics/thermal/temperature.hpp>
#include <environment/global/celestial_information.hpp>
#include <environment/global/gnss_satellites.hpp>
#include <environment/global/simulation_time.hpp>
#include <environment/local/atmosphere.hpp>
#include <environment/local/earth_albedo.hpp>
#include <environment/local/earth_infrared.hpp>
#include <environment/local/geomagnetic_field.hpp>
#include <environment/local/local_celestial_information.hpp>
#include <environment/local/solar_radiation_pressure_environment.hpp>
#include <simulation/ground_station/ground_station.hpp>
#include <simulation/multiple_spacecraft/relative_information.hpp>
using namespace s2e;
using namespace s2e::disturbances;
using namespace s2e::environment;
using namespace lg;
static std::string n_(int i) { return std::to_string(i); }
extern "C" void bodc2n_c(SpiceInt code, SpiceInt n, SpiceChar* name, SpiceBoolean* found) {
  const char* t = code == 399 ? "EARTH" : "MARS Barycenter";
  strncpy(name, t, n);
  *found = SPICETRUE;
}
static math::Vector<3> g_position[64]; static double g_clock[64];
namespace s2e::environment {
math::Vector<3> GnssSatellites::GetPosition_ecef_m(const size_t i, const time_system::EpochTime) const { return g_position[i]; }
double GnssSatellites::GetClock_s(const size_t i, const time_system::EpochTime) const { return g_clock[i]; }
}  // namespace s2e::environment
#define VEC(T, m, text, unit) { Raw<T> r; auto* p = r.get(); p->m = vec<3>(); LOG(p, T, 3); is3(text, unit, p->m); }
#define PAIR(T, m1, t1, u1, m2, t2, u2) { Raw<T> r; auto* p = r.get(); p->m1 = vec<3>(); p->m2 = vec<3>(); LOG(p, T, 6); is3(t1, u1, p->m1); is3(t2, u2, p->m2); }
CHECK(disturbances) {
  PAIR(AirDrag, torque_b_Nm_, "air_drag_torque_b", "Nm", force_b_N_, "air_drag_force_b", "N")
  VEC(Geopotential, acceleration_ecef_m_s2_, "geopotential_acceleration_ecef", "m/s2")
  VEC(GravityGradient, torque_b_Nm_, "gravity_gradient_torque_b", "Nm")
  VEC(LunarGravityField, acceleration_mcmf_m_s2_, "lunar_gravity_acceleration_mcmf", "m/s2")
  PAIR(MagneticDisturbance, rmm_b_Am2_, "spacecraft_magnetic_moment_b", "Am2", torque_b_Nm_, "magnetic_disturbance_torque_b", "Nm")
  PAIR(SolarRadiationPressureDisturbance, torque_b_Nm_, "srp_torque_b", "Nm", force_b_N_, "srp_force_b", "N")
  VEC(ThirdBodyGravity, acceleration_i_m_s2_, "third_body_acceleration_i", "m/s2")
}
template <class T> static void attitude(T* p) {
  p->angular_velocity_b_rad_s_ = vec<3>(); p->quaternion_i2b_ = quat(); p->torque_b_Nm_ = vec<3>(); p->angular_momentum_total_Nms_ = num(); p->kinetic_energy_J_ = num();
}
template <class T> static void attitude_columns(T* p) {
  is3("spacecraft_angular_velocity_b", "rad/s", p->angular_velocity_b_rad_s_); isq("spacecraft_quaternion_i2b", p->quaternion_i2b_); is3("spacecraft_torque_b", "Nm", p->torque_b_Nm_);
  is("spacecraft_total_angular_momentum[Nms]", p->angular_momentum_total_Nms_); is("spacecraft_kinematic_energy[J]", p->kinetic_energy_J_);
}
CHECK(dynamics) {
  { Raw<dynamics::attitude::Attitude> r; auto* p = r.get(); attitude(p); LOG(p, dynamics::attitude::Attitude, 12); attitude_columns(p); }
  {
    Raw<dynamics::attitude::AttitudeWithCantileverVibration> r; auto* p = r.get(); attitude(p);
    p->euler_angular_cantilever_rad_ = vec<3>(); p->angular_velocity_cantilever_rad_s_ = vec<3>();
    LOG(p, dynamics::attitude::AttitudeWithCantileverVibration, 18); attitude_columns(p);
    is3("euler_angular_cantilever_c", "rad", p->euler_angular_cantilever_rad_); is3("angular_velocity_cantilever_c", "rad/s", p->angular_velocity_cantilever_rad_s_);
  }
  {
    Raw<dynamics::orbit::Orbit> r; auto* p = r.get();
    p->spacecraft_position_i_m_ = vec<3>(); p->spacecraft_position_ecef_m_ = vec<3>(); p->spacecraft_velocity_i_m_s_ = vec<3>(); p->spacecraft_velocity_b_m_s_ = vec<3>(); p->spacecraft_velocity_ecef_m_s_ = vec<3>(); p->spacecraft_acceleration_i_m_s2_ = vec<3>();
    auto& g = p->spacecraft_geodetic_position_;
    g.latitude_rad_ = num(); g.longitude_rad_ = num(); g.altitude_m_ = num();
    LOG(p, dynamics::orbit::Orbit, 18);
    is3("spacecraft_position_i", "m", p->spacecraft_position_i_m_); is3("spacecraft_position_ecef", "m", p->spacecraft_position_ecef_m_);
    is3("spacecraft_velocity_i", "m/s", p->spacecraft_velocity_i_m_s_); is3("spacecraft_velocity_b", "m/s", p->spacecraft_velocity_b_m_s_); is3("spacecraft_acceleration_i", "m/s2", p->spacecraft_acceleration_i_m_s2_);
    is("spacecraft_latitude[rad]", g.latitude_rad_); is("spacecraft_longitude[rad]", g.longitude_rad_); is("spacecraft_altitude[m]", g.altitude_m_);
  }
}
CHECK(temperature) {
  using namespace dynamics::thermal;
  Raw<Temperature> r; auto* p = r.get();
  int n = (int)sym_choose("nodes", 1, 3), kept = 0;
  static const NodeType types[] = {NodeType::kDiffusive, NodeType::kBoundary, NodeType::kArithmetic};
  double v[3][5]; bool b[3];
  for (int i = 0; i < n; i++) {
    int t = (int)sym_choose("type", 0, 2);
    b[i] = t == 1;
    kept += !b[i];
    p->nodes_.emplace_back(i, "node" + std::string(1, 'a' + i), types[t], 0, 300.0, t == 2 ? 0.0 : 10.0, 0.5, 0.5, 1.0, math::Vector<3>(0.0));
    p->heatloads_.emplace_back(i, std::vector<double>{0.0, 1.0}, std::vector<double>{0.0, 0.0});
    for (double& x : v[i]) x = num();
    p->nodes_[i].temperature_K_ = v[i][0]; p->heatloads_[i].total_heatload_W_ = v[i][1];
    p->nodes_[i].solar_radiation_W_ = v[i][2]; p->nodes_[i].albedo_radiation_W_ = v[i][3]; p->nodes_[i].earth_infrared_W_ = v[i][4];
  }
  p->node_num_ = n;
  LOG(p, Temperature, 5 * kept);
  for (int i = 0; i < n; i++) {
    std::string k = "_" + n_(i) + " (node" + std::string(1, 'a' + i) + ")";
    if (b[i]) continue;
    is("temp" + k + "[deg]", v[i][0] - 273.15); is("heat" + k + "[W]", v[i][1]); is("solar" + k + "[W]", v[i][2]); is("albedo" + k + "[W]", v[i][3]); is("earthIR" + k + "[W]", v[i][4]);
  }
  std::string all = p->Temperature::GetLogHeader();
  for (int i = 0; i < n; i++) if (b[i]) sym_assert(all.find("node" + std::string(1, 'a' + i)) == std::string::npos, "no column of a boundary node");
  p->nodes_.~vector(); p->heatloads_.~vector();
}
CHECK(celestial) {
  Raw<CelestialInformation> r; auto* p = r.get();
  int ids[2] = {399, 4}, first = (int)sym_choose("first", 0, 1), n = (int)sym_choose("bodies", 0, 2);
  if (first) { ids[0] = 4; ids[1] = 399; }
  std::string names[2] = {first ? "mars barycenter" : "earth", first ? "earth" : "mars barycenter"};
  double x[6], v[6], xs[6], vs[6];
  for (int i = 0; i < 6; i++) { x[i] = num(); v[i] = num(); xs[i] = num(); vs[i] = num(); }
  p->number_of_selected_bodies_ = n; p->selected_body_ids_ = ids;
  p->celestial_body_position_from_center_i_m_ = x; p->celestial_body_velocity_from_center_i_m_s_ = v;
  LOG(p, CelestialInformation, 6 * n);
  for (int k = 0; k < n; k++) for (int i = 0; i < 3; i++) { std::string a(1, "xyz"[i]); is(names[k] + "_position_i_" + a + "[m]", x[3 * k + i]); is(names[k] + "_velocity_i_" + a + "[m/s]", v[3 * k + i]); }
  Raw<LocalCelestialInformation> l; auto* q = l.get();
  q->global_celestial_information_ = p;
  q->celestial_body_position_from_spacecraft_b_m_ = xs; q->celestial_body_velocity_from_spacecraft_b_m_s_ = vs;
  LOG(q, LocalCelestialInformation, 6 * n);
  for (int k = 0; k < n; k++) for (int i = 0; i < 3; i++) { std::string a(1, "xyz"[i]); is(names[k] + "_position_from_spacecraft_b_" + a + "[m]", xs[3 * k + i]); is(names[k] + "_velocity_from_spacecraft_b_" + a + "[m/s]", vs[3 * k + i]); }
}
CHECK(gnss_satellites) {
  Raw<GnssSatellites> r; auto* p = r.get();
  for (int i = 0; i < 32; i++) { g_position[i] = vec<3>(); g_clock[i] = num(); }
  LOG(p, GnssSatellites, 128);
  for (int i = 0; i < 32; i++) { is3("GPS" + n_(i) + "_position_ecef", "m", g_position[i]); is("GPS" + n_(i) + "_clock_offset[s]", g_clock[i]); }
}
CHECK(time) {
  Raw<SimulationTime> r; auto* p = r.get();
  double t = p->elapsed_time_sec_ = num();
  auto& u = p->current_utc_;
  int y = (int)sym_choose("year", 2023, 2024), mo = (int)sym_int("month", 1, 12), d = (int)sym_int("day", 1, 31), h = (int)sym_int("hour", 0, 23), mi = (int)sym_int("minute", 0, 59), k = 7 * (int)sym_choose("second", 0, 8);
  double f = sym_double("fraction of the second", 0, 0.005);
  u.year = y; u.month = mo; u.day = d; u.hour = h; u.minute = mi; u.second = k + f;
  LOG(p, SimulationTime, 2);
  is("elapsed_time[s]", t);
  std::string s = text("time[UTC]");
  const char *c = s.c_str(), *sep = "// ::";
  int64_t want[5] = {y, mo, d, h, mi};
  char* e;
  for (int i = 0; i < 5; i++) { sym_assert(std::strtol(c, &e, 10) == want[i], "time"); sym_assert(*e == sep[i], "separator"); c = e + 1; }
  double sec = std::strtod(c, &e);
  sym_assert(*e == 0, "end");
  sym_assert_le(k + f - 0.00100001, sec, "second, in steps of 1 ms");
  sym_assert_le(sec, k + f + 1e-9, "second not in the future");
}
CHECK(local) {
  { Raw<Atmosphere> r; auto* p = r.get(); double a = p->air_density_kg_m3_ = num(); LOG(p, Atmosphere, 1); is("air_density_at_spacecraft_position[kg/m3]", a); }
  { Raw<EarthAlbedo> r; auto* p = r.get(); double a = p->earth_albedo_factor_ = num(), b = p->earth_albedo_W_m2_ = num(); LOG(p, EarthAlbedo, 2); is("earth_albedo_factor", a); is("earth_albedo_W_m2", b); }
  { Raw<EarthInfrared> r; auto* p = r.get(); double a = p->earth_infrared_temperature_hot_side_K_ = num(), b = p->earth_infrared_temperature_cold_side_K_ = num(), c = p->earth_infrared_W_m2_ = num(); LOG(p, EarthInfrared, 3); is("earth_infrared_temperature_hot_side_K", a); is("earth_infrared_temperature_cold_side_K", b); is("earth_infrared_W_m2", c); }
  PAIR(GeomagneticField, magnetic_field_i_nT_, "geomagnetic_field_at_spacecraft_position_i", "nT", magnetic_field_b_nT_, "geomagnetic_field_at_spacecraft_position_b", "nT")
  { Raw<SolarRadiationPressureEnvironment> r; auto* p = r.get(); double a = p->solar_radiation_pressure_N_m2_ = num(), b = p->shadow_coefficient_ = sym_double("shadow", 0, 1); LOG(p, SolarRadiationPressureEnvironment, 2); is("solar_radiation_pressure_at_spacecraft_position[N/m2]", a * b); is("shadow_coefficient_at_spacecraft_position", b); }
}
CHECK(ground_station) {
  Raw<ground_station::GroundStation> r; auto* p = r.get();
  int n = (int)sym_choose("spacecraft", 0, 3), id = 7 * (int)sym_choose("station", 0, 1);
  bool v[3];
  new (&p->is_visible_) std::map<int, bool>();
  p->ground_station_id_ = id; p->number_of_spacecraft_ = n;
  for (int i = 0; i < n; i++) p->is_visible_[i] = v[i] = sym_choose("visible", 0, 1);
  p->position_i_m_ = vec<3>();
  LOG(p, ground_station::GroundStation, n + 3);
  for (int i = 0; i < n; i++) isi("ground_station" + n_(id) + "_sc" + n_(i) + "_visible_flag", v[i]);
  bool one = false;
  for (auto& s : g_name) one |= s.find("ground_station" + n_(id) + "_position") == 0;
  if (one) is3("ground_station" + n_(id) + "_position_eci", "m", p->position_i_m_);
  else is3("ground_station_position_eci", "m", p->position_i_m_);
}
CHECK(relative) {
  Raw<simulation::RelativeInformation> r; auto* p = r.get();
  int n = (int)sym_choose("spacecraft", 0, 4);
  new (&p->dynamics_database_) std::map<const size_t, const dynamics::Dynamics*>();
  std::vector<std::vector<math::Vector<3>>>* lists[4] = {&p->relative_position_list_i_m_, &p->relative_velocity_list_i_m_s_, &p->relative_position_list_rtn_m_, &p->relative_velocity_list_rtn_m_s_};
  for (int i = 0; i < n; i++) p->dynamics_database_.emplace(i, nullptr);
  for (auto* l : lists) { l->resize(n); for (auto& row : *l) { row.resize(n); for (auto& c : row) c = vec<3>(); } }
  LOG(p, simulation::RelativeInformation, 6 * n * (n - 1));
  const char* what[4] = {"position", "velocity", "position", "velocity"};
  for (int k = 0; k < 4; k++)
    for (int t = 0; t < n; t++)
      for (int q = 0; q < t; q++) is3("satellite" + n_(t) + "_" + what[k] + "_from_satellite" + n_(q) + (k < 2 ? "_i" : "_rtn"), k % 2 ? "m/s" : "m", (*lists[k])[t][q]);
}
