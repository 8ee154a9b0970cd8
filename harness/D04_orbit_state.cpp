// SRC: src/dynamics/orbit/orbit.cpp
// MODE: real
// BOUNDS: every orbit frame attitude, radius, radial and transverse speed; every Earth rotation matrix, position, velocity, body attitude, force and mass; up to 3 forces
// STUBS: ECEF to geodetic conversion (M08)
#include "orb.hpp"
using namespace s2e;
using namespace s2e::dynamics::orbit;
using math::Quaternion;
using math::Vector;
static Vector<3> g_ecef;
static double g_alt;
static int g_n;
namespace s2e::geodesy {
GeodeticPosition::GeodeticPosition() { latitude_rad_ = longitude_rad_ = altitude_m_ = 0; }
void GeodeticPosition::UpdateFromEcef(const Vector<3> p) {
  g_ecef = p;
  g_n++;
  altitude_m_ = g_alt;
  latitude_rad_ = 2 * g_alt;
  longitude_rad_ = 3 * g_alt;
}
}  // namespace s2e::geodesy
struct Orb : Orbit {
  using Orbit::Orbit;
  void Propagate(const double, const double) override {}
};
static void lvlh(Quaternion q0, double R, double a, double b) {
  Orb o(nullptr);
  Vector<3> e[3];
  for (int i = 0; i < 3; i++) {
    Vector<3> u(0.0);
    u[i] = 1;
    e[i] = q0.InverseFrameConversion(u);
  }
  o.spacecraft_position_i_m_ = R * e[0];
  o.spacecraft_velocity_i_m_s_ = a * e[0] + b * e[1];
  Quaternion q = o.CalcQuaternion_i2lvlh();
  for (int i = 0; i < 3; i++) {
    Vector<3> f = q.FrameConversion(e[i]);
    for (int k = 0; k < 3; k++) sym_assert_close(f[k], i == k, 1e-9, "radial, transverse and normal axes");
  }
}
// one free rotation parameter about each axis, with the remaining ones fixed
static Quaternion turn(int axis, const char* n) {
  double u[2];
  sym_unit(n, 2, u);
  double v[4] = {0, 0, 0, u[1]};
  v[axis] = u[0];
  return Quaternion(v[0], v[1], v[2], v[3]);
}
CHECK(lvlh_frame_x) { lvlh(turn(0, "q"), sym_double("R", 1, 10), sym_double("a", -2, 2), sym_double("b", 0.25, 4)); }
CHECK(lvlh_frame_y) { lvlh(turn(1, "q"), sym_double("R", 1, 10), sym_double("a", -2, 2), sym_double("b", 0.25, 4)); }
CHECK(lvlh_frame_z) { lvlh(turn(2, "q"), sym_double("R", 1, 10), sym_double("a", -2, 2), sym_double("b", 0.25, 4)); }
CHECK(lvlh_frame) { lvlh(vu::unit_quat("q"), sym_double("R", 1, 10), sym_double("a", -2, 2), sym_double("b", 0.25, 4)); }
// Earth fixed state
CHECK(earth_fixed_state) {
  orbenv::World w;
  Quaternion qe = vu::unit_quat("Earth");
  w.er->dcm_j2000_to_ecef_ = qe.ConvertToDcm();
  Orb o(w.gc.get());
  Vector<3> p = vu::vec3("position", -10, 10), v = vu::vec3("velocity", -10, 10);
  o.spacecraft_position_i_m_ = p;
  o.spacecraft_velocity_i_m_s_ = v;
  o.TransformEciToEcef();
  double s = environment::earth_mean_angular_velocity_rad_s;
  sym_assert_close(s, 7.2921159e-5, 1e-11, "rotation rate of the Earth");
  Vector<3> u = v;
  u[0] += s * p[1];
  u[1] -= s * p[0];
  Vector<3> pe = qe.FrameConversion(p), ve = qe.FrameConversion(u);
  vu::close_vec(o.GetPosition_ecef_m(), pe, 1e-9, "position turns with the Earth");
  vu::close_vec(o.GetVelocity_ecef_m_s(), ve, 1e-9, "velocity relative to the turning Earth");
  vu::close_vec(o.GetPosition_i_m(), p, 0, "inertial position kept");
  vu::close_vec(o.GetVelocity_i_m_s(), v, 0, "inertial velocity kept");
  g_alt = sym_double("altitude", -1e3, 1e6);
  if (g_alt < 0) sym_exit_ok();
  o.TransformEcefToGeodetic();
  vu::close_vec(g_ecef, pe, 1e-9, "geodetic position of the Earth fixed position");
  sym_assert(g_alt >= 0, "the simulation stops below the surface");
  sym_assert_close(o.GetAltitude_m(), g_alt, 0, "altitude");
  sym_assert_close(o.GetLatitude_rad(), 2 * g_alt, 0, "latitude");
  sym_assert_close(o.GetLongitude_rad(), 3 * g_alt, 0, "longitude");
  Vector<3> l = o.GetLatLonAlt();
  sym_assert(l[0] == 2 * g_alt && l[1] == 3 * g_alt && l[2] == g_alt, "latitude, longitude, altitude");
}
// body frame velocity and the accelerations of forces in either frame
CHECK(forces) {
  Orb o(nullptr);
  Quaternion q = vu::unit_quat("q");
  Vector<3> v = vu::vec3("velocity", -10, 10), a0 = vu::vec3("acceleration", -1, 1);
  o.spacecraft_velocity_i_m_s_ = v;
  o.UpdateByAttitude(q);
  vu::close_vec(q.InverseFrameConversion(o.GetVelocity_b_m_s()), v, 1e-9, "velocity in the body frame");
  o.SetAcceleration_i_m_s2(a0);
  Vector<3> fi = vu::vec3("force i", -1, 1), fb = vu::vec3("force b", -1, 1), da = vu::vec3("acceleration 2", -1, 1);
  double m = sym_double("mass", 0.5, 10), m2 = sym_double("mass 2", 0.5, 10);
  int order = sym_choose("order", 0, 2);
  for (int k = 0; k < 3; k++) {
    int j = (k + order) % 3;
    if (j == 0) o.AddForce_i_N(fi, m);
    if (j == 1) o.AddForce_b_N(fb, q, m2);
    if (j == 2) o.AddAcceleration_i_m_s2(da);
  }
  Vector<3> fbi = q.InverseFrameConversion(fb);
  for (int i = 0; i < 3; i++) sym_assert_close((o.spacecraft_acceleration_i_m_s2_[i] - a0[i] - da[i]) * m * m2, fi[i] * m2 + fbi[i] * m, 1e-9, "accelerations add up");
}
