// SRC: src/dynamics/attitude/attitude.cpp src/dynamics/attitude/controlled_attitude.cpp
// MODE: real
// BOUNDS: every position, velocity, body position, surface target and body direction in the boxes, Earth rotation about the pole; up to 3 propagations with arbitrary attitudes in between
// OVERRIDE: Quaternion::ConvertFromDcm and GeodeticPosition::CalcEcefPosition are replaced (see stubs)
// STUBS: Quaternion::ConvertFromDcm returns an arbitrary quaternion and hands its matrix to the oracle (decided in M02); GeodeticPosition::CalcEcefPosition (decided in M08) and the celestial body positions (decided in E03) return arbitrary vectors
// OPT: path_s=60
#include "open.hpp"
#include "util.hpp"
#include <cstring>
#include <dynamics/attitude/controlled_attitude.hpp>
using namespace s2e;
using namespace s2e::dynamics::attitude;
using math::Matrix;
using math::Quaternion;
using math::Vector;
typedef AttitudeControlMode Mode;
static Matrix<3, 3> g_dcm;
static Quaternion g_q{0, 0, 0, 1};
static int g_calls;
static Vector<3> g_sun, g_earth, g_surface, g_sun_center, g_earth_center;
namespace s2e::math {
Quaternion Quaternion::ConvertFromDcm(const Matrix<3, 3> dcm) {
  g_dcm = dcm;
  g_calls++;
  return g_q;
}
}  // namespace s2e::math
namespace s2e::geodesy {
math::Vector<3> GeodeticPosition::CalcEcefPosition() const { return g_surface; }
}  // namespace s2e::geodesy
namespace s2e::environment {
math::Vector<3> LocalCelestialInformation::GetPositionFromSpacecraft_i_m(const char* n) const {
  sym_assert(!strcmp(n, "SUN") || !strcmp(n, "EARTH"), "known body");
  return n[0] == 'S' ? g_sun : g_earth;
}
int CelestialInformation::CalcBodyIdFromName(const char* n) const { return n[0] == 'S' ? 0 : 1; }
}  // namespace s2e::environment
struct Orb : dynamics::orbit::Orbit {
  void Propagate(const double, const double) override {}
};
static double dot(const Vector<3>& a, const Vector<3>& b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static Vector<3> cross(const Vector<3>& a, const Vector<3>& b) {
  Vector<3> c;
  for (int i = 0; i < 3; i++) c[i] = a[(i + 1) % 3] * b[(i + 2) % 3] - a[(i + 2) % 3] * b[(i + 1) % 3];
  return c;
}
struct World {
  Raw<Orb> orb;
  Raw<environment::LocalCelestialInformation> lc;
  Raw<environment::CelestialInformation> gc;
  Raw<environment::EarthRotation> er;
  double pos[6] = {0};
  Matrix<3, 3> I{0.0};
  World() {
    lc->global_celestial_information_ = gc.get();
    gc->earth_rotation_ = er.get();
    gc->celestial_body_position_from_center_i_m_ = pos;
    gc->number_of_selected_bodies_ = 2;
    g_calls = 0;
    g_q = Quaternion(0, 0, 0, 1);
    for (int i = 0; i < 3; i++)
      for (int j = 0; j < 3; j++) {
        er->dcm_j2000_to_ecef_[i][j] = i == j;
        I[i][j] = i == j ? 1.5 + i : 0.125 * (i + j);
      }
  }
  ControlledAttitude* make(Mode m, Mode s, Vector<3> md, Vector<3> sd) {
    ControlledAttitude* a = new ControlledAttitude(m, s, Quaternion(0, 0, 0, 1), md, sd, I, geodesy::GeodeticPosition(0, 0, 0), lc.get(), orb.get(), "a");
    g_calls = 0;
    return a;
  }
};
static Vector<3> v3(double a, double b, double c) {
  Vector<3> v;
  v[0] = a;
  v[1] = b;
  v[2] = c;
  return v;
}
// the attitude matrix turns the main direction onto the main body direction, and the sub direction into its half plane
CHECK(pointing_geometry) {
  World w;
  int which = sym_choose("symbolic direction", 0, 3);
  Vector<3> m = v3(0, 0, -1), s = v3(0, 1, 0), mi = v3(2, 0, 0), si = v3(0, 0, 4);
  double u[3];
  sym_unit("direction", 3, u);
  (which == 0 ? mi : which == 1 ? si : which == 2 ? m : s) = v3(u[0], u[1], u[2]);
  if (which < 2) {
    Vector<3> c = cross(mi, si);
    sym_assume(dot(c, c) > 0.001);
  } else
    sym_assume(dot(m, s) < 0.8 && dot(m, s) > -0.8);
  // the vectors span a plane (the sub direction has a part across the main one)
  Vector<3> ti = cross(cross(mi, si), mi), tb = cross(cross(m, s), m);
  sym_assume(dot(ti, ti) > 1e-3);
  sym_assume(dot(tb, tb) > 1e-3);
  g_sun = mi;
  w.orb->spacecraft_velocity_i_m_s_ = si;
  ControlledAttitude* a = w.make(Mode::kSunPointing, Mode::kVelocityDirectionPointing, m, s);
  sym_assert(a->is_calc_enabled_, "enabled");
  a->Propagate(1.0);
  sym_assert(g_calls == 1, "attitude set once");
  Vector<3> mb, sb;
  for (int i = 0; i < 3; i++) {
    mb[i] = g_dcm[i][0] * mi[0] + g_dcm[i][1] * mi[1] + g_dcm[i][2] * mi[2];
    sb[i] = g_dcm[i][0] * si[0] + g_dcm[i][1] * si[1] + g_dcm[i][2] * si[2];
  }
  double n = std::sqrt(dot(mi, mi));
  for (int i = 0; i < 3; i++) sym_assert_close(mb[i], n * m[i], 1e-6, "main direction on the main body axis");
  Vector<3> e = cross(m, s), p = cross(m, sb);
  Vector<3> ep = cross(e, p);
  for (int i = 0; i < 3; i++) sym_assert_close(ep[i], 0.0, 1e-6, "sub direction in the plane");
  sym_assert(dot(e, p) >= 0, "on the side of the sub body direction");
  // rotation matrix
  Vector<3> r[3];
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) r[i][j] = g_dcm[i][j];
  for (int i = 0; i < 3; i++)
    for (int j = i; j < 3; j++) sym_assert_close(dot(r[i], r[j]), i == j, 1e-6, "orthonormal");
  Vector<3> c = cross(r[0], r[1]);
  sym_assert(dot(c, r[2]) > 0, "right handed");
}
// every mode points to its own target
CHECK(mode_targets) {
  World w;
  int mode = sym_choose("mode", 1, 6);
  bool early = sym_choose("before the local information is set", 0, 1);
  Vector<3> p = vu::vec3("position", -10, 10), v = vu::vec3("velocity", -10, 10), x = vu::vec3("other", -10, 10), d = x;
  w.orb->spacecraft_position_i_m_ = p;
  w.orb->spacecraft_velocity_i_m_s_ = v;
  double cs[2];
  sym_unit("earth rotation", 2, cs);
  Matrix<3, 3>& e = w.er->dcm_j2000_to_ecef_;
  e[0][0] = e[1][1] = cs[0];
  e[0][1] = cs[1];
  e[1][0] = -cs[1];
  Vector<3> xi = v3(cs[0] * x[0] - cs[1] * x[1], cs[1] * x[0] + cs[0] * x[1], x[2]);  // x is given in ECEF
  g_sun = g_earth = v3(0, 0, 0);
  if (early && mode > 2) return;
  switch (mode) {
    case 1:
    case 2:
      if (early) {
        for (int i = 0; i < 3; i++) w.pos[(mode == 1 ? 0 : 3) + i] = x[i];
        d = x - p;
      } else
        (mode == 1 ? g_sun : g_earth) = x;
      break;
    case 3: d = v; break;
    case 4:
      w.orb->spacecraft_velocity_ecef_m_s_ = x;
      d = xi;
      break;
    case 5: d = cross(p, v); break;
    case 6:
      g_surface = x;
      d = xi - p;
      break;
  }
  sym_assume(dot(d, d) > 0.01);
  ControlledAttitude* a = w.make((Mode)mode, mode == 3 ? Mode::kSunPointing : Mode::kVelocityDirectionPointing, v3(1, 0, 0), v3(0, 1, 0));
  Vector<3> t = a->CalcTargetDirection_i((Mode)mode);
  double n = std::sqrt(dot(d, d));
  for (int i = 0; i < 3; i++) sym_assert_close(t[i] * n, d[i], 1e-6, "target direction");
}
// modes that cannot be controlled leave the attitude alone
CHECK(uncontrolled) {
  World w;
  int m = sym_choose("main", 0, 7), s = sym_choose("sub", 0, 7);
  double z = sym_double("separation", -1, 1);
  Vector<3> md = v3(0, 0, 2), sd = v3(0, std::sqrt(1 - z * z), z);
  if (z > 0.99999 || z < -0.99999) sym_end();
  double k = sym_double("length", 0.5, 2);
  g_sun = v3(1, 0, 0);
  g_earth = v3(0, 1, 0);
  g_surface = v3(0, 0, 1);
  w.orb->spacecraft_position_i_m_ = v3(1, 1, 0.5);
  w.orb->spacecraft_velocity_i_m_s_ = v3(0, 1, 2);
  w.orb->spacecraft_velocity_ecef_m_s_ = v3(1, 1, 2);
  ControlledAttitude* a = w.make((Mode)m, (Mode)s, md, k * sd);
  bool ok = m != 7 && s != 7 && (m == 0 || m != s);
  double c = std::cos(30.0 * math::deg_to_rad);
  bool near = z > c || z < -c;
  if (m != 0 && near) ok = false;
  sym_assert(a->is_calc_enabled_ == ok, "controlled exactly for different modes with separate directions");
  g_q = Quaternion(0.5, 0.5, 0.5, 0.5);
  a->Propagate(1.0);
  sym_assert(g_calls == (ok && m != 0), "attitude set exactly when controlled");
  vu::close_quat(a->GetQuaternion_i2b(), g_calls ? g_q : Quaternion(0, 0, 0, 1), 0, "attitude");
}
// the angular velocity is the rotation between two propagations, the torque what the body needs for its change
CHECK(angular_velocity) {
  World w;
  g_sun = v3(1, 0, 0);
  w.orb->spacecraft_velocity_i_m_s_ = v3(0, 1, 0);
  ControlledAttitude* a = w.make(Mode::kSunPointing, Mode::kVelocityDirectionPointing, v3(1, 0, 0), v3(0, 1, 0));
  double t = 0.5, dt = sym_double("interval", 0.1, 10);
  Quaternion p(0, 0, 0, 1);
  Vector<3> pw(0.0), tau = vu::vec3("disturbance", -1, 1);
  g_q = p = vu::unit_quat("q0");
  a->Propagate(t);
  sym_assert(a->GetAngularVelocity_b_rad_s()[0] == 0 && a->GetAngularVelocity_b_rad_s()[1] == 0 && a->GetAngularVelocity_b_rad_s()[2] == 0, "no rate at first");
  a->SetTorque_b_Nm(tau);
  int fixed = sym_choose("first rate", 0, 1);
  for (int k = 0; k < 1 + fixed; k++) {
    t += dt;
    // new attitude: rotation d from the old one, body rate along d
    Quaternion d = k == 1 ? Quaternion(0.5, -0.1, 0.1, 0.85) : vu::unit_quat("turn");
    if (k == 1) d = Quaternion(0.6, 0, 0, 0.8);
    sym_assume(d[3] > 1e-6 || d[3] < -1e-6);
    int sign = sym_choose("sign", 0, 1) ? -1 : 1;
    g_q = (double)sign * (p * d);
    a->SetTorque_b_Nm(tau);
    a->Propagate(t);
    double s = d[3] < 0 ? -1 : 1;
    Vector<3> wv, al;
    for (int i = 0; i < 3; i++) {
      wv[i] = s * 2 * d[i];
      al[i] = (wv[i] - pw[i]) / dt;
      sym_assert_close(a->GetAngularVelocity_b_rad_s()[i] * dt, wv[i], 1e-7, "angular velocity");
    }
    for (int i = 0; i < 3; i++) sym_assert_close((a->torque_b_Nm_[i] - tau[i]) * dt, w.I[i][0] * al[0] + w.I[i][1] * al[1] + w.I[i][2] * al[2], 1e-5, "control torque");
    p = g_q;
    pw = wv;
  }
}
CHECK(mode_names) {
  static const char* n[] = {"INERTIAL_STABILIZE", "SUN_POINTING", "EARTH_CENTER_POINTING", "VELOCITY_DIRECTION_POINTING", "GROUND_SPEED_DIRECTION_POINTING", "ORBIT_NORMAL_POINTING", "EARTH_SURFACE_POINTING", "SOMETHING_ELSE"};
  for (int i = 0; i < 8; i++) sym_assert((int)ConvertStringToCtrlMode(n[i]) == i, "mode name");
}
