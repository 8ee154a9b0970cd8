// SRC: src/dynamics/orbit/relative_orbit.cpp src/math_physics/orbit/relative_orbit_models.cpp
// MODE: real
// BOUNDS: every attitude and size of the reference orbit frame, every relative state; one propagation of up to 3 integration steps for the Runge-Kutta update, any elapsed time for the transition matrix
// STUBS: ECEF and geodetic conversion and the LVLH quaternion (D04)
#include "orb.hpp"
#include <dynamics/dynamics.hpp>
#include <dynamics/orbit/relative_orbit.hpp>
#include <simulation/multiple_spacecraft/relative_information.hpp>
using namespace s2e;
using namespace s2e::dynamics::orbit;
using math::Quaternion;
using math::Vector;
namespace s2e::geodesy {
GeodeticPosition::GeodeticPosition() { latitude_rad_ = longitude_rad_ = altitude_m_ = 0; }
}  // namespace s2e::geodesy
static Quaternion g_q(0, 0, 0, 1);
static int g_tf;
namespace s2e::dynamics::orbit {
Quaternion Orbit::CalcQuaternion_i2lvlh() const { return g_q; }
void Orbit::TransformEciToEcef() { spacecraft_position_ecef_m_ = spacecraft_position_i_m_; g_tf++; }
void Orbit::TransformEcefToGeodetic() { g_tf++; }
std::string Orbit::GetLogHeader() const { return ""; }
std::string Orbit::GetLogValue() const { return ""; }
}  // namespace s2e::dynamics::orbit
struct Ref : Orbit {
  Ref() : Orbit(nullptr) {}
  void Propagate(const double, const double) override {}
};
struct Pair {
  Ref ref;
  Raw<dynamics::Dynamics> dyn;
  Raw<simulation::RelativeInformation> rel;
  double R, a, b;
  Vector<3> e[3];
  Pair() {
    dyn->orbit_ = &ref;
    new (&rel->dynamics_database_) std::map<const size_t, const dynamics::Dynamics*>;
    rel->dynamics_database_.emplace(3, dyn.get());
  }
  void put(const char* n) {
    g_q = vu::unit_quat(n);
    R = 1;
    a = sym_double("radial speed", -1, 1);
    b = sym_double("transverse speed", 0.1, 2);
    for (int i = 0; i < 3; i++) {
      Vector<3> u(0.0);
      u[i] = 1;
      e[i] = g_q.InverseFrameConversion(u);
    }
    ref.spacecraft_position_i_m_ = R * e[0];
    ref.spacecraft_velocity_i_m_s_ = a * e[0] + b * e[1];
  }
  // position and velocity of the point at x, xd in the frame that turns with the reference spacecraft
  void expect(const Orbit& o, const double* x, const char* l) {
    double w = b / R, v[3] = {x[3] - w * x[1], x[4] + w * x[0], x[5]};
    for (int i = 0; i < 3; i++) {
      double p = ref.spacecraft_position_i_m_[i], s = ref.spacecraft_velocity_i_m_s_[i];
      for (int k = 0; k < 3; k++) { p += e[k][i] * x[k]; s += e[k][i] * v[k]; }
      sym_assert_close(o.GetPosition_i_m()[i], p, 1e-6, l);
      sym_assert_close(o.GetVelocity_i_m_s()[i], s, 1e-6, l);
      sym_assert_close(o.GetPosition_ecef_m()[i], p, 1e-6, l);
    }
  }
};
static void hill(const double* x, double* d) {  // mean motion 1
  for (int i = 0; i < 3; i++) d[i] = x[3 + i];
  d[3] = 3 * x[0] + 2 * x[4];
  d[4] = -2 * x[3];
  d[5] = -x[2];
}
static void step(double* x, double h) {
  double k[4][6], y[6];
  hill(x, k[0]);
  for (int i = 0; i < 6; i++) y[i] = x[i] + h / 2 * k[0][i];
  hill(y, k[1]);
  for (int i = 0; i < 6; i++) y[i] = x[i] + h / 2 * k[1][i];
  hill(y, k[2]);
  for (int i = 0; i < 6; i++) y[i] = x[i] + h * k[2][i];
  hill(y, k[3]);
  for (int i = 0; i < 6; i++) x[i] += h / 6 * (k[0][i] + 2 * k[1][i] + 2 * k[2][i] + k[3][i]);
}
CHECK(runge_kutta) {
  Pair p;
  p.put("q");
  double x[6];
  Vector<3> r, v;
  for (int i = 0; i < 3; i++) { r[i] = x[i] = sym_double("relative position", -5, 5); v[i] = x[3 + i] = sym_double("relative velocity", -5, 5); }
  RelativeOrbit o(nullptr, 1.0, 0.1875, 3, r, v, RelativeOrbit::kRk4, s2e::orbit::RelativeOrbitModel::kHill, s2e::orbit::StmModel::kHcw, p.rel.get());
  p.expect(o, x, "initial state");
  int n = sym_choose("steps", 1, 3);
  o.Propagate(n * 0.1875, 0.0);
  p.expect(o, x, "disabled");
  o.SetIsCalcEnabled(true);
  p.put("q2");
  o.SetAcceleration_i_m_s2(vu::vec3("force", -1, 1));
  o.Propagate((n - 1) * 0.1875 + 0.09375, 0.0);
  for (int i = 0; i < n - 1; i++) step(x, 0.1875);
  step(x, 0.09375);
  p.expect(o, x, "relative motion added to the moved reference");
  for (int i = 0; i < 3; i++) sym_assert_close(o.spacecraft_acceleration_i_m_s2_[i], 0, 0, "no disturbance in the relative orbit");
  o.Propagate(n * 0.1875, 0.0);
  step(x, 0.09375);
  p.expect(o, x, "the integration continues");
}
CHECK(transition_matrix) {
  Pair p;
  p.put("q");
  double x[6], y[6];
  Vector<3> r, v;
  for (int i = 0; i < 3; i++) { r[i] = x[i] = sym_double("relative position", -5, 5); v[i] = x[3 + i] = sym_double("relative velocity", -5, 5); }
  RelativeOrbit o(nullptr, 1.0, 0.1, 3, r, v, RelativeOrbit::kStm, s2e::orbit::RelativeOrbitModel::kHill, s2e::orbit::StmModel::kHcw, p.rel.get());
  p.expect(o, x, "initial state");
  o.SetIsCalcEnabled(true);
  p.put("q2");
  for (int k = 0; k < 2; k++) {
    double t = sym_double("t", 0, 10), c = std::cos(t), s = std::sin(t);
    o.Propagate(t, 0.0);
    y[0] = (4 - 3 * c) * x[0] + s * x[3] + 2 * (1 - c) * x[4];
    y[1] = 6 * (s - t) * x[0] + x[1] - 2 * (1 - c) * x[3] + (4 * s - 3 * t) * x[4];
    y[2] = c * x[2] + s * x[5];
    y[3] = 3 * s * x[0] + c * x[3] + 2 * s * x[4];
    y[4] = -6 * (1 - c) * x[0] - 2 * s * x[3] + (4 * c - 3) * x[4];
    y[5] = -s * x[2] + c * x[5];
    p.expect(o, y, "relative motion after the elapsed time");
  }
}
