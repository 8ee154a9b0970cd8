// SRC: src/disturbances/gravity_gradient.cpp src/disturbances/magnetic_disturbance.cpp src/simulation/spacecraft/structure/residual_magnetic_moment.cpp
// MODE: real
// BOUNDS: any position, inertia tensor, gravity constant, magnetic moment, field and noise draw in the boxes; two spacecraft over three updates
// STUBS: INI file access; normal random numbers replaced by arbitrary values
// OVERRIDE: normal random numbers are arbitrary values around the average
#include "ini.hpp"
#include "open.hpp"
#include "noise.hpp"
#include "util.hpp"
#include <cmath>
#include <cstring>
#include <disturbances/gravity_gradient.hpp>
#include <disturbances/magnetic_disturbance.hpp>
#include <dynamics/dynamics.hpp>
#include <environment/local/local_environment.hpp>
using namespace s2e;
using namespace s2e::disturbances;
using math::Matrix;
using math::Vector;
static bool g_calc, g_log, g_bad;
static const char* g_section;
namespace s2e::setting_file_reader {
bool IniAccess::ReadEnable(const char* s, const char* k) { if (strcmp(s, g_section)) g_bad = true; return !strcmp(k, "calculation") ? g_calc : !strcmp(k, "logging") ? g_log : !(g_bad = true); }
}  // namespace s2e::setting_file_reader
namespace s2e::environment {
int CelestialInformation::CalcBodyIdFromName(const char* n) const { return !strcmp(n, "EARTH") ? 0 : !strcmp(n, "MOON") ? 1 : 7; }
}  // namespace s2e::environment
struct Att : dynamics::attitude::Attitude {
  Att(const Matrix<3, 3>& i) : Attitude(i, "a") {}
  void Propagate(const double) override {}
};
static Vector<3> cross(const Vector<3>& a, const Vector<3>& b) { Vector<3> v; v[0] = a[1] * b[2] - a[2] * b[1]; v[1] = a[2] * b[0] - a[0] * b[2]; v[2] = a[0] * b[1] - a[1] * b[0]; return v; }
// torque = 3 mu / r^5 r x I r with the position of the centre body in the body frame and the current inertia
CHECK(gravity_gradient) {
  Raw<environment::LocalEnvironment> env;
  Raw<environment::LocalCelestialInformation> lc;
  Raw<environment::CelestialInformation> gc;
  Raw<dynamics::Dynamics> dyn;
  Matrix<3, 3> I;
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) I[i][j] = sym_double("I", -4, 4);
  Att att(I);
  dyn->attitude_ = &att;
  env->celestial_information_ = lc.get();
  lc->global_celestial_information_ = gc.get();
  double c[3], from_sc[6], other[6];
  for (int i = 0; i < 3; i++) c[i] = sym_double("centre", i == 2 ? 16 : -64, 64);
  for (int i = 0; i < 6; i++) other[i] = sym_double("other", -64, 64), from_sc[i] = i < 3 ? sym_double("earth", -64, 64) : c[i - 3];
  new (&gc->center_body_name_) std::string("MOON");
  lc->celestial_body_position_from_center_b_m_ = other;
  lc->celestial_body_position_from_spacecraft_b_m_ = from_sc;  // the centre body is the second one
  lc->celestial_body_position_from_spacecraft_i_m_ = other;
  double mu = sym_double("mu", 1, 4096);
  bool with_mu = sym_choose("with_mu", 0, 1);
  g_section = "GRAVITY_GRADIENT";
  g_calc = sym_choose("calc", 0, 1); g_log = sym_choose("log", 0, 1);
  GravityGradient g = with_mu ? InitGravityGradient("f", mu) : InitGravityGradient("f");
  if (!with_mu) mu = environment::earth_gravitational_constant_m3_s2;
  sym_assert(!g_bad && g.is_log_enabled_ == g_log && g.IsAttitudeDependent(), "settings");
  GravityGradient h(g);
  h.UpdateIfEnabled(*env.get(), *dyn.get());
  Vector<3> r, t(0.0);
  for (int i = 0; i < 3; i++) r[i] = c[i];
  if (g_calc) {
    double d = std::sqrt(r[0] * r[0] + r[1] * r[1] + r[2] * r[2]);
    Vector<3> Ir;
    for (int i = 0; i < 3; i++) { Ir[i] = 0; for (int j = 0; j < 3; j++) Ir[i] += I[i][j] * r[j]; }
    t = 3.0 * mu / (d * d * d * d * d) * cross(r, Ir);
  }
  vu::close_vec<3>(h.GetTorque_b_Nm(), t, with_mu ? 1e-6 : 1e5, "gravity gradient torque");
  for (int i = 0; i < 3; i++) sym_assert(h.GetForce_b_N()[i] == 0 && h.GetAcceleration_i_m_s2()[i] == 0, "no force");
  sym_reach("gg");
}
// torque = moment x field; every spacecraft has its own noise
CHECK(magnetic) {
  Raw<environment::LocalEnvironment> env;
  Raw<environment::GeomagneticField> mag;
  Raw<dynamics::Dynamics> dyn;
  env->geomagnetic_field_ = mag.get();
  double rw = sym_double("random_walk", 0, 4), wn = sym_double("white", 0, 4), lim = 1e6;
  Vector<3> m = vu::vec3("moment", -4, 4), m2 = vu::vec3("moment2", -4, 4);
  spacecraft::ResidualMagneticMoment noisy(m, rw, lim, wn), quiet(m2, 0, 0, 0);
  g_section = "MAGNETIC_DISTURBANCE";
  g_calc = true; g_log = sym_choose("log", 0, 1);
  MagneticDisturbance a(InitMagneticDisturbance("f", noisy)), b(InitMagneticDisturbance("f", quiet));
  sym_assert(!g_bad && a.is_log_enabled_ == g_log && a.IsAttitudeDependent(), "settings");
  double walk[3] = {0, 0, 0};
  for (int k = 0; k < 3; k++) {
    if (k == 1) { m = vu::vec3("moment'", -4, 4); noisy.SetRmmConstant_b_Am2(m); }
    Vector<3> B = vu::vec3("field", -65536, 65536), M;
    mag->magnetic_field_b_nT_ = B;
    g_draws = 0;
    a.UpdateIfEnabled(*env.get(), *dyn.get());
    for (int i = 0; i < 3; i++) M[i] = m[i] + walk[i] + (wn > 0 ? wn * g_draw[i] : 0);
    vu::close_vec<3>(a.rmm_b_Am2_, M, 1e-9, "moment with white noise and random walk");
    vu::close_vec<3>(a.GetTorque_b_Nm(), 1e-9 * cross(M, B), 1e-9, "moment times field in tesla");
    for (int i = 0; i < 3; i++) walk[i] = a.random_walk_[i];
    b.UpdateIfEnabled(*env.get(), *dyn.get());
    vu::close_vec<3>(b.GetTorque_b_Nm(), 1e-9 * cross(m2, B), 1e-9, "no noise without noise settings");
    for (int i = 0; i < 3; i++) sym_assert(a.GetForce_b_N()[i] == 0 && a.GetAcceleration_i_m_s2()[i] == 0, "no force");
  }
}
