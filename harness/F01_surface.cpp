// SRC: src/disturbances/surface_force.cpp src/disturbances/solar_radiation_pressure_disturbance.cpp src/disturbances/air_drag.cpp src/simulation/spacecraft/structure/surface.cpp
// MODE: real
// OPT: divzero=fork
// BOUNDS: any source direction in any position relative to the surface normal (normals up to 1e-6 longer than one), any area, reflectivities, pressure, density, speed, temperatures, molecules and centre of mass in the boxes; up to two surfaces
// STUBS: INI file access
#include "ini.hpp"
#include "open.hpp"
#include "util.hpp"
#include <cmath>
#include <cstring>
#include <disturbances/air_drag.hpp>
#include <disturbances/solar_radiation_pressure_disturbance.hpp>
#include <dynamics/dynamics.hpp>
#include <environment/local/local_environment.hpp>
#include <math_physics/math/constants.hpp>
using namespace s2e;
using namespace s2e::disturbances;
using math::Vector;
using spacecraft::Surface;
struct Orb : dynamics::orbit::Orbit {
  Orb() : Orbit(nullptr) {}
  void Propagate(const double, const double) override {}
};
struct Att : dynamics::attitude::Attitude {
  Att(const math::Matrix<3, 3>& i) : Attitude(i, "a") {}
  void Propagate(const double) override {}
};
namespace s2e::geodesy {
GeodeticPosition::GeodeticPosition() { latitude_rad_ = longitude_rad_ = altitude_m_ = 0; }
}  // namespace s2e::geodesy
namespace s2e::dynamics::orbit {
std::string Orbit::GetLogHeader() const { return ""; }
std::string Orbit::GetLogValue() const { return ""; }
}  // namespace s2e::dynamics::orbit
namespace s2e::environment {
static const char* g_name;
int CelestialInformation::CalcBodyIdFromName(const char* n) const { g_name = n; return !strcmp(n, "SUN") ? 1 : 0; }
}  // namespace s2e::environment
static double g_ini[3];
static bool g_calc, g_log, g_bad;
namespace s2e::setting_file_reader {
double IniAccess::ReadDouble(const char* s, const char* k) {
  if (strcmp(s, "AIR_DRAG")) g_bad = true;
  const char* n[3] = {"wall_temperature_degC", "molecular_temperature_degC", "molecular_weight_g_mol"};
  for (int i = 0; i < 3; i++) if (!strcmp(k, n[i])) return g_ini[i];
  g_bad = true;
  return 0;
}
bool IniAccess::ReadEnable(const char* s, const char* k) { return !strcmp(k, "calculation") ? g_calc : !strcmp(k, "logging") ? g_log : !(g_bad = true); }
}  // namespace s2e::setting_file_reader
static Vector<3> v3(double a, double b, double c) { Vector<3> v; v[0] = a; v[1] = b; v[2] = c; return v; }
// direction of the source seen from a surface: d = distance (cos n + sin t) with orthonormal n, t
struct Geometry { Vector<3> n, t, d; double c, s, dist; };
static Geometry geometry(const char* axis, double dmin, double dmax, int part) {
  Geometry g;
  math::Matrix<3, 3> m = vu::unit_quat("frame").ConvertToDcm();
  for (int i = 0; i < 3; i++) { g.n[i] = m[0][i]; g.t[i] = m[1][i]; }
  g.dist = sym_double("distance", dmin, dmax);
  if (part == 0) { double a = sym_double(axis, 0.01, 1.55); g.c = std::cos(a); g.s = std::sin(a); }
  else if (part == 1) { double a = sym_double(axis, 1.6, 3.1); g.c = std::cos(a); g.s = std::sin(a); }
  else { g.c = part == 2 ? 1 : -1; g.s = 0; }
  for (int i = 0; i < 3; i++) g.d[i] = g.dist * (g.c * g.n[i] + g.s * g.t[i]);
  return g;
}
static Vector<3> cross(const Vector<3>& a, const Vector<3>& b) { return v3(a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]); }
CHECK(solar_pressure) {
  int part = sym_choose("part", 0, 3);
  Geometry g = geometry("angle", 16, 4096, part);
  double A = sym_double("area", 0.001, 4), rho = sym_double("reflectivity", 0, 1), sp = sym_double("specularity", 0, 1), P = sym_double("pressure", 0, 1);
  Vector<3> pos = vu::vec3("position", -2, 2), cg;
  cg = v3(0, 0, 0);
  std::vector<Surface> s{Surface(pos, g.n, A, rho, sp, 0.25)};
  SolarRadiationPressureDisturbance x(s, cg, true);
  SolarRadiationPressureDisturbance y(x);
  cg = vu::vec3("cg", -1, 1);  // the centre of mass can move
  Vector<3> tq = y.CalcTorqueForce(g.d, P), f = y.GetForce_b_N();
  // incoming momentum absorbed or reflected: F = -P A cos [(1 - rho sp) d + (2 rho sp cos + 2/3 rho (1 - sp)) n]
  double c = g.c > 0 ? g.c : 0;
  Vector<3> e;
  for (int i = 0; i < 3; i++) e[i] = -P * A * c * ((1 - rho * sp) * (g.c * g.n[i] + g.s * g.t[i]) + (2 * rho * sp * g.c + 2.0 / 3.0 * rho * (1 - sp)) * g.n[i]);
  vu::close_vec<3>(f, e, 1e-6, "solar radiation force");
  vu::close_vec<3>(tq, cross(pos - cg, e), 1e-5, "torque about the current centre of mass");
  vu::close_vec<3>(y.GetTorque_b_Nm(), tq, 0, "kept torque");
  sym_reach("srp");
}
CHECK(air) {
  int part = sym_choose("part", 0, 3);
  Geometry g = geometry("angle", 1024, 8192, part);
  double A = sym_double("area", 0.001, 4), spec = sym_double("air_specularity", 0, 1), rho = sym_double("density", 0, 1);
  double Tw = sym_double("wall", 64, 512), Ti = sym_double("gas", 64, 2048), M = sym_double("molar", 1, 64);
  Vector<3> pos = vu::vec3("position", -2, 2), cg = v3(0, 0, 0);
  std::vector<Surface> s{Surface(pos, g.n, A, 0.25, 0.5, spec)};
  AirDrag x(s, cg, Tw, Ti, M, true);
  AirDrag y(x);
  cg = vu::vec3("cg", -1, 1);
  Vector<3> tq = y.CalcTorqueForce(g.d, rho), f = y.GetForce_b_N();
  if (g.c <= 0) {
    vu::close_vec<3>(f, v3(0, 0, 0), 0, "no force from behind");
    vu::close_vec<3>(tq, v3(0, 0, 0), 0, "no torque from behind");
    return;
  }
  // Schaaf and Chambre: pressure and shear of a free molecular flow of speed ratio S on a surface of accommodation sigma
  const double kB = 1.380649e-23, NA = 6.02214076e23;
  double S = std::sqrt(M * 1e-3 / NA * g.dist * g.dist / (2.0 * kB * Tw)), Sn = S * g.c, sig = 1 - spec;
  double E = std::exp(-Sn * Sn), X = 1 + std::erf(Sn), rp = std::sqrt(math::pi), rt = std::sqrt(Tw / Ti);
  double pn = ((2 - sig) * Sn / rp + sig / 2 * rt) * E + ((2 - sig) * (Sn * Sn + 0.5) + sig / 2 * rt * rp * Sn) * X;
  double pt = sig * g.s * S / rp * (E + rp * Sn * X);
  double k = 0.5 * rho * g.dist * g.dist * A / (S * S);
  Vector<3> e;
  for (int i = 0; i < 3; i++) e[i] = -k * (pn * g.n[i] + pt * g.t[i]);
  vu::close_vec<3>(f, e, 1e-3, "free molecular force");
  vu::close_vec<3>(tq, cross(pos - cg, e), 1e-2, "torque about the current centre of mass");
  sym_reach("air");
}
// several surfaces: each one facing the source adds its force
CHECK(sum) {
  Vector<3> d = v3(sym_double("dx", -8, 8), sym_double("dy", -8, 8), sym_double("dz", 1, 8));
  double P = sym_double("pressure", 0, 1);
  Vector<3> cg = vu::vec3("cg", -1, 1), p[2] = {vu::vec3("p0", -2, 2), vu::vec3("p1", -2, 2)};
  double A[2] = {sym_double("A0", 0.001, 4), sym_double("A1", 0.001, 4)}, R[2] = {sym_double("r0", 0, 1), sym_double("r1", 0, 1)}, Q[2] = {sym_double("s0", 0, 1), sym_double("s1", 0, 1)};
  std::vector<Surface> s{Surface(p[0], v3(-1, 0, 0), A[0], R[0], Q[0], 0), Surface(p[1], v3(0, 1, 0), A[1], R[1], Q[1], 0)};
  SolarRadiationPressureDisturbance x(s, cg, true);
  double cosine[2] = {-d[0], d[1]}, D = std::sqrt(d[0] * d[0] + d[1] * d[1] + d[2] * d[2]);
  Vector<3> tq = x.CalcTorqueForce(d, P), F = v3(0, 0, 0), T = v3(0, 0, 0);
  for (int k = 0; k < 2; k++) {
    double c = cosine[k] / D;
    if (cosine[k] <= 0) continue;
    Vector<3> n = k ? v3(0, 1, 0) : v3(-1, 0, 0), e;
    for (int i = 0; i < 3; i++) e[i] = -P * A[k] * c * ((1 - R[k] * Q[k]) * d[i] / D + (2 * R[k] * Q[k] * c + 2.0 / 3.0 * R[k] * (1 - Q[k])) * n[i]);
    F += e;
    T += cross(p[k] - cg, e);
  }
  vu::close_vec<3>(x.GetForce_b_N(), F, 1e-9, "forces of all lit surfaces");
  vu::close_vec<3>(tq, T, 1e-9, "torques of all lit surfaces");
}
// a normal vector given with a few digits is a little longer than one
CHECK(long_normal) {
  double l = sym_double("length", 1, 1.000001), D = sym_double("distance", 16, 4096);
  Vector<3> cg = v3(0, 0, 0), d = v3(D, 0, 0);
  std::vector<Surface> s{Surface(v3(0, 1, 0), v3(l, 0, 0), 1, 0.5, 0.5, 0.5)};
  SolarRadiationPressureDisturbance x(s, cg, true);
  x.CalcTorqueForce(d, 1.0);
  Vector<3> f = x.GetForce_b_N();
  sym_assert_close(f[0], -(1 + 0.25 + 2.0 / 3.0 * 0.25), 1e-4, "finite force along the normal");
  for (int i = 1; i < 3; i++) sym_assert_close(f[i], 0, 1e-4, "no force across the normal");
}
// the sources: sun and solar pressure, velocity relative to the rotating air and density, in the body frame
CHECK(sources) {
  Raw<environment::LocalEnvironment> env;
  Raw<dynamics::Dynamics> dyn;
  Raw<environment::LocalCelestialInformation> lc;
  Raw<environment::CelestialInformation> gc;
  Raw<environment::EarthRotation> er;
  Raw<environment::Atmosphere> atm;
  Raw<environment::SolarRadiationPressureEnvironment> srp;
  math::Matrix<3, 3> I = math::MakeIdentityMatrix<3>();
  Att att(I);
  Orb orb;
  env->celestial_information_ = lc.get();
  env->atmosphere_ = atm.get();
  env->solar_radiation_pressure_environment_ = srp.get();
  lc->global_celestial_information_ = gc.get();
  gc->earth_rotation_ = er.get();
  gc->number_of_selected_bodies_ = 2;
  double rel[6], none[6] = {0, 0, 0, 0, 0, 0};
  for (int i = 0; i < 6; i++) rel[i] = sym_double("body", 1, 4096);
  lc->celestial_body_position_from_spacecraft_b_m_ = rel;
  lc->celestial_body_position_from_spacecraft_i_m_ = none;
  dyn->attitude_ = &att;
  dyn->orbit_ = &orb;
  double rho = atm->air_density_kg_m3_ = sym_double("density", 0, 1), P = srp->solar_radiation_pressure_N_m2_ = sym_double("pressure", 0, 1), shadow = srp->shadow_coefficient_ = sym_double("shadow", 0, 1);
  math::Quaternion q = vu::unit_quat("q");
  att.quaternion_i2b_ = q;
  math::Matrix<3, 3> E = vu::unit_quat("earth").ConvertToDcm();
  er->dcm_j2000_to_ecef_ = E;
  Vector<3> v = vu::vec3("velocity", 1, 8192);
  orb.spacecraft_velocity_ecef_m_s_ = v;
  struct A : AirDrag {
    using AirDrag::AirDrag;
    Vector<3> d; double item = -1;
    void CalcCoefficients(const Vector<3>& x, const double i) override { d = x; item = i; }
  };
  struct S : SolarRadiationPressureDisturbance {
    using SolarRadiationPressureDisturbance::SolarRadiationPressureDisturbance;
    Vector<3> d; double item = -1;
    void CalcCoefficients(const Vector<3>& x, const double i) override { d = x; item = i; }
  };
  std::vector<Surface> none_s;
  Vector<3> cg = v3(0, 0, 0);
  A a(none_s, cg, 300, 300, 18, true);
  S s(none_s, cg, true);
  a.UpdateIfEnabled(*env.get(), *dyn.get());
  s.UpdateIfEnabled(*env.get(), *dyn.get());
  sym_assert(a.item == rho && s.item == P * shadow, "density and pressure of the environment");
  for (int i = 0; i < 3; i++) sym_assert_close(s.d[i], rel[3 + i], 0, "sun seen from the spacecraft in the body frame");
  math::Matrix<3, 3> Q = q.ConvertToDcm();
  for (int i = 0; i < 3; i++) {
    double e = 0;
    for (int j = 0; j < 3; j++) for (int k = 0; k < 3; k++) e += Q[i][j] * E[k][j] * v[k];
    sym_assert_close(a.d[i], e, 1e-6, "velocity relative to the air in the body frame");
  }
}
CHECK(settings) {
  std::vector<Surface> s{Surface(v3(0, 1, 0), v3(1, 0, 0), 1, 0.5, 0.5, 0.5)};
  Vector<3> cg = v3(0, 0, 0);
  for (int i = 0; i < 3; i++) g_ini[i] = sym_double("ini", 1, 99);
  g_calc = sym_choose("calc", 0, 1); g_log = sym_choose("log", 0, 1);
  AirDrag a = InitAirDrag("f", s, cg);
  SolarRadiationPressureDisturbance p = InitSolarRadiationPressureDisturbance("f", s, cg);
  sym_assert_close(a.wall_temperature_K_, g_ini[0] + 273.15, 0.2, "wall temperature in kelvin");
  sym_assert_close(a.molecular_temperature_K_, g_ini[1] + 273.15, 0.2, "air temperature in kelvin");
  sym_assert(a.molecular_weight_g_mol_ == g_ini[2], "molar mass");
  sym_assert(!g_bad && a.is_calculation_enabled_ == g_calc && p.is_calculation_enabled_ == g_calc && a.is_log_enabled_ == g_log && p.is_log_enabled_ == g_log, "flags");
  sym_assert(&a.surfaces_ == &s && &p.surfaces_ == &s && &a.center_of_gravity_b_m_ == &cg && &p.center_of_gravity_b_m_ == &cg, "current structure");
  sym_assert(a.IsAttitudeDependent() && p.IsAttitudeDependent(), "attitude dependent");
}
