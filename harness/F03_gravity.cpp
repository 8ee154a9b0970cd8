// SRC: src/disturbances/third_body_gravity.cpp src/disturbances/geopotential.cpp src/disturbances/lunar_gravity_field.cpp
// MODE: real
// BOUNDS: any spacecraft position, up to two third bodies anywhere with any gravity constant, any rotation of the Earth and the Moon, any degree setting around the limits
// STUBS: gravity field (M09: recorded argument, arbitrary result), coefficient files missing or present (arbitrary coefficients), INI file access
// OVERRIDE: the gravity field is recorded, coefficient files are not read
#include "ini.hpp"
#include "open.hpp"
#include "util.hpp"
#include <cmath>
#include <cstring>
#include <disturbances/geopotential.hpp>
#include <disturbances/lunar_gravity_field.hpp>
#include <disturbances/third_body_gravity.hpp>
#include <dynamics/dynamics.hpp>
#include <environment/local/local_environment.hpp>
using namespace s2e;
using namespace s2e::disturbances;
using math::Matrix;
using math::Vector;
static bool g_calc, g_log, g_bad, g_file;
static const char* g_section;
static int g_degree, g_third;
static double g_pos[3], g_acc[3], g_radius, g_mu;
static const char* g_names[2];
namespace s2e::setting_file_reader {
bool IniAccess::ReadEnable(const char* s, const char* k) { if (strcmp(s, g_section)) g_bad = true; return !strcmp(k, "calculation") ? g_calc : !strcmp(k, "logging") ? g_log : !(g_bad = true); }
int IniAccess::ReadInt(const char* s, const char* k) {
  if (!strcmp(s, "CELESTIAL_INFORMATION") && !strcmp(k, "number_of_selected_body")) return 3;
  if (strcmp(s, g_section)) g_bad = true;
  return !strcmp(k, "degree") ? g_degree : !strcmp(k, "number_of_third_body") ? g_third : !(g_bad = true);
}
std::string IniAccess::ReadString(const char* s, const char* k) {
  if (!strcmp(s, "CELESTIAL_INFORMATION")) {
    if (!strcmp(k, "center_object")) return "EARTH";
    const char* all[3] = {"EARTH", "SUN", "MOON"};
    return all[k[19] - '0'];
  }
  if (strcmp(s, g_section)) g_bad = true;
  if (!strcmp(k, "coefficients_file_path")) return "coefficients";
  return g_names[k[16] - '0'];
}
}  // namespace s2e::setting_file_reader
namespace s2e::gravity {
GravityPotential::GravityPotential(const size_t degree, const std::vector<std::vector<double>> c, const std::vector<std::vector<double>> s, const double mu, const double r)
    : degree_(degree), c_(c), s_(s), gravity_constants_m3_s2_(mu), center_body_radius_m_(r) {}
Vector<3> GravityPotential::CalcAcceleration_xcxf_m_s2(const Vector<3>& p) {
  Vector<3> a;
  for (int i = 0; i < 3; i++) { g_pos[i] = p[i]; a[i] = g_acc[i]; }
  return a;
}
}  // namespace s2e::gravity
static double g_c[4];
namespace s2e::disturbances {
bool Geopotential::ReadCoefficientsEgm96(std::string) {
  if (g_file) for (size_t n = 2; n <= degree_; n++) c_[n][n] = s_[n][n] = n < 4 ? g_c[n] : 0.5;
  return g_file;
}
bool LunarGravityField::ReadCoefficientsGrgm1200a(std::string) {
  if (g_file) {
    reference_radius_km_ = g_radius;
    gravity_constants_km3_s2_ = g_mu;
    for (size_t n = 2; n <= degree_; n++) c_[n][n] = s_[n][n] = n < 4 ? g_c[n] : 0.5;
  }
  return g_file;
}
}  // namespace s2e::disturbances
namespace s2e::geodesy {
GeodeticPosition::GeodeticPosition() { latitude_rad_ = longitude_rad_ = altitude_m_ = 0; }
}  // namespace s2e::geodesy
namespace s2e::dynamics::orbit {
std::string Orbit::GetLogHeader() const { return ""; }
std::string Orbit::GetLogValue() const { return ""; }
}  // namespace s2e::dynamics::orbit
namespace s2e::environment {
int CelestialInformation::CalcBodyIdFromName(const char* n) const { return !strcmp(n, "EARTH") ? 0 : !strcmp(n, "SUN") ? 1 : 2; }
}  // namespace s2e::environment
struct Orb : dynamics::orbit::Orbit {
  Orb() : Orbit(nullptr) {}
  void Propagate(const double, const double) override {}
};
struct World {
  Raw<environment::LocalEnvironment> env;
  Raw<environment::LocalCelestialInformation> lc;
  Raw<environment::CelestialInformation> gc;
  Raw<environment::EarthRotation> er;
  Raw<environment::MoonRotation> mr;
  Raw<dynamics::Dynamics> dyn;
  Orb orb;
  double pos[9], gm[3];
  World() {
    env->celestial_information_ = lc.get();
    lc->global_celestial_information_ = gc.get();
    gc->earth_rotation_ = er.get();
    gc->moon_rotation_ = mr.get();
    gc->number_of_selected_bodies_ = 3;
    gc->celestial_body_gravity_constant_m3_s2_ = gm;
    lc->celestial_body_position_from_spacecraft_i_m_ = pos;
    dyn->orbit_ = &orb;
  }
  // a celestial information is copied by some disturbances: give it its own storage
  void own() {
    static double z[9];
    gc->celestial_body_position_from_center_i_m_ = (double*)memcpy(new double[9], z, 72);
    gc->celestial_body_velocity_from_center_i_m_s_ = (double*)memcpy(new double[9], z, 72);
    gc->celestial_body_planetographic_radii_m_ = (double*)memcpy(new double[9], z, 72);
    gc->celestial_body_mean_radius_m_ = (double*)memcpy(new double[3], z, 24);
    gc->selected_body_ids_ = new int[3]{0, 1, 2};
    gc->celestial_body_gravity_constant_m3_s2_ = (double*)memcpy(new double[3], z, 24);
  }
};
CHECK(third_body) {
  World w;
  g_section = "THIRD_BODY_GRAVITY";
  g_third = (int)sym_choose("bodies", 0, 2);
  bool swap = sym_choose("swap", 0, 1);
  g_names[swap] = "MOON"; g_names[!swap] = "SUN";
  g_calc = sym_choose("calc", 0, 1); g_log = sym_choose("log", 0, 1);
  ThirdBodyGravity t(InitThirdBodyGravity("f", "base"));
  sym_assert(!g_bad && t.is_log_enabled_ == g_log && !t.IsAttitudeDependent(), "settings");
  for (int k = 0; k < 2; k++) {
    Vector<3> r = vu::vec3("spacecraft", -8, 8), e(0.0);
    w.orb.spacecraft_position_i_m_ = r;
    for (int i = 0; i < 9; i++) w.pos[i] = sym_double("from_sc", i % 3 == 2 ? 16 : -64, 64);
    for (int i = 0; i < 3; i++) w.gm[i] = sym_double("gm", 1, 4096);
    t.UpdateIfEnabled(*w.env.get(), *w.dyn.get());
    for (int b = 1; b <= 2 && g_calc; b++) {
      bool used = g_third == 2 || (g_third == 1 && (b == 2) == !swap);
      if (!used) continue;
      double d[3], s[3], dn = 0, sn = 0;
      for (int i = 0; i < 3; i++) { d[i] = w.pos[3 * b + i]; s[i] = r[i] + d[i]; dn += d[i] * d[i]; sn += s[i] * s[i]; }
      dn = std::sqrt(dn); sn = std::sqrt(sn);
      for (int i = 0; i < 3; i++) e[i] += w.gm[b] * (d[i] / (dn * dn * dn) - s[i] / (sn * sn * sn));
    }
    vu::close_vec<3>(t.GetAcceleration_i_m_s2(), e, 1e-9, "attraction of the spacecraft minus that of the centre");
    for (int i = 0; i < 3; i++) sym_assert(t.GetForce_b_N()[i] == 0 && t.GetTorque_b_Nm()[i] == 0, "only an acceleration");
  }
  sym_reach("third");
}
static void field_inputs(World& w, const Matrix<3, 3>& rot, Vector<3>& r) {
  for (int i = 0; i < 3; i++) { g_acc[i] = sym_double("acc", -4, 4); r[i] = sym_double("pos", -4096, 4096); }
  (void)w; (void)rot;
}
CHECK(earth_field) {
  World w;
  g_section = "GEOPOTENTIAL";
  g_degree = (int[]){-1, 0, 1, 2, 3, 360, 361, 400}[sym_choose("degree", 1, 7)];
  g_file = sym_choose("file", 0, 1); g_calc = sym_choose("calc", 0, 1); g_log = sym_choose("log", 0, 1);
  for (int i = 0; i < 4; i++) g_c[i] = sym_double("c", -1, 1);
  Geopotential g(InitGeopotential("f"));
  size_t deg = !g_file || g_degree < 2 ? 0 : g_degree > 360 ? 360 : (size_t)g_degree;
  sym_assert(!g_bad && g.is_log_enabled_ == g_log && !g.IsAttitudeDependent(), "settings");
  sym_assert(g.geopotential_.degree_ == deg && g.geopotential_.c_.size() > deg && g.geopotential_.s_.size() > deg, "degree of the available coefficients");
  for (size_t n = 2; n <= deg && n < 4; n++) sym_assert(g.geopotential_.c_[n][n] == g_c[n] && g.geopotential_.s_[n][n] == g_c[n], "coefficients");
  sym_assert(g.geopotential_.c_[0][0] == 0, "the central term is left to the orbit propagation");
  sym_assert(g.geopotential_.gravity_constants_m3_s2_ == environment::earth_gravitational_constant_m3_s2 && g.geopotential_.center_body_radius_m_ == environment::earth_equatorial_radius_m, "Earth constants");
  Matrix<3, 3> E = vu::unit_quat("earth").ConvertToDcm();
  Vector<3> r;
  field_inputs(w, E, r);
  w.er->dcm_j2000_to_ecef_ = E;
  w.orb.spacecraft_position_ecef_m_ = r;
  g.UpdateIfEnabled(*w.env.get(), *w.dyn.get());
  for (int i = 0; i < 3; i++) {
    double e = 0;
    for (int j = 0; j < 3; j++) e += E[j][i] * g_acc[j];
    if (g_calc) sym_assert(g_pos[i] == r[i], "Earth fixed position");
    sym_assert_close(g.GetAcceleration_i_m_s2()[i], g_calc ? e : 0, 1e-9, "inertial acceleration");
    sym_assert(g.GetForce_b_N()[i] == 0 && g.GetTorque_b_Nm()[i] == 0, "only an acceleration");
  }
}
CHECK(moon_field) {
  World w;
  w.own();
  g_section = "LUNAR_GRAVITY_FIELD";
  g_degree = (int[]){0, 1, 2, 3, 1200, 1201}[sym_choose("degree", 1, 3)];
  g_file = sym_choose("file", 0, 1); g_calc = sym_choose("calc", 0, 1); g_log = sym_choose("log", 0, 1);
  for (int i = 0; i < 4; i++) g_c[i] = sym_double("c", -1, 1);
  g_radius = sym_double("radius", 1, 4096); g_mu = sym_double("mu", 1, 4096);
  LunarGravityField g(InitLunarGravityField("f"));
  size_t deg = !g_file || g_degree < 2 ? 0 : (size_t)g_degree;
  sym_assert(!g_bad && g.is_log_enabled_ == g_log && !g.IsAttitudeDependent(), "settings");
  sym_assert(g.lunar_potential_.degree_ == deg && g.lunar_potential_.c_.size() > deg, "degree of the available coefficients");
  for (size_t n = 2; n <= deg && n < 4; n++) sym_assert(g.lunar_potential_.c_[n][n] == g_c[n] && g.lunar_potential_.s_[n][n] == g_c[n], "coefficients");
  if (deg) sym_assert_close(g.lunar_potential_.gravity_constants_m3_s2_, g_mu * 1e9, 1, "gravity constant of the file"), sym_assert_close(g.lunar_potential_.center_body_radius_m_, g_radius * 1e3, 1e-6, "radius of the file");
  Matrix<3, 3> M = vu::unit_quat("moon").ConvertToDcm();
  Vector<3> r;
  field_inputs(w, M, r);
  w.mr->dcm_j2000_to_mcmf_ = M;
  w.orb.spacecraft_position_i_m_ = r;
  g.UpdateIfEnabled(*w.env.get(), *w.dyn.get());
  for (int i = 0; i < 3; i++) {
    double e = 0, p = 0;
    for (int j = 0; j < 3; j++) { e += M[j][i] * g_acc[j]; p += M[i][j] * r[j]; }
    if (g_calc) sym_assert_close(g_pos[i], p, 1e-6, "Moon fixed position");
    sym_assert_close(g.GetAcceleration_i_m_s2()[i], g_calc ? e : 0, 1e-9, "inertial acceleration");
  }
}
