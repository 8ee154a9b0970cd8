// SRC: src/dynamics/orbit/initialize_orbit.cpp src/dynamics/attitude/initialize_attitude.cpp src/simulation/spacecraft/structure/initialize_structure.cpp src/simulation/spacecraft/structure/structure.cpp src/simulation/spacecraft/structure/surface.cpp src/simulation/spacecraft/structure/kinematics_parameters.cpp src/simulation/spacecraft/structure/residual_magnetic_moment.cpp src/dynamics/orbit/orbit.cpp src/dynamics/orbit/rk4_orbit_propagation.cpp src/dynamics/orbit/encke_orbit_propagation.cpp src/dynamics/orbit/kepler_orbit_propagation.cpp src/dynamics/orbit/sgp4_orbit_propagation.cpp src/dynamics/orbit/time_series_file_orbit_propagation.cpp src/dynamics/orbit/relative_orbit.cpp src/dynamics/attitude/attitude.cpp src/dynamics/attitude/attitude_rk4.cpp src/dynamics/attitude/attitude_with_cantilever_vibration.cpp src/dynamics/attitude/controlled_attitude.cpp
// MODE: real
// BOUNDS: every value of every number in the orbit, attitude and structure settings; every propagation and initialisation mode and an unknown one; the default and another section name; 0 to 2 surfaces
// STUBS: the settings file holds an arbitrary value for every key (text decoding is decided by S04); Kepler motion (M05) and the SGP4, file, relative and cantilever propagators (D01, D03) record what they are built from
// OVERRIDE: constructors of KeplerOrbit, OrbitalElements, Sgp4OrbitPropagation, TimeSeriesFileOrbitPropagation, RelativeOrbit, AttitudeWithCantileverVibration; ControlledAttitude::Propagate; ECEF and geodetic conversion of Orbit
// ASSUME: directions and quaternions in the settings have unit norm
#include "settings.hpp"
#include "orb.hpp"
#include <dynamics/orbit/initialize_orbit.hpp>
#include <dynamics/orbit/rk4_orbit_propagation.hpp>
#include <dynamics/orbit/encke_orbit_propagation.hpp>
#include <dynamics/orbit/kepler_orbit_propagation.hpp>
#include <dynamics/orbit/sgp4_orbit_propagation.hpp>
#include <dynamics/orbit/time_series_file_orbit_propagation.hpp>
#include <dynamics/orbit/relative_orbit.hpp>
#include <dynamics/attitude/initialize_attitude.hpp>
#include <dynamics/attitude/attitude_rk4.hpp>
#include <dynamics/attitude/attitude_with_cantilever_vibration.hpp>
#include <dynamics/attitude/controlled_attitude.hpp>
#include <simulation/spacecraft/structure/initialize_structure.hpp>
using namespace s2e;
using math::Vector;
using st::Sec;
static const char* F = "satellite.ini";
static const double kDeg = 3.14159265358979323846 / 180.0;
struct Built {
  int n = 0;
  double mu = 0, jd = 0, el[6] = {}, calc_jd = 0;
  Vector<3> p{0.0}, v{0.0};
  bool elements = false;
} g_k;
static double g_out[6];
static std::string g_t1, g_t2, g_path;
static int g_wgs, g_ni, g_im;
static double g_corr, g_jd2, g_prop;
namespace s2e::orbit {
KeplerOrbit::~KeplerOrbit() {}
KeplerOrbit::KeplerOrbit() {}
KeplerOrbit::KeplerOrbit(const double mu, const OrbitalElements) { g_k.mu = mu; }
void KeplerOrbit::CalcOrbit(double jd) {
  g_k.calc_jd = jd;
  for (int i = 0; i < 3; i++) { position_i_m_[i] = g_out[i]; velocity_i_m_s_[i] = g_out[3 + i]; }
}
OrbitalElements::OrbitalElements() {}
OrbitalElements::OrbitalElements(const double mu, const double jd, const Vector<3> p, const Vector<3> v) { g_k.n++; g_k.mu = mu; g_k.jd = jd; g_k.p = p; g_k.v = v; g_k.elements = false; }
OrbitalElements::OrbitalElements(const double jd, const double a, const double e, const double i, const double o, const double w) {
  g_k.n++;
  double x[6] = {jd, a, e, i, o, w};
  for (int k = 0; k < 6; k++) g_k.el[k] = x[k];
  g_k.elements = true;
}
OrbitalElements::~OrbitalElements() {}
}  // namespace s2e::orbit
namespace s2e::dynamics::orbit {
void Orbit::TransformEciToEcef() {}
void Orbit::TransformEcefToGeodetic() {}
Sgp4OrbitPropagation::Sgp4OrbitPropagation(const environment::CelestialInformation* c, char* a, char* b, const int w, const double jd) : Orbit(c) { g_t1 = a; g_t2 = b; g_wgs = w; g_jd2 = jd; }
TimeSeriesFileOrbitPropagation::TimeSeriesFileOrbitPropagation(const environment::CelestialInformation* c, std::string f, int n, int m, double t, const double jd) : Orbit(c) {
  g_path = f; g_ni = n; g_im = m; g_corr = t; g_jd2 = jd;
}
RelativeOrbit::RelativeOrbit(const environment::CelestialInformation* c, double mu, double dt, int ref, Vector<3> p, Vector<3> v, RelativeOrbitUpdateMethod u, s2e::orbit::RelativeOrbitModel m, s2e::orbit::StmModel s, simulation::RelativeInformation* r)
    : Orbit(c), math::OrdinaryDifferentialEquation<6>(dt), gravity_constant_m3_s2_(mu), reference_spacecraft_id_(ref), propagation_step_s_(dt), relative_position_lvlh_m_(p), relative_velocity_lvlh_m_s_(v), update_method_(u), relative_dynamics_model_type_(m), stm_model_type_(s), relative_information_(r) {}
}  // namespace s2e::dynamics::orbit
static Vector<3> g_cw, g_ct;
static math::Quaternion g_cq(0, 0, 0, 1);
static math::Matrix<3, 3> g_ci, g_cc;
static double g_cd, g_cf, g_cs;
namespace s2e::dynamics::attitude {
AttitudeWithCantileverVibration::AttitudeWithCantileverVibration(const Vector<3>& w, const math::Quaternion& q, const math::Matrix<3, 3>& i, const math::Matrix<3, 3>& c, const double d, const double f, const Vector<3>& t, const double s, const std::string& n)
    : Attitude(i, n), numerical_integrator_(s, attitude_ode_, numerical_integration::NumericalIntegrationMethod::kRk4) {
  g_cw = w; g_cq = q; g_ci = i; g_cc = c; g_cd = d; g_cf = f; g_ct = t; g_cs = s;
}
void ControlledAttitude::Propagate(const double t) { g_prop = t; quaternion_i2b_ = math::Quaternion(0.5, 0.5, -0.5, 0.5); }
}  // namespace s2e::dynamics::attitude
static void outputs() { for (int i = 0; i < 6; i++) g_out[i] = sym_double("kepler_output", -100, 100); }
static void elements(const Sec& s, const char* l) {
  sym_assert(g_k.elements, "initialised from orbital elements");
  st::eq(g_k.el[0], s.d("epoch_jday"), l);
  st::eq(g_k.el[1], s.d("semi_major_axis_m"), l);
  st::eq(g_k.el[2], s.d("eccentricity"), l);
  st::eq(g_k.el[3], s.d("inclination_rad"), l);
  st::eq(g_k.el[4], s.d("raan_rad"), l);
  st::eq(g_k.el[5], s.d("argument_of_perigee_rad"), l);
}
struct Orb {
  orbenv::World w;
  Sec s{F, "ORBIT"};
  double jd = sym_double("jd", 2450000, 2460000), mu = sym_double("mu", 1, 10);
  dynamics::orbit::Orbit* o = nullptr;
  int mode = 0;
  Orb(const char* propagate, bool init = true) {
    bool other = sym_choose("other_section", 0, 1) != 0;
    if (other) s.s = "ANOTHER";
    s.text("propagate_mode", propagate);
    if (init) {
      mode = (int)sym_choose("initialise", 0, 2);
      s.text("initialize_mode", mode == 0 ? "DEFAULT" : mode == 1 ? "POSITION_VELOCITY_I" : "ORBITAL_ELEMENTS");
      Sec{F, other ? "ORBIT" : "ANOTHER"}.text("initialize_mode", mode == 2 ? "DEFAULT" : "ORBITAL_ELEMENTS");
    }
    outputs();
    if (other) o = dynamics::orbit::InitOrbit(w.gc.get(), F, 0.5, jd, mu, "ANOTHER", (simulation::RelativeInformation*)0x3000);
    else o = dynamics::orbit::InitOrbit(w.gc.get(), F, 0.5, jd, mu, "ORBIT", (simulation::RelativeInformation*)0x3000);
    sym_assert(o->celestial_information_ == w.gc.get(), "celestial information");
    st::eqi(o->is_calc_enabled_, s.i("calculation ENABLE"), "calculation switch");
    st::eqi(o->is_log_enabled_, s.i("logging ENABLE"), "logging switch");
  }
  void state(const Vector<3>& p, const Vector<3>& v) {
    for (int i = 0; i < 3; i++) {
      st::eq(p[i], mode == 2 ? g_out[i] : s.d("initial_position_i_m", i), "initial position");
      st::eq(v[i], mode == 2 ? g_out[3 + i] : s.d("initial_velocity_i_m_s", i), "initial velocity");
    }
  }
};
static void rk4(const char* name) {
  Orb w(name);
  auto* o = (dynamics::orbit::Rk4OrbitPropagation*)w.o;
  w.state(o->GetPosition_i_m(), o->GetVelocity_i_m_s());
  st::eq(o->gravity_constant_m3_s2_, w.mu, "gravity constant");
  st::eq(o->propagation_step_s_, 0.5, "integration step");
  if (w.mode == 2) {
    elements(w.s, "orbital elements");
    st::eq(g_k.mu, w.mu, "gravity constant of the initial orbit");
    st::eq(g_k.calc_jd, w.jd, "orbit evaluated at the start");
  }
}
CHECK(orbit_rk4) { rk4("RK4"); }
CHECK(orbit_unknown_mode) { rk4("UNKNOWN"); }
CHECK(orbit_encke) {
  Orb w("ENCKE");
  auto* o = (dynamics::orbit::EnckeOrbitPropagation*)w.o;
  st::eq(o->gravity_constant_m3_s2_, w.mu, "gravity constant");
  st::eq(o->propagation_step_s_, 0.5, "integration step");
  st::eq(o->error_tolerance_, w.s.d("error_tolerance"), "error tolerance");
  // the reference orbit is built from the initial state
  w.state(g_k.p, g_k.v);
  st::eq(g_k.jd, w.jd, "reference epoch");
}
CHECK(orbit_kepler) {
  Orb w("KEPLER");
  sym_assert(g_k.n == 1, "one set of elements");
  if (w.mode == 1) {
    w.state(g_k.p, g_k.v);
    st::eq(g_k.jd, w.jd, "epoch of the state");
  } else elements(w.s, "orbital elements");
  st::eq(g_k.mu, w.mu, "gravity constant");
  st::eq(g_k.calc_jd, w.jd, "evaluated at the start");
  for (int i = 0; i < 3; i++) st::eq(w.o->GetPosition_i_m()[i], g_out[i], "position");
}
CHECK(orbit_sgp4) {
  for (auto n : {"ORBIT", "ANOTHER"}) {
    Sec s{F, n};
    s.text("tle1", std::string("1 38666U 12003B   12237.00000000 -.00000100  00000-0 -67980-4 0 00008 ") + n[0]);
    s.text("tle2", std::string("2 38666 098.6030 315.4100 0000010 300.0000 180.0000 14.09465034 0011 ") + n[0]);
  }
  Orb w("SGP4", false);
  sym_assert(g_t1 == st::S(F, w.s.s, "tle1") && g_t2 == st::S(F, w.s.s, "tle2"), "both lines of the element set, complete");
  st::eqi(g_wgs, w.s.i("wgs_setting"), "gravity model");
  st::eq(g_jd2, w.jd, "start");
}
CHECK(orbit_relative) {
  Orb w("RELATIVE", false);
  auto* o = (dynamics::orbit::RelativeOrbit*)w.o;
  st::eq(o->gravity_constant_m3_s2_, w.mu, "gravity constant");
  st::eq(o->propagation_step_s_, 0.5, "step");
  st::eqi((int)o->reference_spacecraft_id_, w.s.i("reference_satellite_id"), "reference");
  st::eqi((int)o->update_method_, w.s.i("relative_orbit_update_method"), "update method");
  st::eqi((int)o->relative_dynamics_model_type_, w.s.i("relative_dynamics_model_type"), "model");
  st::eqi((int)o->stm_model_type_, w.s.i("stm_model_type"), "transition matrix");
  st::eqv(o->relative_position_lvlh_m_, w.s, "initial_relative_position_lvlh_m", "relative position");
  st::eqv(o->relative_velocity_lvlh_m_s_, w.s, "initial_relative_velocity_lvlh_m_s", "relative velocity");
  sym_assert(o->relative_information_ == (simulation::RelativeInformation*)0x3000, "relative information");
}
CHECK(orbit_file) {
  Orb w("TIME_SERIES_FILE", false);
  sym_assert(g_path == st::S(F, w.s.s, "time_series_file_path"), "file");
  st::eqi(g_ni, w.s.i("number_of_interpolation"), "interpolation length");
  st::eqi(g_im, w.s.i("interpolation_method"), "interpolation method");
  st::eq(g_corr, w.s.d("orbital_period_correction_s"), "period correction");
  st::eq(g_jd2, w.jd, "start");
}
struct Att {
  Sec s{F, "ATTITUDE"}, c{F, "CONTROLLED_ATTITUDE"};
  math::Matrix<3, 3> I{0.0};
  dynamics::attitude::Attitude* a = nullptr;
  bool controlled;
  int start, id;
  Att(const char* mode) {
    id = sym_choose("spacecraft", 0, 1) ? 11 : 0;
    start = (int)sym_choose("initialise", 0, 2);
    s.text("propagate_mode", mode);
    s.text("initialize_mode", start == 0 ? "MANUAL" : start == 1 ? "CONTROLLED" : "SOMETHING");
    c.text("main_mode", "SUN_POINTING");
    c.text("sub_mode", "ORBIT_NORMAL_POINTING");
    Sec{F, "SETTING_FILES"}.text("structure_file", "structure.ini");
    st::unit4(s, "initial_quaternion_i2b");
    double x[2][3] = {{1, 0, 0}, {0, 0.6, 0.8}};
    for (int i = 0; i < 3; i++) {
      st::dv()[st::id(F, c.s, "main_pointing_direction_b(" + std::to_string(i) + ")")] = x[0][i];
      st::dv()[st::id(F, c.s, "sub_pointing_direction_b(" + std::to_string(i) + ")")] = x[1][i];
    }
    c.range("target_position_latitude_deg", 1, 80);
    c.range("target_position_longitude_deg", 1, 170);
    c.range("altitude_m", 0, 100);
    for (int i = 0; i < 3; i++) I[i][i] = 1 + i;
    a = dynamics::attitude::InitAttitude(F, (dynamics::orbit::Orbit*)0x1000, (environment::LocalCelestialInformation*)0x2000, 0.5, I, id);
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) st::eq(a->inertia_tensor_kgm2_[i][j], I[i][j], "inertia");
    sym_assert(static_cast<simulation::SimulationObject*>(a)->name_ == "attitude" + std::to_string(id), "name for the Monte-Carlo settings");
  }
  void initial(const Vector<3>& w, const math::Quaternion& q, const Vector<3>& t) {
    if (start == 1) {
      st::eq(g_prop, 0.5, "controlled initial attitude computed for the first step");
      double e[4] = {0.5, 0.5, -0.5, 0.5};
      for (int i = 0; i < 4; i++) st::eq(q[i], e[i], "initial attitude from the controlled mode");
      for (int i = 0; i < 3; i++) { st::eq(w[i], 0, "starts at rest"); st::eq(t[i], 0, "starts without torque"); }
    } else {
      st::eqv(w, s, "initial_angular_velocity_b_rad_s", "initial rate");
      st::eqq(q, s, "initial_quaternion_i2b", "initial attitude");
      st::eqv(t, s, "initial_torque_b_Nm", "initial torque");
    }
  }
};
static void rigid(const char* mode) {
  Att w(mode);
  auto* a = (dynamics::attitude::AttitudeRk4*)w.a;
  w.initial(a->angular_velocity_b_rad_s_, a->quaternion_i2b_, a->torque_b_Nm_);
  st::eq(a->propagation_step_s_, 0.5, "integration step");
}
CHECK(attitude_rk4) { rigid("RK4"); }
CHECK(attitude_unknown_mode) { rigid("UNKNOWN"); }
CHECK(attitude_cantilever) {
  Att w("CANTILEVER_VIBRATION");
  w.initial(g_cw, g_cq, g_ct);
  Sec s{"structure.ini", "CANTILEVER_PARAMETERS"};
  st::eqm(g_cc, s, "inertia_tensor_cantilever_kgm2", "inertia of the cantilever");
  st::eq(g_cd, s.d("damping_ratio_cantilever"), "damping");
  st::eq(g_cf, s.d("intrinsic_angular_velocity_cantilever_rad_s"), "natural frequency");
  st::eq(g_cs, 0.5, "integration step");
}
CHECK(attitude_controlled) {
  Att w("CONTROLLED");
  auto* a = (dynamics::attitude::ControlledAttitude*)w.a;
  st::eqq(a->quaternion_i2b_, w.s, "initial_quaternion_i2b", "initial attitude");
  sym_assert(a->main_mode_ == dynamics::attitude::AttitudeControlMode::kSunPointing && a->sub_mode_ == dynamics::attitude::AttitudeControlMode::kOrbitNormalPointing, "modes");
  st::eqv(a->main_target_direction_b_, w.c, "main_pointing_direction_b", "main direction");
  st::eqv(a->sub_target_direction_b_, w.c, "sub_pointing_direction_b", "sub direction");
  st::eq(a->target_earth_surface_position_.latitude_rad_, w.c.d("target_position_latitude_deg") * kDeg, "target latitude");
  st::eq(a->target_earth_surface_position_.longitude_rad_, w.c.d("target_position_longitude_deg") * kDeg, "target longitude");
  st::eq(a->target_earth_surface_position_.altitude_m_, w.c.d("altitude_m"), "target altitude");
}
CHECK(structure) {
  const char* f = "structure.ini";
  Sec k{f, "KINEMATIC_PARAMETERS"}, r{f, "RESIDUAL_MAGNETIC_MOMENT"};
  spacecraft::KinematicsParameters p = spacecraft::InitKinematicsParameters(f);
  st::eqv(p.center_of_gravity_b_m_, k, "center_of_gravity_b_m", "centre of gravity");
  st::eq(p.mass_kg_, k.d("mass_kg"), "mass");
  st::eqm(p.inertia_tensor_b_kgm2_, k, "inertia_tensor_kgm2", "inertia");
  spacecraft::ResidualMagneticMoment m = spacecraft::InitResidualMagneticMoment(f);
  st::eqv(m.constant_value_b_Am2_, r, "rmm_constant_b_Am2", "constant moment");
  st::eq(m.random_walk_standard_deviation_Am2_, r.d("rmm_random_walk_speed_Am2"), "random walk");
  st::eq(m.random_walk_limit_Am2_, r.d("rmm_random_walk_limit_Am2"), "random walk limit");
  st::eq(m.random_noise_standard_deviation_Am2_, r.d("rmm_white_noise_standard_deviation_Am2"), "white noise");
}
CHECK(surfaces) {
  const char* f = "structure.ini";
  Sec s{f, "SURFACES"};
  s.range("number_of_surfaces", 0, 2);
  int n = s.i("number_of_surfaces"), bad = (int)sym_choose("out_of_range", 0, 4);
  bool longer = sym_choose("normal_longer_than_one", 0, 1) != 0;
  const char* opt[3] = {"reflectivity_", "specularity_", "air_specularity_"};
  for (int i = 0; i < n; i++) {
    std::string x = std::to_string(i);
    bool b = i == 1 && bad;
    s.range("area_" + x + "_m2", b && bad == 1 ? -8 : 0, b && bad == 1 ? -0.125 : 8);
    for (int j = 0; j < 3; j++) s.range(opt[j] + x, b && bad == 2 + j ? 1.125 : 0, b && bad == 2 + j ? 8 : 1);
    double u[3];
    sym_unit("normal", 3, u);
    for (int j = 0; j < 3; j++) st::dv()[st::id(f, s.s, "normal_vector_" + x + "_b(" + std::to_string(j) + ")")] = longer ? 2 * u[j] : u[j];
  }
  auto v = spacecraft::InitSurfaces(f);
  int want = bad && n == 2 ? 1 : n;  // reading stops at a surface whose properties are out of range
  st::eqi((int)v.size(), want, "number of surfaces");
  for (int i = 0; i < want; i++) {
    std::string x = std::to_string(i);
    st::eq(v[i].area_m2_, s.d("area_" + x + "_m2"), "area");
    st::eq(v[i].reflectivity_, s.d("reflectivity_" + x), "reflectivity");
    st::eq(v[i].specularity_, s.d("specularity_" + x), "specularity");
    st::eq(v[i].air_specularity_, s.d("air_specularity_" + x), "specularity for air");
    st::eqv(v[i].position_b_m_, s, ("position_" + x + "_b_m").c_str(), "position");
    for (int j = 0; j < 3; j++) sym_assert_close(v[i].normal_b_[j] * (longer ? 2 : 1), s.d("normal_vector_" + x + "_b", j), 1e-9, "unit normal");
  }
}
