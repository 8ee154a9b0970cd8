// SRC: src/dynamics/orbit/rk4_orbit_propagation.cpp src/dynamics/orbit/kepler_orbit_propagation.cpp src/dynamics/orbit/sgp4_orbit_propagation.cpp src/dynamics/orbit/orbit.cpp
// MODE: real
// BOUNDS: every state, acceleration and gravity constant; integration step in [0.5, 10] s, up to 4 steps per propagation, two consecutive propagations
// STUBS: ECEF to geodetic conversion (M08), Kepler motion (M05), the external SGP4 routines
#include "orb.hpp"
#include <dynamics/orbit/kepler_orbit_propagation.hpp>
#include <dynamics/orbit/rk4_orbit_propagation.hpp>
#include <dynamics/orbit/sgp4_orbit_propagation.hpp>
using namespace s2e;
using namespace s2e::dynamics::orbit;
using math::Vector;
static Vector<3> g_ecef;
namespace s2e::geodesy {
GeodeticPosition::GeodeticPosition() { latitude_rad_ = longitude_rad_ = altitude_m_ = 0; }
void GeodeticPosition::UpdateFromEcef(const Vector<3> p) { g_ecef = p; altitude_m_ = 1000.0; }
}  // namespace s2e::geodesy
static double g_jd;
static Vector<3> g_p, g_v;
namespace s2e::orbit {
KeplerOrbit::~KeplerOrbit() {}
KeplerOrbit::KeplerOrbit() {}
void KeplerOrbit::CalcOrbit(double jd) { g_jd = jd; position_i_m_ = g_p; velocity_i_m_s_ = g_v; }
OrbitalElements::OrbitalElements() {}
OrbitalElements::~OrbitalElements() {}
}  // namespace s2e::orbit
static double g_min, g_epoch, g_wgs;
int sgp4(gravconsttype w, elsetrec& rec, double min, double r[3], double v[3]) {
  g_min = min;
  g_wgs = (int)w;
  for (int i = 0; i < 3; i++) { r[i] = g_p[i]; v[i] = g_v[i]; }
  rec.error = 0;
  return 0;
}
void twoline2rv(char*, char*, char, char, gravconsttype, double&, double&, double&, elsetrec& rec) { rec.jdsatepoch = g_epoch; rec.error = 0; }
static void earth_fixed(const Orbit& o, const char* l) {
  // with the identity rotation matrix; position and velocity relative to the turning Earth
  Vector<3> p = o.GetPosition_i_m(), v = o.GetVelocity_i_m_s(), e = o.GetVelocity_ecef_m_s();
  double w = environment::earth_mean_angular_velocity_rad_s;
  vu::close_vec(o.GetPosition_ecef_m(), p, 1e-9, l);
  vu::close_vec(g_ecef, p, 1e-9, l);
  sym_assert_close(e[0], v[0] + w * p[1], 1e-6, l);
  sym_assert_close(e[1], v[1] - w * p[0], 1e-6, l);
  sym_assert_close(e[2], v[2], 1e-6, l);
}
// two body acceleration plus the disturbances
CHECK(rk4_equation_of_motion) {
  orbenv::World w;
  Vector<3> p = vu::vec3("position", -10, 10), v = vu::vec3("velocity", -10, 10), a = vu::vec3("acceleration", -1, 1);
  double mu = sym_double("mu", 0.5, 10), n2 = p[0] * p[0] + p[1] * p[1] + p[2] * p[2];
  sym_assume(n2 >= 1);
  Rk4OrbitPropagation o(w.gc.get(), mu, 0.5, p, v);
  o.spacecraft_acceleration_i_m_s2_ = a;
  Vector<6> s, d;
  for (int i = 0; i < 3; i++) { s[i] = p[i]; s[3 + i] = v[i]; }
  double t = sym_double("t", -5, 5);
  o.DerivativeFunction(t, s, d);
  double n = std::sqrt(n2);
  for (int i = 0; i < 3; i++) {
    sym_assert_close(d[i], v[i], 1e-9, "position rate");
    sym_assert_close((d[3 + i] - a[i]) * n2 * n, -mu * p[i], 1e-6, "gravity of the center and the disturbance acceleration");
  }
  // conserved along the unperturbed flow
  Vector<3> L = OuterProduct(p, v);
  double e = 0;
  for (int i = 0; i < 3; i++) e += v[i] * (d[3 + i] - a[i]);
  sym_assert_close(e * n2 * n, -mu * (p[0] * v[0] + p[1] * v[1] + p[2] * v[2]), 1e-6, "energy balance");
  (void)L;
}
struct Steps : Rk4OrbitPropagation {
  using Rk4OrbitPropagation::Rk4OrbitPropagation;
  int calls = 0;
  double last = 0, biggest = 0;
  void DerivativeFunction(double t, const Vector<6>& s, Vector<6>& d) override {
    (void)t;
    if (calls % 4 == 0) {
      if (GetStepWidth() > biggest) biggest = GetStepWidth();
      last = GetStepWidth();
    }
    calls++;
    for (int i = 0; i < 6; i++) d[i] = 0;
    d[0] = 1;                                     // elapsed time
    d[1] = 2 * s[0];                              // its square
    for (int i = 0; i < 3; i++) d[3 + i] = spacecraft_acceleration_i_m_s2_[i];
  }
};
// the whole interval is covered, in steps of the integration width with a shorter last one, ending at the requested time
CHECK(rk4_covers_the_interval) {
  orbenv::World w;
  Vector<3> p = vu::vec3("position", -10, 10), v = vu::vec3("velocity", -10, 10);
  double h = sym_double("step", 0.5, 10), t1 = sym_double("t1", 0.25, 40), t2 = sym_double("t2", 0.25, 80);
  sym_assume(t1 <= 4 * h);
  sym_assume(t2 - t1 <= 3 * h);
  sym_assume(t2 - t1 >= 0.25);
  Steps o(w.gc.get(), 1.0, h, p, v);
  vu::close_vec(o.GetPosition_i_m(), p, 0, "initial position");
  vu::close_vec(o.GetVelocity_i_m_s(), v, 0, "initial velocity");
  earth_fixed(o, "initial Earth fixed state");
  o.Propagate(t1, 0.0);
  vu::close_vec(o.GetPosition_i_m(), p, 0, "disabled: nothing moves");
  sym_assert(o.calls == 0, "disabled");
  o.SetIsCalcEnabled(true);
  Vector<3> a = vu::vec3("acceleration", -1, 1), b = vu::vec3("acceleration 2", -1, 1);
  o.SetAcceleration_i_m_s2(a);
  o.Propagate(t1, 0.0);
  sym_assert_close(o.GetPosition_i_m()[0], p[0] + t1, 1e-9, "the interval is integrated once");
  sym_assert_close(o.GetPosition_i_m()[1], p[1] + (p[0] + t1) * (p[0] + t1) - p[0] * p[0], 1e-6, "contiguous steps");
  sym_assert_close(o.propagation_time_s_, t1, 0, "time of the state");
  sym_assert_le(o.biggest, h + 2e-6, "no step beyond the integration width");
  sym_assert_le(o.last, h + 2e-6, "last step");
  for (int i = 0; i < 3; i++) sym_assert_close(o.GetVelocity_i_m_s()[i], v[i] + a[i] * t1, 1e-6, "acceleration acts over the interval");
  earth_fixed(o, "Earth fixed state");
  o.SetAcceleration_i_m_s2(b);
  o.Propagate(t2, 0.0);
  sym_assert_close(o.GetPosition_i_m()[0], p[0] + t2, 1e-9, "second interval");
  for (int i = 0; i < 3; i++) sym_assert_close(o.GetVelocity_i_m_s()[i], v[i] + a[i] * t1 + b[i] * (t2 - t1), 1e-6, "second acceleration");
}
// SGP4: minutes since the element epoch, kilometres to metres
CHECK(sgp4_time_and_units) {
  orbenv::World w;
  g_epoch = sym_double("epoch", 2458000, 2459000);
  double jd0 = sym_double("start", 2458000, 2459200), jd = sym_double("now", 2458000, 2459200);
  int wgs = sym_int("wgs", 0, 2);
  g_p = vu::vec3("position km", -9000, 9000);
  g_v = vu::vec3("velocity km/s", -9, 9);
  char l1[80] = "", l2[80] = "";
  Sgp4OrbitPropagation o(w.gc.get(), l1, l2, wgs, jd0);
  sym_assert_close(g_min, (jd0 - g_epoch) * 1440, 1e-6, "minutes since the epoch");
  sym_assert(g_wgs == wgs, "gravity model");
  for (int i = 0; i < 3; i++) {
    sym_assert_close(o.GetPosition_i_m()[i], 1000 * g_p[i], 1e-6, "initial position");
    sym_assert_close(o.GetVelocity_i_m_s()[i], 1000 * g_v[i], 1e-6, "initial velocity");
  }
  Vector<3> p0 = o.GetPosition_i_m();
  sym_assert(!o.GetIsCalcEnabled(), "disabled until it is switched on");
  g_p = vu::vec3("next position km", -9000, 9000);
  g_v = vu::vec3("next velocity km/s", -9, 9);
  o.Propagate(5.0, jd);
  vu::close_vec(o.GetPosition_i_m(), p0, 0, "disabled");
  o.SetIsCalcEnabled(true);
  o.Propagate(5.0, jd);
  sym_assert_close(g_min, (jd - g_epoch) * 1440, 1e-6, "minutes since the epoch");
  for (int i = 0; i < 3; i++) {
    sym_assert_close(o.GetPosition_i_m()[i], 1000 * g_p[i], 1e-6, "position");
    sym_assert_close(o.GetVelocity_i_m_s()[i], 1000 * g_v[i], 1e-6, "velocity");
  }
  earth_fixed(o, "Earth fixed state");
}
CHECK(kepler_follows_the_date) {
  orbenv::World w;
  double jd0 = sym_double("start", 2458000, 2459200), jd = sym_double("now", 2458000, 2459200);
  g_p = vu::vec3("position", -9e6, 9e6);
  g_v = vu::vec3("velocity", -9e3, 9e3);
  s2e::orbit::KeplerOrbit k;
  KeplerOrbitPropagation k2(w.gc.get(), jd0, k);
  Orbit& o = k2;
  sym_assert(g_jd == jd0, "initial date");
  vu::close_vec(o.GetPosition_i_m(), g_p, 0, "initial position");
  vu::close_vec(o.GetVelocity_i_m_s(), g_v, 0, "initial velocity");
  Vector<3> p0 = g_p;
  g_p = vu::vec3("next position", -9e6, 9e6);
  g_v = vu::vec3("next velocity", -9e3, 9e3);
  o.Propagate(1.0, jd);
  vu::close_vec(o.GetPosition_i_m(), p0, 0, "disabled");
  o.SetIsCalcEnabled(true);
  o.Propagate(1.0, jd);
  sym_assert(g_jd == jd, "date");
  vu::close_vec(o.GetPosition_i_m(), g_p, 0, "position");
  vu::close_vec(o.GetVelocity_i_m_s(), g_v, 0, "velocity");
  earth_fixed(o, "Earth fixed state");
}
