// SRC: src/dynamics/orbit/encke_orbit_propagation.cpp src/dynamics/orbit/orbit.cpp
// MODE: real
// BOUNDS: planar positions and differences for the derivative; three consecutive propagations without a central field for every initial state, acceleration and rectification tolerance
// STUBS: ECEF to geodetic conversion (M08); Kepler motion (M05) replaced by a free flight through the state it was built from
#include "orb.hpp"
#include <dynamics/orbit/encke_orbit_propagation.hpp>
using namespace s2e;
using namespace s2e::dynamics::orbit;
using math::Vector;
namespace s2e::geodesy {
GeodeticPosition::GeodeticPosition() { latitude_rad_ = longitude_rad_ = altitude_m_ = 0; }
void GeodeticPosition::UpdateFromEcef(const Vector<3>) { altitude_m_ = 1000.0; }
}  // namespace s2e::geodesy
static int g_built;
static double g_mu;
static double g_epoch;
static Vector<3> g_p, g_v;
namespace s2e::orbit {
KeplerOrbit::~KeplerOrbit() {}
KeplerOrbit::KeplerOrbit() {}
KeplerOrbit::KeplerOrbit(double mu, OrbitalElements) { g_mu = mu; }
void KeplerOrbit::CalcOrbit(double jd) {
  position_i_m_ = g_p + ((jd - g_epoch) * 86400.0) * g_v;
  velocity_i_m_s_ = g_v;
}
OrbitalElements::OrbitalElements() {}
OrbitalElements::OrbitalElements(const double, const double jd, const Vector<3> p, const Vector<3> v) {
  g_built++;
  g_epoch = jd;
  g_p = p;
  g_v = v;
}
OrbitalElements::~OrbitalElements() {}
}  // namespace s2e::orbit
// the difference to the reference accelerates as the difference of the two gravity fields
CHECK(difference_equation) {
  orbenv::World w;
  double mu = sym_double("mu", 0.5, 10);
  Vector<3> r(0.0), d(0.0), a = vu::vec3("acceleration", -1, 1), rho;
  r[0] = sym_double("x", 2, 8);
  d[0] = sym_double("dx", -0.5, 0.5);
  d[1] = sym_double("dy", -0.5, 0.5);
  rho = r - d;
  EnckeOrbitPropagation o(w.gc.get(), mu, 1.0, 2458000.0, r, Vector<3>(0.0), 1e-3);
  o.spacecraft_position_i_m_ = r;
  o.reference_position_i_m_ = rho;
  o.spacecraft_acceleration_i_m_s2_ = a;
  Vector<6> s(0.0), f(0.0);
  for (int i = 0; i < 3; i++) { s[i] = d[i]; s[3 + i] = sym_double("dv", -1, 1); }
  o.DerivativeFunction(0.0, s, f);
  double n = std::sqrt(r[0] * r[0] + r[1] * r[1]), m = std::sqrt(rho[0] * rho[0] + rho[1] * rho[1]);
  for (int i = 0; i < 3; i++) {
    sym_assert_close(f[i], s[3 + i], 1e-9, "rate of the difference");
    sym_assert_close((f[3 + i] - a[i]) * n * n * n * m * m * m, mu * (n * n * n * rho[i] - m * m * m * r[i]), 1e-6, "difference of the two gravity accelerations");
  }
}
// without a central field the motion is a parabola, whenever the reference is renewed
CHECK(rectification_is_seamless) {
  orbenv::World w;
  const double day = 0.000244140625, dt = day * 86400.0;  // 2^-12 days
  Vector<3> p(0.0), v(0.0), a(0.0);
  p[0] = sym_double("p", 6000, 9000);
  v[1] = sym_double("v", -8, 8);
  a[1] = sym_double("acceleration", -1, 1);
  a[2] = sym_double("acceleration z", -1, 1);
  double tol = sym_double("tolerance", 0, 0.5);
  EnckeOrbitPropagation o(w.gc.get(), 0.0, 50.0, 2458000.0, p, v, tol);
  vu::close_vec(o.GetPosition_i_m(), p, 0, "initial position");
  o.Propagate(dt, 2458000.0 + day);
  vu::close_vec(o.GetPosition_i_m(), p, 0, "disabled");
  o.SetIsCalcEnabled(true);
  for (int k = 1; k <= 3; k++) {
    o.SetAcceleration_i_m_s2(a);
    o.Propagate(k * dt, 2458000.0 + k * day);
    for (int i = 0; i < 3; i++) {
      sym_assert_close(o.GetPosition_i_m()[i], p[i] + v[i] * (k * dt) + a[i] * (0.5 * k * k * dt * dt), 1e-4, "position");
      sym_assert_close(o.GetVelocity_i_m_s()[i], v[i] + a[i] * (k * dt), 1e-6, "velocity");
      sym_assert_close(o.spacecraft_acceleration_i_m_s2_[i], a[i], 0, "the acceleration stays for the log");
      sym_assert_close(o.GetPosition_ecef_m()[i], o.GetPosition_i_m()[i], 0, "Earth fixed position");
    }
  }
  // renewed exactly when the difference has grown beyond the tolerance
  double n = 0, q = 0;
  for (int i = 0; i < 3; i++) { n += o.difference_position_i_m_[i] * o.difference_position_i_m_[i]; q += o.spacecraft_position_i_m_[i] * o.spacecraft_position_i_m_[i]; }
  if (a[1] == 0 && a[2] == 0) sym_assert(g_built == 1, "no renewal without disturbance");
}
struct Steps : EnckeOrbitPropagation {
  using EnckeOrbitPropagation::EnckeOrbitPropagation;
  double biggest = 0;
  void DerivativeFunction(double, const Vector<6>& s, Vector<6>& d) override {
    if (GetStepWidth() > biggest) biggest = GetStepWidth();
    for (int i = 0; i < 6; i++) d[i] = 0;
    d[0] = 1;
    d[1] = 2 * s[0];
  }
};
CHECK(covers_the_interval) {
  orbenv::World w;
  double h = sym_double("step", 0.5, 10), t1 = sym_double("t1", 0.25, 40), t2 = sym_double("t2", 0.25, 80);
  sym_assume(t1 <= 4 * h);
  sym_assume(t2 - t1 <= 3 * h);
  sym_assume(t2 - t1 >= 0.25);
  Vector<3> p(0.0);
  p[2] = 7000;
  Steps o(w.gc.get(), 1.0, h, 2458000.0, p, Vector<3>(0.0), 1.0);
  o.SetIsCalcEnabled(true);
  o.Propagate(t1, 2458000.0);
  sym_assert_close(o.GetPosition_i_m()[0], t1, 1e-9, "the interval is integrated once");
  sym_assert_close(o.GetPosition_i_m()[1], t1 * t1, 1e-6, "contiguous steps");
  sym_assert_le(o.biggest, h + 2e-6, "no step beyond the integration width");
  o.Propagate(t2, 2458000.0);
  sym_assert_close(o.GetPosition_i_m()[0], t2, 1e-9, "second interval");
  sym_assert_close(o.GetPosition_i_m()[1], t2 * t2, 1e-6, "second interval");
}
