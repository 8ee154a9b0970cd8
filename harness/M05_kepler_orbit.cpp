// SRC: src/math_physics/orbit/kepler_orbit.cpp src/math_physics/orbit/orbital_elements.cpp
// MODE: real
// BOUNDS: eccentricity in [0,0.9], semi-major axis in [0.5,10] length units, gravity constant in [0.1,10], inclination in [0,pi], node and perigee angles in [-7,7] rad, any eccentric anomaly in [0,6.28], one extra turn before/after the epoch
// OVERRIDE: Newton solver of Kepler's equation (contract: returns the eccentric anomaly of the mean anomaly it is asked for; the request is checked)
#include "util.hpp"
#include <math_physics/orbit/kepler_orbit.hpp>
#include <math_physics/orbit/orbital_elements.hpp>
#include <math_physics/math/constants.hpp>
using namespace s2e;
using math::Vector;
using orbit::KeplerOrbit;
using orbit::OrbitalElements;

static double g_u;
static int g_calls;
extern "C" double newton_contract(KeplerOrbit*, double e, double l, double, int) __asm__("_ZN3s2e5orbit11KeplerOrbit23SolveKeplerNewtonMethodEdddi");
extern "C" double newton_contract(KeplerOrbit*, double e, double l, double, int) {
  g_calls++;
  sym_assert_close(l, g_u - e * std::sin(g_u), 1e-8, "mean anomaly in [0, 2pi) handed to the solver");
  return g_u;
}
CHECK(propagation) {
  double mu = sym_double("mu", 0.1, 10), a = sym_double("a", 0.5, 10), e = sym_double("e", 0, 0.9);
  double i = sym_double("i", 0, 3.1416), node = sym_double("node", -7, 7), w = sym_double("w", -7, 7), ep = sym_double("epoch", -5, 5);
  double u = g_u = sym_double("u", 0.0, 6.28);
  int turn = sym_choose("turn", -1, 1);
  g_calls = 0;
  KeplerOrbit k(mu, OrbitalElements(ep, a, e, i, node, w));
  double n = std::sqrt(mu / (a * a * a));
  double m = u - e * std::sin(u);
  sym_assume(m > 0.001 && m < 6.28);
  k.CalcOrbit(ep + (m + turn * 6.283185307179586) / n / 86400.0);
  sym_assert(g_calls == 1, "Kepler equation solved once");
  Vector<3> r = k.GetPosition_i_m(), v = k.GetVelocity_i_m_s();
  double cn = std::cos(node), sn = std::sin(node), ci = std::cos(i), si = std::sin(i), cw = std::cos(w), sw = std::sin(w);
  double P[3] = {cn * cw - sn * sw * ci, sn * cw + cn * sw * ci, sw * si}, Q[3] = {-cn * sw - sn * cw * ci, -sn * sw + cn * cw * ci, cw * si};
  double b = a * std::sqrt(1 - e * e), cu = std::cos(u), su = std::sin(u), rho = 1 - e * cu;
  for (int j = 0; j < 3; j++) {
    sym_assert_close(r[j], a * (cu - e) * P[j] + b * su * Q[j], 1e-7, "position on the ellipse");
    sym_assert_close(v[j] * rho, n * (-a * su * P[j] + b * cu * Q[j]), 1e-7, "velocity is the time derivative of the position");
  }
}
CHECK(elements_kept) {
  double x[6];
  for (int j = 0; j < 6; j++) x[j] = sym_double(("x" + std::to_string(j)).c_str(), -10, 10);
  OrbitalElements oe(x[0], x[1], x[2], x[3], x[4], x[5]);
  sym_assert_close(oe.GetEpoch_jday(), x[0], 0, "epoch");
  sym_assert_close(oe.GetSemiMajorAxis_m(), x[1], 0, "semi-major axis");
  sym_assert_close(oe.GetEccentricity(), x[2], 0, "eccentricity");
  sym_assert_close(oe.GetInclination_rad(), x[3], 0, "inclination");
  sym_assert_close(oe.GetRaan_rad(), x[4], 0, "node");
  sym_assert_close(oe.GetArgPerigee_rad(), x[5], 0, "perigee");
}
// elements from a state: state built from the elements, extracted elements must propagate to the same invariants
CHECK(elements_from_state) {
  double mu = sym_double("mu", 0.1, 10);
  Vector<3> r = vu::vec3("r", -3, 3), v = vu::vec3("v", -2, 2);
  double r2 = InnerProduct(r, r), v2 = InnerProduct(v, v);
  sym_assume(r2 > 0.1 && v2 > 0.01);
  double rn = std::sqrt(r2);
  sym_assume(2 * mu / rn - v2 > 0.05);  // elliptic
  Vector<3> h = OuterProduct(r, v);
  double hxy2 = h[0] * h[0] + h[1] * h[1], h2 = hxy2 + h[2] * h[2];
  sym_assume(hxy2 > 0.01);
  Vector<3> ev;  // eccentricity vector
  Vector<3> vxh = OuterProduct(v, h);
  for (int j = 0; j < 3; j++) ev[j] = vxh[j] / mu - r[j] / rn;
  double e2 = InnerProduct(ev, ev);
  sym_assume(e2 > 0.001);
  OrbitalElements oe(mu, 0.0, r, v);
  double a = oe.GetSemiMajorAxis_m(), e = oe.GetEccentricity();
  sym_assert_close(a * (2 * mu / rn - v2), mu, 1e-7, "vis-viva");
  sym_assert_close(std::sqrt(h2) * std::cos(oe.GetInclination_rad()), h[2], 1e-7, "inclination");
  double hxy = std::sqrt(hxy2);
  sym_assert_close(hxy * std::cos(oe.GetRaan_rad()), -h[1], 1e-7, "ascending node (cos)");
  sym_assert_close(hxy * std::sin(oe.GetRaan_rad()), h[0], 1e-7, "ascending node (sin)");
  sym_assert_close(e * e, e2, 1e-6, "eccentricity");
  double en = (-h[1] * ev[0] + h[0] * ev[1]) / hxy;  // along the node
  sym_assert_close(e * std::cos(oe.GetArgPerigee_rad()), en, 1e-6, "argument of perigee (cos)");
  double hn = std::sqrt(h2);
  // W x N, N = (-h1, h0, 0)/hxy
  double q0 = -h[2] * h[0] / (hn * hxy), q1 = -h[2] * h[1] / (hn * hxy), q2 = hxy2 / (hn * hxy);
  sym_assert_close(e * std::sin(oe.GetArgPerigee_rad()), q0 * ev[0] + q1 * ev[1] + q2 * ev[2], 1e-6, "argument of perigee (sin)");
}
// epoch: mean motion * (time - epoch) is the mean anomaly of the state (anchor ellipse mu=1, a=1, e=0.6, eight points around it)
CHECK(epoch_from_state) {
  // c, s: cosine and sine of the eccentric anomaly
  static const double cs[8][2] = {{0.96, 0.28}, {0.28, 0.96}, {-0.28, 0.96}, {-0.96, 0.28}, {-0.96, -0.28}, {-0.28, -0.96}, {0.28, -0.96}, {0.96, -0.28}};
  double t = sym_double("t", -3, 3);
  int i = sym_choose("point", 0, 7);
  double c = cs[i][0], s = cs[i][1], rho = 1 - 0.6 * c;
  Vector<3> r(0.0), v(0.0);
  r[0] = c - 0.6; r[2] = 0.8 * s;
  v[0] = -s / rho; v[2] = 0.8 * c / rho;
  OrbitalElements oe(1.0, t, r, v);
  double u = (t - oe.GetEpoch_jday()) * 86400.0 + 0.6 * s;
  sym_assert_close(oe.GetSemiMajorAxis_m(), 1.0, 1e-6, "semi-major axis");
  sym_assert_close(oe.GetEccentricity(), 0.6, 1e-6, "eccentricity");
  sym_assert_close(std::cos(u), c, 1e-5, "eccentric anomaly at the time since perigee (cos)");
  sym_assert_close(std::sin(u), s, 1e-5, "eccentric anomaly at the time since perigee (sin)");
}
