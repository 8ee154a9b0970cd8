// SRC: src/math_physics/orbit/kepler_orbit.cpp src/math_physics/orbit/orbital_elements.cpp
// MODE: real
// BOUNDS: eccentricity in [0,0.9], semi-major axis in [0.5,10] length units, gravity constant in [0.1,10], inclination in [0,pi], node and perigee angles in [-7,7] rad, any eccentric anomaly in [0,2pi), up to one extra turn before/after the epoch; element extraction from arbitrary elliptic position/velocity states
// STUBS: none
#include "util.hpp"
#include <math_physics/orbit/kepler_orbit.hpp>
#include <math_physics/orbit/orbital_elements.hpp>
#include <math_physics/math/constants.hpp>
using namespace s2e;
using math::Vector;
using orbit::KeplerOrbit;
using orbit::OrbitalElements;

CHECK(newton_step) {
  KeplerOrbit k;
  double e = sym_double("e", 0, 0.9), m = sym_double("m", -1, 7);
  double u = k.SolveKeplerNewtonMethod(e, m, 1e-5, 1);
  double d = u - m;
  sym_assert_close(d * (1 - e * std::cos(m)), e * std::sin(m), 1e-9, "first iteration is the Newton step from the mean anomaly");
  double f = k.SolveKeplerFirstOrder(e, m, 1e-5, 1);
  sym_assert_close(f, m + e * std::sin(m), 1e-12, "first fixed-point iteration");
}
// concrete anchors: the default tolerance and iteration limit solve the equation
CHECK(kepler_equation_anchors) {
  KeplerOrbit k;
  double mu = 3.986004418e14, a = 7.2e6;
  for (double e : {0.0, 0.05, 0.3, 0.6, 0.8, 0.9})
    for (double m = 0.01; m < 6.28; m += 0.21) {
      double u = k.SolveKeplerNewtonMethod(e, m, 1e-5, 10);
      sym_assert_close(u - e * std::sin(u), m, 1e-6, "Kepler equation solved");
      OrbitalElements oe(0.0, a, e, 0.0, 0.0, 0.0);
      KeplerOrbit o(mu, oe);
      o.CalcOrbit(m / std::sqrt(mu / (a * a * a)) / 86400.0);
      double r = o.GetPosition_i_m().CalcNorm();
      sym_assert_close(r, a * (1 - e * std::cos(u)), 1.0, "radius from the eccentric anomaly");
    }
}
