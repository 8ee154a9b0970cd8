// SRC: src/math_physics/optics/gaussian_beam_base.cpp
// SRC: src/utilities/quantization.cpp
// MODE: real
// OPT: real_ints=200
// BOUNDS: any wavelength, waist and distances; any step, time constant, gain and up to four inputs; quantities of up to thirty steps of the resolution
#include "util.hpp"
#include <cmath>
#include <math_physics/control_utilities/first_order_lag.hpp>
#include <math_physics/optics/gaussian_beam_base.hpp>
#include <utilities/quantization.hpp>
using namespace s2e;
static const double kPi = 3.14159265358979323846;
// the width of a Gaussian beam is w0 sqrt(1 + (z lambda / (pi w0^2))^2)
CHECK(beam_width) {
  double l = sym_double("wavelength", 1e-7, 1e-5), w0 = sym_double("waist", 1e-3, 1), p = sym_double("power", 0, 1e3), z = sym_double("z", -1e7, 1e7);
  optics::GaussianBeamBase b(l, w0, p);
  double w = b.CalcBeamWidthRadius_m(z), zr = kPi * w0 * w0 / l, q = z / zr;
  sym_assert(w > 0, "positive width");
  sym_assert_close(w * w, w0 * w0 * (1 + q * q), 1e-6 * w * w, "width of the beam");
  sym_assert_close(b.CalcBeamWidthRadius_m(0), w0, 1e-12, "waist at the waist");
  sym_assert_close(b.CalcBeamWidthRadius_m(-z), w, 1e-9, "same width on both sides");
}
// the intensity at the distance is the Gaussian whose integral is the power
CHECK(beam_intensity) {
  double l = sym_double("wavelength", 1e-7, 1e-5), w0 = sym_double("waist", 1e-3, 1), p = sym_double("power", 0, 1e3), z = sym_double("z", -1e5, 1e5), r = sym_double("r", -100, 100);
  optics::GaussianBeamBase b(1e-6, 0.5, 1.0);
  b.SetWaveLength_m(l);
  b.SetBeamWaistRadius_m(w0);
  b.SetTotalPower_W(p);
  sym_assert(b.GetWaveLength_m() == l && b.GetBeamWaistRadius_m() == w0 && b.GetTotalPower_W() == p, "settings as set");
  double w = b.CalcBeamWidthRadius_m(z), i0 = b.CalcIntensity_W_m2(z, 0), i = b.CalcIntensity_W_m2(z, r);
  sym_assert_close(i0 * kPi * w * w / 2, p, 1e-9 * (1 + p), "power carried by the beam");
  sym_assert_close(i, i0 * exp(-2.0 * r * r / (w * w)), 1e-9 * (1 + i0), "Gaussian profile");
  sym_assert_close(b.CalcIntensity_W_m2(z, -r), i, 1e-9 * (1 + i0), "symmetric about the axis");
}
CHECK(beam_geometry) {
  optics::GaussianBeamBase b(1e-6, 0.5, 1.0);
  math::Vector<3> d, q;
  for (int i = 0; i < 3; i++) { d[i] = sym_double("d", -1, 1); q[i] = sym_double("q", -1e8, 1e8); }
  b.SetPointingVector_i(d);
  b.SetBeamWaistPosition_i_m(q);
  for (int i = 0; i < 3; i++) sym_assert(b.GetPointingVector_i()[i] == d[i] && b.GetBeamWaistPosition_i_m()[i] == q[i], "pointing and waist as set");
}
// a first-order lag is the backward Euler solution of T y' + y = K u
CHECK(lag) {
  double dt = sym_double("step", 0.001, 10), tau = sym_double("time constant", 0, 100), k = sym_double("gain", -10, 10);
  control_utilities::FirstOrderLag f(dt, tau, k);
  sym_assert(f.GetOutput() == 0, "starts at zero");
  double y = 0;
  for (int i = 0; i < 4; i++) {
    double u = sym_double("u", -100, 100), o = f.Update(u);
    sym_assert_close(tau * (o - y) / dt + o, k * u, 1e-6 * (1 + tau / dt), "lag equation");
    sym_assert(o == f.GetOutput(), "output is the value of the last step");
    y = o;
  }
}
CHECK(lag_limits) {
  double u = sym_double("u", -100, 100), v = sym_double("v", -100, 100), dt = sym_double("step", 0.001, 10), tau = sym_double("time constant", 0, 100);
  control_utilities::FirstOrderLag none(dt, 0.0, 1.0), unit(dt, tau, 1.0);
  none.Update(v);
  sym_assert_close(none.Update(u), u, 1e-9, "no lag without a time constant");
  double a = unit.Update(u), b = unit.Update(u), c = unit.Update(v);
  sym_assert((u >= 0 ? a >= 0 && b >= a && b <= u : a <= 0 && b <= a && b >= u), "approaches a constant input without overshoot");
  sym_assert((v >= b ? c >= b && c <= v : c <= b && c >= v), "moves toward the input");
  double z = sym_double("no step", -10, 0), t = sym_double("no constant", -10, 0);
  control_utilities::FirstOrderLag off(z, t, 2.0);
  sym_assert(off.Update(u) == 0, "no output without step and time constant");
}
// quantization keeps the multiple of the resolution nearest to the value on the side of zero
CHECK(quantization) {
  int n = (int)sym_choose("steps", 0, 30);
  double res = sym_double("resolution", 0.001, 1000), frac = sym_double("fraction", 0.0001, 0.999);
  double x = (n + frac) * res, q = utilities::quantization(x, res), m = utilities::quantization(-x, res);
  sym_assert_close(q, n * res, 1e-6, "multiple of the resolution below the value");
  sym_assert_close(m, -(n * res), 1e-6, "multiple of the resolution above a negative value");
  sym_assert_close(utilities::quantization_float(x, res), q, 1e-6 * (1 + (q > 0 ? q : -q)), "same in single precision");
}
