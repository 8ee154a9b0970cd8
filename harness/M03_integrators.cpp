// MODE: real
// BOUNDS: one step from an arbitrary state; step width in [0.001, 2], state components and right-hand-side coefficients in [-3,3]; right-hand sides: scalar linear, quadratures of polynomials and the triangular polynomial systems whose exact flow is a polynomial of the method's order (all rooted trees up to order 4, resp. 5 for the embedded methods); dense output at any fraction in [0,1]
#include "util.hpp"
#include <math_physics/math/ordinary_differential_equation.hpp>
#include <math_physics/numerical_integration/numerical_integrator_manager.hpp>
using namespace s2e;
using namespace s2e::numerical_integration;
using math::Vector;

// tm: equations that use the time argument instead of x0
// x0' = a, x1' = x0^k, x2' = x0^j x1, x3' = x2, x4' = x1^2
struct Tri : InterfaceOde<5> {
  double a;
  int tm = 0, k, j;
  Vector<5> DerivativeFunction(const double time, const Vector<5>& s) const override {
    Vector<5> d(0.0);
    d[0] = a;
    d[1] = 1.0;
    for (int i = 0; i < k; i++) d[1] *= (tm & 1) ? time : s[0];
    d[2] = s[1];
    for (int i = 0; i < j; i++) d[2] *= (tm & 2) ? time : s[0];
    d[3] = s[2];
    d[4] = s[1] * s[1];
    return d;
  }
};
// exact flow by repeated polynomial integration; coefficients in h
struct Pol {
  double c[9];
  Pol(double v = 0) { for (double& x : c) x = 0; c[0] = v; }
};
static Pol mulp(const Pol& x, const Pol& y) { Pol r; for (int i = 0; i < 9; i++) for (int k = 0; i + k < 9; k++) r.c[i + k] += x.c[i] * y.c[k]; return r; }
static Pol integ(double c0, const Pol& x) { Pol r(c0); for (int i = 0; i < 8; i++) r.c[i + 1] = x.c[i] / (i + 1); return r; }
static double at(const Pol& x, double h) { double r = 0, p = 1; for (int i = 0; i < 9; i++) { r += x.c[i] * p; p *= h; } return r; }

static void flow(const Tri& t, double t0, const Vector<5>& s0, Pol p[5]) {
  Pol a(t.a);
  p[0] = integ(s0[0], a);
  Pol clock = integ(t0, Pol(1.0));
  Pol q(1.0);
  for (int i = 0; i < t.k; i++) q = mulp(q, (t.tm & 1) ? clock : p[0]);
  p[1] = integ(s0[1], q);
  q = p[1];
  for (int i = 0; i < t.j; i++) q = mulp(q, (t.tm & 2) ? clock : p[0]);
  p[2] = integ(s0[2], q);
  p[3] = integ(s0[3], p[2]);
  p[4] = integ(s0[4], mulp(p[1], p[1]));
}
static int order(const Tri& t, int i) {
  if (i == 0) return 1;
  if (i == 1) return 1 + t.k;
  if (i == 2) return 2 + t.k + t.j;
  if (i == 3) return 3 + t.k + t.j;
  return 1 + 2 * (1 + t.k);
}
static Vector<5> state(const char* n) {
  Vector<5> s;
  for (int i = 0; i < 5; i++) s[i] = sym_double((std::string(n) + std::to_string(i)).c_str(), -3, 3);
  return s;
}
static void tri(NumericalIntegrationMethod m, int p) {
  Tri t;
  t.a = sym_double("a", -3, 3);
  t.k = sym_choose("k", 0, 3);
  t.j = sym_choose("j", 0, 3);
  t.tm = sym_choose("tm", 0, 3);
  double h = sym_double("h", 0.001, 2), t0 = sym_double("t0", -5, 5);
  NumericalIntegratorManager<5> man(h, t, m);
  auto it = man.GetIntegrator();
  Vector<5> s0 = state("s");
  it->SetState(t0, s0);
  vu::close_vec(it->GetState(), s0, 0, "state is set");
  it->Integrate();
  Pol e[5];
  flow(t, t0, s0, e);
  bool any = false;
  for (int i = 0; i < 5; i++)
    if (order(t, i) <= p) { sym_assert_close(it->GetState()[i], at(e[i], h), 1e-6, "exact on polynomial flows up to the method order"); any = true; }
  sym_assert(any, "some component within the order");
  if (p == 5) {
    bool all4 = true;
    for (int i = 0; i < 5; i++) all4 = all4 && order(t, i) <= 4;
    auto em = static_cast<EmbeddedRungeKutta<5>*>(it.get());
    if (all4) sym_assert_close(em->GetLocalTruncationError(), 0, 1e-5, "no error reported where both orders are exact");
  }
}
CHECK(rk4_trees) { tri(NumericalIntegrationMethod::kRk4, 4); }
CHECK(rkf_trees) { tri(NumericalIntegrationMethod::kRkf, 5); }
CHECK(dp5_trees) { tri(NumericalIntegrationMethod::kDp5, 5); }

struct Lin : InterfaceOde<1> {
  double l, c[5];
  bool quad;
  Vector<1> DerivativeFunction(const double t, const Vector<1>& s) const override {
    Vector<1> d(0.0);
    if (quad) {
      double p = 1;
      for (int i = 0; i < 5; i++) { d[0] += c[i] * p; p *= t; }
    } else d[0] = l * s[0];
    return d;
  }
};
static void linear(NumericalIntegrationMethod m, double c6) {
  Lin o;
  o.quad = false;
  o.l = sym_double("lambda", -2, 2);
  double h = sym_double("h", 0.001, 1);
  NumericalIntegratorManager<1> man(h, o, m);
  auto it = man.GetIntegrator();
  Vector<1> s(0.0);
  s[0] = sym_double("s0", -3, 3);
  it->SetState(0.0, s);
  it->Integrate();
  double z = o.l * h, z2 = z * z;
  double R = 1 + z + z2 / 2 + z2 * z / 6 + z2 * z2 / 24;
  if (c6 != 0) R += z2 * z2 * z / 120 + c6 * z2 * z2 * z2;
  sym_assert_close(it->GetState()[0], R * s[0], 1e-8, "stability polynomial of the method");
}
CHECK(rk4_linear) { linear(NumericalIntegrationMethod::kRk4, 0); }
CHECK(rkf_linear) { linear(NumericalIntegrationMethod::kRkf, 1.0 / 2080.0); }
CHECK(dp5_linear) { linear(NumericalIntegrationMethod::kDp5, 1.0 / 600.0); }

static void quadrature(NumericalIntegrationMethod m, int deg, int dense, double ttol) {
  Lin o;
  o.quad = true;
  for (int i = 0; i < 5; i++) o.c[i] = i <= deg ? sym_double(("c" + std::to_string(i)).c_str(), -3, 3) : 0.0;
  double h = sym_double("h", 0.001, 2), t0 = sym_double("t0", -2, 2);
  NumericalIntegratorManager<1> man(h, o, m);
  auto it = man.GetIntegrator();
  Vector<1> s(0.0);
  s[0] = sym_double("s0", -3, 3);
  it->SetState(t0, s);
  int steps = 2;
  double acc = s[0], prev = 0, t = t0;
  auto prim = [&](double x) { double r = 0, p = x; for (int i = 0; i < 5; i++) { r += o.c[i] * p / (i + 1); p *= x; } return r; };
  for (int n = 0; n < steps; n++) {
    it->Integrate();
    prev = acc;
    acc += prim(t + h) - prim(t);
    t += h;
    sym_assert_close(it->GetState()[0], acc, 1e-6, "exact quadrature, time advances by the step");
  }
  if (!dense) return;
  double sg = sym_double("sigma", 0, 1);
  for (int i = dense; i < 5; i++) sym_assume(o.c[i] == 0.0);
  sym_assert_close(it->CalcInterpolationState(sg)[0], prev + prim(t - h + sg * h) - prim(t - h), ttol, "dense output");
  sym_assert_close(it->CalcInterpolationState(0.0)[0], prev, 1e-8, "dense output starts at the previous state");
  sym_assert_close(it->CalcInterpolationState(1.0)[0], acc, 1e-6, "dense output ends at the current state");
}
CHECK(rk4_quadrature) { quadrature(NumericalIntegrationMethod::kRk4, 3, 0, 0); }
CHECK(rkf_quadrature) { quadrature(NumericalIntegrationMethod::kRkf, 4, 0, 0); }
CHECK(dp5_quadrature) { quadrature(NumericalIntegrationMethod::kDp5, 4, 0, 0); }
CHECK(rkf_dense) { quadrature(NumericalIntegrationMethod::kRkf, 3, 4, 1e-6); }
CHECK(dp5_dense) { quadrature(NumericalIntegrationMethod::kDp5, 3, 4, 1e-6); }

struct Old : math::OrdinaryDifferentialEquation<5> {
  Tri t;
  double c[4];
  bool quad;
  Old(double h) : OrdinaryDifferentialEquation<5>(h) {}
  void DerivativeFunction(double x, const Vector<5>& s, Vector<5>& d) override {
    if (!quad) { d = t.DerivativeFunction(x, s); return; }
    for (int i = 0; i < 5; i++) d[i] = 0;
    d[0] = c[0] + x * (c[1] + x * (c[2] + x * c[3]));
    d[1] = x * s[2];
  }
};
CHECK(ode_trees) {
  double h = sym_double("h", 0.001, 2), t0 = sym_double("t0", -2, 2);
  Old o(h);
  o.quad = false;
  o.t.a = sym_double("a", -3, 3);
  o.t.k = sym_choose("k", 0, 2);
  o.t.j = sym_choose("j", 0, 2);
  o.t.tm = sym_choose("tm", 0, 3);
  Vector<5> s0 = state("s");
  o.Setup(t0, s0);
  vu::close_vec(static_cast<const Old&>(o).GetState(), s0, 0, "state is set");
  sym_assert_close(o.GetIndependentVariable(), t0, 0, "time is set");
  ++o;
  sym_assert_close(o.GetIndependentVariable(), t0 + h, 1e-12, "time advances");
  Pol e[5];
  flow(o.t, t0, s0, e);
  for (int i = 0; i < 5; i++)
    if (order(o.t, i) <= 4) sym_assert_close(o[i], at(e[i], h), 1e-6, "exact on polynomial flows up to order 4");
}
CHECK(ode_time_dependent) {
  double h = sym_double("h", 0.001, 2), t0 = sym_double("t0", -2, 2);
  Old o(1.0);
  o.SetStepWidth(h);
  sym_assert_close(o.GetStepWidth(), h, 0, "step width");
  o.quad = true;
  for (int i = 0; i < 4; i++) o.c[i] = sym_double(("c" + std::to_string(i)).c_str(), -3, 3);
  Vector<5> s0 = state("s");
  o.Setup(t0, s0);
  o.Update();
  o.Update();
  auto prim = [&](double x) { double r = 0, p = x; for (int i = 0; i < 4; i++) { r += o.c[i] * p / (i + 1); p *= x; } return r; };
  double t1 = t0 + 2 * h;
  sym_assert_close(o[0], s0[0] + prim(t1) - prim(t0), 1e-6, "time dependent quadrature");
  sym_assert_close(o[1], s0[1] + s0[2] * (t1 * t1 - t0 * t0) / 2, 1e-6, "time dependent coefficient");
  sym_assert_close(o[2], s0[2], 0, "constant component");
}
