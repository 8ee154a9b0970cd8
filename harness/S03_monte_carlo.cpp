// SRC: src/simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.cpp src/simulation/monte_carlo_simulation/monte_carlo_simulation_executor.cpp src/simulation/monte_carlo_simulation/simulation_object.cpp
// MODE: real
// BOUNDS: any mean/minimum, deviation/maximum and draw for each randomization type (angles within a turn); any number of executions; two or three parameters and objects
// STUBS: the standard library's generators: a uniform draw is any value in [0, 1), a normal one any value in [-6, 6]
// OVERRIDE: seeding and drawing of the standard library's generators
// OPT: obl_ms=20000
#include <random>
#include "open.hpp"
static double g_draw[8];
static int g_n, g_seeded;
static unsigned long g_seed;
template <>
template <>
double std::uniform_real_distribution<double>::operator()(std::mt19937&, const param_type& p) { return p.a() + g_draw[g_n++ % 8] * (p.b() - p.a()); }
template <>
template <>
double std::normal_distribution<double>::operator()(std::mt19937&, const param_type& p) { return p.mean() + g_draw[g_n++ % 8] * p.stddev(); }
template <>
void std::mt19937::seed(result_type s) { g_seed = s; g_seeded++; }
#include "util.hpp"
#include <dynamics/attitude/attitude.hpp>
#include <simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.hpp>
#include <simulation/monte_carlo_simulation/monte_carlo_simulation_executor.hpp>
#include <simulation/monte_carlo_simulation/simulation_object.hpp>
#include <math_physics/math/constants.hpp>
using namespace s2e;
using namespace s2e::simulation;
using math::Quaternion;
using math::Vector;
using P = InitializedMonteCarloParameters;
static Vector<3> lo, hi;
static P* make(P::RandomizationType t) {
  P* p = new P;
  p->SetRandomConfiguration(lo, hi, t);
  g_n = 0;
  return p;
}
static double uni(const char* n) { return sym_double(n, 0, 1); }
static double nor(const char* n) { return sym_double(n, -6, 6); }
static void conf(double rlo, double rhi) {
  lo = vu::vec3("mean or min", rlo, rhi);
  hi = vu::vec3("sigma or max", rlo, rhi);
}
CHECK(cartesian) {
  conf(-10, 10);
  bool normal = sym_choose("normal", 0, 1);
  P* p = make(normal ? P::kCartesianNormal : P::kCartesianUniform);
  for (int k = 0; k < 3; k++) g_draw[k] = normal ? nor("z") : uni("u");
  p->Randomize();
  sym_assert(g_n == 3, "one draw per axis");
  Vector<3> v(0.0);
  Vector<2> w(0.0);
  double s = 0;
  p->GetRandomizedVector(v);
  p->GetRandomizedVector(w);
  p->GetRandomizedScalar(s);
  for (int k = 0; k < 3; k++) {
    sym_assert_close(v[k], normal ? lo[k] + g_draw[k] * hi[k] : lo[k] * (1 - g_draw[k]) + hi[k] * g_draw[k], 1e-9, "value in the range or distribution of its axis");
    if (k < 2) sym_assert_close(w[k], v[k], 0, "shorter vector");
  }
  sym_assert_close(s, v[0], 0, "scalar");
  // the values are kept until randomized again
  Vector<3> again(0.0);
  p->GetRandomizedVector(again);
  vu::close_vec(again, v, 0, "kept");
  for (int k = 0; k < 3; k++) g_draw[3 + k] = normal ? nor("z2") : uni("u2");
  p->Randomize();
  p->GetRandomizedVector(again);
  sym_assert_close(again[1], normal ? lo[1] + g_draw[4] * hi[1] : lo[1] * (1 - g_draw[4]) + hi[1] * g_draw[4], 1e-9, "randomized again");
  bool thrown = false;
  Vector<4> longer(0.0);
  try { p->GetRandomizedVector(longer); } catch (const char*) { thrown = true; }
  sym_assert(thrown, "too few values refused");
}
CHECK(circular) {
  conf(-4, 4);
  bool normal = sym_choose("normal", 0, 1);
  P* p = make(normal ? P::kCircularNormalNormal : P::kCircularNormalUniform);
  g_draw[0] = nor("z");
  g_draw[1] = normal ? nor("z") : uni("u");
  p->Randomize();
  double r = lo[0] + g_draw[0] * hi[0], th = normal ? lo[1] + g_draw[1] * hi[1] : lo[1] + g_draw[1] * (hi[1] - lo[1]);
  Vector<2> v(0.0);
  p->GetRandomizedVector(v);
  sym_assert_close(v[0], r * std::cos(th), 1e-6, "radius and angle");
  sym_assert_close(v[1], r * std::sin(th), 1e-6, "radius and angle");
}
CHECK(spherical_uniform) {
  lo[0] = sym_double("r mean", 1, 10); hi[0] = sym_double("r sigma", 0, 0.125);
  lo[1] = sym_double("theta min", 0, 3.140625); hi[1] = sym_double("theta max", 0, 3.140625);
  lo[2] = sym_double("phi min", -4, 4); hi[2] = sym_double("phi max", -4, 4);
  P* p = make(P::kSphericalNormalUniformUniform);
  g_draw[0] = nor("z"); g_draw[1] = uni("u"); g_draw[2] = uni("u2");
  p->Randomize();
  double r = lo[0] + g_draw[0] * hi[0], ph = lo[2] + g_draw[2] * (hi[2] - lo[2]);
  double c = std::cos(lo[1]) * (1 - g_draw[1]) + std::cos(hi[1]) * g_draw[1];
  Vector<3> v(0.0);
  p->GetRandomizedVector(v);
  sym_assert_close(v[2], r * c, 1e-6, "height uniform between the limits: uniform over the zone of the sphere");
  sym_assert_close(v[0] * v[0] + v[1] * v[1] + v[2] * v[2], r * r, 1e-5, "radius");
  sym_assert_close(v[1] * std::cos(ph), v[0] * std::sin(ph), 1e-5, "azimuth");
  sym_assert_le(-1e-6, v[0] * std::cos(ph) + v[1] * std::sin(ph), "azimuth");
}
static Vector<3> spread(P* p, double az, double an, double z) {
  g_n = 0;
  g_draw[0] = az; g_draw[1] = an; g_draw[2] = z;
  p->Randomize();
  Vector<3> v(0.0);
  p->GetRandomizedVector(v);
  return v;
}
CHECK(spherical_normal) {
  double n = sym_double("norm", 1, 10);
  lo = n * vu::unit_vec("mean");
  hi[0] = sym_double("r sigma", 0, 0.125); hi[1] = sym_double("angle sigma", 0, 0.5); hi[2] = 0;
  P* p = make(P::kSphericalNormalNormal);
  double az = uni("azimuth"), an = nor("angle"), z = nor("radius"), r = n + z * hi[0], a = hi[1] * an, t = math::tau * az;
  Vector<3> v0 = spread(p, 0, an, z), v = spread(p, az, an, z), m = (1 / n) * lo, s = OuterProduct(m, v0);
  sym_assert_close(InnerProduct(v, m), r * std::cos(a), 1e-5, "angle from the mean direction");
  sym_assert_close(InnerProduct(v, v), r * r, 1e-4, "radius");
  double q = r * std::sin(a);
  // the azimuth about the mean direction follows its draw
  sym_assert_close(InnerProduct(v, v0) - r * std::cos(a) * r * std::cos(a), q * q * std::cos(t), 1e-4, "azimuth");
  sym_assert_close(InnerProduct(v, s), q * q * std::sin(t), 1e-4, "azimuth");
}
static Vector<3> direction(double u, double w) {
  double c = 1 - 2 * u, ph = math::tau * w, s = std::sqrt(1 - c * c);
  Vector<3> d;
  d[0] = s * std::cos(ph); d[1] = s * std::sin(ph); d[2] = c;
  return d;
}
CHECK(quaternion_normal) {
  hi[0] = sym_double("sigma", 0, 2);
  P* p = make(P::kQuaternionNormal);
  g_draw[0] = uni("u"); g_draw[1] = uni("w"); g_draw[2] = nor("z");
  p->Randomize();
  Quaternion q(0, 0, 0, 1);
  p->GetRandomizedQuaternion(q);
  double h = 0.5 * hi[0] * g_draw[2];
  Vector<3> d = direction(g_draw[0], g_draw[1]);
  for (int k = 0; k < 3; k++) sym_assert_close(q[k], d[k] * std::sin(h), 1e-6, "axis uniform over the sphere");
  sym_assert_close(q[3], std::cos(h), 1e-6, "angle");
}
CHECK(quaternion_uniform) {
  P* p = make(P::kQuaternionUniform);
  g_draw[0] = uni("u"); g_draw[1] = uni("w"); g_draw[2] = uni("t");
  Vector<3> d = direction(g_draw[0], g_draw[1]), x(0.0), y(0.0);
  x[0] = 1; y[1] = 1;
  sym_assume(d[0] > -0.9990234375 && d[0] < 0.9990234375);
  double t = math::tau * g_draw[2];
  Quaternion q, q0;
  p->Randomize();
  p->GetRandomizedQuaternion(q);
  sym_assert_close(q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3], 1, 1e-6, "unit norm");
  Vector<3> v = q.InverseFrameConversion(x);  // of unit length
  sym_assert_close(v[0], d[0], 1e-6, "x axis turned into a direction uniform over the sphere");
  sym_assert_close(v[1] * d[2], v[2] * d[1], 1e-6, "x axis turned into a direction uniform over the sphere");
  sym_assert_le(-1e-6, v[1] * d[1] + v[2] * d[2], "x axis turned into a direction uniform over the sphere");
  // and uniform in the angle about it
  g_n = 0;
  g_draw[2] = 0;
  p->Randomize();
  p->GetRandomizedQuaternion(q0);
  Vector<3> a = q.InverseFrameConversion(y), b = q0.InverseFrameConversion(y);
  sym_assert_close(InnerProduct(a, b), std::cos(t), 1e-5, "angle about the turned axis");
  sym_assert_close(InnerProduct(OuterProduct(b, a), d), std::sin(t), 1e-5, "angle about the turned axis");
}
CHECK(not_randomized) {
  P none;
  lo = hi = Vector<3>(1.0);
  P* p = sym_choose("set", 0, 1) ? make(P::kNoRandomization) : &none;
  if (sym_choose("randomized", 0, 1)) p->Randomize();
  Vector<3> v = vu::vec3("v", -5, 5), w = v;
  double s = v[1];
  Quaternion q = vu::unit_quat("q"), r = q;
  p->GetRandomizedVector(w);
  p->GetRandomizedScalar(s);
  p->GetRandomizedQuaternion(r);
  vu::close_vec(v, w, 0, "destination kept");
  sym_assert_close(s, v[1], 0, "destination kept");
  vu::close_quat(q, r, 1e-12, "destination kept");
  sym_assert(g_n == 0, "nothing drawn");
}
CHECK(bad_configuration) {
  Vector<1> one(1.0);
  P p;
  int t = (int)sym_choose("type", P::kCartesianUniform, P::kQuaternionNormal);
  p.SetRandomConfiguration(one, one, (P::RandomizationType)t);
  bool thrown = false, four = t == P::kQuaternionUniform || t == P::kQuaternionNormal;
  for (int k = 0; k < 8; k++) g_draw[k] = 0.25;
  try { p.Randomize(); } catch (const char*) { thrown = true; }
  sym_assert(thrown == !(t <= P::kCartesianNormal || four), "too few settings refused");
  bool fewer = false;
  Vector<2> v(0.0);
  try { p.GetRandomizedVector(v); } catch (const char*) { fewer = true; }
  sym_assert(fewer == !four, "too few values refused");
  Quaternion q(0, 0, 0, 1);
  fewer = false;
  try { p.GetRandomizedQuaternion(q); } catch (const char*) { fewer = true; }
  sym_assert(fewer == !four, "too few values refused");
}
CHECK(executions) {
  long n = sym_int("number", 0, 1000000000000), done = sym_int("done", 0, 1000000000000);
  MonteCarloSimulationExecutor e(n);
  sym_assert(e.IsEnabled() == (n > 1) && e.GetTotalNumberOfExecutions() == n && e.GetNumberOfExecutionsDone() == 0, "initial state");
  sym_assert(e.GetSaveLogHistoryFlag() == !(n > 1), "history of a single run");
  int on = (int)sym_choose("enable", 0, 2);
  if (on < 2) e.SetEnable(on);
  bool enabled = on < 2 ? on : n > 1;
  int log = (int)sym_choose("log", 0, 1);
  e.SetSaveLogHistoryFlag(log);
  sym_assert(e.GetSaveLogHistoryFlag() == (!enabled || log), "history of a single run or when asked");
  e.number_of_executions_done_ = done;
  sym_assert(e.WillExecuteNextCase() == (enabled ? done < n : done < 1), "executed as often as set");
  e.AtTheBeginningOfEachCase();
  sym_assert((long)e.GetNumberOfExecutionsDone() == done, "not done yet");
  e.AtTheEndOfEachCase();
  sym_assert((long)e.GetNumberOfExecutionsDone() == done + 1, "counted at the end");
}
struct Obj : SimulationObject {
  int n = 0;
  double v = 0;
  Vector<3> w{0.0};
  Quaternion q{0, 0, 0, 1};
  const MonteCarloSimulationExecutor* seen = nullptr;
  Obj(std::string s) : SimulationObject(s) {}
  void SetParameters(const MonteCarloSimulationExecutor& e) override {
    n++;
    seen = &e;
    GetInitializedMonteCarloParameterDouble(e, "a", v);
    GetInitializedMonteCarloParameterVector(e, "b", w);
    GetInitializedMonteCarloParameterQuaternion(e, "c", q);
  }
};
CHECK(objects) {
  MonteCarloSimulationExecutor e(5);
  bool on = sym_choose("enabled", 0, 1);
  e.SetEnable(on);
  conf(-4, 4);
  Vector<3> lo2 = vu::vec3("other", -4, 4);
  e.AddInitializedMonteCarloParameter("one", "a", lo, hi, P::kCartesianUniform);
  e.AddInitializedMonteCarloParameter("one", "b", lo2, hi, P::kCartesianUniform);
  e.AddInitializedMonteCarloParameter("two", "c", lo, hi, P::kQuaternionNormal);
  bool thrown = false;
  try { e.AddInitializedMonteCarloParameter("one", "b", lo, hi, P::kCartesianNormal); } catch (const char*) { thrown = true; }
  sym_assert(thrown, "one definition of each parameter");
  Obj* one = new Obj("one");
  Obj two("two");
  thrown = false;
  try { Obj again("one"); } catch (const char*) { thrown = true; }
  sym_assert(thrown, "one object of each name");
  g_n = 0;
  for (int k = 0; k < 8; k++) g_draw[k] = k % 2 ? 0.25 : 0.5;
  e.RandomizeAllParameters();
  sym_assert(g_n == 9, "all parameters randomized");
  SimulationObject::SetAllParameters(e);
  sym_assert(one->n == 1 && two.n == 1 && one->seen == &e && two.seen == &e, "every object once");
  if (on) {
    sym_assert_close(one->v, (lo[0] + hi[0]) / 2, 1e-9, "value of its own parameter");
    sym_assert_close(one->w[1], lo2[1] + 0.5 * (hi[1] - lo2[1]), 1e-9, "value of its own parameter");
    sym_assert_close(one->w[0], lo2[0] + 0.25 * (hi[0] - lo2[0]), 1e-9, "value of its own parameter");
  } else {
    sym_assert_close(one->v, 0, 0, "untouched");
    for (int k = 0; k < 3; k++) sym_assert_close(one->w[k], 0, 0, "untouched");
  }
  // parameters of other objects do not apply
  vu::close_quat(one->q, Quaternion(0, 0, 0, 1), 0, "not defined for this object");
  sym_assert_close(two.v, 0, 0, "not defined for this object");
  double h = 0.5 * 0.5 * hi[0];
  if (on) sym_assert_close(two.q[3], std::cos(h), 1e-6, "quaternion"); else sym_assert_close(two.q[3], 1, 0, "untouched");
  // objects leave with their destruction, the name can be used again
  delete one;
  SimulationObject::SetAllParameters(e);
  sym_assert(two.n == 2, "remaining object");
  Obj three("one");
  SimulationObject::SetAllParameters(e);
  sym_assert(two.n == 3 && three.n == 1, "new object");
}
CHECK(seeds) {
  unsigned long s = sym_int("seed", 0, 4294967295);
  P first;
  MonteCarloSimulationExecutor::SetSeed(s, true);
  sym_assert(g_seed == s, "seed of the user");
  int n = g_seeded;
  P second;
  sym_assert(g_seeded == n && g_seed == s, "kept by further parameters");
}
struct Att : dynamics::attitude::Attitude {
  Att(const math::Matrix<3, 3>& i) : Attitude(i, "attitude0") {}
  void Propagate(const double) override {}
};
CHECK(attitude) {
  math::Matrix<3, 3> I = math::MakeIdentityMatrix<3>();
  Att a(I);
  a.quaternion_i2b_ = Quaternion(0, 0, 0, 1);
  MonteCarloSimulationExecutor e(5);
  hi[0] = sym_double("sigma", 0, 1);
  e.AddInitializedMonteCarloParameter("attitude0", "quaternion_i2b", lo, hi, P::kQuaternionNormal);
  for (int k = 0; k < 8; k++) g_draw[k] = 0.5;
  e.RandomizeAllParameters();
  SimulationObject::SetAllParameters(e);
  sym_assert_close(a.quaternion_i2b_[3], std::cos(0.25 * hi[0]), 1e-6, "initial attitude randomized");
}
