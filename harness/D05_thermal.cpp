// SRC: src/dynamics/thermal/node.cpp src/dynamics/thermal/heater.cpp src/dynamics/thermal/heater_controller.cpp src/dynamics/thermal/heatload.cpp src/dynamics/thermal/temperature.cpp
// MODE: real
// BOUNDS: every temperature, coupling, capacity, surface property, flux, normal and Sun direction in the boxes; Earth distances of 1.05, 1.2, 1.3 and 2 Earth radii; three nodes; tables of 2 to 4 points over up to 3 periods; up to 3 Runge-Kutta steps
// STUBS: LocalCelestialInformation::GetPositionFromSpacecraft_b_m returns arbitrary vectors (decided in E03)
#include "open.hpp"
#include "util.hpp"
#include <dynamics/thermal/temperature.hpp>
#include <environment/global/physical_constants.hpp>
#include <math_physics/math/constants.hpp>
using namespace s2e;
using namespace s2e::dynamics::thermal;
using math::Vector;
typedef std::vector<double> VD;
static Vector<3> g_sun, g_earth;
namespace s2e::environment {
math::Vector<3> LocalCelestialInformation::GetPositionFromSpacecraft_b_m(const char* n) const { return n[0] == 'S' ? g_sun : g_earth; }
}  // namespace s2e::environment
static const double kSigma = environment::stefan_boltzmann_constant_W_m2K4;
static const double kRe = environment::earth_equatorial_radius_m;
static Vector<3> v3(double a, double b, double c) {
  Vector<3> v;
  v[0] = a;
  v[1] = b;
  v[2] = c;
  return v;
}
static double dot(const Vector<3>& a, const Vector<3>& b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static Node node(int id, NodeType t, double T, double C, double al = 0.5, double ep = 0.5, double A = 0, Vector<3> n = Vector<3>(0.0), int heater = 0) {
  return Node(id, "n", t, heater, T, C, al, ep, A, n);
}
CHECK(sunlight) {
  Vector<3> n = vu::unit_vec("normal"), s = vu::unit_vec("sun");
  double al = sym_double("alpha", -0.5, 1.5), A = sym_double("area", -1, 2), F = sym_double("flux", 0, 1400);
  Node d = node(0, NodeType::kDiffusive, 300, 10, al, 0.5, A, n);
  double p = d.CalcSolarRadiation_W(s, F);
  double a = al < 0 || al > 1 ? 0 : al, m = A < 0 ? 0 : A, c = dot(n, s);
  sym_assert_close(p, c > 0 ? F * m * a * c : 0.0, 1e-7, "absorbed sunlight");
  sym_assert_close(d.GetSolarRadiation_W(), p, 0, "reported sunlight");
}
// view factor of the Earth for a plate (Cunningham): n.e is the cosine between normal and Earth direction
static double view(double c, double H, double d) {
  if (d - kRe >= 1732e3) return c > 0 ? 0.25 / H / H : 0.0;
  if (c >= 1 / H) return c / H / H;
  if (c <= -1 / H) return 0.0;
  double l = std::acos(c), b = std::sqrt(H * H - 1.0);
  return 0.5 - std::asin(b / (H * std::sin(l))) / math::pi + (c * std::acos(-b / std::tan(l)) - b * std::sqrt(1 - (H * c) * (H * c))) / (math::pi * H * H);
}
CHECK(earth_infrared_and_albedo) {
  static const double kH[] = {1.05, 1.2, 1.3, 2};
  double H = kH[sym_choose("distance", 0, 3)], d = H * kRe;
  H = d / kRe;
  double u[2];
  sym_unit("normal", 2, u);
  double c = u[0];
  if (c > 0.9999 || c < -0.9999) sym_end();
  if (c * H > 0.99999 && c * H < 1.00001) sym_end();
  if (c * H < -0.99999 && c * H > -1.00001) sym_end();
  if (c > -1e-6 && c < 1e-6) sym_end();
  double al = sym_double("alpha", 0, 1), ep = sym_double("epsilon", -0.5, 1.5), A = sym_double("area", 0, 2), F = sym_double("flux", 0, 300);
  Node p = node(0, NodeType::kDiffusive, 300, 10, al, ep, A, v3(u[0], u[1], 0));
  Vector<3> e = v3(d, 0, 0);
  double v = view(c, H, d), eps = ep < 0 || ep > 1 ? 0 : ep;
  if (sym_choose("albedo", 0, 1)) {
    // Banister: the cosine between the zenith and the bisector towards the Sun, cubed
    double s[2];
    sym_unit("sun", 2, s);
    double a = p.CalcAlbedoRadiation_W(e, v3(s[0], 0, s[1]), F);
    double n2 = (s[0] - 1) * (s[0] - 1) + s[1] * s[1];
    sym_assume(n2 > 1e-6);
    double g = (1 - s[0]) / std::sqrt(n2);
    double w = g > 0 ? v * g * g * g : 0.0;
    sym_assert_close(a, F * A * al * w, 1e-6, "absorbed albedo");
    sym_assert_close(p.GetAlbedoRadiation_W(), a, 0, "reported albedo");
  } else {
    double a = p.CalcEarthInfraredRadiation_W(e, F);
    sym_assert_close(a, F * A * eps * v, 1e-6, "absorbed infrared");
    sym_assert_close(p.GetEarthInfraredRadiation_W(), a, 0, "reported infrared");
  }
}
// the heater switches on below the lower and off above the upper threshold, and otherwise stays
CHECK(heater_hysteresis) {
  double P = sym_double("power", -5, 50), lo = sym_double("lower", -50, 50), up = sym_double("upper", -50, 50);
  Heater h(sym_choose("id", 0, 1), P);
  sym_assert(h.GetHeaterId() == 1, "ids start at one");
  HeaterController c(lo, up);
  double u = up < lo ? lo + 10 : up, p = P < 0 ? 0 : P;
  bool on = false;
  for (int k = 0; k < 3; k++) {
    double T = sym_double("temperature", -80, 80);
    c.ControlHeater(&h, T);
    on = on ? !(T > u) : T < lo;
    sym_assert((h.GetHeaterStatus() == HeaterStatus::kOn) == on, "heater status");
    sym_assert_close(h.GetPowerOutput_W(), on ? p : 0.0, 0, "heater power");
  }
}
// the internal heat load interpolates its table and repeats with the table's period, for any order of times
CHECK(heat_load_table) {
  static const double kT[4] = {0, 99, 100, 300};
  int n = sym_choose("points", 2, 4);
  VD t, w;
  for (int i = 0; i < n; i++) {
    t.push_back(kT[i]);
    w.push_back(sym_double("load", -10, 50));
  }
  Heatload h(0, t, w);
  for (int k = 0; k < 2; k++) {
    int period = sym_choose("period", 0, 2), seg = sym_choose("segment", 0, n - 2);
    double r = sym_double("time", 0, 1);
    sym_assume(r < 1);
    double x = kT[seg] + r * (kT[seg + 1] - kT[seg]);
    h.SetElapsedTime_s(period * kT[n - 1] + x);
    h.CalcInternalHeatload();
    sym_assert_close(h.GetInternalHeatload_W(), w[seg] + r * (w[seg + 1] - w[seg]), 1e-6, "interpolated load");
  }
  double s = sym_double("solar", 0, 50), a = sym_double("albedo", 0, 50), e = sym_double("infrared", 0, 50), q = sym_double("heater", 0, 50);
  h.SetSolarHeatload_W(s);
  h.SetAlbedoHeatload_W(a);
  h.SetEarthInfraredHeatload_W(e);
  h.SetHeaterHeatload_W(q);
  h.UpdateTotalHeatload();
  sym_assert_close(h.GetTotalHeatload_W(), s + a + e + q + h.GetInternalHeatload_W(), 1e-9, "total load");
}
struct World {
  Raw<environment::SolarRadiationPressureEnvironment> srp;
  Raw<environment::EarthAlbedo> alb;
  Raw<environment::EarthInfrared> ir;
  Raw<environment::LocalCelestialInformation> lc;
  std::vector<Node> nodes;
  std::vector<Heatload> loads;
  std::vector<Heater> heaters;
  std::vector<HeaterController> ctl;
  std::vector<VD> G{3, VD(3, 0.0)}, R{3, VD(3, 0.0)};
  World() {
    g_sun = v3(0, 2, 0);
    g_earth = v3(2 * kRe, 0, 0);
    srp->shadow_coefficient_ = 1.0;
  }
  Temperature* make(double step, bool enabled = true, bool solar = true) {
    return new Temperature(G, R, nodes, loads, heaters, ctl, 3, step, srp.get(), alb.get(), ir.get(), enabled, solar ? SolarCalcSetting::kEnable : SolarCalcSetting::kDisable, false);
  }
};
static Heatload load(double a, double b, double T = 100) { return Heatload(0, VD{0, T}, VD{a, b}); }
// heat balance of every node
CHECK(heat_balance) {
  World w;
  double T[3], C[2], q[3];
  for (int i = 0; i < 3; i++) {
    T[i] = sym_double("temperature", 100, 400);
    q[i] = sym_double("load", -10, 10);
    for (int j = 0; j < 3; j++) {
      w.G[i][j] = sym_double("conductance", 0, 1);
      w.R[i][j] = sym_double("radiation", 0, 1);
    }
  }
  for (int i = 0; i < 2; i++) C[i] = sym_double("capacity", 10, 1000);
  bool solar = sym_choose("solar", 0, 1), heat = sym_choose("heater on", 0, 1);
  double P = sym_double("heater", 0, 50);
  for (int i = 0; i < 3; i++) {
    // node 1 has the heater and faces Sun and Earth; node 2 is the boundary
    Vector<3> n = i == 1 ? v3(0.6, 0.8, 0) : v3(0, 0, 1);
    w.nodes.push_back(node(i, i == 2 ? NodeType::kBoundary : NodeType::kDiffusive, 300, i == 2 ? 0 : C[i], 0.25, 0.5, 2, n, i == 1));
    w.loads.push_back(load(q[i], q[i]));
  }
  w.heaters.push_back(Heater(1, P));
  w.ctl.push_back(HeaterController(0, 10));
  w.heaters[0].SetHeaterStatus(heat ? HeaterStatus::kOn : HeaterStatus::kOff);
  double F = sym_double("solar flux", 0, 1400), E = sym_double("infrared", 0, 300), B = sym_double("albedo", 0, 300), sh = sym_double("shadow", 0, 1);
  w.srp->solar_radiation_pressure_N_m2_ = F / environment::speed_of_light_m_s;
  w.srp->shadow_coefficient_ = sh;
  w.ir->earth_infrared_W_m2_ = E;
  w.alb->earth_albedo_W_m2_ = B;
  Temperature* t = w.make(1.0, true, solar);
  VD d = t->CalcTemperatureDifferentials(VD(T, T + 3), 0.0, w.lc.get(), 3);
  double g = 1 / std::sqrt(2.0);
  for (int i = 0; i < 3; i++) {
    double h = q[i];
    for (int j = 0; j < 3; j++) h += w.G[i][j] * (T[j] - T[i]) + kSigma * w.R[i][j] * (T[j] * T[j] * T[j] * T[j] - T[i] * T[i] * T[i] * T[i]);
    if (i == 1) {
      if (heat) h += P;
      h += E * 2 * 0.5 * (0.25 / 4);
      if (solar) h += F * sh * 2 * 0.25 * 0.8 + B * 2 * 0.25 * (0.25 / 4) * g * g * g;
    }
    if (i < 2) sym_assert_close(d[i] * C[i], h, 1e-5, "heat balance");
    else sym_assert_close(d[i], 0.0, 0, "boundary temperature");
  }
  sym_assert_close(t->GetHeaterPower_W(1), heat ? P : 0.0, 0, "heater power of its node");
  sym_assert_close(t->GetHeaterPower_W(0), 0.0, 0, "no heater, no power");
}
// Runge-Kutta over the interval with conduction and a ramping load; heaters are controlled by the new temperature
CHECK(propagation) {
  World w;
  double T[3], G[3][3], C[2] = {2, 4}, q0 = sym_double("load", -8, 8), q1 = sym_double("final load", -8, 8);
  for (int i = 0; i < 3; i++) {
    T[i] = sym_double("temperature", 250, 300);
    for (int j = 0; j < 3; j++) w.G[i][j] = G[i][j] = i == j ? 0 : 0.25 * (1 + i + 2 * j);
    w.nodes.push_back(node(i, i == 2 ? NodeType::kBoundary : NodeType::kDiffusive, T[i], i == 2 ? 0 : C[i], 0.5, 0.5, 0, v3(0, 0, 1), i == 1));
    w.loads.push_back(i == 0 ? load(q0, q1, 8) : load(0, 0, 8));
  }
  w.heaters.push_back(Heater(1, 16));
  w.ctl.push_back(HeaterController(-5, 5));
  bool enabled = sym_choose("enabled", 0, 3) > 0;
  double step = 0.1875;
  Temperature* t = w.make(step, enabled, false);
  double t1 = sym_choose("full steps", 0, 1) * step + (sym_choose("odd", 0, 1) ? 0.09375 : step), t2 = t1 + 0.09375;
  bool on = false;
  for (int k = 0; k < 2; k++) {
    double end = k ? t2 : t1, now = k ? t1 : 0.0;
    while (enabled && now < end) {
      double h = end - now > step + 1e-6 ? step : end - now, K[4][2], x[3] = {T[0], T[1], T[2]};
      for (int s = 0; s < 4; s++) {
        double a = s == 0 ? 0 : s < 3 ? h / 2 : h;
        for (int i = 0; i < 2; i++) x[i] = T[i] + (s ? a * K[s - 1][i] : 0.0);
        for (int i = 0; i < 2; i++) {
          K[s][i] = i == 0 ? q0 + (now + a) / 8 * (q1 - q0) : on ? 16.0 : 0.0;
          for (int j = 0; j < 3; j++) K[s][i] += G[i][j] * (x[j] - x[i]);
          K[s][i] /= C[i];
        }
      }
      for (int i = 0; i < 2; i++) T[i] += h / 6 * (K[0][i] + 2 * K[1][i] + 2 * K[2][i] + K[3][i]);
      now += h;
    }
    t->Propagate(w.lc.get(), end);
    std::vector<Node> n = t->GetNodes();
    for (int i = 0; i < 3; i++) sym_assert_close(n[i].GetTemperature_K(), T[i], 1e-6, "temperature at the end of the interval");
    if (!enabled) continue;
    double c = n[1].GetTemperature_K() - 273.15;
    on = on ? !(c > 5) : c < -5;
    sym_assert((t->heaters_[0].GetHeaterStatus() == HeaterStatus::kOn) == on, "heater control");
  }
}
