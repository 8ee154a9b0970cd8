// SRC: src/components/real/power/battery.cpp src/components/real/power/pcu_initial_study.cpp src/components/real/power/solar_array_panel.cpp src/components/real/power/csv_scenario_interface.cpp src/components/real/power/power_control_unit.cpp src/components/base/component.cpp src/components/ports/power_port.cpp
// MODE: real
// OPT: real_ints=16
// BOUNDS: any cell capacity, discharge polynomial of degree 3, currents, charging limits, resistance, generation, Sun direction, panel normal and efficiencies in the boxes; up to 3 panels, histories of up to 4 steps; scenario tables of 4 lines
// STUBS: LocalCelestialInformation::GetPositionFromSpacecraft_b_m returns arbitrary vectors; CSV scenario tables are set directly
#include "open.hpp"
#include <components/real/power/battery.hpp>
#include <components/real/power/csv_scenario_interface.hpp>
#include <components/real/power/pcu_initial_study.hpp>
#include <components/real/power/power_control_unit.hpp>
#include <components/real/power/solar_array_panel.hpp>
#include <environment/global/physical_constants.hpp>
using namespace s2e;
using namespace s2e::components;
using math::Vector;
static Vector<3> g_sun{0.0};
namespace s2e::environment {
math::Vector<3> LocalCelestialInformation::GetPositionFromSpacecraft_b_m(const char* body) const {
  sym_assert(std::string(body) == "SUN", "asks for the Sun");
  return g_sun;
}
}  // namespace s2e::environment
struct BatPar { int ns = 2, np = 2; double cap = 3, dod = 20, cc = 0.5, cv = 8.4, r = 0.1, step = 0.5; std::vector<double> c{4.1, -0.3, 0.02, -0.001}; };
static Battery* battery(environment::ClockGenerator* g, const BatPar& p, int prescaler = 1) {
  return new Battery(prescaler, g, p.ns, p.np, p.cap, p.c, p.dod, p.cc, p.cv, p.r, p.step);
}
static double volt(const BatPar& p, double dod) {
  double x = dod / 100.0 * p.cap, v = 0, e = 1;
  for (double c : p.c) { v += c * e; e *= x; }
  return v * p.ns;
}
// depth of discharge integrates the charge current over the pack capacity; the voltage follows the discharge curve
CHECK(battery_charge) {
  environment::ClockGenerator g;
  g.ClearTimerCount();
  BatPar p;
  int pre = (int)sym_choose("prescaler", 1, 3);
  p.ns = (int)sym_choose("series", 1, 3);
  p.np = (int)sym_choose("parallel", 1, 3);
  p.cap = sym_double("capacity", 0.5, 10);
  p.dod = sym_double("dod", 0, 100);
  p.step = sym_double("step", 0.01, 2);
  for (auto& c : p.c) c = sym_double("coefficient", -5, 5);
  Battery* b = battery(&g, p, pre);
  sym_assert_close(b->GetVoltage_V(), volt(p, p.dod), 1e-9, "voltage of the initial depth of discharge");
  double dod = p.dod;
  for (int k = 0; k < 2; k++) {
    double i = sym_double("current", -10, 10);
    b->SetChargeCurrent(i);
    for (int j = 0; j < pre; j++) g.TickToComponents();
    dod -= i * (p.step * pre) / 3600.0 / (p.cap * p.np) * 100.0;
    sym_assert_close(b->depth_of_discharge_percent_, dod, 1e-9, "depth of discharge integrates the current");
    sym_assert_close(b->GetVoltage_V(), volt(p, dod), 1e-6, "voltage from the discharge curve");
  }
  sym_assert_close(b->GetCcChargeCurrent_C(), p.cc * p.cap * p.np, 1e-9, "constant charge current of the pack");
}
CHECK(battery_starts_idle) {
  environment::ClockGenerator g;
  g.ClearTimerCount();
  BatPar p;
  p.dod = sym_double("dod", 0, 100);
  Battery* b = battery(&g, p);
  g.TickToComponents();
  sym_assert_close(b->depth_of_discharge_percent_, p.dod, 1e-9, "no charge moves before a current is set");
  Battery c(*b);
  sym_assert_close(c.GetVoltage_V(), volt(p, p.dod), 1e-9, "a copy has the same voltage");
}
// charge control: natural current by power balance, limited by constant current and constant voltage
CHECK(charge_control) {
  environment::ClockGenerator g;
  g.ClearTimerCount();
  BatPar p;
  p.c = {sym_double("cell_voltage", 2.5, 4.2)};
  p.r = sym_double("resistance", 0.01, 1);
  p.cc = sym_double("c_rate", 0.1, 1);
  p.cv = sym_double("cv_voltage", 5, 9);
  Battery* b = battery(&g, p);
  double V = b->GetVoltage_V(), cc = b->GetCcChargeCurrent_C();
  Raw<SolarArrayPanel> s[3];
  std::vector<SolarArrayPanel*> saps;
  int n = (int)sym_choose("panels", 1, 3);
  double gen = 0;
  for (int i = 0; i < n; i++) {
    s[i]->power_generation_W_ = sym_double("generation", 0, 60);
    gen += s[i]->power_generation_W_;
    saps.push_back(s[i].get());
  }
  CsvScenarioInterface::is_csv_scenario_enabled_ = false;
  PcuInitialStudy* pcu = new PcuInitialStudy(1, &g, saps, b, 0.5);
  static_cast<Component*>(pcu)->MainRoutine(0);
  double I = b->charge_current_A_, bus = pcu->bus_voltage_V_, load = pcu->power_consumption_W_;
  sym_assert_close(load, 5.0, 1e-12, "default load");
  sym_assert_close(bus, V + p.r * I, 1e-6, "bus voltage is battery voltage plus resistive drop");
  sym_assert(I <= cc + 1e-6 || I <= (p.cv - V) / p.r + 1e-6, "current within a charging limit");
  sym_assert(bus <= p.cv + 1e-6 , "bus voltage never above the constant voltage");
  sym_assert(I <= cc + 1e-6, "current never above the constant current");
  double left = gen - load - I * bus, disc = V * V + 4 * p.r * (gen - load);
  if (disc >= 0) {
    sym_assert(left >= -1e-5, "no more power is stored than is left over");
    if (I < cc - 1e-3 && bus < p.cv - 1e-3) sym_assert(left <= 1e-5, "below the limits generation is balanced exactly");
  }
  for (int i = 0; i < n; i++) sym_assert(s[i]->voltage_V_ == 16.0, "panel voltage held");
}
// load beyond the battery capability discharges it
CHECK(overload) {
  environment::ClockGenerator g;
  g.ClearTimerCount();
  BatPar p;
  p.c = {3.0};
  p.r = sym_double("resistance", 2, 5);
  Battery* b = battery(&g, p);
  Raw<SolarArrayPanel> s;
  CsvScenarioInterface::is_csv_scenario_enabled_ = false;
  PcuInitialStudy* pcu = new PcuInitialStudy(1, &g, {s.get()}, b, 0.5);
  static_cast<Component*>(pcu)->MainRoutine(0);
  sym_assert_close(b->charge_current_A_, -6.0 / (2 * p.r), 1e-6, "an overloaded battery delivers its maximum power");
}
// generated power: efficiency, shadow, area and cosine; none from behind
CHECK(solar_power) {
  environment::ClockGenerator g;
  g.ClearTimerCount();
  Raw<environment::SolarRadiationPressureEnvironment> e;
  Raw<environment::LocalCelestialInformation> lc;
  CsvScenarioInterface::is_csv_scenario_enabled_ = false;
  e->solar_constant_W_m2_ = 1366.0;
  e->solar_radiation_pressure_N_m2_ = sym_double("power_density", 600, 3000) / environment::speed_of_light_m_s;
  e->shadow_coefficient_ = sym_double("shadow", 0, 1);
  Vector<3> nrm = vu::unit_vec("normal"), u = vu::unit_vec("sun");
  bool front = sym_choose("geometry", 0, 1);
  double c = nrm[0] * u[0] + nrm[1] * u[1] + nrm[2] * u[2];
  double len = sym_double("length", 0.5, 2), r = 1.4e11, area = 0.25, ec = 0.5, et = 0.75;
  if (front) {
    sym_assume(c > 1e-3);
    r = sym_double("distance", 1e10, 1e12), area = sym_double("area", 1e-4, 1), ec = sym_double("cell_efficiency", 0.1, 1), et = sym_double("transmission_efficiency", 0.1, 1);
  } else {
    e->solar_radiation_pressure_N_m2_ = 0x1p-18;
    e->shadow_coefficient_ = 1.0;
  }
  int ns = (int)sym_choose("series", 1, 2), np = (int)sym_choose("parallel", 1, 3);
  SolarArrayPanel* s;
  if (sym_choose("constructor", 0, 1)) s = new SolarArrayPanel(1, &g, 0, ns, np, area, len * nrm, ec, et, e.get(), lc.get(), 0.5);
  else s = new SolarArrayPanel(&g, 0, ns, np, area, len * nrm, ec, et, e.get(), lc.get());
  g_sun = r * u;
  sym_assert(s->GetPowerGeneration_W() == 0, "no power before the first step");
  for (int k = 0; k < 10; k++) g.TickToComponents();
  double pw = ec * et * (e->solar_radiation_pressure_N_m2_ * environment::speed_of_light_m_s) * e->shadow_coefficient_ * area * ns * np * c;
  double got = s->GetPowerGeneration_W();
  sym_assert(got >= 0, "generated power is never negative");
  if (got > 0) sym_assert_close(got, pw, 1e-6, "power is efficiency times density times area times cosine");
  else sym_assert_le(pw, 1e-9, "a lit panel facing the Sun generates power");
}
static const char* K[5] = {"sun_dir_b_x", "sun_dir_b_y", "sun_dir_b_z", "sun_flag", "power_consumption"};
// scenario tables hold each value from its time on until the next line
CHECK(csv_scenario) {
  double t[4], v[5][4];
  t[0] = sym_double("t0", 0, 10);
  for (int i = 1; i < 4; i++) t[i] = t[i - 1] + sym_double("dt", 0.1, 10);
  for (int k = 0; k < 5; k++) {
    DoubleBuffer b;
    for (int i = 0; i < 4; i++) b[t[i]] = v[k][i] = k == 3 ? (double)(i % 2) : sym_double("value", -10, 10);
    CsvScenarioInterface::buffers_[K[k]] = b;
  }
  double q = sym_double("query", 0, 60);
  int i = -1;
  for (int j = 0; j < 4; j++) if (q >= t[j]) i = j;
  sym_assert(CsvScenarioInterface::GetPowerConsumption(q) == (i < 0 ? 0.0 : v[4][i]), "value of the last line at or before the time, zero before the first");
  sym_assert(CsvScenarioInterface::GetSunFlag(q) == (i < 0 ? false : v[3][i] != 0), "Sun flag of the last line");
  Vector<3> s = CsvScenarioInterface::GetSunDirectionBody(q);
  for (int k = 0; k < 3; k++) sym_assert(s[k] == (i < 0 ? 0.0 : v[k][i]), "Sun direction of the last line");
}
// power control unit: each port is connected once and forgotten when closed
static PowerPort* port(PowerControlUnit& u, int id) {
  auto it = u.power_ports_.find(id);
  return it == u.power_ports_.end() ? nullptr : it->second;
}
CHECK(power_ports) {
  environment::ClockGenerator g;
  g.ClearTimerCount();
  PowerControlUnit u(&g);
  bool on[2] = {false, false};
  double lim[2], vmin[2], load[2];
  for (int k = 0; k < 4; k++) {
    int id = (int)sym_choose("port", 0, 1), op = (int)sym_choose("operation", 0, 2);
    double a = sym_double("limit", 0.1, 5), b = sym_double("minimum_voltage", 1, 5), c = sym_double("load", 0, 5);
    int r = op == 0 ? u.ClosePort(id) : op == 1 ? u.ConnectPort(id, a) : u.ConnectPort(id, a, b, c);
    sym_assert(r == ((op == 0) == on[id] ? 0 : -1), "a port is connected once and closed once");
    if (r == 0 && op) {
      lim[id] = a;
      vmin[id] = op == 1 ? 3.3 : b;
      load[id] = op == 1 ? 0.0 : c;
    }
    if (r == 0) on[id] = op != 0;
    for (int i = 0; i < 2; i++) {
      PowerPort* p = port(u, i);
      sym_assert((p != nullptr) == on[i], "connected ports exist");
      if (!on[i]) continue;
      sym_assert(u.GetPowerPort(i) == p && p->current_limit_A_ == lim[i] && p->minimum_voltage_V_ == vmin[i] && p->assumed_power_consumption_W_ == load[i], "port keeps the parameters it was connected with");
      sym_assert(!p->is_on_ && p->voltage_V_ == 0, "a connected port is unpowered until a voltage is set");
    }
  }
}
