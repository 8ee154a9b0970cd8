// SRC: src/components/ports/power_port.cpp
// MODE: real
// BOUNDS: voltage (zero only without consumption), minimum voltage in [0,50] V (off the 1e-12 switching margin), consumption in [0,200] W, limit in [1e-3,20] A; histories of 3 voltage changes
#include "util.hpp"
#include <components/ports/power_port.hpp>
using s2e::components::PowerPort;
static double away(const char* n, double lo, double hi, double th) {
  double v = sym_double(n, lo, hi);
  sym_assume(v >= th || v <= th - 1e-12);
  return v;
}
CHECK(before_any_voltage) {
  PowerPort d;
  sym_assert(d.GetIsOn() && d.GetVoltage_V() == 0.0 && d.GetCurrentConsumption_A() == 0.0, "a default port is on so that components without power settings work");
  PowerPort a(1, sym_double("limit", 0.1, 10)), b(2, sym_double("limit2", 0.1, 10), sym_double("vmin", 0.1, 10), sym_double("power", 0, 10));
  sym_assert(!a.GetIsOn() && !b.GetIsOn() && a.GetCurrentConsumption_A() == 0.0 && b.GetCurrentConsumption_A() == 0.0, "a connected port without voltage is off and draws nothing");
}
static void history(int steps) {
  double limit = sym_double("limit", 1e-3, 20), vmin = sym_double("vmin", 0, 50), power = sym_double("power", 0, 200);
  PowerPort p(1, limit, vmin, power);
  for (int i = 0; i < steps; i++) {
    double v = away("voltage", 0, 50, vmin);
    bool want = v >= vmin;
    // current the load would draw against the limit, kept away from the exact limit; a load on zero volts is over current
    if (v > 0.0) sym_assume(power >= limit * v || power <= (limit - 1e-12) * v);
    bool over = want && power > 0.0 && (v <= 0.0 || power >= limit * v);
    bool on = p.SetVoltage_V(v);
    sym_assert(on == (want && !over), "on exactly when the voltage suffices and the current stays below the limit");
    sym_assert(p.GetIsOn() == on, "state query");
    if (on) {
      if (v > 0.0) sym_assert_close(p.GetCurrentConsumption_A() * v, power, 1e-9, "current is power over voltage");
      else sym_assert(p.GetCurrentConsumption_A() == 0.0, "no current at zero voltage");
      sym_assert_close(p.GetVoltage_V(), v, 1e-12, "voltage is kept");
    } else {
      sym_assert(p.GetCurrentConsumption_A() == 0.0, "an off port draws nothing");
      if (over) {
        sym_assert(p.GetVoltage_V() == 0.0, "over current cuts the supply");
        if (vmin >= 1e-9) sym_assert(!p.Update(), "and stays off until a voltage is set again");
      } else sym_assert_close(p.GetVoltage_V(), v, 1e-12, "insufficient voltage is reported as it is");
    }
  }
}
CHECK(one_step) { history(1); }
CHECK(two_steps) { history(2); }
THOROUGH(four_steps) { history(4); }
// changing the consumption takes effect at the next update
CHECK(consumption_changes) {
  double limit = sym_double("limit", 1, 20), v = sym_double("voltage", 1, 50), p0 = sym_double("p0", 0, 10), add = sym_double("add", 0, 10), sub = sym_double("sub", 0, 30), set = sym_double("set", 0, 10);
  PowerPort p(1, limit);
  p.SetMinimumVoltage_V(0.5);
  p.SetAssumedPowerConsumption_W(p0);
  sym_assume(p0 <= (limit - 0.01) * v);
  p.SetVoltage_V(v);
  double i0 = p.GetCurrentConsumption_A();
  p.AddAssumedPowerConsumption_W(add);
  sym_assert(p.GetCurrentConsumption_A() == i0, "current is refreshed by the update");
  sym_assert_close(p.GetAssumedPowerConsumption_W(), p0 + add, 1e-12, "consumption is added");
  p.SubtractAssumedPowerConsumption_W(sub);
  double e = p0 + add - sub;
  sym_assert_close(p.GetAssumedPowerConsumption_W(), e > 0 ? e : 0, 1e-12, "consumption is subtracted and never negative");
  double lim2 = sym_double("limit2", 0.1, 20);
  p.SetCurrentLimit_A(lim2);
  p.SetAssumedPowerConsumption_W(set);
  sym_assume(set >= lim2 * v || set <= (lim2 - 1e-9) * v);
  bool on = p.Update();
  sym_assert(on == (set < lim2 * v), "new consumption and limit decide the switch");
  if (on) sym_assert_close(p.GetCurrentConsumption_A() * v, set, 1e-9, "new current");
}
