// SRC: src/components/base/component.cpp src/environment/global/clock_generator.cpp src/components/ports/power_port.cpp
// MODE: bits
// BOUNDS: prescalers 0..3 (symbolic up to 2^31 for a single tick), 6 ticks (thorough: 9), every power on/off sequence, registration, copying and removal of up to 3 components
#include "open.hpp"
#include <components/base/component.hpp>
#include <environment/global/clock_generator.hpp>
#include <environment/global/simulation_time.hpp>
using namespace s2e;
using components::Component;
using components::PowerPort;
using environment::ClockGenerator;
struct Probe : public Component {
  int main = 0, fast = 0, off = 0;
  long last_main = -1;
  Probe(unsigned p, ClockGenerator* g, unsigned f = 1) : Component(p, g, f) {}
  Probe(unsigned p, ClockGenerator* g, PowerPort* pp, unsigned f = 1) : Component(p, g, pp, f) {}
  Probe(const Probe& o) : Component(o) {}
  void MainRoutine(const int t) { main++; last_main = t; }
  void FastUpdate() { fast++; }
  void PowerOffRoutine() { off++; }
};
CHECK(single_tick) {
  ClockGenerator g;
  PowerPort pp(0, 1.0);
  unsigned p = (unsigned)sym_int("prescaler", 0, 0x7fffffff), f = (unsigned)sym_int("fast_prescaler", 0, 0x7fffffff), t = (unsigned)sym_int("count", 0, 0x7fffffff);
  Probe c(p, &g, &pp, f);
  bool on = sym_choose("on", 0, 1) != 0;
  pp.SetVoltage_V(on ? 5.0 : 0.0);
  unsigned pe = p ? p : 1, fe = f ? f : 1;
  c.Tick(t);
  bool due = t % pe == 0;
  sym_assert(c.main == (due && on) && c.off == (due && !on) && c.fast == 0, "a tick runs the routine of the power state exactly when due");
  if (due && on) sym_assert(c.last_main == (long)t, "the routine gets the count");
  int off0 = c.off;
  c.FastTick(t);
  bool fdue = t % fe == 0;
  sym_assert(c.fast == (fdue && on) && c.off - off0 == (fdue && !on) && c.main == (due && on), "a fast tick runs the fast routine exactly when due");
}
static void run(int steps) {
  ClockGenerator g;
  g.ClearTimerCount();
  PowerPort pa(0, 1.0), pb(1, 1.0);
  unsigned p1 = (unsigned)sym_choose("p1", 0, 3), f1 = (unsigned)sym_choose("f1", 1, 2), p2 = (unsigned)sym_choose("p2", 1, 2);
  Probe a(p1, &g, &pa, f1), b(p2, &g, &pb);
  Probe d(2, &g);
  bool fast = sym_choose("needs_fast", 0, 1) != 0;
  sym_assert(!a.GetNeedsFastUpdate(), "no fast update unless requested");
  a.SetNeedsFastUpdate(fast);
  pb.SetVoltage_V(5.0);
  bool on = false;
  int ma = 0, fa = 0, oa = 0, mb = 0, md = 0;
  unsigned q1 = p1 ? p1 : 1;
  for (int t = 0; t < steps; t++) {
    if (t % 2 == 0) { on = sym_choose("on", 0, 1) != 0; pa.SetVoltage_V(on ? 5.0 : 0.0); }
    g.TickToComponents();
    if (t % q1 == 0) { if (on) ma++; else oa++; }
    if (fast && t % f1 == 0) { if (on) fa++; else oa++; }
    if (t % p2 == 0) mb++;
    if (t % 2 == 0) md++;
    sym_assert(a.main == ma && a.fast == fa && a.off == oa, "component runs at its own rate and power state");
    sym_assert(b.main == mb && b.off == 0 && b.fast == 0, "other component is independent of it");
    sym_assert(d.main == md, "component without a power port is always on");
  }
}
CHECK(schedule) { run(6); }
THOROUGH(schedule_t) { run(9); }
// registration follows the life of the components
CHECK(registration) {
  ClockGenerator g;
  g.ClearTimerCount();
  PowerPort pp(0, 1.0);
  pp.SetVoltage_V(5.0);
  Probe a(1, &g, &pp);
  int n_a = 0;
  {
    Probe b(1, &g, &pp);
    Probe c(a);
    g.TickToComponents(); n_a++;
    sym_assert(a.main == 1 && b.main == 1 && c.main == 1, "original, second and copied components are ticked once");
    int k = (int)sym_choose("removed", 0, 3);
    if (k == 1) g.RemoveComponent(&a);
    if (k == 2) g.RemoveComponent(&b);
    if (k == 3) g.RemoveComponent(&c);
    g.TickToComponents();
    sym_assert(a.main == 1 + (k != 1) && b.main == 1 + (k != 2) && c.main == 1 + (k != 3), "exactly the removed component is no longer ticked");
    if (k != 1) n_a++;
  }
  g.TickToComponents();
  sym_assert(a.main == n_a + (n_a == 2), "remaining component goes on");
}
// a copy (every Init function returns one) runs at the rates and with the power of its original
CHECK(copy_rates) {
  ClockGenerator g;
  g.ClearTimerCount();
  PowerPort pp(0, 1.0);
  unsigned p = (unsigned)sym_int("prescaler", 0, 0x7fffffff), f = (unsigned)sym_int("fast_prescaler", 0, 0x7fffffff), t = (unsigned)sym_int("count", 0, 0x7fffffff);
  Probe* o = sym_choose("power_port", 0, 1) ? new Probe(p, &g, &pp, f) : new Probe(p, &g, f);
  bool own = o->power_port_ == &pp;
  bool fast = sym_choose("needs_fast", 0, 1) != 0;
  if (fast) o->SetNeedsFastUpdate(true);
  Probe c(*o);
  delete o;
  bool on = own ? sym_choose("on", 0, 1) != 0 : true;
  if (own) pp.SetVoltage_V(on ? 5.0 : 0.0);
  unsigned pe = p ? p : 1, fe = f ? f : 1;
  sym_assert(c.GetNeedsFastUpdate() == fast, "a copy asks for fast updates like its original");
  g.timer_count_ = t;
  g.TickToComponents();
  bool due = t % pe == 0, fdue = fast && t % fe == 0;
  sym_assert(c.main == (due && on) && c.fast == (fdue && on) && c.off == (due && !on) + (fdue && !on), "a copy runs at the rates and with the power of its original");
  if (due && on) sym_assert(c.last_main == (long)t, "the routine gets the count");
}
CHECK(update_flag) {
  ClockGenerator g;
  g.ClearTimerCount();
  Probe a(1, &g);
  Raw<environment::SimulationTime> st;
  int n = 0;
  for (int i = 0; i < 4; i++) {
    bool due = sym_choose("component_update", 0, 1) != 0;
    st->component_update_flag_ = due;
    g.UpdateComponents(st.get());
    if (due) { n++; sym_assert(a.last_main == n - 1, "counts increase by one per update"); }
    sym_assert(a.main == n, "components run exactly at component updates");
  }
}
