// SRC: src/components/real/propulsion/simple_thruster.cpp src/components/base/component.cpp src/components/ports/power_port.cpp
// MODE: real
// BOUNDS: any thrust direction, position, centre of gravity, maximum thrust, duty history, noise draw and random angle in the boxes; dead times of 0..3 steps over up to 6 steps
// OVERRIDE: normal random numbers are arbitrary values
// STUBS: rand() gives arbitrary values; std::random_device gives a fixed value
#include "open.hpp"
#include "noise.hpp"
#include <components/real/propulsion/simple_thruster.hpp>
#include <cstdlib>
using namespace s2e;
using namespace s2e::components;
using math::Vector;
static int g_rand[8], g_rands = 0;
extern "C" int vu_rand() __asm__("rand");
extern "C" int vu_rand() { return g_rand[g_rands++]; }
static const double H = 0.25;
struct Par {
  Vector<3> pos{0.0}, dir{0.0};
  double mx = 2.0, ms = 0, ds = 0, dead = 0, tau = 0;
  Par() { dir[2] = 1.0; }
};
struct World {
  environment::ClockGenerator g;
  Raw<dynamics::Dynamics> d;
  Raw<spacecraft::Structure> st;
  Raw<spacecraft::KinematicsParameters> kin;
  SimpleThruster* t;
  World(const Par& p, PowerPort* pp = nullptr) {
    g.ClearTimerCount();
    st->kinematics_parameters_ = kin.get();
    if (pp) t = new SimpleThruster(1, &g, pp, 1, p.pos, p.dir, p.mx, p.ms, p.ds, p.dead, p.tau, H, st.get(), d.get());
    else t = new SimpleThruster(1, &g, 1, p.pos, p.dir, p.mx, p.ms, p.ds, p.dead, p.tau, H, st.get(), d.get());
  }
};
static Vector<3> crossv(const Vector<3>& a, const Vector<3>& b) {
  Vector<3> r;
  for (int i = 0; i < 3; i++) r[i] = a[(i + 1) % 3] * b[(i + 2) % 3] - a[(i + 2) % 3] * b[(i + 1) % 3];
  return r;
}
static double dot(const Vector<3>& a, const Vector<3>& b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
// thrust along the (normalised) direction, torque about the present centre of gravity
CHECK(thrust_and_torque) {
  Par p;
  Vector<3> u = vu::unit_vec("direction");
  double len = sym_double("length", 0.1, 10);
  p.dir = len * u;
  p.pos = vu::vec3("position", -2, 2);
  p.mx = sym_double("max_thrust", 0.01, 20);
  World w(p);
  double duty = sym_double("duty", 0, 1);
  w.t->SetDuty(duty);
  w.g.TickToComponents();
  for (int k = 0; k < 2; k++) {
    w.kin->center_of_gravity_b_m_ = vu::vec3("cg", -1, 1);
    w.g.TickToComponents();
    Vector<3> f = (duty * p.mx) * u;
    vu::close_vec(w.t->GetOutputThrust_b_N(), f, 1e-9, "thrust is duty times maximum along the thrust direction");
    vu::close_vec(w.t->GetOutputTorque_b_Nm(), crossv(p.pos - w.kin->center_of_gravity_b_m_, f), 1e-9, "torque is lever arm cross thrust");
  }
}
// commands act after the dead time through the first-order lag
CHECK(delay) {
  Par p;
  int steps = (int)sym_choose("dead_steps", 0, 3);
  p.dead = steps * H + 0.5 * H * sym_choose("fraction", 0, 1);
  p.tau = sym_double("time_constant", 0, 2);
  World w(p);
  double c[6], lag = 0;
  for (int k = 0; k < 6; k++) {
    c[k] = sym_double("duty", 0, 1);
    w.t->SetDuty(c[k]);
    w.g.TickToComponents();
    double in = k >= steps + 1 ? c[k - steps - 1] : 0.0;
    lag = (p.tau * lag + H * in) / (p.tau + H);
    sym_assert_close(w.t->GetOutputThrust_b_N()[2], lag * p.mx, 1e-9, "commands act after the dead time through a first-order lag");
    sym_assert(w.t->GetOutputThrust_b_N()[2] <= p.mx + 1e-9 && w.t->GetOutputThrust_b_N()[2] >= -1e-9, "thrust between zero and the maximum");
  }
}
// magnitude noise only while commanded; no thrust at all without a command
CHECK(magnitude_noise) {
  Par p;
  p.ms = sym_double("sigma", 0.001, 0.5);
  World w(p);
  w.g.TickToComponents();
  w.g.TickToComponents();
  sym_assert(w.t->GetOutputThrust_b_N()[2] == 0, "no thrust without a command");
  double duty = sym_double("duty", 0.01, 1);
  w.t->SetDuty(duty);
  w.g.TickToComponents();
  int d0 = g_draws;
  w.g.TickToComponents();
  sym_assert(g_draws == d0 + 1, "one noise draw per step");
  sym_assert_close(w.t->GetOutputThrust_b_N()[2], duty * p.mx + p.ms * g_draw[d0], 1e-9, "magnitude noise adds to the thrust");
}
// direction error: the thrust keeps its magnitude and makes the drawn angle with the nominal direction
CHECK(direction_noise) {
  Par p;
  p.ds = sym_double("sigma", 0.001, 0.3);
  Vector<3> u = vu::unit_vec("direction");
  p.dir = u;
  p.mx = 1.0;
  World w(p);
  w.t->SetDuty(1.0);
  for (int i = 0; i < 8; i++) g_rand[i] = (int)sym_choose("rand", 0, 1) * 536870911;
  w.g.TickToComponents();
  int d0 = g_draws;
  w.g.TickToComponents();
  sym_assert(g_draws == d0 + 1, "one direction draw per step");
  Vector<3> f = w.t->GetOutputThrust_b_N();
  sym_assert_close(dot(f, f), 1.0, 1e-6, "direction error keeps the magnitude");
  sym_assert_close(dot(f, u), cos(p.ds * g_draw[d0]), 1e-6, "thrust tilted by the drawn angle");
}
CHECK(power_off) {
  Par p;
  PowerPort pp(1, 10.0, 1.0, 1.0);
  World w(p, &pp);
  pp.SetVoltage_V(5.0);
  double duty = sym_double("duty", 0.01, 1);
  w.t->SetDuty(duty);
  w.g.TickToComponents();
  w.g.TickToComponents();
  sym_assert_close(w.t->GetOutputThrust_b_N()[2], duty * p.mx, 1e-9, "thrust while powered");
  pp.SetVoltage_V(0.0);
  w.g.TickToComponents();
  for (int i = 0; i < 3; i++) sym_assert(w.t->GetOutputThrust_b_N()[i] == 0 && w.t->GetOutputTorque_b_Nm()[i] == 0, "no thrust or torque without power");
}
