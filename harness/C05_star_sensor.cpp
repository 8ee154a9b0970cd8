// SRC: src/components/real/aocs/star_sensor.cpp src/components/base/component.cpp src/components/ports/power_port.cpp
// MODE: real
// OPT: real_ints=64
// BOUNDS: any mounting and attitude quaternion, any noise draw, any Sun/Earth/Moon direction and distance, exclusion angles and rates in the boxes; delays of 1..3 steps and output intervals of 1..3 steps over up to 9 steps
// OVERRIDE: normal random numbers are arbitrary values
// STUBS: LocalCelestialInformation::GetPositionFromSpacecraft_b_m returns arbitrary vectors; std::random_device gives a fixed value
#include "open.hpp"
#include "noise.hpp"
#include <components/real/aocs/star_sensor.hpp>
#include <math_physics/math/constants.hpp>
using namespace s2e;
using namespace s2e::components;
using math::Quaternion;
using math::Vector;
static Vector<3> g_sun{0.0}, g_earth{0.0}, g_moon{0.0};
namespace s2e::environment {
math::Vector<3> LocalCelestialInformation::GetPositionFromSpacecraft_b_m(const char* body) const {
  std::string n(body);
  if (n == "SUN") return g_sun;
  if (n == "EARTH") return g_earth;
  if (n == "MOON") return g_moon;
  sym_assert(false, "unknown body requested");
  return math::Vector<3>(0.0);
}
}  // namespace s2e::environment
extern "C" double vu_uniform(randomization::MinimalStandardLcgWithShuffle*) __asm__("_ZN3s2e13randomization29MinimalStandardLcgWithShufflecvdEv");
static double g_rot = 0;
extern "C" double vu_uniform(randomization::MinimalStandardLcgWithShuffle*) { return g_rot; }
struct Att : public dynamics::attitude::Attitude {
  Att() : dynamics::attitude::Attitude(math::Matrix<3, 3>(0.0), "a") {}
  void Propagate(const double) override {}
};
struct Par {
  Quaternion q{0, 0, 0, 1};
  double so = 0, ss = 0, step = 0.5, sun = 0, earth = 0, moon = 0, rate = 1e9;
  unsigned delay = 1, interval = 1;
};
static void far() { g_sun[0] = -1e11; g_earth[0] = -1e8; g_moon[0] = -3e8; }
struct World {
  environment::ClockGenerator g;
  Raw<dynamics::Dynamics> d;
  Raw<environment::LocalEnvironment> le;
  Raw<environment::LocalCelestialInformation> lc;
  Att att;
  StarSensor* s;
  World(const Par& p, PowerPort* pp = nullptr) {
    g.ClearTimerCount();
    d->attitude_ = &att;
    le->celestial_information_ = lc.get();
    if (pp) s = new StarSensor(1, &g, pp, 1, p.q, p.so, p.ss, p.step, p.delay, p.interval, p.sun, p.earth, p.moon, p.rate, d.get(), le.get());
    else s = new StarSensor(1, &g, 1, p.q, p.so, p.ss, p.step, p.delay, p.interval, p.sun, p.earth, p.moon, p.rate, d.get(), le.get());
  }
};
CHECK(initial_state) {
  far();
  World w(Par{});
  sym_assert(w.s->GetErrorFlag(), "the error flag is set before the first measurement");
  vu::close_quat(w.s->GetMeasuredQuaternion_i2c(), Quaternion(0, 0, 0, 1), 1e-12, "identity before the first measurement");
}
// output is the attitude of `delay` steps ago in the component frame; identity until the buffer holds it; refreshed every `interval` steps
CHECK(delay_and_interval) {
  far();
  Par p;
  p.q = Quaternion(0.5, -0.5, 0.5, 0.5);
  p.delay = (unsigned)sym_choose("delay", 1, 3);
  p.interval = (unsigned)sym_choose("interval", 1, 3);
  p.step = sym_choose("step", 0, 2) == 0 ? 0.5 : sym_choose("step2", 0, 1) ? 1.0 : 4.0;
  World w(p);
  Quaternion h[9], out(0, 0, 0, 1);
  for (int k = 0; k < 9; k++) {
    h[k] = vu::free_quat("q");
    w.att.quaternion_i2b_ = h[k];
    w.g.TickToComponents();
    if (k % p.interval == 0) out = k >= (int)p.delay ? h[k - p.delay] * p.q : Quaternion(0, 0, 0, 1);
    vu::close_quat(w.s->GetMeasuredQuaternion_i2c(), out, 1e-9, "delayed attitude in the component frame, held between outputs");
  }
}
// noise: small rotations about the line of sight and about an axis orthogonal to it, with the stated deviations
CHECK(noise_rotation) {
  far();
  Par p;
  p.q = vu::unit_quat("q_b2c");
  p.ss = sym_double("sigma_sight", 1e-4, 0.5);
  p.so = sym_double("sigma_ortho", 1e-4, 0.5);
  World w(p);
  w.att.quaternion_i2b_ = vu::unit_quat("q_i2b");
  g_rot = sym_double("uniform", 0, 1);
  w.g.TickToComponents();
  sym_assert(g_draws == 2, "two noise draws");
  w.g.TickToComponents();
  Quaternion m = w.s->GetMeasuredQuaternion_i2c();
  Quaternion t = w.att.quaternion_i2b_ * p.q;
  // measured = true * (rotation about x by ss*d0) * (rotation about an axis in the y-z plane by so*d1)
  double a = p.ss * g_draw[0] / 2, b = p.so * g_draw[1] / 2, r = math::tau * g_rot;
  Quaternion qs(sin(a), 0, 0, cos(a)), qo(0, sin(b) * cos(r), sin(b) * sin(r), cos(b));
  vu::close_quat(m, t * qs * qo, 1e-9, "true attitude turned by sight and cross-sight noise");
}
static bool g_err(World& w) { w.g.TickToComponents(); return w.s->GetErrorFlag(); }
// c > cos(limit) <=> angle < limit
static Vector<3> sight(const Par& p) { Vector<3> x(0.0); x[0] = 1; return p.q.InverseFrameConversion(x); }
static void excl(int body) {
  far();
  Par p;
  double lim = sym_double("angle", 0.05, 3.0);
  (body == 0 ? p.sun : p.moon) = lim;
  World w(p);
  Vector<3> v = vu::unit_vec("dir");
  double r = sym_double("distance", 1e6, 1e12);
  (body == 0 ? g_sun : g_moon) = r * v;
  sym_assume(v[0] - cos(lim) > 1e-6 || v[0] - cos(lim) < -1e-6);
  sym_assert(g_err(w) == (v[0] > cos(lim)), body == 0 ? "error exactly inside the Sun exclusion angle" : "error exactly inside the Moon exclusion angle");
}
CHECK(sun_exclusion) { excl(0); }
CHECK(moon_exclusion) { excl(1); }
// the exclusion angle of the Earth is measured from its limb
CHECK(earth_exclusion) {
  far();
  Par p;
  double lim = p.earth = sym_double("angle", 0.05, 1.5);
  World w(p);
  Vector<3> v = vu::unit_vec("dir");
  double r = sym_double("distance", 7e6, 1e9), size = asin(environment::earth_equatorial_radius_m / r);
  g_earth = r * v;
  double c = cos(lim + size);
  sym_assume(v[0] - c > 1e-5 || v[0] - c < -1e-5);
  sym_assert(g_err(w) == (v[0] > c), "error exactly within the exclusion angle of the Earth limb");
}
// mounting turns the line of sight
CHECK(sight_direction) {
  far();
  Par p;
  p.q = vu::unit_quat("q_b2c");
  p.sun = 0.7;
  World w(p);
  g_earth = 1e8 * (-1.0 * sight(p));
  g_moon = g_earth;
  Vector<3> v = vu::unit_vec("dir");
  g_sun = 1.5e11 * v;
  double c = 0;
  Vector<3> s = sight(p);
  for (int i = 0; i < 3; i++) c += s[i] * v[i];
  sym_assume(c - cos(0.7) > 1e-6 || c - cos(0.7) < -1e-6);
  sym_assert(g_err(w) == (c > cos(0.7)), "line of sight is the x axis of the component");
}
CHECK(rate_limit) {
  far();
  Par p;
  p.rate = sym_double("limit", 0.01, 1);
  World w(p);
  Vector<3> o = vu::vec3("rate", -1, 1);
  w.att.angular_velocity_b_rad_s_ = o;
  double n2 = o[0] * o[0] + o[1] * o[1] + o[2] * o[2], d = n2 - p.rate * p.rate;
  sym_assume(d > 1e-9 || d < -1e-9);
  sym_assert(g_err(w) == (d > 0), "error exactly above the rate limit");
}
// the flag follows the present situation: it clears again
CHECK(flag_recovers) {
  far();
  Par p;
  p.rate = 0.5;
  World w(p);
  for (int k = 0; k < 4; k++) {
    double r = sym_choose("fast", 0, 1) ? 0.6 : 0.4;
    w.att.angular_velocity_b_rad_s_[1] = r;
    sym_assert(g_err(w) == (r > 0.5), "flag of the present step");
  }
}
