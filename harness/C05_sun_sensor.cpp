// SRC: src/components/real/aocs/sun_sensor.cpp src/components/base/component.cpp src/components/ports/power_port.cpp
// MODE: real
// BOUNDS: any mounting quaternion and Sun direction, radiation pressure, shadow coefficient, threshold, field of view up to a hemisphere, bias and noise draw in the boxes
// OVERRIDE: normal random numbers are arbitrary values
// STUBS: LocalCelestialInformation::GetPositionFromSpacecraft_b_m returns arbitrary vectors; std::random_device gives a fixed value
#include "open.hpp"
#include "noise.hpp"
#include <components/real/aocs/sun_sensor.hpp>
#include <environment/global/physical_constants.hpp>
#include <math_physics/math/constants.hpp>
using namespace s2e;
using namespace s2e::components;
using math::Quaternion;
using math::Vector;
static Vector<3> g_sun{0.0};
namespace s2e::environment {
math::Vector<3> LocalCelestialInformation::GetPositionFromSpacecraft_b_m(const char* body) const {
  sym_assert(std::string(body) == "SUN", "asks for the Sun");
  return g_sun;
}
}  // namespace s2e::environment
struct World {
  environment::ClockGenerator g;
  Raw<environment::SolarRadiationPressureEnvironment> e;
  Raw<environment::LocalCelestialInformation> lc;
  SunSensor* s;
  World(Quaternion q, double fov, double thr, double nr = 0, double bias = 0, PowerPort* pp = nullptr) {
    g.ClearTimerCount();
    e->solar_constant_W_m2_ = 1366.0;
    e->solar_radiation_pressure_N_m2_ = 1366.0 / environment::speed_of_light_m_s;
    e->shadow_coefficient_ = 1.0;
    if (pp) s = new SunSensor(1, &g, pp, 1, q, fov, nr, bias, thr, e.get(), lc.get());
    else s = new SunSensor(1, &g, 1, q, fov, nr, bias, thr, e.get(), lc.get());
  }
};
// without noise the measured direction is the true direction in the component frame
CHECK(direction) {
  World w(Quaternion(0, 0, 0, 1), 1.5, 1.0);
  Vector<3> c = vu::unit_vec("dir_c");
  sym_assume(c[2] > 0.1);
  g_sun = c;
  double a = atan2(c[0], c[2]), b = atan2(c[1], c[2]);
  sym_assume(a > -1.5 && a < 1.5 && b > -1.5 && b < 1.5);
  w.g.TickToComponents();
  sym_assert(w.s->GetSunDetectedFlag(), "detected in front of the sensor");
  Vector<3> m = w.s->GetMeasuredSunDirection_c();
  sym_assert(m[2] > 0, "measured direction in front of the sensor");
  sym_assert_close(m[0] * c[2], m[2] * c[0], 1e-9, "measured direction is the true direction: x");
  sym_assert_close(m[1] * c[2], m[2] * c[1], 1e-9, "measured direction is the true direction: y");
  sym_assert_close(m[0] * m[0] + m[1] * m[1] + m[2] * m[2], 1.0, 1e-9, "measured direction is a unit vector");
}
// the mounting quaternion turns the direction into the component frame, and back for the body frame
CHECK(mounting) {
  Quaternion q = vu::unit_quat("q_b2c");
  World w(q, 3.2, 0.0);
  Vector<3> b = vu::unit_vec("dir_b");
  g_sun = b;
  w.g.TickToComponents();
  vu::close_vec(w.s->sun_direction_true_c_, q.FrameConversion(b), 1e-9, "true direction in the component frame");
}
CHECK(body_frame_output) {
  Quaternion q = vu::unit_quat("q_b2c");
  World w(q, 1.5, 1.0);
  w.s->measured_sun_direction_c_ = vu::vec3("measured", -1, 1);
  vu::close_vec(w.s->GetMeasuredSunDirection_b(), q.InverseFrameConversion(w.s->measured_sun_direction_c_), 1e-9, "measured direction in the body frame");
}
// field of view, illuminance threshold and the 90 degree limit
CHECK(detection) {
  double fov = sym_double("field_of_view", 0.05, 1.5), thr = sym_double("threshold_percent", 0, 60);
  World w(Quaternion(0, 0, 0, 1), fov, thr);
  w.e->shadow_coefficient_ = sym_double("shadow", 0, 1);
  Vector<3> c = vu::unit_vec("dir_c");
  g_sun = 1.5e11 * c;
  w.g.TickToComponents();
  double ill = c[2] > 0 ? 1366.0 * w.e->shadow_coefficient_ * c[2] : 0.0;
  sym_assert_close(w.s->GetSolarIlluminance_W_m2(), ill, 1e-6, "illuminance is power density times the cosine, none from behind");
  sym_assume(c[2] - cos(fov) > 1e-6 || c[2] - cos(fov) < -1e-6);
  double d = ill - thr / 100.0 * 1366.0;
  sym_assume(d > 1e-6 || d < -1e-6);
  sym_assert(w.s->GetSunDetectedFlag() == (d > 0 && c[2] > cos(fov)), "detected exactly inside the field of view and above the threshold");
  if (!w.s->GetSunDetectedFlag()) {
    for (int i = 0; i < 3; i++) sym_assert(w.s->GetMeasuredSunDirection_c()[i] == 0, "no direction without detection");
    sym_assert(w.s->GetSunAngleAlpha_rad() == 0 && w.s->GetSunAngleBeta_rad() == 0, "no angles without detection");
  }
}
// detection follows the present step
CHECK(detection_history) {
  World w(Quaternion(0, 0, 0, 1), 1.0, 10.0);
  for (int k = 0; k < 3; k++) {
    bool front = sym_choose("front", 0, 1), lit = sym_choose("lit", 0, 1);
    g_sun = Vector<3>{0.0};
    g_sun[0] = 0.3e11;
    g_sun[2] = front ? 1.5e11 : -1.5e11;
    w.e->shadow_coefficient_ = lit ? 1.0 : 0.0;
    w.g.TickToComponents();
    sym_assert(w.s->GetSunDetectedFlag() == (front && lit), "detection of the present step");
  }
}
// constant bias and white noise act on the two angles separately
CHECK(noise) {
  double nr = sym_double("sigma", 0.001, 0.05), bs = sym_double("bias_sigma", 0.001, 0.05);
  World w(Quaternion(0, 0, 0, 1), 1.5, 1.0, nr, bs);
  sym_assert(g_draws == 2, "one bias draw per angle");
  Vector<3> c = vu::unit_vec("dir_c");
  sym_assume(c[2] > 0.6);
  g_sun = c;
  double a = atan2(c[0], c[2]), b = atan2(c[1], c[2]);
  sym_assume(a > -1.0 && a < 1.0 && b > -1.0 && b < 1.0);
  for (int k = 0; k < 2; k++) {
    int d0 = g_draws;
    w.g.TickToComponents();
    sym_assert(g_draws == d0 + 2, "one noise draw per angle and step");
    double ea = a + bs * g_draw[0] + nr * g_draw[d0], eb = b + bs * g_draw[1] + nr * g_draw[d0 + 1];
    sym_assert_close(w.s->GetSunAngleAlpha_rad(), ea, 1e-6, "alpha with bias and noise");
    sym_assert_close(w.s->GetSunAngleBeta_rad(), eb, 1e-6, "beta with bias and noise");
    Vector<3> m = w.s->GetMeasuredSunDirection_c();
    double xa = tan(w.s->GetSunAngleAlpha_rad()), xb = tan(w.s->GetSunAngleBeta_rad()), n = sqrt(xa * xa + xb * xb + 1);
    sym_assert_close(m[0] * n, xa, 1e-6, "direction from the angles: x");
    sym_assert_close(m[1] * n, xb, 1e-6, "direction from the angles: y");
    sym_assert_close(m[2] * n, 1.0, 1e-6, "direction from the angles: z");
  }
}
