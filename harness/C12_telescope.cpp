// SRC: src/components/real/mission/telescope.cpp src/components/base/component.cpp src/components/ports/power_port.cpp
// MODE: real
// BOUNDS: any attitude, mounting, body, star and ground direction; forbidden angles 0..3 rad; any field of view below 90 degrees of 2..4096 pixels; catalogues of up to 3 stars, up to 3 logged
// STUBS: LocalCelestialInformation::GetPositionFromSpacecraft_b_m and HipparcosCatalogue::GetStarDirection_b return arbitrary vectors (the latter is decided in C12_stars)
#include "open.hpp"
#include <components/real/mission/telescope.hpp>
#include <environment/global/physical_constants.hpp>
#include <math_physics/math/constants.hpp>
using namespace s2e;
using namespace s2e::components;
using math::Vector;
using math::Quaternion;
static Vector<3> g_body[3], g_star[4];
static Quaternion g_q;
namespace s2e::environment {
math::Vector<3> LocalCelestialInformation::GetPositionFromSpacecraft_b_m(const char* body) const {
  std::string s(body);
  return s == "SUN" ? g_body[0] : s == "EARTH" ? g_body[1] : g_body[2];
}
math::Vector<3> HipparcosCatalogue::GetStarDirection_b(size_t rank, math::Quaternion q) const {
  for (int i = 0; i < 4; i++) sym_assert(q[i] == g_q[i], "stars seen with the present attitude");
  sym_assert(rank < hipparcos_catalogue_.size(), "only stars of the catalogue are read");
  return g_star[rank];
}
}  // namespace s2e::environment
struct Att : dynamics::attitude::Attitude {
  Att() : Attitude(math::Matrix<3, 3>(0.0), "a") {}
  void Propagate(const double) override {}
};
struct Orb : dynamics::orbit::Orbit {
  void Propagate(const double, const double) override {}
};
struct World {
  environment::ClockGenerator g;
  Att att;
  Raw<Orb> orb;
  Raw<environment::HipparcosCatalogue> hip;
  Raw<environment::LocalCelestialInformation> lc;
  Raw<environment::CelestialInformation> gc;
  Raw<environment::EarthRotation> er;
  Quaternion m{0, 0, 0, 1};
  double fa[3] = {0.3, 0.3, 0.3}, fx = 1e-4, fy = 2e-4;
  int nx = 1000, ny = 600;
  Telescope* t;
  World() {
    g.ClearTimerCount();
    lc->global_celestial_information_ = gc.get();
    gc->earth_rotation_ = er.get();
    new (&hip->hipparcos_catalogue_) std::vector<environment::HipparcosData>();
    hip->IsCalcEnabled = false;
    g_q = att.quaternion_i2b_;
    for (auto& b : g_body) { b = Vector<3>(0.0); b[0] = 1; }
  }
  void make(int stars = 0, bool orbit = false) { t = new Telescope(&g, m, fa[0], fa[1], fa[2], nx, ny, fx, fy, stars, &att, hip.get(), lc.get(), orbit ? orb.get() : nullptr); }
  void run() { static_cast<Component*>(t)->MainRoutine(0); }
};
// a body is flagged exactly when inside the forbidden angle around the line of sight
CHECK(forbidden_angle) {
  World w;
  w.m = vu::unit_quat("q_b2c");
  Vector<3> u = vu::unit_vec("body");
  double r = sym_double("distance", 1e5, 1e12), f = sym_double("angle", 0, 3);
  w.make();
  Vector<3> x(0.0);
  x[0] = 1;
  Vector<3> sight = w.m.InverseFrameConversion(x), sc = w.m.Conjugate().FrameConversion(x), t = r * u;
  double c = sight[0] * u[0] + sight[1] * u[1] + sight[2] * u[2], z = math::InnerProduct(t, sc) / (t.CalcNorm() * sc.CalcNorm());
  sym_assert_close(z, c, 1e-9, "cosine of the angle to the line of sight");
  sym_assert_close(sight[0] * sight[0] + sight[1] * sight[1] + sight[2] * sight[2], 1, 1e-9, "unit line of sight");
  sym_assume(z <= 1 && z >= -1);  // cosine between the unit vectors just shown
  bool fl = w.t->JudgeForbiddenAngle(t, f);
  c = z >= 1 ? 1 : z <= -1 ? -1 : z;
  if (fl) sym_assert_le(std::cos(f), c + 1e-9, "flagged only inside the angle");
  else sym_assert_le(c, std::cos(f) + 1e-9, "flagged whenever inside the angle");
}
// every body has its own angle and flag
CHECK(forbidden_flags) {
  World w;
  for (int i = 0; i < 3; i++) w.fa[i] = 0.5 + 0.5 * i;
  w.make();
  sym_assert(w.t->GetIsSunInForbiddenAngle() && w.t->GetIsEarthInForbiddenAngle() && w.t->GetIsMoonInForbiddenAngle(), "flags set before the first step");
  bool in[3];
  for (int k = 0; k < 2; k++) {
    for (int i = 0; i < 3; i++) {
      in[i] = sym_choose("inside", 0, 1);
      double a = w.fa[i] + (in[i] ? -0.25 : 0.25);
      g_body[i][0] = 1e8 * std::cos(a);
      g_body[i][1] = 1e8 * std::sin(a);
      g_body[i][2] = 0;
    }
    w.run();
    sym_assert(w.t->GetIsSunInForbiddenAngle() == in[0], "Sun flag by the Sun direction and angle");
    sym_assert(w.t->GetIsEarthInForbiddenAngle() == in[1], "Earth flag by the Earth direction and angle");
    sym_assert(w.t->GetIsMoonInForbiddenAngle() == in[2], "Moon flag by the Moon direction and angle");
  }
}
static bool inside(const Vector<3>& c, double fx, double fy, double& ax, double& ay) {
  ax = std::atan2(c[2], c[0]);
  ay = std::atan2(c[1], c[0]);
  return std::fabs(ax) < fx && std::fabs(ay) < fy;
}
// bodies are projected onto the image by the tangent of their angles; outside the field of view they are at -1
CHECK(image_position) {
  World w;
  w.m = vu::unit_quat("q_b2c");
  int k = (int)sym_choose("body", 0, 2);
  w.nx = 1000;
  w.fx = sym_double("x_fov_per_pixel", 1e-6, 1.5e-3);
  w.fy = sym_double("y_fov_per_pixel", 1e-6, 1.5e-3);
  w.make();
  g_body[k] = vu::vec3("body", -1e9, 1e9);
  Vector<2> before = w.t->sun_position_image_sensor;
  sym_assert(before[0] == -1 && before[1] == -1, "no position before the first step");
  Vector<2> p;
  w.t->Observe(p, g_body[k]);
  double ax, ay, fx = w.nx * w.fx, fy = w.ny * w.fy;
  bool in = inside(w.m.FrameConversion(g_body[k]), fx, fy, ax, ay);
  if (in) {
    sym_assert_close(p[0], w.nx / 2.0 * (1 + std::tan(ax) / std::tan(fx)), 1e-6, "x pixel");
    sym_assert_close(p[1], w.ny / 2.0 * (1 + std::tan(ay) / std::tan(fy)), 1e-6, "y pixel");
  } else sym_assert(p[0] == -1 && p[1] == -1, "outside the field of view");
}
CHECK(image_of_each_body) {
  World w;
  w.nx = (int)sym_choose("x_pixels", 1, 2) * 501;
  w.make();
  for (int i = 0; i < 3; i++) {
    g_body[i][0] = 1e8 * (i + 1);
    g_body[i][1] = sym_double("y", -1e6, 1e6);
    g_body[i][2] = sym_double("z", -1e6, 1e6);
  }
  w.run();
  Vector<2>* p[3] = {&w.t->sun_position_image_sensor, &w.t->earth_position_image_sensor, &w.t->moon_position_image_sensor};
  for (int i = 0; i < 3; i++) {
    sym_assert_close((*p[i])[0], w.nx / 2.0 * (1 + g_body[i][2] / g_body[i][0] / std::tan(w.nx * w.fx)), 1e-6, "x pixel of each body");
    sym_assert_close((*p[i])[1], w.ny / 2.0 * (1 + g_body[i][1] / g_body[i][0] / std::tan(w.ny * w.fy)), 1e-6, "y pixel of each body");
  }
}
// the first stars of the catalogue in view are listed in order; missing ones are -1
CHECK(stars_in_view) {
  World w;
  w.att.quaternion_i2b_ = g_q = vu::unit_quat("q_i2b");
  w.hip->IsCalcEnabled = true;
  int n = (int)sym_choose("catalogue", 0, 3), logged = (int)sym_choose("logged", 1, 3);
  int id[4];
  double x[4], y[4];
  for (int i = 0; i < n; i++) {
    environment::HipparcosData h;
    h.hipparcos_id = 100 + i;
    h.visible_magnitude = i * 0.5;
    h.right_ascension_deg = i;
    h.declination_deg = -i;
    w.hip->hipparcos_catalogue_.push_back(h);
  }
  w.make(logged);
  sym_assert((int)w.t->star_list_in_sight.size() == logged && w.t->star_list_in_sight[0].hipparcos_data.hipparcos_id == -1, "empty list before the first step");
  int seen = 0;
  for (int i = 0; i < n; i++) {
    bool in = sym_choose("inside", 0, 1);
    g_star[i][0] = in ? 1.0 : sym_choose("behind", 0, 1) ? -1.0 : 0.5;
    g_star[i][1] = sym_double("y", -0.01, 0.01);
    g_star[i][2] = in ? sym_double("z", -0.01, 0.01) : sym_double("z", 0.1, 0.2);
    if (in) id[seen] = 100 + i, x[seen] = g_star[i][2], y[seen++] = g_star[i][1];
  }
  w.run();
  sym_assert((int)w.t->star_list_in_sight.size() == logged, "as many entries as logged stars");
  for (int i = 0; i < logged; i++) {
    const Star& s = w.t->star_list_in_sight[i];
    if (i < seen) {
      sym_assert(s.hipparcos_data.hipparcos_id == id[i] && s.hipparcos_data.visible_magnitude == (id[i] - 100) * 0.5 && s.hipparcos_data.right_ascension_deg == id[i] - 100 && s.hipparcos_data.declination_deg == 100 - id[i], "stars in catalogue order with their data");
      sym_assert_close(s.position_image_sensor[0], w.nx / 2.0 * (1 + x[i] / std::tan(w.nx * w.fx)), 1e-6, "x pixel of the star");
      sym_assert_close(s.position_image_sensor[1], w.ny / 2.0 * (1 + y[i] / std::tan(w.ny * w.fy)), 1e-6, "y pixel of the star");
    } else sym_assert(s.hipparcos_data.hipparcos_id == -1 && s.position_image_sensor[0] == -1 && s.position_image_sensor[1] == -1, "no star");
  }
}
// the initial sub-satellite point is tracked as the angle offset of its direction over the angle per pixel
CHECK(ground_position) {
  World w;
  w.m = vu::unit_quat("q_b2c");
  w.att.quaternion_i2b_ = g_q = vu::unit_quat("q_i2b");
  double alt = sym_double("altitude", 2e5, 2e6);
  Vector<3> up = vu::unit_vec("start");
  w.orb->spacecraft_geodetic_position_.altitude_m_ = alt;
  w.orb->spacecraft_position_ecef_m_ = (alt + environment::earth_equatorial_radius_m) * up;
  w.make(0, true);
  vu::close_vec(w.t->initial_ground_position_ecef_m_, environment::earth_equatorial_radius_m * up, 1e-3, "point below the initial position");
}
CHECK(ground_deviation) {
  World w;
  Quaternion q = w.att.quaternion_i2b_ = g_q = vu::unit_quat("q_i2b");
  w.orb->spacecraft_geodetic_position_.altitude_m_ = 5e5;
  w.orb->spacecraft_position_ecef_m_[0] = 5e5 + environment::earth_equatorial_radius_m;
  int rot = (int)sym_choose("rotation", 0, 3);
  double c = rot == 0 ? 1 : rot == 2 ? -1 : 0, s = rot == 1 ? 1 : rot == 3 ? -1 : 0;
  math::Matrix<3, 3> dcm(0.0);
  dcm[0][0] = c; dcm[0][1] = s; dcm[1][0] = -s; dcm[1][1] = c; dcm[2][2] = 1;
  w.er->dcm_j2000_to_ecef_ = dcm;
  w.make(0, true);
  Vector<3> u = vu::unit_vec("direction"), g = w.t->initial_ground_position_ecef_m_;
  double r = sym_double("range", 1e5, 3e6);
  w.orb->spacecraft_position_ecef_m_ = g - r * u;
  w.run();
  Vector<3> i;
  i[0] = c * u[0] - s * u[1];
  i[1] = s * u[0] + c * u[1];
  i[2] = u[2];
  Vector<3> b = q.FrameConversion(i);
  double x = std::atan2(b[2], b[0]) / w.fx, y = std::atan2(b[1], b[0]) / w.fy;
  if (x > w.nx || y > w.ny) sym_assert(w.t->ground_position_x_image_sensor_ == -1 && w.t->ground_position_y_image_sensor_ == -1, "outside the image");
  else {
    sym_assert_close(w.t->ground_position_x_image_sensor_, x, 1e-3, "x pixel offset of the ground point");
    sym_assert_close(w.t->ground_position_y_image_sensor_, y, 1e-3, "y pixel offset of the ground point");
  }
}
