// SRC: src/environment/local/local_celestial_information.cpp
// MODE: real
// BOUNDS: two bodies, any positions, velocities, attitude and body rate
// STUBS: CSPICE names
#include "open.hpp"
#include "util.hpp"
#include <cstring>
#include <environment/local/local_celestial_information.hpp>
using namespace s2e;
using namespace s2e::environment;
using math::Matrix;
using math::Vector;
namespace s2e::environment {
int CelestialInformation::CalcBodyIdFromName(const char* n) const { return !strcmp(n, "SUN") ? 0 : 1; }
}  // namespace s2e::environment
static double g_p[6], g_v[6], R, V;
static Vector<3> cross(const Vector<3>& a, const Vector<3>& b) {
  Vector<3> c;
  for (int i = 0; i < 3; i++) c[i] = a[(i + 1) % 3] * b[(i + 2) % 3] - a[(i + 2) % 3] * b[(i + 1) % 3];
  return c;
}
CHECK(positions_and_velocities) {
  Raw<CelestialInformation> gc;
  gc->number_of_selected_bodies_ = 2;
  gc->celestial_body_position_from_center_i_m_ = g_p;
  gc->celestial_body_velocity_from_center_i_m_s_ = g_v;
  new (&gc->center_body_name_) std::string("EARTH");
  for (int i = 0; i < 6; i++) { g_p[i] = sym_double("body_position", -10, 10); g_v[i] = sym_double("body_velocity", -10, 10); }
  Vector<3> r = vu::vec3("position", -10, 10), v = vu::vec3("velocity", -10, 10), w = vu::vec3("rate", -1, 1);
  math::Quaternion q = vu::unit_quat("q");
  Matrix<3, 3> d = q.ConvertToDcm();
  LocalCelestialInformation l(gc.get());
  l.UpdateAllObjectsInformation(r, v, q, w);
  const char* nm[2] = {"SUN", "EARTH"};
  for (int b = 0; b < 2; b++) {
    Vector<3> pc, vc, ps, vs;
    for (int i = 0; i < 3; i++) { pc[i] = g_p[3 * b + i]; vc[i] = g_v[3 * b + i]; ps[i] = pc[i] - r[i]; vs[i] = vc[i] - v[i]; }
    Vector<3> gi = l.GetPositionFromSpacecraft_i_m(nm[b]), gb = l.GetPositionFromSpacecraft_b_m(nm[b]);
    for (int i = 0; i < 3; i++) {
      double pcb = 0, vcb = 0, psb = 0, vsb = 0;
      for (int j = 0; j < 3; j++) { pcb += d[i][j] * pc[j]; vcb += d[i][j] * vc[j]; psb += d[i][j] * ps[j]; vsb += d[i][j] * vs[j]; }
      sym_assert_close(gi[i], ps[i], 1e-9, "inertial position from the spacecraft");
      sym_assert_close(l.celestial_body_velocity_from_spacecraft_i_m_s_[3 * b + i], vs[i], 1e-9, "inertial velocity from the spacecraft");
      sym_assert_close(gb[i], psb, 1e-9, "body frame position from the spacecraft");
      sym_assert_close(l.celestial_body_position_from_center_b_m_[3 * b + i], pcb, 1e-9, "body frame position from the center");
      // the derivative of the body frame coordinates: turned velocity minus rate x position
      int j = (i + 1) % 3, k = (i + 2) % 3;
      double pj = 0, pk = 0, cj = 0, ck = 0;
      for (int m = 0; m < 3; m++) { pj += d[j][m] * ps[m]; pk += d[k][m] * ps[m]; cj += d[j][m] * pc[m]; ck += d[k][m] * pc[m]; }
      sym_assert_close(l.celestial_body_velocity_from_spacecraft_b_m_s_[3 * b + i], vsb - (w[j] * pk - w[k] * pj), 1e-9, "body frame velocity from the spacecraft");
      sym_assert_close(l.celestial_body_velocity_from_center_b_m_s_[3 * b + i], vcb - (w[j] * ck - w[k] * cj), 1e-9, "body frame velocity from the center");
    }
  }
  for (int i = 0; i < 3; i++) {
    sym_assert(l.GetCenterBodyPositionFromSpacecraft_i_m()[i] == l.GetPositionFromSpacecraft_i_m("EARTH")[i], "center body");
    sym_assert(l.GetCenterBodyPositionFromSpacecraft_b_m()[i] == l.GetPositionFromSpacecraft_b_m("EARTH")[i], "center body in the body frame");
  }
}
