// SRC: src/environment/global/celestial_information.cpp src/environment/global/moon_rotation.cpp
// MODE: real
// BOUNDS: up to four bodies in any of several orders, any ephemeris state, radius, gravity constant and date
// STUBS: CSPICE ephemeris and constants (symbolic values), Earth rotation (M12), lunar frames (M12)
#include "ini.hpp"
#include "open.hpp"
#include "util.hpp"
#include <SpiceUsr.h>
#include <cmath>
#include <cstring>
#include <environment/global/celestial_information.hpp>
using namespace s2e;
using namespace s2e::environment;
using math::Matrix;
using math::Vector;
// bodies of the ephemeris: sun, earth, moon, mars
static const int g_id[4] = {10, 399, 301, 499};
static const char* g_name[4] = {"SUN", "EARTH", "MOON", "MARS"};
static const char* g_spk[4] = {"SUN", "EARTH", "MOON", "MARS_BARYCENTER"};
static double g_gm[4], g_radii[4][3], g_state[4][6], g_et, g_earth_jd;
static int g_moon, g_bad;
static int g_earth_mode = -1;
static int of_id(int id) { for (int i = 0; i < 4; i++) if (g_id[i] == id) return i; return -1; }
extern "C" {
void bodvcd_c(SpiceInt body, ConstSpiceChar* item, SpiceInt, SpiceInt* dim, SpiceDouble* v) {
  int b = of_id(body);
  if (!strcmp(item, "GM")) { *dim = 1; v[0] = g_gm[b]; }
  else if (!strcmp(item, "RADII")) { *dim = 3; for (int i = 0; i < 3; i++) v[i] = g_radii[b][i]; }
  else g_bad = 1;
}
void bodc2n_c(SpiceInt code, SpiceInt, SpiceChar* name, SpiceBoolean* found) { strcpy(name, g_name[of_id(code)]); *found = SPICETRUE; }
void bodn2c_c(ConstSpiceChar* name, SpiceInt* code, SpiceBoolean* found) {
  *found = SPICEFALSE;
  for (int i = 0; i < 4; i++) if (!strcmp(name, g_name[i])) { *code = g_id[i]; *found = SPICETRUE; }
}
void spkezr_c(ConstSpiceChar* target, SpiceDouble et, ConstSpiceChar* frame, ConstSpiceChar* abcorr, ConstSpiceChar* observer, SpiceDouble state[6], SpiceDouble*) {
  if (et != g_et || strcmp(frame, "J2000") || strcmp(abcorr, "NONE") || strcmp(observer, "EARTH")) g_bad = 2;
  for (int i = 0; i < 4; i++)
    if (!strcmp(target, g_spk[i])) { for (int j = 0; j < 6; j++) state[j] = g_state[i][j]; return; }
  g_bad = 3;
}
void sxform_c(ConstSpiceChar* from, ConstSpiceChar* to, SpiceDouble et, SpiceDouble m[6][6]) {
  if (strcmp(from, "J2000") || strcmp(to, "IAU_MOON") || et != g_et) g_bad = 4;
  for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) m[i][j] = 10 * i + j;
}
void furnsh_c(ConstSpiceChar*) {}
}
namespace s2e::environment {
EarthRotation::EarthRotation(const EarthRotationMode m) : rotation_mode_(m) { dcm_j2000_to_ecef_ = math::Matrix<3, 3>(0.0); g_earth_mode = (int)m; dcm_j2000_to_ecef_[0][1] = 0.5; }
void EarthRotation::Update(const double jd) { g_earth_jd = jd; }
EarthRotationMode ConvertEarthRotationMode(const std::string m) { return m == "FULL" ? EarthRotationMode::kFull : m == "SIMPLE" ? EarthRotationMode::kSimple : EarthRotationMode::kIdle; }
}  // namespace s2e::environment
namespace s2e::planet_rotation {
math::Matrix<3, 3> CalcDcmEciToPrincipalAxis(const math::Vector<3> r, const math::Vector<3> v) {
  Matrix<3, 3> m(0.0);
  for (int i = 0; i < 3; i++) { m[0][i] = r[i]; m[1][i] = v[i]; }
  g_moon++;
  return m;
}
}  // namespace s2e::planet_rotation
static const int ORDER[3][4] = {{0, 1, 2, 3}, {2, 1, 0, 3}, {3, 0, 2, 1}};
static int g_n;
static const int* g_order;
static CelestialInformation* make() {
  g_order = ORDER[sym_choose("order", 0, 2)];
  g_n = 4;
  char nm[16];
  for (int b = 0; b < 4; b++) {
    std::string p = g_name[b];
    g_gm[b] = sym_double((p + "_gm").c_str(), 1, 1e12);
    for (int i = 0; i < 3; i++) g_radii[b][i] = sym_double((p + "_radius").c_str(), 100, 1e6);
    for (int i = 0; i < 6; i++) g_state[b][i] = sym_double((p + "_state").c_str(), -1e9, 1e9);
  }
  int* ids = new int[g_n];
  std::vector<std::string> modes;
  int mm = sym_choose("moon_mode", 0, 2);
  for (int i = 0; i < g_n; i++) {
    ids[i] = g_id[g_order[i]];
    const char* m = g_order[i] == 1 ? "FULL" : g_order[i] == 2 ? (mm == 0 ? "IDLE" : mm == 1 ? "SIMPLE" : "IAU_MOON") : "DISABLE";
    modes.push_back(m);
  }
  return new CelestialInformation("J2000", "NONE", "EARTH", g_n, ids, modes);
}
static void update(CelestialInformation& c, SimulationTime& t) {
  t.start_ephemeris_time_ = sym_double("ephemeris_time", 0, 1e9);
  t.elapsed_time_sec_ = sym_double("elapsed", 0, 1e5);
  t.current_jd_ = sym_double("date", 2450000, 2470000);
  g_et = t.GetCurrentEphemerisTime();
  c.UpdateAllObjectsInformation(t);
}
CHECK(constants) {
  CelestialInformation* c = make();
  for (int b = 0; b < 4; b++) {
    sym_assert_close(c->GetGravityConstant_m3_s2(g_name[b]), g_gm[b] * 1e9, 1e-3, "gravity constant");
    Vector<3> r = c->GetRadiiFromName_m(g_name[b]);
    for (int i = 0; i < 3; i++) sym_assert_close(r[i], g_radii[b][i] * 1000, 1e-6, "radii");
    double m = c->GetMeanRadiusFromName_m(g_name[b]);
    sym_assert_close(std::log(m) * 3, std::log(g_radii[b][0] * g_radii[b][1] * g_radii[b][2] * 1e9), 1e-9, "mean radius");
  }
  sym_assert_close(c->GetCenterBodyGravityConstant_m3_s2(), g_gm[1] * 1e9, 1e-3, "gravity constant of the center body");
  sym_assert(c->GetCenterBodyName() == "EARTH" && c->GetNumberOfSelectedBodies() == g_n, "settings");
  sym_assert(g_earth_mode == (int)EarthRotationMode::kFull, "Earth rotation mode");
  sym_assert(g_bad == 0, "CSPICE calls");
}
static void positions(CelestialInformation& c) {
  for (int k = 0; k < g_n; k++) {
    int b = g_order[k];
    Vector<3> p = c.GetPositionFromCenter_i_m(g_name[b]), v = c.GetVelocityFromCenter_i_m_s(g_name[b]);
    Vector<3> pk = c.GetPositionFromCenter_i_m(k), vk = c.GetVelocityFromCenter_i_m_s(k);
    Vector<3> pd = c.GetPositionFromSelectedBody_i_m(g_name[b], "MOON"), vd = c.GetVelocityFromSelectedBody_i_m_s(g_name[b], "MOON");
    for (int i = 0; i < 3; i++) {
      sym_assert_close(p[i], g_state[b][i] * 1000, 1e-3, "position");
      sym_assert_close(v[i], g_state[b][i + 3] * 1000, 1e-3, "velocity");
      sym_assert(pk[i] == p[i] && vk[i] == v[i], "by id and by name");
      sym_assert_close(pd[i], (g_state[b][i] - g_state[2][i]) * 1000, 1e-3, "position from another body");
      sym_assert_close(vd[i], (g_state[b][i + 3] - g_state[2][i + 3]) * 1000, 1e-3, "velocity from another body");
    }
  }
}
CHECK(ephemeris) {
  CelestialInformation* c = make();
  Raw<SimulationTime> t;
  update(*c, *t);
  positions(*c);
  sym_assert(g_earth_jd == t->current_jd_, "Earth rotation of the current date");
  sym_assert(g_bad == 0, "CSPICE calls");
}
CHECK(moon_frame) {
  CelestialInformation* c = make();
  Raw<SimulationTime> t;
  update(*c, *t);
  int mode = (int)c->moon_rotation_->mode_;
  Matrix<3, 3> d = c->GetMoonRotation().GetDcmJ2000ToMcmf();
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) {
      double w = i == j;
      if (mode == (int)MoonRotationMode::kIauMoon) w = 10 * i + j;
      if (mode == (int)MoonRotationMode::kSimple) w = i == 0 ? (g_state[2][j] - g_state[1][j]) * 1000 : i == 1 ? (g_state[2][j + 3] - g_state[1][j + 3]) * 1000 : 0;
      sym_assert_close(d[i][j], w, 1e-3, "lunar frame of the Moon seen from the Earth");
    }
  sym_assert(g_bad == 0, "CSPICE calls");
}
// an id that is not selected has no position, velocity or radius
CHECK(unknown_id) {
  CelestialInformation* c = make();
  Raw<SimulationTime> t;
  update(*c, *t);
  unsigned id = g_n + sym_choose("behind", 0, 2);
  Vector<3> p = c->GetPositionFromCenter_i_m(id), v = c->GetVelocityFromCenter_i_m_s(id), r = c->GetRadii_m(id);
  for (int i = 0; i < 3; i++) sym_assert(p[i] == 0 && v[i] == 0 && r[i] == 0, "zero");
}
// a copy holds the same information and its own storage
CHECK(copies) {
  CelestialInformation* c = make();
  Raw<SimulationTime> t;
  update(*c, *t);
  {
    CelestialInformation d(*c);
    positions(d);
    for (int b = 0; b < 4; b++) {
      sym_assert(d.GetGravityConstant_m3_s2(g_name[b]) == c->GetGravityConstant_m3_s2(g_name[b]), "gravity constant");
      sym_assert(d.GetMeanRadiusFromName_m(g_name[b]) == c->GetMeanRadiusFromName_m(g_name[b]), "mean radius");
      sym_assert(d.GetRadiiFromName_m(g_name[b])[1] == c->GetRadiiFromName_m(g_name[b])[1], "radii");
    }
    for (int i = 0; i < 3; i++)
      for (int j = 0; j < 3; j++) {
        sym_assert(d.GetMoonRotation().GetDcmJ2000ToMcmf()[i][j] == c->GetMoonRotation().GetDcmJ2000ToMcmf()[i][j], "lunar frame");
        sym_assert(d.GetEarthRotation().GetDcmJ2000ToEcef()[i][j] == c->GetEarthRotation().GetDcmJ2000ToEcef()[i][j], "Earth frame");
      }
    sym_assert(d.GetCenterBodyName() == "EARTH", "center");
    for (int b = 0; b < 4; b++) for (int i = 0; i < 6; i++) g_state[b][i] += 1;
    update(d, *t);
    positions(d);
    for (int b = 0; b < 4; b++) for (int i = 0; i < 6; i++) g_state[b][i] -= 1;
  }
  positions(*c);
  sym_assert(c->GetEarthRotation().GetDcmJ2000ToEcef()[0][1] == 0.5, "the original survives its copy");
  delete c;
}
