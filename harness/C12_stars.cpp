// SRC: src/environment/global/hipparcos_catalogue.cpp
// MODE: real
// BOUNDS: any right ascension, declination and attitude; catalogues of up to 3 stars
// STUBS: the catalogue is set directly instead of read from a file
#include "open.hpp"
#include <environment/global/hipparcos_catalogue.hpp>
#include <math_physics/math/constants.hpp>
using namespace s2e;
using math::Vector;
CHECK(star_directions) {
  environment::HipparcosCatalogue h(3.0, "x");
  double ra[3], de[3];
  int k = (int)sym_choose("rank", 0, 2);
  for (int i = 0; i < 3; i++) {
    environment::HipparcosData d;
    d.hipparcos_id = i + 7;
    d.visible_magnitude = sym_double("magnitude", -2, 3);
    d.right_ascension_deg = ra[i] = sym_double("right_ascension", 0, 360);
    d.declination_deg = de[i] = sym_double("declination", -90, 90);
    h.hipparcos_catalogue_.push_back(d);
  }
  sym_assert(h.GetCatalogueSize() == 3 && h.GetHipparcosId(k) == k + 7, "stars by rank");
  math::Quaternion q = vu::unit_quat("q_i2b");
  double a = ra[k] * math::deg_to_rad, b = de[k] * math::deg_to_rad;
  Vector<3> e;
  e[0] = std::cos(b) * std::cos(a);
  e[1] = std::cos(b) * std::sin(a);
  e[2] = std::sin(b);
  vu::close_vec(h.GetStarDirection_i(k), e, 1e-12, "inertial direction from right ascension and declination");
  vu::close_vec(h.GetStarDirection_b(k, q), q.FrameConversion(e), 1e-9, "body direction");
}
