#pragma once
// environment of an orbit propagator: Earth rotation, geodetic conversion cut off (checked by M08)
#include "open.hpp"
#include "util.hpp"
#include <dynamics/orbit/orbit.hpp>
#include <environment/global/celestial_information.hpp>
namespace orbenv {
inline s2e::math::Vector<3> g_geodetic_input;
struct World {
  Raw<s2e::environment::CelestialInformation> gc;
  Raw<s2e::environment::EarthRotation> er;
  World() {
    gc->earth_rotation_ = er.get();
    for (int i = 0; i < 3; i++)
      for (int j = 0; j < 3; j++) er->dcm_j2000_to_ecef_[i][j] = i == j;
  }
};
}  // namespace orbenv
