// SRC: src/math_physics/geodesy/geodetic_position.cpp src/math_physics/orbit/sgp4/sgp4ext.cpp
// MODE: real
// BOUNDS: latitude in [-pi/2, pi/2], longitude in [-7,7] rad, altitude in [-10 km, 1000 km]; conversion from ECEF on 11 latitudes (poles, near-poles, equator included) x 2 altitudes with arbitrary longitude and 16 longitudes
// OPT: real_ints=40
#include "util.hpp"
#include <math_physics/geodesy/geodetic_position.hpp>
#include <environment/global/physical_constants.hpp>
using namespace s2e;
using geodesy::GeodeticPosition;
using math::Vector;
static const double HPI = 1.57079632679489661923;
static double A() { return environment::earth_equatorial_radius_m; }
static double F() { return environment::earth_flattening; }

CHECK(ecef_from_geodetic) {
  double lat = sym_double("lat", -HPI, HPI), lon = sym_double("lon", -7, 7), alt = sym_double("alt", -1e4, 1e6);
  GeodeticPosition g(lat, lon, alt), s(lat, lon, 0.0);
  sym_assert_close(g.GetLatitude_rad(), lat, 0, "latitude is kept");
  sym_assert_close(g.GetLongitude_rad(), lon, 0, "longitude is kept");
  sym_assert_close(g.GetAltitude_m(), alt, 0, "altitude is kept");
  Vector<3> p = g.CalcEcefPosition(), q = s.CalcEcefPosition();
  double up[3] = {std::cos(lat) * std::cos(lon), std::cos(lat) * std::sin(lon), std::sin(lat)};
  for (int i = 0; i < 3; i++) sym_assert_close(p[i] - q[i], alt * up[i], 1e-3, "altitude is measured along the vertical");
  double a = A(), b = A() * (1 - F()), x = q[0] / a, y = q[1] / a, z = q[2] / b;
  sym_assert_close(x * x + y * y + z * z, 1.0, 1e-9, "zero altitude lies on the reference ellipsoid");
  double gr[3] = {x / a, y / a, z / b};
  sym_assert_close((gr[1] * up[2] - gr[2] * up[1]) * a, 0.0, 1e-9, "vertical is normal to the ellipsoid (x)");
  sym_assert_close((gr[2] * up[0] - gr[0] * up[2]) * a, 0.0, 1e-9, "vertical is normal to the ellipsoid (y)");
  sym_assert_close((gr[0] * up[1] - gr[1] * up[0]) * a, 0.0, 1e-9, "vertical is normal to the ellipsoid (z)");
  sym_assert((gr[0] * up[0] + gr[1] * up[1] + gr[2] * up[2]) > 0, "vertical points outward");
}
CHECK(local_frame) {
  double lat = sym_double("lat", -HPI, HPI), lon = sym_double("lon", -7, 7);
  GeodeticPosition g(lat, lon, 100.0);
  double cl = std::cos(lat), sl = std::sin(lat), co = std::cos(lon), so = std::sin(lon);
  double w[3][3] = {{-so, co, 0}, {-sl * co, -sl * so, cl}, {cl * co, cl * so, sl}};
  for (int k = 0; k < 3; k++) {
    Vector<3> v;
    for (int i = 0; i < 3; i++) v[i] = w[k][i];
    Vector<3> l = g.GetQuaternionXcxfToLtc().FrameConversion(v);
    for (int i = 0; i < 3; i++) sym_assert_close(l[i], i == k ? 1.0 : 0.0, 1e-6, "east, north and up are the local axes");
  }
}
static void close_back(const Vector<3>& q, const Vector<3>& p) { for (int i = 0; i < 3; i++) sym_assert_close(q[i], p[i], 0.5, "ECEF -> geodetic -> ECEF"); }
// concrete latitude and altitude, arbitrary longitude
CHECK(geodetic_from_ecef) {
  static const double LA[11] = {-HPI, -1.5707, -1.0, -0.2, -1e-9, 0.0, 1e-4, 0.3, 1.1, 1.570796, HPI};
  static const double AL[2] = {-500.0, 5.5e5};
  int i = sym_choose("latitude", 0, 10), j = sym_choose("altitude", 0, 1);
  double lon = sym_double("lon", -3.2, 3.2), lat = LA[i], alt = AL[j];
  double a = A(), f = F(), e2 = f * (2 - f), n = a / std::sqrt(1 - e2 * std::sin(lat) * std::sin(lat));
  double r = (i == 0 || i == 10) ? 0.0 : (n + alt) * std::cos(lat);
  Vector<3> p;
  p[0] = r * std::cos(lon);
  p[1] = r * std::sin(lon);
  p[2] = (n * (1 - e2) + alt) * std::sin(lat);
  GeodeticPosition g;
  g.UpdateFromEcef(p);
  sym_assert_close(g.GetLatitude_rad(), lat, 1e-7, "latitude of an ECEF position");
  sym_assert_close(g.GetAltitude_m(), alt, 0.5, "altitude of an ECEF position");
}
// longitude in every quadrant, on and off the axes
CHECK(longitude_from_ecef) {
  static const double D[16][2] = {{1, 0}, {1, 0.01}, {0.8, 0.6}, {0.01, 1}, {0, 1}, {-0.01, 1}, {-0.6, 0.8}, {-1, 0.01}, {-1, 0}, {-1, -0.01}, {-0.8, -0.6}, {-0.01, -1}, {0, -1}, {0.01, -1}, {0.6, -0.8}, {1, -0.01}};
  int i = sym_choose("direction", 0, 15);
  double k = A();
  Vector<3> p;
  p[0] = k * D[i][0]; p[1] = k * D[i][1]; p[2] = 0.3 * k;
  GeodeticPosition g;
  g.UpdateFromEcef(p);
  double l = g.GetLongitude_rad(), r = std::sqrt(D[i][0] * D[i][0] + D[i][1] * D[i][1]);
  sym_assert(l >= -1e-9 && l <= 2 * 3.14159265358979324 + 1e-9, "longitude is in [0, 2 pi)");
  sym_assert_close(r * std::cos(l), D[i][0], 1e-6, "longitude of an ECEF position (cos)");
  sym_assert_close(r * std::sin(l), D[i][1], 1e-6, "longitude of an ECEF position (sin)");
  GeodeticPosition b(g.GetLatitude_rad(), l, g.GetAltitude_m());
  close_back(g.CalcEcefPosition(), p);
  close_back(b.CalcEcefPosition(), p);
}
