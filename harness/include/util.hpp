#pragma once
#include <cmath>
#include <string>
#include "sym.h"
#include <math_physics/math/quaternion.hpp>
#include <math_physics/math/vector.hpp>
#include <math_physics/math/matrix.hpp>
#include <math_physics/math/matrix_vector.hpp>
namespace vu {
using s2e::math::Vector;
using s2e::math::Matrix;
using s2e::math::Quaternion;
inline Vector<3> vec3(const char* n, double lo, double hi) {
  std::string s(n);
  Vector<3> v;
  v[0] = sym_double((s + ".x").c_str(), lo, hi);
  v[1] = sym_double((s + ".y").c_str(), lo, hi);
  v[2] = sym_double((s + ".z").c_str(), lo, hi);
  return v;
}
// arbitrary unit quaternion / unit vector (exact unit norm for the solver, normalised natively)
inline Quaternion unit_quat(const char* n) {
  double a[4];
  sym_unit(n, 4, a);
  return Quaternion(a[0], a[1], a[2], a[3]);
}
inline Vector<3> unit_vec(const char* n) {
  double a[3];
  sym_unit(n, 3, a);
  Vector<3> v;
  for (int i = 0; i < 3; i++) v[i] = a[i];
  return v;
}
inline Quaternion free_quat(const char* n, double m = 1.0) {
  std::string s(n);
  return Quaternion(sym_double((s + ".x").c_str(), -m, m), sym_double((s + ".y").c_str(), -m, m), sym_double((s + ".z").c_str(), -m, m), sym_double((s + ".w").c_str(), -m, m));
}
inline double dotn(const double* a, const double* b, int n) { double s = 0; for (int i = 0; i < n; i++) s += a[i] * b[i]; return s; }
template <size_t N> void close_vec(const Vector<N>& a, const Vector<N>& b, double tol, const char* l) { for (size_t i = 0; i < N; i++) sym_assert_close(a[i], b[i], tol, l); }
inline void close_quat(const Quaternion& a, const Quaternion& b, double tol, const char* l) { for (size_t i = 0; i < 4; i++) sym_assert_close(a[i], b[i], tol, l); }
inline void same_rotation(const Quaternion& a, const Quaternion& b, double tol, const char* l) {
  // equal up to sign: a_i b_j == a_j b_i and a.b = +-1
  double d = 0;
  for (int i = 0; i < 4; i++) d += a[i] * b[i];
  sym_assert_close(d * d, 1.0, tol, l);
}
}  // namespace vu
