// SRC: src/math_physics/math/vector.cpp src/math_physics/math/s2e_math.cpp
// MODE: real
// BOUNDS: dimension 3 (vectors), 2x3/3x2/3x3 (products), inverse of 2x2 (any entries in [-10,10]) and of 3x3 (first row free, other entries positive), WrapTo2Pi for angles in [-20,20]; degenerate pivots excluded by |det| > 1e-3
// OPT: max_paths=3000
#include "util.hpp"
#include <math_physics/math/constants.hpp>
#include <math_physics/math/s2e_math.hpp>
using namespace s2e::math;
using namespace vu;

template <size_t R, size_t C>
static Matrix<R, C> mat(const char* n, double lo, double hi) {
  Matrix<R, C> m;
  for (size_t i = 0; i < R; i++)
    for (size_t j = 0; j < C; j++) m[i][j] = sym_double((std::string(n) + std::to_string(i) + std::to_string(j)).c_str(), lo, hi);
  return m;
}
template <size_t R, size_t C>
static void close_mat(const Matrix<R, C>& a, const Matrix<R, C>& b, double tol, const char* l) {
  for (size_t i = 0; i < R; i++)
    for (size_t j = 0; j < C; j++) sym_assert_close(a[i][j], b[i][j], tol, l);
}

CHECK(vector_ops) {
  Vector<3> a = vec3("a", -10, 10), b = vec3("b", -10, 10), c = vec3("c", -10, 10);
  double k = sym_double("k", -5, 5);
  for (int i = 0; i < 3; i++) {
    sym_assert_close((a + b)[i], a[i] + b[i], 1e-12, "sum");
    sym_assert_close((a - b)[i], a[i] - b[i], 1e-12, "difference");
    sym_assert_close((k * a)[i], k * a[i], 1e-12, "scaling");
    sym_assert_close((-a)[i], -a[i], 1e-12, "negation");
  }
  Vector<3> d = a;
  d += b;
  close_vec(d, a + b, 1e-12, "+=");
  d -= b;
  close_vec(d, a, 1e-12, "-= undoes +=");
  d *= k;
  close_vec(d, k * a, 1e-12, "*=");
  sym_assert_close(InnerProduct(a, b), a[0] * b[0] + a[1] * b[1] + a[2] * b[2], 1e-10, "inner product");
  Vector<3> x = OuterProduct(a, b);
  sym_assert_close(InnerProduct(x, a), 0, 1e-9, "cross product orthogonal to first");
  sym_assert_close(InnerProduct(x, b), 0, 1e-9, "cross product orthogonal to second");
  close_vec(OuterProduct(b, a), -x, 1e-10, "cross product antisymmetric");
  sym_assert_close(InnerProduct(x, x), InnerProduct(a, a) * InnerProduct(b, b) - InnerProduct(a, b) * InnerProduct(a, b), 1e-6, "Lagrange identity");
  close_vec(OuterProduct(a, OuterProduct(b, c)), InnerProduct(a, c) * b - InnerProduct(a, b) * c, 1e-7, "triple product (right handed)");
  Vector<3> ex(0.0), ey(0.0), ez(0.0);
  ex[0] = 1; ey[1] = 1; ez[2] = 1;
  close_vec(OuterProduct(ex, ey), ez, 0, "x cross y = z");
}
CHECK(vector_norm) {
  Vector<3> a = vec3("a", -10, 10);
  double n = a.CalcNorm();
  sym_assert_le(0, n, "norm non-negative");
  sym_assert_close(n * n, InnerProduct(a, a), 1e-9, "norm squared");
  Vector<3> u = a.CalcNormalizedVector();
  if (n > 1e-3) {
    sym_assert_close(InnerProduct(u, u), 1, 1e-9, "unit length");
    close_vec(n * u, a, 1e-9, "same direction");
  }
  double k = sym_double("k", 0.5, 4);
  Vector<3> d = a;
  d /= k;
  close_vec(k * d, a, 1e-9, "division undoes scaling");
}
CHECK(normalize_zero) {
  Vector<3> z(0.0);
  close_vec(z.CalcNormalizedVector(), z, 0, "zero vector stays zero");
}
CHECK(vector_range) {
  Vector<3> a = vec3("a", -10, 10);
  const Vector<3>& ca = a;
  int64_t i = sym_choose("i", 0, 8);
  bool thrown = false;
  double r = 0, s = 0;
  try { r = a(i); s = ca(i); } catch (const std::invalid_argument&) { thrown = true; }
  sym_assert(thrown == (i >= 3), "vector index check");
  if (!thrown) { sym_assert_close(r, a[i], 0, "vector element"); sym_assert_close(s, a[i], 0, "vector element (const)"); }
  Matrix<2, 3> m = mat<2, 3>("m", -1, 1);
  int64_t p = sym_choose("p", 0, 4), q = sym_choose("q", 0, 4);
  thrown = false;
  try { r = m(p, q); } catch (const std::invalid_argument&) { thrown = true; }
  sym_assert(thrown == (p >= 2 || q >= 3), "matrix index check");
  if (!thrown) sym_assert_close(r, m[p][q], 0, "matrix element");
}
CHECK(angle_between) {
  Vector<3> u = unit_vec("u"), v = unit_vec("v");
  double la = sym_double("la", 0.1, 10), lb = sym_double("lb", 0.1, 10);
  double c = InnerProduct(u, v);
  sym_assume(c < 0.999);
  sym_assume(c > -0.999);
  double th = CalcAngleTwoVectors_rad(la * u, lb * v);
  sym_assert_close(std::cos(th), c, 1e-9, "cosine of the angle");
  sym_assert_le(0, th, "angle non-negative");
  sym_assert_le(th, pi + 1e-9, "angle at most pi");
}
CHECK(angle_parallel) {
  // evaluated in IEEE arithmetic: rounding must not push the cosine out of [-1, 1]
  int64_t i = sym_choose("i", 1, 20);
  Vector<3> v(0.3);
  v[0] = 0.1 * i;
  v[1] = 0.2 * i + 0.1;
  sym_assert_close(CalcAngleTwoVectors_rad(v, v), 0.0, 1e-6, "parallel vectors");
  sym_assert_close(CalcAngleTwoVectors_rad(v, -1.0 * v), pi, 1e-6, "antiparallel vectors");
}
CHECK(polar) {
  Vector<3> a = vec3("a", -10, 10);
  sym_assume(a[0] * a[0] + a[1] * a[1] > 1e-4);
  Vector<3> p = ConvertFrameOrthogonal2Polar(a);
  sym_assert_close(p[0] * std::sin(p[1]) * std::cos(p[2]), a[0], 1e-7, "x = r sin(theta) cos(phi)");
  sym_assert_close(p[0] * std::sin(p[1]) * std::sin(p[2]), a[1], 1e-7, "y = r sin(theta) sin(phi)");
  sym_assert_close(p[0] * std::cos(p[1]), a[2], 1e-7, "z = r cos(theta)");
  sym_assert_le(0, p[1], "theta >= 0");
  sym_assert_le(p[1], pi + 1e-9, "theta <= pi");
  sym_assert_le(0, p[2], "phi >= 0");
  sym_assert_le(p[2], tau + 1e-9, "phi <= 2 pi");
}
CHECK(polar_axis) {
  double z = sym_double("z", -10, 10);
  Vector<3> a(0.0);
  a[2] = z;
  Vector<3> p = ConvertFrameOrthogonal2Polar(a);
  sym_assert_close(p[0] * std::cos(p[1]), z, 1e-9, "z on the axis");
  sym_assert_close(p[2], 0, 0, "phi = 0 on the axis");
}
CHECK(orthogonal_unit) {
  Vector<3> a = vec3("a", -10, 10);
  sym_assume(InnerProduct(a, a) > 1e-4);
  Vector<3> o = GenerateOrthogonalUnitVector(a);
  sym_assert_close(InnerProduct(o, o), 1, 1e-9, "unit");
  sym_assert_close(InnerProduct(o, a), 0, 1e-8, "orthogonal");
}
CHECK(matrix_ops) {
  Matrix<2, 3> a = mat<2, 3>("a", -10, 10), a2 = mat<2, 3>("A", -10, 10);
  Matrix<3, 2> b = mat<3, 2>("b", -10, 10);
  Vector<3> v = vec3("v", -10, 10);
  double k = sym_double("k", -5, 5);
  for (int i = 0; i < 2; i++) {
    for (int j = 0; j < 3; j++) {
      sym_assert_close((a + a2)[i][j], a[i][j] + a2[i][j], 1e-12, "sum");
      sym_assert_close((a - a2)[i][j], a[i][j] - a2[i][j], 1e-12, "difference");
      sym_assert_close((k * a)[i][j], k * a[i][j], 1e-12, "scaling");
      sym_assert_close(a.Transpose()[j][i], a[i][j], 0, "transpose");
    }
    for (int j = 0; j < 2; j++) sym_assert_close((a * b)[i][j], a[i][0] * b[0][j] + a[i][1] * b[1][j] + a[i][2] * b[2][j], 1e-9, "product");
    sym_assert_close((a * v)[i], a[i][0] * v[0] + a[i][1] * v[1] + a[i][2] * v[2], 1e-9, "matrix times vector");
  }
  Matrix<2, 3> d = a;
  d += a2;
  close_mat(d, a + a2, 1e-12, "+=");
  d -= a2;
  close_mat(d, a, 1e-12, "-= undoes +=");
  d *= k;
  close_mat(d, k * a, 1e-12, "*=");
  sym_assume(k > 0.5);
  d /= k;
  close_mat(d, a, 1e-9, "/= undoes *=");
  Matrix<3, 3> s = mat<3, 3>("s", -10, 10);
  sym_assert_close(s.CalcTrace(), s[0][0] + s[1][1] + s[2][2], 1e-10, "trace");
  Matrix<3, 3> e = MakeIdentityMatrix<3>();
  close_mat(e * s, s, 1e-12, "identity");
  close_mat(s * e, s, 1e-12, "identity from the right");
}
CHECK(elementary_rotations) {
  double t = sym_double("t", -7, 7), s = sym_double("s", -7, 7);
  Vector<3> v = vec3("v", -10, 10);
  double c = std::cos(t), n = std::sin(t);
  Vector<3> x = MakeRotationMatrixX(t) * v, y = MakeRotationMatrixY(t) * v, z = MakeRotationMatrixZ(t) * v;
  sym_assert_close(x[0], v[0], 1e-9, "X keeps x");
  sym_assert_close(x[1], c * v[1] + n * v[2], 1e-9, "X rotates the frame by +t (y)");
  sym_assert_close(x[2], -n * v[1] + c * v[2], 1e-9, "X rotates the frame by +t (z)");
  sym_assert_close(y[1], v[1], 1e-9, "Y keeps y");
  sym_assert_close(y[2], c * v[2] + n * v[0], 1e-9, "Y rotates the frame by +t (z)");
  sym_assert_close(y[0], -n * v[2] + c * v[0], 1e-9, "Y rotates the frame by +t (x)");
  sym_assert_close(z[2], v[2], 1e-9, "Z keeps z");
  sym_assert_close(z[0], c * v[0] + n * v[1], 1e-9, "Z rotates the frame by +t (x)");
  sym_assert_close(z[1], -n * v[0] + c * v[1], 1e-9, "Z rotates the frame by +t (y)");
  close_mat(MakeRotationMatrixX(t) * MakeRotationMatrixX(s), MakeRotationMatrixX(t + s), 1e-9, "X composes");
  close_mat(MakeRotationMatrixY(t) * MakeRotationMatrixY(s), MakeRotationMatrixY(t + s), 1e-9, "Y composes");
  close_mat(MakeRotationMatrixZ(t) * MakeRotationMatrixZ(s), MakeRotationMatrixZ(t + s), 1e-9, "Z composes");
}
CHECK(inverse2) {
  Matrix<2, 2> m = mat<2, 2>("m", -10, 10);
  double det = m[0][0] * m[1][1] - m[0][1] * m[1][0];
  sym_assume(det > 1e-3 || det < -1e-3);
  Matrix<2, 2> i = CalcInverseMatrix(m);
  close_mat(m * i, MakeIdentityMatrix<2>(), 1e-6, "M * inverse = 1");
  close_mat(i * m, MakeIdentityMatrix<2>(), 1e-6, "inverse * M = 1");
}
CHECK(inverse3) {
  Matrix<3, 3> m;
  int64_t shape = sym_choose("shape", 0, 2);
  // pivot order is fixed by the magnitudes; off-diagonal entries stay free
  static const double mag[3][3] = {{4, 5, 6}, {4, 5, 6}, {4, 5, 6}};
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) {
      double big = (j == (i + shape) % 3) ? mag[0][i] : 0;
      m[i][j] = big + sym_double(("m" + std::to_string(i) + std::to_string(j)).c_str(), -1, 1);
    }
  Matrix<3, 3> i = CalcInverseMatrix(m);
  close_mat(m * i, MakeIdentityMatrix<3>(), 1e-9, "M * inverse = 1");
}
THOROUGH(inverse3_free) {
  Matrix<3, 3> m = mat<3, 3>("m", 0.1, 10);
  double det = m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]);
  sym_assume(det > 1e-2);
  Matrix<3, 3> i = CalcInverseMatrix(m);
  close_mat(m * i, MakeIdentityMatrix<3>(), 1e-6, "M * inverse = 1");
}
CHECK(singular) {
  double a = sym_double("a", 0.5, 4), b = sym_double("b", -4, 4);
  Matrix<2, 2> m;
  m[0][0] = a; m[0][1] = b; m[1][0] = 0.0; m[1][1] = 0.0;
  bool thrown = false;
  try { CalcInverseMatrix(m); } catch (const std::invalid_argument&) { thrown = true; }
  sym_assert(thrown, "zero row is reported as singular");
  m[1][0] = 2 * a; m[1][1] = 2 * b;
  Matrix<2, 2> z(0.0);
  thrown = false;
  try { CalcInverseMatrix(z); } catch (const std::invalid_argument&) { thrown = true; }
  sym_assert(thrown, "zero matrix is reported as singular");
}
CHECK(wrap) {
  double x = sym_double("x", -20, 20);
  double w = WrapTo2Pi(x);
  sym_assert_le(0, w, "at least 0");
  sym_assert_le(w, tau, "at most 2 pi");
  sym_assert_close(std::cos(w), std::cos(x), 1e-9, "same angle (cos)");
  double k = (w - x) / tau;
  double r = k - std::floor(k + 0.5);
  sym_assert_close(r, 0, 1e-9, "differs by a multiple of 2 pi");
}
