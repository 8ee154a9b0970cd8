// SRC: src/math_physics/math/quaternion.cpp src/math_physics/math/vector.cpp
// MODE: real
// BOUNDS: quaternion components in [-1,1] (unit quaternions: any free 4-vector of squared norm > 0.01, normalised by the harness), vectors in [-10,10]^3, angles in [-7,7] rad; Euler pitch excluded within 0.001 rad of +-pi/2
#include "util.hpp"
using namespace s2e::math;
using namespace vu;

CHECK(product_algebra) {
  Quaternion a = free_quat("a"), b = free_quat("b"), c = free_quat("c");
  close_quat((a * b) * c, a * (b * c), 1e-12, "associative");
  Quaternion one(0, 0, 0, 1);
  close_quat(a * one, a, 1e-15, "right identity");
  close_quat(one * a, a, 1e-15, "left identity");
  close_quat((a * b).Conjugate(), b.Conjugate() * a.Conjugate(), 1e-12, "conjugate reverses");
  Quaternion n = a * a.Conjugate();
  double n2 = a[0] * a[0] + a[1] * a[1] + a[2] * a[2] + a[3] * a[3];
  close_quat(n, Quaternion(0, 0, 0, n2), 1e-12, "a conj(a) = |a|^2");
  // basis products (i j = k in the library's frame-conversion convention)
  Quaternion i(1, 0, 0, 0), j(0, 1, 0, 0), k(0, 0, 1, 0);
  close_quat(i * j, k, 0, "ij");
  close_quat(j * k, i, 0, "jk");
  close_quat(k * i, j, 0, "ki");
  close_quat(i * i, Quaternion(0, 0, 0, -1), 0, "ii");
  Vector<3> v = vec3("v", -10, 10);
  close_quat(a * v, a * Quaternion(v[0], v[1], v[2], 0.0), 1e-12, "quaternion times vector = pure quaternion");
  close_quat(2.5 * a, Quaternion(2.5 * a[0], 2.5 * a[1], 2.5 * a[2], 2.5 * a[3]), 1e-15, "scalar product");
  close_quat(a + b, Quaternion(a[0] + b[0], a[1] + b[1], a[2] + b[2], a[3] + b[3]), 1e-15, "sum");
  close_quat(a - b, Quaternion(a[0] - b[0], a[1] - b[1], a[2] - b[2], a[3] - b[3]), 1e-15, "difference");
}

CHECK(normalize) {
  Quaternion a = free_quat("a", 10.0);
  double n2 = a[0] * a[0] + a[1] * a[1] + a[2] * a[2] + a[3] * a[3];
  sym_assume(n2 > 1e-6);
  Quaternion o = a;
  Quaternion r = a.Normalize();
  sym_assert_close(a[0] * a[0] + a[1] * a[1] + a[2] * a[2] + a[3] * a[3], 1.0, 1e-9, "unit norm");
  close_quat(r, a, 0, "returns itself");
  double n = std::sqrt(n2);
  for (int i = 0; i < 4; i++) sym_assert_close(a[i] * n, o[i], 1e-9, "same direction");
}
CHECK(normalize_zero) {
  Quaternion z(0, 0, 0, 0);
  z.Normalize();
  close_quat(z, Quaternion(0, 0, 0, 0), 0, "zero quaternion stays zero");
}

CHECK(dcm_is_rotation) {
  Quaternion q = unit_quat("q");
  Matrix<3, 3> m = q.ConvertToDcm();
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) {
      double s = 0;
      for (int k = 0; k < 3; k++) s += m[i][k] * m[j][k];
      sym_assert_close(s, i == j ? 1.0 : 0.0, 1e-9, "orthonormal rows");
    }
  double det = m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]);
  sym_assert_close(det, 1.0, 1e-9, "proper rotation");
}
CHECK(dcm_equals_frame_conversion) {
  Quaternion q = free_quat("q");
  Vector<3> v = vec3("v", -10, 10);
  Vector<3> w = q.FrameConversion(v);
  Matrix<3, 3> m = q.ConvertToDcm();
  close_vec(m * v, w, 1e-10, "dcm*v == FrameConversion(v)");
  close_vec(m.Transpose() * v, q.InverseFrameConversion(v), 1e-10, "dcm^T*v == InverseFrameConversion(v)");
}
CHECK(frame_conversion_isometry) {
  Quaternion q = unit_quat("q");
  Vector<3> v = vec3("v", -10, 10), u = vec3("u", -10, 10);
  Vector<3> w = q.FrameConversion(v), x = q.FrameConversion(u);
  sym_assert_close(InnerProduct(w, x), InnerProduct(v, u), 1e-7, "inner product preserved");
  close_vec(q.InverseFrameConversion(w), v, 1e-9, "inverse undoes conversion");
  close_vec(q.FrameConversion(q.InverseFrameConversion(v)), v, 1e-9, "conversion undoes inverse");
  close_vec(q.Conjugate().FrameConversion(v), q.InverseFrameConversion(v), 1e-9, "conjugate is the inverse conversion");
}
CHECK(frame_conversion_composes) {
  Quaternion p = free_quat("p"), q = free_quat("q");
  Vector<3> v = vec3("v", -10, 10);
  // q_ab * q_bc is the a->c conversion: convert by p first, then by q
  close_vec((p * q).FrameConversion(v), q.FrameConversion(p.FrameConversion(v)), 1e-9, "composition");
}
CHECK(dcm_roundtrip) {
  Quaternion q = unit_quat("q");
  Quaternion r = Quaternion::ConvertFromDcm(q.ConvertToDcm());
  same_rotation(r, q, 1e-9, "q -> dcm -> q");
}
CHECK(axis_angle) {
  Quaternion f = free_quat("f");
  Vector<3> ax = vec3("axis", -1, 1);
  sym_assume(ax[0] * ax[0] + ax[1] * ax[1] + ax[2] * ax[2] > 0.01);
  double n = std::sqrt(ax[0] * ax[0] + ax[1] * ax[1] + ax[2] * ax[2]);
  ax /= n;
  double th = sym_double("theta", -7, 7);
  Quaternion q(ax, th);
  sym_assert_close(dotn(q, q, 4), 1.0, 1e-9, "unit");
  close_vec(q.FrameConversion(ax), ax, 1e-9, "axis is invariant");
  // rotation angle: trace(dcm) = 1 + 2 cos(theta)
  sym_assert_close(q.ConvertToDcm().CalcTrace(), 1.0 + 2.0 * std::cos(th), 1e-9, "trace");
  // sense: Rodrigues formula for the frame conversion
  Vector<3> v = vec3("v", -10, 10);
  Vector<3> w = q.FrameConversion(v);
  Vector<3> rod = std::cos(th) * v - std::sin(th) * OuterProduct(ax, v) + ((1.0 - std::cos(th)) * InnerProduct(ax, v)) * ax;
  close_vec(w, rod, 1e-8, "Rodrigues");
}
CHECK(two_vectors) {
  // orthonormal pair (u, w) = two rows of an arbitrary rotation; b is at angle t from a in the plane (u, w)
  Quaternion f = unit_quat("f");
  Matrix<3, 3> m = f.ConvertToDcm();
  Vector<3> u, w;
  for (int i = 0; i < 3; i++) { u[i] = m[0][i]; w[i] = m[1][i]; }
  double la = sym_double("la", 0.1, 10), lb = sym_double("lb", 0.1, 10), t = sym_double("t", 0.01, 3.13);
  Vector<3> a = la * u, b = lb * (std::cos(t) * u + std::sin(t) * w);
  Quaternion q(a, b);
  sym_assert_close(dotn(q, q, 4), 1.0, 1e-9, "unit");
  close_vec(lb * q.InverseFrameConversion(a), la * b, 1e-7, "rotates the first vector onto the second");
}
CHECK(two_vectors_degenerate) {
  Vector<3> a = vec3("a", -2, 2);
  double na = InnerProduct(a, a);
  sym_assume(na > 0.01);
  double k = sym_double("k", 0.1, 3);
  Quaternion same(a, k * a);
  close_vec(same.InverseFrameConversion(a), a, 1e-6, "parallel: identity");
  Quaternion opp(a, (-k) * a);
  close_vec(opp.InverseFrameConversion(a), -1.0 * a, 1e-6, "antiparallel: half turn");
}
CHECK(euler_roundtrip) {
  Vector<3> e = vec3("e", -3, 3);
  sym_assume(e[1] > -1.57);
  sym_assume(e[1] < 1.57);
  Quaternion q = Quaternion::ConvertFromEuler(e);
  sym_assert_close(dotn(q, q, 4), 1.0, 1e-8, "unit");
  // the DCM is R_x(e0) R_y(e1) R_z(e2)
  Matrix<3, 3> ref = MakeRotationMatrixX(e[0]) * MakeRotationMatrixY(e[1]) * MakeRotationMatrixZ(e[2]);
  Matrix<3, 3> m = q.ConvertToDcm();
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) sym_assert_close(m[i][j], ref[i][j], 1e-8, "3-2-1 rotation sequence");
}
CHECK(euler_from_quaternion) {
  Quaternion q = unit_quat("q");
  Vector<3> e = q.ConvertToEuler();
  Matrix<3, 3> m = q.ConvertToDcm();
  double h2 = m[1][2] * m[1][2] + m[2][2] * m[2][2];
  sym_assume(h2 > 1e-6);
  double h = std::sqrt(h2);
  // angles reproduce the dcm entries they are defined by
  sym_assert_close(h * std::sin(e[0]), m[1][2], 1e-8, "roll sine");
  sym_assert_close(h * std::cos(e[0]), m[2][2], 1e-8, "roll cosine");
  sym_assert_close(std::sin(e[1]) * h, -m[0][2] * std::cos(e[1]), 1e-8, "pitch tangent");
  sym_assert_le(0.0, std::cos(e[1]), "pitch in [-90,90] deg");
  sym_assert_close(h * std::sin(e[2]), m[0][1], 1e-8, "yaw sine");
  sym_assert_close(h * std::cos(e[2]), m[0][0], 1e-8, "yaw cosine");
}
