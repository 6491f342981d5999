// C14 - rotation representations.
//@bounds quick: all (roll, pitch, yaw) with angles from multiples of 15 deg in +-180 deg plus {+-7.5, +-89.99999, +-90 -+ 1 ulp, +-1e-9, 90-1e-6, 450, -810 deg, 1e-8 to 1e-2 deg around every multiple of 90, many turns}; the 24 exact cube rotations and the 48 quaternions of the binary octahedral group as matrices and quaternions; quaternions on the lattice {-2..2}^4 normalised, both signs; rotations by 1e-1 to 1e-12 rad about lattice axes away from 8 exact ones (identity, half turns, gimbal lock)
//@bounds thorough: multiples of 5 deg, lattice {-4..4}^4
//@model products of elementary rotations Rz(yaw) Ry(pitch) Rx(roll) in long double; quaternion product; matrix of a unit quaternion from q v q*
//@assume orientation recovered from Euler angles is compared within 1e-13/cos(pitch), at most 1e-7 at gimbal lock
#include "mc.h"
#include "MathUtils/MathUtils.h"
using namespace mathutils;
using mc::LD;
static const LD PI = 3.14159265358979323846264338327950288L;
struct M { LD a[3][3]; };
struct Q { LD w, x, y, z; };
static M mul(const M &p, const M &q) { M r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { r.a[i][j] = 0; for (int k = 0; k < 3; ++k) r.a[i][j] += p.a[i][k] * q.a[k][j]; } return r; }
static M euler(LD r, LD p, LD y) {
  M X{{{1, 0, 0}, {0, cosl(r), -sinl(r)}, {0, sinl(r), cosl(r)}}}, Y{{{cosl(p), 0, sinl(p)}, {0, 1, 0}, {-sinl(p), 0, cosl(p)}}}, Z{{{cosl(y), -sinl(y), 0}, {sinl(y), cosl(y), 0}, {0, 0, 1}}};
  return mul(Z, mul(Y, X));
}
static Q qm(Q a, Q b) { return {a.w * b.w - a.x * b.x - a.y * b.y - a.z * b.z, a.w * b.x + a.x * b.w + a.y * b.z - a.z * b.y, a.w * b.y - a.x * b.z + a.y * b.w + a.z * b.x, a.w * b.z + a.x * b.y - a.y * b.x + a.z * b.w}; }
static M qmat(Q q) {   // columns are q e_k q*
  M r; Q c{q.w, -q.x, -q.y, -q.z};
  for (int k = 0; k < 3; ++k) { Q e{0, (LD) (k == 0), (LD) (k == 1), (LD) (k == 2)}; Q v = qm(qm(q, e), c); r.a[0][k] = v.x; r.a[1][k] = v.y; r.a[2][k] = v.z; }
  return r;
}
static void same(const Eigen::Matrix3d &g, const M &w, LD tol, const char *what) {
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) mc::Near(g(i, j), w.a[i][j], 1, tol, "%s, entry (%d,%d)", what, i, j);
}
static void proper(const Eigen::Matrix3d &g, const char *what) {
  LD d = 0;
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) {
    LD s = 0; for (int k = 0; k < 3; ++k) s += (LD) g(k, i) * g(k, j);
    mc::Near(s, i == j, 1, 1e-14L, "%s: orthonormality (%d,%d)", what, i, j);
    d += (LD) g(0, i) * ((LD) g(1, (i + 1) % 3) * g(2, (i + 2) % 3) - (LD) g(1, (i + 2) % 3) * g(2, (i + 1) % 3)) / 3 * (j == 0 ? 3 : 0);
  }
  mc::Near(d, 1, 1, 1e-14L, "%s: determinant", what);
}
static void anglesof(const Eigen::Vector3d &e, const M &w, const char *what) {
  MC_CHECK(std::isfinite(e(0)) && std::isfinite(e(1)) && std::isfinite(e(2)), "%s: Euler angles (%g,%g,%g)", what, e(0), e(1), e(2));
  MC_CHECK(fabs(e(1)) <= M_PI / 2 + 1e-15, "%s: pitch %.17g", what, e(1));
  MC_CHECK(fabs(e(0)) <= M_PI + 1e-15 && fabs(e(2)) <= M_PI + 1e-15, "%s: roll %.17g yaw %.17g", what, e(0), e(2));
  M g = euler(e(0), e(1), e(2));
  LD cp = hypotl(w.a[2][1], w.a[2][2]), tol = std::min(1e-7L, 1e-14L + 4e-15L / std::max(cp, 1e-9L));
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) mc::Near(g.a[i][j], w.a[i][j], 1, tol, "%s: rotation of the Euler angles (%.9g,%.9g,%.9g), entry (%d,%d)", what, e(0), e(1), e(2), i, j);
}
static void unit(const Eigen::Quaterniond &q, const M &w, const char *what) {
  mc::Near((LD) q.w() * q.w() + (LD) q.x() * q.x() + (LD) q.y() * q.y() + (LD) q.z() * q.z(), 1, 1, 1e-14L, "%s: norm of the quaternion", what);
  M g = qmat({q.w(), q.x(), q.y(), q.z()});
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) mc::Near(g.a[i][j], w.a[i][j], 1, 1e-14L, "%s: rotation of the quaternion, entry (%d,%d)", what, i, j);
}
// every conversion out of every representation of the orientation w
static void all(const Eigen::Matrix3d &R, const Eigen::Quaterniond &q, const M &w) {
  unit(RotationMatrixToQuaternion(R), w, "matrix to quaternion");
  anglesof(rotationMatrixToEulerAnglesZYX(R), w, "matrix to Euler angles");
  Eigen::Matrix3d S = quaternionToRotationMatrix(q);
  same(S, w, 2e-15L, "quaternion to matrix"); proper(S, "quaternion to matrix");
  anglesof(quaternionToEulerAnglesZYX(q), w, "quaternion to Euler angles");
  anglesof(quaternionToEulerAnglesZYX(Eigen::Quaterniond(-q.w(), -q.x(), -q.y(), -q.z())), w, "opposite quaternion to Euler angles");
  anglesof(rotationMatrixToEulerAnglesZYX(S), w, "quaternion to matrix to Euler angles");
  // round trips
  Eigen::Vector3d e = rotationMatrixToEulerAnglesZYX(R);
  same(eulerAnglesZYXToRotationMatrix(e), w, std::min(1e-7L, 2e-14L + 8e-15L / std::max(hypotl(w.a[2][1], w.a[2][2]), 1e-9L)), "matrix to Euler angles and back");
  same(quaternionToRotationMatrix(RotationMatrixToQuaternion(R)), w, 1e-14L, "matrix to quaternion and back");
}
static void angles(double r, double p, double y) {
  if (!mc::Case([&] { return mc::str("roll %.17g pitch %.17g yaw %.17g", r, p, y); })) return;
  mc::Visit(r, p, y);
  M w = euler(r, p, y);
  const Eigen::Vector3d e(r, p, y);
  Eigen::Matrix3d R = eulerAnglesZYXToRotationMatrix(e);
  same(R, w, 2e-15L, "Euler angles to matrix"); proper(R, "Euler angles to matrix");
  Eigen::Quaterniond q = eulerAnglesZYXToQuaternion(e);
  unit(q, w, "Euler angles to quaternion");
  all(R, q, w);
  MC_CHECK(e(0) == r && e(1) == p && e(2) == y, "Euler angles modified");
  if (fabs(p) < 1.5 && fabs(r) < 3.1 && fabs(y) < 3.1) {   // inside the chart the angles themselves come back
    Eigen::Vector3d f = rotationMatrixToEulerAnglesZYX(R), g = quaternionToEulerAnglesZYX(q);
    for (int i = 0; i < 3; ++i) { mc::Near(f(i), e(i), 1, 1e-12L, "angle %d from the matrix", i); mc::Near(g(i), e(i), 1, 1e-12L, "angle %d from the quaternion", i); }
    mc::Outcome("regular orientation");
  } else mc::Outcome("limit orientation");
}
static void quat(LD a, LD b, LD c, LD d) {
  LD n = sqrtl(a * a + b * b + c * c + d * d);
  if (n == 0) return;
  Eigen::Quaterniond q((double) (a / n), (double) (b / n), (double) (c / n), (double) (d / n));
  if (!mc::Case([&] { return mc::str("quaternion (%.17g,%.17g,%.17g,%.17g)", q.w(), q.x(), q.y(), q.z()); })) return;
  mc::Visit("q", q.w(), q.x(), q.y(), q.z());
  M w = qmat({a / n, b / n, c / n, d / n});
  Eigen::Matrix3d R;
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) R(i, j) = fabsl(w.a[i][j]) < 1e-17L ? 0. : (double) w.a[i][j];   // exact zeros for the cube rotations
  all(R, q, w);
  mc::Outcome("quaternion");
}
static void explore() {
  std::vector<double> deg;
  int st = mc::Tier(15, 5);
  for (int d = -180; d <= 180; d += st) deg.push_back(d);
  std::vector<double> rad;
  for (double d : deg) rad.push_back((double) (d * PI / 180));
  for (double d : {7.5, 89.99999, 90 - 1e-6, 1e-9, 450., 810., 33.3, 89.0, 89.9}) for (int s : {-1, 1}) rad.push_back((double) (s * d * PI / 180));
  for (double b : {0., 90., -90., 180., -180.}) for (double e : mc::Thorough() ? std::vector<double>{1e-2, 1e-3, 1e-4, 1e-6, 1e-8, 1e-10, 1e-12} : std::vector<double>{1e-2, 1e-4, 1e-6, 1e-8}) for (int s : {-1, 1}) rad.push_back((double) ((b + s * e) * PI / 180));
  for (double t : {17.25, -123.5, 1000.125}) rad.push_back(t);
  rad.push_back(std::nextafter(M_PI / 2, 0)); rad.push_back(-std::nextafter(M_PI / 2, 0)); rad.push_back(std::nextafter(M_PI / 2, 9));
  for (double r : rad) for (double p : rad) for (double y : rad) angles(r, p, y);
  int L = mc::Tier(2, 4);
  for (int a = -L; a <= L; ++a) for (int b = -L; b <= L; ++b) for (int c = -L; c <= L; ++c) for (int d = -L; d <= L; ++d) quat(a, b, c, d);
  // near the identity, near half a turn and near every other lattice rotation: small relative rotations about lattice axes
  for (int b0 = 0; b0 < 8; ++b0) for (int x = -2; x <= 2; ++x) for (int y = -2; y <= 2; ++y) for (int z = -2; z <= 2; ++z) for (int e = 1; e <= 12; ++e) {
    LD n = sqrtl(x * x + y * y + z * z), t = powl(10, -e);
    if (n == 0) continue;
    static const Q B[8] = {{1, 0, 0, 0}, {0, 1, 0, 0}, {0, 0, 1, 0}, {0, 0, 0, 1}, {1, 1, 0, 0}, {1, 0, -1, 0}, {0, 1, 1, 0}, {1, 1, 1, 1}};
    Q q = qm(B[b0], {cosl(t), sinl(t) * x / n, sinl(t) * y / n, sinl(t) * z / n});
    quat(q.w, q.x, q.y, q.z);
  }
  // near gimbal lock, from quaternions
  for (int k = 0; k < 24; ++k) for (int l = 0; l < 24; ++l) for (int e = 3; e <= 12; ++e) for (int s : {-1, 1}) {
    LD r = k * PI / 12, y = l * PI / 12, p = s * (PI / 2 - powl(10, -e));
    Q q = qm(qm({cosl(y / 2), 0, 0, sinl(y / 2)}, {cosl(p / 2), 0, sinl(p / 2), 0}), {cosl(r / 2), sinl(r / 2), 0, 0});
    quat(q.w, q.x, q.y, q.z);
  }
}
MC_MAIN(explore)
