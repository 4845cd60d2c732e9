#ifndef VERIF_SHIM_KINDR_ROTATION_QUATERNION_H_
#define VERIF_SHIM_KINDR_ROTATION_QUATERNION_H_
#include <cmath>
#include <ostream>

#include <Eigen/Geometry>
#include <glog/logging.h>

#include "angle-axis.h"

namespace kindr {
namespace minimal {
template <typename Scalar>
class RotationQuaternionTemplate {
 public:
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  typedef Eigen::Matrix<Scalar, 3, 1> Vector3;
  typedef Vector3 Imaginary;
  typedef Eigen::Matrix<Scalar, 4, 1> Vector4;
  typedef Eigen::Matrix<Scalar, 3, 3> RotationMatrix;
  typedef Eigen::Matrix<Scalar, 3, Eigen::Dynamic> Matrix3X;
  typedef Eigen::Quaternion<Scalar> Implementation;

  RotationQuaternionTemplate() : q_A_B_(Implementation::Identity()) {}
  RotationQuaternionTemplate(Scalar w, Scalar x, Scalar y, Scalar z) : q_A_B_(w, x, y, z) { checkUnit(); }
  RotationQuaternionTemplate(Scalar real, const Vector3& im) : q_A_B_(real, im(0), im(1), im(2)) { checkUnit(); }
  explicit RotationQuaternionTemplate(const Implementation& q) : q_A_B_(q) { checkUnit(); }
  explicit RotationQuaternionTemplate(const RotationMatrix& R) : q_A_B_(R) { CHECK(isValidRotationMatrix(R)) << R; }
  explicit RotationQuaternionTemplate(const AngleAxisTemplate<Scalar>& a) : q_A_B_(a.toImplementation()) {}
  explicit RotationQuaternionTemplate(const Vector3& v) { *this = exp(v); }

  Scalar w() const { return q_A_B_.w(); }
  Scalar x() const { return q_A_B_.x(); }
  Scalar y() const { return q_A_B_.y(); }
  Scalar z() const { return q_A_B_.z(); }
  Vector3 imaginary() const { return q_A_B_.vec(); }
  Vector4 vector() const { return Vector4(w(), x(), y(), z()); }
  Implementation& toImplementation() { return q_A_B_; }
  const Implementation& toImplementation() const { return q_A_B_; }

  RotationQuaternionTemplate& setIdentity() { q_A_B_.setIdentity(); return *this; }
  RotationQuaternionTemplate& setRandom() {
    Vector4 c;
    do { c.setRandom(); } while (c.squaredNorm() < Scalar(1e-3));
    c.normalize();
    q_A_B_ = Implementation(c(0), c(1), c(2), c(3));
    return *this;
  }
  RotationQuaternionTemplate& setRandom(Scalar angle) {
    Vector3 a;
    do { a.setRandom(); } while (a.squaredNorm() < Scalar(1e-3));
    q_A_B_ = Implementation(Eigen::AngleAxis<Scalar>(angle, a.normalized()));
    return *this;
  }
  RotationQuaternionTemplate inverse() const { return RotationQuaternionTemplate(q_A_B_.conjugate()); }
  RotationQuaternionTemplate conjugated() const { return inverse(); }
  Vector3 rotate(const Vector3& v) const { return q_A_B_ * v; }
  Matrix3X rotateVectorized(const Matrix3X& v) const { return getRotationMatrix() * v; }
  Vector3 inverseRotate(const Vector3& v) const { return q_A_B_.conjugate() * v; }
  Matrix3X inverseRotateVectorized(const Matrix3X& v) const { return getRotationMatrix().transpose() * v; }
  Scalar squaredNorm() const { return q_A_B_.squaredNorm(); }
  Scalar norm() const { return q_A_B_.norm(); }
  RotationQuaternionTemplate& normalize() { q_A_B_.normalize(); return *this; }
  Scalar getDisparityAngle(const RotationQuaternionTemplate& o) const { return (o.inverse() * *this).log().norm(); }
  RotationMatrix getRotationMatrix() const { return q_A_B_.toRotationMatrix(); }
  RotationQuaternionTemplate operator*(const RotationQuaternionTemplate& o) const { return RotationQuaternionTemplate(q_A_B_ * o.q_A_B_); }
  bool operator==(const RotationQuaternionTemplate& o) const { return q_A_B_.coeffs() == o.q_A_B_.coeffs(); }
  bool operator!=(const RotationQuaternionTemplate& o) const { return !(*this == o); }
  Vector3 log() const {
    const Vector3 v = q_A_B_.vec();
    const Scalar n = v.norm();
    if (n < Scalar(1e-12)) return (w() < 0 ? -2 : 2) * v;
    const Scalar a = w() < 0 ? -2 * std::atan2(n, -w()) : 2 * std::atan2(n, w());
    return v * (a / n);
  }
  static RotationQuaternionTemplate exp(const Vector3& d) {
    const Scalar a = d.norm();
    const Scalar s = a < Scalar(1e-8) ? Scalar(0.5) : std::sin(a / 2) / a;
    Implementation q(std::cos(a / 2), s * d(0), s * d(1), s * d(2));
    q.normalize();
    return RotationQuaternionTemplate(q);
  }
  static bool isValidRotationMatrix(const RotationMatrix& R) { return isValidRotationMatrix(R, Scalar(1e-6)); }
  static bool isValidRotationMatrix(const RotationMatrix& R, Scalar eps) {
    if (!(std::fabs(R.determinant() - Scalar(1)) <= eps)) return false;
    return ((R.transpose() * R - RotationMatrix::Identity()).cwiseAbs().maxCoeff() <= eps);
  }
  static RotationQuaternionTemplate constructAndRenormalize(const RotationMatrix& R) {
    Implementation q(R);
    q.normalize();
    return RotationQuaternionTemplate(q);
  }

 private:
  void checkUnit() const { CHECK_LE(std::fabs(q_A_B_.squaredNorm() - Scalar(1)), Scalar(1e-4)); }
  Implementation q_A_B_;
};
typedef RotationQuaternionTemplate<double> RotationQuaternion;
template <typename S>
std::ostream& operator<<(std::ostream& o, const RotationQuaternionTemplate<S>& q) {
  return o << q.w() << " " << q.x() << " " << q.y() << " " << q.z();
}
}  // namespace minimal
}  // namespace kindr
#endif
