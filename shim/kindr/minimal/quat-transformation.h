#ifndef VERIF_SHIM_KINDR_QUAT_TRANSFORMATION_H_
#define VERIF_SHIM_KINDR_QUAT_TRANSFORMATION_H_
#include <ostream>

#include "position.h"
#include "rotation-quaternion.h"

namespace kindr {
namespace minimal {
template <typename Scalar>
class QuatTransformationTemplate {
 public:
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  typedef Eigen::Matrix<Scalar, 3, 1> Vector3;
  typedef Eigen::Matrix<Scalar, 4, 1> Vector4;
  typedef Eigen::Matrix<Scalar, 6, 1> Vector6;
  typedef Eigen::Matrix<Scalar, 3, Eigen::Dynamic> Matrix3X;
  typedef PositionTemplate<Scalar> Position;
  typedef RotationQuaternionTemplate<Scalar> Rotation;
  typedef Eigen::Matrix<Scalar, 3, 3> RotationMatrix;
  typedef Eigen::Matrix<Scalar, 4, 4> TransformationMatrix;

  QuatTransformationTemplate() { setIdentity(); }
  QuatTransformationTemplate(const Rotation& q, const Position& t) : q_A_B_(q), A_t_A_B_(t) {}
  QuatTransformationTemplate(const Position& t, const Rotation& q) : q_A_B_(q), A_t_A_B_(t) {}
  explicit QuatTransformationTemplate(const TransformationMatrix& T)
      : q_A_B_(RotationMatrix(T.template topLeftCorner<3, 3>())), A_t_A_B_(T.template topRightCorner<3, 1>()) {}
  explicit QuatTransformationTemplate(const Vector6& v) : q_A_B_(Vector3(v.template tail<3>())), A_t_A_B_(v.template head<3>()) {}

  void setIdentity() { q_A_B_.setIdentity(); A_t_A_B_.setZero(); }
  QuatTransformationTemplate& setRandom() { q_A_B_.setRandom(); A_t_A_B_.setRandom(); return *this; }
  QuatTransformationTemplate& setRandom(Scalar norm) { setRandom(); A_t_A_B_ = A_t_A_B_.normalized() * norm; return *this; }
  QuatTransformationTemplate& setRandom(Scalar norm, Scalar angle) {
    setRandom(norm);
    q_A_B_.setRandom(angle);
    return *this;
  }
  Position& getPosition() { return A_t_A_B_; }
  const Position& getPosition() const { return A_t_A_B_; }
  Rotation& getRotation() { return q_A_B_; }
  const Rotation& getRotation() const { return q_A_B_; }
  RotationMatrix getRotationMatrix() const { return q_A_B_.getRotationMatrix(); }
  TransformationMatrix getTransformationMatrix() const {
    TransformationMatrix T;
    T.setIdentity();
    T.template topLeftCorner<3, 3>() = getRotationMatrix();
    T.template topRightCorner<3, 1>() = A_t_A_B_;
    return T;
  }
  Eigen::Matrix<Scalar, 7, 1> asVector() const {
    Eigen::Matrix<Scalar, 7, 1> v;
    v << q_A_B_.w(), q_A_B_.x(), q_A_B_.y(), q_A_B_.z(), A_t_A_B_;
    return v;
  }
  QuatTransformationTemplate operator*(const QuatTransformationTemplate& o) const {
    return QuatTransformationTemplate(q_A_B_ * o.q_A_B_, Position(A_t_A_B_ + q_A_B_.rotate(o.A_t_A_B_)));
  }
  Vector3 transform(const Vector3& p) const { return q_A_B_.rotate(p) + A_t_A_B_; }
  Matrix3X transformVectorized(const Matrix3X& p) const {
    CHECK_GT(p.cols(), 0);
    return q_A_B_.rotateVectorized(p).colwise() + A_t_A_B_;
  }
  Vector4 transform4(const Vector4& p) const {
    Vector4 r;
    r[3] = p[3];
    r.template head<3>() = q_A_B_.rotate(p.template head<3>()) + p[3] * A_t_A_B_;
    return r;
  }
  Vector3 operator*(const Vector3& p) const { return transform(p); }
  Vector3 inverseTransform(const Vector3& p) const { return q_A_B_.inverseRotate(p - A_t_A_B_); }
  QuatTransformationTemplate inverse() const {
    return QuatTransformationTemplate(q_A_B_.inverse(), Position(-q_A_B_.inverseRotate(A_t_A_B_)));
  }
  Vector6 log() const {
    Vector6 v;
    v << A_t_A_B_, q_A_B_.log();
    return v;
  }
  static QuatTransformationTemplate exp(const Vector6& v) { return QuatTransformationTemplate(v); }
  bool operator==(const QuatTransformationTemplate& o) const { return q_A_B_ == o.q_A_B_ && A_t_A_B_ == o.A_t_A_B_; }
  bool operator!=(const QuatTransformationTemplate& o) const { return !(*this == o); }

 private:
  Rotation q_A_B_;
  Position A_t_A_B_;
};
typedef QuatTransformationTemplate<double> QuatTransformation;
template <typename S>
std::ostream& operator<<(std::ostream& o, const QuatTransformationTemplate<S>& T) {
  return o << T.getTransformationMatrix();
}
}  // namespace minimal
}  // namespace kindr
#endif
