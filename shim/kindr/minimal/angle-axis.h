#ifndef VERIF_SHIM_KINDR_ANGLE_AXIS_H_
#define VERIF_SHIM_KINDR_ANGLE_AXIS_H_
#include <Eigen/Geometry>
namespace kindr {
namespace minimal {
template <typename Scalar>
class AngleAxisTemplate {
 public:
  typedef Eigen::Matrix<Scalar, 3, 1> Vector3;
  AngleAxisTemplate() : C_A_B_(Eigen::AngleAxis<Scalar>(Scalar(0), Vector3::UnitX())) {}
  AngleAxisTemplate(Scalar angle, const Vector3& axis) : C_A_B_(angle, axis) {}
  AngleAxisTemplate(const Eigen::AngleAxis<Scalar>& a) : C_A_B_(a) {}  // NOLINT
  Scalar angle() const { return C_A_B_.angle(); }
  const Vector3& axis() const { return C_A_B_.axis(); }
  const Eigen::AngleAxis<Scalar>& toImplementation() const { return C_A_B_; }
 private:
  Eigen::AngleAxis<Scalar> C_A_B_;
};
typedef AngleAxisTemplate<double> AngleAxis;
}  // namespace minimal
}  // namespace kindr
#endif
