// Stand-in for minkindr (not installed): the subset aslam_cv2 uses.
#ifndef VERIF_SHIM_KINDR_POSITION_H_
#define VERIF_SHIM_KINDR_POSITION_H_
#include <Eigen/Core>
namespace kindr {
namespace minimal {
template <typename Scalar>
using PositionTemplate = Eigen::Matrix<Scalar, 3, 1>;
typedef PositionTemplate<double> Position;
}  // namespace minimal
}  // namespace kindr
#endif
