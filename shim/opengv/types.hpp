// Stand-in for OpenGV (not installed): the interfaces aslam_cv2 uses. The
// robust estimators call back into the harness, which sees the adapter, the
// threshold and the seed flag, and provides the outcome.
#ifndef OPENGV_TYPES_HPP_
#define OPENGV_TYPES_HPP_
#include <functional>
#include <memory>
#include <vector>

#include <Eigen/Core>
#include <Eigen/Geometry>
#include <Eigen/StdVector>

namespace opengv {
typedef Eigen::Vector3d bearingVector_t;
typedef Eigen::Vector3d point_t;
typedef Eigen::Vector3d translation_t;
typedef Eigen::Matrix3d rotation_t;
typedef Eigen::Matrix<double, 3, 4> transformation_t;
typedef std::vector<bearingVector_t, Eigen::aligned_allocator<bearingVector_t>> bearingVectors_t;
typedef std::vector<point_t, Eigen::aligned_allocator<point_t>> points_t;
typedef std::vector<translation_t, Eigen::aligned_allocator<translation_t>> translations_t;
typedef std::vector<rotation_t, Eigen::aligned_allocator<rotation_t>> rotations_t;
typedef std::vector<transformation_t, Eigen::aligned_allocator<transformation_t>> transformations_t;
}  // namespace opengv
#endif
