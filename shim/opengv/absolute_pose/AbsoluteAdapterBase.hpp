#ifndef OPENGV_ABSOLUTE_ADAPTER_BASE_HPP_
#define OPENGV_ABSOLUTE_ADAPTER_BASE_HPP_
#include <opengv/types.hpp>
namespace opengv {
namespace absolute_pose {
class AbsoluteAdapterBase {
 public:
  virtual ~AbsoluteAdapterBase() {}
  virtual bearingVector_t getBearingVector(size_t index) const = 0;
  virtual translation_t getCamOffset(size_t index) const = 0;
  virtual rotation_t getCamRotation(size_t index) const = 0;
  virtual point_t getPoint(size_t index) const = 0;
  virtual size_t getNumberCorrespondences() const = 0;
};
}  // namespace absolute_pose
}  // namespace opengv
#endif
