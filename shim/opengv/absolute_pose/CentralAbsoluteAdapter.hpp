#ifndef OPENGV_CENTRAL_ABSOLUTE_ADAPTER_HPP_
#define OPENGV_CENTRAL_ABSOLUTE_ADAPTER_HPP_
#include <opengv/absolute_pose/AbsoluteAdapterBase.hpp>
namespace opengv {
namespace absolute_pose {
class CentralAbsoluteAdapter : public AbsoluteAdapterBase {
 public:
  CentralAbsoluteAdapter(const bearingVectors_t& b, const points_t& p) : b_(b), p_(p) {}
  bearingVector_t getBearingVector(size_t index) const override { return b_.at(index); }
  translation_t getCamOffset(size_t) const override { return translation_t::Zero(); }
  rotation_t getCamRotation(size_t) const override { return rotation_t::Identity(); }
  point_t getPoint(size_t index) const override { return p_.at(index); }
  size_t getNumberCorrespondences() const override { return b_.size(); }

 private:
  const bearingVectors_t& b_;
  const points_t& p_;
};
}  // namespace absolute_pose
}  // namespace opengv
#endif
