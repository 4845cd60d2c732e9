#ifndef OPENGV_NONCENTRAL_ABSOLUTE_ADAPTER_HPP_
#define OPENGV_NONCENTRAL_ABSOLUTE_ADAPTER_HPP_
#include <opengv/absolute_pose/AbsoluteAdapterBase.hpp>
namespace opengv {
namespace absolute_pose {
class NoncentralAbsoluteAdapter : public AbsoluteAdapterBase {
 public:
  typedef std::vector<int> camCorrespondences_t;
  NoncentralAbsoluteAdapter(const bearingVectors_t& b, const camCorrespondences_t& c, const points_t& p, const translations_t& o, const rotations_t& r)
      : b_(b), c_(c), p_(p), o_(o), r_(r) {}
  bearingVector_t getBearingVector(size_t index) const override { return b_.at(index); }
  translation_t getCamOffset(size_t index) const override { return o_.at(c_.at(index)); }
  rotation_t getCamRotation(size_t index) const override { return r_.at(c_.at(index)); }
  point_t getPoint(size_t index) const override { return p_.at(index); }
  size_t getNumberCorrespondences() const override { return b_.size(); }

 private:
  const bearingVectors_t& b_;
  const camCorrespondences_t& c_;
  const points_t& p_;
  const translations_t& o_;
  const rotations_t& r_;
};
}  // namespace absolute_pose
}  // namespace opengv
#endif
