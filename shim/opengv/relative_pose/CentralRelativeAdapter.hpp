#ifndef OPENGV_CENTRAL_RELATIVE_ADAPTER_HPP_
#define OPENGV_CENTRAL_RELATIVE_ADAPTER_HPP_
#include <opengv/types.hpp>
namespace opengv {
namespace relative_pose {
class RelativeAdapterBase {
 public:
  virtual ~RelativeAdapterBase() {}
  rotation_t getR12() const { return R12_; }
  translation_t gett12() const { return t12_; }
  void setR12(const rotation_t& r) { R12_ = r; }
  void sett12(const translation_t& t) { t12_ = t; }
  virtual bearingVector_t getBearingVector1(size_t index) const = 0;
  virtual bearingVector_t getBearingVector2(size_t index) const = 0;
  virtual size_t getNumberCorrespondences() const = 0;

 protected:
  rotation_t R12_ = rotation_t::Identity();
  translation_t t12_ = translation_t::Zero();
};
class CentralRelativeAdapter : public RelativeAdapterBase {
 public:
  CentralRelativeAdapter(const bearingVectors_t& b1, const bearingVectors_t& b2) : b1_(b1), b2_(b2) {}
  CentralRelativeAdapter(const bearingVectors_t& b1, const bearingVectors_t& b2, const rotation_t& R12) : b1_(b1), b2_(b2) { R12_ = R12; }
  CentralRelativeAdapter(const bearingVectors_t& b1, const bearingVectors_t& b2, const translation_t& t12, const rotation_t& R12) : b1_(b1), b2_(b2) {
    R12_ = R12;
    t12_ = t12;
  }
  bearingVector_t getBearingVector1(size_t index) const override { return b1_.at(index); }
  bearingVector_t getBearingVector2(size_t index) const override { return b2_.at(index); }
  size_t getNumberCorrespondences() const override { return b2_.size(); }

 private:
  const bearingVectors_t& b1_;
  const bearingVectors_t& b2_;
};
}  // namespace relative_pose
}  // namespace opengv
#endif
