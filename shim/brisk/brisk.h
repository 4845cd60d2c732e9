// Stand-in for the BRISK library (not installed).
#ifndef BRISK_BRISK_H_
#define BRISK_BRISK_H_
#include <standin_features.h>
namespace brisk {
class HarrisScoreCalculator {};
template <typename Score>
class ScaleSpaceFeatureDetector : public standin::Detector {
 public:
  ScaleSpaceFeatureDetector(size_t octaves, double uniformity_radius, double absolute_threshold = 0, size_t max_keypoints = 1u << 30) {
    standin::features().detector = {static_cast<double>(octaves), uniformity_radius, absolute_threshold, static_cast<double>(max_keypoints)};
  }
};
class BriskDescriptorExtractor : public standin::Extractor {
 public:
  explicit BriskDescriptorExtractor(bool rotation_invariant = true, bool scale_invariant = true) {
    standin::features().extractor = {static_cast<double>(rotation_invariant), static_cast<double>(scale_invariant)};
  }
};
}  // namespace brisk
#endif
