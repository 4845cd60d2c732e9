// Stand-in for ethz_apriltag2 (not installed): a detector whose detections are
// supplied by the harness.
#ifndef VERIF_SHIM_APRILTAGS_H_
#define VERIF_SHIM_APRILTAGS_H_
#include <utility>
#include <vector>
#include <opencv2/core/core.hpp>
#include <opencv2/highgui/highgui_c.h>
namespace AprilTags {
struct TagCodes {};
struct TagDetection {
  bool good = true;
  int id = 0;
  std::pair<float, float> p[4];
  static bool sortByIdCompare(const TagDetection& a, const TagDetection& b) { return a.id < b.id; }
  void draw(cv::Mat&) const {}
};
struct TagDetector {
  TagDetector(const TagCodes&, size_t) {}
  std::vector<TagDetection> extractTags(const cv::Mat&) { return next(); }
  static std::vector<TagDetection>& next() {
    static std::vector<TagDetection> d;
    return d;
  }
};
}  // namespace AprilTags
#endif
