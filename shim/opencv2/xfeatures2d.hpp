// Stand-in for the xfeatures2d module of OpenCV (not installed).
#ifndef OPENCV2_XFEATURES2D_HPP_
#define OPENCV2_XFEATURES2D_HPP_
#include <standin_features.h>
namespace cv {
namespace xfeatures2d {
class SURF : public standin::Detector {
 public:
  static cv::Ptr<SURF> create(double hessian = 100, int octaves = 4, int layers = 3, bool extended = false, bool upright = false) {
    standin::features().detector = {hessian, static_cast<double>(octaves), static_cast<double>(layers), static_cast<double>(extended), static_cast<double>(upright)};
    return cv::makePtr<SURF>();
  }
};
typedef SURF SurfFeatureDetector;
class FREAK : public standin::Extractor {
 public:
  static cv::Ptr<FREAK> create(bool orientation = true, bool scale = true, float pattern = 22.0f, int octaves = 4) {
    standin::features().extractor = {static_cast<double>(orientation), static_cast<double>(scale), pattern, static_cast<double>(octaves)};
    return cv::makePtr<FREAK>();
  }
};
}  // namespace xfeatures2d
}  // namespace cv
#endif
