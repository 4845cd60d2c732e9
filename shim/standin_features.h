// Stand-in detectors and extractors: the harness decides what they deliver.
#ifndef STANDIN_FEATURES_H_
#define STANDIN_FEATURES_H_
#include <functional>
#include <vector>

#include <opencv2/core/core.hpp>
#include <opencv2/features2d/features2d.hpp>

namespace standin {
struct Features {
  std::function<void(const cv::Mat&, std::vector<cv::KeyPoint>*)> detect;
  std::function<void(const cv::Mat&, std::vector<cv::KeyPoint>*, cv::Mat*)> compute;
  // Parameters of the last detector and extractor that were made.
  std::vector<double> detector, extractor;
  int alive = 0;
};
inline Features& features() {
  static Features f;
  return f;
}
class Feature : public cv::Feature2D {
 public:
  Feature() { ++features().alive; }
  ~Feature() override { --features().alive; }
};
class Detector : public Feature {
 public:
  using cv::Feature2D::detect;
  void detect(cv::InputArray image, std::vector<cv::KeyPoint>& keypoints, cv::InputArray = cv::noArray()) override {
    ++calls_;
    features().detect(image.getMat(), &keypoints);
  }

 private:
  int calls_ = 0;
};
class Extractor : public Feature {
 public:
  using cv::Feature2D::compute;
  void compute(cv::InputArray image, std::vector<cv::KeyPoint>& keypoints, cv::OutputArray descriptors) override {
    ++calls_;
    cv::Mat d;
    features().compute(image.getMat(), &keypoints, &d);
    descriptors.create(d.rows, d.cols, CV_8U);  // also with no rows
    if (!d.empty()) d.copyTo(descriptors.getMat());
  }
  int descriptorType() const override { return CV_8U; }

 private:
  int calls_ = 0;
};
}  // namespace standin
#endif
