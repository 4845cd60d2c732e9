#ifndef OPENGV_SAC_RANSAC_HPP_
#define OPENGV_SAC_RANSAC_HPP_
#include <opengv/types.hpp>
namespace opengv {
namespace sac {
template <typename Problem>
class Ransac {
 public:
  typedef Problem problem_t;
  typedef typename Problem::model_t model_t;
  int max_iterations_ = 1000;
  double threshold_ = 1.0;
  double probability_ = 0.99;
  int iterations_ = 0;
  std::shared_ptr<Problem> sac_model_;
  std::vector<int> model_, inliers_;
  std::vector<double> inlier_distances_to_model_;
  model_t model_coefficients_ = model_t::Zero();
  // The harness decides the outcome.
  static std::function<bool(Ransac&)>& outcome() {
    static std::function<bool(Ransac&)> f;
    return f;
  }
  bool computeModel(int /*debug_verbosity_level*/ = 0) { return outcome()(*this); }
};
}  // namespace sac
}  // namespace opengv
#endif
