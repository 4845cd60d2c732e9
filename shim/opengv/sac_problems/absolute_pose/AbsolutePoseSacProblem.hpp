#ifndef OPENGV_ABSOLUTE_POSE_SAC_PROBLEM_HPP_
#define OPENGV_ABSOLUTE_POSE_SAC_PROBLEM_HPP_
#include <opengv/absolute_pose/AbsoluteAdapterBase.hpp>
namespace opengv {
namespace sac_problems {
namespace absolute_pose {
class AbsolutePoseSacProblem {
 public:
  typedef opengv::absolute_pose::AbsoluteAdapterBase adapter_t;
  typedef transformation_t model_t;
  typedef enum Algorithm { TWOPT = 0, KNEIP = 1, GAO = 2, EPNP = 3, GP3P = 4 } algorithm_t;
  AbsolutePoseSacProblem(adapter_t& adapter, algorithm_t algorithm, bool random_seed = true)
      : adapter_(adapter), algorithm_(algorithm), random_seed_(random_seed) {}
  void optimizeModelCoefficients(const std::vector<int>& inliers, const model_t& model, model_t& optimized) {
    refinement()(*this, inliers, model, optimized);
  }
  static std::function<void(const AbsolutePoseSacProblem&, const std::vector<int>&, const model_t&, model_t&)>& refinement() {
    static std::function<void(const AbsolutePoseSacProblem&, const std::vector<int>&, const model_t&, model_t&)> f;
    return f;
  }
  const adapter_t& adapter() const { return adapter_; }
  algorithm_t algorithm() const { return algorithm_; }
  bool randomSeed() const { return random_seed_; }

 private:
  adapter_t& adapter_;
  const algorithm_t algorithm_;
  const bool random_seed_;
};
}  // namespace absolute_pose
}  // namespace sac_problems
}  // namespace opengv
#endif
