#ifndef OPENGV_TranslationOnly_SAC_PROBLEM_HPP_
#define OPENGV_TranslationOnly_SAC_PROBLEM_HPP_
#include <opengv/relative_pose/CentralRelativeAdapter.hpp>
namespace opengv {
namespace sac_problems {
namespace relative_pose {
class TranslationOnlySacProblem {
 public:
  typedef opengv::relative_pose::RelativeAdapterBase adapter_t;
  typedef transformation_t model_t;
  explicit TranslationOnlySacProblem(adapter_t& adapter, bool random_seed = true) : adapter_(adapter), random_seed_(random_seed) {}
  const adapter_t& adapter() const { return adapter_; }
  bool randomSeed() const { return random_seed_; }

 private:
  adapter_t& adapter_;
  const bool random_seed_;
};
}  // namespace relative_pose
}  // namespace sac_problems
}  // namespace opengv
#endif
