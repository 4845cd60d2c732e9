// Stand-in for eigen-checks (not installed): the one predicate aslam uses.
#ifndef VERIF_SHIM_EIGEN_CHECKS_GTEST_H_
#define VERIF_SHIM_EIGEN_CHECKS_GTEST_H_
#include <Eigen/Core>
#include <gtest/gtest.h>
namespace eigen_checks_shim {
template <typename A, typename B>
testing::AssertionResult near(const A& a, const B& b, double tolerance) {
  if (a.rows() != b.rows() || a.cols() != b.cols()) return testing::AssertionFailure() << "size mismatch";
  for (int i = 0; i < a.rows(); ++i)
    for (int j = 0; j < a.cols(); ++j)
      if (!(std::abs(a(i, j) - b(i, j)) <= tolerance)) return testing::AssertionFailure() << "mismatch at " << i << ", " << j << ": " << a(i, j) << " " << b(i, j);
  return testing::AssertionSuccess();
}
}  // namespace eigen_checks_shim
#define EIGEN_MATRIX_NEAR(a, b, tolerance) eigen_checks_shim::near(a, b, tolerance)
#endif  // VERIF_SHIM_EIGEN_CHECKS_GTEST_H_
