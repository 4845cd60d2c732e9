// C29: covariances, hashes, matrix predicates and numerical Jacobians.
#include <opencv2/core/core.hpp>

#include <glog/logging.h>
#include <gtest/gtest-spi.h>
#include <gtest/gtest.h>

#include <iomanip>
#include <memory>
#include <unordered_map>
#include <unordered_set>

#include <aslam/common/memory.h>

#include "pbt.h"
#include "util.h"

#include <aslam/common/covariance-helpers.h>
#include <aslam/common/eigen-hash.h>
#include <aslam/common/numdiff-jacobian-tester.h>
#include <aslam/common/opencv-predicates.h>
#include <aslam/common/predicates.h>

const char* pbt::kProperty = "C29";
void pbt::workerInit() {
  FLAGS_minloglevel = 4;
  int argc = 1;
  char name[] = "c29";
  char* argv[] = {name, nullptr};
  testing::InitGoogleTest(&argc, argv);
}

using aslam::Transformation;
using aslam::TransformationCovariance;
using pbt::Source;
typedef Eigen::Vector3d V3;

namespace {
Eigen::Quaterniond rotation(Source& s) {
  Eigen::Quaterniond q;
  switch (s.draw(5)) {
    case 0: q = Eigen::Quaterniond::Identity(); break;
    case 1: {
      V3 a = V3::Zero();
      a(s.i(0, 2)) = 1;
      q = Eigen::AngleAxisd(s.i(-2, 2) * M_PI / 2, a);
      break;
    }
    case 2: q = Eigen::AngleAxisd(s.logReal(1e-12, 1e-2), V3(s.sreal(1), s.sreal(1), 1).normalized()); break;
    default: q = Eigen::Quaterniond(s.sreal(1), s.sreal(1), s.sreal(1), s.sreal(1) + 2e-3); q.normalize();
  }
  return q;
}
Transformation transformation(const Eigen::Quaterniond& q, Source& s) {
  const double m = s.boolean() ? 1 : s.logReal(1e-6, 1e6);
  return Transformation(aslam::Quaternion(q.w(), q.x(), q.y(), q.z()), aslam::Position3D(s.sreal(m), s.sreal(m), s.sreal(m)));
}
TransformationCovariance symmetric(Source& s, bool* psd) {
  TransformationCovariance c = TransformationCovariance::Zero();
  const double scale = s.boolean() ? 1 : s.logReal(1e-12, 1e8);
  *psd = true;
  switch (s.draw(5)) {
    case 0:
      for (int i = 0; i < 6; ++i) c(i, i) = s.real(0, 1);
      break;
    case 1: {  // rank deficient
      const int r = s.i(0, 5);
      for (int k = 0; k < r; ++k) { Eigen::Matrix<double, 6, 1> v; for (int i = 0; i < 6; ++i) v(i) = s.sreal(1); c += v * v.transpose(); }
      break;
    }
    case 2:  // any matrix, as in uses that rotate information or cross covariances
      *psd = false;
      for (int i = 0; i < 36; ++i) c(i) = s.sreal(1);
      break;
    default: {
      Eigen::Matrix<double, 6, 6> a;
      for (int i = 0; i < 36; ++i) a(i) = s.sreal(1);
      c = a * a.transpose();
    }
  }
  return c * scale;
}
V3 blockEigenvalues(const Eigen::Matrix3d& m) { return Eigen::SelfAdjointEigenSolver<Eigen::Matrix3d>(0.5 * (m + m.transpose())).eigenvalues(); }
}  // namespace

PBT_PROP(covariance, "a rotation other than the identity and a non-zero covariance", 40000, 1000000, false, 1000) {
  const Eigen::Quaterniond q1 = rotation(s), q2 = rotation(s);
  const Transformation T1 = transformation(q1, s), T2 = transformation(q2, s);
  bool psd;
  const TransformationCovariance A = symmetric(s, &psd);
  s << "q1 " << q1.coeffs().transpose() << " q2 " << q2.coeffs().transpose() << "\nA\n" << A << "\n";
  const double tol = 1e-12 * (A.cwiseAbs().maxCoeff() + 1e-300);
  TransformationCovariance B = TransformationCovariance::Constant(7);
  aslam::common::rotateCovariance(T1, A, &B);
  // By definition: both halves of a 6-vector are rotated, so every 3x3 block becomes R block R^T.
  const Eigen::Matrix3d R = q1.toRotationMatrix();
  for (int i = 0; i < 2; ++i)
    for (int j = 0; j < 2; ++j) {
      const Eigen::Matrix3d want = R * A.block<3, 3>(3 * i, 3 * j) * R.transpose();
      const Eigen::Matrix3d got = B.block<3, 3>(3 * i, 3 * j);
      REQ((want - got).cwiseAbs().maxCoeff() <= tol) << "block " << i << ", " << j << " is\n" << got << "\nnot\n" << want;
    }
  if (psd) {
    REQ((B - B.transpose()).cwiseAbs().maxCoeff() <= tol) << "not symmetric";
    const Eigen::Matrix<double, 6, 6> sym = 0.5 * (B + B.transpose());
    REQ((Eigen::SelfAdjointEigenSolver<Eigen::Matrix<double, 6, 6>>(sym).eigenvalues()(0) >= -30 * tol)) << "not positive semi-definite";
    for (int i = 0; i < 2; ++i)
      REQ((blockEigenvalues(A.block<3, 3>(3 * i, 3 * i)) - blockEigenvalues(B.block<3, 3>(3 * i, 3 * i))).cwiseAbs().maxCoeff() <= 30 * tol) << "eigenvalues of block " << i << " changed";
  }
  REQ(closeTo(A.trace(), B.trace(), 1e-12, 20 * tol)) << "trace";
  // Group operation and inverse.
  TransformationCovariance C, D, E;
  aslam::common::rotateCovariance(T2, B, &C);
  aslam::common::rotateCovariance(T2 * T1, A, &D);
  REQ((C - D).cwiseAbs().maxCoeff() <= 30 * tol) << "two rotations in turn give\n" << C << "\nand the product of them\n" << D;
  aslam::common::rotateCovariance(T1.inverse(), B, &E);
  REQ((E - A).cwiseAbs().maxCoeff() <= 30 * tol) << "the inverse does not restore the covariance:\n" << E;
  TransformationCovariance F = A;
  aslam::common::rotateCovariance(T1, F, &F);
  REQ((F - B).cwiseAbs().maxCoeff() == 0) << "in place the result differs";
  if (std::abs(q1.w()) < 1 - 1e-9 && A.cwiseAbs().maxCoeff() > 0) s.nontrivial();
  s.label(psd ? "symmetric" : "general");
}

// ---------------------------------------------------------------- hashes
namespace {
template <typename Scalar> Scalar scalar(Source& s);
template <> double scalar<double>(Source& s) {
  switch (s.draw(5)) {
    case 0: return s.i(-3, 3);
    case 1: return s.boolean() ? 0.0 : -0.0;
    case 2: return s.sreal(1);
    case 3: return s.sreal(1) * s.logReal(1e-30, 1e30);
    default: return s.i(-1000, 1000) / 8.0;
  }
}
template <> float scalar<float>(Source& s) { return static_cast<float>(scalar<double>(s)); }
template <> int scalar<int>(Source& s) { return s.boolean() ? s.i(-3, 3) : s.i(-1000000, 1000000); }
template <> unsigned char scalar<unsigned char>(Source& s) { return static_cast<unsigned char>(s.i(0, 255)); }
template <> int64_t scalar<int64_t>(Source& s) { return s.boolean() ? s.i(-3, 3) : s.anyInt64(); }

template <typename Scalar, int Rows, int Cols>
void hashCase(Source& s) {
  typedef Eigen::Matrix<Scalar, Rows, Cols> M;
  const bool large = (Rows == Eigen::Dynamic || Cols == Eigen::Dynamic) && s.chance(1, 300);  // more than one byte counts
  const int rows = Rows == Eigen::Dynamic ? large ? s.i(10, Cols == 1 ? 600 : 40) : s.i(1, 9) : Rows;
  const int cols = Cols == Eigen::Dynamic ? large ? s.i(10, Rows == 2 ? 300 : 40) : s.i(1, 9) : Cols;
  M a(rows, cols);
  const bool same = s.chance(1, 6);
  const Scalar one = scalar<Scalar>(s);
  for (int i = 0; i < a.size(); ++i) a(i) = same ? one : scalar<Scalar>(s);
  s << a << "\n";
  const std::hash<M> h{};
  const size_t v = h(a);
  M b = a;
  REQ_EQ(h(b), v) << "hash of an equal matrix";
  for (int i = 0; i < b.size(); ++i) if (b(i) == Scalar(0)) b(i) = -b(i);  // the other zero compares equal
  REQ((b == a) && h(b) == v) << "hash of an equal matrix with zeros of another sign";
  // A matrix at another address, in a container.
  std::unordered_map<M, int, std::hash<M>, std::equal_to<M>, Eigen::aligned_allocator<std::pair<const M, int>>> map;
  map[a] = 5;
  REQ(map.count(b) == 1 && map[b] == 5 && map.size() == 1) << "an equal key is not found";
  for (int i = 0; i < a.size(); ++i) {
    // Out of several other values of one coefficient at most one may hash like the original.
    int equal = 0;
    const int n = 4;
    for (int k = 0; k < n; ++k) {
      M c = a;
      do { c(i) = scalar<Scalar>(s); if (c(i) == a(i)) c(i) = static_cast<Scalar>(c(i) + Scalar(k + 1)); } while (c(i) == a(i));
      if (h(c) == v) ++equal;
      if (k == 0) REQ(map.count(c) == 0) << "a different key is found";
    }
    REQ(equal <= 1) << "the hash ignores coefficient " << i << " of " << a.size();
  }
  if (a.size() > 1) s.nontrivial();
}
}  // namespace

PBT_PROP(eigenHash, "more than one coefficient", 40000, 1000000, false, 1000) {
  switch (s.draw(9)) {
    case 0: hashCase<double, 3, 1>(s); break;
    case 1: hashCase<double, 6, 6>(s); break;
    case 2: hashCase<float, 4, 4>(s); break;
    case 3: hashCase<int, 2, 1>(s); break;
    case 4: hashCase<int, 1, 7>(s); break;
    case 5: hashCase<unsigned char, Eigen::Dynamic, Eigen::Dynamic>(s); break;
    case 6: hashCase<double, Eigen::Dynamic, Eigen::Dynamic>(s); break;
    case 7: hashCase<int64_t, Eigen::Dynamic, 1>(s); break;
    default: hashCase<double, 2, Eigen::Dynamic>(s);
  }
}

// ---------------------------------------------------------------- images
namespace {
double get(const cv::Mat& m, int y, int x, int c) {
  const int k = x * m.channels() + c;
  switch (m.depth()) {
    case CV_8U: return m.ptr<uchar>(y)[k];
    case CV_8S: return m.ptr<schar>(y)[k];
    case CV_16U: return m.ptr<ushort>(y)[k];
    case CV_16S: return m.ptr<short>(y)[k];
    case CV_32S: return m.ptr<int>(y)[k];
    case CV_32F: return m.ptr<float>(y)[k];
    default: return m.ptr<double>(y)[k];
  }
}
void set(cv::Mat* m, int y, int x, int c, double v) {
  const int k = x * m->channels() + c;
  switch (m->depth()) {
    case CV_8U: m->ptr<uchar>(y)[k] = cv::saturate_cast<uchar>(v); break;
    case CV_8S: m->ptr<schar>(y)[k] = cv::saturate_cast<schar>(v); break;
    case CV_16U: m->ptr<ushort>(y)[k] = cv::saturate_cast<ushort>(v); break;
    case CV_16S: m->ptr<short>(y)[k] = cv::saturate_cast<short>(v); break;
    case CV_32S: m->ptr<int>(y)[k] = cv::saturate_cast<int>(v); break;
    case CV_32F: m->ptr<float>(y)[k] = static_cast<float>(v); break;
    default: m->ptr<double>(y)[k] = v;
  }
}
cv::Mat image(Source& s, int rows, int cols, int type, cv::Mat* holder) {
  if (s.boolean()) return *holder = cv::Mat(rows, cols, type);
  holder->create(rows + 2, cols + 3, type);
  holder->setTo(cv::Scalar::all(1));
  return (*holder)(cv::Rect(s.i(0, 3), s.i(0, 2), cols, rows));
}
}  // namespace

PBT_PROP(images, "images of equal shape with at least one differing element", 40000, 1000000, false, 1000) {
  const bool large = s.chance(1, 400);
  const int rows = large ? s.i(20, 300) : s.i(1, 7), cols = large ? s.i(20, 400) : s.i(1, 7), ch = s.i(1, 4), depth = s.i(CV_8U, CV_64F);
  cv::RNG rng(large ? s.draw(1u << 30) + 1 : 1);
  cv::Mat ha, hb;
  cv::Mat a = image(s, rows, cols, CV_MAKETYPE(depth, ch), &ha), b;
  const bool fp = depth >= CV_32F;
  double scale = 1;
  if (fp && s.boolean()) scale = s.logReal(1e-6, 1e6);
  for (int y = 0; y < rows; ++y) for (int x = 0; x < cols; ++x) for (int c = 0; c < ch; ++c) set(&a, y, x, c, large ? fp ? scale * rng.uniform(-1., 1.) : rng.uniform(-100, 300) : fp ? scale * s.sreal(1) : s.i(-100, 300));
  const int kind = s.i(0, 9);
  // kinds 0, 1: another shape or type
  if (kind == 0) {
    const int r2 = s.i(1, 7), c2 = s.i(1, 7), ch2 = s.i(1, 4), d2 = s.boolean() ? depth : s.i(CV_8U, CV_64F);
    b = image(s, r2, c2, CV_MAKETYPE(d2, ch2), &hb);
    b.setTo(cv::Scalar::all(1));
    const double tol = s.boolean() ? 1e9 : -1;
    s << rows << "x" << cols << "x" << ch << " depth " << depth << " and " << r2 << "x" << c2 << "x" << ch2 << " depth " << d2 << "\n";
    if (r2 != rows || c2 != cols || ch2 != ch || d2 != depth) {
      REQ(!gtest_catkin::ImagesEqual(a, b, tol)) << "images of different shape or type are equal";
      REQ(!gtest_catkin::ImagesEqual(b, a, tol)) << "images of different shape or type are equal";
    }
    return;
  }
  b = image(s, rows, cols, a.type(), &hb);
  a.copyTo(b);
  // Tolerances and differences are exact in the type of the image, or far from each other.
  double tol = s.chance(1, 3) ? 0 : fp ? scale * s.logReal(1e-4, 1) : s.i(0, 20);
  const bool by_default = s.chance(1, 4);
  const double effective = by_default ? 0 : tol;
  double worst = 0;
  const int changes = s.i(0, 3);
  for (int k = 0; k < changes; ++k) {
    const int y = s.i(0, rows - 1), x = s.i(0, cols - 1), c = s.i(0, ch - 1);
    double d;
    if (fp) {
      const double unit = effective > 0 ? effective : scale;
      d = s.boolean() ? unit * s.real(0.1, 0.9) : unit * s.real(1.1, 5);
    } else {
      d = s.i(1, 25);
    }
    set(&b, y, x, c, get(a, y, x, c) + (s.boolean() ? d : -d));
  }
  bool finite = true;
  if (fp && s.chance(1, 8)) {
    static const double bad[] = {NAN, INFINITY, -INFINITY};
    const int y = s.i(0, rows - 1), x = s.i(0, cols - 1), c = s.i(0, ch - 1);
    const double v = bad[s.draw(3)];
    const int where = s.i(0, 2);
    if (where != 0) set(&a, y, x, c, v);
    if (where != 1) set(&b, y, x, c, v);
    finite = false;
  }
  for (int y = 0; y < rows; ++y) for (int x = 0; x < cols; ++x) for (int c = 0; c < ch; ++c) if (finite) worst = std::max(worst, std::abs(get(a, y, x, c) - get(b, y, x, c)));
  bool want = finite && worst <= effective;
  if (by_default && finite && worst > 0 && fp) {
    // The stated default tolerances are far below anything generated here unless the image is tiny.
    if (worst < 1e-7) throw pbt::Discard();
    want = false;
  }
  // Rounding to the type of the image must not decide.
  if (fp && !by_default && tol > 0 && std::abs(worst - tol) < 1e-2 * tol + 1e-6 * scale) throw pbt::Discard();
  s << "depth " << depth << " " << rows << "x" << cols << "x" << ch << " tolerance " << (by_default ? -1 : tol) << " worst " << worst << (finite ? "" : " not finite") << "\n";
  for (int order = 0; order < 2; ++order) {
    const cv::Mat &p = order ? b : a, &q = order ? a : b;
    const bool got = by_default ? (s.boolean() ? static_cast<bool>(gtest_catkin::ImagesEqual(p, q)) : static_cast<bool>(gtest_catkin::ImagesEqual(p, q, -1)))
                                : static_cast<bool>(gtest_catkin::ImagesEqual(p, q, tol));
    REQ_EQ(got, want) << "images whose largest difference is " << worst << " with tolerance " << (by_default ? -1 : tol);
  }
  if (worst > 0) s.nontrivial();
  s.label(want ? "equal" : "different");
  if (ch > 1) s.label("channels");
}

PBT_PROP(shared, "two objects", 2000, 20000, false, 1000) {
  std::shared_ptr<int> a, b;
  if (s.boolean()) a.reset(new int(s.i(0, 2)));
  if (s.chance(1, 4)) b = a;
  else if (s.boolean()) b.reset(new int(s.i(0, 2)));
  const bool want = (a && b) ? *a == *b : !a && !b;
  REQ_EQ(aslam::checkSharedEqual(a, b), want) << "comparison of shared objects";
  if (a && b && a != b) s.nontrivial();
}

// ---------------------------------------------------------------- numerical Jacobians
namespace {
// Smooth function with NY values of NX variables, analytic derivative known.
template <int NY, int NX>
struct Smooth : public aslam::common::NumDiffFunctor<NY, NX> {
  typedef aslam::common::NumDiffFunctor<NY, NX> Base;
  struct Par {
    Eigen::Matrix<double, NY, NX> lin, sine, freq;
    Eigen::Matrix<double, NY, 1> prod, con;
    int fail_at = -1;  // number of the evaluation that reports failure
    mutable int calls = 0;
    int wrong_row = -1, wrong_col = -1;
    double wrong = 0;
  };
  Smooth(const Par* p) : p_(p) {}
  virtual ~Smooth() {}
  virtual bool functional(const typename Base::InputType& x, typename Base::ValueType& f, typename Base::JacobianType* J) const {
    const Par& p = *p_;
    for (int i = 0; i < NY; ++i) {
      double v = p.con(i), pr = p.prod(i);
      for (int j = 0; j < NX; ++j) { v += p.lin(i, j) * x(j) + p.sine(i, j) * std::sin(p.freq(i, j) * x(j)); pr *= std::cos(x(j)); }
      f(i) = v + pr;
    }
    if (J)
      for (int i = 0; i < NY; ++i)
        for (int j = 0; j < NX; ++j) {
          double pr = p.prod(i);
          for (int k = 0; k < NX; ++k) pr *= k == j ? -std::sin(x(k)) : std::cos(x(k));
          (*J)(i, j) = p.lin(i, j) + p.sine(i, j) * p.freq(i, j) * std::cos(p.freq(i, j) * x(j)) + pr;
          if (i == p.wrong_row && j == p.wrong_col) (*J)(i, j) += p.wrong;
        }
    ++p.calls;
    return p.calls - 1 != p.fail_at;
  }
  const Par* p_;
};

template <typename F>
void macro(const typename F::InputType& x, double step, double tolerance, const typename F::Par* par, bool expect_failure) {
  testing::TestPartResultArray results;
  {
    testing::ScopedFakeTestPartResultReporter reporter(testing::ScopedFakeTestPartResultReporter::INTERCEPT_ONLY_CURRENT_THREAD, &results);
    TEST_JACOBIAN_FINITE_DIFFERENCE(F, x, step, tolerance, par);
  }
  int failures = 0;
  for (int i = 0; i < results.size(); ++i) failures += results.GetTestPartResult(i).failed();
  if (expect_failure) REQ(failures > 0) << "the comparison accepts a wrong analytic Jacobian";
  else REQ(failures == 0) << "the comparison rejects a correct analytic Jacobian: " << (results.size() ? results.GetTestPartResult(0).message() : "");
}

template <int NY, int NX>
void numdiffCase(Source& s) {
  typedef Smooth<NY, NX> F;
  typename F::Par par;
  for (int i = 0; i < NY; ++i) {
    par.con(i) = s.sreal(2);
    par.prod(i) = s.boolean() ? 0 : s.sreal(1);
    for (int j = 0; j < NX; ++j) { par.lin(i, j) = s.sreal(3); par.sine(i, j) = s.boolean() ? 0 : s.sreal(1); par.freq(i, j) = s.real(0.2, 2); }
  }
  typename F::InputType x;
  for (int j = 0; j < NX; ++j) x(j) = s.chance(1, 5) ? 0 : (s.boolean() ? 1 : -1) * s.logReal(1e-2, 10);
  s << "x " << x.transpose() << "\nlinear\n" << par.lin << "\nsine\n" << par.sine << "\nproduct " << par.prod.transpose() << "\n";
  F f(&par);
  typename F::JacobianType want, got, analytic;
  typename F::ValueType val;
  f.functional(x, val, &want);
  REQ(f.getJacobian(x, &analytic)) << "analytic Jacobian";
  REQ(analytic == want) << "the analytic Jacobian is not that of the function";
  typename F::ValueType v2;
  REQ(f(x, v2)) << "value";
  REQ(v2 == val) << "the value is not that of the function";
  const double step = s.boolean() ? 0 : s.logReal(1e-9, 1e-5);
  const double eps = std::sqrt(std::max(step, 2.2e-16));
  const int mode = s.i(0, 2);
  bool ok;
  got.setConstant(99);
  if (mode == 0) ok = (typename aslam::common::NumericalDiffTraits<F, aslam::common::Forward>::type(f, step)).getJacobianNumerical(x, got);
  else if (mode == 1) ok = (typename aslam::common::NumericalDiffTraits<F, aslam::common::Central>::type(f, step)).getJacobianNumerical(x, got);
  else if (s.boolean()) ok = (typename aslam::common::NumericalDiffTraits<F, aslam::common::CentralSecond>::type(f, step)).getJacobianNumerical(x, got);
  else ok = (typename aslam::common::NumericalDiffTraits<F>::type(f, step)).getJacobianNumerical(x, got);
  REQ(ok) << "differentiation reports failure";
  for (int i = 0; i < NY; ++i)
    for (int j = 0; j < NX; ++j) {
      const double h = eps * (x(j) == 0 ? 1 : std::abs(x(j)));
      // Bounds of the second, third and fifth derivative, and rounding of the values.
      const double size = std::abs(par.con(i)) + (par.lin.row(i).cwiseAbs() * x.cwiseAbs())(0) + par.sine.row(i).cwiseAbs().sum() + std::abs(par.prod(i));
      const double w = par.freq(i, j), a = std::abs(par.sine(i, j)), p = std::abs(par.prod(i));
      const double trunc = mode == 0 ? h * (a * w * w + p) : mode == 1 ? h * h * (a * w * w * w + p) : h * h * h * h * (a * std::pow(w, 5) + p);
      const double tol = trunc + 2e-15 * (size + 1) / h * 3 + 1e-10;
      REQ(std::abs(got(i, j) - want(i, j)) <= tol) << std::setprecision(12) << "derivative " << i << ", " << j << " is " << got(i, j) << " instead of " << want(i, j) << ", tolerance " << tol << " mode " << mode << " step " << step;
    }
  static const char* names[] = {"forward", "central", "central second order"};
  s.label(names[mode]);
  // Comparison macro of the unit tests.
  macro<F>(x, step, 1e-3, &par, false);
  par.wrong_row = s.i(0, NY - 1);
  par.wrong_col = s.i(0, NX - 1);
  par.wrong = (s.boolean() ? 1 : -1) * s.real(3e-3, 1);
  macro<F>(x, step, 1e-3, &par, true);
  // A function that fails at one of the evaluations.
  par.wrong = 0;
  par.calls = 0;
  const int evals = NX * (mode == 2 ? 4 : 2);
  par.fail_at = s.i(0, evals - 1);
  if (mode == 0) ok = aslam::common::NumericalDiff<F, aslam::common::Forward>(f, step).getJacobianNumerical(x, got);
  else if (mode == 1) ok = aslam::common::NumericalDiff<F, aslam::common::Central>(f, step).getJacobianNumerical(x, got);
  else ok = aslam::common::NumericalDiff<F, aslam::common::CentralSecond>(f, step).getJacobianNumerical(x, got);
  if (par.calls > par.fail_at) REQ(!ok) << "differentiation hides a failed evaluation";
  s.nontrivial();
}
struct Nothing : public aslam::common::NumDiffFunctor<2, 0> {
  virtual bool functional(const InputType&, ValueType&, JacobianType*) const { return true; }
};
}  // namespace

PBT_PROP(numdiff, "any function", 20000, 500000, false, 500) {
  switch (s.draw(6)) {
    case 0: numdiffCase<1, 1>(s); break;
    case 1: numdiffCase<2, 3>(s); break;
    case 2: numdiffCase<2, 5>(s); break;
    case 3: numdiffCase<6, 2>(s); break;
    case 4: numdiffCase<3, 3>(s); break;
    default: {
      Nothing n;
      Nothing::JacobianType j;
      REQ((aslam::common::NumericalDiffTraits<Nothing>::type(n, 1e-6).getJacobianNumerical(Nothing::InputType(), j))) << "functions without variables";
    }
  }
}
