// C14: reported distortion Jacobians are the derivatives of the mapping.
#include <iomanip>

#include <glog/logging.h>

#include "pbt.h"
#include "distortion_ref.h"

// A minimal automatic differentiation type of the shape the templated
// distortion code expects (template <typename, int>).
template <typename T, int N>
struct Jet {
  T a;
  Eigen::Matrix<T, N, 1> v;
  Jet() : a(0) { v.setZero(); }
  Jet(const T& x) : a(x) { v.setZero(); }  // NOLINT
  Jet(const T& x, const Eigen::Matrix<T, N, 1>& d) : a(x), v(d) {}
  Jet& operator+=(const Jet& o) { a += o.a; v += o.v; return *this; }
  Jet& operator*=(const Jet& o) { v = (v * o.a + o.v * a).eval(); a *= o.a; return *this; }
};
template <typename T, int N> Jet<T, N> operator+(Jet<T, N> x, const Jet<T, N>& y) { return x += y; }
template <typename T, int N> Jet<T, N> operator-(const Jet<T, N>& x, const Jet<T, N>& y) { return Jet<T, N>(x.a - y.a, x.v - y.v); }
template <typename T, int N> Jet<T, N> operator*(Jet<T, N> x, const Jet<T, N>& y) { return x *= y; }
template <typename T, int N> Jet<T, N> operator/(const Jet<T, N>& x, const Jet<T, N>& y) { return Jet<T, N>(x.a / y.a, (x.v - x.a / y.a * y.v) / y.a); }
template <typename T, int N> Jet<T, N> operator*(double s, const Jet<T, N>& x) { return Jet<T, N>(s * x.a, s * x.v); }
template <typename T, int N> Jet<T, N> operator*(const Jet<T, N>& x, double s) { return s * x; }
template <typename T, int N> Jet<T, N> operator/(const Jet<T, N>& x, double s) { return Jet<T, N>(x.a / s, x.v / s); }
template <typename T, int N> bool operator<(const Jet<T, N>& x, const Jet<T, N>& y) { return x.a < y.a; }
template <typename T, int N> bool operator<(const Jet<T, N>& x, double y) { return x.a < y; }
template <typename T, int N> Jet<T, N> sqrt(const Jet<T, N>& x) {
  const T r = std::sqrt(x.a);
  return r == 0 ? Jet<T, N>(0) : Jet<T, N>(r, x.v / (2 * r));
}
template <typename T, int N> Jet<T, N> abs(const Jet<T, N>& x) { return x.a < 0 ? Jet<T, N>(-x.a, -x.v) : x; }
namespace Eigen {
template <typename T, int N>
struct NumTraits<Jet<T, N>> : GenericNumTraits<Jet<T, N>> {
  typedef Jet<T, N> Real;
  typedef Jet<T, N> NonInteger;
  typedef Jet<T, N> Nested;
  enum { IsComplex = 0, IsInteger = 0, IsSigned = 1, RequireInitialization = 1, ReadCost = 1, AddCost = 1, MulCost = 3, HasFloatingPoint = 1 };
};
}  // namespace Eigen

const char* pbt::kProperty = "C14";
void pbt::workerInit() { FLAGS_minloglevel = 2; }

using namespace dref;
using pbt::Source;
typedef Eigen::Vector2d V2;
typedef Eigen::Matrix<double, 2, Eigen::Dynamic> M2X;

namespace {
bool same(const V2& a, const V2& b) { return std::memcmp(a.data(), b.data(), 16) == 0; }

// Derivatives of the published model with respect to the point (columns 0, 1)
// and the parameters.
Eigen::Matrix<double, 2, 6> derivative(int model, const Eigen::VectorXd& k, const V2& p) {
  typedef Dual<6> D;
  D kd[4], x = D::var(p(0), 0), y = D::var(p(1), 1), ox, oy;
  for (int i = 0; i < k.size(); ++i) kd[i] = D::var(k(i), 2 + i);
  distort<D>(model, kd, x, y, &ox, &oy);
  Eigen::Matrix<double, 2, 6> r;
  for (int i = 0; i < 6; ++i) {
    r(0, i) = static_cast<double>(ox.v[i]);
    r(1, i) = static_cast<double>(oy.v[i]);
  }
  return r;
}
}  // namespace

PBT_PROP(point_jacobian, "the model distorts", 600000, 12000000) {
  const int model = s.i(0, 3);
  const Eigen::VectorXd k = params(s, model);
  const double radius = discRadius(model, k, maxRadius(model), 0.05, 40);
  const V2 x = point(s, radius);
  s << std::setprecision(17) << modelName(model) << " [" << k.transpose() << "] x = " << x.transpose() << "\n";
  s.nontrivial(model != kNull);
  const Eigen::VectorXd stored = s.boolean() ? k : params(s, model);
  const bool external = !(stored.size() == k.size() && stored == k);
  const std::unique_ptr<aslam::Distortion> d = make(model, stored);
  V2 plain = x, with = x;
  d->distortUsingExternalCoefficients(external ? &k : nullptr, &plain, nullptr);
  Eigen::Matrix2d J;
  J << 5, 6, 7, 8;
  if (external || s.boolean()) d->distortUsingExternalCoefficients(&k, &with, &J);
  else d->distort(&with, &J);
  PBT_CHECK(same(plain, with), "requesting the Jacobian changed the point: " << plain.transpose() << " and " << with.transpose());
  const Eigen::Matrix2d want = derivative(model, k, x).leftCols<2>();
  // Below a radius of 3e-3 the fisheye model switches to its limit, which is
  // 2e-5 off (relative) at the switch.
  const bool limit = model == kFish && x.squaredNorm() < 1.1e-5;
  const double tol = (limit ? 6e-5 : 1e-9) * (1 + want.norm());
  PBT_CHECK((J - want).cwiseAbs().maxCoeff() <= tol, "Jacobian\n" << J << "\nderivative\n" << want);
  // ... of the mapping that is reported: central differences of the code itself
  if (s.chance(1, 4)) {
    const double h = 1e-4 * std::max(1e-1, x.norm());
    // stay on one side of the switch
    if (model == kFish && std::fabs(x.norm() - std::sqrt(1e-5)) < 5 * h) return;
    for (int i = 0; i < 2; ++i) {
      V2 f[4];
      const double at[4] = {h, -h, 2 * h, -2 * h};
      for (int q = 0; q < 4; ++q) {
        f[q] = x;
        f[q](i) += at[q];
        d->distortUsingExternalCoefficients(&k, &f[q], nullptr);
      }
      const V2 num = (8 * (f[0] - f[1]) - (f[2] - f[3])) / (12 * h);
      PBT_CHECK((num - J.col(i)).norm() <= (limit ? 1e-4 : 3e-7) * (1 + want.norm()), "numeric derivative " << num.transpose() << " column " << J.col(i).transpose());
    }
  }
}

PBT_PROP(parameter_jacobian, "the model has parameters", 400000, 8000000) {
  const int model = s.i(0, 3);
  const Eigen::VectorXd k = params(s, model);
  const double radius = discRadius(model, k, maxRadius(model), 0.05, 40);
  const V2 x = point(s, radius);
  s << std::setprecision(17) << modelName(model) << " [" << k.transpose() << "] x = " << x.transpose() << "\n";
  s.nontrivial(model != kNull);
  const bool internal = s.boolean();
  const std::unique_ptr<aslam::Distortion> d = make(model, internal ? k : params(s, model));
  M2X J;
  switch (s.draw(3)) {  // whatever the output held before
    case 0: break;
    case 1: J = M2X::Constant(2, 7, 3.5); break;
    default: J = M2X::Constant(2, k.size(), -2);
  }
  d->distortParameterJacobian(internal ? nullptr : &k, x, &J);
  PBT_EQ(J.cols(), k.size(), "number of columns");
  if (model == kNull) return;
  const M2X want = derivative(model, k, x).middleCols(2, k.size());
  const bool limit = model == kFish && x.squaredNorm() < 1.1e-5;
  for (int i = 0; i < J.cols(); ++i) {
    const double scale = want.col(i).norm() + std::pow(x.norm(), 2);
    PBT_CHECK((J.col(i) - want.col(i)).norm() <= (limit ? 1e-4 * (x.norm() + scale) : 1e-9 * scale + 1e-15 * x.norm() + (model == kFish ? 1e-10 * x.norm() : 0)) + 1e-18,
              "Jacobian\n" << J << "\nderivative\n" << want);
  }
  // of the reported mapping
  if (s.chance(1, 4)) {
    for (int i = 0; i < k.size(); ++i) {
      const double h = 1e-3;
      if (model == kFish && std::fabs(k(0)) < 0.1) continue;
      V2 f[4];
      const double at[4] = {h, -h, 2 * h, -2 * h};
      for (int q = 0; q < 4; ++q) {
        Eigen::VectorXd kk = k;
        kk(i) += at[q];
        f[q] = x;
        d->distortUsingExternalCoefficients(&kk, &f[q], nullptr);
      }
      const V2 num = (8 * (f[0] - f[1]) - (f[2] - f[3])) / (12 * h);
      PBT_CHECK((num - J.col(i)).norm() <= 1e-8 * (x.norm() + want.norm()) + (limit ? 1e-4 * x.norm() : 0), "numeric derivative " << num.transpose() << " column " << J.col(i).transpose());
    }
  }
}

// The templated form of the fisheye model under automatic differentiation.
PBT_PROP(automatic, "w is not 0", 100000, 2000000) {
  Eigen::VectorXd k(1);
  k(0) = s.chance(1, 6) ? 0.0 : s.real(0.5, 1.5);
  const V2 x = point(s, discRadius(kFish, k, 20, 0, 0));
  s << std::setprecision(17) << "w = " << k(0) << " x = " << x.transpose() << "\n";
  s.nontrivial(k(0) != 0);
  typedef Jet<double, 3> J3;
  Eigen::Matrix<J3, Eigen::Dynamic, 1> kj(1);
  kj(0) = J3(k(0), Eigen::Vector3d(0, 0, 1));
  const Eigen::Matrix<J3, 2, 1> p(J3(x(0), Eigen::Vector3d(1, 0, 0)), J3(x(1), Eigen::Vector3d(0, 1, 0)));
  Eigen::Matrix<J3, 2, 1> out;
  aslam::FisheyeDistortion d(k);
  d.distortUsingExternalCoefficients<J3>(kj, p, &out);
  V2 y;
  d.distort(x, &y);
  PBT_CHECK((V2(out(0).a, out(1).a) - y).norm() <= 1e-13 * (1 + x.norm()), "value");
  const Eigen::Matrix<double, 2, 6> want = derivative(kFish, k, x);
  const double tol = x.squaredNorm() < 1.1e-5 ? 1e-4 : 1e-9;
  for (int r = 0; r < 2; ++r)
    for (int c = 0; c < 3; ++c)
      PBT_CHECK(std::fabs(out(r).v(c) - want(r, c)) <= tol * (1 + want.leftCols<3>().norm()), "derivative " << out(r).v.transpose() << " expected " << want.row(r).head<3>());
}
