// C13: distortion and undistortion invert each other.
#include <iomanip>

#include <glog/logging.h>

#include "pbt.h"
#include "distortion_ref.h"

const char* pbt::kProperty = "C13";
void pbt::workerInit() { FLAGS_minloglevel = 2; }

using namespace dref;
using pbt::Source;
typedef Eigen::Vector2d V2;

namespace {
bool same(const V2& a, const V2& b) { return std::memcmp(a.data(), b.data(), 16) == 0; }

struct Setup {
  int model;
  Eigen::VectorXd k;
  std::unique_ptr<aslam::Distortion> d;
  double radius;
};
Setup setup(Source& s) {
  Setup t;
  t.model = s.i(0, 3);
  t.k = params(s, t.model);
  t.d = make(t.model, t.k);
  t.radius = discRadius(t.model, t.k, maxRadius(t.model), 0.4, 2.2);
  s << std::setprecision(17) << modelName(t.model) << " [" << t.k.transpose() << "] radius " << t.radius << "\n";
  return t;
}
V2 reference(const Setup& t, const V2& p) {
  L k[4] = {0, 0, 0, 0}, x, y;
  for (int i = 0; i < t.k.size(); ++i) k[i] = t.k(i);
  distort<L>(t.model, k, p(0), p(1), &x, &y);
  return V2(static_cast<double>(x), static_cast<double>(y));
}

// Rate at which the distorted radius grows, for the conversion of a tolerance.
double growth(const Setup& t, double r) {
  const double h = 1e-6 * (1 + r);
  const V2 a = reference(t, V2(r + h, 0)), b = reference(t, V2(std::max(0.0, r - h), 0));
  return (a.norm() - b.norm()) / (r + h - std::max(0.0, r - h));
}
}  // namespace

PBT_PROP(inverse, "the model distorts and the point is not the centre", 1000000, 20000000) {
  const Setup t = setup(s);
  const bool tight = s.boolean();
  FLAGS_acv_inv_distortion_tolerance = tight ? 1e-22 : 1e-8;
  V2 x = point(s, t.radius * 0.95);
  V2 y;
  t.d->distort(x, &y);
  s << "x = " << x.transpose() << " y = " << y.transpose() << " tight " << tight << "\n";
  // The disc contains both the point and its image, so that the iteration
  // starts in the region in which the model is invertible.
  if (t.model != kFish && y.norm() > t.radius) throw pbt::Discard();
  s.nontrivial(t.model != kNull && !same(x, y));
  // the mapping is that of the model
  const V2 want = reference(t, x);
  PBT_CHECK((y - want).norm() <= 1e-7 * std::min(1.0, x.norm()) + 1e-10 * x.norm() + 1e-13 || (t.model != kFish ? false : x.norm() < 4e-3 && (y - want).norm() <= 3e-5 * x.norm()),
            "distorted point is " << y.transpose() << ", the model gives " << want.transpose());
  V2 z;
  t.d->undistort(y, &z);
  const double g = growth(t, x.norm());
  // The iteration stops at a squared residual of the tolerance flag and then
  // does one more (quadratically converging) step.
  const double centre = t.model == kEqui && y.squaredNorm() < 1.1e-6 ? 1e-9 : t.model == kFish && x.squaredNorm() < 1.1e-5 ? 1e-5 * x.norm() * 4 : 0;
  const double tol = tight ? 1e-9 * (1 + x.norm()) / std::min(1.0, g) : 1e-5 * (1 + x.squaredNorm());
  PBT_CHECK((z - x).norm() <= tol + centre, "undistort(distort(x)) = " << z.transpose() << ", off by " << (z - x).norm() << " tolerance " << tol + centre);
  V2 back;
  t.d->distort(z, &back);
  PBT_CHECK((back - y).norm() <= (tight ? 1e-9 : 2e-6) + centre, "distort(undistort(y)) = " << back.transpose() << ", off by " << (back - y).norm());
  // near the centre the point must not be moved away from it by the inverse
  if (t.model == kNull) PBT_CHECK(same(z, x) && same(y, x), "the null model is not the identity");
  if (t.model != kNull && t.k.isZero(0)) {
    const V2 u = t.model == kEqui ? want : x;
    PBT_CHECK((y - u).norm() <= 1e-13 * (1 + x.norm()), "zero parameters distort");
  }
}

PBT_PROP(variants, "the model distorts", 300000, 6000000) {
  const Setup t = setup(s);
  const V2 x = point(s, t.radius * 0.95);
  s << "x = " << x.transpose() << "\n";
  s.nontrivial(t.model != kNull);
  V2 y;
  t.d->distort(x, &y);
  V2 a = x;
  t.d->distort(&a);
  PBT_CHECK(same(a, y), "in-place distort");
  Eigen::Matrix2d J;
  a = x;
  t.d->distort(&a, &J);
  PBT_CHECK(same(a, y), "distort with Jacobian");
  a = x;
  t.d->distortUsingExternalCoefficients(nullptr, &a, nullptr);
  PBT_CHECK(same(a, y), "external with null");
  // an object with other parameters
  const Eigen::VectorXd k2 = params(s, t.model);
  std::unique_ptr<aslam::Distortion> other = make(t.model, k2);
  a = x;
  other->distortUsingExternalCoefficients(&t.k, &a, nullptr);
  PBT_CHECK(same(a, y), "external parameters");
  a = x;
  other->distortUsingExternalCoefficients(&t.k, &a, &J);
  PBT_CHECK(same(a, y), "external parameters with Jacobian");
  PBT_CHECK(other->getParameters() == k2, "external parameters were stored");
  if (t.model == kFish) {
    V2 o;
    static_cast<const aslam::FisheyeDistortion&>(*other).distortUsingExternalCoefficients<double>(t.k, x, &o);
    PBT_CHECK((o - y).norm() <= 1e-13 * (1 + x.norm()), "templated form " << o.transpose() << " instead of " << y.transpose());
  }
  if (t.model == kNull) {
    V2 o(9, 9);
    static_cast<const aslam::NullDistortion&>(*other).distortUsingExternalCoefficients<double>(t.k, x, &o);
    PBT_CHECK(same(o, x), "templated form");
  }
  // undistort
  V2 u;
  t.d->undistort(y, &u);
  a = y;
  t.d->undistort(&a);
  PBT_CHECK(same(a, u), "in-place undistort");
  a = y;
  other->undistortUsingExternalCoefficients(t.k, &a);
  PBT_CHECK(same(a, u), "external undistort");
  // aliasing in- and output
  a = x;
  t.d->distort(a, &a);
  PBT_CHECK(same(a, y), "aliased distort");
  a = y;
  t.d->undistort(a, &a);
  PBT_CHECK(same(a, u), "aliased undistort");
  // setting parameters is the same as constructing with them
  other->setParameters(t.k);
  PBT_CHECK(other->getParameters() == t.k, "parameters not stored");
  other->distort(x, &a);
  PBT_CHECK(same(a, y), "after setParameters");
  PBT_CHECK(*other == *t.d && *t.d == *other, "equal parameters compare unequal");
  std::unique_ptr<aslam::Distortion> c(t.d->clone());
  PBT_CHECK(*c == *t.d && c->getType() == t.d->getType(), "clone");
  c->distort(x, &a);
  PBT_CHECK(same(a, y), "clone distorts differently");
  if (t.k.size() > 0) {
    const int i = s.i(0, static_cast<int>(t.k.size()) - 1);
    Eigen::VectorXd k3 = t.k;
    k3(i) = t.model == kFish ? (t.k(i) == 1.25 ? 1.0 : 1.25) : t.k(i) + 0.125;
    c->setParameters(k3);
    PBT_CHECK(!(*c == *t.d) && !(*t.d == *c), "different parameter " << i << " compares equal");
    PBT_CHECK(t.d->getParameters() == t.k, "editing a clone edited the original");
    if (t.model != kFish) {
      c->getParametersMutable()[i] = t.k(i);
      PBT_CHECK(*c == *t.d, "mutable parameters");
    }
  }
  for (int m = 0; m < 4; ++m) {
    if (m == t.model) continue;
    std::unique_ptr<aslam::Distortion> o = make(m, params(s, m));
    PBT_CHECK(!(*o == *t.d), "different models compare equal");
    PBT_CHECK(o->getType() != t.d->getType(), "type");
  }
  PBT_EQ(t.d->getParameterSize(), static_cast<int>(t.k.size()), "parameter count");
}

PBT_PROP(radial, "the model distorts and the radii differ", 300000, 6000000) {
  Setup t = setup(s);
  if (t.model == kRadTan) {
    t.k(2) = t.k(3) = 0;
    t.d = make(t.model, t.k);
    t.radius = discRadius(t.model, t.k, maxRadius(t.model), 0.4, 2.2);
  }
  const V2 a = point(s, t.radius * 0.95);
  if (a.norm() == 0) throw pbt::Discard();
  const double f = s.oneOf<double>({1 + 1e-6, 1.001, 1.1, 2, 50, 1e4});
  if (a.norm() * f > t.radius) throw pbt::Discard();
  const V2 b = a * f;
  s << "a = " << a.transpose() << " factor " << f << "\n";
  s.nontrivial(t.model != kNull);
  V2 da, db;
  t.d->distort(a, &da);
  t.d->distort(b, &db);
  // direction
  auto aligned = [](const V2& p, const V2& q) {
    const double cross = p(0) * q(1) - p(1) * q(0);
    return p.dot(q) > 0 && std::fabs(cross) <= 1e-13 * p.norm() * q.norm();
  };
  PBT_CHECK(aligned(a, da) && aligned(b, db), "distortion changes the direction");
  PBT_CHECK(da.norm() < db.norm(), "radial order: " << da.norm() << " and " << db.norm());
  V2 ua, ub;
  // Undistort inside the well-conditioned region only.
  if (t.model == kFish || db.norm() <= t.radius) {
    t.d->undistort(da, &ua);
    t.d->undistort(db, &ub);
    auto roughly = [](const V2& p, const V2& q) {
      const double cross = p(0) * q(1) - p(1) * q(0);
      return p.dot(q) > 0 && std::fabs(cross) <= 1e-7 * p.norm() * q.norm();
    };
    PBT_CHECK(roughly(da, ua) && roughly(db, ub), "undistortion changes the direction");
    if (f >= 1.1) PBT_CHECK(ua.norm() < ub.norm(), "radial order of the undistorted points");
  }
}

PBT_PROP(validity, "the parameters are invalid", 6000, 100000) {
  const int model = s.i(1, 3);
  const int n = s.i(0, 6);
  Eigen::VectorXd k(n);
  for (int i = 0; i < n; ++i) {
    switch (s.draw(4)) {
      case 0: k(i) = s.real(0.5, 1.5); break;
      case 1: k(i) = s.oneOf<double>({0.0, 0.5, 1.5, 0.49999999999, 1.5000000001, 1e-17, -1e-17, 1e-15, -0.5, -1.0, 0.1, 1e300}); break;
      case 2: k(i) = s.sreal(3.0); break;
      default: k(i) = s.oneOf<double>({0.3, std::nan(""), INFINITY, -INFINITY, 0.7});
    }
  }
  if (model == kFish && s.boolean()) k.conservativeResize(1), k(0) = s.oneOf<double>({0.0, 0.5, 1.5, 0.4999999, 1.500001, 1e-17, 1e-3, -0.7, 0.9});
  bool finite = true;
  for (int i = 0; i < k.size(); ++i) finite = finite && std::isfinite(k(i));
  bool valid = k.size() == paramCount(model);
  if (model == kFish) valid = valid && (std::fabs(k(0)) < 1e-16 || (k(0) >= 0.5 && k(0) <= 1.5));
  if (valid && !finite) throw pbt::Discard();  // unspecified: not a number in a model of any value
  s << modelName(model) << " [" << k.transpose() << "]\n";
  s.nontrivial(!valid);
  bool is = false;
  switch (model) {
    case kRadTan: is = aslam::RadTanDistortion::areParametersValid(k); break;
    case kEqui: is = aslam::EquidistantDistortion::areParametersValid(k); break;
    default: is = aslam::FisheyeDistortion::areParametersValid(k);
  }
  PBT_EQ(is, valid, "areParametersValid");
  const Eigen::VectorXd k0 = params(s, model);
  std::unique_ptr<aslam::Distortion> d = make(model, k0);
  PBT_EQ(d->distortionParametersValid(k), valid, "distortionParametersValid");
  PBT_CHECK(d->getParameters() == k0, "a query changed the parameters");
  if (valid) {
    d->setParameters(k);
    PBT_CHECK(d->getParameters() == k, "valid parameters not stored");
    make(model, k);
  } else if (s.chance(1, 20)) {
    PBT_CHECK(pbt::fateOf([&] { d->setParameters(k); }) != pbt::Fate::kReturned, "setParameters accepted invalid parameters");
    PBT_CHECK(pbt::fateOf([&] { make(model, k); }) != pbt::Fate::kReturned, "constructed with invalid parameters");
    V2 p(0.1, 0.2);
    if (k.size() != paramCount(model)) {
      PBT_CHECK(pbt::fateOf([&] { V2 q = p; d->distortUsingExternalCoefficients(&k, &q, nullptr); }) != pbt::Fate::kReturned, "distort accepted a wrong number of parameters");
      PBT_CHECK(pbt::fateOf([&] { V2 q = p; d->undistortUsingExternalCoefficients(k, &q); }) != pbt::Fate::kReturned, "undistort accepted a wrong number of parameters");
    }
  }
}
