// C15: projection and back-projection invert each other, status classification.
#include <glog/logging.h>

#include "pbt.h"
#include "camera_ref.h"

const char* pbt::kProperty = "C15";
void pbt::workerInit() { FLAGS_minloglevel = 3; }

using namespace cref;
using pbt::Source;
typedef aslam::ProjectionResult Result;

namespace {
Status statusOf(const Result& r) { return r.getDetailedStatus(); }
std::string name(const Result& r) { std::ostringstream o; o << r; return o.str(); }

bool inside(const Cam& c, const V2& p) { return p(0) >= 0 && p(1) >= 0 && p(0) < c.w && p(1) < c.h; }

// The model is only reproduced to 2e-5 (relative) near the centre by the
// fisheye distortion, and to 1e-7 by the equidistant one.
double planeTol(const Cam& c, const V2& m) {
  double t = 2e-13 * (1 + m.norm());
  if (c.model == dref::kFish && m.squaredNorm() < 1.2e-5) t += 6e-5 * m.norm();
  if (c.model == dref::kEqui) t += 1e-7 * std::min(1.0, m.norm());
  return t;
}
// Tolerance of one pixel coordinate of the projection of p.
double pixelTol(const Cam& c, const V3& p, int i) {
  if (c.kind == kLidar) return 1e-13 / c.intr(i) * (10 + std::fabs(c.intr(3))) * p.norm() / std::max(1e-16 * p.norm(), std::hypot(p(0), p(2)));
  const V2 m = plane(c, p);
  // unified: cancellation in z + xi d near the limit of validity
  double amp = 1;
  if (c.kind == kUnified) amp = p.norm() * (1 + c.xi()) / std::fabs(p(2) + c.xi() * p.norm());
  const double grow = c.model == dref::kRadTan ? 1 + m.squaredNorm() * m.squaredNorm() : 1;
  return c.f(i) * (planeTol(c, m) + 1e-14 * (1 + m.norm()) * amp) * grow * 10 + 1e-12 * (std::fabs(c.c(i)) + 1);
}
// Difference of two pixels; the azimuth of a lidar is periodic.
V2 difference(const Cam& c, const V2& a, const V2& b) {
  V2 d = a - b;
  if (c.kind == kLidar) {
    const double n = 2 * M_PI / c.intr(0);
    d(0) -= n * std::round(d(0) / n);
  }
  return d.cwiseAbs();
}
// Round trips start with an iterative inversion of the distortion.
double inverseTol(const Cam& c, const V2& m, bool tight) {
  double t = tight ? 1e-8 * (1 + m.norm()) : 3e-5 * (1 + m.squaredNorm());
  if (c.kind == kUnified && c.xi() > 1) t *= 5;
  if (c.model == dref::kEqui && m.squaredNorm() < 1.2e-6) t += 1e-9;
  if (c.model == dref::kFish && m.squaredNorm() < 1.3e-5) t += 1e-4 * m.norm();
  return t;
}

// A pixel of the image together with the ray that the model assigns to it; the
// principal point may be moved to have the pixel on a chosen place.
struct Seen { V2 pixel, m; V3 ray; };
Seen seen(Source& s, Cam* c, double inner = 0.95) {
  Seen r;
  const bool adapt = c->kind != kLidar && s.chance(1, 2);
  for (int tries = 0; tries < 8; ++tries) {
    if (c->kind == kLidar) {
      for (int i = 0; i < 2; ++i) {
        const double n = i ? c->h : c->w;
        switch (s.draw(6)) {
          case 0: r.pixel(i) = 0; break;
          case 1: r.pixel(i) = std::nextafter(n, 0.0); break;
          case 2: r.pixel(i) = std::floor(s.real(0, n * 0.999999)); break;
          default: r.pixel(i) = s.real(0, n * 0.999999);
        }
      }
      const double a = r.pixel(0) * c->intr(0) - c->intr(3), e = r.pixel(1) * c->intr(1) - c->intr(2);
      r.ray = V3(std::sin(a) * std::cos(e), std::sin(e), std::cos(a) * std::cos(e));
      return r;
    }
    r.m = dref::point(s, c->disc * inner);
    const V2 y = distortedPlane(*c, r.m);
    if (c->model != dref::kFish && y.norm() > c->disc) continue;
    if (adapt) {
      bool ok = true;
      for (int i = 0; i < 2; ++i) {
        const double n = i ? c->h : c->w;
        double t;
        switch (s.draw(5)) {
          case 0: t = 0; break;
          case 1: t = n - 0.01; break;
          default: t = s.real(0, n * 0.999);
        }
        // A hair inside: the distortion is only reproduced up to a tolerance.
        t = std::min(std::max(t, 1e-3), n - 1e-3);
        const double centre = t - c->f(i) * y(i);
        ok = ok && centre > 0;
        if (centre > 0) c->setC(i, centre);
      }
      if (!ok) continue;
    }
    r.pixel = V2(c->f(0) * y(0) + c->c(0), c->f(1) * y(1) + c->c(1));
    if (!inside(*c, r.pixel)) continue;
    r.ray = lift(*c, r.m);
    return r;
  }
  throw pbt::Discard();
}
}  // namespace

PBT_PROP(pixel_round_trip, "the camera distorts, is not a pinhole, or the pixel is within 5% of the border", 1200000, 8000000) {
  const bool tight = s.boolean();
  FLAGS_acv_inv_distortion_tolerance = tight ? 1e-22 : 1e-8;
  Cam c = camera(s, 3);
  if (c.kind != kLidar && c.disc < 1e-3) throw pbt::Discard();
  const Seen q = seen(s, &c);
  c.cam = build(c);
  const double range_ = range(s);
  s << show(c) << "pixel " << q.pixel.transpose() << " range " << range_ << "\n";
  const double bx = std::min(q.pixel(0), c.w - q.pixel(0)) / c.w, by = std::min(q.pixel(1), c.h - q.pixel(1)) / c.h;
  s.nontrivial(c.kind != kPinhole || c.model != dref::kNull || std::min(bx, by) < 0.05);
  s.label(kindName(c.kind));
  V3 ray(7, 7, 7);
  PBT_CHECK(c.cam->backProject3(q.pixel, &ray), "a pixel of the image is not back-projected");
  PBT_CHECK(ray.allFinite() && ray.norm() > 0, "ray " << ray.transpose());
  const double itol = c.kind == kLidar ? 1e-12 * (10 + std::fabs(c.intr(3))) : inverseTol(c, q.m, tight) * 3;
  PBT_CHECK((ray.normalized() - q.ray.normalized()).norm() <= itol, "ray " << ray.normalized().transpose() << " expected " << q.ray.transpose());
  V2 back(-5, -5);
  const Result r = c.cam->project3(V3(ray.normalized() * range_), &back);
  const V2 d = difference(c, back, q.pixel);
  const double extra = c.kind == kLidar ? 1e-12 * (10 + std::fabs(c.intr(3))) / std::cos(q.pixel(1) * c.intr(1) - c.intr(2)) : 0;
  bool border = false;
  for (int i = 0; i < 2; ++i) {
    const double tol = (c.kind == kLidar ? extra / c.intr(i) + 1e-12 * q.pixel(i) : c.f(i) * (tight ? 1e-9 * (1 + q.m.norm()) : 4e-6) * 4 + pixelTol(c, q.ray * range_, i) + c.f(i) * (q.m.squaredNorm() < 1.3e-5 ? 1e-9 + 1e-4 * q.m.norm() : 0)) + 1e-12;
    PBT_CHECK(d(i) <= tol, "pixel " << q.pixel.transpose() << " projects back to " << back.transpose() << ", tolerance " << tol);
    border = border || q.pixel(i) <= tol || q.pixel(i) >= (i ? c.h : c.w) - tol;
  }
  if (!border) PBT_CHECK(r.isKeypointVisible() && statusOf(r) == Result::Status::KEYPOINT_VISIBLE && static_cast<bool>(r), "status " << name(r));
  Eigen::Vector4d ray4(1, 2, 3, 4);
  PBT_CHECK(c.cam->backProject4(q.pixel, &ray4), "homogeneous form fails");
  PBT_CHECK((ray4.head<3>().normalized() - ray.normalized()).norm() <= 1e-12, "homogeneous ray " << ray4.transpose());
  PBT_CHECK(ray4(3) == 0, "a ray has no finite position: " << ray4.transpose());
  V2 back4(-5, -5);
  const Result r4 = c.cam->project4(ray4, &back4);
  for (int i = 0; i < 2; ++i)
    PBT_CHECK(difference(c, back4, back)(i) <= 1e-9 * (std::fabs(back(i)) + (c.kind == kLidar ? 1 / c.intr(i) / std::cos(q.pixel(1) * c.intr(1) - c.intr(2)) : c.f(i) * (1 + q.m.norm()))) + pixelTol(c, q.ray, i), "homogeneous ray projects to " << back4.transpose() << " instead of " << back.transpose());
  if (!border) PBT_CHECK(r4.isKeypointVisible(), "homogeneous status " << name(r4));
}

PBT_PROP(point_round_trip, "the camera distorts or is not a pinhole, or the point is off the axis", 900000, 6000000) {
  const bool tight = s.boolean();
  FLAGS_acv_inv_distortion_tolerance = tight ? 1e-22 : 1e-8;
  Cam c = camera(s, 3);
  if (c.kind != kLidar && c.disc < 1e-3) throw pbt::Discard();
  const Seen q = seen(s, &c);
  c.cam = build(c);
  const V3 p = q.ray.normalized() * range(s);
  s << show(c) << "point " << p.transpose() << "\n";
  s.nontrivial(c.kind != kPinhole || c.model != dref::kNull || std::hypot(p(0), p(1)) > 0);
  V2 pix;
  const Result r = c.cam->project3(p, &pix);
  if (!r.isKeypointVisible()) {  // only at the border
    for (int i = 0; i < 2; ++i) {
      const double tol = pixelTol(c, p, i) + 1e-9;
      if (q.pixel(i) <= tol || q.pixel(i) >= (i ? c.h : c.w) - tol) throw pbt::Discard();
    }
    pbt::fail("a point that projects to " + std::to_string(q.pixel(0)) + ", " + std::to_string(q.pixel(1)) + " is reported " + name(r));
  }
  V3 ray;
  PBT_CHECK(c.cam->backProject3(pix, &ray), "a visible pixel is not back-projected");
  const double itol = c.kind == kLidar ? 1e-12 * (10 + std::fabs(c.intr(3))) : inverseTol(c, q.m, tight) * 3;
  PBT_CHECK((ray.normalized() - p.normalized()).norm() <= itol, "direction " << ray.normalized().transpose() << " instead of " << p.normalized().transpose());
  PBT_CHECK(ray.dot(p) > 0, "opposite direction");
}

PBT_PROP(status, "the point is not plainly visible: outside, behind, on the axis, in the image plane or at the limit", 1800000, 12000000) {
  const Cam base = camera(s, 3, 0.05, 40);
  Cam c = base;
  if (c.kind != kLidar && c.disc < 1e-3) throw pbt::Discard();
  c.cam = build(c);
  V3 p = anyPoint(s, c);
  if (s.chance(1, 12)) p *= s.logReal(1e-14, 1e-6);
  if (c.kind == kUnified && s.chance(1, 6)) {
    // about the limit of the valid cone: z = -fov * d
    const double fov = c.xi() <= 1 ? c.xi() : 1 / c.xi(), a = s.real(0, 2 * M_PI);
    const double z = std::min(1.0, std::max(-1.0, -fov + s.sreal(1) * s.logReal(1e-6, 0.5)));
    p = V3(std::cos(a) * std::sqrt(1 - z * z), std::sin(a) * std::sqrt(1 - z * z), z) * range(s);
  }
  s << show(c) << "point " << p.transpose() << "\n";
  V2 pix(-3, -3);
  const Result r = c.cam->project3(p, &pix);
  const Status st = statusOf(r);
  s << "projection " << pix.transpose() << " " << name(r);
  s.nontrivial(st != Result::Status::KEYPOINT_VISIBLE || std::hypot(p(0), p(1)) == 0);
  s.label(name(r).substr(18));
  PBT_CHECK(st != Result::Status::UNINITIALIZED, "status not set");
  PBT_CHECK(r.isKeypointVisible() == (st == Result::Status::KEYPOINT_VISIBLE) && static_cast<bool>(r) == r.isKeypointVisible() && r == st, "views of the result disagree");
  const double d = p.norm();
  if (c.kind == kPinhole) {
    if (p(2) < 0) PBT_CHECK(st == Result::Status::POINT_BEHIND_CAMERA, "a point behind the camera is reported " << name(r));
    else if (p(2) < 0.5e-10) PBT_CHECK(st == Result::Status::PROJECTION_INVALID, "a point in the image plane is reported " << name(r));
    else if (p(2) > 2e-10) PBT_CHECK(st == Result::Status::KEYPOINT_VISIBLE || st == Result::Status::KEYPOINT_OUTSIDE_IMAGE_BOX, "a point in front is reported " << name(r));
  } else {
    const double min_depth = c.kind == kLidar ? 0.01 : 1e-10;
    const double fov = c.kind == kLidar ? 2 : c.xi() <= 1 ? c.xi() : 1 / c.xi();
    const double limit = p(2) + fov * d;
    if (d < 0.9 * min_depth || limit < -1e-12 * d)
      PBT_CHECK(st == Result::Status::PROJECTION_INVALID, "a point without valid projection is reported " << name(r));
    else if (d > 1.1 * min_depth && limit > 1e-12 * d)
      PBT_CHECK(st == Result::Status::KEYPOINT_VISIBLE || st == Result::Status::KEYPOINT_OUTSIDE_IMAGE_BOX, "a point with valid projection is reported " << name(r));
  }
  const bool projected = st == Result::Status::KEYPOINT_VISIBLE || st == Result::Status::KEYPOINT_OUTSIDE_IMAGE_BOX;
  PBT_EQ(c.cam->isProjectable3(p), st == Result::Status::KEYPOINT_VISIBLE, "isProjectable3");
  if (!projected) return;
  if (c.kind == kUnified && p(2) + c.xi() * d < 1e-6 * d) return;  // ill conditioned
  const V2 want = refProject(c, p);
  bool decided = true;
  const V2 diff = difference(c, pix, want);
  const V2 m = c.kind == kLidar ? V2(0, 0) : plane(c, p);
  // The fisheye model saturates and the others lose their digits far out.
  const bool comparable = c.kind == kLidar || m.norm() < (c.model == dref::kFish ? c.disc : 1e3);
  bool in = true;
  for (int i = 0; i < 2; ++i) {
    const double tol = pixelTol(c, p, i);
    if (!(tol < 1e3)) { decided = false; continue; }
    if (comparable) PBT_CHECK(diff(i) <= tol, "projects to " << pix.transpose() << ", the model gives " << want.transpose() << " tolerance " << tol);
    const double n = i ? c.h : c.w;
    decided = decided && std::fabs(want(i)) > tol && std::fabs(want(i) - n) > tol;
    if (c.kind == kLidar && i == 0) decided = decided && std::fabs(want(0) - 2 * M_PI / c.intr(0)) > tol;
    in = in && want(i) >= 0 && want(i) < n;
  }
  // visible exactly if the reported pixel is inside ...
  PBT_EQ(st == Result::Status::KEYPOINT_VISIBLE, inside(c, pix), "visible but the pixel is outside, or the other way round; pixel inside");
  PBT_EQ(c.cam->isKeypointVisible(pix), inside(c, pix), "isKeypointVisible");
  // ... which is where the point projects to
  if (comparable && decided) PBT_EQ(in, st == Result::Status::KEYPOINT_VISIBLE, "the model sees the point in the image, status");
}

PBT_PROP(forms, "more than one point or an external parameter vector", 450000, 3000000) {
  FLAGS_acv_inv_distortion_tolerance = 1e-8;
  Cam c = camera(s, 3, 0.05, 40);
  if (c.kind != kLidar && c.disc < 1e-3) throw pbt::Discard();
  c.cam = build(c);
  const int n = s.chance(1, 10) ? 0 : s.i(1, 6);
  s << show(c) << n << " points\n";
  Eigen::Matrix3Xd pts(3, n);
  for (int i = 0; i < n; ++i) pts.col(i) = anyPoint(s, c);
  Eigen::Matrix2Xd pix(2, s.i(0, 4));
  pix.setConstant(-7);
  std::vector<Result> res(s.size(0, 9), Result(Result::Status::KEYPOINT_VISIBLE));
  c.cam->project3Vectorized(pts, &pix, &res);
  PBT_EQ(static_cast<int>(pix.cols()), n, "projected points");
  PBT_EQ(static_cast<int>(res.size()), n, "results");
  // another camera of the same kind that gets the parameters from outside
  Cam o = c;
  o.k = dref::params(s, c.model);
  if (c.kind != kLidar) for (int i = 0; i < o.intr.size(); ++i) o.intr(i) *= s.real(0.5, 1.5);
  else {
    o.intr(0) *= s.real(0.5, 1);
    o.intr(1) *= s.real(0.5, 1);
    o.intr(3) += s.sreal(1);
  }
  o.cam = build(o);
  s.nontrivial(true);
  bool any_valid = false;
  for (int i = 0; i < n; ++i) {
    const V3 p = pts.col(i);
    V2 a(1, 1), b(2, 2);
    const Result ra = c.cam->project3(p, &a);
    const Status sa = statusOf(ra);
    const bool valid = sa != Result::Status::PROJECTION_INVALID;
    any_valid = any_valid || valid;
    const double scale = c.kind == kLidar ? 1 / c.intr.head<2>().minCoeff() : std::max(c.f(0), c.f(1));
    const double amp = c.kind == kUnified ? std::pow(p.norm() * (1 + c.xi()) / std::max(1e-300, std::fabs(p(2) + c.xi() * p.norm())), 2) : 1;
    auto close = [&](const V2& x, const V2& y) { return !valid || !x.allFinite() || ((x - y).cwiseAbs().array() <= 1e-11 * amp * (scale + x.array().abs())).all(); };
    // at an image border the forms may differ by rounding
    auto same = [&](const Result& rb, const V2& bb) {
      if (statusOf(rb) == sa) return true;
      for (int q = 0; q < 2; ++q) {
        const double e = q ? c.h : c.w;
        if (std::fabs(bb(q)) < 1e-9 * scale * amp || std::fabs(bb(q) - e) < 1e-9 * scale * amp) return true;
      }
      return false;
    };
    s << "point " << p.transpose() << " pixel " << a.transpose() << " " << name(ra);
    PBT_CHECK(same(res[i], pix.col(i)) && close(a, pix.col(i)), "vectorised form " << pix.col(i).transpose() << " " << name(res[i]));
    // homogeneous form: any non-zero scale, points at infinity
    const double wgt = s.boolean() ? s.real(0.1, 10) : -s.real(0.1, 10);
    Eigen::Vector4d ph;
    ph << p * wgt, wgt;
    Result r4 = c.cam->project4(ph, &b);
    const double dd = p.norm() * std::min(1.0, std::fabs(wgt));
    if (dd > 0.02) {
      PBT_CHECK(same(r4, b) && close(a, b), "homogeneous form with w = " << wgt << ": " << b.transpose() << " " << name(r4));
      PBT_EQ(c.cam->isProjectable4(ph), r4.isKeypointVisible(), "isProjectable4");
    }
    ph(3) = 0;
    ph.head<3>() = p;
    r4 = c.cam->project4(ph, &b);
    PBT_CHECK(same(r4, b) && close(a, b), "homogeneous form with w = 0: " << b.transpose() << " " << name(r4));
    if (c.kind != kLidar) {
      ph.head<3>() *= wgt;
      ph(3) = wgt;
      Eigen::Matrix<double, 2, 4> J4;
      r4 = c.cam->project4(ph, &b, &J4);
      if (dd > 0.02) PBT_CHECK(same(r4, b) && close(a, b), "homogeneous form with Jacobian, w = " << wgt << ": " << b.transpose() << " " << name(r4));
    }
    // external parameters
    Result re = o.cam->project3Functional(p, &c.intr, c.kind == kLidar ? nullptr : &c.k, &b);
    PBT_CHECK(same(re, b) && close(a, b), "external parameters: " << b.transpose() << " " << name(re));
    re = c.cam->project3Functional(p, nullptr, nullptr, &b);
    PBT_CHECK(same(re, b) && close(a, b), "functional form with internal parameters: " << b.transpose() << " " << name(re));
    Cam mixed = o;  // only one of the two external
    mixed.k = c.k;
    mixed.cam = build(mixed);
    re = mixed.cam->project3Functional(p, &c.intr, nullptr, &b);
    PBT_CHECK(same(re, b) && close(a, b), "external intrinsics: " << b.transpose() << " " << name(re));
    if (c.kind != kLidar) {
      mixed = o;
      mixed.intr = c.intr;
      mixed.cam = build(mixed);
      re = mixed.cam->project3Functional(p, nullptr, &c.k, &b);
      PBT_CHECK(same(re, b) && close(a, b), "external distortion: " << b.transpose() << " " << name(re));
    }
    // templated forms
    if (c.kind == kPinhole && (c.model == dref::kNull || c.model == dref::kFish)) {
      const aslam::PinholeCamera& pin = static_cast<const aslam::PinholeCamera&>(*o.cam);
      re = c.model == dref::kNull ? pin.project3Functional<double, aslam::NullDistortion>(p, c.intr, c.k, &b)
                                  : pin.project3Functional<double, aslam::FisheyeDistortion>(p, c.intr, c.k, &b);
      PBT_CHECK(same(re, b) && close(a, b), "templated form: " << b.transpose() << " " << name(re));
    }
    if (c.kind == kLidar) {
      re = static_cast<const aslam::Camera3DLidar&>(*o.cam).project3Functional<double, aslam::NullDistortion>(p, c.intr, c.k, &b);
      PBT_CHECK(same(re, b) && close(a, b), "templated form: " << b.transpose() << " " << name(re));
    }
  }
  // back-projection of a list of pixels
  Eigen::Matrix2Xd kps(2, n);
  for (int i = 0; i < n; ++i) kps.col(i) = V2(s.real(-0.1, 1.1) * c.w, s.real(-0.1, 1.1) * c.h);
  Eigen::Matrix3Xd rays(3, s.i(0, 4));
  std::vector<unsigned char> ok(s.size(0, 9), 1);
  c.cam->backProject3Vectorized(kps, &rays, &ok);
  PBT_EQ(static_cast<int>(rays.cols()), n, "rays");
  PBT_EQ(static_cast<int>(ok.size()), n, "flags");
  for (int i = 0; i < n; ++i) {
    V3 a;
    const bool good = c.cam->backProject3(kps.col(i), &a);
    PBT_EQ(static_cast<bool>(ok[i]), good, "vectorised back-projection flag");
    if (good && a.allFinite()) PBT_CHECK((a - rays.col(i)).norm() <= 1e-11 * a.norm(), "vectorised back-projection " << rays.col(i).transpose() << " instead of " << a.transpose());
    Eigen::Vector4d h;
    PBT_EQ(c.cam->backProject4(kps.col(i), &h), good, "homogeneous back-projection flag");
  }
}

// The circle of liftable points of a mirror model with xi > 1.
PBT_PROP(liftable, "xi is above 1", 450000, 3000000) {
  FLAGS_acv_inv_distortion_tolerance = 1e-22;
  Cam c = camera(s, 2);
  if (c.kind != kUnified || c.disc < 1e-3) throw pbt::Discard();
  const double r = c.xi() > 1 ? s.real(0.3, 2) / std::sqrt(c.xi() * c.xi() - 1) : s.real(0, 1) * c.disc;
  const double a = s.real(0, 2 * M_PI);
  const V2 m(r * std::cos(a), r * std::sin(a));
  const double full = dref::discRadius(c.model, c.k, dref::maxRadius(c.model), 0.4, 2.2);
  const V2 y = distortedPlane(c, m);
  if (m.norm() > 0.95 * full || (c.model != dref::kFish && y.norm() > full)) throw pbt::Discard();
  c.cam = build(c);
  s.nontrivial(c.xi() > 1);
  const V2 pix(c.f(0) * y(0) + c.c(0), c.f(1) * y(1) + c.c(1));
  s << show(c) << "plane " << m.transpose() << " pixel " << pix.transpose() << "\n";
  const double q = r * r * (c.xi() * c.xi() - 1);
  if (std::fabs(q - 1) < 1e-3) throw pbt::Discard();
  V3 ray;
  const bool ok = c.cam->backProject3(pix, &ray);
  PBT_EQ(ok, q < 1, "the pixel is (is not) on the mirror");
  PBT_EQ(static_cast<const aslam::UnifiedProjectionCamera&>(*c.cam).isLiftable(pix), q < 1, "isLiftable");
  if (ok) PBT_CHECK((ray.normalized() - lift(c, m).normalized()).norm() < 1e-4 + 1e-4 * m.norm(), "ray " << ray.normalized().transpose() << " expected " << lift(c, m).transpose());
}

PBT_PROP(queries, "the image has a mask or a line delay, and a pixel lies on a border", 600000, 4000000) {
  Cam c = camera(s, 3, 0.05, 40);
  if (c.kind != kLidar && c.disc < 1e-3) throw pbt::Discard();
  c.cam = build(c);
  if (!s.chance(1, 40)) {  // keep the masks small
    c.w = 1 + c.w % 97;
    c.h = 1 + c.h % 89;
    c.cam = build(c);
  }
  aslam::Camera& cam = *c.cam;
  if (s.chance(1, 4)) {  // the size may be changed later on
    c.w = 1 + side(s) % 97;
    c.h = 1 + side(s) % 89;
    cam.setImageWidth(c.w);
    cam.setImageHeight(c.h);
  }
  PBT_EQ(cam.imageWidth(), c.w, "width");
  PBT_EQ(cam.imageHeight(), c.h, "height");
  Eigen::MatrixXd rays;
  if (auto* q = dynamic_cast<aslam::PinholeCamera*>(&cam)) q->getBorderRays(rays);
  if (auto* q = dynamic_cast<aslam::Camera3DLidar*>(&cam)) q->getBorderRays(rays);
  if (rays.size() > 0) {  // the corners and the middles of the sides
    PBT_CHECK(rays.rows() == 4 && rays.cols() == 8, "border rays " << rays.rows() << "x" << rays.cols());
    const double x[3] = {0.0, c.w * 0.5, c.w - 1.0}, y[3] = {0.0, c.h * 0.5, c.h - 1.0};
    const int at[8][2] = {{0, 0}, {0, 1}, {0, 2}, {2, 0}, {2, 1}, {2, 2}, {1, 0}, {1, 2}};
    for (int i = 0; i < 8; ++i) {
      Eigen::Vector4d ray;
      cam.backProject4(V2(x[at[i][0]], y[at[i][1]]), &ray);
      if (ray.allFinite()) PBT_CHECK((rays.col(i) - ray).norm() <= 1e-9 * ray.norm(), "border ray " << i << " is " << rays.col(i).transpose() << " and not " << ray.transpose());
    }
  }
  cv::Mat mask;
  PBT_CHECK(!cam.hasMask(), "a new camera has a mask");
  const int rounds = s.i(1, 3);
  bool interesting = false;
  for (int round = 0; round < rounds; ++round) {
    if (s.boolean()) {
      mask = cv::Mat(static_cast<int>(c.h), static_cast<int>(c.w), CV_8UC1);
      const int kind = s.i(0, 2);
      const uint64_t seed = s.bits();
      const uint8_t on = s.boolean() ? 255 : 1;
      for (int y = 0; y < mask.rows; ++y)
        for (int x = 0; x < mask.cols; ++x) {
          uint64_t v = seed ^ (static_cast<uint64_t>(y) * 0x9e3779b97f4a7c15ull + static_cast<uint64_t>(x) * 0xc2b2ae3d27d4eb4full);
          v ^= v >> 29;
          v *= 0xbf58476d1ce4e5b9ull;
          v ^= v >> 32;
          mask.at<uint8_t>(y, x) = kind == 0 ? (v & 1 ? on : 0) : kind == 1 ? (x < y ? on : 0) : (x == mask.cols - 1 || y == 0 ? 0 : on);
        }
      cam.setMask(mask);
      PBT_CHECK(cam.hasMask(), "mask not stored");
      interesting = true;
    } else if (s.boolean()) {
      cam.clearMask();
      mask = cv::Mat();
      PBT_CHECK(!cam.hasMask(), "mask not cleared");
    }
    const uint64_t delay = s.boolean() ? 0 : s.draw(100000);
    cam.setLineDelayNanoSeconds(delay);
    PBT_EQ(cam.getLineDelayNanoSeconds(), delay, "line delay");
    const bool columns = c.kind == kLidar;
    PBT_CHECK((cam.getLineDelayMode() == aslam::Camera::LineDelayMode::kColumns) == columns, "orientation of the lines");
    const uint32_t lines = columns ? c.w : c.h;
    PBT_EQ(cam.getNumberOfLines(), delay ? lines : 1u, "number of lines");
    const int64_t whole = cam.maxRollingShutterDelayNanoSeconds();
    PBT_EQ(whole, static_cast<int64_t>(lines) * static_cast<int64_t>(delay), "readout time of the image");
    for (int i = 0; i < 4; ++i) {
      V2 p;
      for (int q = 0; q < 2; ++q) {
        const double n = q ? c.h : c.w;
        switch (s.draw(9)) {
          case 0: p(q) = 0; break;
          case 1: p(q) = n; interesting = true; break;
          case 2: p(q) = std::nextafter(n, 0.0); interesting = true; break;
          case 3: p(q) = -std::numeric_limits<double>::denorm_min(); interesting = true; break;
          case 4: p(q) = s.real(-2, 2) * n; break;
          case 5: p(q) = static_cast<double>(s.range(-1, static_cast<int64_t>(n))); break;
          default: p(q) = s.real(0, 0.9999) * n;
        }
      }
      s << "pixel " << p.transpose() << "\n";
      const bool in = inside(c, p);
      PBT_EQ(cam.isKeypointVisible(p), in, "isKeypointVisible");
      const bool masked = !in || (!mask.empty() && mask.at<uint8_t>(static_cast<int>(std::floor(p(1))), static_cast<int>(std::floor(p(0)))) == 0);
      PBT_EQ(cam.isMasked(p), masked, "isMasked");
      const Eigen::Vector2f pf = p.cast<float>();
      PBT_EQ(cam.isKeypointVisible(pf), pf(0) >= 0 && pf(1) >= 0 && pf(0) < c.w && pf(1) < c.h, "isKeypointVisible, single precision");
      const Eigen::Vector2i pi(static_cast<int>(std::floor(p(0))), static_cast<int>(std::floor(p(1))));
      PBT_EQ(cam.isKeypointVisible(pi), pi(0) >= 0 && pi(1) >= 0 && pi(0) < static_cast<int>(c.w) && pi(1) < static_cast<int>(c.h), "isKeypointVisible, integers");
      const double top = 0.5 * std::min(c.w, c.h);
      const double margin = s.boolean() ? 0 : top * s.real(-0.5, 0.999);
      V2 pm = p;
      if (s.chance(1, 3)) pm(0) = s.boolean() ? margin : c.w - margin;
      PBT_EQ(cam.isKeypointVisibleWithMargin(pm, margin), pm(0) >= margin && pm(1) >= margin && pm(0) < c.w - margin && pm(1) < c.h - margin, "isKeypointVisibleWithMargin " << margin);
      const int64_t t = cam.rollingShutterDelayNanoSeconds(p);
      const double line = columns ? p(0) : p(1);
      if (in) {
        PBT_EQ(t, static_cast<int64_t>(std::floor(line)) * static_cast<int64_t>(delay), "delay of the pixel");
        PBT_CHECK(delay == 0 || (t >= 0 && t < whole), "delay outside the readout time");
      } else {
        PBT_CHECK(std::fabs(static_cast<double>(t) - line * static_cast<double>(delay)) <= static_cast<double>(delay), "delay of a pixel outside the image " << t);
      }
      interesting = interesting || delay;
    }
  }
  s.nontrivial(interesting);
}

PBT_PROP(random_points, "the camera distorts or is not a pinhole", 120000, 800000) {
  FLAGS_acv_inv_distortion_tolerance = 1e-8;
  Cam c = camera(s, 3);
  if (c.kind != kLidar) {
    if (c.disc < 1e-3) throw pbt::Discard();
    // The whole image is covered by the well conditioned part of the model.
    double r = 0;
    for (int q = 0; q < 4; ++q) r = std::max(r, V2(((q & 1 ? c.w : 0) - c.c(0)) / c.f(0), ((q & 2 ? c.h : 0) - c.c(1)) / c.f(1)).norm());
    const double mirror = c.kind == kUnified && c.xi() > 1 && s.boolean() ? 1.5 : 0.5;  // or not the whole image
    const double full = std::min(dref::discRadius(c.model, c.k, dref::maxRadius(c.model), 0.4, 2.2), c.kind == kUnified && c.xi() > 1 ? mirror / std::sqrt(c.xi() * c.xi() - 1) : 1e9);
    if (full < 1e-3) throw pbt::Discard();
    double reach = full;
    for (int q = 0; q < 16; ++q) reach = std::min(reach, 0.95 * distortedPlane(c, V2(full * std::cos(q * M_PI / 8), full * std::sin(q * M_PI / 8))).norm());
    const double scale = std::max(1.0, r / reach / s.real(0.05, 0.95));
    const int o = c.kind == kUnified;
    c.intr(o) *= scale;
    c.intr(o + 1) *= scale;
  }
  c.cam = build(c);
  const double depth = s.boolean() ? s.real(0.05, 30) : s.logReal(0.02, 1e5);
  s << show(c) << "depth " << depth << "\n";
  s.nontrivial(c.kind != kPinhole || c.model != dref::kNull);
  // xi > 1: the mirror has to show up in the image
  if (c.kind == kUnified && c.xi() > 1 && (c.c(0) >= c.w || c.c(1) >= c.h)) throw pbt::Discard();
  srand(static_cast<unsigned>(s.draw(1u << 20)));
  for (int i = 0; i < 5; ++i) {
    const V2 kp = c.cam->createRandomKeypoint();
    PBT_CHECK(inside(c, kp), "random keypoint " << kp.transpose() << " outside the image");
    V3 ray;
    PBT_CHECK(c.cam->backProject3(kp, &ray), "random keypoint " << kp.transpose() << " has no ray");
    const V3 p = c.cam->createRandomVisiblePoint(depth);
    PBT_CHECK(std::fabs(p.norm() - depth) <= 1e-9 * depth, "random point " << p.transpose() << " at depth " << p.norm());
    V2 pix;
    const Result r = c.cam->project3(p, &pix);
    PBT_CHECK(r.isKeypointVisible(), "random point " << p.transpose() << " projects to " << pix.transpose() << ": " << name(r));
  }
}
