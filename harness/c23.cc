// C23: triangulation recovers the point or reports that it cannot.
#include <glog/logging.h>

#include <iomanip>

#include <gflags/gflags.h>

#include "camera_ref.h"
#include "pbt.h"
#include "rig_ref.h"
#include "util.h"

#include <aslam/common/memory.h>
#include <aslam/frames/feature-track.h>
#include <aslam/frames/visual-nframe.h>
#include <aslam/triangulation/triangulation.h>

DECLARE_double(acv_inv_distortion_tolerance);

const char* pbt::kProperty = "C23";
void pbt::workerInit() { FLAGS_minloglevel = 4; }

using aslam::Transformation;
using aslam::TransformationVector;
using aslam::TriangulationResult;
using pbt::Source;
typedef Eigen::Vector2d V2;
typedef Eigen::Vector3d V3;
typedef TriangulationResult::Status Status;

namespace {
typedef Aligned<std::vector, V2> V2s;

// Parallax of a set of directions: least eigenvalue of the mean of I - d d^T.
double parallax(const std::vector<V3>& d) {
  Eigen::Matrix3d m = Eigen::Matrix3d::Zero();
  for (const V3& x : d) m += Eigen::Matrix3d::Identity() - x.normalized() * x.normalized().transpose();
  return Eigen::SelfAdjointEigenSolver<Eigen::Matrix3d>(m / d.size()).eigenvalues()(0);
}
const double kEnough = 4e-4, kNone = 2.5e-9;

V3 direction(Source& s) {
  V3 d(s.sreal(1), s.sreal(1), s.sreal(1));
  if (s.chance(1, 5)) { d.setZero(); d(s.i(0, 2)) = s.boolean() ? 1 : -1; }
  return d.norm() < 1e-3 ? V3(0, 0, 1) : V3(d.normalized());
}
V3 inFront(Source& s, double most) {  // direction seen by a camera, at most this angle off its axis
  const double a = s.chance(1, 6) ? 0 : s.chance(1, 6) ? most : s.real(0, most), b = s.real(0, 2 * M_PI);
  return V3(std::sin(a) * std::cos(b), std::sin(a) * std::sin(b), std::cos(a));
}
// A pose that looks at p, seen in direction c by the camera, in direction w of the world at distance r.
Transformation poseFor(Source& s, const V3& p, const V3& c, const V3& w, double r) {
  Eigen::Quaterniond q = Eigen::Quaterniond::FromTwoVectors(c, w);
  if (!s.chance(1, 5)) q = q * Eigen::Quaterniond(Eigen::AngleAxisd(s.real(-M_PI, M_PI), c));
  q.normalize();
  if (q.w() < 0) q.coeffs() *= -1;
  return Transformation(aslam::Quaternion(q.w(), q.x(), q.y(), q.z()), aslam::Position3D(p - r * (q * c)));
}

enum Kind { kWide, kNarrow, kDegenerate };
// Directions of the world in which the point is seen.
std::vector<V3> worldDirections(Source& s, size_t n, int kind) {
  std::vector<V3> w;
  const V3 base = direction(s);
  const double spread = kind == kWide ? 0 : kind == kNarrow ? s.logReal(0.02, 0.6) : s.chance(1, 2) ? 0 : s.logReal(1e-12, 4e-5);
  for (size_t i = 0; i < n; ++i) {
    if (kind == kWide) w.push_back(direction(s));
    else w.push_back((base + spread * V3(s.sreal(1), s.sreal(1), s.sreal(1))).normalized());
  }
  // Looking at the point from the other side gives no parallax either.
  if (kind == kDegenerate && s.boolean()) for (V3& x : w) if (s.boolean()) x = -x;
  return w;
}
V3 landmark(Source& s) {
  if (s.chance(1, 6)) return V3::Zero();
  const double m = s.boolean() ? 10 : s.logReal(1e-2, 1e4);
  return V3(s.sreal(m), s.sreal(m), s.sreal(m));
}
double depth(Source& s) { return s.boolean() ? s.real(0.3, 10) : s.logReal(0.05, 500); }

struct Scene {
  V3 p;
  V2s m;
  std::vector<size_t> cam;
  TransformationVector T_G_B, T_B_C;
  std::vector<V3> rays;  // world, unit
  double scale = 1;
  size_t n() const { return m.size(); }
  V3 centre(size_t i) const { return T_G_B[i] * T_B_C[cam[i]].getPosition(); }
  void measureScale() {
    scale = p.norm();
    for (size_t i = 0; i < n(); ++i) {
      scale = std::max(scale, T_G_B[i].getPosition().norm());
      scale = std::max(scale, T_B_C[cam[i]].getPosition().norm());
    }
  }
};
Scene scene(Source& s, size_t n, size_t cameras, int kind) {
  Scene x;
  x.p = landmark(s);
  for (size_t i = 0; i < cameras; ++i) x.T_B_C.push_back(rref::transformation(s, s.boolean() ? 1 : 100));
  const std::vector<V3> w = worldDirections(s, n, kind);
  const bool wide = s.chance(1, 4), common = kind == kDegenerate && s.boolean();
  const double r0 = depth(s);
  for (size_t i = 0; i < n; ++i) {
    const V3 c = inFront(s, wide ? 89.9 * M_PI / 180 : 1.2);
    const double r = common ? r0 : depth(s);
    x.cam.push_back(s.draw(cameras));
    const Transformation T_G_C = poseFor(s, x.p, c, w[i], r);
    x.T_G_B.push_back(T_G_C * x.T_B_C[x.cam[i]].inverse());
    x.m.push_back(c.head<2>() / c(2));
    x.rays.push_back(w[i]);
  }
  x.measureScale();
  return x;
}
void describe(Source& s, const Scene& x) {
  s << std::setprecision(17) << "point " << x.p.transpose() << "\n";
  for (size_t i = 0; i < x.T_B_C.size(); ++i) s << "T_B_C " << i << "\n" << x.T_B_C[i].getTransformationMatrix() << "\n";
  for (size_t i = 0; i < x.n(); ++i)
    s << "view " << i << " camera " << x.cam[i] << " measurement " << x.m[i].transpose() << " T_G_B\n" << x.T_G_B[i].getTransformationMatrix() << "\n";
}

std::string name(Status st) {
  std::ostringstream o;
  o << TriangulationResult(st);
  return o.str();
}
struct Answer {
  TriangulationResult r;
  V3 p = V3::Constant(-12345.678);
};
enum Routine { kSingle, kMulti, kRays, kRoutines };
const char* routineName[] = {"linearTriangulateFromNViews", "linearTriangulateFromNViewsMultiCam", "linearTriangulateFromNViews of rays"};
// lengths: factors for the rays.
Answer run(const Scene& x, int routine, const std::vector<double>& lengths) {
  Answer a;
  if (routine == kSingle) a.r = aslam::linearTriangulateFromNViews(x.m, x.T_G_B, x.T_B_C[0], &a.p);
  else if (routine == kMulti) a.r = aslam::linearTriangulateFromNViewsMultiCam(x.m, x.cam, x.T_G_B, x.T_B_C, &a.p);
  else {
    Eigen::Matrix3Xd t(3, x.n()), c(3, x.n());
    for (size_t i = 0; i < x.n(); ++i) {
      t.col(i) = lengths[i] * (x.T_G_B[i].getRotationMatrix() * (x.T_B_C[x.cam[i]].getRotationMatrix() * V3(x.m[i](0), x.m[i](1), 1).normalized()));
      c.col(i) = x.centre(i);
    }
    a.r = aslam::linearTriangulateFromNViews(t, c, &a.p);
  }
  REQ_EQ(a.r.wasTriangulationSuccessful(), a.r.status() == Status::kSuccessful);
  REQ_EQ(static_cast<bool>(a.r), a.r.status() == Status::kSuccessful);
  return a;
}
std::vector<double> lengths(Source& s, size_t n) {
  std::vector<double> l(n, 1.0);
  if (s.boolean()) for (double& x : l) x = s.logReal(0.05, 20) * (s.chance(1, 6) ? -1 : 1);
  return l;
}
}  // namespace

PBT_PROP(exact, "at least two views with sufficient parallax from a moved and rotated camera frame", 300000, 8000000) {
  const bool single = s.boolean();
  const size_t n = s.chance(1, 2000) ? s.i(200, 400) : s.chance(1, 5) ? s.size(2, 20) : s.size(2, 5);
  const int kind = s.i(0, 2);
  Scene x = scene(s, n, single ? 1 : s.size(1, 4), kind);
  describe(s, x);
  const double par = parallax(x.rays);
  const std::vector<double> l = lengths(s, n);
  for (int k = single ? kSingle : kMulti; k < kRoutines; ++k) {
    const Answer a = run(x, k, l);
    if (par >= kEnough) {
      REQ(a.r.status() == Status::kSuccessful) << routineName[k] << " with parallax " << par << ": " << name(a.r.status());
      const double tol = 1e-12 * x.scale / par + 1e-12;
      REQ((a.p - x.p).norm() <= tol) << routineName[k] << ": " << a.p.transpose() << " off by " << (a.p - x.p).norm() << " > " << tol;
    } else if (par <= kNone) {
      REQ(a.r.status() == Status::kUnobservable) << routineName[k] << " with parallax " << par << ": " << name(a.r.status()) << " " << a.p.transpose();
    }
  }
  s.label(par >= kEnough ? "parallax" : par <= kNone ? "no parallax" : "between");
  if (par >= kEnough) s.nontrivial();
}

PBT_PROP(infinity, "the views are at different places", 20000, 1000000) {
  // Parallel rays that do not meet: a point at infinity.
  const bool single = s.boolean();
  const size_t n = s.size(2, 12);
  Scene x;
  x.p.setZero();
  const size_t cameras = single ? 1 : s.size(1, 4);
  for (size_t i = 0; i < cameras; ++i) x.T_B_C.push_back(rref::transformation(s, s.boolean() ? 1 : 100));
  const V3 w = direction(s);
  const double span = s.boolean() ? 10 : s.logReal(1e-2, 1e4);
  for (size_t i = 0; i < n; ++i) {
    const V3 c = inFront(s, 1.2);
    x.cam.push_back(s.draw(cameras));
    const Transformation T_G_C = poseFor(s, V3(s.sreal(span), s.sreal(span), s.sreal(span)), c, w, 0);
    x.T_G_B.push_back(T_G_C * x.T_B_C[x.cam[i]].inverse());
    x.m.push_back(c.head<2>() / c(2));
  }
  describe(s, x);
  const std::vector<double> l = lengths(s, n);
  for (int k = single ? kSingle : kMulti; k < kRoutines; ++k) {
    const Answer a = run(x, k, l);
    REQ(a.r.status() == Status::kUnobservable) << routineName[k] << ": " << name(a.r.status()) << " " << a.p.transpose();
  }
  s.nontrivial();
}

PBT_PROP(few, "one observation", 500, 20000) {
  const size_t n = s.draw(2);
  Scene x = scene(s, n, s.size(1, 3), kWide);
  describe(s, x);
  const std::vector<double> l = lengths(s, n);
  for (int k = 0; k < kRoutines; ++k) {
    const Answer a = run(x, k, l);
    REQ(a.r.status() == Status::kTooFewMeasurments) << routineName[k] << ": " << name(a.r.status());
    REQ(!a.r) << routineName[k];
  }
  Answer a;
  a.r = aslam::iterativeGaussNewtonTriangulateFromNViews(x.m, x.T_G_B, x.T_B_C[0], &a.p);
  REQ(a.r.status() == Status::kTooFewMeasurments) << "Gauss-Newton: " << name(a.r.status());
  const TriangulationResult none;
  REQ(none.status() == Status::kUninitialized && !none) << "default result";
  REQ(TriangulationResult::SUCCESSFUL == Status::kSuccessful && TriangulationResult::UNOBSERVABLE == Status::kUnobservable &&
      TriangulationResult::TOO_FEW_MEASUREMENTS == Status::kTooFewMeasurments && TriangulationResult::UNINITIALIZED == Status::kUninitialized);
  if (n == 1) s.nontrivial();
}

PBT_PROP(moved, "the measurements are noisy and all orders and scenes were answered", 150000, 4000000) {
  const bool single = s.boolean();
  const size_t n = s.size(2, 8);
  Scene x = scene(s, n, single ? 1 : s.size(1, 4), s.i(0, 1));
  const double noise = s.chance(1, 4) ? 0 : s.logReal(1e-5, 0.1);
  for (size_t i = 0; i < n; ++i) {
    x.m[i](0) += noise * s.gauss();
    x.m[i](1) += noise * s.gauss();
    x.rays[i] = x.T_G_B[i].getRotationMatrix() * (x.T_B_C[x.cam[i]].getRotationMatrix() * V3(x.m[i](0), x.m[i](1), 1).normalized());
  }
  describe(s, x);
  const double par = parallax(x.rays);
  if (par < kEnough) throw pbt::Discard();
  const Transformation shift = rref::transformation(s, s.boolean() ? 10 : 1e4);
  s << "shift\n" << shift.getTransformationMatrix() << "\n";
  Scene y = x;
  for (size_t i = 0; i < n; ++i) y.T_G_B[i] = shift * x.T_G_B[i];
  std::vector<size_t> order(n);
  for (size_t i = 0; i < n; ++i) order[i] = i;
  for (size_t i = n; i > 1; --i) std::swap(order[i - 1], order[s.draw(i)]);
  for (size_t i = 0; i < n; ++i) {
    y.T_G_B[i] = shift * x.T_G_B[order[i]];
    y.m[i] = x.m[order[i]];
    y.cam[i] = x.cam[order[i]];
  }
  y.measureScale();
  const std::vector<double> l = lengths(s, n), l2 = lengths(s, n);
  const double tol = 1e-12 * (x.scale + y.scale + shift.getPosition().norm()) / par + 1e-12;
  for (int k = single ? kSingle : kMulti; k < kRoutines; ++k) {
    const Answer a = run(x, k, l), b = run(y, k, l2);
    REQ(a.r && b.r) << routineName[k] << " with parallax " << par << ": " << name(a.r.status()) << name(b.r.status());
    REQ((shift * a.p - b.p).norm() <= tol) << routineName[k] << ": " << (shift * a.p).transpose() << " but " << b.p.transpose() << " off by "
                                           << (shift * a.p - b.p).norm() << " > " << tol;
  }
  if (noise > 0) s.nontrivial();
}

PBT_PROP(gauss_newton, "at least three views of a rotated and shifted world", 200000, 4000000) {
  // Convergence from a point at infinity is claimed for moderate baselines and rotations.
  const size_t n = s.size(2, 8);
  const V3 p = landmark(s);
  const Transformation T_B_C = rref::transformation(s, s.boolean() ? 1 : 100);
  const double r = depth(s);
  const V3 c0 = inFront(s, 0.5);
  const Transformation T_G_C0 = poseFor(s, p, c0, direction(s), r);
  TransformationVector T_G_B;
  V2s m;
  V3 far = V3::Zero();
  double most = 0;
  for (size_t i = 0; i < n; ++i) {
    Transformation T_G_C = T_G_C0;
    if (i > 0) {
      V3 shift = direction(s) * r * s.real(0.05, 0.2), axis = direction(s) * s.real(0, 0.25);
      if (i == 1) { shift -= shift.dot(c0) * c0; if (shift.norm() < 0.05 * r) shift = c0.cross(std::abs(c0(0)) < 0.5 ? V3(1, 0, 0) : V3(0, 1, 0)).normalized() * 0.1 * r; }
      const Eigen::Quaterniond q(Eigen::AngleAxisd(axis.norm(), axis.norm() > 0 ? V3(axis.normalized()) : V3(1, 0, 0)));
      T_G_C = T_G_C0 * Transformation(aslam::Quaternion(q.w(), q.x(), q.y(), q.z()), aslam::Position3D(shift));
      if (shift.norm() > most) { most = shift.norm(); far = shift; }
    }
    const V3 c = T_G_C.inverse() * p;
    T_G_B.push_back(T_G_C * T_B_C.inverse());
    m.push_back(c.head<2>() / c(2));
    s << std::setprecision(17) << "view " << i << " " << m[i].transpose() << " T_G_B\n" << T_G_B[i].getTransformationMatrix() << "\n";
  }
  s << "T_B_C\n" << T_B_C.getTransformationMatrix() << "\npoint " << p.transpose() << " depth " << r << "\n";
  V3 got = V3::Constant(-1234.5);
  const TriangulationResult res = aslam::iterativeGaussNewtonTriangulateFromNViews(m, T_G_B, T_B_C, &got);
  REQ(res.status() == Status::kSuccessful) << name(res.status());
  const double err = (got - p).norm() / r;
  REQ(err <= 0.02) << got.transpose() << " off by " << err << " of the depth";
  s.label(err < 1e-6 ? "<1e-6" : err < 1e-4 ? "<1e-4" : err < 1e-3 ? "<1e-3" : "<2e-2");
  if (n > 2) s.nontrivial();
}

PBT_PROP(track, "the track passes several cameras, or several rotated body poses of one, with sufficient parallax", 100000, 1500000) {
  FLAGS_acv_inv_distortion_tolerance = 1e-22;
  const size_t cameras = s.size(1, 4), n = s.chance(1, 1500) ? s.i(200, 400) : s.size(2, 8);
  std::vector<cref::Cam> spec;
  std::vector<aslam::Camera::Ptr> cams;
  for (size_t i = 0; i < cameras; ++i) {
    spec.push_back(cref::camera(s, 2));
    aslam::SensorId id;
    aslam::generateId(&id);
    cams.push_back(cref::build(spec[i]));
    cams[i]->setId(id);
    s << cref::show(spec[i]);
  }
  const V3 p = landmark(s);
  const int kind = s.i(0, 2);
  const bool together = cameras > 1 && s.boolean();  // the first views belong to one multi-frame
  const std::vector<V3> w = worldDirections(s, n, kind);
  std::vector<size_t> cam(n);
  TransformationVector T_W_B(n), T_C_B(cameras), T_W_C(n);
  V2s pixel(n);
  double scale = p.norm(), farthest = 0;
  const size_t joint = together ? std::min(cameras, n) : 0;
  const Transformation body = rref::transformation(s, s.boolean() ? 10 : 1e3);
  for (size_t c = 0; c < cameras; ++c) T_C_B[c] = rref::transformation(s, s.boolean() ? 1 : 100);
  for (size_t i = 0; i < n; ++i) {
    cam[i] = i < joint ? i : s.draw(cameras);
    const cref::Cam& k = spec[cam[i]];
    V2 q = dref::point(s, k.disc * s.real(0.1, 0.95));
    if (k.model != dref::kFish && cref::distortedPlane(k, q).norm() > k.disc) q *= 0.3;
    if (k.model != dref::kFish && cref::distortedPlane(k, q).norm() > k.disc) q.setZero();
    V3 ray = cref::lift(k, q);
    if (ray(2) < 0.01) ray = cref::lift(k, V2(0, 0));
    const double r = depth(s);
    farthest = std::max(farthest, r);
    T_W_C[i] = poseFor(s, p, ray.normalized(), w[i], r);
    if (i < joint) {
      T_W_B[i] = body;
      T_C_B[cam[i]] = T_W_C[i].inverse() * body;
    } else {
      T_W_B[i] = T_W_C[i] * T_C_B[cam[i]];
    }
    pixel[i] = cref::refProject(k, ray);
    scale = std::max(scale, std::max(T_W_B[i].getPosition().norm(), T_C_B[cam[i]].getPosition().norm()));
    scale = std::max(scale, T_W_C[i].getPosition().norm());
  }
  aslam::NCameraId rig_id;
  aslam::generateId(&rig_id);
  aslam::NCamera::Ptr rig(new aslam::NCamera(rig_id, T_C_B, cams, "rig"));
  aslam::FeatureTrack track(s.i(0, 100));
  std::shared_ptr<aslam::VisualNFrame> first;
  bool several = false, moved = false;
  Eigen::Matrix3Xd rays(3, n);
  V2s normalized;
  TransformationVector T_B_C;
  bool usable = true;
  for (size_t i = 0; i < n; ++i) {
    std::shared_ptr<aslam::VisualNFrame> nf;
    if (i < joint && first) {
      nf = first;
    } else {
      aslam::NFramesId id;
      aslam::generateId(&id);
      nf.reset(new aslam::VisualNFrame(id, rig));
      if (i < joint) first = nf;
    }
    aslam::VisualFrame::Ptr f(new aslam::VisualFrame);
    f->setTimestampNanoseconds(static_cast<int64_t>(i));
    f->setCameraGeometry(cams[cam[i]]);
    const int count = s.i(1, 3), at = s.i(0, count - 1);
    Eigen::Matrix2Xd kp(2, count);
    for (int k = 0; k < count; ++k) kp.col(k) = V2(s.real(0, 600), s.real(0, 400));
    kp.col(at) = pixel[i];
    f->setKeypointMeasurements(kp);
    nf->setFrame(cam[i], f);
    track.addKeypointObservationAtBack(nf, cam[i], at);
    several |= cam[i] != cam[0];
    moved |= i > 0 && (T_W_B[i].getRotationMatrix() - T_W_B[0].getRotationMatrix()).norm() > 0.1;
    V3 ray;
    cams[cam[i]]->backProject3(pixel[i], &ray);
    usable &= ray.allFinite() && std::abs(ray(2)) > 1e-6;
    rays.col(i) = T_W_C[i].getRotationMatrix() * ray;
    normalized.push_back(ray.head<2>() / ray(2));
    s << std::setprecision(17) << "observation " << i << " camera " << cam[i] << " pixel " << pixel[i].transpose() << " T_W_B\n" << T_W_B[i].getTransformationMatrix() << "\n";
  }
  for (size_t c = 0; c < cameras; ++c) {
    T_B_C.push_back(T_C_B[c].inverse());
    s << "T_C_B " << c << "\n" << T_C_B[c].getTransformationMatrix() << "\n";
  }
  s << "point " << p.transpose() << "\n";
  if (!usable) throw pbt::Discard();
  Answer direct, slow, fast;
  direct.r = aslam::linearTriangulateFromNViewsMultiCam(normalized, cam, T_W_B, T_B_C, &direct.p);
  slow.r = aslam::triangulateFeatureTrack(track, T_W_B, &slow.p);
  fast.r = aslam::fastTriangulateFeatureTrack(track, T_W_B, &fast.p);
  const double par = parallax(w);
  std::vector<V3> seen;  // directions as the cameras know them (the inversion of a distortion is iterative)
  double e = 0;
  for (size_t i = 0; i < n; ++i) {
    seen.push_back(rays.col(i));
    e = std::max(e, (seen[i].normalized() - w[i]).norm());
  }
  REQ(e < 1e-3) << "back-projected rays are off by " << e;
  if (par >= kEnough) {
    const double same = 1e-11 * scale / par + 1e-12, tol = same + 3 * e * farthest / par;
    for (const Answer* a : {&slow, &fast}) {
      const char* what = a == &slow ? "triangulateFeatureTrack" : "fastTriangulateFeatureTrack";
      REQ(a->r.status() == Status::kSuccessful) << what << " with parallax " << par << ": " << name(a->r.status());
      REQ((a->p - p).norm() <= tol) << what << ": " << a->p.transpose() << " off by " << (a->p - p).norm() << " > " << tol;
      REQ((a->p - direct.p).norm() <= same) << what << ": " << a->p.transpose() << " but directly " << direct.p.transpose();
    }
  } else if (par <= kNone && parallax(seen) <= kNone) {
    REQ(slow.r.status() == Status::kUnobservable) << "triangulateFeatureTrack with parallax " << par << ": " << name(slow.r.status());
    REQ(fast.r.status() == Status::kUnobservable) << "fastTriangulateFeatureTrack with parallax " << par << ": " << name(fast.r.status());
  }
  s.label(std::string(par >= kEnough ? "parallax" : par <= kNone ? "no parallax" : "between") + (several ? ", several cameras" : ""));
  if (par >= kEnough && (several || moved)) s.nontrivial();
}
