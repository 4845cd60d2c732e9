// C31: pose estimation and outlier rejection use the observed geometry and report what was estimated.
#include <glog/logging.h>

#include <cstdlib>
#include <iomanip>
#include <set>
#include <unordered_set>

#include "camera_ref.h"
#include "pbt.h"
#include "rig_ref.h"
#include "util.h"

#include <aslam/frames/visual-frame.h>
#include <aslam/geometric-vision/match-outlier-rejection-twopt.h>
#include <aslam/geometric-vision/pnp-pose-estimator.h>
#include <opengv/absolute_pose/AbsoluteAdapterBase.hpp>
#include <opengv/sac/Ransac.hpp>
#include <opengv/sac_problems/absolute_pose/AbsolutePoseSacProblem.hpp>
#include <opengv/sac_problems/relative_pose/RotationOnlySacProblem.hpp>
#include <opengv/sac_problems/relative_pose/TranslationOnlySacProblem.hpp>

const char* pbt::kProperty = "C31";
void pbt::workerInit() { FLAGS_minloglevel = 4; }

using pbt::Source;
typedef opengv::sac_problems::absolute_pose::AbsolutePoseSacProblem PoseProblem;
typedef opengv::sac_problems::relative_pose::RotationOnlySacProblem RotationProblem;
typedef opengv::sac_problems::relative_pose::TranslationOnlySacProblem TranslationProblem;

// A clock that stands still for a generated number of calls.
namespace {
time_t clock_now = 1000;
int clock_every = 0, clock_calls = 0;
}
extern "C" time_t time(time_t* out) {
  if (clock_every > 0 && ++clock_calls % clock_every == 0) ++clock_now;
  if (out) *out = clock_now;
  return clock_now;
}

namespace {
Eigen::Matrix3d rotationMatrix(Source& s) { return rref::rotation(s).normalized().toRotationMatrix(); }
Eigen::Vector3d vec(Source& s, double scale) { return Eigen::Vector3d(s.sreal(1), s.sreal(1), s.sreal(1)) * scale; }
opengv::transformation_t pose(Source& s) {
  opengv::transformation_t t;
  t.leftCols<3>() = rotationMatrix(s);
  t.col(3) = vec(s, s.boolean() ? 1 : 100);
  return t;
}
std::vector<int> subset(Source& s, int n) {
  std::vector<int> r;
  const int p = s.i(0, 4);
  for (int i = 0; i < n; ++i) if (s.chance(p, 4)) r.push_back(i);
  if (s.chance(1, 4)) std::reverse(r.begin(), r.end());
  return r;
}

// What the simulated robust estimator saw and delivers.
struct Estimate {
  int calls = 0, refinements = 0, threads = 0;
  bool success = false;
  opengv::transformation_t model, refined;
  std::vector<int> inliers;
  std::vector<double> distances;
  int iterations = 0;
  // seen
  double threshold = 0;
  int max_iterations = 0;
  bool random_seed = false;
  PoseProblem::algorithm_t algorithm = PoseProblem::TWOPT;
  std::vector<Eigen::Vector3d> bearing, offset, point;
  std::vector<Eigen::Matrix3d> rotation;
  void install() {
    opengv::sac::Ransac<PoseProblem>::outcome() = [this](opengv::sac::Ransac<PoseProblem>& r) {
      ++calls;
      threshold = r.threshold_;
      max_iterations = r.max_iterations_;
      random_seed = r.sac_model_->randomSeed();
      algorithm = r.sac_model_->algorithm();
      const auto& a = r.sac_model_->adapter();
      for (size_t i = 0; i < a.getNumberCorrespondences(); ++i) {
        bearing.push_back(a.getBearingVector(i));
        offset.push_back(a.getCamOffset(i));
        rotation.push_back(a.getCamRotation(i));
        point.push_back(a.getPoint(i));
      }
      r.model_coefficients_ = model;
      r.inliers_ = inliers;
      r.inlier_distances_to_model_ = distances;
      r.iterations_ = iterations;
      return success;
    };
    PoseProblem::refinement() = [this](const PoseProblem&, const std::vector<int>& in, const opengv::transformation_t& m, opengv::transformation_t& out) {
      ++refinements;
      REQ(in == inliers) << "refinement over other correspondences than the inliers";
      REQ(m == model) << "refinement of another pose than the estimated one";
      out = refined;
    };
  }
};
Estimate estimate(Source& s, int n) {
  Estimate e;
  e.success = !s.chance(1, 5);
  e.model = pose(s);
  e.refined = pose(s);
  e.inliers = subset(s, n);
  for (size_t i = 0; i < e.inliers.size(); ++i) e.distances.push_back(s.real(0, 1));
  e.iterations = s.chance(1, 10) ? s.i(1000, 2000000) : s.i(0, 1000);
  return e;
}
bool isPose(const aslam::Transformation& T, const opengv::transformation_t& m) {
  return (T.getPosition() - m.col(3)).norm() <= 1e-12 * (1 + m.col(3).norm()) && (T.getRotationMatrix() - m.leftCols<3>()).norm() <= 1e-12;
}
struct Poses {
  aslam::Transformation before, T;
  std::vector<int> inliers;
  std::vector<double> distances;
  int iterations = -7;
};
Poses poses(Source& s) {
  Poses p;
  p.before = p.T = rref::transformation(s, 10);
  for (int i = s.i(0, 3); i > 0; --i) p.inliers.push_back(i), p.distances.push_back(i);
  return p;
}
cref::Cam lensCamera(Source& s) {
  cref::Cam c = cref::camera(s, 2);
  c.cam = cref::build(c);
  return c;
}
Eigen::Vector2d measurement(Source& s, const cref::Cam& c) { return Eigen::Vector2d(s.real(0, 1) * c.w, s.real(0, 1) * c.h); }
double focal(const cref::Cam& c) {
  const int o = c.intr.size() == 5;
  return (c.intr(o) + c.intr(o + 1)) / 2;
}
// 1 - cos(atan(x)) without cancellation.
double angleThreshold(double x) {
  const double h = std::sin(std::atan(x) / 2);
  return 2 * h * h;
}
}  // namespace

PBT_PROP(central, "an estimate with inliers of at least 3 correspondences succeeded", 30000, 1500000) {
  const cref::Cam c = lensCamera(s);
  const int n = s.chance(1, 300) ? s.i(250, 400) : s.size(0, 12);
  Eigen::Matrix2Xd m(2, n);
  Eigen::Matrix3Xd g(3, n);
  for (int i = 0; i < n; ++i) {
    m.col(i) = measurement(s, c);
    g.col(i) = vec(s, 50);
  }
  const bool by_pixels = s.boolean(), seed = s.boolean(), refine = s.boolean();
  const double sigma = s.logReal(0.05, 20), thr = s.logReal(1e-8, 1);
  const int iters = s.chance(1, 10) ? s.i(2000, 2000000) : s.i(1, 2000);
  Estimate e = estimate(s, n);
  e.install();
  Poses p = poses(s);
  s << cref::show(c) << n << " correspondences, " << (by_pixels ? "sigma " : "threshold ") << (by_pixels ? sigma : thr) << ", random seed " << seed << ", success " << e.success << "\n";
  const aslam::geometric_vision::PnpPoseEstimator est = (seed && s.boolean()) ? aslam::geometric_vision::PnpPoseEstimator(refine)
                                                                             : aslam::geometric_vision::PnpPoseEstimator(refine, seed);
  const bool ok = by_pixels ? est.absolutePoseRansacPinholeCam(m, g, sigma, iters, c.cam, &p.T, &p.inliers, &p.iterations)
                            : est.absolutePoseRansac(m, g, thr, iters, c.cam, &p.T, &p.inliers, &p.iterations);
  REQ_EQ(e.calls, 1) << "runs of the estimator";
  REQ_EQ(ok, e.success) << "reported success";
  const double want = by_pixels ? angleThreshold(sigma / focal(c)) : thr;
  REQ(std::abs(e.threshold - want) <= 1e-15 + 1e-9 * want) << std::setprecision(17) << "threshold " << e.threshold << " and not " << want;
  REQ_EQ(e.max_iterations, iters) << "iterations allowed";
  REQ_EQ(e.random_seed, seed) << "random seed";
  REQ_EQ(e.bearing.size(), static_cast<size_t>(n)) << "correspondences";
  for (int i = 0; i < n; ++i) {
    REQ(e.point[i] == g.col(i)) << "landmark " << i;
    Eigen::Vector3d ray;
    if (!c.cam->backProject3(m.col(i), &ray) || !ray.allFinite()) continue;
    REQ((e.bearing[i] - ray.normalized()).norm() < 1e-9) << "ray " << i << " is " << e.bearing[i].transpose() << " and not " << ray.normalized().transpose();
    REQ(e.offset[i] == Eigen::Vector3d::Zero() && e.rotation[i] == Eigen::Matrix3d::Identity()) << "camera offset";
  }
  REQ(p.inliers == e.inliers) << "inliers";
  REQ_EQ(p.iterations, e.iterations) << "iterations";
  if (ok) REQ(isPose(p.T, e.refinements ? e.refined : e.model)) << "pose\n" << p.T.getTransformationMatrix() << "\nand not\n" << e.model;
  else REQ(isPose(p.T, p.before.getTransformationMatrix().topRows<3>())) << "pose changed without success";
  if (!refine) REQ_EQ(e.refinements, 0) << "refinement that was not requested";
  if (ok && n >= 3 && !e.inliers.empty()) s.nontrivial();
}

PBT_PROP(multi, "an estimate of a rig of at least two cameras with measurements in two of them succeeded", 30000, 1500000) {
  const int cameras = s.i(1, 4);
  std::vector<cref::Cam> cams;
  std::vector<aslam::Camera::Ptr> ptrs;
  aslam::TransformationVector T_C_B;
  double f = 0;
  for (int i = 0; i < cameras; ++i) {
    cams.push_back(lensCamera(s));
    ptrs.push_back(cams.back().cam);
    T_C_B.push_back(rref::transformation(s, 10));
    f += focal(cams.back()) / cameras;
    s << cref::show(cams.back()) << T_C_B.back().getTransformationMatrix() << "\n";
  }
  aslam::NCameraId id;
  aslam::generateId(&id);
  const aslam::NCamera::Ptr rig(new aslam::NCamera(id, T_C_B, ptrs, "rig"));
  const int n = s.chance(1, 300) ? s.i(250, 400) : s.size(0, 12);
  Eigen::Matrix2Xd m(2, n);
  Eigen::Matrix3Xd g(3, n);
  std::vector<int> which;
  std::set<int> distinct;
  for (int i = 0; i < n; ++i) {
    which.push_back(static_cast<int>(s.draw(cameras)));
    distinct.insert(which.back());
    m.col(i) = measurement(s, cams[which.back()]);
    g.col(i) = vec(s, 50);
  }
  const bool by_pixels = s.boolean(), seed = s.boolean(), refine = s.boolean(), with_distances = s.boolean();
  const double sigma = s.logReal(0.05, 20), thr = s.logReal(1e-8, 1);
  const int iters = s.chance(1, 10) ? s.i(2000, 2000000) : s.i(1, 2000);
  Estimate e = estimate(s, n);
  e.install();
  Poses p = poses(s);
  s << n << " correspondences, " << (by_pixels ? "sigma " : "threshold ") << (by_pixels ? sigma : thr) << ", random seed " << seed << ", refine " << refine << ", success " << e.success
    << ", distances " << with_distances << "\n";
  const aslam::geometric_vision::PnpPoseEstimator est(refine, seed);
  bool ok;
  if (by_pixels && with_distances) ok = est.absoluteMultiPoseRansacPinholeCam(m, which, g, sigma, iters, rig, &p.T, &p.inliers, &p.distances, &p.iterations);
  else if (by_pixels) ok = est.absoluteMultiPoseRansacPinholeCam(m, which, g, sigma, iters, rig, &p.T, &p.inliers, &p.iterations);
  else if (with_distances) ok = est.absoluteMultiPoseRansac(m, which, g, thr, iters, rig, &p.T, &p.inliers, &p.distances, &p.iterations);
  else ok = est.absoluteMultiPoseRansac(m, which, g, thr, iters, rig, &p.T, &p.inliers, &p.iterations);
  REQ_EQ(e.calls, 1) << "runs of the estimator";
  REQ_EQ(ok, e.success) << "reported success";
  const double want = by_pixels ? angleThreshold(sigma / f) : thr;
  REQ(std::abs(e.threshold - want) <= 1e-15 + 1e-9 * want) << std::setprecision(17) << "threshold " << e.threshold << " and not " << want;
  REQ_EQ(e.max_iterations, iters) << "iterations allowed";
  REQ_EQ(e.random_seed, seed) << "random seed";
  REQ(e.algorithm == PoseProblem::GP3P) << "a solver for several cameras";
  REQ_EQ(e.bearing.size(), static_cast<size_t>(n)) << "correspondences";
  for (int i = 0; i < n; ++i) {
    const cref::Cam& c = cams[which[i]];
    REQ(e.point[i] == g.col(i)) << "landmark " << i;
    // The camera in the body frame.
    const Eigen::Matrix4d T_B_C = T_C_B[which[i]].getTransformationMatrix().inverse();
    const Eigen::Vector3d at = T_B_C.topRightCorner<3, 1>();
    const Eigen::Matrix3d R = T_B_C.topLeftCorner<3, 3>();
    REQ((e.offset[i] - at).norm() <= 1e-9 * (1 + at.norm())) << "camera position " << e.offset[i].transpose() << " and not " << at.transpose();
    REQ((e.rotation[i] - R).norm() <= 1e-9) << "camera orientation";
    Eigen::Vector3d ray;
    if (!c.cam->backProject3(m.col(i), &ray) || !ray.allFinite()) continue;
    REQ((e.bearing[i] - ray.normalized()).norm() < 1e-9) << "ray " << i << " is " << e.bearing[i].transpose() << " and not " << ray.normalized().transpose();
  }
  REQ(p.inliers == e.inliers) << "inliers";
  if (with_distances) REQ(p.distances == e.distances) << "distances";
  REQ_EQ(p.iterations, e.iterations) << "iterations";
  REQ_EQ(e.refinements, static_cast<int>(ok && refine)) << "refinements";
  if (ok) REQ(isPose(p.T, refine ? e.refined : e.model)) << "pose\n" << p.T.getTransformationMatrix() << "\nand not\n" << (refine ? e.refined : e.model);
  else REQ(isPose(p.T, p.before.getTransformationMatrix().topRows<3>())) << "pose changed without success";
  if (ok && distinct.size() >= 2) s.nontrivial();
}

PBT_PROP(twopt, "the two models support different matches and some are outliers", 30000, 1500000) {
  aslam::geometric_vision::BearingVectors b1, b0;
  const int n = s.chance(1, 300) ? s.i(250, 400) : s.size(0, 16);
  const Eigen::Quaterniond q = rref::rotation(s).normalized();
  for (int i = 0; i < n; ++i) {
    Eigen::Vector3d a = vec(s, 1), b = vec(s, 1);
    if (a.norm() < 1e-3) a = Eigen::Vector3d::UnitZ();
    if (b.norm() < 1e-3) b = Eigen::Vector3d::UnitZ();
    b1.push_back(a.normalized());
    b0.push_back(b.normalized());
  }
  const bool fixed = s.boolean();
  const double thr = s.logReal(1e-8, 1);
  const size_t iters = static_cast<size_t>(s.chance(1, 10) ? s.i(2000, 2000000) : s.i(1, 2000));
  const std::vector<int> in_r = subset(s, n), in_t = subset(s, n);
  const bool ok_r = s.chance(3, 4), ok_t = s.chance(3, 4);
  int calls_r = 0, calls_t = 0;
  const auto check = [&](const opengv::relative_pose::RelativeAdapterBase& a, bool random_seed, double threshold, int most) {
    REQ_EQ(a.getNumberCorrespondences(), static_cast<size_t>(n)) << "correspondences";
    for (int i = 0; i < n; ++i) {
      REQ((a.getBearingVector1(i) - b1[i]).norm() < 1e-9) << "ray " << i << " in the new frame";
      REQ((a.getBearingVector2(i) - b0[i]).norm() < 1e-9) << "ray " << i << " in the old frame";
    }
    REQ((a.getR12() - q.toRotationMatrix()).norm() < 1e-12) << "rotation";
    REQ_EQ(random_seed, !fixed) << "random seed";
    REQ_EQ(threshold, thr) << "threshold";
    REQ_EQ(most, static_cast<int>(iters)) << "iterations";
  };
  opengv::sac::Ransac<RotationProblem>::outcome() = [&](opengv::sac::Ransac<RotationProblem>& r) {
    ++calls_r;
    check(r.sac_model_->adapter(), r.sac_model_->randomSeed(), r.threshold_, r.max_iterations_);
    r.inliers_ = in_r;
    return ok_r;
  };
  opengv::sac::Ransac<TranslationProblem>::outcome() = [&](opengv::sac::Ransac<TranslationProblem>& r) {
    ++calls_t;
    check(r.sac_model_->adapter(), r.sac_model_->randomSeed(), r.threshold_, r.max_iterations_);
    r.inliers_ = in_t;
    return ok_t;
  };
  std::set<int> both(in_r.begin(), in_r.end());
  both.insert(in_t.begin(), in_t.end());
  const bool want = n >= 6 && both.size() >= 6;
  s << n << " matches, rotation supported by";
  for (int i : in_r) s << " " << i;
  s << ", translation by";
  for (int i : in_t) s << " " << i;
  s << "\n";
  if (s.boolean()) {
    std::unordered_set<int> in;
    if (s.boolean()) in = {0, 1, 77};
    const bool ok = aslam::geometric_vision::rejectOutlierFeatureMatchesTranslationRotationSAC(b1, b0, aslam::Quaternion(q), fixed, thr, iters, &in);
    REQ_EQ(ok, want) << "success";
    const std::set<int> got(in.begin(), in.end());
    REQ(got == (want ? both : std::set<int>())) << got.size() << " inliers and not " << (want ? both.size() : 0);
  } else {
    // Frames with keypoints that have these rays.
    const auto frame = [&](const aslam::geometric_vision::BearingVectors b, std::vector<int>* where, aslam::geometric_vision::BearingVectors* seen) {
      const double f = 300;
      Eigen::Vector4d intr(f, f, 320, 240);
      aslam::Distortion::UniquePtr d(new aslam::NullDistortion);
      aslam::Camera::Ptr cam(new aslam::PinholeCamera(intr, 640, 480, d));
      const int extra = s.i(0, 3);
      Eigen::Matrix2Xd kp(2, b.size() + extra);
      std::vector<int> order;
      for (int i = 0; i < kp.cols(); ++i) {
        order.insert(order.begin() + s.draw(i + 1), i);
        kp.col(i) << s.real(0, 640), s.real(0, 480);
      }
      seen->clear();
      for (size_t i = 0; i < b.size(); ++i) {
        where->push_back(order[i]);
        seen->push_back(Eigen::Vector3d((kp(0, order[i]) - 320) / f, (kp(1, order[i]) - 240) / f, 1).normalized());
      }
      aslam::VisualFrame::Ptr fr(new aslam::VisualFrame);
      fr->setCameraGeometry(cam);
      fr->extendKeypointMeasurements(kp);
      const aslam::VisualFrame::DescriptorsT none = aslam::VisualFrame::DescriptorsT::Zero(8, kp.cols());
      fr->extendDescriptors(none, 3);
      return fr;
    };
    std::vector<int> at1, at0;
    const aslam::VisualFrame::Ptr f1 = frame(b1, &at1, &b1), f0 = frame(b0, &at0, &b0);
    aslam::FrameToFrameMatches m, in, out;
    for (int i = 0; i < n; ++i) m.emplace_back(at1[i], at0[i]);
    const bool ok = aslam::geometric_vision::rejectOutlierFeatureMatchesTranslationRotationSAC(*f1, *f0, aslam::Quaternion(q), 3, m, fixed, thr, iters, &in, &out);
    REQ_EQ(ok, want) << "success";
    aslam::FrameToFrameMatches win, wout;
    for (int i = 0; i < n; ++i) (want && both.count(i) ? win : wout).push_back(m[i]);
    REQ(in == win) << in.size() << " inlier matches and not " << win.size();
    REQ(out == wout) << out.size() << " outlier matches and not " << wout.size();
  }
  if (n >= 6) REQ(calls_r == 1 && calls_t == 1) << "runs of the two estimators";
  if (want && in_r != in_t && static_cast<int>(both.size()) < n) s.nontrivial();
}

PBT_PROP(points, "a pose was found among outliers", 30000, 300000) {
  const int cameras = s.i(1, 3);
  std::vector<aslam::Camera::Ptr> ptrs;
  aslam::TransformationVector T_C_B;
  for (int i = 0; i < cameras; ++i) {
    cref::Cam c = cref::camera(s, 3);
    ptrs.push_back(cref::build(c));
    T_C_B.push_back(rref::transformation(s, 2));
  }
  aslam::NCameraId id;
  aslam::generateId(&id);
  const aslam::NCamera::Ptr rig(new aslam::NCamera(id, T_C_B, ptrs, "rig"));
  const Eigen::Matrix3d R_G_B = rotationMatrix(s);
  const Eigen::Vector3d p_G_B = vec(s, s.boolean() ? 1 : 20);
  const int n = s.size(0, 24), outliers = n < 7 ? 0 : s.i(0, n / 5);
  const double noise = s.chance(1, 3) ? s.logReal(1e-7, 1e-4) : 0, thr = s.real(0.01, 0.05);
  Eigen::Matrix3Xd m(3, n), g(3, n), body(3, n);
  std::vector<int> which;
  std::set<int> bad;
  while (static_cast<int>(bad.size()) < outliers) {
    const int i = static_cast<int>(s.draw(n));
    int j = i;
    while (bad.count(j)) j = (j + 1) % n;
    bad.insert(j);
  }
  for (int i = 0; i < n; ++i) {
    which.push_back(static_cast<int>(s.draw(cameras)));
    const Eigen::Vector3d b = vec(s, 10);
    if (b.norm() < 1) throw pbt::Discard();  // the threshold is relative to the distance
    g.col(i) = R_G_B * b + p_G_B;
    Eigen::Vector3d seen = b;
    if (bad.count(i)) {
      seen = vec(s, 10);
      if ((seen - b).norm() < 3 || seen.norm() < 1) throw pbt::Discard();
    } else {
      seen += vec(s, noise);
    }
    body.col(i) = seen;
    m.col(i) = T_C_B[which[i]].transform(seen);
  }
  // Any six points have to determine the pose.
  for (int i = 0; i < n; ++i) {
    for (int j = 0; j < i; ++j) {
      const Eigen::Vector3d d = body.col(i) - body.col(j);
      if (d.norm() < 1e-3) continue;
      int near = 0;
      for (int k = 0; k < n; ++k) near += (body.col(k) - body.col(j)).cross(d.normalized()).norm() < 0.3;
      if (near >= 6) throw pbt::Discard();
    }
    int near = 0;
    for (int k = 0; k < n; ++k) near += (body.col(k) - body.col(i)).norm() < 0.3;
    if (near >= 6) throw pbt::Discard();
  }
  const bool seed = s.boolean();
  const int iters = outliers ? s.i(300, 600) : s.i(1, 60);
  const double stop = s.chance(1, 4) ? s.real(0, 0.75) : s.chance(1, 3) ? 0.9999 : 1.0;
  clock_now = static_cast<time_t>(s.range(0, 2000000000));
  clock_every = s.boolean() ? 0 : s.i(1, 50);
  const unsigned start = static_cast<unsigned>(s.draw(1u << 31));
  s << n << " points of " << cameras << " cameras, " << outliers << " outliers, noise " << noise << ", threshold " << thr << ", " << iters << " iterations, stop at " << stop
    << ", random seed " << seed << "\nbody at\n" << R_G_B << "\n" << p_G_B.transpose() << "\nmeasured in the body\n" << body << "\n";
  const aslam::geometric_vision::PnpPoseEstimator est(s.boolean(), seed);
  Poses p = poses(s);
  std::srand(start);
  const bool ok = est.absoluteMultiPoseRansac3DFeatures(m, which, g, thr, iters, stop, rig, &p.T, &p.inliers, &p.distances, &p.iterations);
  if (!seed) {
    Poses again;
    ++clock_now;
    std::srand(start);
    const bool ok2 = est.absoluteMultiPoseRansac3DFeatures(m, which, g, thr, iters, stop, rig, &again.T, &again.inliers, &again.distances, &again.iterations);
    REQ_EQ(ok2, ok) << "success with the same seed";
    if (ok) REQ(again.inliers == p.inliers && again.T.getTransformationMatrix() == p.T.getTransformationMatrix()) << "another result with the same seed";
  }
  if (n < 6) {
    REQ(!ok) << "a pose from " << n << " points";
    REQ(isPose(p.T, p.before.getTransformationMatrix().topRows<3>())) << "pose changed without success";
    REQ(p.inliers.empty() && p.distances.empty()) << "inliers without success";
    return;
  }
  REQ(ok) << "no pose";
  REQ(p.iterations >= 1 && p.iterations <= iters) << "iterations " << p.iterations;
  const Eigen::Matrix3d R = p.T.getRotationMatrix();
  const Eigen::Vector3d t = p.T.getPosition();
  REQ_EQ(p.distances.size(), p.inliers.size()) << "distances";
  std::set<int> in(p.inliers.begin(), p.inliers.end());
  REQ_EQ(in.size(), p.inliers.size()) << "inliers";
  size_t k = 0;
  for (int i : p.inliers) {
    REQ(i >= 0 && i < n) << "inlier " << i;
    const double d = (R.transpose() * (g.col(i) - t) - body.col(i)).norm();
    REQ(std::abs(d - p.distances[k]) <= 1e-9 * (1 + t.norm() + g.col(i).norm())) << "inlier " << i << " is " << d << " away and not " << p.distances[k];
    ++k;
  }
  for (int i = 0; i < n; ++i) {
    const double d = (R.transpose() * (g.col(i) - t) - body.col(i)).norm() / body.col(i).norm();
    if (std::abs(d - thr) < 1e-6) continue;
    REQ_EQ(in.count(i) > 0, d < thr) << "point " << i << " at relative distance " << d;
  }
  // Stopping early is allowed above the ratio only.
  if (outliers && in.size() > stop * n * (1 - 1e-12) && stop < 0.999) {
    s.label("may stop early");
    return;
  }
  for (int i = 0; i < n; ++i) REQ_EQ(in.count(i) > 0, bad.count(i) == 0) << "point " << i << " (" << bad.size() << " outliers)";
  REQ((R - R_G_B).norm() <= 1e-9 + 2000 * noise) << "rotation\n" << R << "\nand not\n" << R_G_B;
  REQ((t - p_G_B).norm() <= (1e-9 + 2000 * noise) * (1 + p_G_B.norm() + 20)) << "position " << t.transpose() << " and not " << p_G_B.transpose();
  if (outliers) s.nontrivial();
}

// Two poses explain many correspondences each: the one with more support wins, no matter which one is met last.
PBT_PROP(rivals, "the minority supports its pose with all but a few as many correspondences", 1500, 60000) {
  const int cameras = s.i(1, 2);
  std::vector<aslam::Camera::Ptr> ptrs;
  aslam::TransformationVector T_C_B;
  for (int i = 0; i < cameras; ++i) {
    ptrs.push_back(cref::build(cref::camera(s, 3)));
    T_C_B.push_back(rref::transformation(s, 2));
  }
  aslam::NCameraId id;
  aslam::generateId(&id);
  const aslam::NCamera::Ptr rig(new aslam::NCamera(id, T_C_B, ptrs, "rig"));
  const Eigen::Matrix3d R[] = {rotationMatrix(s), rotationMatrix(s)};
  const Eigen::Vector3d t[] = {vec(s, 5), vec(s, 5)};
  const int most = s.i(11, 13), fewer = s.i(8, most - 1), n = most + fewer;
  const double thr = s.real(0.01, 0.02);
  std::vector<int> owner(n, 0), which;
  for (int k = 0; k < fewer;) {
    const int i = static_cast<int>(s.draw(n));
    int j = i;
    while (owner[j]) j = (j + 1) % n;
    owner[j] = 1;
    ++k;
  }
  Eigen::Matrix3Xd m(3, n), g(3, n);
  for (int i = 0; i < n; ++i) {
    Eigen::Vector3d b, other;
    for (int tries = 0;; ++tries) {
      if (tries > 30) throw pbt::Discard();
      b = Eigen::Vector3d(s.gauss(), s.gauss(), s.gauss()).normalized() * s.real(3, 10);
      const int o = owner[i];
      g.col(i) = R[o] * b + t[o];
      other = R[1 - o].transpose() * (g.col(i) - t[1 - o]);
      if ((other - b).norm() > 4) break;
    }
    which.push_back(static_cast<int>(s.draw(cameras)));
    m.col(i) = T_C_B[which[i]].transform(b);
  }
  s << most << " of " << n << " correspondences support the first pose, threshold " << thr << ", owners";
  for (int o : owner) s << " " << o;
  s << "\n";
  const aslam::geometric_vision::PnpPoseEstimator est(s.boolean(), s.boolean());
  clock_now = static_cast<time_t>(s.range(0, 2000000000));
  clock_every = 0;
  Poses p = poses(s);
  std::srand(static_cast<unsigned>(s.draw(1u << 31)));
  REQ(est.absoluteMultiPoseRansac3DFeatures(m, which, g, thr, 4000, 1.0, rig, &p.T, &p.inliers, &p.distances, &p.iterations)) << "no pose";
  const std::set<int> in(p.inliers.begin(), p.inliers.end());
  for (int i = 0; i < n; ++i) REQ_EQ(in.count(i) > 0, owner[i] == 0) << "correspondence " << i << " of pose " << owner[i] << ", " << in.size() << " inliers";
  if (fewer + 2 >= most) s.nontrivial();
}
