// C32: a processed image becomes a frame that carries the image, its cameras and exactly the detected features.
#include <glog/logging.h>

#include <set>

#include <opencv2/imgproc/imgproc.hpp>

#include "camera_ref.h"
#include "pbt.h"
#include "util.h"

#include <aslam/frames/visual-frame.h>
#include <aslam/pipeline/undistorter.h>
#include <aslam/pipeline/visual-pipeline-brisk.h>
#include <aslam/pipeline/visual-pipeline-freak.h>
#include <aslam/pipeline/visual-pipeline-null.h>
#include <aslam/pipeline/visual-pipeline.h>
#include <aslam/visualization/basic-visualization.h>
#include <standin_features.h>

const char* pbt::kProperty = "C32";
void pbt::workerInit() { FLAGS_minloglevel = 4; }

using aslam::VisualFrame;
using pbt::Source;

namespace {
bool same(const cv::Mat& a, const cv::Mat& b) {
  if (a.size() != b.size() || a.type() != b.type()) return false;
  for (int y = 0; y < a.rows; ++y)
    if (std::memcmp(a.ptr(y), b.ptr(y), a.cols * a.elemSize())) return false;
  return true;
}
aslam::Camera::Ptr smallCamera(Source& s, bool lens = false) {
  cref::Cam c = cref::camera(s, lens ? 2 : 3);
  c.w = static_cast<uint32_t>(s.i(1, 40));
  c.h = static_cast<uint32_t>(s.i(1, 30));
  if (c.kind == cref::kLidar) c.intr << 2 * M_PI / c.w, 0.02, 0.02 * c.h / 2, 0;
  return cref::build(c);
}
// An image that may be a view into a larger one.
cv::Mat image(Source& s, int w, int h, int type) {
  const int border = s.boolean() ? 0 : s.i(1, 5);
  cv::Mat m(h + 2 * border, w + 2 * border, type);
  uint64_t x = s.bits();
  for (int y = 0; y < m.rows; ++y)
    for (size_t i = 0; i < m.cols * m.elemSize(); ++i) m.ptr(y)[i] = static_cast<unsigned char>((x = x * 6364136223846793005ull + 1442695040888963407ull) >> 56);
  return m(cv::Rect(border, border, w, h));
}

// Preprocessing with a generated outcome.
class Preprocess : public aslam::Undistorter {
 public:
  Preprocess(const aslam::Camera::Ptr& in, const aslam::Camera::Ptr& out, cv::Mat* seen, const cv::Mat& result) : Undistorter(in, out), seen_(seen), result_(result) {}
  void processImage(const cv::Mat& input, cv::Mat* output) const override {
    *seen_ = input;
    result_.copyTo(*output);
  }

 private:
  cv::Mat* seen_;
  const cv::Mat result_;
};

struct Seen {
  int calls = 0;
  cv::Mat image, frame_image;
  int64_t t = 0;
  const aslam::Camera *camera = nullptr, *raw = nullptr;
};
class Recorder : public aslam::VisualPipeline {
 public:
  Recorder(const aslam::Camera::ConstPtr& a, const aslam::Camera::ConstPtr& b, bool copy, Seen* seen) : VisualPipeline(a, b, copy), seen_(seen) {}
  Recorder(std::unique_ptr<aslam::Undistorter>& p, bool copy, Seen* seen) : VisualPipeline(p, copy), seen_(seen) {}

 protected:
  void processFrameImpl(const cv::Mat& im, VisualFrame* frame) const override {
    ++seen_->calls;
    seen_->image = im.clone();
    seen_->frame_image = frame->getRawImage();
    seen_->t = frame->getTimestampNanoseconds();
    seen_->camera = frame->getCameraGeometry().get();
    seen_->raw = frame->getRawCameraGeometry().get();
  }

 private:
  Seen* seen_;
};

struct Setup {
  aslam::Camera::Ptr in, out;
  bool preprocess = false, copy = false;
  cv::Mat pre_seen, pre_result;
  std::unique_ptr<aslam::Undistorter> undistorter;
};
Setup setup(Source& s, bool same_camera) {
  Setup p;
  p.in = smallCamera(s);
  p.copy = s.boolean();
  p.preprocess = s.boolean();
  p.out = same_camera && !p.preprocess ? p.in : s.chance(1, 4) ? p.in : smallCamera(s);
  s << (p.preprocess ? "preprocessed, " : "") << (p.copy ? "copied, " : "shared, ") << p.in->imageWidth() << "x" << p.in->imageHeight() << " to " << p.out->imageWidth() << "x"
    << p.out->imageHeight() << "\n";
  return p;
}
void arm(Source& s, Setup* p, int type) {
  if (!p->preprocess) return;
  p->pre_result = image(s, static_cast<int>(p->out->imageWidth()), static_cast<int>(p->out->imageHeight()), type).clone();
  p->undistorter.reset(new Preprocess(p->in, p->out, &p->pre_seen, p->pre_result));
}
// The metadata of a frame that was made of this image.
void checkFrame(const Setup& p, const VisualFrame& f, const cv::Mat& im, int64_t t, std::set<std::string>* ids) {
  REQ_EQ(f.getTimestampNanoseconds(), t) << "timestamp";
  REQ(f.getCameraGeometry() == p.out) << "camera of the keypoints";
  REQ(f.getRawCameraGeometry() == p.in) << "camera of the raw image";
  REQ(f.isValid()) << "validity";
  REQ(f.getId().isValid() && ids->insert(f.getId().hexString()).second) << "id " << f.getId().hexString();
  REQ(f.hasRawImage()) << "raw image";
  REQ(same(f.getRawImage(), im)) << "contents of the raw image";
  REQ_EQ(f.getRawImage().data == im.data, !p.copy) << "sharing of the raw image";
  if (p.preprocess) REQ(same(p.pre_seen, im)) << "image that was preprocessed";
}
}  // namespace

PBT_PROP(frames, "several images were processed by a pipeline with preprocessing or two cameras", 20000, 1000000) {
  Setup p = setup(s, false);
  const int types[] = {CV_8UC1, CV_8UC1, CV_8UC3, CV_16UC1};
  const int type = types[s.draw(4)];
  arm(s, &p, type);
  Seen seen;
  std::unique_ptr<aslam::VisualPipeline> pipe;
  const bool null = !p.preprocess && s.chance(1, 4);
  if (null) {
    p.out = p.in;
    pipe.reset(new aslam::NullVisualPipeline(p.in, p.copy));
  } else if (p.preprocess) {
    pipe.reset(new Recorder(p.undistorter, p.copy, &seen));
  } else {
    pipe.reset(new Recorder(p.in, p.out, p.copy, &seen));
  }
  REQ(&pipe->getInputCamera() == p.in.get() && pipe->getInputCameraShared() == p.in) << "input camera";
  REQ(&pipe->getOutputCamera() == p.out.get() && pipe->getOutputCameraShared() == p.out) << "output camera";
  const int count = s.size(1, 4), w = static_cast<int>(p.in->imageWidth()), h = static_cast<int>(p.in->imageHeight());
  std::set<std::string> ids;
  std::vector<std::pair<VisualFrame::Ptr, cv::Mat>> made;
  for (int i = 0; i < count; ++i) {
    cv::Mat im = image(s, w, h, type);
    const cv::Mat before = im.clone();
    const int64_t t = s.chance(1, 4) ? s.anyInt64() : s.range(0, 1000000000000);
    const int calls = seen.calls;
    const VisualFrame::Ptr f = pipe->processImage(im, t);
    REQ(same(im, before)) << "the input image changed";
    checkFrame(p, *f, im, t, &ids);
    if (!null) {
      REQ_EQ(seen.calls, calls + 1) << "calls of the implementation";
      REQ(same(seen.image, p.preprocess ? p.pre_result : before)) << "image handed on for processing";
      REQ(seen.t == t && seen.camera == p.out.get() && seen.raw == p.in.get()) << "frame handed on for processing is incomplete";
      REQ(same(seen.frame_image, before)) << "raw image of the frame handed on";
    } else {
      REQ(!f->hasKeypointMeasurements() && !f->hasDescriptors()) << "features without detection";
    }
    if (p.copy) {
      im.setTo(cv::Scalar::all(77));
      REQ(same(f->getRawImage(), before)) << "the copy follows its source";
      made.emplace_back(f, before);
    }
  }
  for (const auto& m : made) REQ(same(m.first->getRawImage(), m.second)) << "an earlier frame changed";
  if (count > 1 && (p.preprocess || p.in != p.out)) s.nontrivial();
  if (s.chance(1, 60)) {
    int ww = w, hh = h;
    (s.boolean() ? ww : hh) += s.boolean() ? 1 : -1;
    const cv::Mat wrong = cv::Mat::zeros(std::max(hh, 0), std::max(ww, 0), type);
    const pbt::Fate fate = pbt::fateOf([&] { pipe->processImage(wrong, 1); });
    REQ(fate == pbt::Fate::kAborted || fate == pbt::Fate::kThrew) << "an image of size " << wrong.cols << "x" << wrong.rows << " instead of " << w << "x" << h << " is accepted";
    s.label("wrong size");
  }
}

PBT_PROP(features, "at least two images, some keypoints were dropped or moved by the descriptor stage", 60000, 1000000) {
  Setup p = setup(s, true);
  arm(s, &p, CV_8UC1);
  const bool freak = s.boolean();
  const int octaves = s.i(0, 8), layers = s.i(1, 5), hessian = s.i(1, 1000);
  const double radius = s.real(0, 30), threshold = s.real(0, 300);
  const size_t most = static_cast<size_t>(s.i(0, 2000));
  const bool rot = s.boolean(), scale = s.boolean(), again = s.chance(1, 4);
  const float pattern = static_cast<float>(s.real(1, 40));
  standin::Features& ft = standin::features();
  REQ_EQ(ft.alive, 0) << "detectors of an earlier pipeline";
  std::unique_ptr<aslam::VisualPipeline> pipe;
  const int o0 = again ? octaves + 1 : octaves;
  const bool r0 = again ? !rot : rot;
  if (freak) {
    aslam::FreakVisualPipeline* f = p.preprocess ? new aslam::FreakVisualPipeline(p.undistorter, p.copy, o0, hessian, layers, r0, scale, pattern)
                                                 : new aslam::FreakVisualPipeline(p.in, p.copy, o0, hessian, layers, r0, scale, pattern);
    pipe.reset(f);
    if (again) f->initializeFreak(octaves, hessian, layers, rot, scale, pattern);
    REQ(ft.detector.size() == 5 && ft.detector[0] == hessian && ft.detector[1] == octaves && ft.detector[2] == layers) << "parameters of the detector";
    REQ(ft.extractor == (std::vector<double>{static_cast<double>(rot), static_cast<double>(scale), pattern, static_cast<double>(octaves)})) << "parameters of the descriptor";
  } else {
    aslam::BriskVisualPipeline* b = p.preprocess ? new aslam::BriskVisualPipeline(p.undistorter, p.copy, o0, radius, threshold, most, r0, scale)
                                                 : new aslam::BriskVisualPipeline(p.in, p.copy, o0, radius, threshold, most, r0, scale);
    pipe.reset(b);
    if (again) b->initializeBrisk(octaves, radius, threshold, most, rot, scale);
    REQ(ft.detector == (std::vector<double>{static_cast<double>(octaves), radius, threshold, static_cast<double>(most)})) << "parameters of the detector";
    REQ(ft.extractor == (std::vector<double>{static_cast<double>(rot), static_cast<double>(scale)})) << "parameters of the descriptor";
  }
  REQ_EQ(ft.alive, 2) << "detector and descriptor stage";
  s << (freak ? "FREAK" : "BRISK") << "\n";
  const int count = s.size(1, 3), bytes = s.boolean() ? s.i(1, 64) : 64;
  std::set<std::string> ids;
  int interesting = 0;
  std::vector<cv::KeyPoint> out;
  cv::Mat desc;
  for (int k = 0; k < count; ++k) {
    const cv::Mat im = image(s, static_cast<int>(p.in->imageWidth()), static_cast<int>(p.in->imageHeight()), CV_8UC1), before = im.clone();
    const int64_t t = s.range(0, 1000000000000);
    const cv::Mat work = p.preprocess ? p.pre_result : before;
    std::vector<cv::KeyPoint> kp;
    for (int i = s.chance(1, 500) ? s.i(250, 400) : s.size(0, 10); i > 0; --i) {
      cv::KeyPoint q;
      q.pt = cv::Point2f(static_cast<float>(s.real(-1, 50)), static_cast<float>(s.real(-1, 50)));
      q.size = static_cast<float>(s.real(0.5, 60));
      q.angle = s.chance(1, 4) ? -1 : static_cast<float>(s.real(0, 360));
      q.response = static_cast<float>(s.sreal(500));
      q.octave = s.i(0, 5);
      q.class_id = s.i(-1, 5);
      kp.push_back(q);
    }
    int detects = 0, computes = 0;
    ft.detect = [&](const cv::Mat& seen, std::vector<cv::KeyPoint>* r) {
      ++detects;
      REQ(same(seen, work)) << "features are searched in another image";
      *r = kp;
    };
    out = kp;
    desc.release();
    const int drop = s.i(0, 3), order = s.i(0, 3);
    ft.compute = [&](const cv::Mat& seen, std::vector<cv::KeyPoint>* r, cv::Mat* d) {
      ++computes;
      REQ(same(seen, work)) << "features of another image are described";
      std::vector<cv::KeyPoint> kept;
      for (size_t i = 0; i < r->size(); ++i) if (!drop || s.draw(4) >= static_cast<uint64_t>(drop)) kept.push_back((*r)[i]);
      if (order == 0) std::reverse(kept.begin(), kept.end());
      if (order == 1) for (cv::KeyPoint& q : kept) q.angle = static_cast<float>(s.real(0, 360));
      if (kept.size() != r->size() || order == 1 || (order == 0 && kept.size() > 1)) ++interesting;
      *r = kept;
      out = kept;
      if (kept.empty()) {
        *d = cv::Mat(0, bytes, CV_8UC1);
        return;
      }
      desc = image(s, bytes, static_cast<int>(kept.size()), CV_8UC1).clone();
      *d = desc;
    };
    const VisualFrame::Ptr f = pipe->processImage(im, t);
    REQ(same(im, before)) << "the input image changed";
    checkFrame(p, *f, im, t, &ids);
    REQ_EQ(detects, 1) << "detections";
    const size_t n = out.size();
    s << "image " << k << ": " << kp.size() << " detected, " << n << " described\n";
    REQ(f->hasKeypointMeasurements() && f->hasKeypointMeasurementUncertainties() && f->hasKeypointOrientations() && f->hasKeypointScores() && f->hasKeypointScales() && f->hasDescriptors())
        << "a channel is missing";
    REQ_EQ(f->getNumKeypointMeasurements(), n) << "keypoints";
    REQ_EQ(static_cast<size_t>(f->getDescriptors().cols()), n) << "descriptors";
    REQ(static_cast<size_t>(f->getKeypointMeasurementUncertainties().size()) == n && static_cast<size_t>(f->getKeypointOrientations().size()) == n &&
        static_cast<size_t>(f->getKeypointScores().size()) == n && static_cast<size_t>(f->getKeypointScales().size()) == n)
        << "lengths of the channels";
    if (n) REQ_EQ(f->getDescriptors().rows(), bytes) << "descriptor length";
    for (size_t i = 0; i < n; ++i) {
      REQ(f->getKeypointMeasurement(i) == Eigen::Vector2d(out[i].pt.x, out[i].pt.y)) << "position of keypoint " << i;
      REQ_EQ(f->getKeypointScale(i), out[i].size) << "scale of keypoint " << i;
      REQ_EQ(f->getKeypointOrientation(i), out[i].angle) << "orientation of keypoint " << i;
      REQ_EQ(f->getKeypointScore(i), out[i].response) << "score of keypoint " << i;
      REQ_EQ(f->getKeypointMeasurementUncertainty(i), 0.8) << "uncertainty of keypoint " << i;
      for (int b = 0; b < bytes; ++b)
        REQ_EQ(static_cast<int>(f->getDescriptors()(b, i)), static_cast<int>(desc.at<unsigned char>(static_cast<int>(i), b))) << "byte " << b << " of descriptor " << i;
    }
  }
  pipe.reset();
  REQ_EQ(ft.alive, 0) << "detectors that outlive their pipeline";
  if (count > 1 && interesting) s.nontrivial();
}

// Pixels that are far from everything drawn show the image, what is drawn is visible.
PBT_PROP(drawing, "at least two matches whose keypoints moved", 30000, 200000) {
  const int w = s.i(20, 90), h = s.i(20, 70), type = s.chance(1, 3) ? s.i(1, 3) : 0;
  const bool large = s.chance(1, 300);
  const auto frame = [&](std::vector<Eigen::Vector2d>* at) {
    VisualFrame::Ptr f(new VisualFrame);
    cv::Mat im(h, w, CV_8UC1);
    uint64_t x = s.bits();
    for (int y = 0; y < h; ++y) for (int i = 0; i < w; ++i) im.at<unsigned char>(y, i) = static_cast<unsigned char>((x = x * 6364136223846793005ull + 1442695040888963407ull) >> 56);
    f->setRawImage(im);
    const auto add = [&](int ty, int n, std::vector<Eigen::Vector2d>* list) {
      Eigen::Matrix2Xd kp(2, n);
      for (int i = 0; i < n; ++i) {
        kp.col(i) << s.real(0, 1) * (w - 1), s.real(0, 1) * (h - 1);
        if (s.boolean()) kp.col(i) << std::floor(kp(0, i)), std::floor(kp(1, i));
        if (list) list->push_back(kp.col(i));
      }
      f->extendKeypointMeasurements(kp);
      VisualFrame::DescriptorsT d = VisualFrame::DescriptorsT::Zero(4, n);
      f->extendDescriptors(d, ty);
    };
    if (s.chance(1, 4)) add(9, s.i(1, 3), nullptr);
    add(type, large ? s.i(250, 400) : s.size(0, 5), at);
    if (s.chance(1, 4)) add(8, s.i(1, 3), nullptr);
    return f;
  };
  std::vector<Eigen::Vector2d> at1, at0;
  const VisualFrame::Ptr f1 = frame(&at1), f0 = frame(&at0);
  const VisualFrame before1(*f1), before0(*f0);
  const cv::Mat raw = f1->getRawImage().clone();
  cv::Mat canvas;
  if (s.boolean()) canvas = cv::Mat(s.i(1, 50), s.i(1, 50), CV_8UC1, cv::Scalar(3));
  const auto distance = [](const Eigen::Vector2d& p, const Eigen::Vector2d& a, const Eigen::Vector2d& b) {
    const double l = (b - a).squaredNorm(), t = l > 0 ? std::min(std::max((p - a).dot(b - a) / l, 0.0), 1.0) : 0;
    return (p - a - t * (b - a)).norm();
  };
  struct Segment { Eigen::Vector2d a, b; };
  std::vector<Segment> lines;
  std::vector<Eigen::Vector2d> rings;
  double ring = 0;
  int moved = 0;
  if (s.boolean()) {
    if (at1.empty()) throw pbt::Discard();  // nothing to draw
    aslam_cv_visualization::drawKeypoints(*f1, &canvas, type);
    rings = at1;
    ring = 1;
    s << "keypoints";
  } else {
    aslam::FrameToFrameMatches m;
    if (!at1.empty() && !at0.empty())
      for (int i = s.size(0, 5); i > 0; --i) {  // few, also of many keypoints
        m.emplace_back(static_cast<int>(s.draw(at1.size())), static_cast<int>(s.draw(at0.size())));
        lines.push_back({at0[m.back().second], at1[m.back().first]});
        rings.push_back(at1[m.back().first]);
        moved += (lines.back().a - lines.back().b).norm() > 3;
      }
    aslam_cv_visualization::drawKeypointMatches(*f1, *f0, m, type, &canvas);
    ring = 4;
    s << "matches";
  }
  for (const Eigen::Vector2d& r : rings) s << " (" << r.transpose() << ")";
  for (const Segment& l : lines) s << " (" << l.a.transpose() << " to " << l.b.transpose() << ")";
  s << "\n";
  REQ(canvas.cols == w && canvas.rows == h && canvas.type() == CV_8UC3) << "drawing is " << canvas.cols << "x" << canvas.rows;
  REQ(*f1 == before1 && *f0 == before0 && same(f1->getRawImage(), raw)) << "drawing changed a frame";
  const auto changed = [&](int x, int y) {
    const cv::Vec3b c = canvas.at<cv::Vec3b>(y, x);
    const unsigned char g = raw.at<unsigned char>(y, x);
    return c != cv::Vec3b(g, g, g);
  };
  for (int y = 0; y < h; ++y)
    for (int x = 0; x < w; ++x) {
      const Eigen::Vector2d p(x, y);
      bool near = false;
      for (const Eigen::Vector2d& r : rings) near = near || std::abs((p - r).norm() - ring) < 2.6;
      for (const Segment& l : lines) near = near || distance(p, l.a, l.b) < 2.6;
      if (!near) REQ(!changed(x, y)) << "pixel " << x << "," << y << " is far from everything drawn but changed";
    }
  const auto touched = [&](const Eigen::Vector2d& p, double r) {
    for (int y = 0; y < h; ++y)
      for (int x = 0; x < w; ++x) if ((Eigen::Vector2d(x, y) - p).norm() <= r && changed(x, y)) return true;
    return false;
  };
  for (const Eigen::Vector2d& r : rings) REQ(touched(r, ring + 2.6)) << "nothing drawn at keypoint " << r.transpose();
  for (const Segment& l : lines)
    for (double t : {0.0, 0.5, 1.0}) REQ(touched(l.a + t * (l.b - l.a), 2.6)) << "no line from " << l.a.transpose() << " to " << l.b.transpose();
  if (moved >= 2) s.nontrivial();
}
