// C30: the rotation-aided tracker extends matching by optical flow, within its limits.
#include <dlfcn.h>
#include <gflags/gflags.h>
#include <glog/logging.h>

#include <iomanip>
#include <map>
#include <set>

#include <opencv2/features2d/features2d.hpp>
#include <opencv2/imgproc/imgproc.hpp>
#include <opencv2/video/tracking.hpp>

#include "camera_ref.h"
#include "pbt.h"
#include "util.h"

#include <aslam/cameras/camera-pinhole.h>
#include <aslam/cameras/distortion-null.h>
#include <aslam/frames/visual-frame.h>
#include <aslam/matcher/gyro-two-frame-matcher.h>
#include <aslam/matcher/match-helpers.h>
#include <aslam/tracker/feature-tracker-gyro.h>
#include <aslam/tracker/track-manager.h>

DECLARE_double(gyro_lk_candidate_ratio);
DECLARE_uint64(gyro_lk_max_status_track_length);
DECLARE_uint64(gyro_lk_track_detected_threshold);
DECLARE_int32(gyro_lk_window_size);
DECLARE_int32(gyro_lk_max_pyramid_levels);
DECLARE_double(gyro_lk_min_eigenvalue_threshold);

const char* pbt::kProperty = "C30";
void pbt::workerInit() { FLAGS_minloglevel = 4; }

using aslam::VisualFrame;
using pbt::Source;
typedef VisualFrame::DescriptorsT Descriptors;

// ---------------------------------------------------------------- optical flow
namespace {
struct Flow {
  Source* s = nullptr;  // set: generated outcome instead of the real one
  int calls = 0;
  const unsigned char* prev = nullptr;
  const unsigned char* next = nullptr;
  std::vector<cv::Point2f> from, guess, to;
  std::vector<unsigned char> ok;
  cv::Size window;
  int levels = 0, flags = 0;
  double eig = 0;
  cv::TermCriteria criteria;
  double margin = 0, w = 0, h = 0;
};
Flow* flow = nullptr;

float border(Source& s, double margin, double size) {
  const float lo = static_cast<float>(margin), hi = static_cast<float>(size - margin);
  switch (s.draw(6)) {
    case 0: return lo;
    case 1: return std::nextafterf(lo, -1e9f);
    case 2: return hi;
    case 3: return std::nextafterf(hi, -1e9f);
    case 4: return static_cast<float>(s.boolean() ? -s.real(0, 50) : size + s.real(0, 50));
    default: return static_cast<float>(s.real(0, size));
  }
}
}  // namespace

namespace cv {
void calcOpticalFlowPyrLK(InputArray prevImg, InputArray nextImg, InputArray prevPts, InputOutputArray nextPts, OutputArray status,
                          OutputArray err, Size winSize, int maxLevel, TermCriteria criteria, int flags, double minEigThreshold) {
  Flow& f = *flow;
  ++f.calls;
  f.prev = prevImg.isMat() ? prevImg.getMat().data : nullptr;
  f.next = nextImg.isMat() ? nextImg.getMat().data : nullptr;
  f.from.clear();
  f.guess.clear();
  const cv::Mat p = prevPts.getMat(), n = nextPts.getMat();
  for (int i = 0; i < static_cast<int>(p.total()); ++i) f.from.push_back(p.ptr<cv::Point2f>()[i]);
  for (int i = 0; i < static_cast<int>(n.total()); ++i) f.guess.push_back(n.ptr<cv::Point2f>()[i]);
  f.window = winSize;
  f.levels = maxLevel;
  f.flags = flags;
  f.eig = minEigThreshold;
  f.criteria = criteria;
  f.to.clear();
  f.ok.clear();
  if (!f.s) {
    typedef void (*Fn)(InputArray, InputArray, InputArray, InputOutputArray, OutputArray, OutputArray, Size, int, TermCriteria, int, double);
    static const Fn real = reinterpret_cast<Fn>(dlsym(RTLD_NEXT,
        "_ZN2cv20calcOpticalFlowPyrLKERKNS_11_InputArrayES2_S2_RKNS_17_InputOutputArrayERKNS_12_OutputArrayES8_NS_5Size_IiEEiNS_12TermCriteriaEid"));
    if (!real) {
      std::fprintf(stderr, "no optical flow in OpenCV\n");
      std::_Exit(3);
    }
    real(prevImg, nextImg, prevPts, nextPts, status, err, winSize, maxLevel, criteria, flags, minEigThreshold);
    const cv::Mat q = nextPts.getMat(), k = status.getMat();
    for (int i = 0; i < static_cast<int>(q.total()); ++i) f.to.push_back(q.ptr<cv::Point2f>()[i]);
    for (int i = 0; i < static_cast<int>(k.total()); ++i) f.ok.push_back(k.ptr<unsigned char>()[i]);
    return;
  }
  Source& s = *f.s;
  const int count = static_cast<int>(f.from.size());
  nextPts.create(n.size(), n.type(), -1, true);
  status.create(count, 1, CV_8U, -1, true);
  err.create(count, 1, CV_32F, -1, true);
  cv::Mat q = nextPts.getMat(), k = status.getMat(), e = err.getMat();
  for (int i = 0; i < count; ++i) {
    cv::Point2f to;
    if (s.chance(1, 4)) {
      to.x = border(s, f.margin, f.w);
      to.y = s.boolean() ? border(s, f.margin, f.h) : static_cast<float>(f.h / 2);
      if (s.boolean()) std::swap(to.x, to.y);
    } else {
      to = f.guess[i] + cv::Point2f(static_cast<float>(s.sreal(4)), static_cast<float>(s.sreal(4)));
    }
    const unsigned char ok = s.chance(1, 6) ? 0 : 1;
    q.ptr<cv::Point2f>()[i] = to;
    k.ptr<unsigned char>()[i] = ok;
    e.ptr<float>()[i] = static_cast<float>(s.real(0, 50));
    f.to.push_back(to);
    f.ok.push_back(ok);
  }
}
}  // namespace cv

// ---------------------------------------------------------------- descriptors
namespace {
class Extractor : public cv::DescriptorExtractor {
 public:
  Source* s = nullptr;
  int bytes = 8, calls = 0;
  const unsigned char* image = nullptr;
  std::vector<cv::KeyPoint> in, out;
  cv::Mat descriptors;
  using cv::DescriptorExtractor::compute;
  void compute(cv::InputArray img, std::vector<cv::KeyPoint>& keypoints, cv::OutputArray desc) override {
    ++calls;
    image = img.getMat().data;
    in = keypoints;
    if (s->chance(1, 3)) {
      std::vector<cv::KeyPoint> kept;
      for (const cv::KeyPoint& k : keypoints) if (!s->chance(1, 3)) kept.push_back(k);
      keypoints.swap(kept);
    }
    if (s->chance(1, 4)) std::reverse(keypoints.begin(), keypoints.end());
    out = keypoints;
    descriptors.release();
    if (keypoints.empty()) {
      desc.release();
      return;
    }
    descriptors.create(static_cast<int>(keypoints.size()), bytes, CV_8UC1);
    for (int i = 0; i < descriptors.rows; ++i) {
      uint64_t x = s->bits();
      for (int b = 0; b < bytes; ++b) {
        x = x * 6364136223846793005ull + 1442695040888963407ull;
        descriptors.at<unsigned char>(i, b) = static_cast<unsigned char>(x >> 56);
      }
    }
    descriptors.copyTo(desc);
  }
  int descriptorSize() const override { return bytes; }
  int descriptorType() const override { return CV_8U; }
};

struct Keypoints {
  Eigen::Matrix2Xd at;
  Eigen::VectorXd angle, scale, score, sigma;
  Descriptors d;
  Eigen::VectorXi id;
  int size() const { return static_cast<int>(at.cols()); }
};
Keypoints sized(int n, int bytes) {
  Keypoints k;
  k.at.resize(2, n);
  k.angle.resize(n);
  k.scale.resize(n);
  k.score.resize(n);
  k.sigma.resize(n);
  k.d.resize(bytes, n);
  k.id = Eigen::VectorXi::Constant(n, -1);
  return k;
}
void fill(VisualFrame* f, const Keypoints& k, int type) {
  f->extendKeypointMeasurements(k.at);
  f->extendKeypointOrientations(k.angle);
  f->extendKeypointScales(k.scale);
  f->extendKeypointScores(k.score);
  f->extendKeypointMeasurementUncertainties(k.sigma);
  f->extendTrackIds(k.id);
  f->extendDescriptors(k.d, type);
}
Keypoints read(const VisualFrame& f, int type) {
  Keypoints k;
  k.at = f.getKeypointMeasurementsOfType(type);
  k.angle = f.getKeypointOrientationsOfType(type);
  k.scale = f.getKeypointScalesOfType(type);
  k.score = f.getKeypointScoresOfType(type);
  k.sigma = f.getKeypointMeasurementUncertaintiesOfType(type);
  k.d = f.getDescriptorsOfType(type);
  k.id = f.getTrackIdsOfType(type);
  return k;
}
bool sameAt(const Keypoints& a, int i, const Keypoints& b, int j) {
  return a.at.col(i) == b.at.col(j) && a.angle(i) == b.angle(j) && a.scale(i) == b.scale(j) && a.score(i) == b.score(j) &&
         a.sigma(i) == b.sigma(j) && a.id(i) == b.id(j) && a.d.rows() == b.d.rows() && a.d.col(i) == b.d.col(j);
}

struct Pinhole {
  uint32_t w, h;
  aslam::Camera::Ptr cam;
};
Pinhole pinhole(Source& s) {
  Pinhole p;
  p.w = static_cast<uint32_t>(s.i(40, 640));
  p.h = static_cast<uint32_t>(s.i(40, 480));
  const double f = s.real(0.5, 1.5) * p.w;
  Eigen::Vector4d intr(f, f, p.w / 2.0, p.h / 2.0);
  aslam::Distortion::UniquePtr d(new aslam::NullDistortion);
  p.cam.reset(new aslam::PinholeCamera(intr, p.w, p.h, d));
  aslam::CameraId id;
  aslam::generateId(&id);
  p.cam->setId(id);
  return p;
}

struct Flags {
  double ratio = 0.4;
  uint64_t longest = 10, threshold = 1;
  int window = 21, levels = 1;
  double eig = 0.001;
};
Flags flags(Source& s) {
  Flags f;
  if (!s.chance(1, 4)) f.ratio = s.chance(1, 6) ? 0.0 : s.chance(1, 3) ? 1.0 : s.boolean() ? s.real(0.05, 1) : s.i(1, 9) / 10.0;
  if (s.boolean()) f.longest = s.chance(1, 16) ? s.range(100, 1000000000000) : static_cast<uint64_t>(s.i(1, 4));
  if (s.chance(1, 3)) f.threshold = s.chance(1, 20) ? s.range(4, 100000) : static_cast<uint64_t>(s.i(0, 3));
  if (s.chance(1, 4)) f.window = s.i(3, 40);
  if (s.chance(1, 4)) f.levels = s.i(0, 4);
  if (s.chance(1, 4)) f.eig = s.logReal(1e-6, 1);
  FLAGS_gyro_lk_candidate_ratio = f.ratio;
  FLAGS_gyro_lk_max_status_track_length = f.longest;
  FLAGS_gyro_lk_track_detected_threshold = f.threshold;
  FLAGS_gyro_lk_window_size = f.window;
  FLAGS_gyro_lk_max_pyramid_levels = f.levels;
  FLAGS_gyro_lk_min_eigenvalue_threshold = f.eig;
  return f;
}

cv::Point2f point2f(const Eigen::Vector2d& v) { return cv::Point2f(static_cast<float>(v(0)), static_cast<float>(v(1))); }
}  // namespace

PBT_PROP(histories, "some keypoints of at least two steps were carried on by optical flow", 60000, 3000000) {
  const Pinhole cam = pinhole(s);
  const Flags fl = flags(s);
  const int margin = s.chance(1, 4) ? 0 : s.i(1, static_cast<int>(std::min(cam.w, cam.h)) / 3);
  const int type = s.chance(1, 3) ? s.i(1, 4) : 0;
  const int bytes = s.chance(1, 3) ? s.i(8, 64) : 16;
  cv::Ptr<Extractor> extractor = cv::makePtr<Extractor>();
  extractor->s = &s;
  extractor->bytes = bytes;
  s << "camera " << cam.w << "x" << cam.h << " f " << cam.cam->getParameters()(0) << ", margin " << margin << ", type " << type << ", bytes " << bytes << ", ratio " << fl.ratio
    << ", longest " << fl.longest << ", threshold " << fl.threshold << ", window " << fl.window << ", levels " << fl.levels << ", eigenvalue " << fl.eig << "\n";
  aslam::GyroTracker tracker(*cam.cam, static_cast<size_t>(margin), extractor, type);
  // The defaults of the flags belong to the tracker that was constructed with them.
  Flow fw;
  fw.s = &s;
  fw.margin = margin;
  fw.w = cam.w;
  fw.h = cam.h;
  flow = &fw;

  const bool large = s.chance(1, 800);  // more than one byte counts
  const int steps = s.chance(1, 600) ? s.i(100, 300) : s.size(1, 7);
  int next_id = s.i(0, 1000), flow_steps = 0;
  int64_t t = s.range(0, 1000000);
  const double right = std::nextafter(static_cast<double>(cam.w), 0), bottom = std::nextafter(static_cast<double>(cam.h), 0);
  const auto attributes = [&](Keypoints* k, int i) {
    k->angle(i) = s.chance(1, 4) ? -1 : s.real(0, 360);
    k->scale(i) = s.real(0.5, 40);
    k->score(i) = s.boolean() ? s.real(0, 1) : s.real(0, 300);
    k->sigma(i) = s.real(0.1, 3);
  };
  const auto fresh = [&](Keypoints* k, int i) {
    k->at.col(i) << std::min(s.real(0, 1) * cam.w, right), std::min(s.real(0, 1) * cam.h, bottom);
    uint64_t x = s.bits();
    if (large) k->at.col(i) << std::min(static_cast<double>(x >> 40) / (1 << 24) * cam.w, right), std::min(static_cast<double>((x >> 8) & 0xffffff) / (1 << 24) * cam.h, bottom);
    for (int b = 0; b < bytes; ++b) {
      x = x * 6364136223846793005ull + 1442695040888963407ull;
      k->d(b, i) = static_cast<unsigned char>(x >> 56);
    }
    attributes(k, i);
  };
  const auto otherType = [&](VisualFrame* f, int ty) {
    Keypoints k = sized(s.size(0, 3), s.i(1, 20));
    k.d.setZero();
    for (int i = 0; i < k.size(); ++i) {
      k.at.col(i) << s.real(0, cam.w - 1.0), s.real(0, cam.h - 1.0);
      attributes(&k, i);
      k.id(i) = s.i(-1, 5);
    }
    fill(f, k, ty);
  };
  const auto frame = [&](const Keypoints& k) {
    VisualFrame::Ptr f(new VisualFrame);
    aslam::FrameId id;
    aslam::generateId(&id);
    f->setId(id);
    f->setCameraGeometry(cam.cam);
    f->setTimestampNanoseconds(t);
    t += s.range(1, 100000000);
    f->setRawImage(cv::Mat(static_cast<int>(cam.h), static_cast<int>(cam.w), CV_8UC1, cv::Scalar(0)));
    // Frames with several kinds of features can be matched but not extended.
    if (fl.ratio == 0 && s.chance(1, 3)) otherType(f.get(), type ? 0 : 9);
    fill(f.get(), k, type);
    if (fl.ratio == 0 && s.chance(1, 3)) otherType(f.get(), 8);
    return f;
  };

  Keypoints first = sized(large ? s.i(250, 400) : s.size(0, 14), bytes);
  for (int i = 0; i < first.size(); ++i) fresh(&first, i);
  VisualFrame::Ptr f0 = frame(first);
  enum Status { kDetected, kFlow };
  std::vector<Status> status(first.size(), kDetected);
  std::vector<size_t> length(first.size(), 0);
  for (int step = 0; step < steps; ++step) {
    const Keypoints k0 = read(*f0, type);
    REQ_EQ(static_cast<size_t>(k0.size()), status.size()) << "keypoints";
    Eigen::Quaterniond q = Eigen::Quaterniond::Identity();
    if (s.chance(2, 3)) {
      const Eigen::Vector3d a(s.sreal(1), s.sreal(1), s.sreal(1));
      if (a.norm() > 1e-3) q = Eigen::Quaterniond(Eigen::AngleAxisd(s.real(0, 0.2), a.normalized()));
    }
    const aslam::Quaternion qq(q);
    Eigen::Matrix2Xd pred;
    std::vector<unsigned char> success;
    aslam::predictKeypointsByRotation(*f0, qq, &pred, &success, type);
    // Of keypoints at one place it cannot be told which was carried on.
    std::set<std::pair<float, float>> places;
    for (int i = 0; i < k0.size(); ++i) places.emplace(point2f(k0.at.col(i)).x, point2f(k0.at.col(i)).y);
    if (static_cast<int>(places.size()) < k0.size()) {
      s.label("coincident keypoints");
      break;
    }
    // Detect some of the old keypoints again, and some new ones.
    std::vector<int> again;
    const int keep = s.i(1, 4);
    for (int i = 0; i < k0.size(); ++i) if (success[i] && (large || again.size() < 16) && s.chance(keep, 4)) again.push_back(i);
    if (s.boolean()) std::reverse(again.begin(), again.end());
    const int added = large && s.boolean() ? s.i(0, 300) : s.size(0, 8);
    Keypoints k1 = sized(static_cast<int>(again.size()) + added, bytes);
    for (int i = 0; i < k1.size(); ++i) {
      const bool redetected = i >= added;
      fresh(&k1, i);
      if (!redetected) continue;
      const int j = again[i - added];
      const double r = s.boolean() ? 0 : 6;
      k1.at.col(i) << std::min(std::max(pred(0, j) + s.sreal(1) * r, 0.0), right), std::min(std::max(pred(1, j) + s.sreal(1) * r, 0.0), bottom);
      k1.d.col(i) = k0.d.col(j);
      const int flips = s.i(0, 3);
      for (int x = 0; x < flips; ++x) k1.d(s.draw(bytes), i) ^= static_cast<unsigned char>(1u << s.draw(8));
    }
    VisualFrame::Ptr f1 = frame(k1);
    const int n1 = k1.size();
    s << "step " << step << ": rotation " << q.coeffs().transpose() << ", " << k0.size() << " old and " << n1 << " detected\n";
    for (int i = 0; i < k0.size(); ++i)
      s << "  old " << i << " id " << k0.id(i) << (status[i] == kFlow ? " flow " : " detected ") << length[i] << (success[i] ? "" : " no prediction") << "\n";
    // What matching alone finds.
    std::set<std::pair<int, int>> expected;
    {
      aslam::FrameToFrameMatches m;
      aslam::GyroTwoFrameMatcher matcher(qq, *f1, *f0, type, cam.h, pred, success, &m);
      matcher.match();
      for (const auto& x : m) expected.emplace(x.getKeypointIndexInFrameA(), x.getKeypointIndexInFrameB());
    }
    const VisualFrame before0(*f0), before1(*f1);
    fw.calls = 0;
    extractor->calls = 0;
    aslam::FrameToFrameMatches m;
    if (s.chance(1, 4)) m.emplace_back(2, 3);
    tracker.track(qq, *f0, f1.get(), &m);
    REQ(*f0 == before0) << "the old frame changed";
    std::set<std::pair<int, int>> found;
    std::map<int, int> carried;  // new index to old index
    std::vector<bool> matched(k0.size(), false);
    std::set<int> new_used;
    for (const auto& x : m) {
      const int a = x.getKeypointIndexInFrameA(), b = x.getKeypointIndexInFrameB();
      s << "  match " << a << " <- " << b << "\n";
      REQ(b >= 0 && b < k0.size() && !matched[b]) << "old keypoint " << b;
      matched[b] = true;
      REQ(new_used.insert(a).second) << "new keypoint " << a << " is matched twice";
      if (a < n1) found.emplace(a, b);
      else carried[a] = b;
    }
    REQ(found == expected) << "matches by descriptor: " << found.size() << " and not the " << expected.size() << " of the matcher";
    if (fl.ratio == 0) {
      REQ(fw.calls == 0 && extractor->calls == 0 && carried.empty()) << "optical flow although it is switched off";
      REQ(*f1 == before1) << "the new frame changed without optical flow";
    }
    const Keypoints r1 = read(*f1, type);
    REQ(r1.size() >= n1) << "keypoints were lost";
    for (int i = 0; i < n1; ++i) REQ(sameAt(k1, i, r1, i)) << "detected keypoint " << i << " changed";
    // Who may be carried on.
    std::vector<bool> by_descriptor(k0.size(), false);
    for (const auto& x : expected) by_descriptor[x.second] = true;
    std::vector<int> eligible;
    for (int i = 0; i < k0.size(); ++i) {
      if (by_descriptor[i]) continue;
      if (status[i] == kDetected ? length[i] >= fl.threshold : length[i] < fl.longest) eligible.push_back(i);
    }
    // Positive if a goes first.
    const auto priority = [&](int a, int b) {
      if (status[a] != status[b]) return status[a] == kDetected ? 1 : -1;
      if (length[a] == length[b]) return 0;
      return ((length[a] > length[b]) == (status[a] == kDetected)) ? 1 : -1;
    };
    const size_t most = static_cast<size_t>(n1 * fl.ratio);
    std::vector<int> asked;  // old indices in the order of the call
    if (fl.ratio > 0) {
      REQ(fw.calls <= 1) << "optical flow was called " << fw.calls << " times";
      if (fw.calls == 1) {
        REQ(fw.prev == f0->getRawImage().data && fw.next == f1->getRawImage().data) << "optical flow between other images";
        REQ(fw.window == cv::Size(fl.window, fl.window) && fw.levels == fl.levels && fw.eig == fl.eig) << "settings of the optical flow";
        REQ(fw.flags & cv::OPTFLOW_USE_INITIAL_FLOW) << "the predictions are not used";
        REQ_EQ(fw.from.size(), fw.guess.size()) << "points and predictions";
        std::vector<bool> taken(k0.size(), false);
        for (size_t i = 0; i < fw.from.size(); ++i) {
          // Keypoints of a frame may coincide; prefer one that fits the prediction and may be carried on.
          int who = -1;
          for (int pass = 0; pass < 2 && who < 0; ++pass)
            for (int e : pass ? std::vector<int>() : eligible)
              if (!taken[e] && success[e] && point2f(k0.at.col(e)) == fw.from[i] && point2f(pred.col(e)) == fw.guess[i]) { who = e; break; }
          REQ(who >= 0) << "optical flow from " << fw.from[i] << " starting at " << fw.guess[i] << ", which is no unmatched keypoint that may be carried on with its prediction";
          taken[who] = true;
          asked.push_back(who);
        }
      }
      REQ(asked.size() <= most) << asked.size() << " keypoints handed to the optical flow, at most " << most << " allowed";
      for (int e : eligible) {
        if (!success[e]) continue;
        const bool in = std::find(asked.begin(), asked.end(), e) != asked.end();
        size_t before = 0, not_after = 0;
        for (int o : eligible) {
          if (o == e) continue;
          before += priority(o, e) > 0;
          not_after += priority(o, e) >= 0;
        }
        if (in) REQ(before < most) << "old keypoint " << e << " is carried on before " << before << " with priority, at most " << most;
        else REQ(not_after >= most) << "old keypoint " << e << " should be carried on: only " << not_after << " could come first, " << most << " allowed";
        if (eligible.size() > most && in) s.label("cut off");
      }
    }
    // What the flow delivered.
    std::vector<int> alive;
    std::vector<cv::Point2f> where;
    for (size_t i = 0; i < asked.size(); ++i) {
      const cv::Point2f p = fw.to[i];
      if (!fw.ok[i] || !(p.x >= margin && p.y >= margin && p.x < static_cast<float>(cam.w) - margin && p.y < static_cast<float>(cam.h) - margin)) continue;
      alive.push_back(asked[i]);
      where.push_back(p);
    }
    size_t kept = 0;
    std::vector<int> origin;  // of the appended keypoints
    if (!alive.empty()) {
      REQ_EQ(extractor->calls, 1) << "calls of the extractor";
      REQ(extractor->image == f1->getRawImage().data) << "descriptors of another image";
      REQ_EQ(extractor->in.size(), alive.size()) << "keypoints described";
      for (const cv::KeyPoint& k : extractor->in) {
        bool known = false;
        for (size_t i = 0; i < alive.size() && !known; ++i)
          known = k.pt == where[i] && k.size == static_cast<float>(k0.scale(alive[i])) && k.angle == static_cast<float>(k0.angle(alive[i])) &&
                  k.response == static_cast<float>(k0.score(alive[i]));
        REQ(known) << "described keypoint at " << k.pt << " size " << k.size << " angle " << k.angle << " score " << k.response << " is none that was carried on";
      }
      kept = extractor->out.size();
    }
    REQ_EQ(static_cast<size_t>(r1.size()), n1 + kept) << "keypoints of the new frame";
    REQ_EQ(carried.size(), kept) << "matches of keypoints that were carried on";
    REQ(f1->getDescriptorsOfType(type).cols() == r1.size() && f1->getKeypointMeasurementsOfType(type).cols() == r1.size()) << "lengths";
    std::vector<bool> used(alive.size(), false);
    for (const auto& c : carried) {
      const int a = c.first, b = c.second;
      REQ(a < r1.size()) << "match of keypoint " << a << " of " << r1.size();
      size_t i = 0;
      while (i < alive.size() && alive[i] != b) ++i;
      REQ(i < alive.size()) << "match " << a << " <- " << b << " was not carried on";
      REQ(r1.at.col(a) == Eigen::Vector2d(where[i].x, where[i].y)) << "keypoint " << a << " is at " << r1.at.col(a).transpose() << " and not at " << where[i];
      REQ_EQ(r1.angle(a), static_cast<float>(k0.angle(b))) << "orientation";
      REQ_EQ(r1.scale(a), static_cast<float>(k0.scale(b))) << "scale";
      REQ_EQ(r1.score(a), static_cast<float>(k0.score(b))) << "score";
      REQ_EQ(r1.sigma(a), 0.8) << "uncertainty";
      REQ_EQ(r1.id(a), -1) << "track id";
      bool described = false;
      for (size_t o = 0; o < extractor->out.size() && !described; ++o) {
        if (extractor->out[o].pt != where[i]) continue;
        described = true;
        for (int x = 0; x < bytes; ++x) described = described && extractor->descriptors.at<unsigned char>(static_cast<int>(o), x) == r1.d(x, a);
      }
      REQ(described) << "descriptor of keypoint " << a;
    }
    if (!carried.empty()) ++flow_steps, s.label("carried");
    // Tracks: some of the matches are rejected.
    const int reject = s.chance(1, 2) ? 0 : s.i(1, 3);
    std::vector<int> previous(r1.size(), -1);
    Eigen::VectorBlock<Eigen::VectorXi> id0 = f0->getTrackIdsOfTypeMutable(type), id1 = f1->getTrackIdsOfTypeMutable(type);
    for (const auto& x : m) {
      if (s.chance(reject, 5)) continue;
      const int a = x.getKeypointIndexInFrameA(), b = x.getKeypointIndexInFrameB();
      if (id0(b) < 0) id0(b) = next_id++;
      id1(a) = id0(b);
      previous[a] = b;
      s << "  accepted " << a << " <- " << b << " as track " << id1(a) << "\n";
    }
    std::vector<Status> status1(r1.size(), kDetected);
    std::vector<size_t> length1(r1.size(), 0);
    for (int i = 0; i < r1.size(); ++i) {
      if (i >= n1) status1[i] = kFlow;
      if (previous[i] < 0) continue;
      length1[i] = status1[i] == status[previous[i]] ? length[previous[i]] + 1 : 1;
    }
    status.swap(status1);
    length.swap(length1);
    f0 = f1;
  }
  if (flow_steps >= 2) s.nontrivial();
}
