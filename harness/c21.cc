// C21: track identifiers propagate along matches and stay unique.
#include <glog/logging.h>

#include <atomic>
#include <iostream>
#include <random>
#include <set>
#include <thread>

#include "pbt.h"
#include "util.h"

#include <aslam/frames/visual-frame.h>
#include <aslam/tracker/track-manager.h>
#include <aslam/tracker/tracking-helpers.h>

const char* pbt::kProperty = "C21";
void pbt::workerInit() { FLAGS_minloglevel = 4; }

using aslam::FrameToFrameMatches;
using aslam::VisualFrame;
using pbt::Source;

namespace {
struct Frame {
  VisualFrame::Ptr f;
  int n = 0;
  bool has = false;
  std::vector<int> ids;  // as expected, if there is a channel
};
std::string show(const std::vector<int>& v) {
  std::ostringstream o;
  for (int i : v) o << i << " ";
  return o.str();
}

int foreign = 0;  // identifiers that no manager draws
Frame frame(Source& s, bool big = false) {
  Frame r;
  r.n = big ? s.i(200, 900) : s.size(0, 8);  // more than one byte counts
  std::mt19937 rng(big ? static_cast<unsigned>(s.draw(1u << 30)) : 0);
  r.f.reset(new VisualFrame);
  const int kind = s.i(0, 3);
  if (kind == 3) {  // two feature types
    const int first = s.i(0, r.n);
    r.f->extendKeypointMeasurements(Eigen::Matrix2Xd::Zero(2, first));
    r.f->extendDescriptors(VisualFrame::DescriptorsT(VisualFrame::DescriptorsT::Zero(4, first)), 1);
    r.f->extendKeypointMeasurements(Eigen::Matrix2Xd::Zero(2, r.n - first));
    r.f->extendDescriptors(VisualFrame::DescriptorsT(VisualFrame::DescriptorsT::Zero(4, r.n - first)), 2);
  } else {
    r.f->setKeypointMeasurements(Eigen::Matrix2Xd::Zero(2, r.n));
  }
  if (kind >= 1 && s.boolean()) {
    r.has = true;
    Eigen::VectorXi v(r.n);
    for (int i = 0; i < r.n; ++i) {
      if (big) v(i) = rng() % 3 == 0 ? 1000000000 + foreign++ : rng() % 6 == 0 ? -2 - static_cast<int>(rng() % 100) : -1;
      else v(i) = s.chance(1, 3) ? 1000000000 + foreign++ : s.chance(1, 6) ? -static_cast<int>(s.range(2, 100)) : -1;
      r.ids.push_back(v(i));
    }
    r.f->setTrackIds(v);
  }
  s << "frame of " << r.n << (r.has ? " with track ids " : "") << show(r.ids) << "\n";
  return r;
}

void expectIds(const Frame& r, size_t index) {
  REQ_EQ(r.f->hasTrackIds(), r.has) << "frame " << index;
  if (!r.has) return;
  const Eigen::VectorXi& v = r.f->getTrackIds();
  REQ_EQ(v.size(), r.n) << "frame " << index;
  for (int i = 0; i < r.n; ++i) REQ_EQ(v(i), r.ids[i]) << "frame " << index << " keypoint " << i;
}
void expectChannel(Frame* r) {
  if (!r->has) r->ids.assign(r->n, -1);
  r->has = true;
}

std::set<int> ever;  // identifiers drawn in this process

// Random exclusive matches without contradicting identifiers.
FrameToFrameMatches matches(Source& s, const Frame& a, const Frame& b) {
  std::vector<int> p, q;
  for (int i = 0; i < a.n; ++i) p.push_back(i);
  for (int i = 0; i < b.n; ++i) q.push_back(i);
  if (a.n > 100 || b.n > 100) {
    std::mt19937 rng(static_cast<unsigned>(s.draw(1u << 30)));
    std::shuffle(p.begin(), p.end(), rng);
    std::shuffle(q.begin(), q.end(), rng);
  } else {
    for (size_t i = p.size(); i > 1; --i) std::swap(p[i - 1], p[s.draw(i)]);
    for (size_t i = q.size(); i > 1; --i) std::swap(q[i - 1], q[s.draw(i)]);
  }
  const int most = std::min(a.n, b.n);
  const int n = s.chance(1, 3) ? most : s.i(0, most);
  FrameToFrameMatches m;
  for (int i = 0; i < n; ++i) {
    const int ia = a.has ? a.ids[p[i]] : -1, ib = b.has ? b.ids[q[i]] : -1;
    if (ia >= 0 && ib >= 0 && ia != ib) continue;
    m.emplace_back(p[i], q[i]);
  }
  return m;
}
}  // namespace

PBT_PROP(history, "a fresh identifier was drawn, one was copied to the other side, and a matched pair had it already", 40000, 3000000) {
  aslam::TrackManager::resetIdProvider();
  ever.clear();
  foreign = 0;
  std::vector<Frame> frames;
  const int n = s.i(2, 5), steps = s.size(1, 10);
  const bool big = s.chance(1, 100);
  for (int i = 0; i < n; ++i) frames.push_back(frame(s, big && s.chance(3, 4)));
  std::unique_ptr<aslam::TrackManager> managers[2] = {std::unique_ptr<aslam::TrackManager>(new aslam::SimpleTrackManager),
                                                      std::unique_ptr<aslam::TrackManager>(new aslam::SimpleTrackManager)};
  int fresh = 0, copied_a = 0, copied_b = 0, same = 0;
  for (int t = 0; t < steps; ++t) {
    if (s.chance(1, 8)) {
      const size_t i = s.draw(n);
      s << "channel of " << i << "\n";
      Eigen::VectorXi* v = aslam::TrackManager::createAndGetTrackIdChannel(frames[i].f.get());
      expectChannel(&frames[i]);
      REQ(v == frames[i].f->getTrackIdsMutable()) << "not the channel of the frame";
      expectIds(frames[i], i);
      continue;
    }
    const size_t ia = s.draw(n);
    size_t ib = s.draw(n - 1);
    if (ib >= ia) ++ib;
    Frame &a = frames[ia], &b = frames[ib];
    const FrameToFrameMatches m = matches(s, a, b);
    s << "apply to " << ia << " and " << ib << ":";
    for (const auto& x : m) s << " " << x.first << "-" << x.second;
    s << "\n";
    expectChannel(&a);
    expectChannel(&b);
    managers[s.draw(2)]->applyMatchesToFrames(m, a.f.get(), b.f.get());
    REQ(a.f->hasTrackIds() && b.f->hasTrackIds()) << "no track ids";
    const Eigen::VectorXi &va = a.f->getTrackIds(), &vb = b.f->getTrackIds();
    REQ_EQ(va.size(), a.n) << "";
    REQ_EQ(vb.size(), b.n) << "";
    for (const auto& x : m) {
      int &ea = a.ids[x.first], &eb = b.ids[x.second];
      if (ea < 0 && eb < 0) {
        const int id = va(x.first);
        REQ(id >= 0) << "match " << x.first << "-" << x.second << " has no identifier but " << id;
        REQ(ever.insert(id).second) << "identifier " << id << " was used before";
        REQ(id < 1000000000) << "identifier " << id << " was not drawn";
        ea = eb = id;
        ++fresh;
      } else if (ea < 0) {
        ea = eb;
        ++copied_a;
      } else if (eb < 0) {
        eb = ea;
        ++copied_b;
      } else {
        ++same;
      }
    }
    for (int i = 0; i < n; ++i) expectIds(frames[i], i);
  }
  if (copied_a) s.label("copied to the first");
  if (copied_b) s.label("copied to the second");
  if (fresh && copied_a + copied_b && same) s.nontrivial();
}

PBT_PROP(threads, "at least 4 threads", 60, 4000, false, 1) {
  const int n = s.i(2, 8), frames = s.i(2, 40), size = s.i(1, 200);
  aslam::TrackManager::resetIdProvider();
  ever.clear();
  s << n << " threads with " << frames << " frames of " << size << "\n";
  std::atomic<int> ready(0);
  std::vector<std::vector<int>> drawn(n);
  std::vector<std::string> bad(n);
  std::vector<std::thread> pool;
  FrameToFrameMatches m;
  for (int i = 0; i < size; ++i) m.emplace_back(i, size - 1 - i);
  for (int t = 0; t < n; ++t) {
    pool.emplace_back([&, t] {
      aslam::SimpleTrackManager manager;
      std::vector<VisualFrame> pairs(2 * frames);
      for (VisualFrame& f : pairs) f.setKeypointMeasurements(Eigen::Matrix2Xd::Zero(2, size));
      ++ready;
      while (ready < n) {
      }
      for (int i = 0; i < frames; ++i) {
        VisualFrame &a = pairs[2 * i], &b = pairs[2 * i + 1];
        manager.applyMatchesToFrames(m, &a, &b);
        for (int j = 0; j < size; ++j) {
          const int id = a.getTrackIds()(j);
          if (id < 0 || id != b.getTrackIds()(size - 1 - j)) bad[t] = "a match has different identifiers";
          drawn[t].push_back(id);
        }
      }
    });
  }
  for (std::thread& t : pool) t.join();
  for (int t = 0; t < n; ++t) {
    REQ_EQ(bad[t], std::string()) << "";
    for (int id : drawn[t]) REQ(ever.insert(id).second) << "identifier " << id << " was used twice";
  }
  if (n >= 4) s.nontrivial();
}

PBT_PROP(provider, "identifiers were drawn before and after a reset", 4000, 100000) {
  const size_t first = s.boolean() ? 0 : s.range(0, 1000000);
  aslam::ThreadSafeIdProvider<size_t> p(first);
  aslam::ThreadSafeIdProvider<int> q(static_cast<int>(first));
  std::vector<size_t> start;
  const int rounds = s.i(1, 3);
  int drawn = 0;
  s << "from " << first << "\n";
  for (int r = 0; r < rounds; ++r) {
    const int n = s.chance(1, 100) ? s.oneOf<int>({256, 300, 65536, 70000}) : s.i(0, 20);
    std::set<size_t> seen;
    for (int i = 0; i < n; ++i) {
      const size_t id = p.getNewId();
      REQ(seen.insert(id).second) << "identifier " << id << " drawn twice";
      REQ(id >= first) << "identifier " << id;
      REQ_EQ(static_cast<size_t>(q.getNewId()), id) << "provider of int";
      if (i < static_cast<int>(start.size())) REQ_EQ(start[i], id) << "after a reset";
      else start.push_back(id);
    }
    if (r + 1 < rounds) {
      p.reset();
      q.reset();
    }
    drawn += n > 0;
  }
  if (drawn >= 2) s.nontrivial();
}

namespace {
struct Observed {
  cv::KeyPoint k;
  double uncertainty;
  int id;
  std::vector<unsigned char> d;
};
}  // namespace

PBT_PROP(insertion, "keypoints were inserted into a frame that had some, some of them tracked", 40000, 2500000) {
  VisualFrame f;
  if (s.chance(1, 4)) {
    f.setKeypointMeasurements(Eigen::Matrix2Xd(2, 0));
    if (s.boolean()) f.setDescriptors(VisualFrame::DescriptorsT(s.i(0, 64), 0));
    if (s.boolean()) f.setKeypointScores(Eigen::VectorXd(0));
    if (s.boolean()) f.setKeypointScales(Eigen::VectorXd(0));
    if (s.boolean()) f.setKeypointOrientations(Eigen::VectorXd(0));
    if (s.boolean()) f.setTrackIds(Eigen::VectorXi(0));
    if (s.boolean()) f.setKeypointMeasurementUncertainties(Eigen::VectorXd(0));
  }
  const int bytes = s.boolean() ? 48 : s.i(1, 70), rounds = s.i(1, 4);
  std::vector<Observed> all;
  bool nontrivial = false;
  for (int r = 0; r < rounds; ++r) {
    const bool big = s.chance(1, 250);
    const int n = big ? s.i(100, 500) : s.size(0, 6);
    std::mt19937 rng(big ? static_cast<unsigned>(s.draw(1u << 30)) : 0);
    std::vector<cv::KeyPoint> keys;
    cv::Mat d(n, bytes, CV_8UC1);
    if (n == 0 && s.boolean()) d = cv::Mat();  // what extractors return without keypoints
    const double uncertainty = s.logReal(1e-3, 1e3);
    const std::vector<Observed> before = all;
    for (int i = 0; i < n; ++i) {
      Observed o;
      const auto number = [&] { return static_cast<float>(big ? static_cast<int>(rng() % 3000) - 5 : s.boolean() ? s.sreal(1000) : s.i(-5, 1000)); };
      o.k = cv::KeyPoint(number(), number(), number(), number(), number(), big ? 0 : s.i(0, 8), big ? -1 : s.i(-1, 9));
      o.uncertainty = uncertainty;
      o.id = -1;
      for (int b = 0; b < bytes; ++b) o.d.push_back(d.at<unsigned char>(i, b) = static_cast<unsigned char>(big ? rng() : s.draw(256)));
      keys.push_back(o.k);
      all.push_back(o);
    }
    bool tracked = false;
    for (const Observed& o : before) tracked |= o.id >= 0;
    s << (r ? "add " : "insert ") << n << " keypoints with " << bytes << " bytes" << (n == 0 && d.empty() && d.cols == 0 ? " (no descriptors)" : "") << "\n";
    if (r == 0) aslam::insertCvKeypointsAndDescriptorsIntoEmptyVisualFrame(keys, d, uncertainty, &f);
    else aslam::insertAdditionalCvKeypointsAndDescriptorsToVisualFrame(keys, d, uncertainty, &f);
    nontrivial |= r && n > 0 && tracked;
    for (cv::KeyPoint& k : keys) k = cv::KeyPoint();
    if (!d.empty()) d.setTo(7);  // the frame has its own copy

    const int total = static_cast<int>(all.size());
    REQ(f.hasKeypointMeasurements() && f.hasKeypointMeasurementUncertainties() && f.hasKeypointOrientations() && f.hasKeypointScales() &&
        f.hasKeypointScores() && f.hasTrackIds() && f.hasDescriptors()) << "an attribute is missing";
    REQ_EQ(f.getNumKeypointMeasurements(), static_cast<size_t>(total)) << "keypoints";
    REQ_EQ(f.getKeypointMeasurementUncertainties().size(), total) << "uncertainties";
    REQ_EQ(f.getKeypointOrientations().size(), total) << "orientations";
    REQ_EQ(f.getKeypointScales().size(), total) << "scales";
    REQ_EQ(f.getKeypointScores().size(), total) << "scores";
    REQ_EQ(f.getTrackIds().size(), total) << "track ids";
    REQ_EQ(f.getDescriptors().cols(), total) << "descriptors";
    if (total) REQ_EQ(f.getDescriptors().rows(), bytes) << "descriptor bytes";
    for (int i = 0; i < total; ++i) {
      const Observed& o = all[i];
      REQ(f.getKeypointMeasurement(i) == Eigen::Vector2d(o.k.pt.x, o.k.pt.y)) << "keypoint " << i << " at " << f.getKeypointMeasurement(i).transpose();
      REQ_EQ(f.getKeypointMeasurementUncertainty(i), o.uncertainty) << "keypoint " << i;
      REQ_EQ(f.getKeypointOrientation(i), static_cast<double>(o.k.angle)) << "keypoint " << i;
      REQ_EQ(f.getKeypointScale(i), static_cast<double>(o.k.size)) << "keypoint " << i;
      REQ_EQ(f.getKeypointScore(i), static_cast<double>(o.k.response)) << "keypoint " << i;
      REQ_EQ(f.getTrackId(i), o.id) << "keypoint " << i;
      for (int b = 0; b < bytes; ++b) REQ_EQ(int(f.getDescriptors()(b, i)), int(o.d[b])) << "keypoint " << i << " byte " << b;
    }
    // Tracks are assigned between insertions.
    if (total && s.boolean()) {
      for (int i = 0; i < total; ++i) {
        if (total > 90 ? i % 3 == 0 : !s.boolean()) continue;
        all[i].id = total > 90 ? 7 * i : s.i(0, 1000);
        (*f.getTrackIdsMutable())(i) = all[i].id;
      }
    }
  }
  if (nontrivial) s.nontrivial();
}
