// C24: the multi-camera pipeline pairs images by time and delivers complete sets once.
#include <glog/logging.h>

#include <cstring>
#include <map>
#include <set>
#include <thread>

#include "ctlsched.h"
#include "pbt.h"
#include "util.h"

#include <aslam/cameras/camera-pinhole.h>
#include <aslam/cameras/distortion-null.h>
#include <aslam/cameras/ncamera.h>
#include <aslam/frames/visual-frame.h>
#include <aslam/frames/visual-nframe.h>
#include <aslam/pipeline/visual-npipeline.h>
#include <aslam/pipeline/visual-pipeline-null.h>

const char* pbt::kProperty = "C24";
namespace pbt {
void workerInit() {
  google::SetStderrLogging(google::FATAL);
  FLAGS_logtostderr = true;
  FLAGS_minloglevel = 3;
}
}  // namespace pbt

using aslam::Camera;
using aslam::NCamera;
using aslam::VisualFrame;
using aslam::VisualNFrame;
using aslam::VisualNPipeline;
using aslam::VisualPipeline;
using pbt::Source;

namespace {
const int kW = 8, kH = 6;

cv::Mat image(int serial) {
  cv::Mat m(kH, kW, CV_8UC1);
  for (int i = 0; i < kH * kW; ++i) m.data[i] = static_cast<uint8_t>(serial * 31 + i * 7);
  std::memcpy(m.data, &serial, sizeof serial);
  return m;
}
int serialOf(const cv::Mat& m) {
  if (m.rows != kH || m.cols != kW || m.type() != CV_8UC1) return -1;
  int serial;
  std::memcpy(&serial, m.data, sizeof serial);
  return serial;
}
bool intact(const cv::Mat& m) {
  const int serial = serialOf(m);
  for (int i = sizeof serial; i < kH * kW; ++i)
    if (m.data[i] != static_cast<uint8_t>(serial * 31 + i * 7)) return false;
  return serial >= 0;
}

// Marks the frame with the image that it saw and may correct the timestamp.
class Marking : public VisualPipeline {
 public:
  Marking(const Camera::ConstPtr& in, const Camera::ConstPtr& out, bool copy, int64_t offset) : VisualPipeline(in, out, copy), offset_(offset) {}

 protected:
  void processFrameImpl(const cv::Mat& m, VisualFrame* frame) const override {
    Eigen::Matrix2Xd k(2, 1);
    k << serialOf(m), 1;
    frame->setKeypointMeasurements(k);
    frame->setTimestampNanoseconds(frame->getTimestampNanoseconds() + offset_);
  }
  int64_t offset_;
};

Camera::Ptr camera() {
  Eigen::VectorXd p(4);
  p << 5, 5, 4, 3;
  Camera::Ptr c(new aslam::PinholeCamera(p, kW, kH));
  aslam::SensorId id;
  aslam::generateId(&id);
  c->setId(id);
  return c;
}
NCamera::Ptr rig(size_t n) {
  aslam::TransformationVector t(n);
  std::vector<Camera::Ptr> c;
  for (size_t i = 0; i < n; ++i) c.push_back(camera());
  aslam::NCameraId id;
  aslam::generateId(&id);
  return NCamera::Ptr(new NCamera(id, t, c, "rig"));
}

struct Setup {
  NCamera::Ptr in, out;
  std::vector<VisualPipeline::Ptr> single;
  std::vector<bool> marks, copies;
  std::vector<int64_t> offset;
  size_t cameras() const { return single.size(); }
};
Setup setup(Source& s, size_t cameras, bool plain, int64_t scale = 1) {
  Setup r;
  r.in = rig(cameras);
  const bool two = !plain && s.boolean();
  r.out = two ? rig(cameras) : r.in;
  for (size_t i = 0; i < cameras; ++i) {
    const bool mark = two || (!plain && s.boolean()), copy = s.boolean();
    const int64_t offset = mark && s.chance(1, 3) ? s.range(-300, 300) * scale : 0;
    r.marks.push_back(mark);
    r.copies.push_back(copy);
    r.offset.push_back(offset);
    if (mark) r.single.push_back(VisualPipeline::Ptr(new Marking(r.in->getCameraShared(i), r.out->getCameraShared(i), copy, offset)));
    else r.single.push_back(VisualPipeline::Ptr(new aslam::NullVisualPipeline(r.in->getCameraShared(i), copy)));
    s << "camera " << i << (mark ? " marking" : " null") << (copy ? " copies" : "") << " offset " << offset << "\n";
  }
  return r;
}

struct Sent {
  int serial;
  size_t camera;
  int64_t t;  // of the frame
  cv::Mat m;
};
struct Set {
  int64_t key = 0;
  std::vector<int> serial;  // by camera, -1: missing
  bool complete() const { return std::count(serial.begin(), serial.end(), -1) == 0; }
};

std::string show(const Set& x) {
  std::ostringstream o;
  o << x.key << " (";
  for (int i : x.serial) o << i << " ";
  o << ")";
  return o.str();
}

// Contents of a delivered multi-frame.
Set contents(const Setup& u, const VisualNFrame& n, const std::vector<Sent>& sent) {
  Set r;
  REQ_EQ(n.getNumFrames(), u.cameras()) << "frames of the rig";
  REQ(&n.getNCamera() == u.out.get()) << "not the output rig";
  REQ(n.areAllFramesSet()) << "an incomplete multi-frame was delivered";
  for (size_t i = 0; i < u.cameras(); ++i) {
    const VisualFrame& f = n.getFrame(i);
    REQ(f.getCameraGeometry() == u.out->getCameraShared(i)) << "camera " << i;
    REQ(f.getRawCameraGeometry() == u.in->getCameraShared(i)) << "raw camera " << i;
    REQ(f.getId().isValid()) << "no frame id";
    REQ(f.hasRawImage()) << "no image";
    const cv::Mat& m = f.getRawImage();
    const int serial = serialOf(m);
    REQ(serial >= 0 && serial < static_cast<int>(sent.size())) << "camera " << i << " has image " << serial << " of " << sent.size() << " submitted";
    const Sent& x = sent[serial];
    REQ(intact(m)) << "image " << serial << " changed";
    REQ_EQ(x.camera, i) << "image " << serial << " delivered at the wrong camera";
    REQ((m.data == x.m.data) == !u.copies[i]) << (u.copies[i] ? "image not copied" : "image copied");
    REQ_EQ(f.getTimestampNanoseconds(), x.t) << "image " << serial;
    REQ_EQ(f.hasKeypointMeasurements(), static_cast<bool>(u.marks[i]));
    if (u.marks[i]) REQ_EQ(static_cast<int>(f.getKeypointMeasurement(0)(0)), serial) << "image processed for the frame";
    r.serial.push_back(serial);
  }
  return r;
}
}  // namespace

// One worker: everything is determined, compare with a model of the queues.
PBT_PROP(model, "at least two multi-frames were delivered and some image was missing, late, out of order or in dispute", 20000, 1500000) {
  const bool many = s.chance(1, 200);  // multi-frames waiting
  const size_t cameras = many ? s.size(1, 3) : s.chance(1, 30) ? s.size(5, 12) : s.size(1, 4);
  static const int64_t tolerances[] = {0, 1, 50, 400, 600, 2500};
  static const int64_t scales[] = {1, 1, 1, 1000, 50000, 1000000, 100000000};  // periods of a microsecond to 100 seconds
  const int64_t scale = scales[s.draw(7)];
  const int64_t tolerance = tolerances[s.draw(6)] * scale;
  s << "tolerance " << tolerance << "\n";
  const Setup u = setup(s, cameras, false, scale);
  VisualNPipeline p(1, u.single, u.in, u.out, tolerance);
  REQ(p.getInputNCameras().get() == u.in.get());
  REQ(p.getOutputNCameras().get() == u.out.get());

  // Arrivals: a stream of sets with missing, swapped, repeated and jittered images.
  struct Arrival { size_t c; int64_t t; };
  std::vector<Arrival> arrivals;
  const int64_t start = s.chance(1, 4) ? 1500000000000000000 : 1000000;
  const int sets = many ? s.i(270, 400) : s.size(1, 12);
  const bool jitters = s.boolean();
  bool odd = false;
  for (int k = 0; k < sets; ++k) {
    for (size_t c = 0; c < cameras; ++c) {
      if (s.chance(1, 10)) { odd = true; continue; }
      int64_t j = 0;
      if (jitters) {
        switch (s.draw(5)) {
          case 0: j = tolerance; break;
          case 1: j = -tolerance; break;
          case 2: j = tolerance + 1; break;
          case 3: j = s.range(-tolerance - 1, tolerance + 1); break;
          default: break;
        }
      }
      const int64_t period = 1000 * scale;
      arrivals.push_back({c, start + k * period + j - u.offset[c] * (s.chance(1, 8) ? 0 : 1)});
      if (s.chance(1, 20)) { arrivals.push_back(arrivals.back()); odd = true; }
    }
  }
  const int swaps = s.boolean() ? 0 : s.size(1, 2 * sets);
  for (int k = 0; k < swaps && arrivals.size() > 1; ++k) {
    const size_t i = s.draw(arrivals.size() - 1), d = std::min<size_t>(arrivals.size() - 1 - i, s.boolean() ? 1 : s.size(1, 3 * cameras));
    std::swap(arrivals[i], arrivals[i + d]);
    odd = true;
  }

  std::map<int64_t, Set> processing;
  std::vector<Set> completed;  // by key, equal ones as they completed
  std::vector<Sent> sent;
  int delivered = 0, dropped = 0;
  bool waited = true;
  const int64_t big = 1ll << 62;

  auto receive = [&](const Arrival& a) {
    Sent x{static_cast<int>(sent.size()), a.c, a.t + u.offset[a.c], image(static_cast<int>(sent.size()))};
    sent.push_back(x);
    int64_t best = big;
    std::map<int64_t, Set>::iterator at = processing.end();
    for (auto it = processing.begin(); it != processing.end(); ++it) {
      const int64_t d = std::abs(it->first - x.t);
      if (d < best) { best = d; at = it; }
    }
    if (best > tolerance) {
      Set n;
      n.key = x.t;
      n.serial.assign(cameras, -1);
      at = processing.emplace(x.t, n).first;
    }
    if (at->second.serial[x.camera] >= 0) s.label("overwritten");
    at->second.serial[x.camera] = x.serial;
    // Frame drops: two complete ones in a row in a queue of more than three.
    if (processing.size() > 3) {
      auto before = processing.end();
      for (auto it = processing.begin(); it != processing.end(); ++it) {
        if (before != processing.end() && before->second.complete() && it->second.complete()) {
          for (auto d = processing.begin(); d != before;) {
            if (d->second.complete()) { ++d; continue; }
            d = processing.erase(d);
            ++dropped;
          }
          break;
        }
        before = it;
      }
    }
    while (!processing.empty() && processing.begin()->second.complete()) {
      const Set n = processing.begin()->second;
      processing.erase(processing.begin());
      auto it = completed.begin();
      while (it != completed.end() && it->key <= n.key) ++it;
      completed.insert(it, n);
    }
  };
  auto inDispute = [&](const Arrival& a) {  // equally close to two multi-frames
    std::vector<int64_t> d;
    for (const auto& x : processing) d.push_back(std::abs(x.first - a.t - u.offset[a.c]));
    std::sort(d.begin(), d.end());
    return d.size() > 1 && d[0] == d[1] && d[0] <= tolerance;
  };
  auto sync = [&] {
    if (!waited) p.waitForAllWorkToComplete();
    waited = true;
  };
  auto counts = [&] {
    REQ_EQ(p.getNumFramesComplete(), completed.size()) << "complete multi-frames";
    REQ_EQ(p.getNumFramesProcessing(), processing.size()) << "multi-frames in progress";
  };
  auto expect = [&](const std::shared_ptr<VisualNFrame>& n, const Set& want) {
    REQ(n != nullptr) << "nothing delivered instead of " << show(want);
    const Set got = contents(u, *n, sent);
    REQ(got.serial == want.serial) << "delivered " << show(got) << " instead of " << show(want);
    ++delivered;
  };
  auto latest = [&](bool blocking) {
    std::shared_ptr<VisualNFrame> n;
    if (blocking) REQ(p.getLatestAndClearBlocking(&n)) << "not shut down";
    else n = p.getLatestAndClear();
    if (completed.empty()) {
      REQ(n == nullptr) << "delivered something";
      return;
    }
    expect(n, completed.back());
    const int64_t t = completed.back().key;
    completed.clear();
    while (!processing.empty() && processing.begin()->first <= t) processing.erase(processing.begin());
  };

  for (const Arrival& a : arrivals) {
    if (inDispute(a)) { s << "(skipped a tie)\n"; continue; }
    const bool quiet = many && s.chance(49, 50);
    const int mode = quiet ? 0 : s.i(0, 5);
    const size_t most = many ? s.i(200, 300) : s.size(1, 4);
    s << "image " << sent.size() << " camera " << a.c << " t " << a.t;
    if (mode == 1) {
      sync();
      if (completed.size() < most) {
        s << " blocking if " << most;
        receive(a);
        REQ(p.processImageBlockingIfFull(a.c, sent.back().m, a.t, most)) << "not shut down";
      } else {
        receive(a);
        p.processImage(a.c, sent.back().m, a.t);
      }
    } else if (mode == 2) {
      sync();
      s << " dropping the oldest if " << most;
      const bool full = completed.size() >= most;
      if (full) { completed.erase(completed.begin()); s.label("dropped the oldest complete"); }
      receive(a);
      REQ_EQ(p.processImageNonBlockingDroppingOldestNFrameIfFull(a.c, sent.back().m, a.t, most), full) << "dropped";
    } else {
      receive(a);
      p.processImage(a.c, sent.back().m, a.t);
    }
    s << "\n";
    waited = false;
    const int what = quiet ? 9 : s.i(0, 9);
    if (what >= 7) continue;
    if (what >= 4) {
      sync();
      counts();
      continue;
    }
    if (what == 0 && !s.chance(1, 3)) continue;
    sync();
    counts();
    if (what == 0) {
      s << "latest\n";
      latest(!completed.empty() && s.boolean());
    } else {
      s << "next\n";
      if (completed.empty()) {
        REQ(p.getNext() == nullptr) << "delivered something";
      } else {
        std::shared_ptr<VisualNFrame> n;
        if (s.boolean()) n = p.getNext();
        else REQ(p.getNextBlocking(&n)) << "not shut down";
        expect(n, completed.front());
        completed.erase(completed.begin());
      }
    }
    counts();
  }
  sync();
  counts();
  if (completed.size() > 255) s.label("more than 255 waiting");
  if (s.boolean()) {
    p.shutdown();
    std::shared_ptr<VisualNFrame> n;
    REQ(!p.getNextBlocking(&n)) << "after shutdown";
    REQ(!p.getLatestAndClearBlocking(&n)) << "after shutdown";
    REQ(!p.processImageBlockingIfFull(0, image(0), start, 100)) << "after shutdown";
  }
  while (!completed.empty()) {
    expect(p.getNext(), completed.front());
    completed.erase(completed.begin());
  }
  REQ(p.getNext() == nullptr);
  for (const Sent& x : sent) REQ(intact(x.m)) << "image " << x.serial << " changed";
  if (dropped) s.label("dropped incomplete");
  s.label(delivered >= 2 ? ">=2 delivered" : "<2 delivered");
  if (delivered >= 2 && (odd || dropped || jitters)) s.nontrivial();
}

namespace {
struct World {
  std::string error;
  void fail(const std::string& e) {
    if (error.empty()) error = e;
  }
  template <class F>
  void guarded(F f) {  // checks of the harness, atomic with respect to the schedule
    sched::NoYield ny;
    try {
      f();
    } catch (const std::exception& e) {
      fail(e.what());
    } catch (...) {
      fail("unknown exception");
    }
  }
};
}  // namespace

// Any number of workers, producers and consumers.
PBT_PROP(schedules, "several workers or cameras, at least two sets and at least 10 context switches", 6000, 120000, false, 16, true) {
  const size_t cameras = s.size(1, 3), workers = s.size(1, 3);
  // Up to three sets in flight: nothing may be dropped.
  const int sets = cameras == 1 ? s.size(1, 6) : s.size(1, 5);
  const bool may_drop = cameras > 1 && sets > 3;
  const int64_t tolerance = s.boolean() ? 0 : 100;
  const Setup u = setup(s, cameras, true);
  const int mode = s.i(0, 3);  // 0, 1: process, 2: blocking if full, 3: drop the oldest
  const size_t most = s.size(1, 3);
  const int consumers = mode == 2 ? s.i(1, 2) : s.i(0, 2), consumer_kind = s.i(0, 2);
  const bool early = s.chance(1, 4), one_producer = s.boolean();
  s << "workers " << workers << " sets " << sets << " mode " << mode << " most " << most << " consumers " << consumers << " kind " << consumer_kind
    << (early ? " early shutdown" : "") << (one_producer ? " one producer" : "") << "\n";
  std::vector<Sent> sent;
  for (int k = 0; k < sets; ++k)
    for (size_t c = 0; c < cameras; ++c) {
      const int64_t t = 5000 + k * 1000 + (tolerance ? s.range(0, tolerance) : 0);
      sent.push_back(Sent{static_cast<int>(sent.size()), c, t, image(static_cast<int>(sent.size()))});
    }
  World w;
  std::vector<std::shared_ptr<VisualNFrame>> out;
  size_t oldest_dropped = 0, refused = 0, switches = 0;
  bool latest_used = false;
  std::set<int> seen;
  auto collect = [&](const std::shared_ptr<VisualNFrame>& n) {
    w.guarded([&] {
      out.push_back(n);
      const Set x = contents(u, *n, sent);
      for (size_t c = 0; c < cameras; ++c) {
        REQ(seen.insert(x.serial[c]).second) << "image " << x.serial[c] << " delivered twice";
        REQ_EQ(x.serial[c] / cameras, x.serial[0] / cameras) << "images of different times in one multi-frame";
      }
    });
  };
  sched::run(s, [&]() {
    std::unique_ptr<VisualNPipeline> p(new VisualNPipeline(workers, u.single, u.in, u.out, tolerance));
    std::vector<std::thread> producers, takers;
    auto submit = [&](const Sent& x) {
      if (mode == 2) {
        sched::note("processImageBlockingIfFull");
        if (!p->processImageBlockingIfFull(x.camera, x.m, x.t, most)) {
          ++refused;
          if (!early) w.fail("submission refused without shutdown");
        }
      } else if (mode == 3) {
        sched::note("processImageNonBlockingDroppingOldestNFrameIfFull");
        oldest_dropped += p->processImageNonBlockingDroppingOldestNFrameIfFull(x.camera, x.m, x.t, most);
      } else {
        sched::note("processImage");
        p->processImage(x.camera, x.m, x.t);
      }
    };
    if (one_producer) {
      producers.emplace_back([&] {
        sched::nameThread("producer");
        for (const Sent& x : sent) submit(x);
      });
    } else {
      for (size_t c = 0; c < cameras; ++c)
        producers.emplace_back([&, c] {
          sched::nameThread("producer");
          for (const Sent& x : sent)
            if (x.camera == c) submit(x);
        });
    }
    bool done = false;
    for (int k = 0; k < consumers; ++k) {
      takers.emplace_back([&, k] {
        sched::nameThread("consumer");
        int polls = 0;
        while (true) {
          std::shared_ptr<VisualNFrame> n;
          if (consumer_kind == 2 && k == 0) {
            latest_used = true;
            sched::note("getLatestAndClearBlocking");
            if (!p->getLatestAndClearBlocking(&n)) break;
          } else if (consumer_kind == 1 && mode != 2) {
            sched::note("getNext");
            n = p->getNext();
            if (!n) {
              if (done || ++polls > 10) break;
              sched::yield();
              continue;
            }
          } else {
            sched::note("getNextBlocking");
            if (!p->getNextBlocking(&n)) break;
          }
          if (!n) { w.fail("returned without a multi-frame"); break; }
          collect(n);
        }
      });
    }
    if (early) {
      for (int k = 0; k < 3; ++k) sched::yield();
      sched::note("shutdown");
      p->shutdown();
    }
    for (std::thread& t : producers) {
      sched::note("join producers");
      t.join();
    }
    if (!early) {
      sched::note("waitForAllWorkToComplete");
      p->waitForAllWorkToComplete();
      sched::settle();
      if (consumers > 0 && consumer_kind != 1) {
        const size_t left = p->getNumFramesComplete();
        if (left != 0) w.fail(std::to_string(left) + " complete multi-frames left although consumers wait");
      }
      done = true;
      sched::note("shutdown");
      p->shutdown();
    }
    done = true;
    for (std::thread& t : takers) {
      sched::note("join consumers");
      t.join();
    }
    if (!early) {
      while (true) {  // in order of time
        const std::shared_ptr<VisualNFrame> n = p->getNext();
        if (!n) break;
        w.guarded([&] {
          if (consumers == 0 && !out.empty())
            REQ(out.back()->getMinTimestampNanoseconds() < n->getMinTimestampNanoseconds()) << "not the oldest first";
        });
        collect(n);
      }
      const size_t processing = p->getNumFramesProcessing();
      if (!may_drop) {
        if (!latest_used && processing != 0) w.fail(std::to_string(processing) + " multi-frames are still in progress");
        if (!latest_used && out.size() + oldest_dropped != static_cast<size_t>(sets))
          w.fail(std::to_string(out.size()) + " multi-frames delivered, " + std::to_string(oldest_dropped) + " dropped of " + std::to_string(sets));
      }
      if (mode != 3 && oldest_dropped) w.fail("dropped");
    }
    sched::note("destroy");
    p.reset();
    switches = sched::switches();
  });
  PBT_CHECK(w.error.empty(), w.error);
  for (const Sent& x : sent) REQ(intact(x.m)) << "image " << x.serial << " changed";
  s.label("mode" + std::to_string(mode) + (early ? " early shutdown" : ""));
  s.nontrivial((workers > 1 || cameras > 1) && sets > 1 && switches >= 10);
}

// Who blocks and who returns, at points where nobody else can move.
PBT_PROP(blocking, "a submission and a consumer were blocked and released", 16000, 200000, false, 16, true) {
  const size_t workers = s.size(1, 2);
  const size_t cameras = s.size(1, 2);
  const Setup u = setup(s, cameras, true);
  const int steps = s.size(2, 10);
  World w;
  std::vector<Sent> sent;
  for (int k = 0; k < 40; ++k) sent.push_back(Sent{k, 0, 1000 * k, image(k)});
  static const char* names[] = {"submit if fewer than", "submit if fewer than", "submit if fewer than", "submit several", "next blocking", "latest blocking",
                                "next", "latest", "submit dropping at"};
  std::vector<std::pair<int, size_t>> plan;
  s << "workers " << workers << "\n";
  for (int k = 0; k < steps; ++k) {
    plan.emplace_back(s.i(0, 8), s.size(1, 3));
    if (plan[k].first <= 2 && s.chance(1, 8)) plan[k].second = 0;
    s << names[plan[k].first] << " " << plan[k].second << "\n";
  }
  bool blocked_in = false, blocked_out = false;
  sched::run(s, [&]() {
    std::unique_ptr<VisualNPipeline> p(new VisualNPipeline(workers, u.single, u.in, u.out, 0));
    std::vector<std::thread> threads;
    struct Call { bool returned = false, ok = false, latest = false, in = false; size_t most = 0; };
    std::vector<std::unique_ptr<Call>> calls;
    size_t next = 0, waiting_in = 0, waiting_out = 0, complete = 0;
    auto settle = [&](const std::string& after) {
      sched::settle();
      sched::NoYield ny;
      // What must have happened: consumers and producers alternate until nobody can move.
      size_t in = 0, out = 0;
      for (const auto& c : calls) {
        if (c->returned) continue;
        ++(c->in ? in : out);
      }
      const std::string state = after + ": " + std::to_string(in) + " submissions and " + std::to_string(out) + " consumers blocked, " + std::to_string(complete) + " complete";
      const size_t have = p->getNumFramesComplete();
      for (const auto& c : calls)
        if (!c->returned && c->in && have < c->most) w.fail(state + ": a submission for less than " + std::to_string(c->most) + " is blocked although there are only " + std::to_string(have));
      if (out > 0 && have > 0) w.fail(state + ": a consumer is blocked although there are " + std::to_string(have));
      waiting_in = in;
      waiting_out = out;
      complete = have;
      blocked_in |= in > 0;
      blocked_out |= out > 0;
    };
    for (const auto& step : plan) {
      const int k = step.first;
      const size_t most = step.second;
      if (next + 3 >= sent.size()) break;
      Call* c = new Call;
      switch (k) {
        case 0:
        case 1:
        case 2: {
          calls.emplace_back(c);
          c->in = true;
          c->most = most;
          const Sent& x = sent[next++];
          const bool full = complete >= most && waiting_out == 0;
          threads.emplace_back([&, c, x, most] {
            sched::nameThread("submission");
            c->ok = p->processImageBlockingIfFull(0, x.m, x.t, most);
            if (c->ok && cameras == 2) p->processImage(1, x.m, x.t);
            c->returned = true;
          });
          settle("submission");
          if (full && c->returned) w.fail("a submission did not block although " + std::to_string(most) + " multi-frames wait");
          break;
        }
        case 3: {
          delete c;
          for (size_t i = 0; i < most; ++i, ++next)
            for (size_t cam = 0; cam < cameras; ++cam) p->processImage(cam, sent[next].m, sent[next].t);
          settle("plain submission");
          break;
        }
        case 6:
        case 7: {
          delete c;
          const std::shared_ptr<VisualNFrame> n = k == 6 ? p->getNext() : p->getLatestAndClear();
          if ((n != nullptr) != (complete > 0)) w.fail("polling with " + std::to_string(complete) + " complete");
          settle("polling");
          break;
        }
        case 8: {
          delete c;
          const Sent& x = sent[next++];
          const bool full = complete >= most;
          // With two cameras this multi-frame never completes.
          if (p->processImageNonBlockingDroppingOldestNFrameIfFull(0, x.m, x.t + (cameras == 2 ? 1000000 : 0), most) != full) w.fail("dropping with " + std::to_string(complete) + " complete");
          settle("dropping submission");
          break;
        }
        default: {
          calls.emplace_back(c);
          c->latest = k == 5;
          const bool none = complete == 0 && waiting_in == 0;
          threads.emplace_back([&, c] {
            sched::nameThread("consumer");
            std::shared_ptr<VisualNFrame> n;
            c->ok = c->latest ? p->getLatestAndClearBlocking(&n) : p->getNextBlocking(&n);
            if (c->ok && !n) w.fail("consumer returned without a multi-frame");
            c->returned = true;
          });
          settle("consumer");
          if (none && c->returned) w.fail("a consumer did not block although nothing is complete");
        }
      }
    }
    std::vector<Call*> still;
    for (const auto& c : calls)
      if (!c->returned) still.push_back(c.get());
      else if (!c->ok) w.fail("a call returned false without shutdown");
    p->shutdown();
    for (std::thread& t : threads) {
      sched::note("join after shutdown");
      t.join();
    }
    for (Call* c : still)
      if (c->ok) w.fail("a blocked call succeeded after shutdown");
    p.reset();
  });
  PBT_CHECK(w.error.empty(), w.error);
  s.nontrivial(blocked_in && blocked_out);
}
