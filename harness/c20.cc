// C20: multi-frames and feature tracks reflect exactly the frames put in.
#include <glog/logging.h>

#include <iomanip>
#include <iostream>
#include <list>

#include "pbt.h"
#include "rig_ref.h"
#include "util.h"

#include <aslam/frames/feature-track.h>
#include <aslam/frames/visual-frame.h>
#include <aslam/frames/visual-nframe.h>

const char* pbt::kProperty = "C20";
void pbt::workerInit() { FLAGS_minloglevel = 4; }

using aslam::Camera;
using aslam::NCamera;
using aslam::VisualFrame;
using aslam::VisualNFrame;
using pbt::Source;

namespace {
int64_t stamp(Source& s) {
  switch (s.draw(5)) {
    case 0: return s.range(0, 3);
    case 1: return -s.range(1, 1000);
    case 2: { const int64_t t = s.anyInt64(); return t == INT64_MIN ? INT64_MIN + 1 : t; }
    default: return s.range(0, 4000000000000ll);
  }
}

// What was put into a frame.
struct FrameModel {
  std::shared_ptr<VisualFrame> f;
  int64_t t = 0;
  bool valid = true;
  std::string id;
  Camera::ConstPtr cam;
  int keypoints = -1;  // -1: no channel
  double first = 0;
  int image = -1;
};
bool sameFrame(const FrameModel& a, const FrameModel& b, bool with_camera) {
  if (a.t != b.t || a.valid != b.valid || a.keypoints != b.keypoints || a.image != b.image) return false;
  if (a.keypoints > 0 && a.first != b.first) return false;
  if (!with_camera) return true;
  if (!a.cam != !b.cam) return false;
  return !a.cam || rref::record(*a.cam) == rref::record(*b.cam);
}
typedef std::shared_ptr<FrameModel> FramePtr;

struct Rig {
  NCamera::Ptr n;
  int content = 0;  // equal for rigs made by the same recipe
};
struct Model {
  std::string id;
  int rig = -1;
  std::vector<FramePtr> frames;
};
struct NF {
  VisualNFrame::Ptr n;
  Model m;
};

struct World {
  Source& s;
  std::vector<Rig> rigs;
  std::vector<NF> pool;
  size_t edits = 0;
  bool copied_edited = false, partial = false, shared = false;
  explicit World(Source& src) : s(src) {
    const size_t n = s.size(1, 2);
    for (size_t k = 0; k < n; ++k) {
      rref::RigSpec p = rref::rigSpec(s, s.chance(1, 10) ? 0 : 1, s.chance(1, 8) ? 12 : 4);
      Rig r;
      r.n = rref::make(p);
      r.content = static_cast<int>(k);
      rigs.push_back(r);
      if (s.chance(1, 2)) {  // equal, but other objects
        r.n = rref::make(p);
        rigs.push_back(r);
      }
    }
  }
  std::string hex() { return rref::hexId(s); }
  aslam::NFramesId nid(const std::string& h) {
    aslam::NFramesId id;
    REQ(id.fromHexString(h));
    return id;
  }
  FramePtr makeFrame(Camera::ConstPtr cam) {
    FramePtr p(new FrameModel);
    p->f.reset(new VisualFrame);
    p->cam = cam;
    p->f->setCameraGeometry(cam);
    p->t = s.chance(1, 4) && !pool.empty() ? someStamp() : stamp(s);
    p->f->setTimestampNanoseconds(p->t);
    p->id = hex();
    aslam::FrameId id;
    REQ(id.fromHexString(p->id));
    p->f->setId(id);
    setImage(p.get());
    if (s.boolean()) setKeypoints(p.get());
    return p;
  }
  int64_t someStamp() {
    const NF& n = pool[s.draw(pool.size())];
    for (const FramePtr& f : n.m.frames) if (f) return f->t;
    return 5;
  }
  void setKeypoints(FrameModel* p) {
    p->keypoints = s.chance(1, 100) ? s.i(250, 600) : s.i(0, 4);
    p->first = s.i(0, 1);
    Eigen::Matrix2Xd k = Eigen::Matrix2Xd::Constant(2, p->keypoints, p->first);
    p->f->setKeypointMeasurements(k);
    // The attributes that clearing creates.
    const Eigen::VectorXd v = Eigen::VectorXd::Zero(p->keypoints);
    p->f->setKeypointMeasurementUncertainties(v);
    p->f->setKeypointOrientations(v);
    p->f->setKeypointScores(v);
    p->f->setKeypointScales(v);
    p->f->setTrackIds(Eigen::VectorXi::Zero(p->keypoints));
    p->f->setDescriptors(VisualFrame::DescriptorsT(VisualFrame::DescriptorsT::Zero(p->keypoints ? 3 : 0, p->keypoints)));
  }
  void setImage(FrameModel* p) {
    if (s.chance(1, 3)) return;
    p->image = s.i(0, 2);
    p->f->setRawImage(cv::Mat(2, 2, CV_8UC1, cv::Scalar(p->image)));
  }

  void checkFrame(const VisualFrame& f, const FrameModel& m, const std::string& what) {
    REQ_EQ(f.getTimestampNanoseconds(), m.t) << what;
    REQ_EQ(f.isValid(), m.valid) << what;
    REQ_EQ(f.getId().hexString(), m.id) << what;
    REQ(f.getCameraGeometry() == m.cam) << what << ": camera";
    REQ_EQ(f.hasKeypointMeasurements(), m.keypoints >= 0) << what;
    REQ_EQ(static_cast<int>(f.getNumKeypointMeasurements()), static_cast<int>(std::max(m.keypoints, 0))) << what;
    for (int k = 0; k < m.keypoints; ++k) REQ_EQ(f.getKeypointMeasurement(k)(0), m.first) << what;
    REQ_EQ(f.hasRawImage(), m.image >= 0) << what;
    if (m.image >= 0) REQ_EQ(static_cast<int>(f.getRawImage().at<uint8_t>(0, 0)), m.image) << what;
  }
  void check(const NF& nf, const std::string& what) {
    const VisualNFrame& n = *nf.n;
    const Model& m = nf.m;
    REQ_EQ(n.getId().hexString(), m.id) << what;
    REQ_EQ(n.getNumFrames(), m.frames.size()) << what;
    bool all = true, images = true;
    int64_t lo = INT64_MAX, hi = INT64_MIN;
    size_t set = 0;
    for (size_t i = 0; i < m.frames.size(); ++i) {
      const FramePtr& f = m.frames[i];
      REQ_EQ(n.isFrameSet(i), static_cast<bool>(f)) << what << " frame " << i;
      REQ(n.getFrameShared(i).get() == (f ? f->f.get() : nullptr)) << what << " frame " << i;
      REQ(nf.n->getFrameShared(i).get() == (f ? f->f.get() : nullptr)) << what << " frame " << i;
      if (!f) { all = false; continue; }
      ++set;
      REQ(&n.getFrame(i) == f->f.get()) << what << " frame " << i;
      checkFrame(n.getFrame(i), *f, what + " frame " + std::to_string(i));
      REQ_EQ(n.isFrameValid(i), f->valid) << what << " frame " << i;
      images &= f->image >= 0;
      lo = std::min(lo, f->t);
      hi = std::max(hi, f->t);
    }
    REQ_EQ(n.areAllFramesSet(), all) << what;
    if (all) REQ_EQ(n.hasRawImagesInAllFrames(), images) << what;
    if (set > 0) {
      REQ_EQ(n.getMinTimestampNanoseconds(), lo) << what;
      REQ_EQ(n.getMaxTimestampNanoseconds(), hi) << what;
      if (set < m.frames.size() && lo != hi) partial = true;
    }
    if (m.rig < 0) {
      REQ(n.getNCameraShared() == nullptr) << what;
    } else {
      const NCamera& r = *rigs[m.rig].n;
      REQ(&n.getNCamera() == &r) << what << ": rig";
      REQ(n.getNCameraShared().get() == &r) << what << ": rig";
      REQ(nf.n->getNCameraShared().get() == &r) << what << ": rig";
      REQ_EQ(n.getNumCameras(), r.getNumCameras()) << what;
      for (size_t i = 0; i < r.getNumCameras(); ++i) {
        REQ(&n.getCamera(i) == &r.getCamera(i)) << what << " camera " << i;
        REQ(&n.get_T_C_B(i) == &r.get_T_C_B(i)) << what << " extrinsics " << i;
        REQ_EQ(n.getCameraId(i).hexString(), r.getCamera(i).getId().hexString()) << what;
        REQ(n.hasCameraWithId(r.getCamera(i).getId())) << what;
        REQ_EQ(n.getCameraIndex(r.getCamera(i).getId()), i) << what;
      }
      aslam::SensorId unknown;
      REQ(unknown.fromHexString("fedcba98765432100123456789abcdef"));
      REQ(!n.hasCameraWithId(unknown)) << what;
      REQ_EQ(static_cast<int>(n.getCameraIndex(unknown)), -1) << what;
    }
  }
  bool same(const Model& a, const Model& b, bool with_rig) {
    if (a.id != b.id || a.frames.size() != b.frames.size()) return false;
    if (with_rig && ((a.rig < 0) != (b.rig < 0) || (a.rig >= 0 && rigs[a.rig].content != rigs[b.rig].content))) return false;
    for (size_t i = 0; i < a.frames.size(); ++i) {
      if (!a.frames[i] != !b.frames[i]) return false;
      if (a.frames[i] && !sameFrame(*a.frames[i], *b.frames[i], with_rig)) return false;
    }
    return true;
  }
  void checkAll(const std::string& what) {
    for (size_t i = 0; i < pool.size(); ++i) check(pool[i], what + ", n-frame " + std::to_string(i));
    for (size_t i = 0; i < pool.size(); ++i)
      for (size_t j = 0; j < pool.size(); ++j) {
        const bool eq = same(pool[i].m, pool[j].m, true);
        REQ_EQ(*pool[i].n == *pool[j].n, eq) << what << ": n-frames " << i << " and " << j;
        REQ_EQ(pool[i].n->compareWithoutCameraSystem(*pool[j].n), same(pool[i].m, pool[j].m, false)) << what << ": n-frames " << i << " and " << j;
        if (eq && i != j) s.label("two equal n-frames");
      }
  }

  // The copy owns its frames.
  Model copied(const Model& from, const VisualNFrame& to, const std::string& what) {
    Model m = from;
    REQ_EQ(to.getNumFrames(), m.frames.size()) << what;
    for (size_t i = 0; i < m.frames.size(); ++i) {
      if (!m.frames[i]) continue;
      FramePtr p(new FrameModel(*m.frames[i]));
      p->f = std::const_pointer_cast<VisualFrame>(to.getFrameShared(i));
      REQ(p->f != nullptr) << what << ": frame " << i << " was not copied";
      REQ(p->f != m.frames[i]->f) << what << ": frame " << i << " is shared with the original";
      m.frames[i] = p;
    }
    return m;
  }

  void add() {
    NF n;
    switch (pool.empty() ? s.draw(4) : s.draw(9)) {
      case 0: {
        n.m.id = hex();
        n.m.rig = -1;
        n.m.frames.resize(s.chance(1, 2) ? rigs[s.draw(rigs.size())].n->getNumCameras() : s.size(0, s.chance(1, 8) ? 16 : 4));
        n.n.reset(new VisualNFrame(nid(n.m.id), static_cast<unsigned int>(n.m.frames.size())));
        s << "n-frame of " << n.m.frames.size() << " frames";
        break;
      }
      case 1: {
        n.m.id = hex();
        n.m.rig = s.draw(rigs.size());
        n.m.frames.resize(rigs[n.m.rig].n->getNumCameras());
        n.n.reset(new VisualNFrame(nid(n.m.id), rigs[n.m.rig].n));
        s << "n-frame with id for rig " << n.m.rig;
        break;
      }
      case 2: {
        n.m.rig = s.draw(rigs.size());
        n.m.frames.resize(rigs[n.m.rig].n->getNumCameras());
        n.n.reset(new VisualNFrame(rigs[n.m.rig].n));
        REQ(n.n->getId().isValid()) << "generated id";
        n.m.id = n.n->getId().hexString();
        for (const NF& o : pool) REQ(o.m.id != n.m.id) << "generated id is not new";
        s << "n-frame for rig " << n.m.rig;
        break;
      }
      case 3: {
        n.m.rig = s.draw(rigs.size());
        const int64_t t = stamp(s);
        n.n = VisualNFrame::createEmptyTestVisualNFrame(rigs[n.m.rig].n, t);
        n.m.id = n.n->getId().hexString();
        const size_t k = rigs[n.m.rig].n->getNumCameras();
        REQ_EQ(n.n->getNumFrames(), k);
        for (size_t i = 0; i < k; ++i) {
          FramePtr p(new FrameModel);
          p->f = n.n->getFrameShared(i);
          REQ(p->f != nullptr);
          p->t = t;
          p->cam = rigs[n.m.rig].n->getCameraShared(i);
          p->id = p->f->getId().hexString();
          p->keypoints = 0;
          n.m.frames.push_back(p);
          // What the other frames have too.
          setKeypoints(p.get());
        }
        s << "test n-frame for rig " << n.m.rig;
        break;
      }
      case 4: {
        const size_t a = s.draw(pool.size()), b = s.draw(pool.size());
        s << "n-frame " << a << " = n-frame " << b << "\n";
        std::vector<FramePtr> keep = pool[b].m.frames;  // the frames of the original stay alive
        const Model from = pool[b].m;
        *pool[a].n = *pool[b].n;
        if (a == b) {  // nothing changes, whether or not the frames were copied
          REQ_EQ(pool[a].n->getNumFrames(), from.frames.size()) << "after self assignment";
          for (size_t i = 0; i < from.frames.size(); ++i) {
            if (!from.frames[i]) continue;
            FramePtr p(new FrameModel(*from.frames[i]));
            p->f = pool[a].n->getFrameShared(i);
            REQ(p->f != nullptr) << "after self assignment";
            pool[a].m.frames[i] = p->f == from.frames[i]->f ? from.frames[i] : p;
          }
        } else {
          pool[a].m = copied(from, *pool[a].n, "assignment");
        }
        return;
      }
      default: {
        const size_t b = s.draw(pool.size());
        s << "copy of n-frame " << b;
        n.n.reset(new VisualNFrame(*pool[b].n));
        n.m = copied(pool[b].m, *n.n, "copy");
      }
    }
    if (pool.size() < 4) pool.push_back(n);
    else pool[s.draw(pool.size())] = n;
    s << "\n";
  }

  Camera::ConstPtr cameraFor(const Model& m, size_t i) {
    if (m.rig >= 0) return rigs[m.rig].n->getCameraShared(i);
    if (s.boolean()) return nullptr;
    const Rig& r = rigs[s.draw(rigs.size())];
    return r.n->getNumCameras() ? r.n->getCameraShared(s.draw(r.n->getNumCameras())) : nullptr;
  }

  void step() {
    if (pool.empty() || s.chance(1, 6)) return add();
    const size_t k = s.draw(pool.size());
    NF& nf = pool[k];
    Model& m = nf.m;
    s << "n-frame " << k << ": ";
    switch (s.draw(12)) {
      case 0:
      case 1:
      case 2: {
        if (m.frames.empty()) break;
        const size_t i = s.draw(m.frames.size());
        FramePtr p;
        if (s.chance(1, 5)) {  // a frame that is already used
          const NF& o = pool[s.draw(pool.size())];
          if (i < o.m.frames.size() && o.m.frames[i] && (m.rig < 0 || o.m.frames[i]->cam == rigs[m.rig].n->getCameraShared(i))) p = o.m.frames[i];
          if (p) shared = true;
        }
        if (!p) p = makeFrame(cameraFor(m, i));
        s << "set frame " << i << " t " << p->t;
        nf.n->setFrame(i, p->f);
        m.frames[i] = p;
        break;
      }
      case 3: {
        if (m.frames.empty()) break;
        const size_t i = s.draw(m.frames.size());
        s << "unset frame " << i;
        nf.n->unSetFrame(i);
        m.frames[i].reset();
        break;
      }
      case 4: {
        const size_t r = s.draw(rigs.size());
        if (rigs[r].n->getNumCameras() != m.frames.size()) break;
        s << "rig " << r;
        nf.n->setNCameras(rigs[r].n);
        m.rig = static_cast<int>(r);
        for (size_t i = 0; i < m.frames.size(); ++i) if (m.frames[i]) m.frames[i]->cam = rigs[r].n->getCameraShared(i);
        break;
      }
      case 5: {
        m.id = s.boolean() ? pool[s.draw(pool.size())].m.id : hex();
        s << "id " << m.id;
        nf.n->setId(nid(m.id));
        break;
      }
      case 6: {
        bool ready = true;
        for (const FramePtr& f : m.frames) ready &= f != nullptr;
        for (size_t i = 0; i < m.frames.size(); ++i)  // each frame only once
          for (size_t j = 0; j < i; ++j) ready &= m.frames[i] != m.frames[j];
        if (!ready) break;
        if (s.boolean()) {
          for (const FramePtr& f : m.frames) ready &= f->image >= 0;
          if (!ready) break;
          s << "release images";
          nf.n->releaseRawImagesOfAllFrames();
          for (const FramePtr& f : m.frames) f->image = -1;
        } else {
          s << "clear keypoints";
          nf.n->clearKeypointChannelsOfAllFrames();
          for (const FramePtr& f : m.frames) f->keypoints = 0;
        }
        break;
      }
      case 7: {
        // Refused: not the camera of the rig at that index.
        if (m.rig < 0 || m.frames.empty() || !s.chance(1, 4)) break;
        const size_t i = s.draw(m.frames.size());
        Camera::ConstPtr other;
        for (const Rig& r : rigs)
          for (size_t c = 0; c < r.n->getNumCameras(); ++c)
            if (!other && rref::record(r.n->getCamera(c)) != rref::record(rigs[m.rig].n->getCamera(i)) && s.boolean()) other = r.n->getCameraShared(c);
        FramePtr p = makeFrame(other);
        s << "set frame " << i << " with another camera";
        const pbt::Fate fate = pbt::fateOf([&] { nf.n->setFrame(i, p->f); });
        REQ(fate != pbt::Fate::kReturned) << "a frame of another camera was accepted";
        s.label("refused frame");
        break;
      }
      default: {
        if (m.frames.empty()) break;
        const size_t i = s.draw(m.frames.size());
        if (!m.frames[i]) break;
        FrameModel* p = m.frames[i].get();
        VisualFrame* f = nf.n->getFrameShared(i).get();
        s << "edit frame " << i;
        switch (s.draw(4)) {
          case 0: p->t = stamp(s); f->setTimestampNanoseconds(p->t); break;
          case 1: p->valid = !p->valid; f->setValid(p->valid); break;
          case 2: setKeypoints(p); break;
          default: setImage(p);
        }
        copied_edited = true;
      }
    }
    s << "\n";
    ++edits;
  }
};
}  // namespace

PBT_PROP(nframes, "at least 8 edits with a partly set n-frame with several timestamps, or a shared frame, and an edited frame", 40000, 1500000) {
  World w(s);
  for (size_t k = s.size(1, 40); k > 0; --k) {
    w.step();
    if (s.chance(1, 3)) w.checkAll("after a step");
  }
  w.checkAll("at the end");
  if (w.partial) s.label("partly set");
  if (w.shared) s.label("shared frame");
  if (w.edits >= 8 && w.copied_edited && (w.partial || w.shared)) s.nontrivial();
}

namespace {
double coordinate(Source& s) {
  switch (s.draw(6)) {
    case 0: return -s.real(0, 1000);
    case 1: return s.i(-2, 2);
    case 2: return -s.logReal(1e-9, 1e9);
    default: return s.real(0, 2000);
  }
}
}  // namespace

PBT_PROP(tracks, "the track spans several frames with a bounding box away from the origin", 40000, 2000000) {
  rref::RigSpec p = rref::rigSpec(s, 1, 3);
  NCamera::Ptr rig = rref::make(p);
  const size_t cams = rig->getNumCameras();
  struct Frame {
    VisualNFrame::Ptr n;
    std::vector<Eigen::Matrix2Xd> kp;
    std::vector<VisualFrame::DescriptorsT> d;
  };
  // Coordinates of one sign are of interest.
  const int mode = s.i(0, 3);
  const bool big = s.chance(1, 150);  // more than one byte counts
  std::vector<Frame> frames(s.size(1, 5));
  for (Frame& f : frames) {
    f.n.reset(new VisualNFrame(rig));
    for (size_t c = 0; c < cams; ++c) {
      Eigen::Matrix2Xd kp(2, big && s.boolean() ? s.i(250, 700) : s.size(1, 4));
      for (int i = 0; i < kp.size(); ++i) {
        if (i >= 16) {
          kp.data()[i] = 1.0625 * kp.data()[i - 16] + (mode == 1 ? -1 : mode == 3 ? 1 : 0) * (i % 5);
          continue;
        }
        const double v = coordinate(s);
        kp.data()[i] = mode == 0 ? v : mode == 1 ? -std::abs(v) : mode == 2 ? (i % 2 ? -std::abs(v) : v) : std::abs(v);
      }
      VisualFrame::DescriptorsT d(2, kp.cols());
      for (int i = 0; i < d.size(); ++i) d.data()[i] = static_cast<unsigned char>(i < 16 ? s.bits() : 37 * i + i / 256);
      VisualFrame::Ptr vf(new VisualFrame);
      vf->setCameraGeometry(rig->getCameraShared(c));
      vf->setTimestampNanoseconds(s.range(0, 1000));
      aslam::FrameId id;
      REQ(id.fromHexString(rref::hexId(s)));
      vf->setId(id);
      vf->setKeypointMeasurements(kp);
      vf->setDescriptors(d);
      f.n->setFrame(c, vf);
      f.kp.push_back(kp);
      f.d.push_back(d);
    }
  }
  struct Obs { size_t f, c, k; };
  std::vector<Obs> want;
  const size_t id = s.boolean() ? s.size(0, 100) : s.bits();
  aslam::FeatureTrack t = s.boolean() ? aslam::FeatureTrack(id) : aslam::FeatureTrack(id, s.size(0, 80));
  REQ(!t.hasObservations());
  REQ_EQ(t.getTrackLength(), 0u);
  const size_t steps = big ? s.i(12, 400) : s.size(1, 12);
  for (size_t n = 0; n < steps; ++n) {
    if (steps > 12 && n + 12 < steps) {  // not all of a long history is looked at
      Obs o;
      o.f = (7 * n) % frames.size();
      o.c = (5 * n) % cams;
      o.k = (11 * n) % frames[o.f].kp[o.c].cols();
      t.addKeypointObservationAtBack(frames[o.f].n, o.c, o.k);
      want.push_back(o);
      continue;
    }
    if (!want.empty() && s.chance(1, 5)) {
      t.popLastKeypointIdentifier();
      want.pop_back();
      s << "pop\n";
    } else {
      Obs o;
      o.f = s.draw(frames.size());
      o.c = s.draw(cams);
      o.k = s.draw(frames[o.f].kp[o.c].cols());
      t.addKeypointObservationAtBack(frames[o.f].n, o.c, o.k);
      want.push_back(o);
      s << "add " << o.f << "/" << o.c << "/" << o.k << " (" << frames[o.f].kp[o.c].col(o.k).transpose() << ")\n";
    }
    const aslam::FeatureTrack copy = t;
    for (const aslam::FeatureTrack* q : {static_cast<const aslam::FeatureTrack*>(&t), &copy}) {
      REQ_EQ(q->getTrackId(), id);
      REQ_EQ(q->getTrackLength(), want.size());
      REQ_EQ(q->hasObservations(), !want.empty());
      REQ_EQ(q->getKeypointIdentifiers().size(), want.size());
      for (size_t i = 0; i < want.size(); ++i) {
        const aslam::KeypointIdentifier& k = q->getKeypointIdentifiers()[i];
        const Frame& f = frames[want[i].f];
        REQ_EQ(k.getFrameIndex(), want[i].c) << "observation " << i;
        REQ_EQ(k.getKeypointIndex(), want[i].k) << "observation " << i;
        REQ(&k.getNFrame() == f.n.get()) << "observation " << i;
        REQ_EQ(k.getNFrameId(), f.n->getId()) << "observation " << i;
        REQ(&k.getFrame() == &f.n->getFrame(want[i].c)) << "observation " << i;
        REQ_EQ(k.getFrameId(), f.n->getFrame(want[i].c).getId()) << "observation " << i;
        REQ(Eigen::Vector2d(k.getKeypointMeasurement()) == Eigen::Vector2d(f.kp[want[i].c].col(want[i].k))) << "observation " << i;
        for (int b = 0; b < 2; ++b) REQ_EQ(static_cast<int>(k.getDescriptor()[b]), static_cast<int>(f.d[want[i].c](b, want[i].k))) << "observation " << i;
        REQ(k.getCamera().get() == &rig->getCamera(want[i].c)) << "observation " << i;
        REQ(&k.getNCamera() == rig.get()) << "observation " << i;
        REQ(&k.get_T_C_B() == &rig->get_T_C_B(want[i].c)) << "observation " << i;
      }
      if (want.empty()) continue;
      REQ_EQ(q->getFirstKeypointIdentifier().getKeypointIndex(), want.front().k);
      REQ(&q->getFirstKeypointIdentifier().getNFrame() == frames[want.front().f].n.get());
      REQ_EQ(q->getFirstKeypointIdentifier().getFrameIndex(), want.front().c);
      REQ_EQ(q->getLastKeypointIdentifier().getKeypointIndex(), want.back().k);
      REQ(&q->getLastKeypointIdentifier().getNFrame() == frames[want.back().f].n.get());
      REQ_EQ(q->getLastKeypointIdentifier().getFrameIndex(), want.back().c);
      long double ext = 0;
      Eigen::Vector2d nearest;
      for (int d = 0; d < 2; ++d) {
        long double lo = INFINITY, hi = -INFINITY;
        for (const Obs& o : want) {
          lo = std::min<long double>(lo, frames[o.f].kp[o.c](d, o.k));
          hi = std::max<long double>(hi, frames[o.f].kp[o.c](d, o.k));
        }
        ext += (hi - lo) * (hi - lo);
        if (hi < 0 || lo > 0) nearest(d) = 1; else nearest(d) = 0;
        if (hi < 0) s.label("negative coordinates");
      }
      REQ(closeTo(q->getDiagonalSqOfDisparityBoundingBox(), static_cast<double>(ext), 1e-12, 0)) << "extent " << q->getDiagonalSqOfDisparityBoundingBox() << " instead of "
                                                                                                  << static_cast<double>(ext);
      if (want.size() > 2 && want.front().f != want.back().f && nearest.norm() > 0) s.nontrivial();
    }
    // Ordered by length.
    aslam::FeatureTrack other(1);
    const size_t len = s.size(0, 4);
    for (size_t k = 0; k < len; ++k) other.addKeypointObservationAtBack(frames[0].n, 0, 0);
    REQ_EQ(t < other, want.size() < len);
    REQ_EQ(t > other, want.size() > len);
    REQ_EQ(other < t, len < want.size());
  }
  if (!want.empty()) {
    const int a = s.i(0, 5), b = s.i(0, 5);
    const aslam::ContinuedFeatureTrack x(a, t.getFirstKeypointIdentifier()), y(b, t.getLastKeypointIdentifier());
    REQ_EQ(x.track_id, a);
    REQ_EQ(x < y, a < b);
    REQ_EQ(x > y, a > b);
    REQ_EQ(x.keypoint_identifier.getKeypointIndex(), want.front().k);
    REQ_EQ(y.keypoint_identifier.getKeypointIndex(), want.back().k);
    // The observations keep their frames alive.
    const Eigen::Vector2d last = frames[want.back().f].kp[want.back().c].col(want.back().k);
    for (Frame& f : frames) f.n.reset();
    REQ(Eigen::Vector2d(t.getLastKeypointIdentifier().getKeypointMeasurement()) == last);
  }
}
