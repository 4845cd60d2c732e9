// C19: frames keep per-keypoint data aligned through every edit.
#include <glog/logging.h>

#include <functional>
#include <map>

#include "camera_ref.h"
#include "pbt.h"
#include "rig_ref.h"
#include "util.h"

#include <aslam/frames/visual-frame.h>

const char* pbt::kProperty = "C19";
void pbt::workerInit() { FLAGS_minloglevel = 3; }

using aslam::VisualFrame;
using pbt::Source;
typedef VisualFrame::DescriptorsT Desc;

namespace {
template <typename V>
struct Opt {
  bool has = false;
  V v;
};
template <typename M>
bool sameM(const M& a, const M& b) {
  if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
  for (int i = 0; i < a.rows(); ++i)
    for (int j = 0; j < a.cols(); ++j)
      if (!(a(i, j) == b(i, j))) return false;
  return true;
}
template <typename V>
bool sameOpt(const Opt<V>& a, const Opt<V>& b) { return a.has == b.has && (!a.has || sameM(a.v, b.v)); }

struct Block {
  int type;
  Desc d;
};

struct Model {
  int64_t t = -1;
  std::string id;
  bool valid = true;
  aslam::Camera::ConstPtr cam, raw;
  Opt<Eigen::Matrix2Xd> kp;
  Opt<Eigen::Matrix3Xd> p3;
  Opt<Eigen::VectorXd> d[4];   // uncertainties, orientations, scores, scales
  Opt<Eigen::VectorXi> i[2];   // time offsets, track ids
  bool has_desc = false;
  std::vector<Block> blocks;
  bool has_img = false;
  cv::Mat img;
  std::map<std::string, Eigen::VectorXi> text;
  std::map<std::string, Eigen::VectorXd> extra;

  size_t n() const { return kp.has ? kp.v.cols() : 0; }
};
bool sameImage(const cv::Mat& a, const cv::Mat& b) {
  if (a.empty() && b.empty()) return true;
  return a.size() == b.size() && a.type() == b.type() && cv::norm(a.reshape(1), b.reshape(1), cv::NORM_INF) == 0;
}
bool sameStored(const Model& a, const Model& b, bool with_camera) {
  if (a.t != b.t || a.valid != b.valid) return false;
  if (with_camera) {
    if (!a.cam != !b.cam) return false;
    if (a.cam && rref::record(*a.cam) != rref::record(*b.cam)) return false;
  }
  if (!sameOpt(a.kp, b.kp) || !sameOpt(a.p3, b.p3)) return false;
  for (int k = 0; k < 4; ++k) if (!sameOpt(a.d[k], b.d[k])) return false;
  for (int k = 0; k < 2; ++k) if (!sameOpt(a.i[k], b.i[k])) return false;
  if (a.has_desc != b.has_desc || a.blocks.size() != b.blocks.size()) return false;
  for (size_t k = 0; k < a.blocks.size(); ++k)
    if (a.blocks[k].type != b.blocks[k].type || !sameM(a.blocks[k].d, b.blocks[k].d)) return false;
  if (a.has_img != b.has_img || (a.has_img && !sameImage(a.img, b.img))) return false;
  if (a.text.size() != b.text.size() || a.extra.size() != b.extra.size()) return false;
  for (const auto& e : a.text) {
    auto it = b.text.find(e.first);
    if (it == b.text.end() || !sameM(it->second, e.second)) return false;
  }
  for (const auto& e : a.extra) {
    auto it = b.extra.find(e.first);
    if (it == b.extra.end() || !sameM(it->second, e.second)) return false;
  }
  return true;
}

// One attribute of the public interface.
template <typename V, typename S, typename OfType>
struct Attribute {
  const char* name;
  bool (VisualFrame::*has)() const;
  const V& (VisualFrame::*get)() const;
  V* (VisualFrame::*mut)();
  void (VisualFrame::*set)(const V&);
  void (VisualFrame::*swap)(V*);
  void (VisualFrame::*extend)(const V&, S);
  std::function<void(VisualFrame*, const V&)> extendDefault;
  S default_value;
  S (VisualFrame::*at)(size_t) const;
  OfType (VisualFrame::*ofType)(int) const;
  S (VisualFrame::*atOfType)(size_t, int) const;
};
typedef Attribute<Eigen::VectorXd, double, const Eigen::VectorBlock<const Eigen::VectorXd>> AttrD;
typedef Attribute<Eigen::VectorXi, int, const Eigen::VectorBlock<const Eigen::VectorXi>> AttrI;
#define ATTR(NAME, SING, V, DEF)                                                                                            \
  {#NAME, &VisualFrame::has##NAME, &VisualFrame::get##NAME, &VisualFrame::get##NAME##Mutable, &VisualFrame::set##NAME,      \
   &VisualFrame::swap##NAME, &VisualFrame::extend##NAME, [](VisualFrame* f, const V& v) { f->extend##NAME(v); }, DEF,       \
   &VisualFrame::get##SING, &VisualFrame::get##NAME##OfType, &VisualFrame::get##SING##OfType}
const AttrD kD[4] = {ATTR(KeypointMeasurementUncertainties, KeypointMeasurementUncertainty, Eigen::VectorXd, 0.0),
                     ATTR(KeypointOrientations, KeypointOrientation, Eigen::VectorXd, 0.0),
                     ATTR(KeypointScores, KeypointScore, Eigen::VectorXd, 0.0), ATTR(KeypointScales, KeypointScale, Eigen::VectorXd, 0.0)};
const AttrI kI[2] = {ATTR(KeypointTimeOffsets, KeypointTimeOffset, Eigen::VectorXi, -1), ATTR(TrackIds, TrackId, Eigen::VectorXi, -1)};

struct Frame {
  std::shared_ptr<VisualFrame> f;
  Model m;
};

double value(Source& s) {
  switch (s.draw(4)) {
    case 0: return 0;
    case 1: return s.i(-3, 3);
    case 2: return s.finiteDouble();
    default: return s.sreal(1000);
  }
}
// Values of large frames are not drawn one by one.
struct Cheap {
  uint64_t x;
  explicit Cheap(uint64_t seed) : x(seed) {}
  uint64_t next() { x = x * 6364136223846793005ull + 1442695040888963407ull; return x >> 33; }
};
constexpr int kMany = 60;
template <typename V>
void fill(Source& s, V* v) {
  if (v->cols() > kMany || v->rows() > kMany) {
    Cheap c(s.bits());
    for (int j = 0; j < v->cols(); ++j)
      for (int i = 0; i < v->rows(); ++i) (*v)(i, j) = static_cast<double>(c.next() % 4096) / 8;
    return;
  }
  for (int i = 0; i < v->rows(); ++i)
    for (int j = 0; j < v->cols(); ++j) (*v)(i, j) = value(s);
}
int intValue(Source& s) {
  switch (s.draw(4)) {
    case 0: return -1;
    case 1: return s.i(0, 5);
    case 2: return static_cast<int32_t>(s.bits());
    default: return s.i(-2, 2000);
  }
}
void fill(Source& s, Eigen::VectorXi* v) {
  if (v->size() > kMany) {
    Cheap c(s.bits());
    const uint64_t den = 2 + s.draw(6);
    for (int i = 0; i < v->size(); ++i) (*v)(i) = c.next() % den == 0 ? -1 : static_cast<int>(c.next() % 100000);
    return;
  }
  for (int i = 0; i < v->size(); ++i) (*v)(i) = intValue(s);
}

struct World {
  Source& s;
  std::vector<Frame> frames;
  std::vector<aslam::Camera::ConstPtr> cams;
  size_t edits = 0;
  bool extended = false, typed = false;
  bool big = false;  // frames with more keypoints than fit into a byte
  explicit World(Source& src) : s(src) {
    big = s.chance(1, 80);
    if (big) s.label("more than 255 keypoints");
    const size_t n = s.size(1, 3);
    for (size_t i = 0; i < n; ++i) cams.push_back(rref::make(rref::cameraSpec(s)));
    cams.push_back(aslam::Camera::ConstPtr(cams[0]->clone()));  // equal by content only
    cams.push_back(nullptr);
  }

  size_t length(const Model& m) { return m.kp.has && !s.chance(1, 8) ? m.n() : few(7); }
  size_t few(int most) { return big && s.chance(3, 4) ? s.oneOf<int>({128, 200, 255, 256, 257, 300}) : s.size(0, most); }
  Desc desc(size_t n) {
    Desc d(s.chance(1, 10) ? 0 : s.size(1, 9), n);
    if (n > static_cast<size_t>(kMany)) {
      Cheap c(s.bits());
      for (int i = 0; i < d.size(); ++i) d.data()[i] = static_cast<unsigned char>(c.next());
      return d;
    }
    for (int i = 0; i < d.size(); ++i) d.data()[i] = static_cast<unsigned char>(s.bits());
    return d;
  }
  int typeNotIn(const Model& m, int keep_block = -1) {
    int t = s.chance(1, 5) ? static_cast<int32_t>(s.bits()) : s.i(0, 4);
    for (;;) {
      bool used = false;
      for (size_t b = 0; b < m.blocks.size(); ++b) used |= static_cast<int>(b) != keep_block && m.blocks[b].type == t;
      if (!used) return t;
      t = t == INT32_MAX ? 0 : t + 1;
    }
  }

  void check(const Frame& fr, const std::string& what) {
    const VisualFrame& f = *fr.f;
    const Model& m = fr.m;
    REQ_EQ(f.getTimestampNanoseconds(), m.t) << what;
    REQ_EQ(f.getId().hexString(), m.id) << what;
    REQ_EQ(f.isValid(), m.valid) << what;
    REQ(f.getCameraGeometry() == m.cam) << what;
    REQ(f.getRawCameraGeometry() == m.raw) << what;
    REQ_EQ(f.hasKeypointMeasurements(), m.kp.has) << what;
    REQ_EQ(f.getNumKeypointMeasurements(), m.n()) << what;
    if (m.kp.has) {
      REQ(sameM(f.getKeypointMeasurements(), m.kp.v)) << what << " keypoints\n" << f.getKeypointMeasurements() << "\nwanted\n" << m.kp.v;
      for (int k = 0; k < m.kp.v.cols(); ++k) REQ(sameM(Eigen::Vector2d(f.getKeypointMeasurement(k)), Eigen::Vector2d(m.kp.v.col(k)))) << what << k;
    }
    REQ_EQ(f.hasKeypoint3DPositions(), m.p3.has) << what;
    if (m.p3.has) {
      REQ(sameM(f.getKeypoint3DPositions(), m.p3.v)) << what << " 3d positions\n" << f.getKeypoint3DPositions() << "\nwanted\n" << m.p3.v;
      for (int k = 0; k < m.p3.v.cols(); ++k) REQ(sameM(Eigen::Vector3d(f.getKeypoint3DPosition(k)), Eigen::Vector3d(m.p3.v.col(k)))) << what << k;
    }
    for (int a = 0; a < 4; ++a) checkVector(f, kD[a], m.d[a], what);
    for (int a = 0; a < 2; ++a) checkVector(f, kI[a], m.i[a], what);
    REQ_EQ(f.hasDescriptors(), m.has_desc) << what;
    size_t total = 0;
    for (const Block& b : m.blocks) total += b.d.cols();
    REQ_EQ(f.getNumDescriptors(), total) << what;
    if (m.has_desc) {
      REQ_EQ(f.getDescriptorTypes().size(), static_cast<int>(m.blocks.size())) << what;
      size_t start = 0;
      for (size_t b = 0; b < m.blocks.size(); ++b) {
        const Block& blk = m.blocks[b];
        const size_t size = blk.d.cols();
        REQ_EQ(f.getDescriptorTypes()(b), blk.type) << what;
        REQ_EQ(f.getDescriptorBlockType(b), blk.type) << what;
        REQ(sameM(f.getDescriptors(b), blk.d)) << what << " descriptors of block " << b;
        REQ(sameM(f.getDescriptorsOfType(blk.type), blk.d)) << what << " descriptors of type " << blk.type;
        REQ_EQ(f.getDescriptorSizeBytes(b), static_cast<size_t>(blk.d.rows())) << what;
        REQ_EQ(f.getDescriptorTypeSizeBytes(blk.type), static_cast<size_t>(blk.d.rows())) << what;
        REQ_EQ(f.getDescriptorTypeBlock(blk.type), b) << what;
        REQ(f.hasDescriptorType(blk.type)) << what;
        size_t fs = 77, fn = 77;
        f.getDescriptorBlockTypeStartAndSize(blk.type, &fs, &fn);
        REQ_EQ(fs, start) << what;
        REQ_EQ(fn, size) << what;
        for (size_t k = 0; k < size; ++k) {
          REQ_EQ(f.getDescriptorType(start + k), blk.type) << what << " keypoint " << start + k;
          if (blk.d.rows() > 0) {
            const unsigned char* p = f.getDescriptor(start + k);
            for (int r = 0; r < blk.d.rows(); ++r) REQ_EQ(static_cast<int>(p[r]), static_cast<int>(blk.d(r, k))) << what << " descriptor " << start + k;
          }
        }
        REQ_EQ(f.getNumKeypointMeasurementsOfType(blk.type), m.kp.has ? size : 0u) << what;
        if (m.kp.has && start + size <= m.n()) {
          typed |= b > 0 && size > 0;
          REQ(sameM(Eigen::Matrix2Xd(f.getKeypointMeasurementsOfType(blk.type)), Eigen::Matrix2Xd(m.kp.v.middleCols(start, size)))) << what << " type " << blk.type;
          for (size_t k = 0; k < size; ++k)
            REQ(sameM(Eigen::Vector2d(f.getKeypointMeasurementOfType(k, blk.type)), Eigen::Vector2d(m.kp.v.col(start + k)))) << what << " type " << blk.type;
        }
        if (m.p3.has && start + size <= static_cast<size_t>(m.p3.v.cols())) {
          REQ(sameM(Eigen::Matrix3Xd(f.getKeypoint3DPositionsOfType(blk.type)), Eigen::Matrix3Xd(m.p3.v.middleCols(start, size)))) << what << " type " << blk.type;
          for (size_t k = 0; k < size; ++k)
            REQ(sameM(Eigen::Vector3d(f.getKeypoint3DPositionOfType(k, blk.type)), Eigen::Vector3d(m.p3.v.col(start + k)))) << what << " type " << blk.type;
        }
        for (int a = 0; a < 4; ++a) checkVectorOfType(f, kD[a], m.d[a], blk.type, start, size, what);
        for (int a = 0; a < 2; ++a) checkVectorOfType(f, kI[a], m.i[a], blk.type, start, size, what);
        start += size;
      }
    }
    const int absent = typeNotIn(m);
    REQ(!f.hasDescriptorType(absent)) << what << " type " << absent;
    REQ_EQ(f.getNumKeypointMeasurementsOfType(absent), 0u) << what;
    REQ_EQ(f.hasRawImage(), m.has_img) << what;
    if (m.has_img) REQ(sameImage(f.getRawImage(), m.img)) << what << " raw image";
    for (const char* name : {"text_a", "text_b"}) {
      auto it = m.text.find(name);
      REQ_EQ(f.hasChannel(name), it != m.text.end()) << what << name;
      if (it != m.text.end()) REQ(sameM(f.getChannelData<Eigen::VectorXi>(name), it->second)) << what << name;
    }
    for (const char* name : {"extra_a", "extra_b"}) {
      auto it = m.extra.find(name);
      REQ_EQ(f.hasChannel(name), it != m.extra.end()) << what << name;
      if (it != m.extra.end()) REQ(sameM(f.getChannelData<Eigen::VectorXd>(name), it->second)) << what << name;
    }
    REQ(f == f) << what << ": not equal to itself";
  }
  template <typename A, typename V>
  void checkVector(const VisualFrame& f, const A& a, const Opt<V>& m, const std::string& what) {
    REQ_EQ((f.*a.has)(), m.has) << what << a.name;
    if (!m.has) return;
    const V& got = (f.*a.get)();
    REQ(sameM(got, m.v)) << what << " " << a.name << ": " << got.transpose() << " wanted " << m.v.transpose();
    for (int k = 0; k < m.v.size(); ++k) REQ_EQ((f.*a.at)(k), m.v(k)) << what << " " << a.name << " of keypoint " << k;
  }
  template <typename A, typename V>
  void checkVectorOfType(const VisualFrame& f, const A& a, const Opt<V>& m, int type, size_t start, size_t size, const std::string& what) {
    if (!m.has || start + size > static_cast<size_t>(m.v.size())) return;
    REQ(sameM(V((f.*a.ofType)(type)), V(m.v.segment(start, size)))) << what << " " << a.name << " of type " << type;
    for (size_t k = 0; k < size; ++k) REQ_EQ((f.*a.atOfType)(k, type), m.v(start + k)) << what << " " << a.name << " " << k << " of type " << type;
  }

  void checkPairs(const std::string& what) {
    for (size_t i = 0; i < frames.size(); ++i)
      for (size_t j = 0; j < frames.size(); ++j) {
        const bool same = sameStored(frames[i].m, frames[j].m, true);
        REQ_EQ(*frames[i].f == *frames[j].f, same) << what << ": frames " << i << " and " << j;
        REQ_EQ(frames[i].f->compareWithoutCameraGeometry(*frames[j].f), sameStored(frames[i].m, frames[j].m, false)) << what << ": frames " << i << " and " << j;
        if (i != j && same) s.label("two equal frames");
      }
  }

  // ---- operations -----------------------------------------------------------
  template <typename A, typename V>
  void vectorOp(Frame* fr, const A& a, Opt<V>* m) {
    VisualFrame& f = *fr->f;
    switch (s.draw(5)) {
      case 0: {
        V v(length(fr->m));
        fill(s, &v);
        s << "set " << a.name << " [" << v.transpose() << "]\n";
        (f.*a.set)(v);
        m->has = true;
        m->v = v;
        break;
      }
      case 1: {
        V v(length(fr->m));
        fill(s, &v);
        s << "swap " << a.name << " [" << v.transpose() << "]\n";
        V w = v;
        (f.*a.swap)(&w);
        REQ(sameM(w, m->has ? m->v : V())) << a.name << " swapped out " << w.transpose();
        m->has = true;
        m->v = v;
        break;
      }
      case 2: {
        if (!m->has) return;
        V* p = (f.*a.mut)();
        REQ(p == &(f.*a.get)());
        if (p->size() == 0) return;
        const size_t k = s.draw(p->size());
        (*p)(k) = a.default_value + 5;
        m->v(k) = a.default_value + 5;
        s << "edit " << a.name << " of " << k << "\n";
        break;
      }
      default: {
        const size_t old = m->has ? m->v.size() : 0, n = fr->m.n();
        if (old > n) return;
        V v(s.size(0, n - old));
        fill(s, &v);
        const bool with = s.boolean();
        typename V::Scalar def = a.default_value;
        if (with) def = s.i(-9, 9);
        s << "extend " << a.name << " [" << v.transpose() << "]" << (with ? " default " + std::to_string(def) : std::string()) << "\n";
        if (with) (f.*a.extend)(v, def);
        else a.extendDefault(&f, v);
        V r(n);
        for (size_t k = 0; k < n; ++k) r(k) = k < old ? m->v(k) : k < n - v.size() ? def : v(k - (n - v.size()));
        if (old > 0 && v.size() > 0) extended = true;
        m->has = true;
        m->v = r;
      }
    }
  }
  // Keypoints and 3d positions.
  template <int N, typename Get>
  void matrixEdit(Opt<Eigen::Matrix<double, N, Eigen::Dynamic>>* m, Get mut) {
    if (!m->has || m->v.cols() == 0) return;
    const size_t k = s.draw(m->v.cols());
    const double v = value(s);
    (*mut())(N - 1, k) = v;
    m->v(N - 1, k) = v;
    s << "edit a coordinate of keypoint " << k << "\n";
  }
  void keypointOp(Frame* fr) {
    VisualFrame& f = *fr->f;
    Model& m = fr->m;
    Eigen::Matrix2Xd v(2, few(7));
    fill(s, &v);
    switch (s.draw(4)) {
      case 0:
        s << "set " << v.cols() << " keypoints\n";
        f.setKeypointMeasurements(v);
        m.kp.has = true;
        m.kp.v = v;
        break;
      case 1: {
        s << "swap in " << v.cols() << " keypoints\n";
        Eigen::Matrix2Xd w = v;
        f.swapKeypointMeasurements(&w);
        REQ(sameM(w, m.kp.has ? m.kp.v : Eigen::Matrix2Xd(2, 0))) << "swapped out\n" << w;
        m.kp.has = true;
        m.kp.v = v;
        break;
      }
      case 2: matrixEdit<2>(&m.kp, [&] { return f.getKeypointMeasurementsMutable(); }); break;
      default: {
        s << "extend by " << v.cols() << " keypoints\n";
        f.extendKeypointMeasurements(v);
        Eigen::Matrix2Xd r(2, m.n() + v.cols());
        if (m.n()) r.leftCols(m.n()) = m.kp.v;
        r.rightCols(v.cols()) = v;
        m.kp.has = true;
        m.kp.v = r;
        // Feature types are extended together: descriptors follow the keypoints.
        if (m.has_desc && s.chance(2, 3)) extendDescriptors(fr, v.cols());
      }
    }
  }
  void positionOp(Frame* fr) {
    VisualFrame& f = *fr->f;
    Model& m = fr->m;
    switch (s.draw(4)) {
      case 0:
      case 1: {
        Eigen::Matrix3Xd v(3, length(m)), w;
        fill(s, &v);
        w = v;
        if (s.boolean()) {
          s << "set 3d positions of " << v.cols() << "\n";
          f.setKeypoint3DPositions(v);
        } else {
          s << "swap 3d positions of " << v.cols() << "\n";
          f.swapKeypoint3DPositions(&w);
          REQ(sameM(w, m.p3.has ? m.p3.v : Eigen::Matrix3Xd(3, 0))) << "swapped out\n" << w;
        }
        m.p3.has = true;
        m.p3.v = v;
        break;
      }
      case 2: matrixEdit<3>(&m.p3, [&] { return f.getKeypoint3DPositionsMutable(); }); break;
      default: {
        const size_t old = m.p3.has ? m.p3.v.cols() : 0, n = m.n();
        if (old > n) return;
        Eigen::Matrix3Xd v(3, s.size(0, n - old)), r(3, n);
        fill(s, &v);
        double def = 0;
        s << "extend 3d positions by " << v.cols() << "\n";
        if (s.boolean()) {
          def = s.i(-9, 9);
          f.extendKeypoint3DPositions(v, def);
        } else {
          f.extendKeypoint3DPositions(v);
        }
        r.setConstant(def);
        if (old) r.leftCols(old) = m.p3.v;
        r.rightCols(v.cols()) = v;
        if (old > 0 && v.cols() > 0) extended = true;
        m.p3.has = true;
        m.p3.v = r;
      }
    }
  }
  void extendDescriptors(Frame* fr, size_t n) {
    VisualFrame& f = *fr->f;
    Model& m = fr->m;
    Block b;
    b.type = typeNotIn(m);
    b.d = desc(n);
    s << "extend " << n << " descriptors of type " << b.type << " and " << b.d.rows() << " bytes\n";
    if (b.type == 0 && s.boolean()) f.extendDescriptors(b.d);
    else if (s.boolean()) f.extendDescriptors(b.d, b.type);
    else f.extendDescriptors(Eigen::Map<const Desc>(b.d.data(), b.d.rows(), b.d.cols()), b.type);
    m.has_desc = true;
    m.blocks.push_back(b);
  }
  void descriptorOp(Frame* fr) {
    VisualFrame& f = *fr->f;
    Model& m = fr->m;
    const size_t block = m.blocks.empty() ? 0 : s.draw(m.blocks.size());
    size_t covered = 0;
    for (const Block& b : m.blocks) covered += b.d.cols();
    const size_t n = !m.blocks.empty() ? m.blocks[block].d.cols() : length(m);
    switch (s.draw(6)) {
      case 0: {
        Block b;
        b.d = desc(s.chance(1, 5) ? few(7) : n);
        b.type = typeNotIn(m, static_cast<int>(block));
        s << "set descriptors of block " << block << " type " << b.type << " " << b.d.rows() << "x" << b.d.cols() << "\n";
        if (block == 0 && b.type == 0 && s.boolean()) f.setDescriptors(b.d);
        else if (s.boolean()) f.setDescriptors(b.d, block, b.type);
        else f.setDescriptors(Eigen::Map<const Desc>(b.d.data(), b.d.rows(), b.d.cols()), block, b.type);
        m.has_desc = true;
        if (m.blocks.empty()) m.blocks.push_back(b);
        else m.blocks[block] = b;
        break;
      }
      case 1: {
        Block b;
        b.d = desc(s.chance(1, 5) ? few(7) : n);
        b.type = typeNotIn(m, static_cast<int>(block));
        s << "swap descriptors of block " << block << " type " << b.type << " " << b.d.rows() << "x" << b.d.cols() << "\n";
        Desc w = b.d;
        const int was = f.swapDescriptors(&w, block, b.type);
        REQ(sameM(w, m.blocks.empty() ? Desc() : m.blocks[block].d)) << "descriptors swapped out";
        m.has_desc = true;
        if (m.blocks.empty()) {
          m.blocks.push_back(b);
        } else {
          REQ_EQ(was, m.blocks[block].type) << "type swapped out";
          m.blocks[block] = b;
        }
        break;
      }
      case 2: {
        if (m.blocks.empty() || m.blocks[block].d.size() == 0) return;
        Desc* p = f.getDescriptorsMutable(block);
        const size_t k = s.draw(p->size());
        p->data()[k] ^= 0x55;
        m.blocks[block].d.data()[k] ^= 0x55;
        s << "edit a descriptor of block " << block << "\n";
        break;
      }
      case 3: {
        if (!m.has_desc) return;
        // Into another frame without descriptors.
        std::string text = "junk";
        f.serializeDescriptorsToString(&text);
        Frame* to = nullptr;
        for (Frame& o : frames) if (!o.m.has_desc) to = &o;
        if (!to) to = &frames[s.draw(frames.size())];
        s << "serialize descriptors (" << text.size() << " bytes) into frame " << to - &frames[0] << "\n";
        Model source = m;
        to->f->deserializeDescriptorsFromString(text);
        Eigen::VectorXi types(source.blocks.size());
        for (size_t b = 0; b < source.blocks.size(); ++b) types(b) = source.blocks[b].type;
        to->f->setDescriptorTypes(types);
        to->m.has_desc = true;
        to->m.blocks = source.blocks;
        if (to != fr) check(*to, "after deserializing descriptors");
        s.label("descriptor serialization");
        break;
      }
      default:
        if (s.chance(1, 6) && m.blocks.size() < 5) extendDescriptors(fr, s.size(0, 4));
        else if (m.n() > covered && m.blocks.size() < 5) extendDescriptors(fr, s.boolean() ? m.n() - covered : s.size(0, m.n() - covered));
    }
  }
  // What a detector does: a further feature type with some of the attributes.
  void addType(Frame* fr) {
    VisualFrame& f = *fr->f;
    Model& m = fr->m;
    if (m.blocks.size() >= 4) return;
    size_t covered = 0;
    for (const Block& b : m.blocks) covered += b.d.cols();
    if (covered > m.n()) return;
    Eigen::Matrix2Xd v(2, few(5)), r(2, m.n() + v.cols());
    fill(s, &v);
    s << "new feature type, " << v.cols() << " keypoints\n";
    f.extendKeypointMeasurements(v);
    if (m.n()) r.leftCols(m.n()) = m.kp.v;
    r.rightCols(v.cols()) = v;
    m.kp.has = true;
    m.kp.v = r;
    extendDescriptors(fr, m.n() - covered);
    const size_t n = m.n(), added = v.cols();
    for (int a = 0; a < 4; ++a) if (s.chance(1, 3)) extendTo(fr, kD[a], &m.d[a], n, added);
    if (s.chance(1, 3)) extendTo(fr, kI[0], &m.i[0], n, added);
    if (s.chance(2, 3)) extendTo(fr, kI[1], &m.i[1], n, added);
    if (s.chance(1, 3)) positionOp(fr);
  }
  template <typename A, typename V>
  void extendTo(Frame* fr, const A& a, Opt<V>* m, size_t n, size_t added) {
    const size_t old = m->has ? m->v.size() : 0;
    if (old + added > n) return;
    V v(added), r(n);
    fill(s, &v);
    s << "extend " << a.name << " [" << v.transpose() << "]\n";
    a.extendDefault(fr->f.get(), v);
    for (size_t k = 0; k < n; ++k) r(k) = k < old ? m->v(k) : k < n - added ? a.default_value : v(k - (n - added));
    if (old > 0 && added > 0) extended = true;
    m->has = true;
    m->v = r;
  }
  void clear(Frame* fr) {
    s << "clear keypoint channels\n";
    fr->f->clearKeypointChannels();
    Model& m = fr->m;
    m.kp.has = true;
    m.kp.v.resize(2, 0);
    for (auto& d : m.d) { d.has = true; d.v.resize(0); }
    m.i[1].has = true;
    m.i[1].v.resize(0);
    // Not necessarily created, but never left with the data of keypoints that are gone.
    m.i[0].v.resize(0);
    m.p3.v.resize(3, 0);
    m.has_desc = true;
    Block b;
    b.type = 0;
    m.blocks.assign(1, b);
    s.label("clear");
  }
  void discard(Frame* fr) {
    Model& m = fr->m;
    if (!m.i[1].has) return;
    const size_t n = m.i[1].v.size();
    size_t covered = 0;
    for (const Block& b : m.blocks) covered += b.d.cols();
    bool fits = m.n() <= n && covered <= n && (!m.p3.has || static_cast<size_t>(m.p3.v.cols()) <= n) && (!m.i[0].has || static_cast<size_t>(m.i[0].v.size()) <= n);
    for (const auto& d : m.d) fits &= !d.has || static_cast<size_t>(d.v.size()) <= n;
    if (!fits) return;
    s << "discard untracked [" << m.i[1].v.transpose() << "]\n";
    std::vector<size_t> got{3, 1, 4}, gone, keep;
    for (size_t k = 0; k < n; ++k) (m.i[1].v(k) < 0 ? gone : keep).push_back(k);
    fr->f->discardUntrackedObservations(&got);
    REQ(got == gone) << "discarded indices: " << got.size() << " of " << gone.size();
    select(&m.kp, keep);
    select(&m.p3, keep);
    for (auto& d : m.d) selectRows(&d, keep);
    for (auto& d : m.i) selectRows(&d, keep);
    size_t start = 0;
    for (Block& b : m.blocks) {
      const size_t size = b.d.cols();
      Desc r(b.d.rows(), size);
      int c = 0;
      for (size_t k : keep) if (k >= start && k < start + size) r.col(c++) = b.d.col(k - start);
      b.d = r.leftCols(c).eval();
      start += size;
    }
    if (!gone.empty() && !keep.empty()) s.label(m.blocks.size() > 1 ? "discard with several types" : "discard");
  }
  template <typename V>
  void select(Opt<V>* o, const std::vector<size_t>& keep) {
    if (!o->has) return;
    V r(o->v.rows(), o->v.cols());
    int c = 0;
    for (size_t k : keep) if (k < static_cast<size_t>(o->v.cols())) r.col(c++) = o->v.col(k);
    o->v = r.leftCols(c).eval();
  }
  template <typename V>
  void selectRows(Opt<V>* o, const std::vector<size_t>& keep) {
    if (!o->has) return;
    V r(o->v.size());
    int c = 0;
    for (size_t k : keep) if (k < static_cast<size_t>(o->v.size())) r(c++) = o->v(k);
    o->v = r.head(c).eval();
  }
  void typedTracks(Frame* fr) {
    Model& m = fr->m;
    if (!m.i[1].has || m.blocks.empty()) return;
    const size_t b = s.draw(m.blocks.size());
    size_t start = 0;
    for (size_t k = 0; k < b; ++k) start += m.blocks[k].d.cols();
    const size_t size = m.blocks[b].d.cols();
    if (size == 0 || start + size > static_cast<size_t>(m.i[1].v.size())) return;
    const size_t k = s.draw(size);
    const int v = intValue(s);
    s << "track id of keypoint " << k << " of type " << m.blocks[b].type << " = " << v << "\n";
    auto view = fr->f->getTrackIdsOfTypeMutable(m.blocks[b].type);
    REQ_EQ(view.size(), static_cast<int>(size));
    view(k) = v;
    m.i[1].v(start + k) = v;
  }
  cv::Mat image() {
    if (s.chance(1, 8)) return cv::Mat();
    cv::Mat im(s.i(1, 4), s.i(1, 4), s.boolean() ? CV_8UC1 : CV_8UC3);
    for (size_t k = 0; k < im.total() * im.elemSize(); ++k) im.data[k] = s.i(0, 2);
    return im;
  }
  void otherOp(Frame* fr) {
    VisualFrame& f = *fr->f;
    Model& m = fr->m;
    switch (s.draw(9)) {
      case 0: m.t = s.boolean() ? s.anyInt64() : s.i(0, 2); f.setTimestampNanoseconds(m.t); s << "timestamp\n"; break;
      case 1: {
        aslam::FrameId id;
        m.id = rref::hexId(s);
        REQ(id.fromHexString(m.id));
        f.setId(id);
        s << "id\n";
        break;
      }
      case 2:
        m.valid = s.boolean();
        if (s.boolean()) f.setValid(m.valid);
        else if (m.valid) f.validate();
        else f.invalidate();
        s << "valid " << m.valid << "\n";
        break;
      case 3: m.cam = cams[s.draw(cams.size())]; f.setCameraGeometry(m.cam); s << "camera\n"; break;
      case 4: m.raw = cams[s.draw(cams.size())]; f.setRawCameraGeometry(m.raw); s << "raw camera\n"; break;
      case 5: {
        cv::Mat im = image();
        f.setRawImage(im);
        m.has_img = true;
        m.img = im.clone();
        s << "raw image\n";
        break;
      }
      case 6:
        if (!m.has_img) return;
        if (s.boolean()) {
          f.releaseRawImage();
          m.has_img = false;
          s << "release raw image\n";
        } else {
          cv::Mat im = image();
          *f.getRawImageMutable() = im;
          m.img = im.clone();
          s << "replace raw image\n";
        }
        break;
      case 7: {
        const std::string name = s.boolean() ? "text_a" : "text_b";
        const Eigen::VectorXi t = Eigen::VectorXi::Constant(s.i(0, 2), s.i(0, 1));
        Eigen::VectorXi w = t;
        s << "channel " << name << "\n";
        if (s.boolean()) {
          f.setChannelData<Eigen::VectorXi>(name, t);
        } else {
          f.swapChannelData<Eigen::VectorXi>(name, &w);
          REQ(sameM(w, m.text.count(name) ? m.text[name] : Eigen::VectorXi()));
        }
        m.text[name] = t;
        break;
      }
      default: {
        const std::string name = s.boolean() ? "extra_a" : "extra_b";
        Eigen::VectorXd v(s.size(0, 3));
        fill(s, &v);
        s << "channel " << name << "\n";
        if (!m.extra.count(name) && s.boolean()) {
          f.addChannel<Eigen::VectorXd>(name);
          *f.getChannelDataMutable<Eigen::VectorXd>(name) = v;
        } else {
          f.setChannelData<Eigen::VectorXd>(name, v);
        }
        m.extra[name] = v;
      }
    }
  }
  void add() {
    Frame n;
    switch (frames.empty() ? s.draw(2) : s.draw(7)) {
      case 0: {
        n.f.reset(new VisualFrame);
        n.m.t = n.f->getTimestampNanoseconds();
        n.m.id = aslam::FrameId().hexString();
        s << "new frame\n";
        break;
      }
      case 1: {
        n.m.cam = cams[s.draw(cams.size())];
        n.m.t = s.range(0, 5);
        n.f = VisualFrame::createEmptyTestVisualFrame(n.m.cam, n.m.t);
        n.m.id = n.f->getId().hexString();
        REQ(n.f->getId().isValid());
        n.m.kp.has = true;
        n.m.kp.v.resize(2, 0);
        n.m.d[0].has = true;
        n.m.has_desc = true;
        Block b;
        b.d.resize(48, 0);
        b.type = 0;
        n.m.blocks.push_back(b);
        s << "new test frame\n";
        break;
      }
      case 2: {  // assignment, also to itself
        const size_t a = s.draw(frames.size()), b = s.draw(frames.size());
        s << "frame " << a << " = frame " << b << "\n";
        *frames[a].f = *frames[b].f;
        const Model m = frames[b].m;
        frames[a].m = m;
        check(frames[a], "after assignment");
        return;
      }
      default: {
        const size_t b = s.draw(frames.size());
        s << "copy of frame " << b << "\n";
        n.f.reset(new VisualFrame(*frames[b].f));
        n.m = frames[b].m;
      }
    }
    if (frames.size() < 4) {
      frames.push_back(n);
      s << " -> frame " << frames.size() - 1 << "\n";
    } else {
      const size_t k = s.draw(frames.size());
      frames[k] = n;
      s << " -> frame " << k << "\n";
    }
    check(n, "new frame");
  }

  void step() {
    if (frames.empty() || s.chance(1, 9)) {
      add();
    } else {
      const size_t k = s.draw(frames.size());
      Frame* fr = &frames[k];
      s << "frame " << k << ": ";
      switch (s.draw(18)) {
        case 14:
        case 15:
        case 16: addType(fr); break;
        case 0:
        case 1: keypointOp(fr); break;
        case 2: positionOp(fr); break;
        case 3:
        case 4: descriptorOp(fr); break;
        case 5: discard(fr); break;
        case 6: if (s.chance(1, 3)) clear(fr); else typedTracks(fr); break;
        case 7: otherOp(fr); break;
        case 8:
        case 9: vectorOp(fr, kI[1], &fr->m.i[1]); break;
        case 10: vectorOp(fr, kI[0], &fr->m.i[0]); break;
        default: { const int a = s.i(0, 3); vectorOp(fr, kD[a], &fr->m.d[a]); }
      }
      s << "\n";
      ++edits;
      check(*fr, "after the operation on frame " + std::to_string(k));
    }
  }
};
}  // namespace

PBT_PROP(edits, "a per-type view of a second feature type was compared, an attribute was extended behind existing values, and at least 8 operations were done", 60000, 3000000) {
  World w(s);
  const size_t steps = s.size(1, w.big ? 14 : 40);
  for (size_t k = 0; k < steps; ++k) {
    w.step();
    if (s.chance(1, 4)) w.checkPairs("pairs");
  }
  for (size_t k = 0; k < w.frames.size(); ++k) w.check(w.frames[k], "at the end frame " + std::to_string(k));
  w.checkPairs("at the end");
  if (w.typed) s.label("several types viewed");
  if (w.extended) s.label("extended");
  if (w.typed && w.extended && w.edits >= 8) s.nontrivial();
}

// Any single stored datum decides equality.
PBT_PROP(singleDifference, "the copy was changed in exactly one attribute", 20000, 800000) {
  World w(s);
  for (size_t k = s.size(2, 25); k > 0; --k) w.step();
  const size_t b = s.draw(w.frames.size());
  Frame a = w.frames[b], c;
  c.f.reset(new VisualFrame(*a.f));
  c.m = a.m;
  w.frames = {a, c};
  w.checkPairs("copy");
  const size_t edits = w.edits;
  for (int k = 0; k < 3 && w.edits == edits; ++k) {
    s << "frame 1: ";
    switch (s.draw(6)) {
      case 0: w.keypointOp(&w.frames[1]); break;
      case 1: w.positionOp(&w.frames[1]); break;
      case 2: w.descriptorOp(&w.frames[1]); break;
      case 3: w.otherOp(&w.frames[1]); break;
      case 4: { const int x = s.i(0, 1); w.vectorOp(&w.frames[1], kI[x], &w.frames[1].m.i[x]); break; }
      default: { const int x = s.i(0, 3); w.vectorOp(&w.frames[1], kD[x], &w.frames[1].m.d[x]); }
    }
    if (!sameStored(w.frames[0].m, w.frames[1].m, true)) s.nontrivial();
    w.check(w.frames[0], "untouched frame");
    w.check(w.frames[1], "changed frame");
    w.checkPairs("after one change");
  }
}

// Coordinates in the raw image and bearing vectors.
PBT_PROP(rawImage, "a keypoint is projected into the raw image", 40000, 3000000) {
  cref::Cam c = cref::camera(s, 3), r = cref::camera(s, 3);
  c.cam = cref::build(c);
  r.cam = s.chance(1, 5) ? c.cam : cref::build(r);
  VisualFrame f;
  f.setCameraGeometry(c.cam);
  f.setRawCameraGeometry(r.cam);
  const size_t n = s.size(1, 6);
  Eigen::Matrix2Xd kp(2, n);
  for (size_t k = 0; k < n; ++k) {
    if (s.chance(1, 8)) kp.col(k) << s.sreal(3) * c.w, s.sreal(3) * c.h;
    else kp.col(k) << s.real(0, 1) * c.w, s.real(0, 1) * c.h;
  }
  f.setKeypointMeasurements(kp);
  s << cref::show(c) << "\nraw: " << cref::show(r) << "\nkeypoints\n" << kp << "\n";
  const Eigen::Matrix2Xd junk = Eigen::Matrix2Xd::Constant(2, 3, -77);
  Eigen::Matrix2Xd all = junk;
  std::vector<aslam::ProjectionResult> results(2);
  f.toRawImageCoordinatesVectorized(kp, &all, &results);
  REQ_EQ(results.size(), n);
  REQ_EQ(static_cast<size_t>(all.cols()), n);
  for (size_t k = 0; k < n; ++k) {
    Eigen::Vector3d ray;
    Eigen::Vector2d want;
    aslam::ProjectionResult wr(aslam::ProjectionResult::PROJECTION_INVALID);
    const bool ok = c.cam->backProject3(kp.col(k), &ray);
    if (ok) wr = r.cam->project3(ray, &want);
    else s.label("not back-projected");
    Eigen::Vector2d one, by_index;
    const aslam::ProjectionResult r1 = f.toRawImageCoordinates(kp.col(k), &one);
    const aslam::ProjectionResult r2 = f.getKeypointInRawImageCoordinates(k, &by_index);
    const bool border = ok && (std::min(std::abs(want(0)), std::abs(want(0) - r.w)) < 1e-6 || std::min(std::abs(want(1)), std::abs(want(1) - r.h)) < 1e-6);
    if (border) continue;
    REQ_EQ(r1.getDetailedStatus(), wr.getDetailedStatus()) << "keypoint " << k;
    REQ_EQ(r2.getDetailedStatus(), wr.getDetailedStatus()) << "keypoint " << k << " by index";
    REQ_EQ(results[k].getDetailedStatus(), wr.getDetailedStatus()) << "keypoint " << k << " vectorized";
    if (!wr.isKeypointVisible()) continue;
    s.nontrivial();
    const double tol = 1e-7 * (1 + want.norm());
    REQ((one - want).norm() <= tol) << one.transpose() << " vs " << want.transpose();
    REQ((by_index - want).norm() <= tol) << by_index.transpose() << " vs " << want.transpose();
    REQ((all.col(k) - want).norm() <= tol) << all.col(k).transpose() << " vs " << want.transpose();
  }
  // Bearing vectors of a selection of keypoints of one type.
  const size_t first = s.size(0, n);
  f.extendDescriptors(Desc(Desc::Zero(4, first)), 3);
  f.extendDescriptors(Desc(Desc::Zero(2, n - first)), 9);
  const int type = first == n || (first > 0 && s.boolean()) ? 3 : 9;
  const size_t start = type == 3 ? 0 : first, size = type == 3 ? first : n - first;
  std::vector<size_t> chosen;
  for (size_t k = s.size(0, 5); k > 0; --k) chosen.push_back(s.draw(size));
  std::vector<unsigned char> success(1, 7);
  const Eigen::Matrix3Xd rays = f.getNormalizedBearingVectors(chosen, type, &success);
  REQ_EQ(static_cast<size_t>(rays.cols()), chosen.size());
  REQ_EQ(success.size(), chosen.size());
  for (size_t k = 0; k < chosen.size(); ++k) {
    Eigen::Vector3d ray;
    const bool ok = c.cam->backProject3(kp.col(start + chosen[k]), &ray);
    REQ_EQ(static_cast<bool>(success[k]), ok) << "bearing " << k;
    if (ok && ray.allFinite()) REQ((rays.col(k) - ray.normalized()).norm() <= 1e-9) << "bearing " << k << ": " << rays.col(k).transpose() << " vs " << ray.normalized().transpose();
  }
}
