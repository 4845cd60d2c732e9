// C18: a camera rig keeps indices, identifiers, cameras and extrinsics consistent.
#include <glog/logging.h>

#include <yaml-cpp/yaml.h>

#include "pbt.h"
#include "rig_ref.h"

#include <aslam/cameras/random-camera-generator.h>

const char* pbt::kProperty = "C18";
void pbt::workerInit() { FLAGS_minloglevel = 3; }

using namespace rref;
using pbt::Source;

namespace {
// What a rig has to be: records by value, and the camera objects it shares
// with the outside (none for those it made itself).
struct Model {
  RigRecord r;
  std::vector<Camera::Ptr> shared;
};
struct Rig {
  NCamera::Ptr n;
  Model m;
};

struct World {
  Source& s;
  std::vector<Rig> rigs;
  std::vector<std::string> seen;  // every id that was used for a camera at any time
  size_t steps = 0;
  explicit World(Source& src) : s(src) {}

  SensorId idOf(const std::string& hex) {
    SensorId id;
    REQ(id.fromHexString(hex));
    return id;
  }
  void note(const std::string& hex) { seen.push_back(hex); }
  SensorId freshId() {
    for (;;) {
      SensorId id = sensorId(s);
      if (std::find(seen.begin(), seen.end(), id.hexString()) == seen.end()) { note(id.hexString()); return id; }
      generateId(&id);
      note(id.hexString());
      return id;
    }
  }
  CameraSpec spec() {
    CameraSpec p = cameraSpec(s, true);
    p.id = freshId();
    return p;
  }

  void check(const Rig& g, const std::string& what) {
    const NCamera& n = *g.n;
    const RigRecord& r = g.m.r;
    const size_t k = r.cameras.size();
    REQ_EQ(n.getNumCameras(), k) << what;
    REQ_EQ(n.numCameras(), k) << what;
    REQ_EQ(n.getCameraVector().size(), k) << what;
    REQ_EQ(n.getTransformationVector().size(), k) << what;
    expectSame(record(n), r, 0, what);
    for (size_t i = 0; i < k; ++i) {
      const SensorId id = idOf(r.cameras[i].id);
      REQ_EQ(n.getCameraId(i).hexString(), r.cameras[i].id) << what;
      REQ_EQ(n.getCamera(i).getId().hexString(), r.cameras[i].id) << what;
      REQ(n.hasCameraWithId(id)) << what << ": camera " << i << " of " << k << " not found by its id";
      REQ_EQ(n.getCameraIndex(id), static_cast<int>(i)) << what;
      REQ(&n.get_T_C_B(id) == &n.get_T_C_B(i)) << what << ": extrinsics by id and by index of camera " << i;
      REQ(&g.n->get_T_C_B_Mutable(id) == &n.get_T_C_B(i)) << what;
      REQ(&g.n->get_T_C_B_Mutable(i) == &n.get_T_C_B(i)) << what;
      REQ(n.getTransformationVector()[i].getTransformationMatrix() == r.T_C_B[i]) << what;
      REQ(n.getCameraVector()[i].get() == &n.getCamera(i)) << what;
      REQ(g.n->getCameraShared(i).get() == &n.getCamera(i)) << what;
      REQ(n.getCameraShared(i).get() == &n.getCamera(i)) << what;
      REQ(&g.n->getCameraMutable(i) == &n.getCamera(i)) << what;
      if (g.m.shared[i]) REQ(g.m.shared[i].get() == &n.getCamera(i)) << what << ": not the camera that was set";
      // both directions of the extrinsics
      const Transformation& T = n.get_T_C_B(i);
      const double tol = 1e-12 * (1 + T.getPosition().norm());
      REQ(((T * T.inverse()).getTransformationMatrix() - Eigen::Matrix4d::Identity()).cwiseAbs().maxCoeff() <= tol) << what;
      const Eigen::Vector3d p(1, -2, 3);
      REQ((T.inverse() * (T * p) - p).norm() <= tol * 10) << what;
    }
    for (const std::string& hex : seen) {
      bool present = false;
      for (const CameraRecord& c : r.cameras) present |= c.id == hex;
      if (present) continue;
      REQ(!n.hasCameraWithId(idOf(hex))) << what << ": found a camera by an id that none has";
      REQ_EQ(n.getCameraIndex(idOf(hex)), -1) << what;
    }
    REQ(n.isValid()) << what;
  }
  void checkAll(const std::string& what) {
    for (size_t i = 0; i < rigs.size(); ++i) check(rigs[i], what + " (rig " + std::to_string(i) + ")");
  }

  void add(NCamera::Ptr n, const Model& m) {
    Rig g;
    g.n = n;
    g.m = m;
    if (rigs.size() < 4) rigs.push_back(g);
    else rigs[s.draw(rigs.size())] = g;
  }

  void construct() {
    RigSpec p = rigSpec(s, 0, s.chance(1, 500) ? 300 : 5, true);
    std::vector<Camera::Ptr> cameras;
    Model m;
    m.r.id = p.id.hexString();
    m.r.description = p.description;
    m.r.has_cov = p.has_cov;
    m.r.cov.setZero();
    if (p.has_cov) m.r.cov = p.cov;
    for (size_t i = 0; i < p.cameras.size(); ++i) {
      p.cameras[i].id = freshId();
      cameras.push_back(rref::make(p.cameras[i]));
      m.shared.push_back(cameras.back());
      m.r.cameras.push_back(record(*cameras.back()));
      m.r.T_C_B.push_back(p.T_C_B[i].getTransformationMatrix());
    }
    NCamera::Ptr n(p.has_cov ? new NCamera(p.id, p.T_C_B, p.cov, cameras, p.description) : new NCamera(p.id, p.T_C_B, cameras, p.description));
    s << "construct rig with " << cameras.size() << " cameras\n";
    add(n, m);
  }

  Model unshared(const Model& m) {
    Model c = m;
    c.shared.assign(m.r.cameras.size(), Camera::Ptr());
    return c;
  }

  std::string step() {
    ++steps;
    const size_t gi = s.draw(rigs.size());
    Rig& g = rigs[gi];
    RigRecord& r = g.m.r;
    const size_t k = r.cameras.size();
    const size_t i = k ? s.draw(k) : 0;
    std::ostringstream d;
    d << "rig " << gi << ": ";
    const int op = s.i(0, 17);
    if (k == 0 && op >= 2 && op <= 9) return "";
    switch (op) {
      case 0: construct(); return "construct";
      case 1: {
        const SensorId id = sensorId(s);
        g.n->setId(id);
        r.id = id.hexString();
        return d.str() + "setId";
      }
      case 2: {
        CameraSpec p = spec();
        Camera::Ptr c = rref::make(p);
        g.n->setCamera(i, c);
        r.cameras[i] = record(*c);
        g.m.shared[i] = c;
        d << "setCamera " << i;
        break;
      }
      case 3: {  // replace a camera by one of the same id
        CameraSpec p = cameraSpec(s, true);
        p.id = idOf(r.cameras[i].id);
        Camera::Ptr c = rref::make(p);
        g.n->setCamera(i, c);
        r.cameras[i] = record(*c);
        g.m.shared[i] = c;
        d << "setCamera same id " << i;
        break;
      }
      case 4: {  // exchange two cameras or rotate all of them
        if (k < 2) return "";
        std::vector<Camera::Ptr> old;
        for (size_t j = 0; j < k; ++j) old.push_back(g.n->getCameraShared(j));
        const size_t by = 1 + s.draw(k - 1);
        std::vector<CameraRecord> recs = r.cameras;
        std::vector<Camera::Ptr> sh = g.m.shared;
        const bool all = s.boolean();
        const size_t j = (i + by) % k;
        for (size_t a = 0; a < k; ++a) {
          size_t from = a;
          if (all) from = (a + by) % k;
          else if (a == i) from = j;
          else if (a == j) from = i;
          if (from == a) continue;
          g.n->setCamera(a, old[from]);
          r.cameras[a] = recs[from];
          g.m.shared[a] = old[from];
        }
        d << (all ? "rotate cameras by " : "exchange cameras ") << i << " " << j;
        break;
      }
      case 5: {
        const Transformation T = transformation(s);
        const int how = s.i(0, 2);
        if (how == 0) g.n->set_T_C_B(i, T);
        else if (how == 1) g.n->get_T_C_B_Mutable(i) = T;
        else g.n->get_T_C_B_Mutable(idOf(r.cameras[i].id)) = T;
        r.T_C_B[i] = T.getTransformationMatrix();
        d << "set_T_C_B " << i << " how " << how;
        break;
      }
      case 6:
      case 7: {  // another identifier
        const SensorId id = freshId();
        if (s.boolean()) g.n->getCameraMutable(i).setId(id);
        else g.n->getCameraShared(i)->setId(id);
        r.cameras[i].id = id.hexString();
        d << "camera " << i << " setId";
        break;
      }
      case 8: {  // identifiers of two cameras exchanged
        if (k < 2) return "";
        const size_t j = (i + 1 + s.draw(k - 1)) % k;
        const SensorId a = idOf(r.cameras[i].id), b = idOf(r.cameras[j].id);
        g.n->getCameraMutable(i).setId(b);
        g.n->getCameraMutable(j).setId(a);
        std::swap(r.cameras[i].id, r.cameras[j].id);
        d << "exchange ids " << i << " " << j;
        break;
      }
      case 9: {
        Camera& c = g.n->getCameraMutable(i);
        if (s.boolean()) {
          c.setLineDelayNanoSeconds(++steps);
          c.setTopic("t" + std::to_string(steps));
        } else {
          c.removeDistortion();
        }
        r.cameras[i] = record(c);
        d << "edit camera " << i;
        break;
      }
      case 10:
      case 11:
      case 12: {  // a copy owns its cameras
        const int how = s.i(0, 3);
        NCamera::Ptr c;
        if (how == 0) c.reset(g.n->clone());
        else if (how == 1) c = g.n->cloneToShared();
        else if (how == 2) c = aligned_shared<NCamera>(*g.n);
        else c = std::dynamic_pointer_cast<NCamera>(g.n->cloneAsSensor());
        for (size_t j = 0; j < k; ++j) REQ(&c->getCamera(j) != &g.n->getCamera(j)) << "copy shares camera " << j;
        Model m = unshared(g.m);
        d << "copy " << how;
        add(c, m);
        break;
      }
      case 13: {
        NCamera::Ptr c(g.n->cloneWithNewIds());
        Model m = unshared(g.m);
        m.r.id = c->getId().hexString();
        std::vector<std::string> ids = {r.id, m.r.id};
        for (size_t j = 0; j < k; ++j) {
          m.r.cameras[j].id = c->getCameraId(j).hexString();
          REQ(std::find(seen.begin(), seen.end(), m.r.cameras[j].id) == seen.end()) << "not a new id";
          note(m.r.cameras[j].id);
        }
        REQ(m.r.id != r.id);
        d << "cloneWithNewIds";
        add(c, m);
        break;
      }
      case 14:
      case 15: {
        NCamera::Ptr c = g.n->cloneRigWithoutDistortion();
        REQ(c);
        Model m = unshared(g.m);
        m.r.id = c->getId().hexString();
        REQ(m.r.id != r.id) << "a rig without distortion gets its own id";
        REQ_EQ(c->getNumCameras(), k);
        for (size_t j = 0; j < k; ++j) {
          m.r.cameras[j].id = c->getCameraId(j).hexString();
          m.r.cameras[j].model = static_cast<int>(aslam::Distortion::Type::kNoDistortion);
          m.r.cameras[j].k.resize(0);
          REQ(std::find(seen.begin(), seen.end(), m.r.cameras[j].id) == seen.end()) << "not a new id";
          note(m.r.cameras[j].id);
          REQ(!c->getCamera(j).hasDistortion());
        }
        d << "cloneRigWithoutDistortion";
        add(c, m);
        break;
      }
      case 16: {  // into another object, through a document
        YAML::Node node;
        g.n->serialize(&node);
        const Model m = unshared(g.m);
        Rig& o = rigs[s.draw(rigs.size())];
        if (k == 0) return "";
        if (&o == &g && s.boolean()) return "";
        REQ(o.n->deserialize(node));
        Model loaded = m;
        for (CameraRecord& c : loaded.r.cameras) c.mask = cv::Mat();
        for (size_t j = 0; j < k; ++j) {
          const Eigen::Matrix4d T = o.n->get_T_C_B(j).getTransformationMatrix();
          REQ((T - m.r.T_C_B[j]).cwiseAbs().maxCoeff() <= 1e-12 * (1 + T.topRightCorner<3, 1>().norm()));
          loaded.r.T_C_B[j] = T;
        }
        o.m = loaded;
        d << "deserialize";
        break;
      }
      default: {
        Rig& o = g;
        o.n->setRandom();
        Model m;
        m.r = record(*o.n);
        REQ(!m.r.cameras.empty());
        REQ_EQ(m.r.topic, r.topic);
        REQ_EQ(m.r.description, r.description);
        REQ_EQ(m.r.has_cov, r.has_cov);
        m.shared.assign(m.r.cameras.size(), Camera::Ptr());
        for (const CameraRecord& c : m.r.cameras) note(c.id);
        o.m = m;
        d << "setRandom";
      }
    }
    return d.str();
  }
};
}  // namespace

PBT_PROP(edits, "a camera, an identifier or a copy was changed in at least 4 steps", 5000, 200000) {
  World w(s);
  w.construct();
  w.checkAll("construct");
  int done = 0;
  for (size_t n = s.size(1, 25); n > 0; --n) {
    const std::string what = w.step();
    if (what.empty()) continue;
    s << what << "\n";
    s.label(what.substr(what.find(": ") == std::string::npos ? 0 : what.find(": ") + 2, 12));
    ++done;
    w.checkAll(what);
  }
  if (done >= 4) s.nontrivial();
}

// A rig without distortion projects as the original does on undistorted points.
PBT_PROP(withoutDistortion, "a camera distorts", 6000, 120000) {
  RigSpec p = rigSpec(s, 1, s.chance(1, 500) ? 300 : 4);
  NCamera::Ptr a = rref::make(p);
  NCamera::Ptr b = a->cloneRigWithoutDistortion();
  for (size_t i = 0; i < p.cameras.size(); ++i) {
    const cref::Cam& c = p.cameras[i].c;
    s << cref::show(c);
    if (c.model != dref::kNull) s.nontrivial();
    cref::Cam plain = c;
    plain.model = dref::kNull;
    plain.k.resize(0);
    if (!c.cam && plain.kind != cref::kLidar && (c.w > 100000 || c.h > 100000)) continue;
    Camera::Ptr want = cref::build(plain);
    for (int k = 0; k < 4; ++k) {
      const Eigen::Vector3d pt = cref::anyPoint(s, c);
      Eigen::Vector2d u(0, 0), v(0, 0);
      const aslam::ProjectionResult ru = want->project3(pt, &u), rv = b->getCamera(i).project3(pt, &v);
      REQ(ru == rv);
      REQ(u == v || (u.array().isNaN().any() && v.array().isNaN().any())) << u.transpose() << " vs " << v.transpose();
    }
    REQ_EQ(b->getCameraIndex(b->getCameraId(i)), static_cast<int>(i));
    REQ_EQ(b->getCameraIndex(p.cameras[i].id), -1);
    REQ(a->getCamera(i).hasDistortion() == (c.model != dref::kNull)) << "the original lost its distortion";
    REQ(b->get_T_C_B(b->getCameraId(i)).getTransformationMatrix() == a->get_T_C_B(i).getTransformationMatrix());
  }
}

PBT_PROP(generators, "more than one camera", 1500, 30000) {
  const size_t n = s.size(0, 8);
  s << n << " cameras\n";
  if (n > 1) s.nontrivial();
  NCamera::Ptr rig;
  const int how = s.i(0, 2);
  if (how == 0) rig = aslam::createTestNCamera(n);
  else if (how == 1) rig.reset(aslam::createUniqueTestNCamera(n).release());
  else rig = aslam::createSurroundViewTestNCamera();
  REQ(rig);
  REQ_EQ(rig->getNumCameras(), how == 2 ? 4u : n);
  World w(s);
  Rig g;
  g.n = rig;
  g.m.r = record(*rig);
  g.m.shared.assign(rig->getNumCameras(), Camera::Ptr());
  w.check(g, "generated rig");
}
