// C17: cameras and rigs survive saving, loading, cloning and comparison.
#include <fstream>
#include <sys/stat.h>
#include <unistd.h>

#include <aslam/cameras/camera-factory.h>
#include <glog/logging.h>
#include <yaml-cpp/yaml.h>

#include "pbt.h"
#include "rig_ref.h"

const char* pbt::kProperty = "C17";
void pbt::workerInit() { FLAGS_minloglevel = 3; }

using namespace rref;
using pbt::Source;

namespace {
std::string scratch() {
  static std::string f;
  static pid_t owner = 0;
  if (owner != getpid()) {
    owner = getpid();
    f = "/tmp/verif_c17_" + std::to_string(owner) + ".yaml";
  }
  return f;
}
struct RemoveScratch { ~RemoveScratch() { unlink(scratch().c_str()); } };

template <typename T>
std::string textOf(const T& object, bool stream) {
  YAML::Node node;
  object.serialize(&node);
  if (!stream) return YAML::Dump(node);
  std::ostringstream o;
  o << node;
  return o.str();
}

Camera::Ptr fresh(int kind) {
  if (kind == cref::kPinhole) return aligned_shared<aslam::PinholeCamera>();
  if (kind == cref::kUnified) return aligned_shared<aslam::UnifiedProjectionCamera>();
  return aligned_shared<aslam::Camera3DLidar>();
}

void same(const aslam::Sensor& a, const aslam::Sensor& b, const std::string& what) {
  REQ(a == b) << what << ": not equal";
  REQ(b == a) << what << ": not equal backwards";
  REQ(!(a != b)) << what;
  REQ(a.isEqual(b)) << what;
  REQ(b.isEqual(a)) << what;
}
void different(const aslam::Sensor& a, const aslam::Sensor& b, const std::string& what) {
  REQ(!(a == b)) << what << ": equal";
  REQ(!(b == a)) << what << ": equal backwards";
  REQ(a != b) << what;
  REQ(!a.isEqual(b)) << what;
  REQ(!b.isEqual(a)) << what;
}

void describe(Source& s, const CameraSpec& p) {
  s << cref::show(p.c) << "id " << p.id.hexString() << " topic '" << p.topic << "' desc '" << p.description << "' delay " << p.delay << " comp " << p.compressed << "\n";
}

// ------------------------------------------------------------ round trips
PBT_PROP(cameraYaml, "distortion, line delay or topic set", 15000, 300000) {
  RemoveScratch cleanup;
  CameraSpec p = cameraSpec(s);
  describe(s, p);
  s.label(std::string(cref::kindName(p.c.kind)) + "/" + dref::modelName(p.c.model));
  if (p.c.model != dref::kNull || p.delay > 0 || !p.topic.empty()) s.nontrivial();
  Camera::Ptr a = make(p);
  const CameraRecord want = record(*a);
  Camera::Ptr b;
  const int how = s.i(0, 3);
  s << "how " << how << "\n";
  if (how == 0) {
    b = aslam::createCamera(YAML::Load(textOf(*a, s.boolean())));
    REQ(b) << "refused:\n" << textOf(*a, true);
  } else if (how == 1) {  // the node itself
    YAML::Node node;
    a->serialize(&node);
    b = aslam::createCamera(node);
    REQ(b) << "refused:\n" << textOf(*a, true);
  } else {
    // into a fresh camera or into one that holds something else
    if (s.boolean()) b = fresh(p.c.kind);
    else {
      for (int i = 0; i < 10 && !b; ++i) {
        CameraSpec q = cameraSpec(s);
        if (q.c.kind == p.c.kind) b = make(q);
      }
      if (!b) b = fresh(p.c.kind);
    }
    if (how == 2) REQ(b->deserialize(YAML::Load(textOf(*a, s.boolean())))) << textOf(*a, true);
    else {
      a->serializeToFile(scratch());
      REQ(b->deserializeFromFile(scratch())) << textOf(*a, true);
    }
  }
  REQ_EQ(record(*b), want) << "\n" << textOf(*a, true);
  REQ_EQ(record(*a), want) << "saving changed the camera";
  REQ(b->isValid());
  REQ_EQ(b->getSensorType(), a->getSensorType());
  same(*a, *b, "loaded camera");
  REQ_EQ(textOf(*b, true), textOf(*a, true));
}

PBT_PROP(rigYaml, "at least two cameras", 7500, 150000) {
  RemoveScratch cleanup;
  RigSpec p = rigSpec(s, 1, s.chance(1, 700) ? 300 : 5);
  s << p.cameras.size() << " cameras, covariance " << p.has_cov << "\n";
  for (const CameraSpec& c : p.cameras) describe(s, c);
  if (p.cameras.size() > 1) s.nontrivial();
  NCamera::Ptr a = make(p);
  const RigRecord want = record(*a);
  NCamera::Ptr b = aligned_shared<NCamera>();
  if (s.boolean()) {
    RigSpec q = rigSpec(s, 1, 4);
    b = make(q);
    s.label("into a used rig");
  }
  const int how = s.i(0, 2);
  s << "how " << how << "\n";
  if (how == 0) REQ(b->deserialize(YAML::Load(textOf(*a, s.boolean()))));
  else if (how == 1) {
    YAML::Node node;
    a->serialize(&node);
    REQ(b->deserialize(node));
  } else {
    a->serializeToFile(scratch());
    REQ(b->deserializeFromFile(scratch()));
  }
  expectSame(record(*b), want, 1e-13, "loaded rig");
  expectSame(record(*a), want, 0, "saved rig");
  same(*a, *b, "loaded rig");
  REQ(b->isValid());
  for (size_t i = 0; i < p.cameras.size(); ++i) {
    REQ_EQ(b->getCameraIndex(p.cameras[i].id), static_cast<int>(i));
    REQ(b->hasCameraWithId(p.cameras[i].id));
  }
  // and the same transform given in the other direction
  YAML::Node node;
  a->serialize(&node);
  YAML::Node other = YAML::Load(YAML::Dump(node));
  for (size_t i = 0; i < p.cameras.size(); ++i) {
    if (!s.boolean()) continue;
    other["cameras"][i].remove("T_B_C");
    other["cameras"][i]["T_C_B"] = a->get_T_C_B(i).getTransformationMatrix();
  }
  NCamera c;
  REQ(c.deserialize(YAML::Load(YAML::Dump(other))));
  expectSame(record(c), want, 1e-13, "rig given by T_C_B");
}

// ------------------------------------------------------------ single changes
// Applies one change to one attribute; returns its name, or "" when it cannot.
std::string change(Source& s, Camera* c, const CameraRecord& r, bool masks) {
  switch (s.i(0, masks ? 9 : 8)) {
    case 0: {
      SensorId id;
      std::string h = r.id;
      const size_t at = s.draw(32);
      h[at] = h[at] == '3' ? '4' : '3';
      REQ(id.fromHexString(h));
      c->setId(id);
      return "id";
    }
    case 1: c->setTopic(r.topic + (s.boolean() ? " " : "x")); return "topic";
    case 2: c->setDescription(s.boolean() || r.description.empty() ? r.description + "\t" : r.description.substr(1)); return "description";
    case 3: c->setLineDelayNanoSeconds(r.delay ^ (1ull << s.draw(64))); return "line delay";
    case 4: c->setImageWidth(r.w ^ (1u << s.draw(32))); return "image width";
    case 5: c->setImageHeight(r.h ^ (1u << s.draw(32))); return "image height";
    case 6: c->setCompressedImages(!r.compressed); return "compressed";
    case 7: {
      // larger than the tolerance of the comparison (1e-8 of the norm)
      Eigen::VectorXd v = r.intr;
      const int i = s.i(0, static_cast<int>(v.size()) - 1);
      v(i) += std::max(v.norm() * s.logReal(1e-6, 1), 1e-6);
      if (s.boolean()) c->setParameters(v);
      else c->getParametersMutable()[i] = v(i);
      return "intrinsics " + std::to_string(i);
    }
    case 8: {
      if (c->getType() == Camera::Type::kLidar3D) return "";
      const bool other_model = r.k.size() == 0 || s.boolean();
      if (!other_model) {
        Eigen::VectorXd k = r.k;
        const int i = s.i(0, static_cast<int>(k.size()) - 1);
        if (c->getDistortion().getType() == aslam::Distortion::Type::kFisheye) k(0) = r.k(0) == 0.75 ? 0.8 : 0.75;
        else k(i) += (std::fabs(k(i)) + 1e-3) * s.logReal(1e-9, 1);
        if (s.boolean()) c->getDistortionMutable()->setParameters(k);
        else c->getDistortionMutable()->getParametersMutable()[i] = k(i);
        return "distortion parameter";
      }
      int m;
      do { m = s.i(0, 3); } while (static_cast<int>(dref::make(m, Eigen::VectorXd::Constant(dref::paramCount(m), 0.6))->getType()) == r.model);
      if (m == dref::kNull && s.boolean()) { c->removeDistortion(); return "distortion model"; }
      // keep the parameters where the other model has as many
      Eigen::VectorXd k = dref::paramCount(m) == r.k.size() ? r.k : Eigen::VectorXd(dref::params(s, m));
      aslam::Distortion::UniquePtr d(dref::make(m, k).release());
      c->setDistortion(d);
      return "distortion model";
    }
    default: {
      if (r.mask.empty()) return "";
      cv::Mat m = c->getMask();  // refers to the data of the camera
      uint8_t& px = m.at<uint8_t>(s.i(0, m.rows - 1), s.i(0, m.cols - 1));
      px = px ^ 1;
      return "mask";
    }
  }
}

std::string changeRig(Source& s, NCamera* n, const RigRecord& r, bool masks) {
  const size_t k = r.cameras.size();
  switch (s.i(0, 7)) {
    case 0: { SensorId id; generateId(&id); n->setId(id); return "rig id"; }
    case 1: n->setTopic(r.topic + "x"); return "rig topic";
    case 2: n->setDescription(r.description + " "); return "rig description";
    case 3:
    case 4: {
      if (k == 0) return "";
      const size_t i = s.draw(k);
      const double by = s.logReal(1e-6, 10);
      Transformation T = n->get_T_C_B(i);
      if (s.boolean()) {
        T.getPosition()(s.i(0, 2)) += s.boolean() ? by : -by;
      } else {
        Eigen::Vector3d a = Eigen::Vector3d::Zero();
        a(s.i(0, 2)) = std::min(by, 3.0);
        T = Transformation(T.getRotation() * aslam::Quaternion(a), T.getPosition());
      }
      const int how = s.i(0, 2);
      if (how == 0) n->set_T_C_B(i, T);
      else if (how == 1) n->get_T_C_B_Mutable(i) = T;
      else n->get_T_C_B_Mutable(n->getCameraId(i)) = T;
      return "extrinsics";
    }
    case 5: {
      if (k < 2) return "";
      const size_t i = s.draw(k), j = (i + 1 + s.draw(k - 1)) % k;
      Camera::Ptr a = n->getCameraShared(i), b = n->getCameraShared(j);
      n->setCamera(i, b);
      n->setCamera(j, a);
      return "order of cameras";
    }
    default: {
      if (k == 0) return "";
      const size_t i = s.draw(k);
      Camera* c = s.boolean() ? &n->getCameraMutable(i) : n->getCameraShared(i).get();
      const std::string what = change(s, c, r.cameras[i], masks);
      return what.empty() ? "" : "camera " + what;
    }
  }
}

PBT_PROP(comparison, "one attribute changed", 15000, 300000) {
  CameraSpec p = cameraSpec(s);
  describe(s, p);
  Camera::Ptr a = make(p), b = make(p);
  same(*a, *a, "itself");
  same(*a, *b, "twin");
  const std::string what = change(s, b.get(), record(*b), false);
  if (what.empty()) throw pbt::Discard();
  s << "change: " << what << "\n";
  s.label(what.substr(0, what.find(' ')));
  s.nontrivial();
  different(*a, *b, what);
  // another kind with everything else equal
  if (p.c.kind != cref::kLidar) {
    CameraSpec q = p;
    q.c.kind = p.c.kind == cref::kPinhole ? cref::kUnified : cref::kPinhole;
    if (q.c.kind == cref::kPinhole) q.c.intr = p.c.intr.tail(4).eval();
    else q.c.intr = (Eigen::VectorXd(5) << 0, p.c.intr).finished();
    different(*a, *make(q), "other model");
    if (p.c.kind == cref::kPinhole && p.c.model == dref::kNull) {
      q.c.kind = cref::kLidar;
      q.c.intr = p.c.intr;
      different(*a, *make(q), "lidar");
    }
  }
}

PBT_PROP(rigComparison, "one attribute changed", 10000, 200000) {
  RigSpec p = rigSpec(s);
  NCamera::Ptr a = make(p), b = make(p);
  same(*a, *a, "itself");
  same(*a, *b, "twin");
  // a camera with the labels of the rig is no rig
  Camera::Ptr c = make(p.cameras[0]);
  c->setId(p.id);
  c->setTopic(p.topic);
  c->setDescription(p.description);
  different(*a, *c, "a camera");
  std::string what;
  if (s.chance(1, 6)) {  // one more or one less
    RigSpec q = p;
    if (s.boolean() || p.cameras.size() == 1) {
      const size_t at = s.draw(p.cameras.size() + 1);
      CameraSpec extra = cameraSpec(s);
      generateId(&extra.id);
      q.cameras.insert(q.cameras.begin() + at, extra);
      q.T_C_B.insert(q.T_C_B.begin() + at, transformation(s));
    } else {
      const size_t at = s.draw(p.cameras.size());
      q.cameras.erase(q.cameras.begin() + at);
      q.T_C_B.erase(q.T_C_B.begin() + at);
    }
    b = make(q);
    what = "number of cameras";
  } else if (s.chance(1, 6) && p.cameras.size() > 1) {
    // cameras (or extrinsics) in another order
    RigSpec q = p;
    const size_t n = p.cameras.size(), i = s.draw(n), j = (i + 1 + s.draw(n - 1)) % n;
    std::swap(q.cameras[i], q.cameras[j]);
    std::swap(q.T_C_B[i], q.T_C_B[j]);
    b = make(q);
    what = "order";
  } else {
    what = changeRig(s, b.get(), record(*b), false);
  }
  if (what.empty()) throw pbt::Discard();
  s << "change: " << what << " of " << p.cameras.size() << " cameras\n";
  s.label(what);
  s.nontrivial();
  different(*a, *b, what);
}

// ------------------------------------------------------------ clones
PBT_PROP(cloning, "the clone or the original was changed", 10000, 200000) {
  CameraSpec p = cameraSpec(s, true);
  describe(s, p);
  Camera::Ptr a = make(p), b;
  if (s.boolean()) b.reset(a->clone());
  else b = std::dynamic_pointer_cast<Camera>(static_cast<const aslam::Sensor&>(*a).cloneAsSensor());
  REQ(b && b != a);
  const CameraRecord want = record(*a);
  REQ_EQ(record(*b), want);
  same(*a, *b, "clone");
  REQ(typeid(*a) == typeid(*b));
  if (s.boolean()) std::swap(a, b);
  for (int n = s.i(1, 3); n > 0; --n) {
    const CameraRecord before = record(*b);
    const std::string what = change(s, b.get(), before, true);
    if (what.empty()) continue;
    s << "change: " << what << "\n";
    s.label(what.substr(0, what.find(' ')));
    s.nontrivial();
    REQ(record(*b) != before) << what;
    REQ_EQ(record(*a), want) << "changed through the clone: " << what;
  }
  b.reset();
  REQ_EQ(record(*a), want) << "after the clone was destroyed";
}

PBT_PROP(rigCloning, "the clone or the original was changed", 7500, 150000) {
  RigSpec p = rigSpec(s, 0, s.chance(1, 700) ? 300 : 4, true);
  NCamera::Ptr a = make(p), b;
  const RigRecord want = record(*a);
  const int how = s.i(0, 4);
  s << "how " << how << " cameras " << p.cameras.size() << "\n";
  RigRecord expect = want;
  switch (how) {
    case 0: b.reset(a->clone()); break;
    case 1: b = a->cloneToShared(); break;
    case 2: b = std::dynamic_pointer_cast<NCamera>(a->cloneAsSensor()); break;
    case 3: b = aligned_shared<NCamera>(*a); break;
    default: {
      b.reset(a->cloneWithNewIds());
      std::set<std::string> ids{want.id};
      for (const CameraRecord& c : want.cameras) ids.insert(c.id);
      const size_t old = ids.size();
      RigRecord got = record(*b);
      ids.insert(got.id);
      for (const CameraRecord& c : got.cameras) ids.insert(c.id);
      REQ_EQ(ids.size(), old + 1 + got.cameras.size()) << "new ids are not new";
      for (size_t i = 0; i < got.cameras.size(); ++i) REQ_EQ(b->getCameraIndex(b->getCameraId(i)), static_cast<int>(i));
      expect.id = got.id;
      REQ_EQ(got.cameras.size(), want.cameras.size());
      for (size_t i = 0; i < got.cameras.size(); ++i) expect.cameras[i].id = got.cameras[i].id;
      different(*a, *b, "new ids");
    }
  }
  REQ(b && b != a);
  expectSame(record(*b), expect, 0, "clone");
  expectSame(record(*a), want, 0, "cloned");
  if (how < 4) same(*a, *b, "clone");
  RigRecord keep = want;
  if (s.boolean()) {
    std::swap(a, b);
    keep = expect;
  }
  for (int n = s.i(1, 4); n > 0; --n) {
    std::string what;
    if (s.chance(1, 8)) {
      aslam::TransformationCovariance c = aslam::TransformationCovariance::Identity() * s.real(0.1, 2);
      b->set_T_G_B_fixed_localization_covariance(c);
      what = "covariance";
    } else {
      what = changeRig(s, b.get(), record(*b), true);
    }
    if (what.empty()) continue;
    s << "change: " << what << "\n";
    s.label(what);
    s.nontrivial();
    expectSame(record(*a), keep, 0, "changed through the clone: " + what);
  }
}

// ------------------------------------------------------------ documents
std::string garbage(Source& s) {
  static const char* t[] = {"abc", "", "~", "[1, 2]", "{a: 1}", "-5", "3.5", "99999999999999999999999", "1e3x", "[[1], [2]]", "0x", "[]", "{}"};
  return t[s.draw(sizeof(t) / sizeof(*t))];
}
YAML::Node matrixNode(const Eigen::MatrixXd& m) {
  YAML::Node n;
  n["rows"] = static_cast<int>(m.rows());
  n["cols"] = static_cast<int>(m.cols());
  YAML::Node d;
  for (int i = 0; i < m.rows(); ++i)
    for (int j = 0; j < m.cols(); ++j) d.push_back(m(i, j));
  n["data"] = d;
  return n;
}
// Replaces a matrix by something that is no matrix of that shape.
std::string spoilMatrix(Source& s, YAML::Node parent, const std::string& key) {
  YAML::Node n = parent[key];
  switch (s.i(0, 6)) {
    case 0: parent[key] = YAML::Load(garbage(s)); return key + " garbage";
    case 1: n.remove("rows"); return key + " without rows";
    case 2: n.remove("cols"); return key + " without cols";
    case 3: n.remove("data"); return key + " without data";
    case 4: n["rows"] = n["rows"].as<int>() + (s.boolean() ? 1 : -1); return key + " wrong rows";
    case 5: n["data"][s.draw(n["data"].size())] = "x"; return key + " no number";
    default: n["data"].push_back(1.5); return key + " too much data";
  }
}

// Makes the document of a camera invalid; empty if it could not.
std::string spoilCamera(Source& s, YAML::Node doc, const CameraSpec& p) {
  static const char* mandatory[] = {"image_width", "image_height", "type", "intrinsics"};
  switch (s.i(0, 11)) {
    case 0:
    case 1: {
      const char* k = mandatory[s.draw(4)];
      if (s.boolean()) { doc.remove(k); return std::string("no ") + k; }
      doc[k] = YAML::Node();
      return std::string("null ") + k;
    }
    case 2: {
      const char* k = mandatory[s.draw(3)];
      doc[k] = YAML::Load(garbage(s));
      return std::string("garbage ") + k;
    }
    case 3: return spoilMatrix(s, doc, "intrinsics");
    case 4: {  // wrong number of intrinsics
      Eigen::VectorXd v = p.c.intr;
      if (s.boolean()) v.conservativeResize(v.size() - 1);
      else { v.conservativeResize(v.size() + 1); v(v.size() - 1) = 2; }
      // a unified camera with one parameter less has valid pinhole ones, but the type says otherwise
      doc["intrinsics"] = matrixNode(v);
      return "number of intrinsics";
    }
    case 5: {  // out of range
      Eigen::VectorXd v = p.c.intr;
      const int i = p.c.kind == cref::kLidar ? s.i(0, 1) : s.i(0, static_cast<int>(v.size()) - 1);
      v(i) = p.c.kind == cref::kUnified && i == 0 ? -0.1 : s.boolean() ? 0.0 : -v(i);
      if (s.chance(1, 4)) v(i) = std::numeric_limits<double>::quiet_NaN();
      doc["intrinsics"] = matrixNode(v);
      return "intrinsics out of range";
    }
    case 6: {
      static const char* t[] = {"", "no-such-model", "PINHOLE", "pinhole ", "unified", "lidar", "radtan"};
      doc["type"] = t[s.draw(7)];
      return "unknown type";
    }
    case 7: {
      static const char* t[] = {"", "xyz", "0123456789abcdef0123456789abcde", "0123456789abcdef0123456789abcdef0", "0123456789abcdefg123456789abcdef",
                                "00000000000000000000000000000000"};
      doc["id"] = std::string(t[s.draw(6)]);
      return "invalid id";
    }
    default: {
      if (!doc["distortion"]) {
        if (p.c.kind == cref::kLidar) return "";
        YAML::Node d;
        d["type"] = "radial-tangential";
        d["parameters"] = matrixNode(Eigen::Vector4d(0.1, 0, 0, 0.1));
        doc["distortion"] = d;
      }
      YAML::Node d = doc["distortion"];
      switch (s.i(0, 5)) {
        case 0: d.remove("type"); return "distortion without type";
        case 1: d.remove("parameters"); return "distortion without parameters";
        case 2: {
          static const char* t[] = {"", "no-such-model", "radtan", "Fisheye"};
          d["type"] = t[s.draw(4)];
          return "unknown distortion";
        }
        case 3: return spoilMatrix(s, d, "parameters");
        case 4: {
          static const char* t[] = {"none", "equidistant", "fisheye", "radial-tangential"};
          static const int n[] = {0, 4, 1, 4};
          const int m = s.i(1, 3);
          int k;
          do { k = s.i(1, 6); } while (k == n[m]);
          d["type"] = t[m];
          d["parameters"] = matrixNode(Eigen::VectorXd::Constant(k, 0.6));
          return "number of distortion parameters";
        }
        default: {
          if (s.boolean()) {
            d["type"] = "fisheye";
            static const double t[] = {-0.7, 0.1, 2.5, 1e9};
            d["parameters"] = matrixNode(Eigen::VectorXd::Constant(1, t[s.draw(4)]));
            return "fisheye out of range";
          }
          static const char* t[] = {"abc", "[1, 2]", "5"};
          doc["distortion"] = YAML::Load(t[s.draw(3)]);
          return "distortion is no map";
        }
      }
    }
  }
}

PBT_PROP(badCamera, "a mandatory field missing or invalid", 20000, 400000) {
  RemoveScratch cleanup;
  CameraSpec p = cameraSpec(s);
  if (p.c.intr.minCoeff() <= 0 && p.c.kind != cref::kLidar && p.c.kind != cref::kUnified) throw pbt::Discard();
  describe(s, p);
  Camera::Ptr a = make(p);
  YAML::Node good;
  a->serialize(&good);
  YAML::Node doc = YAML::Load(YAML::Dump(good));
  std::string what;
  if (s.chance(1, 12)) {
    static const char* t[] = {"~", "abc", "[1, 2]", "5", "[]"};
    doc = YAML::Load(t[s.draw(5)]);
    what = "no map";
  } else {
    what = spoilCamera(s, doc, p);
  }
  if (what.empty()) throw pbt::Discard();
  s << "document: " << what << "\n" << YAML::Dump(doc) << "\n";
  s.label(what);
  s.nontrivial();
  YAML::Node parsed = YAML::Load(YAML::Dump(doc));
  Camera::Ptr r = aslam::createCamera(parsed);
  REQ(!r) << what << " was accepted as " << record(*r);
  Camera::Ptr used = s.boolean() ? fresh(p.c.kind) : make(p);
  if (s.boolean()) {
    std::ofstream(scratch()) << YAML::Dump(doc);
    REQ(!used->deserializeFromFile(scratch())) << what << " was accepted";
  } else {
    REQ(!used->deserialize(parsed)) << what << " was accepted";
  }
  // the object can still be loaded properly
  REQ(used->deserialize(YAML::Load(YAML::Dump(good))));
  same(*a, *used, "loaded afterwards");
  REQ_EQ(record(*used), record(*a));
}

PBT_PROP(otherCamera, "always", 5000, 100000) {
  // a document of one model is no document of another
  CameraSpec p = cameraSpec(s);
  describe(s, p);
  Camera::Ptr a = make(p);
  const int kind = (p.c.kind + s.i(1, 2)) % 3;
  s << "into " << cref::kindName(kind) << "\n";
  s.nontrivial();
  Camera::Ptr b = fresh(kind);
  REQ(!b->deserialize(YAML::Load(textOf(*a, true)))) << "accepted";
  REQ(static_cast<int>(b->getType()) == kind) << "changed its type";
}

PBT_PROP(badRig, "a mandatory field missing or invalid", 15000, 300000) {
  RemoveScratch cleanup;
  RigSpec p = rigSpec(s, 1, 4);
  NCamera::Ptr a = make(p);
  YAML::Node good;
  a->serialize(&good);
  YAML::Node doc = YAML::Load(YAML::Dump(good));
  const size_t n = p.cameras.size(), at = s.draw(n);
  std::string what;
  switch (s.i(0, 9)) {
    case 0: {
      static const char* t[] = {"~", "abc", "[]", "{}", "5", "{a: 1}", "[[]]", "[5]", "[~]", "[abc]"};
      if (s.chance(1, 4)) { doc.remove("cameras"); what = "no cameras"; }
      else { doc["cameras"] = YAML::Load(t[s.draw(10)]); what = "garbage cameras"; }
      break;
    }
    case 1: {
      static const char* t[] = {"~", "abc", "[]", "{}", "5"};
      doc["cameras"][at] = YAML::Load(t[s.draw(5)]);
      what = "garbage camera entry";
      break;
    }
    case 2: doc["cameras"][at].remove("T_B_C"); what = "no extrinsics"; break;
    case 3: what = spoilMatrix(s, doc["cameras"][at], "T_B_C"); break;
    case 4: {  // no rotation
      Eigen::Matrix4d T = a->get_T_C_B(at).inverse().getTransformationMatrix();
      switch (s.i(0, 3)) {
        case 0: T.topLeftCorner<3, 3>() *= s.boolean() ? s.real(1.01, 3) : s.real(0, 0.99); break;
        case 1: T.row(s.i(0, 2)).head<3>() *= -1; break;
        case 2: T.topLeftCorner<3, 3>().setZero(); break;
        default: T(s.i(0, 2), s.i(0, 2)) += s.boolean() ? 0.5 : -0.5;
      }
      const bool inverse = s.boolean();
      doc["cameras"][at].remove("T_B_C");
      doc["cameras"][at][inverse ? "T_C_B" : "T_B_C"] = matrixNode(T);
      what = "no rotation";
      break;
    }
    case 5: {  // wrong shape
      static const int r[][2] = {{3, 4}, {4, 3}, {3, 3}, {1, 16}, {16, 1}, {5, 5}, {2, 8}};
      const int k = s.i(0, 6);
      doc["cameras"][at]["T_B_C"] = matrixNode(Eigen::MatrixXd::Identity(r[k][0], r[k][1]));
      what = "shape of extrinsics";
      break;
    }
    case 6: doc["T_G_B_fixed_covariance"] = matrixNode(Eigen::MatrixXd::Identity(6, 6)); what = spoilMatrix(s, doc, "T_G_B_fixed_covariance"); break;
    case 7: {
      static const char* t[] = {"", "xyz", "0123456789abcdef0123456789abcde", "00000000000000000000000000000000"};
      doc["id"] = std::string(t[s.draw(4)]);
      what = "invalid id";
      break;
    }
    case 8:
      if (s.boolean()) { doc["cameras"][at].remove("camera"); what = "no camera"; break; }
      // fall through
    default: what = spoilCamera(s, doc["cameras"][at]["camera"], p.cameras[at]);
  }
  if (what.empty()) throw pbt::Discard();
  s << "document: camera " << at << " of " << n << ": " << what << "\n" << YAML::Dump(doc) << "\n";
  s.label(what);
  s.nontrivial();
  NCamera::Ptr used = s.boolean() ? make(p) : aligned_shared<NCamera>();
  if (s.boolean()) {
    std::ofstream(scratch()) << YAML::Dump(doc);
    REQ(!used->deserializeFromFile(scratch())) << what << " was accepted";
  } else {
    REQ(!used->deserialize(YAML::Load(YAML::Dump(doc)))) << what << " was accepted";
  }
  REQ(used->deserialize(YAML::Load(YAML::Dump(good))));
  expectSame(record(*used), record(*a), 1e-13, "loaded afterwards");
  same(*a, *used, "loaded afterwards");
}

PBT_PROP(optional, "an optional field missing", 10000, 200000) {
  // Optional fields have their documented defaults, in a used object as well.
  CameraSpec p = cameraSpec(s);
  describe(s, p);
  Camera::Ptr a = make(p);
  YAML::Node doc;
  a->serialize(&doc);
  doc = YAML::Load(YAML::Dump(doc));
  CameraRecord want = record(*a);
  switch (s.i(0, 3)) {
    case 0:
      if (s.boolean()) doc.remove("line-delay-nanoseconds");
      else doc["line-delay-nanoseconds"] = "x";
      want.delay = 0;
      break;
    case 1:
      if (s.boolean()) doc.remove("compressed");
      else doc["compressed"] = "x";
      want.compressed = false;
      break;
    case 2:
      if (s.boolean()) doc.remove("distortion");
      else doc["distortion"] = YAML::Node();
      want.model = 0;
      want.k.resize(0);
      break;
    default: doc.remove("id"); want.id = "";
  }
  s << YAML::Dump(doc) << "\n";
  s.nontrivial();
  Camera::Ptr b = make(p);
  const std::string old = b->getId().hexString();
  if (s.boolean()) {
    b = aslam::createCamera(YAML::Load(YAML::Dump(doc)));
    REQ(b) << "refused";
  } else {
    REQ(b->deserialize(YAML::Load(YAML::Dump(doc))));
  }
  CameraRecord got = record(*b);
  REQ(b->getId().isValid());
  if (want.id.empty()) {
    REQ(got.id != old) << "a document without an id gets a new one";
    got.id = "";
  }
  REQ_EQ(got, want);
}

PBT_PROP(badFile, "file exists", 2500, 25000) {
  RemoveScratch cleanup;
  CameraSpec p = cameraSpec(s);
  Camera::Ptr c = make(p);
  NCamera n;
  const int how = s.i(0, 4);
  s << "how " << how << "\n";
  if (how > 0) s.nontrivial();
  std::string file = scratch();
  if (how == 1) file = "/tmp";
  if (how == 2) { std::ofstream o(file); }
  if (how == 3) std::ofstream(file) << "a: [1, 2\nb: {";
  if (how == 4) {  // cut off
    std::string t = textOf(*c, true);
    const size_t at = t.find("type:");
    REQ(at != std::string::npos);
    std::ofstream(file) << "{" << t.substr(0, s.draw(at));
  }
  REQ(!c->deserializeFromFile(file));
  REQ(!n.deserializeFromFile(file));
}

PBT_PROP(factory, "always", 5000, 100000) {
  CameraSpec p = cameraSpec(s);
  if (p.c.kind == cref::kLidar) throw pbt::Discard();
  describe(s, p);
  s.nontrivial();
  Camera::Ptr a = make(p);
  Camera::Ptr b = aslam::createCamera(p.id, p.c.intr, p.c.w, p.c.h, p.c.k, a->getType(), a->getDistortion().getType());
  REQ(b);
  b->setTopic(p.topic);
  b->setDescription(p.description);
  b->setLineDelayNanoSeconds(p.delay);
  b->setCompressedImages(p.compressed);
  REQ_EQ(record(*b), record(*a));
  same(*a, *b, "factory");
}

PBT_PROP(defaults, "always", 2500, 25000) {
  // Cameras that hold nothing yet compare and clone like others.
  const int k = s.i(0, 2), m = s.i(0, 2);
  s << cref::kindName(k) << " vs " << cref::kindName(m) << "\n";
  s.nontrivial();
  Camera::Ptr a = fresh(k), b = fresh(m);
  different(*a, *b, "fresh cameras have different ids");
  b->setId(a->getId());
  if (k == m) same(*a, *b, "fresh");
  else different(*a, *b, "fresh cameras of different models");
  CameraSpec p = cameraSpec(s);
  p.id = a->getId();
  p.topic = p.description = "";
  Camera::Ptr c = make(p);
  different(*a, *c, "fresh and built");
  Camera::Ptr d(a->clone());
  same(*a, *d, "clone of a fresh camera");
  REQ(!a->isValid());
  NCamera e, f;
  different(e, f, "fresh rigs");
  f.setId(e.getId());
  same(e, f, "fresh rigs");
  Camera::Ptr r = fresh(k);
  r->setRandom();
  REQ(r->isValid());
  Camera::Ptr q = aslam::createCamera(YAML::Load(textOf(*r, true)));
  REQ(q);
  same(*r, *q, "random camera");
}
}  // namespace

