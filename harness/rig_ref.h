// Generators of cameras and camera rigs with all their attributes, and an
// independent record of those attributes read through the public getters.
#ifndef VERIF_RIG_REF_H_
#define VERIF_RIG_REF_H_

#include <aslam/cameras/ncamera.h>
#include <aslam/common/unique-id.h>

#include "camera_ref.h"
#include "util.h"

namespace rref {
using aslam::Camera;
using aslam::NCamera;
using aslam::Transformation;
typedef aslam::SensorId SensorId;

inline std::string hexId(pbt::Source& s) {
  static const char* digits = "0123456789abcdef";
  std::string h;
  if (s.chance(1, 4)) {  // numbers and exponents to a YAML parser
    const int k = s.i(0, 2);
    for (int i = 0; i < 32; ++i) h += k == 0 ? '0' + s.i(0, 9) : k == 1 ? (i == 31 ? '1' : '0') : (i == 8 ? 'e' : '0' + s.i(1, 9));
  } else {
    for (int i = 0; i < 32; ++i) h += digits[s.draw(16)];
  }
  if (h.find_first_not_of('0') == std::string::npos) h[31] = '7';
  return h;
}
inline SensorId sensorId(pbt::Source& s) {
  SensorId id;
  REQ(id.fromHexString(hexId(s)));
  return id;
}

// Printable text, UTF-8 and everything that a YAML writer has to quote.
inline std::string text(pbt::Source& s) {
  static const char* special[] = {"", "", "/cam0/image_raw", "~", "null", "true", "no", "12", "1e5", "0x1F", "- a", "a: b", "a #b", "#c",
                                  " lead", "trail ", "two  words", "line\nbreak", "trailing\n", "\n", "tab\there", "\"quoted\"", "it's", "[1, 2]",
                                  "{a: b}", "&anchor", "*alias", "!tag", "%dir", "|", ">", "@at", "`tick", "---", "...", "?", ":", ",", "=", "<<",
                                  "\xc3\xa9t\xc3\xa9", "\xe6\x97\xa5\xe6\x9c\xac", "back\\slash", "\\n", "\r\n", ".nan", ".inf", "Null", "NULL", "-", "0777"};
  switch (s.draw(3)) {
    case 0: return special[s.draw(sizeof(special) / sizeof(*special))];
    case 1: {
      std::string t;
      for (size_t n = s.size(0, 30); n > 0; --n) t += static_cast<char>(s.range(32, 126));
      return t;
    }
    default: return "cam_" + std::to_string(s.range(0, 99));
  }
}

inline Eigen::Quaterniond rotation(pbt::Source& s) {
  switch (s.draw(5)) {
    case 0: return Eigen::Quaterniond(1, 0, 0, 0);
    case 1: {  // 90 / 180 degrees about an axis
      Eigen::Vector3d a = Eigen::Vector3d::Zero();
      a(s.i(0, 2)) = s.boolean() ? 1 : -1;
      return Eigen::Quaterniond(Eigen::AngleAxisd(s.boolean() ? M_PI : M_PI / 2, a));
    }
    case 2: {  // small
      Eigen::Vector3d a(s.sreal(1), s.sreal(1), s.sreal(1));
      if (a.norm() < 1e-2) a = Eigen::Vector3d(0, 1, 0);
      return Eigen::Quaterniond(Eigen::AngleAxisd(s.logReal(1e-9, 0.1), a.normalized()));
    }
    default: {
      Eigen::Quaterniond q(s.sreal(1), s.sreal(1), s.sreal(1), s.sreal(1));
      if (q.norm() < 1e-2) q = Eigen::Quaterniond(0, 1, 0, 0);
      q.normalize();
      return q;
    }
  }
}
inline Transformation transformation(pbt::Source& s, double most = 1e4) {
  const Eigen::Quaterniond q = rotation(s);
  Eigen::Vector3d t = Eigen::Vector3d::Zero();
  if (!s.chance(1, 6)) {
    const double scale = s.boolean() ? 1 : s.logReal(1e-6, most);
    t = Eigen::Vector3d(s.sreal(1), s.sreal(1), s.sreal(1)) * scale;
  }
  return Transformation(aslam::Quaternion(q.w(), q.x(), q.y(), q.z()), aslam::Position3D(t));
}

// Everything a camera reports about itself.
struct CameraRecord {
  int type = 0, model = 0;
  std::string id, topic, description;
  uint32_t w = 0, h = 0;
  uint64_t delay = 0;
  bool compressed = false;
  Eigen::VectorXd intr, k;
  cv::Mat mask;
  bool operator==(const CameraRecord& o) const {
    return type == o.type && model == o.model && id == o.id && topic == o.topic && description == o.description && w == o.w && h == o.h &&
           delay == o.delay && compressed == o.compressed && intr.size() == o.intr.size() && intr == o.intr && k.size() == o.k.size() && k == o.k &&
           mask.size() == o.mask.size() && (mask.empty() || cv::norm(mask, o.mask, cv::NORM_INF) == 0);
  }
  bool operator!=(const CameraRecord& o) const { return !(*this == o); }
};
inline std::ostream& operator<<(std::ostream& o, const CameraRecord& r) {
  o << std::setprecision(17) << "type " << r.type << " dist " << r.model << " id " << r.id << " topic '" << r.topic << "' desc '" << r.description << "' " << r.w << "x"
    << r.h << " delay " << r.delay << " comp " << r.compressed << " intr [" << r.intr.transpose() << "] k [" << r.k.transpose() << "] mask " << r.mask.cols << "x" << r.mask.rows;
  return o;
}
inline CameraRecord record(const Camera& c, bool with_mask = true) {
  CameraRecord r;
  r.type = static_cast<int>(c.getType());
  r.model = static_cast<int>(c.getDistortion().getType());
  r.id = c.getId().hexString();
  r.topic = c.getTopic();
  r.description = c.getDescription();
  r.w = c.imageWidth();
  r.h = c.imageHeight();
  r.delay = c.getLineDelayNanoSeconds();
  r.compressed = c.hasCompressedImages();
  r.intr = c.getParameters();
  r.k = c.getDistortion().getParameters();
  if (with_mask && c.hasMask()) r.mask = c.getMask().clone();
  return r;
}

struct RigRecord {
  std::string id, topic, description;
  std::vector<CameraRecord> cameras;
  std::vector<Eigen::Matrix4d> T_C_B;
  bool has_cov = false;
  Eigen::Matrix<double, 6, 6> cov;
};
inline RigRecord record(const NCamera& n, bool with_mask = true) {
  RigRecord r;
  r.id = n.getId().hexString();
  r.topic = n.getTopic();
  r.description = n.getDescription();
  for (size_t i = 0; i < n.getNumCameras(); ++i) {
    r.cameras.push_back(record(n.getCamera(i), with_mask));
    r.T_C_B.push_back(n.get_T_C_B(i).getTransformationMatrix());
  }
  r.has_cov = n.has_T_G_B_fixed_localization_covariance();
  r.cov.setZero();
  aslam::TransformationCovariance c;
  REQ_EQ(n.get_T_G_B_fixed_localization_covariance(&c), r.has_cov);
  if (r.has_cov) r.cov = c;
  return r;
}
// Fails with what differs; tol: on the extrinsics.
inline void expectSame(const RigRecord& a, const RigRecord& b, double tol, const std::string& what) {
  REQ_EQ(a.id, b.id) << what;
  REQ_EQ(a.topic, b.topic) << what;
  REQ_EQ(a.description, b.description) << what;
  REQ_EQ(a.cameras.size(), b.cameras.size()) << what;
  for (size_t i = 0; i < a.cameras.size(); ++i) {
    REQ_EQ(a.cameras[i], b.cameras[i]) << what << " camera " << i;
    const double t = tol * (1 + a.T_C_B[i].topRightCorner<3, 1>().norm());
    REQ((a.T_C_B[i] - b.T_C_B[i]).cwiseAbs().maxCoeff() <= t) << what << " extrinsics " << i << "\n" << a.T_C_B[i] << "\nvs\n" << b.T_C_B[i];
  }
  REQ_EQ(a.has_cov, b.has_cov) << what;
  if (a.has_cov) REQ(a.cov == b.cov) << what << " covariance\n" << a.cov << "\nvs\n" << b.cov;
}

// A recipe for a camera, so that the same camera can be built twice.
struct CameraSpec {
  cref::Cam c;
  SensorId id;
  std::string topic, description;
  uint64_t delay = 0;
  bool compressed = false;
  int mask = -1;
};
inline Camera::Ptr make(const CameraSpec& p) {
  Camera::Ptr c = cref::build(p.c);
  c->setId(p.id);
  c->setTopic(p.topic);
  c->setDescription(p.description);
  c->setLineDelayNanoSeconds(p.delay);
  c->setCompressedImages(p.compressed);
  if (p.mask >= 0) {
    cv::Mat m(p.c.h, p.c.w, CV_8UC1, cv::Scalar(255));
    if (p.mask > 0) m.at<uint8_t>((p.mask * 7919) % p.c.h, (p.mask * 104729) % p.c.w) = static_cast<uint8_t>(p.mask);
    c->setMask(m);
  }
  return c;
}
inline CameraSpec cameraSpec(pbt::Source& s, bool masks = false) {
  CameraSpec p;
  p.c = cref::camera(s, 3);
  if (s.chance(1, 5)) {  // any valid intrinsics, sizes and parameters
    for (int i = 0; i < p.c.intr.size(); ++i) p.c.intr(i) = s.logReal(1e-6, 1e7);
    if (p.c.model == dref::kRadTan || p.c.model == dref::kEqui)
      for (int i = 0; i < p.c.k.size(); ++i) p.c.k(i) = s.sreal(1) * s.logReal(1e-12, 1e6);
    p.c.w = static_cast<uint32_t>(s.bits());
    p.c.h = static_cast<uint32_t>(s.bits());
  }
  p.id = sensorId(s);
  p.topic = text(s);
  p.description = text(s);
  p.delay = s.chance(1, 3) ? 0 : s.boolean() ? s.range(1, 100000) : s.bits();
  p.compressed = s.boolean();
  if (masks && p.c.w > 0 && p.c.h > 0 && static_cast<uint64_t>(p.c.w) * p.c.h < 3000000 && s.chance(1, 3)) p.mask = s.i(0, 200);
  return p;
}

struct RigSpec {
  SensorId id;
  std::string topic, description;
  std::vector<CameraSpec> cameras;
  aslam::TransformationVector T_C_B;
  bool has_cov = false;
  aslam::TransformationCovariance cov;
};
inline NCamera::Ptr make(const RigSpec& p) {
  std::vector<Camera::Ptr> cameras;
  for (const CameraSpec& c : p.cameras) cameras.push_back(make(c));
  NCamera::Ptr n(p.has_cov ? new NCamera(p.id, p.T_C_B, p.cov, cameras, p.description) : new NCamera(p.id, p.T_C_B, cameras, p.description));
  n->setTopic(p.topic);
  return n;
}
inline RigSpec rigSpec(pbt::Source& s, size_t least = 1, size_t most = 5, bool masks = false) {
  RigSpec p;
  p.id = sensorId(s);
  p.topic = text(s);
  p.description = text(s);
  const size_t n = most >= 300 ? s.range(256, most) : s.size(least, most);
  for (size_t i = 0; i < n; ++i) {
    CameraSpec c = cameraSpec(s, masks);
    for (const CameraSpec& o : p.cameras)
      while (o.id == c.id) generateId(&c.id);
    p.cameras.push_back(c);
    p.T_C_B.push_back(transformation(s));
  }
  p.has_cov = s.boolean();
  p.cov.setZero();
  if (p.has_cov)
    for (int i = 0; i < 36; ++i) p.cov(i / 6, i % 6) = s.chance(1, 4) ? 0.0 : s.sreal(1) * s.logReal(1e-9, 1e6);
  return p;
}
}  // namespace rref
#endif  // VERIF_RIG_REF_H_
