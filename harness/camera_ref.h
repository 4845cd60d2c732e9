// Reference definition of the camera models, written from their published
// equations, and generators of cameras, pixels and points.
#ifndef VERIF_CAMERA_REF_H_
#define VERIF_CAMERA_REF_H_

#include <iomanip>
#include <memory>

#include <aslam/cameras/camera-3d-lidar.h>
#include <aslam/cameras/camera-pinhole.h>
#include <aslam/cameras/camera-unified-projection.h>

#include "distortion_ref.h"

namespace cref {
using dref::L;
using dref::Dual;
enum Kind { kPinhole = 0, kUnified = 1, kLidar = 2 };
typedef aslam::ProjectionResult::Status Status;
typedef Eigen::Vector2d V2;
typedef Eigen::Vector3d V3;

inline const char* kindName(int k) {
  static const char* n[] = {"pinhole", "unified", "lidar"};
  return n[k];
}

struct Cam {
  int kind = 0, model = 0;
  Eigen::VectorXd intr, k;
  uint32_t w = 0, h = 0;
  double disc = 0;  // radius on the undistorted image plane on which everything is well conditioned
  std::shared_ptr<aslam::Camera> cam;
  double xi() const { return intr(0); }
  double f(int i) const { return intr(kind == kUnified ? 1 + i : i); }
  double c(int i) const { return intr(kind == kUnified ? 3 + i : 2 + i); }
  void setC(int i, double v) { intr(kind == kUnified ? 3 + i : 2 + i) = v; }
};

inline std::shared_ptr<aslam::Camera> build(const Cam& c) {
  std::shared_ptr<aslam::Camera> r;
  aslam::Distortion::UniquePtr d(dref::make(c.model, c.k).release());
  if (c.kind == kPinhole) r.reset(new aslam::PinholeCamera(c.intr, c.w, c.h, d));
  else if (c.kind == kUnified) r.reset(new aslam::UnifiedProjectionCamera(c.intr, c.w, c.h, d));
  else r.reset(new aslam::Camera3DLidar(c.intr, c.w, c.h));
  return r;
}

// The projection without any validity test; intr and k hold T.
template <typename T>
void project(const Cam& c, const T* in, const T* k, T x, T y, T z, T* u, T* v) {
  using dref::sqrt;
  T den = z;
  int o = 0;
  if (c.kind == kUnified) {
    den = z + in[0] * sqrt(x * x + y * y + z * z);
    o = 1;
  }
  T px, py;
  dref::distort<T>(c.model, k, x / den, y / den, &px, &py);
  *u = in[o] * px + in[o + 2];
  *v = in[o + 1] * py + in[o + 3];
}

// Pixel of a lidar; u in [0, 2 pi / resolution).
inline void projectLidar(const Cam& c, const V3& p, L* u, L* v) {
  const L x = p(0), y = p(1), z = p(2), pi2 = 2 * acosl(-1.0L);
  L a = fmodl(atan2l(x, z) + static_cast<L>(c.intr(3)), pi2);
  if (a < 0) a += pi2;
  *u = a / c.intr(0);
  *v = (asinl(y / sqrtl(x * x + y * y + z * z)) + static_cast<L>(c.intr(2))) / c.intr(1);
}

inline V2 refProject(const Cam& c, const V3& p) {
  L in[5], k[4] = {0, 0, 0, 0}, u, v;
  if (c.kind == kLidar) projectLidar(c, p, &u, &v);
  else {
    for (int i = 0; i < c.intr.size(); ++i) in[i] = c.intr(i);
    for (int i = 0; i < c.k.size(); ++i) k[i] = c.k(i);
    project<L>(c, in, k, p(0), p(1), p(2), &u, &v);
  }
  return V2(static_cast<double>(u), static_cast<double>(v));
}

// Point on the undistorted image plane.
inline V2 plane(const Cam& c, const V3& p) {
  const double den = c.kind == kUnified ? p(2) + c.xi() * p.norm() : p(2);
  return V2(p(0) / den, p(1) / den);
}

// Unit ray through a point of the undistorted image plane.
inline V3 lift(const Cam& c, const V2& m) {
  const L x = m(0), y = m(1), r2 = x * x + y * y;
  if (c.kind == kPinhole) {
    const L n = sqrtl(1 + r2);
    return V3(static_cast<double>(x / n), static_cast<double>(y / n), static_cast<double>(1 / n));
  }
  const L xi = c.xi();
  const L eta = (xi + sqrtl(std::max<L>(0, 1 + (1 - xi * xi) * r2))) / (1 + r2);
  return V3(static_cast<double>(eta * x), static_cast<double>(eta * y), static_cast<double>(eta - xi));
}

inline V2 distortedPlane(const Cam& c, const V2& m) {
  L k[4] = {0, 0, 0, 0}, x, y;
  for (int i = 0; i < c.k.size(); ++i) k[i] = c.k(i);
  dref::distort<L>(c.model, k, m(0), m(1), &x, &y);
  return V2(static_cast<double>(x), static_cast<double>(y));
}

inline uint32_t side(pbt::Source& s) {
  switch (s.draw(4)) {
    case 0: return static_cast<uint32_t>(s.range(1, 20));
    case 1: { static const uint32_t t[] = {64, 480, 640, 752, 1024, 1920}; return t[s.draw(6)]; }
    default: return static_cast<uint32_t>(s.range(16, 2000));
  }
}

// lo, hi: conditioning of the distortion on the disc (see discRadius).
inline Cam camera(pbt::Source& s, int kinds, double lo = 0.4, double hi = 2.2) {
  Cam c;
  c.kind = s.i(0, kinds - 1);
  c.w = side(s);
  c.h = side(s);
  if (c.kind == kLidar) {
    c.model = dref::kNull;
    c.k.resize(0);
    c.intr.resize(4);
    const bool full = s.boolean();
    const double hr = full ? 2 * M_PI / c.w : 2 * M_PI / c.w * s.real(0.02, 0.99);
    const double vr = std::min(0.2, s.real(0.02, 1) * 3.0 / c.h);
    c.intr(0) = hr;
    c.intr(1) = vr;
    c.intr(2) = s.boolean() ? vr * c.h / 2 : s.real(vr * c.h - 1.5, 1.5);
    switch (s.draw(5)) {
      case 0: c.intr(3) = 0; break;
      case 1: c.intr(3) = hr * c.w / 2; break;
      case 2: c.intr(3) = s.sreal(7); break;
      default: c.intr(3) = s.sreal(3.1);
    }
  } else {
    c.model = s.i(0, 3);
    c.k = dref::params(s, c.model);
    c.disc = std::min(dref::discRadius(c.model, c.k, dref::maxRadius(c.model), lo, hi), 20.0);
    c.intr.resize(c.kind == kUnified ? 5 : 4);
    if (c.kind == kUnified) {
      static const double special[] = {0, 0.5, 0.9, 1, 1.5};
      c.intr(0) = s.boolean() ? special[s.draw(5)] : s.real(0, 2.5);
      if (c.xi() > 1) c.disc = std::min(c.disc, 0.97 / std::sqrt(c.xi() * c.xi() - 1));
    }
    const double f = 0.5 * std::max(c.w, c.h) / (std::max(c.disc, 1e-3) * s.real(0.1, 1.3));
    const int o = c.kind == kUnified;
    c.intr(o) = f;
    c.intr(o + 1) = s.boolean() ? f : f * s.real(0.5, 2);
    for (int i = 0; i < 2; ++i) {
      const double n = i ? c.h : c.w;
      c.intr(o + 2 + i) = s.boolean() ? n / 2 : s.chance(1, 8) ? n * s.real(1.0, 1.5) : n * s.real(0.05, 0.95);
    }
  }
  return c;
}

inline std::string show(const Cam& c) {
  std::ostringstream o;
  o << std::setprecision(17) << kindName(c.kind) << " [" << c.intr.transpose() << "] " << c.w << "x" << c.h;
  if (c.kind != kLidar) o << " " << dref::modelName(c.model) << " [" << c.k.transpose() << "] disc " << c.disc;
  return o.str() + "\n";
}

inline double range(pbt::Source& s) { return s.boolean() ? s.real(0.05, 30) : s.logReal(0.02, 1e5); }

// Any point of space: seen, outside, behind, on the axis, at the validity limit.
inline V3 anyPoint(pbt::Source& s, const Cam& c) {
  const double r = range(s);
  switch (s.draw(8)) {
    case 0: {  // any direction
      V3 p(s.sreal(1), s.sreal(1), s.sreal(1));
      if (p.norm() < 1e-3) p = V3(0, 0, 1);
      return p.normalized() * r;
    }
    case 1: {  // optical axis and the other axes
      V3 p = V3::Zero();
      p(s.chance(1, 3) ? s.i(0, 1) : 2) = s.boolean() ? r : -r;
      return p;
    }
    case 2: return V3(s.sreal(1), s.sreal(1), 0) * r;  // in the image plane
    case 3: {  // close to the axis, in front or behind
      return V3(s.sreal(1) * s.logReal(1e-12, 1e-2), s.sreal(1) * s.logReal(1e-12, 1e-2), s.boolean() ? 1 : -1) * r;
    }
    default:
      if (c.kind == kLidar) {
        const double a = (s.real(-0.05, 1.05) * c.w) * c.intr(0) - c.intr(3), e = (s.real(-0.05, 1.05) * c.h) * c.intr(1) - c.intr(2);
        return V3(std::sin(a) * std::cos(e), std::sin(e), std::cos(a) * std::cos(e)) * r;
      }
      V2 m = dref::point(s, c.disc * s.real(0.1, 1.0));
      V3 p = lift(c, m) * r;
      return s.chance(1, 8) ? V3(-p) : p;
  }
}
}  // namespace cref
#endif  // VERIF_CAMERA_REF_H_
