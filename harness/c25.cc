// C25: undistortion maps send every output pixel to the right source pixel.
#include <opencv2/core/core_c.h>
#include <opencv2/imgproc/imgproc_c.h>

#include <gflags/gflags.h>
#include <glog/logging.h>

#include <iomanip>

#include <aslam/common/memory.h>

#include "camera_ref.h"
#include "pbt.h"
#include "util.h"

#include <aslam/common/undistort-helpers.h>
#include <aslam/pipeline/test/convert-maps-legacy.h>
#include <aslam/pipeline/undistorter-mapped.h>

DECLARE_double(acv_inv_distortion_tolerance);

const char* pbt::kProperty = "C25";
void pbt::workerInit() { FLAGS_minloglevel = 4; }

using aslam::InterpolationMethod;
using cref::Cam;
using cref::L;
using cref::V2;
using cref::V3;
using pbt::Source;

namespace {
uint32_t extent(Source& s) {
  switch (s.draw(4)) {
    case 0: return 8 * static_cast<uint32_t>(s.range(1, 9));
    case 1: return static_cast<uint32_t>(s.chance(1, 300) ? s.range(240, 700) : s.range(4, 16));
    default: return static_cast<uint32_t>(s.range(10, 72));
  }
}

// Least distance from the centre of the distorted border of the disc.
double distortedRadius(const Cam& c, double radius) {
  double r = 1e300;
  for (int i = 0; i < 64; ++i) r = std::min(r, cref::distortedPlane(c, radius * V2(std::cos(i * M_PI / 32), std::sin(i * M_PI / 32))).norm());
  return r;
}

// A camera all pixels of which are seen in the well-conditioned disc.
// least_z > 0: every ray of it has at least this cosine to the optical axis.
Cam smallCamera(Source& s, int kind, double least_z = 0) {
  Cam c;
  c.kind = kind;
  c.w = extent(s);
  c.h = extent(s);
  c.model = s.i(0, 3);
  c.k = dref::params(s, c.model);
  c.disc = std::min(dref::discRadius(c.model, c.k, dref::maxRadius(c.model), 0.4, 2.2), 6.0);
  c.intr.resize(kind == cref::kUnified ? 5 : 4);
  if (kind == cref::kUnified) {
    static const double special[] = {0, 0.5, 0.9, 1, 1.5};
    c.intr(0) = s.boolean() ? special[s.draw(5)] : s.real(0, 2.5);
    if (c.xi() > 1) c.disc = std::min(c.disc, 0.95 / std::sqrt(c.xi() * c.xi() - 1));
    if (least_z > 0) c.disc = std::min(c.disc, std::sqrt(1 - least_z * least_z) / (least_z + c.xi()));
  }
  if (c.disc < 1e-2) throw pbt::Discard();
  // The disc contains the distorted image as well, so that the inversion of the distortion starts inside of it (as in C13).
  const double rho = std::min(distortedRadius(c, c.disc), c.disc) * s.real(0.15, 0.93);
  if (!(rho > 1e-4)) throw pbt::Discard();
  double far[2];
  for (int i = 0; i < 2; ++i) {
    const double n = i ? c.h : c.w;
    c.setC(i, s.boolean() ? (n - 1) / 2 : n * s.real(0.25, 0.75));
    far[i] = std::max(c.c(i) + 0.5, n - c.c(i));
  }
  const double a = s.boolean() ? 1 : s.real(0.6, 1.6), f = std::hypot(far[0], far[1] / a) / rho;
  const int o = kind == cref::kUnified;
  c.intr(o) = f;
  c.intr(o + 1) = f * a;
  return c;
}

// Where the input camera sees the ray of a pixel of the output camera.
struct Where {
  bool defined = false;  // the output pixel has a ray, at a distance from the limits of the models
  bool seen = false;     // and the input camera's models are well conditioned there
  V2 kp = V2::Zero();
};
Where where(const Cam& in, const Cam& out, double u, double v) {
  Where r;
  const V2 m((u - out.c(0)) / out.f(0), (v - out.c(1)) / out.f(1));
  if (out.kind == cref::kUnified && 1 + (1 - out.xi() * out.xi()) * m.squaredNorm() < 1e-3) return r;
  const V3 ray = cref::lift(out, m);
  const double den = in.kind == cref::kUnified ? ray(2) + in.xi() * ray.norm() : ray(2);
  // A unified camera with xi > 1 sees only one of the two points its plane is the image of.
  if (den < 1e-3) return r;
  if (in.kind == cref::kUnified && in.xi() >= 1 && in.xi() * ray(2) < -ray.norm() + 1e-3) return r;
  const V2 p = cref::plane(in, ray);
  if (p.norm() > 50) return r;
  r.defined = true;
  r.seen = p.norm() <= in.disc;
  r.kp = cref::refProject(in, ray);
  return r;
}

Cam camOf(const aslam::Camera& a) {
  Cam c;
  c.kind = a.getType() == aslam::Camera::Type::kPinhole ? cref::kPinhole : cref::kUnified;
  c.intr = a.getParameters();
  c.w = static_cast<uint32_t>(a.imageWidth());
  c.h = static_cast<uint32_t>(a.imageHeight());
  c.model = dref::kNull;
  c.disc = 50;
  return c;
}

// The position a map holds for a pixel.
V2 lookUp(const cv::Mat& mu, const cv::Mat& mv, int x, int y) {
  switch (mu.type()) {
    case CV_16SC2: {
      const cv::Vec2s a = mu.at<cv::Vec2s>(y, x);
      const int b = mv.at<ushort>(y, x);
      return V2(a[0] + (b & 31) / 32.0, a[1] + ((b >> 5) & 31) / 32.0);
    }
    case CV_32FC1: return V2(mu.at<float>(y, x), mv.at<float>(y, x));
    default: { const cv::Vec2f a = mu.at<cv::Vec2f>(y, x); return V2(a[0], a[1]); }
  }
}

std::string at(const Cam& in, const Cam& out, int x, int y, const V2& got, const Where& w) {
  std::ostringstream o;
  o << std::setprecision(10) << "output pixel (" << x << ", " << y << ") is sent to (" << got.transpose() << "), its ray is seen at ("
    << w.kp.transpose() << "); input " << cref::show(in) << "output " << cref::show(out);
  return o.str();
}
bool outside(const Cam& c, const V2& k) { return k(0) <= -1 || k(1) <= -1 || k(0) >= c.w || k(1) >= c.h; }

size_t checkMap(const Cam& in, const Cam& out, const cv::Mat& mu, const cv::Mat& mv) {
  REQ_EQ(mu.size(), cv::Size(out.w, out.h)) << "size of the map";
  const int type = mu.type();
  if (type == CV_16SC2) {
    REQ(mv.type() == CV_16UC1 && mv.size() == mu.size()) << "second map of the fixed-point format";
  } else if (type == CV_32FC1) {
    REQ(mv.type() == CV_32FC1 && mv.size() == mu.size()) << "second map of the planar format";
  } else {
    REQ(type == CV_32FC2 && mv.empty()) << "interleaved format";
  }
  size_t n = 0;
  for (int y = 0; y < mu.rows; ++y)
    for (int x = 0; x < mu.cols; ++x) {
      const Where w = where(in, out, x, y);
      if (!w.defined) continue;
      const V2 got = lookUp(mu, mv, x, y);
      bool ok = true;
      for (int i = 0; i < 2; ++i) {
        const double e = w.kp(i), m = std::abs(e);
        if (type == CV_16SC2) {
          if (m >= 32766) ok &= std::abs(got(i)) >= 32765;  // beyond the range of the format
          else ok &= std::abs(got(i) - e) <= 1.0 / 64 + 1e-7 * (1 + m);
        } else {
          ok &= std::abs(got(i) - e) <= 1e-6 * (1 + m) + 1e-6 * std::max(in.w, in.h);
        }
      }
      if (!w.seen) ok = ok || outside(in, got);
      else if (!outside(in, w.kp)) ++n;
      REQ(ok) << at(in, out, x, y, got, w);
    }
  return n;
}

// Solves distort(m) = d by Newton's method from a near solution.
V2 undistort(const Cam& c, const V2& d, V2 m) {
  for (int it = 0; it < 30; ++it) {
    typedef dref::Dual<2> D;
    D k[4], x, y;
    for (int i = 0; i < c.k.size(); ++i) k[i] = D(c.k(i));
    dref::distort<D>(c.model, k, D::var(m(0), 0), D::var(m(1), 1), &x, &y);
    Eigen::Matrix2d J;
    J << static_cast<double>(x.v[0]), static_cast<double>(x.v[1]), static_cast<double>(y.v[0]), static_cast<double>(y.v[1]);
    const V2 step = J.inverse() * (d - V2(static_cast<double>(x.a), static_cast<double>(y.a)));
    m += step;
    if (step.norm() < 1e-13) break;
  }
  return m;
}
V2 undistortFrom0(const Cam& c, const V2& d) {
  V2 m = V2::Zero();
  for (int i = 1; i <= 16; ++i) m = undistort(c, d * (i / 16.0), m);
  return m;
}

// The border of the input image on the plane the output image is spanned in.
struct Border {
  std::vector<V2> side[4];  // left, right, top, bottom, in order along the side
};
Border border(const Cam& c, bool to_pinhole, int steps) {
  Border b;
  for (int k = 0; k < 4; ++k) {
    V2 m;
    for (int i = 0; i <= steps; ++i) {
      const double t = static_cast<double>(i) / steps;
      const V2 px(k == 0 ? 0 : k == 1 ? c.w - 1.0 : t * (c.w - 1.0), k == 2 ? 0 : k == 3 ? c.h - 1.0 : t * (c.h - 1.0));
      const V2 d((px(0) - c.c(0)) / c.f(0), (px(1) - c.c(1)) / c.f(1));
      m = i == 0 ? undistortFrom0(c, d) : undistort(c, d, m);
      V2 p = m;
      if (to_pinhole) { const V3 r = cref::lift(c, m); p = V2(r(0) / r(2), r(1) / r(2)); }
      b.side[k].push_back(p);
    }
  }
  return b;
}
// The largest difference a sampling of the border in eighths can make to its extremes.
double samplingGap(const Border& b, int stride) {
  double gap = 0;
  for (int k = 0; k < 4; ++k) {
    const int axis = k < 2 ? 0 : 1;
    double lo = 1e300, hi = -1e300, slo = 1e300, shi = -1e300;
    for (size_t i = 0; i < b.side[k].size(); ++i) {
      const double v = b.side[k][i](axis);
      lo = std::min(lo, v); hi = std::max(hi, v);
      if (i % stride == 0) { slo = std::min(slo, v); shi = std::max(shi, v); }
    }
    gap = std::max(gap, std::max(slo - lo, hi - shi));
  }
  return gap;
}
bool innerUsable(const Border& b) {
  double x0 = -1e300, x1 = 1e300, y0 = -1e300, y1 = 1e300, X0 = 1e300, X1 = -1e300, Y0 = 1e300, Y1 = -1e300;
  for (const V2& p : b.side[0]) { x0 = std::max(x0, p(0)); }
  for (const V2& p : b.side[1]) { x1 = std::min(x1, p(0)); }
  for (const V2& p : b.side[2]) { y0 = std::max(y0, p(1)); }
  for (const V2& p : b.side[3]) { y1 = std::min(y1, p(1)); }
  for (int k = 0; k < 4; ++k) for (const V2& p : b.side[k]) { X0 = std::min(X0, p(0)); X1 = std::max(X1, p(0)); Y0 = std::min(Y0, p(1)); Y1 = std::max(Y1, p(1)); }
  return x1 - x0 > 0.2 * (X1 - X0) && y1 - y0 > 0.2 * (Y1 - Y0) && x0 < 0 && x1 > 0 && y0 < 0 && y1 > 0;
}

struct Setup {
  Cam in;
  float alpha, scale;
  bool to_pinhole = false;
  InterpolationMethod method;
  Border b;
};
Setup setup(Source& s) {
  Setup t;
  const int kind = s.i(0, 2);
  t.to_pinhole = kind == 2;
  t.in = smallCamera(s, kind ? cref::kUnified : cref::kPinhole, t.to_pinhole ? 0.25 : 0);
  t.alpha = s.chance(1, 3) ? 0.f : s.boolean() ? 1.f : static_cast<float>(s.real(0, 1));
  if (s.boolean()) t.scale = 1.f;
  else if (s.boolean()) { static const float f[] = {0.1f, 0.2f, 0.3f, 0.5f, 0.6f, 0.7f, 0.9f, 1.1f, 1.5f, 1.7f}; t.scale = f[s.draw(10)]; }
  else t.scale = static_cast<float>(s.real(0.1, 2));
  if (t.scale * t.in.w < 2.01 || t.scale * t.in.h < 2.01) throw pbt::Discard();
  static const InterpolationMethod methods[] = {InterpolationMethod::Linear, InterpolationMethod::Cubic, InterpolationMethod::Lanczos,
                                                InterpolationMethod::NearestNeighbor, InterpolationMethod::Area};
  t.method = methods[s.draw(5)];
  t.b = border(t.in, t.to_pinhole, 64);
  if (!innerUsable(t.b)) throw pbt::Discard();
  s << cref::show(t.in) << "alpha " << t.alpha << " scale " << t.scale << " method " << static_cast<int>(t.method) << (t.to_pinhole ? " to pinhole" : "") << "\n";
  return t;
}
std::unique_ptr<aslam::MappedUndistorter> create(Source& s, const Setup& t, const std::shared_ptr<aslam::Camera>& cam) {
  if (t.to_pinhole) return aslam::createMappedUndistorterToPinhole(dynamic_cast<aslam::UnifiedProjectionCamera&>(*cam), t.alpha, t.scale, t.method);
  if (s.boolean()) return aslam::createMappedUndistorter<aslam::Camera>(*cam, t.alpha, t.scale, t.method);
  if (t.in.kind == cref::kPinhole) return aslam::createMappedUndistorter(dynamic_cast<const aslam::PinholeCamera&>(*cam), t.alpha, t.scale, t.method);
  return aslam::createMappedUndistorter(dynamic_cast<const aslam::UnifiedProjectionCamera&>(*cam), t.alpha, t.scale, t.method);
}
void setPrecise() { FLAGS_acv_inv_distortion_tolerance = 1e-20; }
}  // namespace

PBT_PROP(maps, "input and output cameras with at least one output pixel seen inside the input image", 20000, 400000, false, 200) {
  setPrecise();
  static const int types[] = {CV_16SC2, CV_32FC1, CV_32FC2};
  const int type = types[s.draw(3)];
  const int kin = s.i(0, 1), kout = s.i(0, 1);
  const Cam in = smallCamera(s, kin);
  Cam out;
  out.kind = kout;
  out.model = dref::kNull;
  out.disc = 1e3;
  out.w = extent(s);
  out.h = extent(s);
  out.intr.resize(kout ? 5 : 4);
  if (kout) out.intr(0) = kin && s.boolean() ? in.xi() : s.boolean() ? s.real(0, 1) : s.real(0, 2);
  const double f = s.boolean() ? in.f(0) * s.real(0.3, 2) * out.w / in.w : s.logReal(1e-3, 1e4);
  out.intr(kout) = f;
  out.intr(kout + 1) = s.boolean() ? f : f * s.real(0.5, 2);
  for (int i = 0; i < 2; ++i) { const double n = i ? out.h : out.w; out.setC(i, s.boolean() ? (n - 1) / 2 : n * s.real(0.01, 1.5)); }
  s << "type " << type << " input " << cref::show(in) << "output " << cref::show(out);
  s.label(type == CV_16SC2 ? "fixed point" : type == CV_32FC1 ? "planar float" : "interleaved float");
  auto ci = cref::build(in), co = cref::build(out);
  cv::Mat mu, mv;
  if (s.boolean()) { mu.create(s.i(1, 80), s.i(1, 80), CV_32FC1); mv.create(s.i(1, 80), s.i(1, 80), CV_16UC1); }  // reused matrices
  if (s.boolean()) {
    aslam::common::buildUndistortMap<aslam::Camera, aslam::Camera>(*ci, *co, type, mu, mv);
  } else if (kin == cref::kPinhole) {
    aslam::common::buildUndistortMap(dynamic_cast<aslam::PinholeCamera&>(*ci), *co, type, mu, mv);
  } else {
    aslam::common::buildUndistortMap(dynamic_cast<aslam::UnifiedProjectionCamera&>(*ci), *co, type, mu, mv);
  }
  REQ_EQ(mu.type(), type) << "type of the map";
  if (checkMap(in, out, mu, mv) > 0) s.nontrivial();
}

PBT_PROP(undistorter, "output pixels inside the input image, and a camera with distortion or another projection or scale", 12000, 250000, false, 100) {
  setPrecise();
  const Setup t = setup(s);
  auto cam = cref::build(t.in);
  auto und = create(s, t, cam);
  REQ(und != nullptr) << "no undistorter";
  // The undistorter keeps a copy of the camera.
  std::shared_ptr<aslam::Camera> original(cref::build(t.in));
  REQ(&und->getInputCamera() != cam.get()) << "the camera itself is kept";
  {
    Eigen::VectorXd p = cam->getParameters();
    p *= 1.25;
    cam->setParameters(p);
    if (t.in.k.size() > 0) cam->getDistortionMutable()->setParameters(t.in.model == dref::kFish ? Eigen::VectorXd::Constant(1, t.in.k(0) > 1 ? 0.7 : 1.2) : Eigen::VectorXd(t.in.k * 0.5));
  }
  const aslam::Camera& ic = und->getInputCamera();
  const aslam::Camera& oc = und->getOutputCamera();
  REQ(ic.getType() == original->getType() && ic.getParameters() == original->getParameters() && ic.imageWidth() == t.in.w && ic.imageHeight() == t.in.h &&
      ic.getDistortion().getType() == original->getDistortion().getType() && ic.getDistortion().getParameters() == original->getDistortion().getParameters())
      << "the stored input camera is not a copy of the camera at creation";
  REQ(und->getInputCameraShared().get() == &ic && und->getOutputCameraShared().get() == &oc) << "shared and plain accessors differ";
  REQ(oc.getDistortion().getType() == aslam::Distortion::Type::kNoDistortion) << "the output camera has distortion";
  REQ(oc.getType() == (t.to_pinhole ? aslam::Camera::Type::kPinhole : original->getType())) << "type of the output camera";
  for (int i = 0; i < 2; ++i) {
    const uint32_t n = i ? t.in.h : t.in.w, got = i ? oc.imageHeight() : oc.imageWidth();
    REQ(got == static_cast<uint32_t>(t.scale * n) || got == static_cast<uint32_t>(static_cast<double>(t.scale) * n))
        << "side " << n << " scaled by " << t.scale << " becomes " << got;
  }
  const Cam out = camOf(oc);
  if (out.kind == cref::kUnified) REQ_EQ(out.xi(), t.in.xi()) << "mirror parameter of the output camera";
  const cv::Mat& mu = und->getUndistortMapU();
  const cv::Mat& mv = und->getUndistortMapV();
  const size_t seen = checkMap(t.in, out, mu, mv);
  s.label(t.to_pinhole ? "to pinhole" : t.in.kind == cref::kUnified ? "unified" : "pinhole");

  // Cropping.
  const double gap = samplingGap(t.b, 8);
  const double fin = std::max(t.in.f(0), t.in.f(1)), fout = std::max(out.f(0), out.f(1));
  if (t.alpha == 0) {
    s.label("alpha 0");
    const double tol = 0.02 + 1.0 / 64 + 2.5 * fin * gap;
    for (uint32_t y = 0; y < out.h; ++y)
      for (uint32_t x = 0; x < out.w; ++x) {
        if (x != 0 && y != 0 && x != out.w - 1 && y != out.h - 1) continue;
        const V2 got = lookUp(mu, mv, x, y);
        REQ(got(0) >= -tol && got(1) >= -tol && got(0) <= t.in.w - 1 + tol && got(1) <= t.in.h - 1 + tol)
            << "with full cropping the border pixel " << x << ", " << y << " of the output comes from " << got.transpose() << ", outside of the input, tolerance " << tol;
      }
    if (tol < 0.5) s.label("alpha 0 tight");
  }
  if (t.alpha == 1) {
    s.label("alpha 1");
    const double tol = 0.02 + 1.05 * fout * gap;
    for (int k = 0; k < 4; ++k)
      for (const V2& p : t.b.side[k]) {
        const V2 o(out.f(0) * p(0) + out.c(0), out.f(1) * p(1) + out.c(1));
        REQ(o(0) >= -tol && o(1) >= -tol && o(0) <= out.w - 1 + tol && o(1) <= out.h - 1 + tol)
            << "without cropping a border point of the input is at " << o.transpose() << " of the output of " << out.w << "x" << out.h << ", tolerance " << tol;
      }
    if (tol < 0.5) s.label("alpha 1 tight");
  }
  if (seen > 0 && (t.in.model != dref::kNull || t.to_pinhole || t.scale != 1.f)) s.nontrivial();
}

PBT_PROP(process, "at least four output pixels sampled strictly inside the input image", 10000, 200000, false, 100) {
  setPrecise();
  const Setup t = setup(s);
  auto cam = cref::build(t.in);
  auto und = create(s, t, cam);
  const Cam out = camOf(und->getOutputCamera());
  const int w = t.in.w, h = t.in.h;
  const bool ramp = s.boolean();
  const int ch = ramp ? 1 : s.i(1, 3);
  const int depth = ramp ? CV_32F : s.boolean() ? CV_8U : CV_32F;
  // The image may be a view into a larger one.
  const bool view = s.boolean();
  cv::Mat big(view ? h + 3 : h, view ? w + 5 : w, CV_MAKETYPE(depth, ch));
  cv::randu(big, cv::Scalar(1, 1, 1), cv::Scalar(255, 255, 255));
  cv::Mat img = view ? big(cv::Rect(2, 1, w, h)) : big;
  const double a = s.sreal(3), b = s.sreal(3), c0 = 500;
  if (ramp) for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) img.at<float>(y, x) = static_cast<float>(c0 + a * x + b * y);
  else {
    uint64_t r = s.bits() | 1;
    for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) for (int c = 0; c < ch; ++c) {
      r = r * 6364136223846793005ull + 1442695040888963407ull;
      const int v = static_cast<int>((r >> 33) % 255) + 1;
      if (depth == CV_8U) img.ptr<uchar>(y)[x * ch + c] = static_cast<uchar>(v); else img.ptr<float>(y)[x * ch + c] = static_cast<float>(v);
    }
  }
  const cv::Mat before = img.clone();
  cv::Mat res;
  if (s.boolean()) res.create(s.i(1, 90), s.i(1, 90), s.boolean() ? CV_8UC1 : CV_32FC1);
  und->processImage(img, &res);
  REQ(cv::norm(before, img, cv::NORM_INF) == 0) << "the input image changed";
  REQ(res.cols == static_cast<int>(out.w) && res.rows == static_cast<int>(out.h) && res.type() == img.type())
      << "output image " << res.cols << "x" << res.rows << " type " << res.type() << " for " << out.w << "x" << out.h << " type " << img.type();
  const bool nearest = t.method == InterpolationMethod::NearestNeighbor, linear = t.method == InterpolationMethod::Linear || t.method == InterpolationMethod::Area;
  const double reach = nearest ? 0.6 : linear ? 1.05 : t.method == InterpolationMethod::Cubic ? 2.05 : 4.05;
  size_t n = 0;
  auto pixel = [&](int x, int y, int c) { return depth == CV_8U ? static_cast<double>(before.ptr<uchar>(y)[x * ch + c]) : static_cast<double>(before.ptr<float>(y)[x * ch + c]); };
  for (int y = 0; y < res.rows; ++y)
    for (int x = 0; x < res.cols; ++x) {
      const Where p = where(t.in, out, x, y);
      if (!p.defined || !p.seen) continue;
      const double u = p.kp(0), v = p.kp(1);
      for (int c = 0; c < ch; ++c) {
        const double got = depth == CV_8U ? res.ptr<uchar>(y)[x * ch + c] : res.ptr<float>(y)[x * ch + c];
        if (u < -reach || v < -reach || u > w - 1 + reach || v > h - 1 + reach) {
          REQ_EQ(got, 0.0) << "value at " << x << ", " << y << " sampled outside of the input at " << p.kp.transpose();
          continue;
        }
        if (nearest) {
          // One of the pixels within half a pixel, and a margin for the resolution of the map.
          if (u < 0.55 || v < 0.55 || u > w - 1.55 || v > h - 1.55) continue;
          bool ok = false;
          for (int yy = static_cast<int>(std::floor(v)); yy <= std::floor(v) + 1; ++yy)
            for (int xx = static_cast<int>(std::floor(u)); xx <= std::floor(u) + 1; ++xx)
              if (std::abs(xx - u) <= 0.5 + 0.05 && std::abs(yy - v) <= 0.5 + 0.05 && pixel(xx, yy, c) == got) ok = true;
          REQ(ok) << "value " << got << " at " << x << ", " << y << " is not that of the pixel nearest to " << p.kp.transpose();
          ++n;
          continue;
        }
        const double m = linear ? 0.05 : reach;
        if (u < m || v < m || u > w - 1 - m || v > h - 1 - m) continue;
        if (ramp) {
          const double tol = (linear ? 0.02 : t.method == InterpolationMethod::Cubic ? 0.08 : 0.12) * (std::abs(a) + std::abs(b)) + 2e-3;
          const double want = c0 + a * u + b * v;
          REQ(std::abs(got - want) <= tol) << std::setprecision(10) << "ramp value " << got << " at " << x << ", " << y << ", the image has " << want << " at " << p.kp.transpose();
          ++n;
        } else if (linear) {
          const int xx = static_cast<int>(std::floor(u)), yy = static_cast<int>(std::floor(v));
          if (xx + 1 >= w || yy + 1 >= h) continue;
          const double fu = u - xx, fv = v - yy;
          const double want = (1 - fv) * ((1 - fu) * pixel(xx, yy, c) + fu * pixel(xx + 1, yy, c)) + fv * ((1 - fu) * pixel(xx, yy + 1, c) + fu * pixel(xx + 1, yy + 1, c));
          REQ(std::abs(got - want) <= 255.0 / 32 + 255.0 / 32 * 0.05 + 1.6) << "value " << got << " at " << x << ", " << y << ", interpolated " << want << " at " << p.kp.transpose();
          ++n;
        }
      }
    }
  s.label(ramp ? "ramp" : "random image");
  // Processing is repeatable.
  cv::Mat again;
  und->processImage(img, &again);
  REQ(cv::norm(again, res, cv::NORM_INF) == 0) << "a second run gives another image";
  if (n >= 4) s.nontrivial();
}

namespace {
double coordinate(Source& s) {
  switch (s.draw(8)) {
    case 0: return s.i(-3, 100);
    case 1: return s.i(-100, 4000) / 32.0;
    case 2: return s.i(-100, 8000) / 64.0;
    case 3: return s.sreal(40000);
    case 4: return s.boolean() ? 32767.9 : -32768.0 + s.real(0, 0.2);
    case 5: return s.sreal(1) * s.logReal(1, 1e7);
    default: return s.real(-2, 800);
  }
}
cv::Mat grid(Source& s, int rows, int cols, int type, bool view, cv::Mat* holder) {
  if (!view) return *holder = cv::Mat(rows, cols, type);
  holder->create(rows + 2, cols + 3, type);
  holder->setTo(cv::Scalar::all(7));
  return (*holder)(cv::Rect(s.i(0, 3), s.i(0, 2), cols, rows));
}
}  // namespace

PBT_PROP(convert, "different source and destination format", 40000, 1000000, false, 1000) {
  const int rows = s.i(1, 12), cols = s.i(1, 20);
  const int src = s.i(0, 2);  // fixed, planar, interleaved
  const int dst = s.i(0, 3);  // fixed, planar, interleaved, default
  static const int types[] = {CV_16SC2, CV_32FC1, CV_32FC2};
  const int real_dst = dst < 3 ? dst : src == 0 ? 2 : 0;
  const bool nn = real_dst != 1 && s.chance(1, 3);
  cv::Mat h1, h2;
  cv::Mat m1 = grid(s, rows, cols, types[src], s.boolean(), &h1), m2;
  bool fraction = true;
  if (src == 0) {
    if (nn && s.boolean()) fraction = false;  // no second map
    // Copying fixed-point maps with signed fractions loses the fractions: known finding below.
    else m2 = grid(s, rows, cols, (real_dst == 0 && !nn) || s.boolean() ? CV_16UC1 : CV_16SC1, s.boolean(), &h2);
  } else if (src == 1) {
    m2 = grid(s, rows, cols, CV_32FC1, s.boolean(), &h2);
  }
  std::vector<V2> value;
  for (int y = 0; y < rows; ++y)
    for (int x = 0; x < cols; ++x) {
      V2 v(coordinate(s), coordinate(s));
      if (src == 0) {
        cv::Vec2s a;
        for (int i = 0; i < 2; ++i) a[i] = cv::saturate_cast<short>(static_cast<int>(std::floor(v(i))));
        const int b = s.i(0, 1023);
        m1.at<cv::Vec2s>(y, x) = a;
        if (fraction) m2.at<ushort>(y, x) = static_cast<ushort>(b);
        v = V2(a[0], a[1]);
        // A nearest neighbour map consists of the whole coordinates.
        if (!nn) v += V2((b & 31) / 32.0, (b >> 5) / 32.0);
      } else if (src == 1) {
        m1.at<float>(y, x) = static_cast<float>(v(0));
        m2.at<float>(y, x) = static_cast<float>(v(1));
        v = V2(static_cast<float>(v(0)), static_cast<float>(v(1)));
      } else {
        m1.at<cv::Vec2f>(y, x) = cv::Vec2f(static_cast<float>(v(0)), static_cast<float>(v(1)));
        v = V2(static_cast<float>(v(0)), static_cast<float>(v(1)));
      }
      value.push_back(v);
    }
  const bool swapped = src == 0 && fraction && s.boolean();
  s << rows << "x" << cols << " source " << src << " destination " << dst << (nn ? " nearest" : "") << (swapped ? " swapped" : "") << "\n";
  cv::Mat o1, o2;
  if (s.boolean()) { o1.create(s.i(1, 9), s.i(1, 9), CV_32FC1); o2.create(s.i(1, 9), s.i(1, 9), CV_32FC1); o2.setTo(3); }
  const int type = dst < 3 ? types[dst] : s.boolean() ? 0 : -1;
  if (swapped) aslam::convertMapsLegacy(m2, m1, o1, o2, type, nn);
  else aslam::convertMapsLegacy(m1, m2, o1, o2, type, nn);
  REQ(o1.size() == cv::Size(cols, rows) && o1.type() == types[real_dst]) << "size or type of the converted map";
  if (nn || real_dst == 2) REQ(o2.empty()) << "a second map although all is in the first";
  else REQ(o2.size() == cv::Size(cols, rows) && o2.type() == (real_dst == 0 ? CV_16UC1 : CV_32FC1)) << "size or type of the second converted map";
  for (int y = 0; y < rows; ++y)
    for (int x = 0; x < cols; ++x) {
      const V2 want = value[y * cols + x];
      V2 got;
      if (real_dst == 0 && nn) { const cv::Vec2s a = o1.at<cv::Vec2s>(y, x); got = V2(a[0], a[1]); }
      else got = lookUp(o1, o2, x, y);
      for (int i = 0; i < 2; ++i) {
        bool ok;
        if (real_dst == 0) {
          const double unit = nn ? 0.5 : 1.0 / 64;
          if (want(i) > 32767) ok = got(i) >= 32767;
          else if (want(i) < -32768) ok = got(i) < -32767;
          else ok = std::abs(got(i) - want(i)) <= unit || (want(i) > 32767 - unit && got(i) >= 32767);
          if (src == 0) ok = got(i) == want(i);
        } else {
          ok = got(i) == want(i);
        }
        REQ(ok) << std::setprecision(10) << "element " << x << ", " << y << ": " << (i ? "v " : "u ") << want(i) << " became " << got(i);
      }
    }
  if (src != real_dst) s.nontrivial();
}

PBT_KNOWN(signedFractions, "convert-maps-signed-fractions",
          "convertMapsLegacy from fixed point with CV_16SC1 fractions to fixed point leaves the destination's fractions unset") {
  cv::Mat m1(1, 1, CV_16SC2, cv::Scalar(5, 6)), m2(1, 1, CV_16SC1, cv::Scalar(33)), o1, o2(1, 1, CV_16UC1, cv::Scalar(7));
  aslam::convertMapsLegacy(m1, m2, o1, o2, CV_16SC2, false);
  return o2.type() != CV_16UC1 || o2.at<ushort>(0, 0) != 33;
}
