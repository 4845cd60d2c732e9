// C27: line segment detector and its filters.
#include <cmath>
#include <memory>
#include <vector>

#include <opencv2/core/core.hpp>
#include <opencv2/imgproc/imgproc.hpp>

#include <aslam/detectors/line-segment-detector.h>
#include <lsd/lsd-opencv.h>

#include "pbt.h"
#include "util.h"

const char* pbt::kProperty = "C27";
using pbt::Source;

namespace {
typedef std::vector<cv::Vec4i> Segs;

struct P2 {
  double x, y;
};
double segDist(P2 a, P2 b, P2 p) {
  const double dx = b.x - a.x, dy = b.y - a.y, l2 = dx * dx + dy * dy;
  double t = l2 > 0 ? ((p.x - a.x) * dx + (p.y - a.y) * dy) / l2 : 0;
  t = std::max(0.0, std::min(1.0, t));
  return std::hypot(p.x - a.x - t * dx, p.y - a.y - t * dy);
}

// A bright region bounded by straight edges: all half planes n.p > c (convex), or its complement.
struct Shape {
  struct Half {
    double nx, ny, c;
  };
  std::vector<Half> halves;
  double lo, hi;
  int render;  // 0 smooth, 1 area coverage, 2 aliased
  double sigma;
  double inside(double x, double y) const {
    double v = 1e9;
    for (const Half& h : halves) v = std::min(v, h.nx * x + h.ny * y - h.c);
    return v;  // signed distance to the boundary (positive inside), exact up to corners
  }
  double value(double x, double y) const {
    double a;
    if (render == 0) {
      a = 1.0;
      for (const Half& h : halves) a *= 0.5 * std::erfc(-(h.nx * x + h.ny * y - h.c) / (sigma * std::sqrt(2.0)));
    } else if (render == 1) {
      int n = 0;
      for (int i = 0; i < 8; ++i)
        for (int j = 0; j < 8; ++j) n += inside(x + (i - 3.5) / 8, y + (j - 3.5) / 8) > 0;
      a = n / 64.0;
    } else {
      a = inside(x, y) > 0 ? 1 : 0;
    }
    return lo + (hi - lo) * a;
  }
  cv::Mat image(int w, int h) const {
    cv::Mat m(h, w, CV_8UC1);
    for (int y = 0; y < h; ++y)
      for (int x = 0; x < w; ++x) m.at<uchar>(y, x) = static_cast<uchar>(std::lround(value(x, y)));
    return m;
  }
  // End points of edge k within the image (and the other half planes).
  bool edge(size_t k, int w, int h, double margin, P2* a, P2* b) const {
    const Half& e = halves[k];
    double t0 = -1e9, t1 = 1e9;
    const P2 o{e.nx * e.c, e.ny * e.c};
    const P2 d{-e.ny, e.nx};
    std::vector<Half> clip = halves;
    clip.erase(clip.begin() + k);
    clip.push_back(Half{1, 0, -margin});
    clip.push_back(Half{-1, 0, -(w - 1.0) - margin});
    clip.push_back(Half{0, 1, -margin});
    clip.push_back(Half{0, -1, -(h - 1.0) - margin});
    for (const Half& c : clip) {
      const double num = c.c - (c.nx * o.x + c.ny * o.y), den = c.nx * d.x + c.ny * d.y;
      if (std::fabs(den) < 1e-12) {
        if (num > 0) return false;
      } else if (den > 0) {
        t0 = std::max(t0, num / den);
      } else {
        t1 = std::min(t1, num / den);
      }
    }
    if (t1 <= t0) return false;
    *a = P2{o.x + t0 * d.x, o.y + t0 * d.y};
    *b = P2{o.x + t1 * d.x, o.y + t1 * d.y};
    return true;
  }
};

Segs run(aslamcv::LineSegmentDetector& d, const cv::Mat& m) {
  Segs l;
  l.push_back(cv::Vec4i(1, 2, 3, 4));  // has to be replaced
  d.detect(m, l);
  return l;
}
std::string show(const Segs& l) {
  std::ostringstream o;
  for (auto& v : l) o << " (" << v[0] << "," << v[1] << ")-(" << v[2] << "," << v[3] << ")";
  return o.str();
}
bool sameSegs(const Segs& a, const Segs& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i)
    if (a[i] != b[i]) return false;
  return true;
}
Segs fromLines(const aslam::Lines& l) {
  Segs r;
  for (auto& x : l) {
    for (double v : {x.start_point(0), x.start_point(1), x.end_point(0), x.end_point(1)})
      PBT_EQ(v, std::floor(v), "segment coordinate");
    r.push_back(cv::Vec4i(x.start_point(0), x.start_point(1), x.end_point(0), x.end_point(1)));
  }
  return r;
}
void checkInside(const Segs& l, const cv::Mat& m) {
  for (auto& v : l) {
    PBT_CHECK(v[0] >= 0 && v[1] >= 0 && v[2] >= 0 && v[3] >= 0 && v[0] < m.cols && v[2] < m.cols && v[1] < m.rows && v[3] < m.rows,
              "segment" << show(Segs(1, v)) << " outside the " << m.cols << "x" << m.rows << " image");
  }
}
double length(const cv::Vec4i& v) { return std::hypot(static_cast<double>(v[0]) - v[2], static_cast<double>(v[1]) - v[3]); }

cv::Mat textured(Source& s, int w, int h) {
  cv::Mat m(h, w, CV_8UC1, cv::Scalar(s.i(0, 255)));
  const int n = s.i(1, 6);
  for (int k = 0; k < n; ++k) {
    const cv::Point a(s.i(-10, w + 10), s.i(-10, h + 10)), b(s.i(-10, w + 10), s.i(-10, h + 10));
    switch (s.draw(4)) {
      case 0: cv::line(m, a, b, cv::Scalar(s.i(0, 255)), s.i(1, 9)); break;
      case 1: cv::rectangle(m, a, b, cv::Scalar(s.i(0, 255)), -1); break;
      case 2: cv::circle(m, a, s.i(1, 40), cv::Scalar(s.i(0, 255)), s.oneOf<int>({-1, 1, 4})); break;
      default: {  // noise with a generated amplitude
        const int amp = s.i(1, 120);
        uint64_t z = s.bits() | 1;
        for (int y = 0; y < h; ++y)
          for (int x = 0; x < w; ++x) {
            z ^= z << 13; z ^= z >> 7; z ^= z << 17;
            m.at<uchar>(y, x) = cv::saturate_cast<uchar>(m.at<uchar>(y, x) + static_cast<int>(z % (2 * amp + 1)) - amp);
          }
      }
    }
  }
  if (s.boolean()) cv::GaussianBlur(m, m, cv::Size(0, 0), s.real(0.5, 5));
  return m;
}
cv::Mat wide(Source& s, int w, int h) {  // gradual edges: wide regions that leave the image
  cv::Mat m(h, w, CV_8UC1);
  const double th = s.real(0, 2 * M_PI), c = s.real(-0.2, 1.2) * std::max(w, h), g = s.real(4, 30);
  const double th2 = s.real(0, 2 * M_PI), c2 = s.real(-0.2, 1.2) * std::max(w, h);
  const bool two = s.boolean();
  for (int y = 0; y < h; ++y)
    for (int x = 0; x < w; ++x) {
      double d = (std::cos(th) * x + std::sin(th) * y - c) * g;
      if (two) d = std::min(d, (std::cos(th2) * x + std::sin(th2) * y - c2) * g);
      m.at<uchar>(y, x) = cv::saturate_cast<uchar>(128 + d);
    }
  return m;
}
}  // namespace

PBT_PROP(robust, "the image yields at least one segment", 4000, 60000) {
  const int w = s.oneOf<int>({s.i(1, 12), s.i(12, 60), s.i(60, 140)}), h = s.oneOf<int>({s.i(1, 12), s.i(12, 60), s.i(60, 140)});
  const cv::Mat m = s.boolean() ? textured(s, w, h) : wide(s, w, h);
  s << w << "x" << h << " image, ";
  const bool defaults = s.chance(2, 3);
  const int refine = s.i(0, 2);
  double scale = s.oneOf<double>({0.8, 1.0, 0.5, s.real(0.3, 1.0), 1.5});
  if (std::min(w, h) * scale < 0.75) scale = 1.0;  // nothing left to look at: refused with an exception
  const double sigma = s.real(0.3, 1), quant = s.real(0, 3), ang = s.real(5, 40), eps = s.real(-1, 2), dens = s.real(0, 0.9);
  const int bins = s.oneOf<int>({1, 2, 64, 1024});
  aslam::LineSegmentDetector::Options o;
  o.min_segment_length_px = s.oneOf<size_t>({0, 5, 20, 40});
  aslam::LineSegmentDetector det(o);
  cv::Ptr<aslamcv::LineSegmentDetector> raw;
  if (!defaults) {
    raw = aslamcv::createLineSegmentDetectorPtr(refine, scale, sigma, quant, ang, eps, dens, bins);
    s << "refine " << refine << " scale " << scale << " quant " << quant << " angle " << ang << " density " << dens << " bins " << bins;
  } else {
    s << "min length " << o.min_segment_length_px;
  }
  auto detect = [&](const cv::Mat& im) -> Segs {
    const cv::Mat before = im.clone();
    Segs r;
    if (raw) {
      r = run(*raw, im);
    } else {
      aslam::Lines l;
      l.emplace_back(9., 9., 9., 9.);
      det.detect(im, &l);
      r = fromLines(l);
    }
    PBT_CHECK(cv::norm(before, im, cv::NORM_INF) == 0, "the image was changed");
    return r;
  };
  const Segs l = detect(m);
  s.nontrivial(!l.empty());
  s.label(defaults ? "default parameters" : refine == 2 ? "advanced refinement" : refine == 1 ? "standard refinement" : "no refinement");
  if (m.cols < 12 || m.rows < 12) s.label("tiny image");
  checkInside(l, m);
  if (defaults)
    for (auto& v : l) PBT_CHECK(length(v) >= o.min_segment_length_px - 1e-4, "segment" << show(Segs(1, v)) << " is shorter than " << o.min_segment_length_px);
  // The same on every run: after other images, with another detector, in any layout and depth.
  if (s.boolean()) detect(textured(s, s.i(4, 90), s.i(4, 90)));
  const Segs again = detect(m);
  PBT_CHECK(sameSegs(l, again), "second run:" << show(again) << " instead of" << show(l));
  {
    const int left = s.i(0, 9), top = s.i(0, 9), right = s.i(0, 9), bottom = s.i(0, 9);
    cv::Mat big(h + top + bottom, w + left + right, CV_8UC1);
    uint64_t z = s.bits() | 1;
    for (int y = 0; y < big.rows; ++y)
      for (int x = 0; x < big.cols; ++x) { z ^= z << 13; z ^= z >> 7; z ^= z << 17; big.at<uchar>(y, x) = static_cast<uchar>(z >> 20); }
    cv::Mat view = big(cv::Rect(left, top, w, h));
    m.copyTo(view);
    const Segs v = detect(view);
    PBT_CHECK(sameSegs(l, v), "as a view into a larger image:" << show(v) << " instead of" << show(l));
    if (raw) {
      const int depth = s.oneOf<int>({CV_32F, CV_64F, CV_16U, CV_32S});
      cv::Mat bigd;
      big.convertTo(bigd, depth);
      const Segs vd = detect(s.boolean() ? bigd(cv::Rect(left, top, w, h)) : bigd(cv::Rect(left, top, w, h)).clone());
      PBT_CHECK(sameSegs(l, vd), "stored with depth " << depth << ":" << show(vd) << " instead of" << show(l));
    }
  }
  if (!raw) {
    aslam::LineSegmentDetector det2(o);
    aslam::Lines l2;
    det2.detect(m, &l2);
    PBT_CHECK(sameSegs(l, fromLines(l2)), "another detector");
    // A larger minimum length only removes the shorter segments.
    aslam::LineSegmentDetector::Options o0;
    o0.min_segment_length_px = 0;
    aslam::LineSegmentDetector det0(o0);
    aslam::Lines l0;
    det0.detect(m, &l0);
    Segs want;
    for (auto& v : fromLines(l0))
      if (length(v) >= o.min_segment_length_px) want.push_back(v);
    PBT_CHECK(sameSegs(want, l), "minimum length " << o.min_segment_length_px << ":" << show(l) << " instead of" << show(want));
  } else {
    // Optional outputs have one entry per segment and do not change the segments.
    Segs l2;
    std::vector<double> width, prec, nfa;
    if (refine == 2) raw->detect(m, l2, width, prec, nfa);
    else raw->detect(m, l2, width, prec);
    PBT_CHECK(sameSegs(l, l2), "with widths requested");
    PBT_EQ(width.size(), l.size(), "widths");
    PBT_EQ(prec.size(), l.size(), "precisions");
    if (refine == 2) {
      PBT_EQ(nfa.size(), l.size(), "numbers of false alarms");
      for (double v : nfa) PBT_CHECK(v > eps, "reported a segment with " << v << " <= " << eps);
    }
    for (double v : width) PBT_CHECK(v > 0 && std::isfinite(v), "width " << v);
    cv::Mat as_mat;
    raw->detect(m, as_mat);
    PBT_EQ(as_mat.total(), l.size(), "segments returned as a matrix");
  }
}

PBT_PROP(uniform, "the image is larger than one pixel", 200, 1500) {
  const int w = s.size(1, 200), h = s.size(1, 200), v = s.i(0, 255);
  s << w << "x" << h << " value " << v;
  s.nontrivial(w > 1 && h > 1);
  const cv::Mat m(h, w, CV_8UC1, cv::Scalar(v));
  aslam::LineSegmentDetector::Options o;
  o.min_segment_length_px = s.i(0, 30);
  aslam::LineSegmentDetector det(o);
  aslam::Lines l;
  if (s.boolean()) l.emplace_back(1., 1., 40., 40.);
  if (s.boolean()) det.detect(textured(s, w, h), &l);
  det.detect(m, &l);
  PBT_CHECK(l.empty(), l.size() << " segments in a uniform image");
}

PBT_PROP(edges, "an edge of at least 30 pixels is visible", 3000, 40000) {
  const int w = s.i(50, 150), h = s.i(50, 150);
  Shape shape;
  const int kind = s.i(0, 3);
  const double th = s.oneOf<double>({s.i(0, 23) * M_PI / 12, s.real(0, 2 * M_PI)});
  const double cx = w * s.real(0.3, 0.7), cy = h * s.real(0.3, 0.7);
  auto half = [&](double angle, double offset) {  // the half plane lies on the side of (cx, cy)
    const double nx = std::cos(angle), ny = std::sin(angle);
    shape.halves.push_back(Shape::Half{nx, ny, nx * cx + ny * cy - offset});
  };
  const char* name;
  if (kind == 0) {
    half(th, 0);
    name = "half plane";
  } else if (kind == 1) {
    half(th, s.real(8, 18));
    half(th + M_PI, s.real(8, 18));
    name = "bar";
  } else if (kind == 2) {
    const double a = s.real(18, 30), b = s.real(18, 30);
    for (int k = 0; k < 4; ++k) half(th + k * M_PI / 2, k % 2 ? a : b);
    name = "rectangle";
  } else {
    half(th, s.real(0, 10));
    half(th + s.real(M_PI / 3, 2 * M_PI / 3), s.real(0, 10));
    name = "corner";
  }
  const double contrast = s.real(90, 230);
  const double base = s.real(0, 255 - contrast);
  shape.lo = base;
  shape.hi = base + contrast;
  if (s.boolean()) std::swap(shape.lo, shape.hi);
  shape.render = s.i(0, 2);
  shape.sigma = s.real(0.5, 1.1);
  s << w << "x" << h << " " << name << " direction " << th * 180 / M_PI << " deg through (" << cx << "," << cy << ") values " << shape.lo << "/"
    << shape.hi << " rendering " << shape.render << " ";
  s.label(name);
  s.label(shape.render == 0 ? "smooth" : shape.render == 1 ? "area coverage" : "aliased");
  const cv::Mat m = shape.image(w, h);
  aslam::LineSegmentDetector::Options o;
  o.min_segment_length_px = s.oneOf<size_t>({20, 5, 10});
  const bool wrapper = s.chance(3, 4);
  const int refine = s.i(0, 2);
  Segs l;
  if (wrapper) {
    aslam::LineSegmentDetector det(o);
    aslam::Lines lines;
    det.detect(m, &lines);
    l = fromLines(lines);
  } else {
    l = run(*aslamcv::createLineSegmentDetectorPtr(refine, s.oneOf<double>({0.8, 1.0}), 0.6, 2.0, s.real(16, 23), 0, 0.65, 1024), m);
    s << "refine " << refine;
  }
  struct E {
    P2 a, b;
    size_t k;
  };
  std::vector<E> edges, near;
  for (size_t k = 0; k < shape.halves.size(); ++k) {
    E e;
    e.k = k;
    if (shape.edge(k, w, h, 0, &e.a, &e.b)) edges.push_back(e);
    if (shape.edge(k, w, h, 4, &e.a, &e.b)) near.push_back(e);
  }
  // Nothing away from the edges: every point of every segment is close to one of them.
  for (auto& v : l) {
    for (int t = 0; t <= 8; ++t) {
      const P2 p{v[0] + (v[2] - v[0]) * t / 8.0 + 0.5, v[1] + (v[3] - v[1]) * t / 8.0 + 0.5};
      double d = 1e9;
      for (auto& e : near) d = std::min(d, segDist(e.a, e.b, p));
      PBT_CHECK(d < 4.5, "segment" << show(Segs(1, v)) << " is " << d << " px away from any edge; all:" << show(l));
    }
  }
  for (auto& e : edges) {
    const double len = std::hypot(e.b.x - e.a.x, e.b.y - e.a.y);
    if (len < 30) continue;
    s.nontrivial();
    // Every part of the edge that is not close to its ends is covered by a segment that runs along it.
    // Edges very close to the image border are not isolated from it.
    const P2 dir{(e.b.x - e.a.x) / len, (e.b.y - e.a.y) / len};
    int n = 0, covered = 0;
    for (double t = 7; t <= len - 7; t += 1) {
      const P2 p{e.a.x + dir.x * t, e.a.y + dir.y * t};
      if (p.x < 6 || p.y < 6 || p.x > w - 7 || p.y > h - 7) continue;
      ++n;
      bool ok = false;
      for (auto& v : l) {
        const double sl = length(v);
        if (sl < 1) continue;
        const double c = std::fabs(dir.x * (v[2] - v[0]) + dir.y * (v[3] - v[1])) / sl;
        ok = ok || (c > std::cos(10 * M_PI / 180) && segDist(P2{v[0] + .5, v[1] + .5}, P2{v[2] + .5, v[3] + .5}, p) < 2.2);
      }
      covered += ok;
    }
    if (n < 16) continue;
    // A slanted edge without anti-aliasing is a staircase, not a straight edge.
    if (shape.render == 2 && std::min(std::fabs(dir.x), std::fabs(dir.y)) > 1e-9) continue;
    PBT_CHECK(covered >= 0.9 * n, "edge (" << e.a.x << "," << e.a.y << ")-(" << e.b.x << "," << e.b.y << "): only " << covered << " of " << n
                                            << " px are covered by a segment along it:" << show(l));
  }
}

namespace {
cv::Vec4i randomSeg(Source& s, int lim) {
  cv::Vec4i v(s.i(0, lim), s.i(0, lim), s.i(0, lim), s.i(0, lim));
  switch (s.draw(6)) {
    case 0: v[2] = v[0]; break;
    case 1: v[3] = v[1]; break;
    case 2: {  // exact length (Pythagorean) or diagonal
      const int k = s.i(1, 20);
      v[2] = v[0] + (s.boolean() ? 3 : 4) * k;
      v[3] = v[1] + (v[2] - v[0] == 3 * k ? 4 : 3) * k * (s.boolean() ? 1 : -1);
      break;
    }
    case 3: v[2] = v[0] + (v[3] - v[1]) * (s.boolean() ? 1 : -1); break;
    default: break;
  }
  return v;
}
cv::Mat asInput(Source& s, const Segs& l, const char** how) {
  if (s.boolean()) {
    *how = "as a column matrix";
    cv::Mat m(static_cast<int>(l.size()), 1, CV_32SC4);
    for (size_t i = 0; i < l.size(); ++i) m.at<cv::Vec4i>(static_cast<int>(i), 0) = l[i];
    return m;
  }
  *how = "as a row matrix";
  cv::Mat m(1, static_cast<int>(l.size()), CV_32SC4);
  for (size_t i = 0; i < l.size(); ++i) m.at<cv::Vec4i>(0, static_cast<int>(i)) = l[i];
  return m;
}
}  // namespace

PBT_PROP(filters, "the filter keeps some and removes some segments", 4000, 60000) {
  auto det = aslamcv::createLineSegmentDetectorPtr();
  const int lim = s.oneOf<int>({30, 200, 2000});
  Segs l;
  const int n = s.size(0, 30);
  for (int i = 0; i < n; ++i) l.push_back(randomSeg(s, lim));
  const char* how = "as a vector";
  const bool vec = s.boolean();
  cv::Mat mat;
  if (!vec && n > 0) mat = asInput(s, l, &how);
  s << how << ":" << show(l) << " ";
  s.label(how);
  auto call = [&](const std::function<int(cv::InputArray, cv::OutputArray)>& f, Segs* out) {
    int removed;
    const bool in_place = s.boolean();
    if (vec || n == 0) {
      if (in_place) {
        *out = l;
        removed = f(*out, *out);
      } else {
        out->assign(s.i(0, 3), cv::Vec4i(7, 7, 7, 7));
        removed = f(l, *out);
      }
    } else {
      removed = f(mat, *out);
    }
    PBT_EQ(static_cast<size_t>(removed) + out->size(), l.size(), "removed and kept");
  };
  // Does `got` equal the segments of l for which keep says 1, with those saying 2 left open?
  auto compare = [&](const Segs& got, const std::function<int(const cv::Vec4i&)>& keep, const std::string& what) {
    size_t j = 0;
    for (auto& v : l) {
      const int k = keep(v);
      const bool there = j < got.size() && got[j] == v;
      if (k == 1) PBT_CHECK(there, what << ": segment" << show(Segs(1, v)) << " is missing from" << show(got));
      if (k == 0) continue;
      if (there) ++j;
    }
    PBT_EQ(j, got.size(), what << ": kept" << show(got));
  };
  {
    float lo = s.oneOf<float>({static_cast<float>(s.i(0, 60)), static_cast<float>(5 * s.i(0, 60)), -1.f, static_cast<float>(s.real(0, lim))});
    float hi = s.oneOf<float>({-1.f, static_cast<float>(5 * s.i(0, 80)), static_cast<float>(s.real(0, 2 * lim))});
    Segs got;
    const bool use_hi = s.boolean();
    call([&](cv::InputArray i, cv::OutputArray o) { return use_hi ? det->filterSize(i, o, lo, hi) : det->filterSize(i, o, lo); }, &got);
    s << "; length from " << lo << " to " << (use_hi ? hi : -1.f);
    compare(got, [&](const cv::Vec4i& v) {
      const double len = length(v);
      auto side = [](double x, double bound) { return std::fabs(x - bound) <= 1e-6 * (1 + bound) && x != bound ? 2 : x >= bound ? 1 : 0; };
      const int a = lo == -1.f ? 1 : side(len, lo);
      const int b = !use_hi || hi == -1.f ? 0 : side(len, hi);
      if (a == 0 || b == 1) return 0;
      return a == 2 || b == 2 ? 2 : 1;
    }, "length filter");
    s.nontrivial(!got.empty() && got.size() < l.size());
  }
  {
    float a = s.oneOf<float>({static_cast<float>(s.i(0, 12) * 15), static_cast<float>(s.real(0, 180))});
    float b = s.oneOf<float>({static_cast<float>(s.i(0, 12) * 15), static_cast<float>(s.real(0, 180))});
    if (b < a) std::swap(a, b);
    Segs in, out;
    call([&](cv::InputArray i, cv::OutputArray o) { return det->retainAngle(i, o, a, b); }, &in);
    call([&](cv::InputArray i, cv::OutputArray o) { return det->filterOutAngle(i, o, a, b); }, &out);
    s << "; angle from " << a << " to " << b;
    PBT_EQ(in.size() + out.size(), l.size(), "the two angle filters together");
    auto inside = [&](const cv::Vec4i& v) {
      if (v[0] == v[2] && v[1] == v[3]) return 2;  // no direction
      double t = std::atan2(static_cast<double>(v[3] - v[1]), static_cast<double>(v[2] - v[0])) * 180 / M_PI;
      if (t < 0) t += 180;
      if (t >= 180) t -= 180;
      // Directions are only known to the precision of the fast arctangent.
      const double eps = 0.02;
      // A horizontal segment has the directions 0 and 180 at once.
      if (t < eps || t > 180 - eps) return a <= eps && b >= 180 - eps ? 1 : (a > eps && b < 180 - eps) ? 0 : (t == 0 && a == 0) ? 1 : 2;
      if (t > a + eps && t < b - eps) return 1;
      if (t < a - eps || t > b + eps) return 0;
      if (a != b && (t == a || t == b) && (t == 90)) return 1;
      return 2;
    };
    compare(in, inside, "angles inside the range");
    compare(out, [&](const cv::Vec4i& v) { const int k = inside(v); return k == 2 ? 2 : 1 - k; }, "angles outside the range");
    // Partition: merging the two in the order of the input gives the input.
    size_t i = 0, j = 0;
    for (auto& v : l) {
      if (i < in.size() && in[i] == v) ++i;
      else if (j < out.size() && out[j] == v) ++j;
      else pbt::fail("segment" + show(Segs(1, v)) + " is in neither filter's result");
    }
  }
}

PBT_PROP(intersection, "the lines are not parallel", 20000, 300000) {
  auto det = aslamcv::createLineSegmentDetectorPtr();
  const int lim = s.oneOf<int>({20, 640, 4096});
  Segs a(1, randomSeg(s, lim)), b(1, randomSeg(s, lim));
  switch (s.draw(5)) {
    case 0: {  // parallel, also with reversed or scaled direction
      const int dx = s.i(-30, 30), dy = s.i(-30, 30), k = s.oneOf<int>({1, -1, 2, 3, -2}), ox = s.i(0, lim), oy = s.i(0, lim);
      b[0] = cv::Vec4i(ox, oy, ox + k * dx, oy + k * dy);
      a[0][2] = a[0][0] + dx;
      a[0][3] = a[0][1] + dy;
      break;
    }
    case 1: {  // almost parallel
      const int dx = a[0][2] - a[0][0], dy = a[0][3] - a[0][1], ox = s.i(0, lim), oy = s.i(0, lim);
      b[0] = cv::Vec4i(ox, oy, ox + dx + s.i(-2, 2), oy + dy + s.i(-2, 2));
      break;
    }
    default: break;
  }
  s << show(a) << show(b);
  const cv::Point untouched(-123, 77);
  cv::Point p = untouched;
  const bool ok = det->intersection(a, b, p);
  const __int128 a1 = a[0][3] - a[0][1], b1 = a[0][0] - a[0][2], a2 = b[0][3] - b[0][1], b2 = b[0][0] - b[0][2];
  const __int128 c1 = a1 * a[0][0] + b1 * a[0][1], c2 = a2 * b[0][0] + b2 * b[0][1];
  const __int128 det2 = a1 * b2 - a2 * b1;
  if (det2 == 0) {
    PBT_CHECK(!ok, "parallel lines reported to meet in (" << p.x << "," << p.y << ")");
    s.label("parallel");
    return;
  }
  s.nontrivial();
  const double x = static_cast<double>(b2 * c1 - b1 * c2) / static_cast<double>(det2);
  const double y = static_cast<double>(a1 * c2 - a2 * c1) / static_cast<double>(det2);
  PBT_CHECK(ok, "lines that meet in (" << x << "," << y << ") reported as parallel");
  if (std::fabs(x) > 1e8 || std::fabs(y) > 1e8) return;
  PBT_CHECK(std::fabs(p.x - x) < 1.0 + 1e-6 && std::fabs(p.y - y) < 1.0 + 1e-6, "reported (" << p.x << "," << p.y << ") instead of (" << x << "," << y << ")");
  cv::Point q;
  PBT_CHECK(det->intersection(b, a, q) && std::abs(p.x - q.x) <= 1 && std::abs(p.y - q.y) <= 1, "order of the lines");
}
