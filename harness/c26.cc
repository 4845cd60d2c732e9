// C26: calibration targets, observations and initialisers.
#include <unistd.h>

#include <algorithm>
#include <fstream>
#include <iomanip>
#include <map>
#include <set>

#include <aslam/calibration/focallength-initializers.h>
#include <aslam/calibration/helpers.h>
#include <aslam/calibration/target-aprilgrid.h>
#include <aslam/calibration/target-base.h>
#include <aslam/calibration/target-observation.h>
#include <glog/logging.h>

#include "pbt.h"
#include "util.h"

const char* pbt::kProperty = "C26";
void pbt::workerInit() { FLAGS_minloglevel = 2; cv::setNumThreads(0); }

using namespace aslam::calibration;
using pbt::Source;
typedef Eigen::Vector2d V2;
typedef Eigen::Vector3d V3;

namespace {
struct Target : public TargetBase {
  Target(size_t r, size_t c, const Eigen::Matrix3Xd& p) : TargetBase(r, c, p) {}
};
Eigen::Matrix3Xd regular(size_t rows, size_t cols, double dx, double dy) {
  Eigen::Matrix3Xd p(3, rows * cols);
  for (size_t r = 0; r < rows; ++r)
    for (size_t c = 0; c < cols; ++c) p.col(r * cols + c) = V3(c * dx, r * dy, 0);
  return p;
}
}  // namespace

PBT_PROP(target, "more than one row and column and they differ", 40000, 400000) {
  const bool large = s.chance(1, 100);  // more than one byte counts
  const bool tall = s.boolean();
  const size_t rows = large ? tall ? s.i(250, 400) : s.i(1, 40) : s.size(1, 12), cols = large ? tall ? s.i(1, 40) : s.i(250, 400) : s.size(1, 12);
  Eigen::Matrix3Xd pts(3, rows * cols);
  const bool reg = large || s.boolean();
  const double dx = s.sreal(1.0), dy = s.sreal(1.0), x0 = s.sreal(3), y0 = s.sreal(3);
  for (size_t r = 0; r < rows; ++r)
    for (size_t c = 0; c < cols; ++c)
      pts.col(r * cols + c) = reg ? V3(x0 + c * dx, y0 + r * dy, 0.5) : V3(s.sreal(5), s.sreal(5), s.sreal(5));
  s << rows << "x" << cols << "\n";
  if (!large) s << pts << "\n";
  s.nontrivial(rows > 1 && cols > 1 && rows != cols);
  Target t(rows, cols, pts);
  PBT_EQ(t.rows(), rows, "rows");
  PBT_EQ(t.cols(), cols, "cols");
  PBT_EQ(t.size(), rows * cols, "size");
  PBT_CHECK(t.points() == pts, "points");
  std::set<size_t> seen;
  for (size_t r = 0; r < rows; ++r)
    for (size_t c = 0; c < cols; ++c) {
      const size_t i = t.gridCoordinatesToPoint(r, c);
      PBT_CHECK(i < rows * cols, "index " << i << " out of range");
      seen.insert(i);
      PBT_EQ(i, r * cols + c, "row-major order");
      const std::pair<size_t, size_t> rc = t.pointToGridCoordinates(i);
      PBT_CHECK(rc.first == r && rc.second == c, "point " << i << " at (" << r << ", " << c << ") converts back to (" << rc.first << ", " << rc.second << ")");
      PBT_CHECK(t.gridPoint(r, c) == pts.col(i) && t.point(i) == pts.col(i), "stored point");
    }
  PBT_EQ(seen.size(), rows * cols, "indices are not unique");
  for (size_t i = 0; i < t.size(); ++i) {
    const std::pair<size_t, size_t> rc = t.pointToGridCoordinates(i);
    PBT_CHECK(rc.first < rows && rc.second < cols, "grid coordinates out of range");
    PBT_EQ(t.gridCoordinatesToPoint(rc.first, rc.second), i, "index");
  }
  if (reg) {
    PBT_CHECK(closeTo(t.width(), (cols - 1) * std::fabs(dx), 1e-12, 1e-13), "width " << t.width());
    PBT_CHECK(closeTo(t.height(), (rows - 1) * std::fabs(dy), 1e-12, 1e-13), "height " << t.height());
  }
  const size_t k = s.draw(t.size());
  double* m = t.pointMutable(k);
  m[0] = 41;
  m[1] = 42;
  m[2] = 43;
  pts.col(k) = V3(41, 42, 43);
  PBT_CHECK(t.points() == pts, "pointMutable changed other points");
  if (s.chance(1, 60)) {
    PBT_CHECK(pbt::fateOf([&] { t.point(rows * cols); }) == pbt::Fate::kAborted, "point out of range");
    PBT_CHECK(pbt::fateOf([&] { t.pointMutable(rows * cols); }) == pbt::Fate::kAborted, "pointMutable out of range");
    PBT_CHECK(pbt::fateOf([&] { t.gridPoint(rows, 0); }) == pbt::Fate::kAborted, "row out of range");
    PBT_CHECK(pbt::fateOf([&] { t.gridPoint(0, cols); }) == pbt::Fate::kAborted, "column out of range");
    PBT_CHECK(pbt::fateOf([&] { Target w(rows, cols + 1, pts); }) == pbt::Fate::kAborted, "wrong number of points");
  }
}

PBT_PROP(observation, "the observation is partial", 100000, 1000000) {
  const bool large = s.chance(1, 150);
  const size_t rows = large ? s.i(8, 40) : s.size(1, 8), cols = large ? s.i(8, 40) : s.size(1, 8);
  const bool standard = s.chance(3, 4);
  const uint32_t height = standard ? 480 : static_cast<uint32_t>(s.range(1, 100000)), width = standard ? 640 : static_cast<uint32_t>(s.range(1, 100000));
  TargetBase::Ptr t(new Target(rows, cols, regular(rows, cols, 0.1, 0.2)));
  std::vector<int> ids;
  for (size_t i = 0; i < rows * cols; ++i) ids.push_back(static_cast<int>(i));
  for (size_t i = 0; i + 1 < ids.size(); ++i)  // any order
    if (s.boolean()) std::swap(ids[i], ids[i + s.draw(ids.size() - i)]);
  const size_t n = s.boolean() ? ids.size() : s.draw(ids.size() + 1);
  ids.resize(n);
  Eigen::VectorXi corner_ids(n);
  Eigen::Matrix2Xd corners(2, n);
  std::map<int, V2> want;
  for (size_t i = 0; i < n; ++i) {
    corner_ids(i) = ids[i];
    corners.col(i) = i < 100 ? V2(s.real(0, width), s.real(0, height)) : V2(0.75 * corners.col(i - 100) + 0.001 * V2(i, i));
    want[ids[i]] = corners.col(i);
  }
  s << rows << "x" << cols << " ids " << corner_ids.transpose() << "\n";
  s.nontrivial(n < rows * cols && n > 0);
  TargetObservation o(t, height, width, corner_ids, corners);
  PBT_EQ(o.getImageWidth(), width, "width");
  PBT_EQ(o.getImageHeight(), height, "height");
  PBT_CHECK(o.getTarget() == t, "target");
  PBT_EQ(o.numObservedCorners(), n, "number of corners");
  PBT_EQ(o.allCornersObservered(), n == rows * cols, "completeness");
  PBT_CHECK(o.getObservedCornerIds() == corner_ids && o.getObservedCorners() == corners, "stored data");
  for (int id = 0; id < static_cast<int>(rows * cols); ++id) {
    V2 c(-7, -8);
    const bool has = want.count(id) == 1;
    PBT_EQ(o.observedCornerId(id), has, "observedCornerId(" << id << ")");
    PBT_EQ(o.getObservedCornerById(id, &c), has, "getObservedCornerById(" << id << ")");
    PBT_CHECK(c == (has ? want[id] : V2(-7, -8)), "corner " << id);
  }
  const Eigen::Matrix3Xd p = o.getCorrespondingTargetPoints();
  PBT_EQ(static_cast<size_t>(p.cols()), n, "corresponding points");
  for (size_t i = 0; i < n; ++i) {
    PBT_CHECK(o.getObservedCorner(i) == corners.col(i), "corner by index");
    PBT_EQ(static_cast<int>(o.getObservedCornerId(i)), ids[i], "id by index");
    PBT_CHECK(p.col(i) == t->point(ids[i]), "corresponding target point");
  }
  if (standard && n <= 64 && s.chance(1, 100)) {
    cv::Mat image(480, 640, CV_8UC3, cv::Scalar(1, 2, 3));
    o.drawCornersIntoImage(&image);
    PBT_CHECK(image.rows == 480 && image.cols == 640 && image.type() == CV_8UC3, "drawing changed the image format");
    for (int y = 0; y < image.rows; ++y)
      for (int x = 0; x < image.cols; ++x) {
        if (image.at<cv::Vec3b>(y, x) == cv::Vec3b(1, 2, 3)) continue;
        bool near = false;
        for (auto& kv : want) near = near || (kv.second - V2(x, y)).norm() < 6;
        PBT_CHECK(near, "drawn far from every corner");
      }
    for (auto& kv : want) {
      const int x = static_cast<int>(kv.second(0)), y = static_cast<int>(kv.second(1));
      bool drawn = false;
      for (int dy = -3; dy <= 3; ++dy)
        for (int dx = -3; dx <= 3; ++dx)
          if (x + dx >= 0 && y + dy >= 0 && x + dx < 640 && y + dy < 480) drawn = drawn || image.at<cv::Vec3b>(y + dy, x + dx) != cv::Vec3b(1, 2, 3);
      PBT_CHECK(drawn || x < 0 || y < 0 || x > 639 || y > 479, "corner not drawn");
    }
  }
}

namespace {
double eqError(const cv::Point2d& p, double x, double y, double r) {
  return std::fabs(std::hypot(p.x - x, p.y - y) - r);
}
}  // namespace

PBT_PROP(intersect, "the circles intersect", 600000, 12000000) {
  const double mag = s.oneOf<double>({1.0, 1000.0, 1e-3});
  double x1 = s.sreal(mag), y1 = s.sreal(mag), r1 = s.real(0.01 * mag, mag);
  double x2, y2, r2;
  const int kind = s.i(0, 6);
  switch (kind) {
    case 0: x2 = x1; y2 = y1; r2 = s.boolean() ? r1 : s.real(0.01 * mag, mag); break;  // concentric
    case 1: {  // touching, from outside or inside
      r2 = s.real(0.01 * mag, mag);
      const double a = s.real(0, 6.3), d = s.boolean() ? r1 + r2 : std::fabs(r1 - r2);
      x2 = x1 + d * std::cos(a);
      y2 = y1 + d * std::sin(a);
      break;
    }
    case 2: {  // touching along an axis
      r2 = s.real(0.01 * mag, mag);
      const double d = s.boolean() ? r1 + r2 : std::fabs(r1 - r2);
      x2 = s.boolean() ? x1 + d : x1 - d;
      y2 = y1;
      break;
    }
    default:
      x2 = s.sreal(mag); y2 = s.sreal(mag); r2 = s.real(0.01 * mag, mag);
  }
  s << std::setprecision(17) << x1 << " " << y1 << " " << r1 << " | " << x2 << " " << y2 << " " << r2 << "\n";
  std::vector<cv::Point2d> p;
  InitializerHelpers::intersectCircles(x1, y1, r1, x2, y2, r2, &p);
  const double d = std::hypot(x2 - x1, y2 - y1), scale = mag + r1 + r2, eps = 1e-9 * scale;
  const bool outside = d > r1 + r2 + eps || d < std::fabs(r1 - r2) - eps;
  const bool inside = d < r1 + r2 - eps && d > std::fabs(r1 - r2) + eps;
  s.nontrivial(inside);
  PBT_CHECK(p.size() <= 2, p.size() << " points");
  if (outside) PBT_CHECK(p.empty(), "circles that do not meet intersect");
  if (inside) PBT_CHECK(p.size() == 2, "circles that intersect have " << p.size() << " common points");
  for (auto& q : p) {
    PBT_CHECK(std::isfinite(q.x) && std::isfinite(q.y), "not a number");
    // near tangency or nearly concentric circles the point is ill conditioned
    const double tol = inside ? 1e-9 * scale * (1 + scale / std::max(d, 1e-9 * scale)) : 1e-4 * scale;
    PBT_CHECK(eqError(q, x1, y1, r1) <= tol && eqError(q, x2, y2, r2) <= tol, "point " << q.x << " " << q.y << " is off the circles by " << eqError(q, x1, y1, r1) << " and " << eqError(q, x2, y2, r2));
  }
  if (p.size() == 2 && inside) PBT_CHECK(cv::norm(p[0] - p[1]) > 0, "twice the same point");
}

PBT_PROP(fit, "more than three points", 300000, 6000000) {
  const double x = s.sreal(2000), y = s.sreal(2000), r = s.real(20, 3000);
  const int n = s.size(3, 15);
  const double a0 = s.real(0, 6.3), arc = s.real(0.4, 6.28);
  std::vector<cv::Point2d> p;
  for (int i = 0; i < n; ++i) {
    const double a = a0 + arc * i / n + s.real(0, 0.3) * arc / n;
    p.emplace_back(x + r * std::cos(a), y + r * std::sin(a));
  }
  s << "centre " << x << " " << y << " radius " << r << " arc " << a0 << " + " << arc << " points " << n << "\n";
  s.nontrivial(n > 3);
  double cx = -1, cy = -1, cr = -1;
  InitializerHelpers::fitCircle(p, &cx, &cy, &cr);
  const double tol = 1e-5 * (r + std::hypot(x, y)) / std::pow(std::min(1.0, arc), 3) * std::max(1.0, std::pow((std::hypot(x, y) + r) / (50 * r * arc), 2));
  PBT_CHECK(std::hypot(cx - x, cy - y) <= tol && std::fabs(cr - r) <= tol, "fitted centre " << cx << " " << cy << " radius " << cr << " tolerance " << tol);
  for (auto& q : p) PBT_CHECK(eqError(q, cx, cy, cr) <= tol, "the fitted circle misses a point");
}

namespace {
struct Scene {
  double fu, fv;
  uint32_t w, h;
  std::vector<TargetObservation::Ptr> obs;
  int complete = 0;
  std::vector<Eigen::Matrix3d> H;  // exact homographies of the complete views
};

TargetObservation::Ptr view(Source& s, const TargetBase::Ptr& t, uint32_t h, uint32_t w, const Eigen::Matrix2Xd& img, bool complete) {
  std::vector<int> ids;
  for (int i = 0; i < img.cols(); ++i) ids.push_back(i);
  for (size_t i = 0; i + 1 < ids.size(); ++i)
    if (s.chance(1, 3)) std::swap(ids[i], ids[i + s.draw(ids.size() - i)]);
  if (!complete) ids.resize(ids.size() - 1 - s.draw(std::min<size_t>(ids.size(), 4)));
  Eigen::VectorXi v(ids.size());
  Eigen::Matrix2Xd c(2, ids.size());
  for (size_t i = 0; i < ids.size(); ++i) {
    v(i) = ids[i];
    c.col(i) = img.col(ids[i]);
  }
  return TargetObservation::Ptr(new TargetObservation(t, h, w, v, c));
}
}  // namespace

// Exact pinhole views of a plane: the image of the absolute conic.
PBT_PROP(absolute_conic, "at least one complete and one incomplete view", 30000, 600000) {
  Scene sc;
  sc.fu = s.real(200, 1200);
  sc.fv = s.boolean() ? sc.fu : sc.fu * s.real(0.8, 1.25);
  sc.w = 2 * s.i(100, 900);
  sc.h = 2 * s.i(100, 700);
  const double cu = (sc.w - 1.0) / 2, cv = (sc.h - 1.0) / 2;
  const int n = s.i(1, 6);
  s << "f " << sc.fu << " " << sc.fv << " image " << sc.w << "x" << sc.h << " views";
  for (int i = 0; i < n; ++i) {
    const int rows = s.i(3, 7), cols = s.i(3, 7);
    const double dx = s.real(0.02, 0.2), dy = s.boolean() ? dx : s.real(0.02, 0.2);
    TargetBase::Ptr t(new Target(rows, cols, regular(rows, cols, dx, dy)));
    const double size = std::max(rows * dy, cols * dx);
    const V3 axis = V3(s.sreal(1) + 0.01, s.sreal(1), 0.3 * s.sreal(1)).normalized();
    const Eigen::Matrix3d R = (Eigen::AngleAxisd(s.sreal(M_PI), V3::UnitZ()) * Eigen::AngleAxisd(s.real(0.35, 0.9), axis)).toRotationMatrix();
    const V3 centre(cols * dx / 2, rows * dy / 2, 0);
    const V3 p = V3(s.sreal(0.3), s.sreal(0.3), 1) * size * s.real(1.6, 2.5) - R * centre;
    Eigen::Matrix2Xd img(2, rows * cols);
    Eigen::Matrix3d K;
    K << sc.fu, 0, cu, 0, sc.fv, cv, 0, 0, 1;
    for (int k = 0; k < rows * cols; ++k) {
      const V3 q = R * t->point(k) + p;
      if (q(2) < 0.1 * size) throw pbt::Discard();
      img.col(k) = V2(sc.fu * q(0) / q(2) + cu, sc.fv * q(1) / q(2) + cv);
    }
    const bool complete = !s.chance(1, 3);
    s << (complete ? " complete" : " partial") << rows << "x" << cols;
    sc.complete += complete;
    sc.obs.push_back(view(s, t, sc.h, sc.w, img, complete));
    if (complete) {
      Eigen::Matrix3d H;
      H << R.col(0), R.col(1), p;
      sc.H.push_back(H);
    }
  }
  s << "\n";
  s.nontrivial(sc.complete > 0 && sc.complete < n);
  Eigen::VectorXd k(2);
  k << -3, -4;
  // conditioning of the exact linear system in (1/fu^2, 1/fv^2), scaled
  Eigen::MatrixXd A(2 * sc.H.size(), 2);
  for (size_t i = 0; i < sc.H.size(); ++i) {
    V3 h = sc.H[i].col(0), v = sc.H[i].col(1), a = (h + v).normalized(), b = (h - v).normalized();
    A.row(2 * i) << h(0) * v(0), h(1) * v(1);
    A.row(2 * i + 1) << a(0) * b(0), a(1) * b(1);
  }
  if (sc.complete > 0) {
    const Eigen::VectorXd sv = A.jacobiSvd().singularValues();
    if (sv(1) < 0.08) throw pbt::Discard();
  }
  const bool ok = initFocalLengthAbsoluteConic(sc.obs, &k);
  PBT_EQ(ok, sc.complete > 0, "success");
  if (!ok) {
    PBT_CHECK(k.size() == 2 && k(0) == -3 && k(1) == -4, "intrinsics written on failure");
    return;
  }
  PBT_EQ(k.size(), 4, "number of intrinsics");
  PBT_CHECK(closeTo(k(0), sc.fu, 5e-3, 0) && closeTo(k(1), sc.fv, 5e-3, 0), "focal lengths " << k(0) << " " << k(1));
  PBT_CHECK(k(2) == cu && k(3) == cv, "principal point " << k(2) << " " << k(3));
  // incomplete views have no influence
  std::vector<TargetObservation::Ptr> only;
  for (auto& o : sc.obs)
    if (o->allCornersObservered()) only.push_back(o);
  Eigen::VectorXd k2;
  PBT_CHECK(initFocalLengthAbsoluteConic(only, &k2), "complete views only");
  PBT_CHECK((k2 - k).norm() <= 1e-6 * k.norm(), "incomplete views change the result: " << k.transpose() << " and " << k2.transpose());
}

// Rows of points on known circles: vanishing points.
PBT_PROP(vanishing_points, "several complete views", 50000, 1000000) {
  const uint32_t w = 2 * s.i(100, 900), h = 2 * s.i(100, 700);
  const int n = s.i(1, 4);
  std::vector<TargetObservation::Ptr> obs;
  std::vector<double> guesses;
  int complete_views = 0;
  for (int i = 0; i < n; ++i) {
    const int rows = s.i(1, 5), cols = s.i(4, 8);
    TargetBase::Ptr t(new Target(rows, cols, regular(rows, cols, 0.1, 0.1)));
    Eigen::Matrix2Xd img(2, rows * cols);
    std::vector<Eigen::Vector3d> circle;
    for (int r = 0; r < rows; ++r) {
      const V3 c(w / 2.0 + s.sreal(300), h / 2.0 + s.sreal(300), s.real(100, 900));
      circle.push_back(c);
      const double a0 = s.real(0, 6.28), arc = s.real(1.2, 5);
      for (int q = 0; q < cols; ++q) {
        const double a = a0 + arc * q / cols;
        img.col(r * cols + q) = V2(c(0) + c(2) * std::cos(a), c(1) + c(2) * std::sin(a));
      }
    }
    const bool complete = !s.chance(1, 3);
    obs.push_back(view(s, t, h, w, img, complete));
    if (!complete) continue;
    ++complete_views;
    for (int j = 0; j < rows; ++j)
      for (int k = j + 1; k < rows; ++k) {
        const double d = (circle[j] - circle[k]).head<2>().norm(), r1 = circle[j](2), r2 = circle[k](2);
        const double margin = 1e-3 * (r1 + r2);
        if (d > r1 + r2 + margin || d < std::fabs(r1 - r2) - margin) continue;
        if (d > r1 + r2 - margin || d < std::fabs(r1 - r2) + margin) throw pbt::Discard();
        const double a = (r1 * r1 - r2 * r2 + d * d) / (2 * d);
        guesses.push_back(2 * std::sqrt(r1 * r1 - a * a) / M_PI);
      }
  }
  s << w << "x" << h << " views " << n << " complete " << complete_views << " guesses " << guesses.size() << "\n";
  s.nontrivial(complete_views > 1);
  Eigen::VectorXd k(1);
  k << -3;
  const bool ok = initFocalLengthVanishingPoints(obs, &k);
  PBT_EQ(ok, !guesses.empty(), "success");
  if (!ok) {
    PBT_CHECK(k.size() == 1 && k(0) == -3, "intrinsics written on failure");
    return;
  }
  std::sort(guesses.begin(), guesses.end());
  const size_t m = guesses.size();
  const double want = m % 2 ? guesses[m / 2] : (guesses[m / 2] + guesses[m / 2 - 1]) / 2;
  PBT_EQ(k.size(), 4, "number of intrinsics");
  PBT_CHECK(closeTo(k(0), want, 1e-3, 0) && k(0) == k(1), "focal length " << k(0) << " " << k(1) << " expected " << want);
  PBT_CHECK(k(2) == (w - 1.0) / 2 && k(3) == (h - 1.0) / 2, "principal point");
}

// AprilGrid: layout of the grid and assignment of tag corners to grid points.
PBT_PROP(aprilgrid, "some detections are kept and some are not", 100000, 1000000) {
  TargetAprilGrid::TargetConfiguration cfg;
  const bool large = s.chance(1, 300);
  cfg.num_tag_rows = large ? s.i(8, 20) : s.i(1, 6);
  cfg.num_tag_cols = large ? s.i(8, 20) : s.i(1, 6);
  cfg.tag_size_meter = s.real(0.01, 0.2);
  cfg.tag_inbetween_space_meter = s.real(0.001, 0.1);
  const double pitch = cfg.tag_size_meter + cfg.tag_inbetween_space_meter;
  TargetAprilGrid::Ptr t(new TargetAprilGrid(cfg));
  PBT_EQ(t->rows(), 2 * cfg.num_tag_rows, "rows");
  PBT_EQ(t->cols(), 2 * cfg.num_tag_cols, "cols");
  PBT_CHECK(closeTo(t->width(), cfg.num_tag_cols * cfg.tag_size_meter + (cfg.num_tag_cols - 1) * cfg.tag_inbetween_space_meter, 1e-12, 0), "width");
  PBT_CHECK(closeTo(t->height(), cfg.num_tag_rows * cfg.tag_size_meter + (cfg.num_tag_rows - 1) * cfg.tag_inbetween_space_meter, 1e-12, 0), "height");
  auto physical = [&](int tag, int corner) {  // counter-clockwise from the lower left
    const int r = tag / static_cast<int>(cfg.num_tag_cols), c = tag % static_cast<int>(cfg.num_tag_cols);
    return V3(c * pitch + (corner == 1 || corner == 2 ? cfg.tag_size_meter : 0), r * pitch + (corner >= 2 ? cfg.tag_size_meter : 0), 0);
  };
  const int num_tags = static_cast<int>(cfg.num_tag_rows * cfg.num_tag_cols);
  DetectorAprilGrid::DetectorConfiguration dc;
  dc.run_subpixel_refinement = s.chance(1, 4);
  dc.min_visible_tags_for_valid_obs = s.i(0, 6);
  dc.min_border_distance_px = s.oneOf<double>({0.0, 4.0, 17.5});
  DetectorAprilGrid detector(t, dc);
  cv::Mat image(120, 160, CV_8UC1, cv::Scalar(40));
  if (dc.run_subpixel_refinement && s.boolean()) {
    cv::RNG rng(s.draw(1000));
    rng.fill(image, cv::RNG::UNIFORM, 0, 256);
  }
  std::vector<int> ids;
  for (int i = 0; i < num_tags + 3; ++i) ids.push_back(i);
  for (size_t i = 0; i + 1 < ids.size(); ++i) std::swap(ids[i], ids[i + s.draw(ids.size() - i)]);
  ids.resize(s.draw(ids.size() + 1));
  std::vector<AprilTags::TagDetection> det;
  std::map<int, AprilTags::TagDetection> kept;
  for (int id : ids) {
    AprilTags::TagDetection d;
    d.id = id;
    d.good = !s.chance(1, 8);
    bool ok = d.good && id < num_tags;
    const bool at_border = s.chance(1, 6);
    for (int k = 0; k < 4; ++k) {
      d.p[k].first = static_cast<float>(s.real(18, 142));
      d.p[k].second = static_cast<float>(s.real(18, 102));
    }
    if (at_border) {
      const int k = s.i(0, 3);
      const double b = dc.min_border_distance_px + (s.boolean() ? -0.25 : 0.25);
      switch (s.draw(4)) {
        case 0: d.p[k].first = static_cast<float>(b); break;
        case 1: d.p[k].first = static_cast<float>(160 - b); break;
        case 2: d.p[k].second = static_cast<float>(b); break;
        default: d.p[k].second = static_cast<float>(120 - b);
      }
      ok = ok && b > dc.min_border_distance_px;
      if (dc.run_subpixel_refinement && dc.min_border_distance_px == 0) ok = ok && true;
    }
    det.push_back(d);
    if (ok) kept[id] = d;
  }
  s << cfg.num_tag_rows << "x" << cfg.num_tag_cols << " tags, detected " << det.size() << " good " << kept.size() << " minimum " << dc.min_visible_tags_for_valid_obs << " subpixel " << dc.run_subpixel_refinement << "\n";
  s.nontrivial(!kept.empty() && kept.size() < det.size());
  if (dc.run_subpixel_refinement && kept.empty()) return;  // nothing to refine
  if (dc.run_subpixel_refinement && dc.min_border_distance_px == 0) return;
  AprilTags::TagDetector::next() = det;
  const TargetObservation::Ptr o = detector.detectTargetInImage(image);
  PBT_EQ(static_cast<bool>(o), kept.size() >= dc.min_visible_tags_for_valid_obs, "observation reported with " << kept.size() << " tags");
  if (!o) return;
  PBT_CHECK(o->getTarget() == t && o->getImageWidth() == 160 && o->getImageHeight() == 120, "target or image size");
  std::set<int> seen;
  for (size_t i = 0; i < o->numObservedCorners(); ++i) {
    const int id = static_cast<int>(o->getObservedCornerId(i));
    PBT_CHECK(id >= 0 && id < static_cast<int>(t->size()), "corner id " << id);
    PBT_CHECK(seen.insert(id).second, "corner " << id << " twice");
    const V3 where = t->point(id);
    bool found = false;
    for (auto& kv : kept)
      for (int k = 0; k < 4; ++k)
        if ((physical(kv.first, k) - where).norm() < 1e-9) {
          found = true;
          const V2 raw(kv.second.p[k].first, kv.second.p[k].second);
          if (!dc.run_subpixel_refinement) PBT_CHECK(o->getObservedCorner(i) == raw, "corner " << id << " is " << o->getObservedCorner(i).transpose() << " detected " << raw.transpose());
          else PBT_CHECK((o->getObservedCorner(i) - raw).squaredNorm() <= dc.max_subpixel_refine_displacement_px_sq + 1e-9, "corner moved too far");
        }
    PBT_CHECK(found, "corner " << id << " was not detected");
  }
  if (!dc.run_subpixel_refinement) PBT_EQ(seen.size(), 4 * kept.size(), "number of corners");
}

PBT_PROP(aprilgrid_config, "always", 300, 3000) {
  const int rows = s.i(1, 20), cols = s.i(1, 20);
  const double size = s.real(0.01, 0.5), rel = s.real(0.05, 0.9);
  char name[] = "/tmp/c26XXXXXX";
  const int fd = mkstemp(name);
  std::ostringstream o;
  o << std::setprecision(17) << "target_type: 'aprilgrid'\ntagCols: " << cols << "\ntagRows: " << rows << "\ntagSize: " << size << "\ntagSpacing: " << rel << "\n";
  s << o.str();
  s.nontrivial();
  if (write(fd, o.str().data(), o.str().size()) < 0) {}
  close(fd);
  const TargetAprilGrid::TargetConfiguration c = TargetAprilGrid::TargetConfiguration::fromYaml(name);
  unlink(name);
  PBT_CHECK(static_cast<int>(c.num_tag_rows) == rows && static_cast<int>(c.num_tag_cols) == cols, "grid size");
  PBT_CHECK(c.tag_size_meter == size && closeTo(c.tag_inbetween_space_meter, rel * size, 1e-15, 0), "tag size and spacing");
}
