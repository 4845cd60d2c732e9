// C16: reported projection Jacobians are the derivatives of the projection.
#include <glog/logging.h>

#include "pbt.h"
#include "camera_ref.h"

const char* pbt::kProperty = "C16";
void pbt::workerInit() { FLAGS_minloglevel = 3; }

using namespace cref;
using pbt::Source;
typedef aslam::ProjectionResult Result;
typedef Eigen::Matrix<double, 2, 3> M23;
typedef Eigen::Matrix<double, 2, 4> M24;
typedef Eigen::Matrix<double, 2, Eigen::Dynamic> M2X;

namespace {
typedef Dual<12> D;  // 3 point, 5 intrinsic, 4 distortion

// Derivatives of the published model with respect to everything.
Eigen::Matrix<double, 2, 12> derivative(const Cam& c, const V3& p) {
  D in[5], k[4], u, v;
  for (int i = 0; i < c.intr.size(); ++i) in[i] = D::var(c.intr(i), 3 + i);
  for (int i = 0; i < c.k.size(); ++i) k[i] = D::var(c.k(i), 8 + i);
  project<D>(c, in, k, D::var(p(0), 0), D::var(p(1), 1), D::var(p(2), 2), &u, &v);
  Eigen::Matrix<double, 2, 12> r;
  for (int i = 0; i < 12; ++i) {
    r(0, i) = static_cast<double>(u.v[i]);
    r(1, i) = static_cast<double>(v.v[i]);
  }
  return r;
}

struct Case {
  Cam c;
  V3 p;
  Result r = Result(Result::Status::UNINITIALIZED);
  V2 pix;
};

// A camera and a point whose projection is not invalid.
Case draw(Source& s) {
  Case t;
  t.c = camera(s, 2, 0.05, 40);
  if (t.c.disc < 1e-3) throw pbt::Discard();
  t.c.cam = build(t.c);
  t.p = anyPoint(s, t.c);
  t.r = t.c.cam->project3(t.p, &t.pix);
  s << show(t.c) << "point " << t.p.transpose() << " pixel " << t.pix.transpose() << " " << t.r;
  if (t.r.getDetailedStatus() == Result::Status::PROJECTION_INVALID) throw pbt::Discard();
  const double den = t.p(2) + (t.c.kind == kUnified ? t.c.xi() * t.p.norm() : 0);
  if (std::fabs(den) < 1e-4 * t.p.norm()) throw pbt::Discard();  // ill conditioned
  // the fisheye model is cut off far outside
  const double m = plane(t.c, t.p).norm();
  if (t.c.model == dref::kFish ? m > dref::discRadius(dref::kFish, t.c.k, 20, 0, 0) : m > 1e3) throw pbt::Discard();
  return t;
}

// Relative accuracy of the model itself, see C14.
double modelTol(const Cam& c, const V3& p) {
  return c.model == dref::kFish && plane(c, p).squaredNorm() < 1.1e-5 ? 1.5e-4 : 1e-8;
}
double amplification(const Cam& c, const V3& p) {
  return c.kind == kUnified ? p.norm() * (1 + c.xi()) / std::fabs(p(2) + c.xi() * p.norm()) : 1.0;
}

void checkPoint(const Case& t, const M23& J, const char* what) {
  const Eigen::Matrix<double, 2, 12> want = derivative(t.c, t.p);
  for (int r = 0; r < 2; ++r) {
    const double tol = (modelTol(t.c, t.p) + 1e-14 * amplification(t.c, t.p)) * (want.row(r).head<3>().norm() + t.c.f(r) / t.p.norm() * (t.c.model == dref::kRadTan || t.c.model == dref::kNull ? 1e-3 : 1));
    for (int i = 0; i < 3; ++i)
      PBT_CHECK(std::fabs(J(r, i) - want(r, i)) <= tol, what << ": Jacobian\n" << J << "\nderivative\n" << want.leftCols<3>());
  }
}
void checkIntrinsics(const Case& t, const M2X& J) {
  const int n = static_cast<int>(t.c.intr.size());
  PBT_EQ(static_cast<int>(J.cols()), n, "columns of the Jacobian with respect to the intrinsics");
  const Eigen::Matrix<double, 2, 12> want = derivative(t.c, t.p);
  const V2 m = plane(t.c, t.p);
  const double a = amplification(t.c, t.p);
  for (int i = 0; i < n; ++i)
    for (int r = 0; r < 2; ++r) {
      const bool mirror = t.c.kind == kUnified && i == 0;
      const double scale = mirror ? want.col(0 + 3).norm() + t.c.f(r) * m.norm() * a * 1e-3 : std::fabs(want(r, 3 + i)) + 1e-4 * m.norm();
      PBT_CHECK(std::fabs(J(r, i) - want(r, 3 + i)) <= (modelTol(t.c, t.p) + 1e-13 * a) * scale + 1e-15, "intrinsics: Jacobian\n" << J << "\nderivative\n" << want.middleCols(3, n));
    }
}
void checkDistortion(const Case& t, const M2X& J) {
  const int n = static_cast<int>(t.c.k.size());
  PBT_EQ(static_cast<int>(J.cols()), n, "columns of the Jacobian with respect to the distortion");
  if (n == 0) return;
  const Eigen::Matrix<double, 2, 12> want = derivative(t.c, t.p);
  const V2 m = plane(t.c, t.p);
  for (int i = 0; i < n; ++i)
    for (int r = 0; r < 2; ++r) {
      const double f = t.c.f(r), scale = std::max(t.c.f(0), t.c.f(1)) * 0 + f * (want.col(8 + i).cwiseQuotient(V2(t.c.f(0), t.c.f(1))).norm() + m.squaredNorm());
      const double tol = t.c.model == dref::kFish && m.squaredNorm() < 1.1e-5 ? 1e-4 * f * m.norm() : 1e-8 * scale + 2e-10 * f * m.norm() * (t.c.model == dref::kFish) + 1e-12 * f * m.norm() * amplification(t.c, t.p);
      PBT_CHECK(std::fabs(J(r, i) - want(r, 8 + i)) <= tol + 1e-17, "distortion: Jacobian\n" << J << "\nderivative\n" << want.middleCols(8, n));
    }
}
// Output matrices hold anything beforehand.
M2X garbage(Source& s) {
  switch (s.draw(3)) {
    case 0: return M2X();
    case 1: return M2X::Constant(2, 9, 3.5);
    default: return M2X::Constant(2, 4, -2);
  }
}
bool close(const M2X& a, const M2X& b) {
  return a.cols() == b.cols() && (a.size() == 0 || (a - b).cwiseAbs().maxCoeff() <= 1e-12 * (a.cwiseAbs().maxCoeff() + b.cwiseAbs().maxCoeff()));
}
}  // namespace

PBT_PROP(derivatives, "the camera distorts, is not a pinhole, or the point is behind or outside", 1200000, 8000000) {
  const Case t = draw(s);
  const bool seen = t.r.isKeypointVisible();
  s.nontrivial(t.c.kind != kPinhole || t.c.model != dref::kNull || !seen);
  s.label(seen ? "visible" : t.r == Result::Status::POINT_BEHIND_CAMERA ? "behind" : "outside");
  M23 J = M23::Constant(7);
  V2 pix(-1, -1);
  t.c.cam->project3(t.p, &pix, &J);
  checkPoint(t, J, "project3");
  J.setConstant(7);
  M2X Ji = garbage(s), Jd = garbage(s);
  t.c.cam->project3Functional(t.p, nullptr, nullptr, &pix, &J, &Ji, &Jd);
  checkPoint(t, J, "project3Functional");
  checkIntrinsics(t, Ji);
  checkDistortion(t, Jd);
}

// The homogeneous Jacobian is the derivative of the reported projection with
// respect to the homogeneous coordinates, for both signs of the scale.
PBT_PROP(homogeneous, "the scale is negative or zero", 600000, 4000000) {
  const Case t = draw(s);
  double w = s.chance(1, 6) ? 0 : s.real(0.05, 20);
  if (s.boolean()) w = -w;
  Eigen::Vector4d ph;
  if (w == 0) ph << t.p, s.boolean() ? 0.0 : -0.0;
  else ph << t.p * w, w;
  s << "homogeneous " << ph.transpose() << "\n";
  s.nontrivial(w <= 0);
  M24 J = M24::Constant(9);
  V2 pix, plain;
  const Result r = t.c.cam->project4(ph, &pix, &J);
  const Result rp = t.c.cam->project4(ph, &plain);
  PBT_CHECK(r == rp && (pix - plain).norm() <= 1e-12 * (1 + plain.norm()), "requesting the Jacobian changes the projection: " << pix.transpose() << " and " << plain.transpose());
  PBT_CHECK(r == t.r || !(r.isKeypointVisible() != t.r.isKeypointVisible()) || (pix - t.pix).norm() <= 1e-9 * (1 + t.pix.norm()), "status");
  // The 3d point that is projected is the head, with the sign of the scale.
  const double sign = w < 0 ? -1 : 1;
  const Eigen::Matrix<double, 2, 12> want = derivative(t.c, V3(sign * ph.head<3>()));
  const V3 q = ph.head<3>() * sign;
  for (int k = 0; k < 2; ++k) {
    const double tol = (modelTol(t.c, t.p) + 1e-14 * amplification(t.c, t.p)) * (want.row(k).head<3>().norm() + t.c.f(k) / q.norm());
    for (int i = 0; i < 3; ++i)
      PBT_CHECK(std::fabs(J(k, i) - sign * want(k, i)) <= tol, "Jacobian\n" << J << "\nderivative\n" << sign * want.leftCols<3>());
    PBT_CHECK(std::fabs(J(k, 3)) <= tol, "the projection does not change with the scale alone, Jacobian\n" << J);
  }
}

// Numerical derivatives of the code's own projection.
PBT_PROP(numeric, "the camera distorts or is not a pinhole", 180000, 1200000) {
  Case t = draw(s);
  const double m = plane(t.c, t.p).norm();
  if (t.c.model == dref::kFish && m < 6e-3) throw pbt::Discard();   // switches to its limit
  if (t.c.model == dref::kEqui && m < 1e-3) throw pbt::Discard();
  if (m > 10) throw pbt::Discard();
  const double a = amplification(t.c, t.p);
  if (a > 50) throw pbt::Discard();
  s.nontrivial(t.c.kind != kPinhole || t.c.model != dref::kNull);
  M23 J;
  M2X Ji, Jd;
  V2 pix;
  t.c.cam->project3Functional(t.p, nullptr, nullptr, &pix, &J, &Ji, &Jd);
  auto four = [&](const std::function<V2(double)>& f, double h) { return V2((8 * (f(h) - f(-h)) - (f(2 * h) - f(-2 * h))) / (12 * h)); };
  const double size = std::max(t.c.f(0), t.c.f(1)) * (1 + m * m * m * m * m);
  // rounding of the pixel
  const double eps = 1e-14 * (t.pix.norm() + t.c.c(0) + t.c.c(1) + t.c.f(0) + t.c.f(1));
  const double dist = std::fabs(t.p(2) + (t.c.kind == kUnified ? t.c.xi() * t.p.norm() : 0));
  for (int i = 0; i < 3; ++i) {
    const V2 num = four([&](double h) { V3 p = t.p; p(i) += h; V2 u; t.c.cam->project3(p, &u); return u; }, 1e-4 * std::min(dist, t.p.norm()));
    PBT_CHECK((num - J.col(i)).norm() <= 1e-6 * (J.norm() + size / dist) + eps / (1e-4 * std::min(dist, t.p.norm())), "point: numeric derivative " << num.transpose() << " Jacobian\n" << J);
  }
  for (int i = 0; i < t.c.intr.size(); ++i) {
    const double h = t.c.kind == kUnified && i == 0 ? 1e-4 * dist / t.p.norm() : 1e-3 * t.c.intr(i);
    const V2 num = four([&](double d) { Eigen::VectorXd in = t.c.intr; in(i) += d; V2 u; t.c.cam->project3Functional(t.p, &in, nullptr, &u); return u; }, h);
    PBT_CHECK(num.allFinite() && (num - Ji.col(i)).norm() <= 1e-6 * (Ji.col(i).norm() + (i == 0 && t.c.kind == kUnified ? size * a : m)) + eps / h, "intrinsic " << i << ": numeric derivative " << num.transpose() << " Jacobian\n" << Ji);
  }
  for (int i = 0; i < t.c.k.size(); ++i) {
    if (t.c.model == dref::kFish && t.c.k(i) < 0.1) continue;
    const V2 num = four([&](double d) { Eigen::VectorXd k = t.c.k; k(i) += d; V2 u; t.c.cam->project3Functional(t.p, nullptr, &k, &u); return u; }, 1e-3);
    PBT_CHECK((num - Jd.col(i)).norm() <= 1e-6 * (Jd.col(i).norm() + size) + eps / 1e-3, "distortion " << i << ": numeric derivative " << num.transpose() << " Jacobian\n" << Jd);
  }
}

// Any subset of the outputs, with internal and external parameters.
PBT_PROP(subsets, "not all of the Jacobians are requested", 600000, 4000000) {
  Case t = draw(s);
  Cam o = t.c;  // same kind, other parameters
  o.k = dref::params(s, t.c.model);
  for (int i = 0; i < o.intr.size(); ++i) o.intr(i) = o.intr(i) * s.real(0.5, 1.5) + (t.c.kind == kUnified && i == 0 ? 0.1 : 0);
  const bool ext_i = s.boolean(), ext_k = s.boolean();
  Cam host = o;
  if (!ext_i) host.intr = t.c.intr;
  if (!ext_k) host.k = t.c.k;
  host.cam = build(host);
  M23 J = M23::Constant(1), Jall = M23::Constant(2);
  M2X Ji = garbage(s), Jd = garbage(s), Ji_all = garbage(s), Jd_all = garbage(s);
  V2 pa(-1, -1), pb(-2, -2);
  const int mask = s.i(0, 7);
  s << "host " << show(host) << "external intrinsics " << ext_i << " distortion " << ext_k << " subset " << mask << "\n";
  s.nontrivial(mask != 7);
  const Result ra = t.c.cam->project3Functional(t.p, nullptr, nullptr, &pa, &Jall, &Ji_all, &Jd_all);
  const Result rb = host.cam->project3Functional(t.p, ext_i ? &t.c.intr : nullptr, ext_k ? &t.c.k : nullptr, &pb,
                                                 mask & 1 ? &J : nullptr, mask & 2 ? &Ji : nullptr, mask & 4 ? &Jd : nullptr);
  auto near = [&](const V2& x, const V2& y) { return (x - y).norm() <= 1e-12 * (x.norm() + t.c.f(0) + t.c.f(1)); };
  PBT_CHECK(near(pa, t.pix), "requesting Jacobians changes the point: " << pa.transpose() << " and " << t.pix.transpose());
  PBT_CHECK(ra == t.r, "requesting Jacobians changes the status: " << ra << " and " << t.r);
  PBT_CHECK(near(pb, t.pix), "the projection depends on the requested Jacobians or the source of the parameters: " << pb.transpose() << " and " << t.pix.transpose());
  PBT_CHECK(rb == t.r || (t.pix - pb).norm() > 0, "status " << rb << " and " << t.r);
  if (mask & 1) PBT_CHECK(close(J, Jall), "point Jacobian\n" << J << "\nand\n" << Jall);
  if (mask & 2) PBT_CHECK(close(Ji, Ji_all), "intrinsics Jacobian\n" << Ji << "\nand\n" << Ji_all);
  if (mask & 4) PBT_CHECK(close(Jd, Jd_all), "distortion Jacobian\n" << Jd << "\nand\n" << Jd_all);
  PBT_CHECK(host.cam->getParameters() == host.intr && host.cam->getDistortion().getParameters() == host.k, "external parameters were stored");
}

// The status of any point, also of one behind the camera, does not depend on what is asked for.
PBT_PROP(any_status, "the projection is invalid", 300000, 2000000) {
  Cam c = camera(s, 2, 0.05, 40);
  if (c.disc < 1e-3) throw pbt::Discard();
  c.cam = build(c);
  V3 p = anyPoint(s, c);
  if (s.boolean()) p = -p;
  if (s.chance(1, 4)) p(2) = -std::fabs(p(2));
  const double den = p(2) + (c.kind == kUnified ? c.xi() * p.norm() : 0);
  if (std::fabs(den) < 1e-4 * p.norm()) throw pbt::Discard();  // ill conditioned
  V2 pa(-1, -1), pb(-2, -2);
  const Result ra = c.cam->project3(p, &pa);
  M23 J = M23::Constant(1);
  M2X Ji = garbage(s), Jd = garbage(s);
  const int mask = s.i(0, 7);
  const bool own = s.boolean();
  const Result rb = c.cam->project3Functional(p, own ? nullptr : &c.intr, own ? nullptr : &c.k, &pb, mask & 1 ? &J : nullptr, mask & 2 ? &Ji : nullptr, mask & 4 ? &Jd : nullptr);
  s << show(c) << "point " << p.transpose() << " pixel " << pa.transpose() << " " << ra << " subset " << mask << "\n";
  s.nontrivial(ra.getDetailedStatus() == Result::Status::PROJECTION_INVALID);
  PBT_CHECK(ra == rb || (pa - pb).norm() > 0, "status " << ra << " and with Jacobians " << rb);
  if (pa.allFinite() && pb.allFinite()) PBT_CHECK((pa - pb).norm() <= 1e-12 * (pa.norm() + c.f(0) + c.f(1)), "requesting Jacobians changes the point: " << pa.transpose() << " and " << pb.transpose());
  if (ra.getDetailedStatus() == Result::Status::PROJECTION_INVALID) PBT_CHECK(!rb.isKeypointVisible() && !static_cast<bool>(rb), "an invalid projection is valid when Jacobians are requested");
}

// A lidar has no Jacobians, but its external parameters have to be used.
PBT_PROP(lidar, "always", 180000, 1200000) {
  Cam c = camera(s, 3);
  if (c.kind != kLidar) throw pbt::Discard();
  c.cam = build(c);
  Cam o = c;
  o.intr(0) *= s.real(0.5, 2);
  o.intr(1) *= s.real(0.5, 2);
  o.intr(2) += s.sreal(0.5);
  o.intr(3) += s.sreal(2);
  o.cam = build(o);
  const V3 p = anyPoint(s, c);
  V2 a, b;
  const Result ra = c.cam->project3(p, &a);
  const Result rb = o.cam->project3Functional(p, &c.intr, nullptr, &b);
  s << show(c) << show(o) << "point " << p.transpose() << "\n";
  s.nontrivial(true);
  PBT_CHECK((a - b).norm() <= 1e-12 * (1 + a.norm()), "external intrinsics project to " << b.transpose() << ", a camera with them to " << a.transpose());
  PBT_CHECK(ra == rb, "status " << rb << " and " << ra);
}
