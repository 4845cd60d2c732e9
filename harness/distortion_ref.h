// Reference definition of the distortion models, written from their published
// formulas, and generators of parameters and points in the valid region.
#ifndef VERIF_DISTORTION_REF_H_
#define VERIF_DISTORTION_REF_H_

#include <memory>

#include <aslam/cameras/distortion-equidistant.h>
#include <aslam/cameras/distortion-fisheye.h>
#include <aslam/cameras/distortion-null.h>
#include <aslam/cameras/distortion-radtan.h>

#include "pbt.h"

namespace dref {
typedef long double L;
enum Model { kNull = 0, kRadTan = 1, kEqui = 2, kFish = 3 };
inline const char* modelName(int m) {
  static const char* n[] = {"null", "radtan", "equidistant", "fisheye"};
  return n[m];
}
inline int paramCount(int m) {
  static const int n[] = {0, 4, 4, 1};
  return n[m];
}

// Forward-mode dual number with N partial derivatives.
template <int N>
struct Dual {
  L a;
  L v[N];
  Dual(L x = 0) : a(x) { for (int i = 0; i < N; ++i) v[i] = 0; }
  static Dual var(L x, int k) { Dual d(x); d.v[k] = 1; return d; }
};
#define DREF_OP(OP, VAL, DER)                                             \
  template <int N>                                                        \
  Dual<N> operator OP(const Dual<N>& x, const Dual<N>& y) {               \
    Dual<N> r(VAL);                                                       \
    for (int i = 0; i < N; ++i) r.v[i] = DER;                             \
    return r;                                                             \
  }                                                                       \
  template <int N>                                                        \
  Dual<N> operator OP(const Dual<N>& x, L y) { return x OP Dual<N>(y); }  \
  template <int N>                                                        \
  Dual<N> operator OP(L x, const Dual<N>& y) { return Dual<N>(x) OP y; }
DREF_OP(+, x.a + y.a, x.v[i] + y.v[i])
DREF_OP(-, x.a - y.a, x.v[i] - y.v[i])
DREF_OP(*, x.a * y.a, x.v[i] * y.a + x.a * y.v[i])
DREF_OP(/, x.a / y.a, (x.v[i] - x.a / y.a * y.v[i]) / y.a)
#undef DREF_OP
template <int N>
Dual<N> sqrt(const Dual<N>& x) {
  Dual<N> r(sqrtl(x.a));
  for (int i = 0; i < N; ++i) r.v[i] = x.v[i] / (2 * r.a);
  return r;
}
template <int N>
Dual<N> atan(const Dual<N>& x) {
  Dual<N> r(atanl(x.a));
  for (int i = 0; i < N; ++i) r.v[i] = x.v[i] / (1 + x.a * x.a);
  return r;
}
template <int N>
Dual<N> tan(const Dual<N>& x) {
  Dual<N> r(tanl(x.a));
  for (int i = 0; i < N; ++i) r.v[i] = x.v[i] * (1 + r.a * r.a);
  return r;
}
inline L valueOf(L x) { return x; }
template <int N>
L valueOf(const Dual<N>& x) { return x.a; }
inline L sqrt(L x) { return sqrtl(x); }
inline L atan(L x) { return atanl(x); }
inline L tan(L x) { return tanl(x); }

// The published models. k: parameters.
template <typename T>
void distort(int model, const T* k, T x, T y, T* ox, T* oy) {
  const T r2 = x * x + y * y;
  switch (model) {
    case kNull: *ox = x; *oy = y; return;
    case kRadTan: {
      const T radial = T(1.0L) + k[0] * r2 + k[1] * r2 * r2;
      *ox = x * radial + T(2.0L) * k[2] * x * y + k[3] * (r2 + T(2.0L) * x * x);
      *oy = y * radial + T(2.0L) * k[3] * x * y + k[2] * (r2 + T(2.0L) * y * y);
      return;
    }
    case kEqui: {
      T s;
      if (valueOf(r2) < 1e-8L) {  // atan(r)/r as a series in r^2
        const T t2 = r2 * (T(1.0L) - r2 * T(2.0L / 3) + r2 * r2 * T(23.0L / 45));  // atan(r)^2
        s = (T(1.0L) - r2 / T(3.0L) + r2 * r2 / T(5.0L)) * (T(1.0L) + k[0] * t2 + k[1] * t2 * t2);
      } else {
        const T r = sqrt(r2);
        const T t = atan(r);
        const T t2 = t * t;
        s = t * (T(1.0L) + t2 * (k[0] + t2 * (k[1] + t2 * (k[2] + t2 * k[3])))) / r;
      }
      *ox = x * s;
      *oy = y * s;
      return;
    }
    default: {
      T s;
      if (fabsl(valueOf(k[0])) < 1e-10L) s = T(1.0L);
      else {
        const T c = T(2.0L) * tan(k[0] / T(2.0L));
        const T c2r2 = c * c * r2;
        if (valueOf(c2r2) < 1e-8L) s = c / k[0] * (T(1.0L) - c2r2 / T(3.0L) + c2r2 * c2r2 / T(5.0L));
        else {
          const T r = sqrt(r2);
          s = atan(c * r) / (r * k[0]);
        }
      }
      *ox = x * s;
      *oy = y * s;
    }
  }
}

inline std::unique_ptr<aslam::Distortion> make(int model, const Eigen::VectorXd& k) {
  std::unique_ptr<aslam::Distortion> d;
  switch (model) {
    case kNull: d.reset(new aslam::NullDistortion()); break;
    case kRadTan: d.reset(new aslam::RadTanDistortion(k)); break;
    case kEqui: d.reset(new aslam::EquidistantDistortion(k)); break;
    default: d.reset(new aslam::FisheyeDistortion(k));
  }
  return d;
}

// Valid parameters: none, weak, typical and strong distortion.
inline Eigen::VectorXd params(pbt::Source& s, int model) {
  Eigen::VectorXd k(paramCount(model));
  if (model == kFish) {
    switch (s.draw(6)) {
      case 0: k(0) = 0; break;
      case 1: k(0) = 0.5; break;
      case 2: k(0) = 1.5; break;
      default: k(0) = s.real(0.5, 1.5);
    }
    return k;
  }
  const int kind = s.i(0, 4);
  for (int i = 0; i < k.size(); ++i) {
    double mag = 1.0;
    if (model == kRadTan) mag = i == 0 ? 0.5 : i == 1 ? 0.3 : 0.05;
    if (model == kEqui) mag = i == 0 ? 0.4 : i == 1 ? 0.2 : 0.1;
    switch (kind) {
      case 0: k(i) = 0; break;
      case 1: k(i) = s.boolean() ? 0 : s.sreal(mag); break;
      case 2: k(i) = s.sreal(mag * 0.05); break;
      default: k(i) = s.sreal(mag);
    }
  }
  return k;
}

// Largest radius of a disc on which the model is invertible with margin:
// both singular values of its derivative are within [lo, hi] relative to those
// of the model's ideal mapping.
inline double discRadius(int model, const Eigen::VectorXd& k, double cap, double lo, double hi) {
  const int n = 400;
  for (int i = 1; i <= n; ++i) {
    const double r = cap * i / n, r2 = r * r;
    bool ok = true;
    if (model == kRadTan) {
      const double radial = 1 + 3 * k(0) * r2 + 5 * k(1) * r2 * r2, across = 1 + k(0) * r2 + k(1) * r2 * r2;
      const double tang = 8 * (std::fabs(k(2)) + std::fabs(k(3))) * r;
      ok = std::min(radial, across) - tang >= lo && std::max(radial, across) + tang <= hi;
    } else if (model == kEqui) {
      const double t = std::atan(r), t2 = t * t;
      const double radial = 1 + t2 * (3 * k(0) + t2 * (5 * k(1) + t2 * (7 * k(2) + t2 * 9 * k(3))));
      const double across = 1 + t2 * (k(0) + t2 * (k(1) + t2 * (k(2) + t2 * k(3))));
      ok = std::min(radial, across) >= lo && std::max(radial, across) <= hi;
    } else if (model == kFish) {
      // reported unchanged beyond 89 degrees: atan(2 tan(w/2) r) has to stay below
      ok = 2 * std::tan(k(0) / 2) * r <= std::tan(88.0 * M_PI / 180);
    }
    if (!ok) return cap * (i - 1) / n;
  }
  return cap;
}

inline double maxRadius(int model) {
  return model == kRadTan ? 3.0 : model == kEqui ? 8.0 : 20.0;
}

// A point of the disc, including its centre and the neighbourhood of it.
inline Eigen::Vector2d point(pbt::Source& s, double radius) {
  if (radius <= 0) return Eigen::Vector2d::Zero();
  double r;
  switch (s.draw(8)) {
    case 0: r = 0; break;
    case 1: r = std::min(radius, s.logReal(1e-13, 1e-2)); break;
    case 2: r = std::min(radius, s.logReal(1e-4, 1e-1)); break;
    case 3: r = radius; break;
    default: r = s.real(0, radius);
  }
  if (s.chance(1, 4)) {
    const double h = r / std::sqrt(2.0);
    switch (s.draw(6)) {
      case 0: return Eigen::Vector2d(r, 0);
      case 1: return Eigen::Vector2d(0, r);
      case 2: return Eigen::Vector2d(-r, 0);
      case 3: return Eigen::Vector2d(0, -r);
      case 4: return Eigen::Vector2d(h, h);
      default: return Eigen::Vector2d(-h, h);
    }
  }
  const double a = s.real(0, 2 * M_PI);
  return Eigen::Vector2d(r * std::cos(a), r * std::sin(a));
}
}  // namespace dref

#endif  // VERIF_DISTORTION_REF_H_
