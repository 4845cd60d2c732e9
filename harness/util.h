#ifndef VERIF_UTIL_H_
#define VERIF_UTIL_H_
#include <cmath>
#include <sstream>
#include <string>

#include "pbt.h"

inline bool closeTo(double a, double b, double rel, double abs_tol) {
  return std::fabs(a - b) <= abs_tol + rel * std::max(std::fabs(a), std::fabs(b));
}

// REQ(cond) << "text";  REQ_EQ(a, b) << "text";  fail with the streamed text.
struct ReqThrower {
  std::ostringstream o;
  ~ReqThrower() noexcept(false) { pbt::fail(o.str()); }
  template <typename T>
  ReqThrower& operator<<(const T& x) { o << x; return *this; }
};
#define REQ(cond) \
  if (cond) { \
  } else \
    ReqThrower() << __FILE__ << ":" << __LINE__ << ": " << #cond << " "
#define REQ_EQ(x, y) \
  for (bool req_once = true; req_once;) \
    for (const auto& req_a = (x); req_once;) \
      for (const auto& req_b = (y); req_once; req_once = false) \
        if (req_a == req_b) { \
        } else \
          ReqThrower() << __FILE__ << ":" << __LINE__ << ": " << #x << " == " << #y << ": " << req_a << " vs " << req_b << " "
#endif
