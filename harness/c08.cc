// C08: time conversions.
#include <limits>
#include <set>
#include <string>

#include <aslam/common/time.h>

#include "pbt.h"

const char* pbt::kProperty = "C08";
using pbt::Source;
namespace t = aslam::time;

namespace {
const int64_t kScale[3] = {1000000000ll, 1000000ll, 1000ll};
const char* kUnit[3] = {"seconds", "milliseconds", "microseconds"};
double toUnit(int u, int64_t ns) {
  return u == 0 ? t::to_seconds(ns) : u == 1 ? t::to_milliseconds(ns) : t::to_microseconds(ns);
}
int64_t fromUnit(int u, double v) {
  return u == 0 ? t::from_seconds(v) : u == 1 ? t::from_milliseconds(v) : t::from_microseconds(v);
}
int64_t compile(int u, int64_t v) {
  return u == 0 ? t::seconds(v) : u == 1 ? t::milliseconds(v) : t::microseconds(v);
}
// Nanosecond values: small, typical epoch stamps, powers of ten, whole units.
int64_t anyNs(Source& s) {
  int64_t v;
  switch (s.draw(7)) {
    case 0: v = s.range(0, 2000); break;
    case 1: v = s.range(0, 4000000000ll); break;
    case 2: v = 1400000000000000000ll + s.range(0, 400000000000000000ll); break;
    case 3: {
      v = 1;
      const int e = s.i(0, 18);
      for (int k = 0; k < e; ++k) v *= 10;
      v += s.range(-3, 3);
      break;
    }
    case 4: v = s.range(0, 4000000000ll) * 1000000000ll / (s.boolean() ? 1 : 1000); break;
    case 5: v = static_cast<int64_t>(s.bits() >> (1 + s.draw(62))); break;
    default: v = s.range(0, 1ll << 53); break;
  }
  return s.boolean() ? -v : v;
}
// Correctly rounded ns / scale via exact integer arithmetic in long double
// (64-bit mantissa holds every int64 exactly; one rounding to long double, one
// to double: within one ulp of the correctly rounded double).
bool withinUlps(double got, long double want, int ulps) {
  const double w = static_cast<double>(want);
  if (got == w) return true;
  double a = w, b = w;
  for (int k = 0; k < ulps; ++k) {
    a = std::nextafter(a, std::numeric_limits<double>::infinity());
    b = std::nextafter(b, -std::numeric_limits<double>::infinity());
  }
  return got >= b && got <= a;
}
}  // namespace

PBT_PROP(to_units, "absolute value above one unit and not a whole number of units", 200000, 4000000) {
  const int u = s.i(0, 2);
  const int64_t ns = anyNs(s);
  s << kUnit[u] << " of " << ns;
  s.nontrivial(std::llabs(ns) > kScale[u] && ns % kScale[u] != 0);
  const double v = toUnit(u, ns);
  const long double exact = static_cast<long double>(ns) / kScale[u];
  PBT_CHECK(withinUlps(v, exact, 1), "got " << v);
  if (ns % kScale[u] == 0 && std::llabs(ns) <= (1ll << 53)) {
    PBT_CHECK(v == static_cast<double>(ns / kScale[u]), "a whole number of units is not exact: " << v);
  }
  PBT_CHECK((v < 0) == (ns < 0) && (v == 0) == (ns == 0), "sign");
  PBT_CHECK(toUnit(u, -ns) == -v, "odd symmetry");
  if (u == 0) PBT_CHECK(t::nanoSecondsToSeconds(ns) == v, "nanoSecondsToSeconds");
  // There and back: within the resolution of the double representation, and
  // never further than the coarser unit.
  const int64_t back = fromUnit(u, v);
  const double tol = 1.0 + std::fabs(static_cast<double>(ns)) * 4.5e-16;
  PBT_CHECK(std::fabs(static_cast<double>(back - ns)) <= tol, "there and back gives " << back);
}

PBT_PROP(order, "two different times less than one unit apart", 200000, 2000000) {
  const int u = s.i(0, 2);
  const int64_t a = anyNs(s);
  const int64_t b = s.boolean() ? a + s.range(-1000, 1000) : anyNs(s);
  s << kUnit[u] << " of " << a << " and " << b;
  s.nontrivial(a != b && std::fabs(static_cast<double>(a) - static_cast<double>(b)) < kScale[u]);
  const double va = toUnit(u, a), vb = toUnit(u, b);
  if (a <= b) PBT_CHECK(va <= vb, "order not kept by to_: " << va << " " << vb);
  if (b <= a) PBT_CHECK(vb <= va, "order not kept by to_: " << va << " " << vb);
  if (va <= vb) PBT_CHECK(fromUnit(u, va) <= fromUnit(u, vb), "order not kept by from_");
  if (vb <= va) PBT_CHECK(fromUnit(u, vb) <= fromUnit(u, va), "order not kept by from_");
}

PBT_PROP(from_units, "a fractional or negative value", 200000, 4000000) {
  const int u = s.i(0, 2);
  double v;
  const double max_v = 9.0e18 / kScale[u];
  switch (s.draw(4)) {
    case 0: v = s.range(0, 1000000); break;
    case 1: v = s.range(0, 1000000) / 64.0; break;
    case 2: v = s.real(0, 10); break;
    default: v = s.real(0, max_v);
  }
  if (s.boolean()) v = -v;
  s << v << " " << kUnit[u];
  s.nontrivial(v < 0 || v != std::floor(v));
  const int64_t got = fromUnit(u, v);
  const long double exact = static_cast<long double>(v) * kScale[u];
  const long double err = std::fabs(static_cast<long double>(got) - exact);
  PBT_CHECK(err < 1.0L + std::fabs(exact) * 2.3e-16L, "got " << got);
  if (exact == std::floor(exact) && std::fabs(exact) <= 9007199254740992.0L) {
    PBT_CHECK(static_cast<long double>(got) == exact, "exactly representable result missed: " << got);
  }
  PBT_CHECK(fromUnit(u, -v) == -got, "odd symmetry");
  if (u == 0) PBT_CHECK(t::secondsToNanoSeconds(v) == got, "secondsToNanoSeconds");
}

PBT_PROP(integer_units, "value above one and negative or large", 100000, 1000000) {
  const int u = s.i(0, 2);
  const int64_t lim = std::numeric_limits<int64_t>::max() / kScale[u];
  int64_t v = s.boolean() ? s.range(0, 100000) : s.range(0, lim);
  if (s.boolean()) v = -v;
  s << v << " " << kUnit[u];
  s.nontrivial(v < 0 || v > 100000);
  PBT_CHECK(compile(u, v) == v * kScale[u], "got " << compile(u, v));
  PBT_CHECK(t::nanoseconds(v) == v, "nanoseconds");
  if (std::llabs(v) <= (1ll << 53) / kScale[u]) {
    PBT_CHECK(toUnit(u, compile(u, v)) == static_cast<double>(v), "exact value not kept");
    PBT_CHECK(fromUnit(u, static_cast<double>(v)) == v * kScale[u], "exact value not kept by from_");
  }
}

namespace {
// Reads "[-]S" + "s " + "NNNNNNNNN" + "ns" or "[-]N" + "ns".
bool parseText(const std::string& x, __int128* out) {
  size_t p = 0;
  bool neg = false;
  if (p < x.size() && x[p] == '-') {
    neg = true;
    ++p;
  }
  auto number = [&](size_t* digits, __int128* v) {
    *v = 0;
    *digits = 0;
    while (p < x.size() && x[p] >= '0' && x[p] <= '9') {
      *v = *v * 10 + (x[p] - '0');
      ++p;
      ++*digits;
    }
    return *digits > 0;
  };
  size_t d1, d2;
  __int128 a, b;
  if (!number(&d1, &a)) return false;
  __int128 val;
  if (x.compare(p, std::string::npos, "ns") == 0) {
    val = a;
  } else {
    if (x.compare(p, 2, "s ") != 0) return false;
    p += 2;
    if (!number(&d2, &b) || d2 != 9) return false;
    if (x.compare(p, std::string::npos, "ns") != 0) return false;
    val = a * 1000000000 + b;
  }
  *out = neg ? -val : val;
  return true;
}
}  // namespace

PBT_PROP(text, "absolute value of at least 9 digits", 200000, 2000000) {
  int64_t ns = s.chance(1, 20) ? s.oneOf<int64_t>({std::numeric_limits<int64_t>::min(),
                                                   std::numeric_limits<int64_t>::max(), 0, -1})
                               : anyNs(s);
  s << ns;
  s.nontrivial(ns >= 100000000 || ns <= -100000000);
  s.label(ns < 0 ? "negative" : "non-negative");
  const std::string x = t::timeNanosecondsToString(ns);
  __int128 v = 0;
  PBT_CHECK(parseText(x, &v), "text is not a time: '" << x << "'");
  PBT_CHECK(v == static_cast<__int128>(ns), "text '" << x << "' denotes another time");
  const int64_t other = anyNs(s);
  if (other != ns) PBT_CHECK(t::timeNanosecondsToString(other) != x, "two times share the text " << x);
}

PBT_PROP(validity, "a value near the limits of the range", 100000, 1000000) {
  const int64_t v = s.anyInt64();
  s << v;
  s.nontrivial(v < -(1ll << 60) || v > (1ll << 60));
  PBT_CHECK(t::isValidTime(v) == (v != std::numeric_limits<int64_t>::min()), "validity of " << v);
  PBT_CHECK(!t::isValidTime(t::getInvalidTime()), "invalid time is valid");
  const int64_t now = t::nanoSecondsSinceEpoch();
  PBT_CHECK(now > 1000000000ll * 1000000000ll && t::isValidTime(now), "clock reading " << now);
}
