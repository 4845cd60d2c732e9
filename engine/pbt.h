// Small property-based testing engine.
//
// A case is a *tape*: the sequence of bounded draws a property makes from its
// Source. Fresh cases draw from a seeded generator and record the tape; replay
// and shrinking feed a given tape back (draws past its end are 0, the simplest
// value). The same property functions are driven by libFuzzer in the thorough
// tier (bytes -> tape). Each batch runs in a forked worker so that a crash,
// CHECK abort, sanitizer report or runaway loop is an ordinary failing case.
#ifndef VERIF_PBT_H_
#define VERIF_PBT_H_

#include <cmath>
#include <cstdint>
#include <cstring>
#include <functional>
#include <limits>
#include <sstream>
#include <string>
#include <vector>

namespace pbt {

struct Failure {
  std::string message;
};
struct Discard {};

class Source {
 public:
  explicit Source(uint64_t seed) : state_(seed), replay_(false) {}
  // bytes: every tape element is one byte and a draw consumes as many bytes as
  // its range needs (used for inputs found by libFuzzer).
  explicit Source(const std::vector<uint64_t>& tape, bool bytes = false)
      : state_(0), replay_(true), bytes_(bytes), in_(tape) {}

  // Uniform in [0, n). n == 0 means the whole 64-bit range. 0 is simplest.
  uint64_t draw(uint64_t n) {
    uint64_t v;
    if (replay_) {
      if (bytes_) {
        int nb = n == 0 ? 8 : n <= 256 ? 1 : n <= 65536 ? 2 : n <= (1ull << 32) ? 4 : 8;
        v = 0;
        for (int k = 0; k < nb; ++k, ++bpos_) {
          v = (v << 8) | (bpos_ < in_.size() ? (in_[bpos_] & 0xff) : 0);
        }
      } else {
        v = pos_ < in_.size() ? in_[pos_] : 0;
      }
      if (n) v %= n;
    } else {
      v = next();
      if (n) {
        v = static_cast<uint64_t>(
            (static_cast<unsigned __int128>(v) * n) >> 64);
      }
    }
    ++pos_;
    if (pos_ > max_draws) throw Discard();
    out_.push_back(v);
    if (mirror != nullptr && out_.size() < mirror_cap) {
      mirror[out_.size()] = v;
      mirror[0] = out_.size();
    }
    return v;
  }

  int64_t range(int64_t lo, int64_t hi) {  // inclusive, simplest = lo
    if (hi <= lo) return lo;
    return static_cast<int64_t>(
        static_cast<uint64_t>(lo) +
        draw(static_cast<uint64_t>(hi) - static_cast<uint64_t>(lo) + 1u));
  }
  int i(int lo, int hi) { return static_cast<int>(range(lo, hi)); }
  bool boolean() { return draw(2) != 0; }
  // true with probability num/den; shrinks to false.
  bool chance(uint64_t num, uint64_t den) {
    const uint64_t v = draw(den);
    return v >= den - num;
  }
  template <typename C>
  const typename C::value_type& pick(const C& c) {
    return c[static_cast<size_t>(draw(c.size()))];
  }
  template <typename T>
  T oneOf(std::initializer_list<T> l) {
    return *(l.begin() + draw(l.size()));
  }
  // A size biased to small values, in [lo, hi].
  int size(int lo, int hi) {
    const int span = hi - lo;
    if (span <= 0) return lo;
    switch (draw(4)) {
      case 0: return lo + static_cast<int>(draw(std::min(span, 3) + 1));
      case 1: return lo + static_cast<int>(draw(std::min(span, 8) + 1));
      case 2: return lo + static_cast<int>(draw(std::min(span, 24) + 1));
      default: return lo + static_cast<int>(draw(span + 1));
    }
  }
  // Uniform real in [lo, hi]; simplest = lo. Mixed resolutions so that ties
  // and exact grid values occur.
  double real(double lo, double hi) {
    switch (draw(4)) {
      case 0: return lo + (hi - lo) * (static_cast<double>(draw(9)) / 8.0);
      case 1: return lo + (hi - lo) * (static_cast<double>(draw(1025)) / 1024.0);
      default:
        return lo + (hi - lo) * (static_cast<double>(draw(1ull << 53)) *
                                 (1.0 / 9007199254740992.0));
    }
  }
  // Real symmetric around zero; simplest = 0.
  double sreal(double mag) {
    const double v = real(0.0, mag);
    return boolean() ? -v : v;
  }
  double gauss() {  // Irwin-Hall approximation; simplest is 0.
    double a = 0;
    for (int k = 0; k < 4; ++k) a += sreal(1.0);
    return a;
  }
  double logReal(double lo, double hi) {  // log-uniform, lo > 0
    return std::exp(real(std::log(lo), std::log(hi)));
  }
  uint64_t bits() { return draw(0); }
  // Integers biased to boundaries of the 64-bit range.
  int64_t anyInt64() {
    switch (draw(6)) {
      case 0: return range(0, 20);
      case 1: return -range(0, 20);
      case 2: {
        const int sh = i(0, 63);
        int64_t v = static_cast<int64_t>((1ull << sh) + static_cast<uint64_t>(range(-2, 2)));
        return v;
      }
      case 3: {
        const int sh = i(0, 63);
        int64_t v = static_cast<int64_t>(0ull - (1ull << sh) + static_cast<uint64_t>(range(-2, 2)));
        return v;
      }
      case 4: {
        const int sh = i(0, 63);
        return static_cast<int64_t>(bits() >> sh);
      }
      default: return static_cast<int64_t>(bits());
    }
  }
  double anyDouble() {  // any double, incl. specials
    switch (draw(8)) {
      case 0: return static_cast<double>(range(-8, 8));
      case 1: return sreal(1.0);
      case 2: return sreal(1e6);
      case 3:
        return oneOf<double>({0.0, -0.0, std::numeric_limits<double>::infinity(),
                              -std::numeric_limits<double>::infinity(),
                              std::numeric_limits<double>::quiet_NaN(),
                              std::numeric_limits<double>::max(),
                              std::numeric_limits<double>::lowest(),
                              std::numeric_limits<double>::min(),
                              std::numeric_limits<double>::denorm_min(),
                              std::numeric_limits<double>::epsilon()});
      default: {
        const uint64_t b = bits();
        double d;
        std::memcpy(&d, &b, 8);
        return d;
      }
    }
  }
  double finiteDouble() {
    const double d = anyDouble();
    return std::isfinite(d) ? d : 0.5;
  }

  void label(const std::string& name) { labels_.push_back(name); }
  void nontrivial(bool on = true) { nontrivial_ = nontrivial_ || on; }

  // Human readable description, only collected on demand.
  bool describing = false;
  void (*desc_sink)(const std::string&) = nullptr;
  template <typename T>
  Source& operator<<(const T& t) {
    if (describing) {
      desc_ << t;
      if (desc_sink) {
        std::ostringstream o;
        o << t;
        desc_sink(o.str());
      }
    }
    return *this;
  }

  const std::vector<uint64_t>& tape() const { return out_; }
  std::string description() const { return desc_.str(); }
  const std::vector<std::string>& labels() const { return labels_; }
  bool isNontrivial() const { return nontrivial_; }
  uint64_t max_draws = 1u << 22;
  // Shared memory copy of the tape, so that it survives a crash.
  uint64_t* mirror = nullptr;
  uint64_t mirror_cap = 0;

 private:
  uint64_t next() {
    uint64_t z = (state_ += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  uint64_t state_;
  bool replay_;
  bool bytes_ = false;
  size_t bpos_ = 0;
  std::vector<uint64_t> in_;
  size_t pos_ = 0;
  std::vector<uint64_t> out_;
  std::ostringstream desc_;
  std::vector<std::string> labels_;
  bool nontrivial_ = false;
};

typedef void (*PropFn)(Source&);

struct Options {
  uint64_t quick = 1000;      // cases in the quick tier
  uint64_t thorough = 10000;  // cases in the thorough tier
  bool fuzz = false;          // also drive by libFuzzer in the thorough tier
  int hang_cpu_s = 40;        // CPU seconds after which one case is a hang
  int chunk = 32;
  // Every case in a process of its own: for cases whose behaviour depends on
  // process-wide state (schedules: one-time initialisation changes the number
  // of yield points; code with static state).
  bool fork_each = false;
};

struct Prop {
  const char* name;
  const char* rule;  // what makes a case non-trivial
  PropFn fn;
  Options opt;
};

// Reproducer of one recorded genuine defect: returns true while it still fails.
struct Known {
  const char* key;  // must be listed in known_findings.txt to count
  const char* what;
  bool (*fails)();
};

std::vector<Prop>& registry();
std::vector<Known>& knownRegistry();
struct Registrar {
  Registrar(const char* n, const char* r, PropFn f, Options o) {
    registry().push_back(Prop{n, r, f, o});
  }
};
struct KnownRegistrar {
  KnownRegistrar(const char* k, const char* w, bool (*f)()) {
    knownRegistry().push_back(Known{k, w, f});
  }
};
extern const char* kProperty;  // defined by each harness
// Optional hook run in every worker before cases (e.g. silence logging).
void workerInit();

inline Options opts(uint64_t q, uint64_t t, bool fuzz = false, int chunk = 32,
                    bool fork_each = false, int hang_cpu_s = 40) {
  Options o;
  o.hang_cpu_s = hang_cpu_s;
  o.quick = q;
  o.thorough = t;
  o.fuzz = fuzz;
  o.chunk = chunk;
  o.fork_each = fork_each;
  return o;
}

#define PBT_PROP(NAME, RULE, ...)                                    \
  static void pbt_fn_##NAME(::pbt::Source& s);                       \
  static ::pbt::Registrar pbt_reg_##NAME(#NAME, RULE, &pbt_fn_##NAME, \
                                         ::pbt::opts(__VA_ARGS__));  \
  static void pbt_fn_##NAME(::pbt::Source& s)

#define PBT_KNOWN(NAME, KEY, WHAT)                                      \
  static bool pbt_known_##NAME();                                       \
  static ::pbt::KnownRegistrar pbt_kreg_##NAME(KEY, WHAT, &pbt_known_##NAME); \
  static bool pbt_known_##NAME()

[[noreturn]] inline void fail(const std::string& m) { throw Failure{m}; }

#define PBT_CHECK(cond, msg)                                              \
  do {                                                                    \
    if (!(cond)) {                                                        \
      std::ostringstream pbt_os;                                          \
      pbt_os << __FILE__ << ":" << __LINE__ << ": " #cond << " -- " << msg; \
      ::pbt::fail(pbt_os.str());                                          \
    }                                                                     \
  } while (0)
#define PBT_EQ(a, b, msg)                                                  \
  do {                                                                     \
    const auto pbt_a = (a);                                                \
    const auto pbt_b = (b);                                                \
    if (!(pbt_a == pbt_b)) {                                               \
      std::ostringstream pbt_os;                                           \
      pbt_os << __FILE__ << ":" << __LINE__ << ": " #a " == " #b " ("      \
             << pbt_a << " vs " << pbt_b << ") -- " << msg;                \
      ::pbt::fail(pbt_os.str());                                           \
    }                                                                      \
  } while (0)

// Runs fn in a forked child. Used where the contract is that the call is
// refused by aborting (glog CHECK).
enum class Fate { kReturned, kThrew, kAborted, kCrashed, kHung };
Fate fateOf(const std::function<void()>& fn, int cpu_limit_s = 20);
inline const char* fateName(Fate f) {
  switch (f) {
    case Fate::kReturned: return "returned";
    case Fate::kThrew: return "threw";
    case Fate::kAborted: return "aborted";
    case Fate::kCrashed: return "crashed";
    default: return "hung";
  }
}

}  // namespace pbt

#endif  // VERIF_PBT_H_
