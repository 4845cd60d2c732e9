// C10: accumulators, statistics collectors and timers.
#include <time.h>
#include <unistd.h>

#include <chrono>
#include <deque>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <thread>
#include <vector>

#include <yaml-cpp/yaml.h>

#include <aslam/common/statistics/accumulator.h>
#include <aslam/common/statistics/statistics.h>
#include <aslam/common/timer.h>

#include "ctlsched.h"
#include "pbt.h"
#include "util.h"

const char* pbt::kProperty = "C10";
using pbt::Source;
using statistics::Statistics;
using timing::Timing;

// The clock behind the timers and the delta time statistics.
static bool g_fake_clock = false;
static int64_t g_clock = 0;
static int64_t g_tick = 0;  // time passing with every reading
static int64_t readClock(clockid_t id) {
  if (!g_fake_clock) {
    struct timespec ts;
    clock_gettime(id, &ts);
    return ts.tv_sec * 1000000000ll + ts.tv_nsec;
  }
  g_clock += g_tick;
  return g_clock;
}
namespace std {
namespace chrono {
inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return time_point(duration(readClock(CLOCK_REALTIME))); }
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(readClock(CLOCK_MONOTONIC))); }
}  // namespace _V2
}  // namespace chrono
}  // namespace std

namespace {
struct FakeClock {
  explicit FakeClock(int64_t start) {
    g_fake_clock = true;
    g_clock = start;
    g_tick = 0;
  }
  ~FakeClock() { g_fake_clock = false; }
};

// Reference: everything recomputed from the whole history.
struct Ref {
  std::vector<double> all;
  void add(double v) { all.push_back(v); }
  size_t n() const { return all.size(); }
  long double sum() const {
    long double t = 0;
    for (double v : all) t += v;
    return t;
  }
  long double absSum() const {
    long double t = 0;
    for (double v : all) t += std::fabs(v);
    return t;
  }
  double lo() const { return *std::min_element(all.begin(), all.end()); }
  double hi() const { return *std::max_element(all.begin(), all.end()); }
  std::vector<double> window(size_t w) const {
    return w >= all.size() ? all : std::vector<double>(all.end() - w, all.end());
  }
};
long double meanOf(const std::vector<double>& v) {
  long double t = 0;
  for (double x : v) t += x;
  return t / v.size();
}
long double varOf(const std::vector<double>& v) {
  if (v.size() < 2) return 0;
  const long double m = meanOf(v);
  long double t = 0;
  for (double x : v) t += (x - m) * (x - m);
  return t / (v.size() - 1);
}
// Rounding a running sum of the history accumulates at most this much.
double sumTol(const Ref& r, double eps = 2.3e-16) {
  return eps * static_cast<double>(r.absSum()) * (r.n() + 4) * 2 + 1e-300;
}
double varTol(const Ref& r, size_t w, double eps = 2.3e-16) {
  const std::vector<double> win = r.window(w);
  double mag = 0;
  for (double x : win) mag = std::max(mag, std::fabs(x));
  const double dm = sumTol(r, eps) / win.size() * 2;  // error of the mean
  const double sd = std::sqrt(static_cast<double>(varOf(win)));
  return 4 * (dm * dm + 2 * dm * (sd + mag * eps)) + 1e-9 * sd * sd + 64 * eps * mag * (eps * mag * win.size() + sd);
}
bool near(double a, long double b, double tol) {
  return std::fabs(static_cast<double>(a - b)) <= tol || (std::isnan(a) && std::isnan(static_cast<double>(b)));
}

double anySample(Source& s) {
  switch (s.draw(7)) {
    case 0: return static_cast<double>(s.range(-5, 5));
    case 1: return s.sreal(1.0);
    case 2: return s.sreal(1e6);
    case 3: return 1e9 + s.real(0, 1);
    case 4: return -s.logReal(1e-9, 1e3);
    case 5: return s.logReal(1e-9, 1e3);
    default: return 3.25;
  }
}
template <typename T>
T cast(double v) { return static_cast<T>(v); }

template <typename Sample, typename Sum, int W>
void accumulator(Source& s, const char* name, double eps) {
  statistics::Accumulator<Sample, Sum, W> a;
  Ref r;
  const int n = s.chance(1, 3000) ? s.oneOf<int>({300, 1500, 32768, 65536, 70000}) + s.i(0, 40) : s.chance(1, 8) ? s.i(0, 260) : s.size(0, 3 * std::min(W, 90) + 4);
  s << name << " n=" << n << " ";
  s.nontrivial(n > W || (n > 3 && W == statistics::kInfiniteWindowSize));
  const bool fixed_kind = s.boolean();
  const int bulk = n > 120 ? n - s.i(10, 60) : 0;  // the first ones are cheap
  const uint64_t key = s.draw(1000);
  for (int k = 0; k < n; ++k) {
    double v = k < bulk ? std::sin(k * 0.7 + key) * (1 + key % 17)
                        : fixed_kind ? static_cast<double>(s.range(-100, 100)) : anySample(s);
    const Sample sample = cast<Sample>(v);
    a.Add(sample);
    r.add(static_cast<double>(sample));
    if (k < n - 1 && (k < n - 300 || !s.chance(1, 4))) continue;
    const std::vector<double> win = r.window(W);
    const bool integral = std::is_integral<Sum>::value;
    const double tol = sumTol(r, eps);
    PBT_EQ(static_cast<int64_t>(a.total_samples()), static_cast<int64_t>(r.n()), "count");
    PBT_CHECK(near(static_cast<double>(a.sum()), r.sum(), integral ? 0 : tol), "sum " << a.sum() << " want " << static_cast<double>(r.sum()));
    const double slack = integral ? 1 : 0;  // integer division truncates
    PBT_CHECK(near(static_cast<double>(a.Mean()), r.sum() / r.n(), tol / r.n() + eps * std::fabs(static_cast<double>(r.sum()) / r.n()) * 2 + slack), "mean " << a.Mean());
    PBT_CHECK(near(static_cast<double>(a.RollingMean()), meanOf(win),
                   tol / win.size() + eps * std::fabs(static_cast<double>(meanOf(win))) * 2 + slack),
              "rolling mean " << a.RollingMean() << " want " << static_cast<double>(meanOf(win)));
    PBT_CHECK(static_cast<double>(a.min()) == static_cast<double>(static_cast<Sum>(cast<Sample>(r.lo()))), "min " << a.min());
    PBT_CHECK(static_cast<double>(a.max()) == static_cast<double>(static_cast<Sum>(cast<Sample>(r.hi()))), "max " << a.max());
    PBT_CHECK(static_cast<double>(a.GetMostRecent()) == r.all.back(), "most recent");
    std::vector<Sample> got = a.GetSamples();
    std::multiset<double> gs(got.begin(), got.end()), ws(win.begin(), win.end());
    PBT_CHECK(gs == ws, "retained samples are not the last " << win.size() << " of " << r.n());
    if (!integral) {
      const double vt = varTol(r, W, eps);
      PBT_CHECK(near(static_cast<double>(a.LazyVariance()), varOf(win), vt), "variance " << a.LazyVariance() << " want " << static_cast<double>(varOf(win)) << " tol " << vt);
      PBT_CHECK(near(static_cast<double>(a.StandardDeviation()), std::sqrt(static_cast<double>(a.LazyVariance())), 1e-7 * (1 + std::fabs(static_cast<double>(a.StandardDeviation())))), "standard deviation");
    }
  }
  if (n == 0) {
    PBT_CHECK(a.total_samples() == 0 && a.sum() == 0 && a.Mean() == 0 && a.LazyVariance() == 0 && a.GetSamples().empty(), "empty accumulator");
  }
}
}  // namespace

PBT_PROP(accumulator, "more samples than the window holds (or more than three with the unlimited window)", 100000, 2000000) {
  const double d = 2.3e-16, f = 1.2e-7;
  switch (s.draw(11)) {
    case 9: accumulator<double, double, 300>(s, "double/300", d); break;
    case 10: accumulator<int, double, 1000>(s, "int,double/1000", d); break;
    case 0: accumulator<double, double, 1>(s, "double/1", d); break;
    case 1: accumulator<double, double, 2>(s, "double/2", d); break;
    case 2: accumulator<double, double, 3>(s, "double/3", d); break;
    case 3: accumulator<double, double, 7>(s, "double/7", d); break;
    case 4: accumulator<double, double, 100>(s, "double/100", d); break;
    case 5: accumulator<double, double, statistics::kInfiniteWindowSize>(s, "double/unlimited", d); break;
    case 6: accumulator<int, double, 5>(s, "int,double/5", d); break;
    case 7: accumulator<float, double, 4>(s, "float,double/4", f); break;
    default: accumulator<int, int64_t, 3>(s, "int,int64/3", d); break;
  }
}

namespace {
std::string anyTag(Source& s) {
  static const char* kTags[] = {"a", "b", "frame: extract", "x#1", "x_1", "ab", "long name of a timer", "a b"};
  return kTags[s.draw(8)];
}
struct Entry {
  size_t handle = 0;
  Ref values;
  Ref deltas;
  bool called = false;
  int64_t last = 0;
};
std::string yamlLabel(std::string t) {
  for (char& c : t) if (c == ':' || c == '#') c = '_';
  return t;
}
bool about(double got, double want) {
  if (std::isnan(want)) return true;
  return std::fabs(got - want) <= 2e-5 * std::fabs(want) + 1e-12;
}
std::string scratchFile() {
  static std::string f;
  static pid_t owner = 0;
  if (owner != getpid()) {
    owner = getpid();
    f = "/tmp/verif_c10_" + std::to_string(owner) + ".yaml";
  }
  return f;
}
// parses [hh:]mm:ss.ffffff
double parseTime(const std::string& t) {
  double total = 0;
  std::stringstream ss(t);
  std::string part;
  while (std::getline(ss, part, ':')) total = total * 60 + std::stod(part);
  return total;
}
}  // namespace

PBT_PROP(collectors, "at least two names used and five samples recorded", 60000, 1000000) {
  Statistics::Reset();
  FakeClock clock(s.range(1, 1ll << 50));
  std::map<std::string, Entry> model;
  std::vector<std::pair<std::string, statistics::StatsCollectorImpl>> kept;
  std::vector<statistics::StatsCollectorImpl> stale;
  std::set<size_t> handles_before_reset;
  const int ops = s.chance(1, 6) ? s.i(100, 330) : s.size(1, 60);
  int recorded = 0;
  auto handleOf = [&](const std::string& tag, size_t h) {
    auto it = model.find(tag);
    if (it == model.end()) {
      for (auto& e : model) PBT_CHECK(e.second.handle != h, tag << " shares handle " << h << " with " << e.first);
      PBT_CHECK(handles_before_reset.count(h) == 0 || Statistics::GetNumSamples(h) == 0, "new name starts with old samples");
      model[tag].handle = h;
    } else {
      PBT_EQ(h, it->second.handle, "handle of " << tag << " changed");
    }
  };
  auto record = [&](const std::string& tag, double v) {
    Entry& e = model[tag];
    if (e.called) e.deltas.add((g_clock - e.last) * 1e-9);
    e.called = true;
    e.last = g_clock;
    e.values.add(v);
    ++recorded;
  };
  const bool bulk = ops >= 100;
  if (s.chance(1, 1000)) {  // many names
    const int names = s.i(250, 600);
    s << names << " names, ";
    for (int k = 0; k < names; ++k) {
      const std::string tag = "many" + std::to_string(k);
      statistics::StatsCollectorImpl c(tag);
      handleOf(tag, c.GetHandle());
      g_clock += 1000 * (k % 7);
      for (int j = k % 3; j > 0; --j) {
        c.AddSample(k);
        record(tag, k);
      }
    }
  }
  for (int k = 0; k < ops; ++k) {
    g_clock += s.chance(1, 3) ? s.range(0, 5) : s.range(0, 2000000000);
    const std::string tag = bulk ? (s.chance(1, 10) ? anyTag(s) : std::string("a")) : anyTag(s);
    switch (bulk ? (s.chance(1, 12) ? s.draw(11) : 0) : s.draw(13)) {
      case 0: case 1: case 2: {
        s << "add(" << tag << ") ";
        statistics::StatsCollectorImpl c(tag);
        handleOf(tag, c.GetHandle());
        const double v = anySample(s);
        c.AddSample(v);
        record(tag, v);
        break;
      }
      case 3: {
        statistics::StatsCollectorImpl c(tag);
        handleOf(tag, c.GetHandle());
        s << "one(" << tag << ") ";
        c.IncrementOne();
        record(tag, 1.0);
        break;
      }
      case 4: {
        s << "keep(" << tag << ") ";
        const size_t h = Statistics::GetHandle(tag);
        handleOf(tag, h);
        kept.emplace_back(tag, statistics::StatsCollectorImpl(h));
        break;
      }
      case 5: case 6: {
        if (kept.empty()) break;
        const auto& c = kept[s.i(0, static_cast<int>(kept.size()) - 1)];
        s << "addkept(" << c.first << ") ";
        const double v = anySample(s);
        c.second.AddSample(v);
        record(c.first, v);
        break;
      }
      case 7: {
        PBT_EQ(Statistics::HasHandle(tag), model.count(tag) == 1, "HasHandle(" << tag << ")");
        if (model.count(tag)) PBT_EQ(Statistics::GetTag(model[tag].handle), tag, "GetTag");
        break;
      }
      case 8: {
        if (s.chance(1, 4)) {
          s << "reset ";
          for (auto& e : model) handles_before_reset.insert(e.second.handle);
          Statistics::Reset();
          PBT_CHECK(Statistics::GetStatsCollectors().empty(), "names left after reset");
          for (auto& e : model) PBT_CHECK(!Statistics::HasHandle(e.first), e.first << " left after reset");
          model.clear();
          for (auto& c : kept) stale.push_back(c.second);
          kept.clear();
        }
        break;
      }
      case 9: {
        if (stale.empty()) break;
        // a collector made before the reset counts for none of the names made since
        s << "addstale ";
        stale[s.i(0, static_cast<int>(stale.size()) - 1)].AddSample(anySample(s));
        break;
      }
      default: {
        if (model.empty()) break;
        const std::string t = std::next(model.begin(), s.i(0, static_cast<int>(model.size()) - 1))->first;
        const Entry& e = model[t];
        const bool by_tag = s.boolean();
#define Q(fn) (by_tag ? Statistics::fn(t) : Statistics::fn(e.handle))
        PBT_EQ(Statistics::GetHandle(t), e.handle, "handle");
        PBT_EQ(static_cast<size_t>(Q(GetNumSamples)), e.values.n(), "count of " << t);
        if (e.values.n() > 0) {
          const Ref& v = e.values;
          PBT_CHECK(near(Q(GetTotal), v.sum(), sumTol(v)), "total of " << t);
          PBT_CHECK(near(Q(GetMean), v.sum() / v.n(), sumTol(v) / v.n() + 1e-15 * std::fabs(static_cast<double>(v.sum()))), "mean of " << t);
          PBT_CHECK(Q(GetMin) == v.lo() && Q(GetMax) == v.hi(), "range of " << t);
          PBT_CHECK(Q(GetLastValue) == v.all.back(), "last value of " << t);
          PBT_CHECK(near(Q(GetVariance), varOf(v.window(100)), varTol(v, 100)), "variance of " << t << " " << Q(GetVariance) << " want " << static_cast<double>(varOf(v.window(100))));
        } else {
          PBT_CHECK(Q(GetTotal) == 0 && Q(GetMean) == 0 && Q(GetLastValue) == 0 && Q(GetVariance) == 0, "empty " << t);
        }
        const Ref& d = e.deltas;
        if (d.n() > 0) {
          const double mean = static_cast<double>(d.sum() / d.n());
          PBT_CHECK(closeTo(Q(GetMeanDeltaTime), mean, 1e-9, 1e-12), "mean delta of " << t << " " << Q(GetMeanDeltaTime) << " want " << mean);
          PBT_CHECK(closeTo(Q(GetMinDeltaTime), d.lo(), 1e-12, 1e-15) && closeTo(Q(GetMaxDeltaTime), d.hi(), 1e-12, 1e-15), "delta range of " << t);
          PBT_CHECK(closeTo(Q(GetLastDeltaTime), d.all.back(), 1e-12, 1e-15), "last delta of " << t);
          PBT_CHECK(near(Q(GetVarianceDeltaTime), varOf(d.window(100)), varTol(d, 100) + 1e-12), "variance of deltas of " << t);
          if (mean > 0) PBT_CHECK(closeTo(Q(GetHz), 1.0 / mean, 1e-9, 0), "rate of " << t);
        } else {
          PBT_CHECK(Q(GetMeanDeltaTime) == 0 && Q(GetLastDeltaTime) == 0 && Q(GetHz) == -1.0, "deltas before the second sample of " << t);
        }
#undef Q
      }
    }
  }
  s.nontrivial(model.size() >= 2 && recorded >= 5);
  // All names are accounted for; nothing else is.
  PBT_EQ(Statistics::GetStatsCollectors().size(), model.size(), "names");
  std::set<size_t> hs;
  for (auto& e : model) {
    PBT_CHECK(hs.insert(e.second.handle).second, "handle used twice");
    PBT_EQ(static_cast<size_t>(Statistics::GetNumSamples(e.first)), e.second.values.n(), "final count of " << e.first);
    PBT_CHECK(near(Statistics::GetTotal(e.first), e.second.values.sum(), sumTol(e.second.values)), "final total of " << e.first);
  }
  const std::string printed = Statistics::Print();
  for (auto& e : model) PBT_CHECK(printed.find(e.first) != std::string::npos, e.first << " is not printed");
  if (s.chance(1, 5) && !model.empty()) {
    const std::string f = scratchFile();
    Statistics::WriteToYamlFile(f);
    std::map<std::string, int> labels;
    for (auto& e : model) ++labels[yamlLabel(e.first)];
    const YAML::Node node = YAML::LoadFile(f);
    unlink(f.c_str());
    for (auto& e : model) {
      if (labels[yamlLabel(e.first)] > 1) continue;
      const YAML::Node n = node[yamlLabel(e.first)];
      const Ref& v = e.second.values;
      PBT_EQ(static_cast<bool>(n), v.n() > 0, e.first << " in the file");
      if (v.n() == 0) continue;
      PBT_EQ(n["samples"].as<size_t>(), v.n(), "samples in the file");
      PBT_CHECK(about(n["mean"].as<double>(), Statistics::GetMean(e.first)) && about(n["min"].as<double>(), v.lo()) &&
                    about(n["max"].as<double>(), v.hi()) &&
                    about(n["stddev"].as<double>(), std::sqrt(Statistics::GetVariance(e.first))),
                "values in the file for " << e.first);
    }
  }
}

PBT_PROP(timers, "at least two timers recorded three intervals", 60000, 1000000) {
  Timing::Reset();
  FakeClock clock(s.range(1, 1ll << 50));
  struct T {
    std::unique_ptr<timing::TimerImpl> timer;
    std::string tag;
    bool running;
    int64_t start;
    bool stale;  // made before a reset: its samples count for no name
  };
  std::vector<T> live;
  std::map<std::string, Ref> model;
  std::map<std::string, size_t> handle;
  const bool bulk = s.chance(1, 25);  // one timer, beyond the window
  const int ops = bulk ? s.i(200, 500) : s.size(1, 60);
  int recorded = 0;
  auto finish = [&](T& t) {
    t.running = false;
    if (t.stale) return;
    model[t.tag].add((g_clock - t.start) * 1e-9);
    ++recorded;
  };
  for (int k = 0; k < ops; ++k) {
    g_clock += s.chance(1, 3) ? s.range(0, 5) : s.range(0, 20000000000ll);
    const int op = live.empty() ? 0 : bulk && s.chance(14, 15) ? (live[0].running ? 3 : 2) : s.i(0, 9);
    const size_t at = live.empty() || (bulk && op < 4) ? 0 : s.draw(live.size());
    if (op != 0 && live.empty()) continue;
    switch (op) {
      case 0: case 1: {
        T t;
        t.tag = anyTag(s);
        const bool stopped = s.boolean();
        s << "new(" << t.tag << (stopped ? ",stopped) " : ") ");
        t.timer.reset(stopped || s.boolean() ? new timing::TimerImpl(t.tag, stopped) : new timing::TimerImpl(t.tag));
        t.running = !stopped;
        t.start = g_clock;
        t.stale = false;
        model[t.tag];
        if (handle.count(t.tag)) PBT_EQ(t.timer->GetHandle(), handle[t.tag], "handle of " << t.tag);
        else {
          for (auto& h : handle) PBT_CHECK(h.second != t.timer->GetHandle(), "two names share a handle");
          handle[t.tag] = t.timer->GetHandle();
        }
        PBT_EQ(Timing::GetHandle(t.tag), handle[t.tag], "GetHandle");
        PBT_EQ(Timing::GetTag(handle[t.tag]), t.tag, "GetTag");
        live.push_back(std::move(t));
        break;
      }
      case 2: {
        s << "start(" << at << ") ";
        live[at].timer->Start();
        live[at].running = true;
        live[at].start = g_clock;
        break;
      }
      case 3: case 4: {
        s << "stop(" << at << ") ";
        const double dt = live[at].timer->Stop();
        if (live[at].running) {
          const double want = (g_clock - live[at].start) * 1e-9;
          finish(live[at]);
          PBT_CHECK(closeTo(dt, want, 1e-12, 1e-15), "Stop() returns " << dt << " want " << want);
        }
        break;
      }
      case 5: {
        s << "discard(" << at << ") ";
        live[at].timer->Discard();
        live[at].running = false;
        break;
      }
      case 6: {
        s << "destroy(" << at << ") ";
        live[at].timer.reset();
        if (live[at].running) finish(live[at]);
        live.erase(live.begin() + at);
        break;
      }
      case 9: {
        if (!s.chance(1, 4)) break;
        s << "reset ";
        Timing::Reset();
        PBT_CHECK(Timing::GetTimerImpls().empty(), "names left after reset");
        model.clear();
        handle.clear();
        for (T& t : live) t.stale = true;
        break;
      }
      default: {
        const std::string t = live[at].tag;
        if (live[at].stale && !model.count(t)) break;
        const Ref& v = model[t];
        const bool by_tag = s.boolean();
#define Q(fn) (by_tag ? Timing::fn(t) : Timing::fn(handle[t]))
        PBT_EQ(static_cast<size_t>(Q(GetNumSamples)), v.n(), "count of " << t);
        if (v.n() > 0) {
          PBT_CHECK(closeTo(Q(GetTotalSeconds), static_cast<double>(v.sum()), 1e-12, 1e-15), "total of " << t);
          PBT_CHECK(closeTo(Q(GetMeanSeconds), static_cast<double>(v.sum() / v.n()), 1e-12, 1e-15), "mean of " << t);
          PBT_CHECK(closeTo(Q(GetMinSeconds), v.lo(), 1e-12, 1e-15) && closeTo(Q(GetMaxSeconds), v.hi(), 1e-12, 1e-15), "range of " << t);
          PBT_CHECK(near(Q(GetVarianceSeconds), varOf(v.window(100)), varTol(v, 100) + 1e-15), "variance of " << t);
          const double m = static_cast<double>(meanOf(v.window(100)));
          if (m > 1e-9) PBT_CHECK(closeTo(Q(GetHz), 1.0 / m, 1e-9, 0), "rate of " << t << " " << Q(GetHz) << " want " << 1.0 / m);
        } else {
          PBT_CHECK(Q(GetTotalSeconds) == 0 && Q(GetMeanSeconds) == 0 && Q(GetVarianceSeconds) == 0, "empty " << t);
        }
#undef Q
      }
    }
    for (T& t : live) PBT_EQ(t.timer->IsTiming(), t.running, "IsTiming of " << t.tag);
  }
  g_clock += 1000;
  while (!live.empty()) {
    live.back().timer.reset();
    if (live.back().running) finish(live.back());
    live.pop_back();
  }
  s.nontrivial(model.size() >= 2 && recorded >= 3);
  PBT_EQ(Timing::GetTimerImpls().size(), model.size(), "names");
  for (auto& e : model) {
    PBT_EQ(static_cast<size_t>(Timing::GetNumSamples(e.first)), e.second.n(), "final count of " << e.first);
    PBT_CHECK(closeTo(Timing::GetTotalSeconds(e.first), static_cast<double>(e.second.sum()), 1e-12, 1e-15), "final total of " << e.first);
  }
  const std::string printed = Timing::Print();
  for (auto& e : model) PBT_CHECK(printed.find(e.first) != std::string::npos, e.first << " is not printed");
  if (s.chance(1, 5) && !model.empty()) {
    const std::string f = scratchFile();
    Timing::WriteToYamlFile(f);
    std::map<std::string, int> labels;
    for (auto& e : model) ++labels[yamlLabel(e.first)];
    const YAML::Node node = YAML::LoadFile(f);
    unlink(f.c_str());
    for (auto& e : model) {
      if (labels[yamlLabel(e.first)] > 1) continue;
      const YAML::Node n = node[yamlLabel(e.first)];
      PBT_EQ(static_cast<bool>(n), e.second.n() > 0, e.first << " in the file");
      if (e.second.n() == 0) continue;
      PBT_EQ(n["num_samples"].as<size_t>(), e.second.n(), "samples in the file");
      PBT_CHECK(about(n["total"].as<double>(), static_cast<double>(e.second.sum())) &&
                    about(n["mean"].as<double>(), Timing::GetMeanSeconds(e.first)) && about(n["min"].as<double>(), e.second.lo()) &&
                    about(n["max"].as<double>(), e.second.hi()),
                "values in the file for " << e.first);
    }
  }
  Timing::Reset();
  PBT_CHECK(Timing::GetTimerImpls().empty(), "names left after reset");
  for (auto& e : model) PBT_EQ(static_cast<size_t>(Timing::GetNumSamples(e.first)), size_t(0), "samples left after reset");
  Timing::Reset();
}

PBT_PROP(time_text, "at least one minute", 20000, 400000) {
  const double v = s.boolean() ? s.real(0, 100) : s.logReal(1e-6, 3.5e5);
  s << "seconds=" << v;
  s.nontrivial(v >= 60);
  const std::string t = Timing::SecondsToTimeString(v);
  PBT_CHECK(std::fabs(parseTime(t) - v) <= 1.1e-6 + 1e-12 * v, "timing text " << t);
  if (v < 60) {
    const std::string u = Statistics::SecondsToTimeString(v);
    PBT_CHECK(std::fabs(parseTime(u) - v) <= 1.1e-6, "statistics text " << u);
  }
}

// Threads recording under shared and private names, in every interleaving.
PBT_PROP(concurrent_recording, "at least two threads and two samples each", 10000, 150000, false, 16, true) {
  const int threads = s.i(2, 4);
  const int per = s.i(1, 5);
  const int names = s.i(1, 3);
  const bool timers = s.boolean();
  s << (timers ? "timers " : "collectors ") << "threads=" << threads << " samples=" << per << " names=" << names;
  s.nontrivial(per >= 2);
  FakeClock clock(1000);
  struct Rec {
    std::string tag;
    double v;
    size_t handle;
  };
  std::vector<std::vector<Rec>> rec(threads);
  std::vector<std::vector<std::pair<int, double>>> plan(threads);
  for (auto& p : plan)
    for (int k = 0; k < per; ++k) p.emplace_back(s.i(0, names), static_cast<double>(s.range(-20, 20)));
  sched::Config cfg;
  cfg.max_gap = 80;
  sched::run(s, [&]() {
    auto work = [&](int t) {
      for (int k = 0; k < per; ++k) {
        Rec r;
        {
          sched::NoYield n;
          r.tag = plan[t][k].first == names ? "own" + std::to_string(t) : "shared" + std::to_string(plan[t][k].first);
        }
        if (timers) {
          timing::TimerImpl timer(r.tag);
          {
            sched::NoYield n;
            g_clock += 1000000;
          }
          r.v = timer.Stop();
          r.handle = timer.GetHandle();
        } else {
          statistics::StatsCollectorImpl c(r.tag);
          r.v = plan[t][k].second;
          c.AddSample(r.v);
          r.handle = c.GetHandle();
          if (k % 2 == 1) Statistics::GetMean(r.tag);
        }
        sched::NoYield n;
        rec[t].push_back(r);
      }
    };
    std::vector<std::thread> th;
    for (int t = 1; t < threads; ++t) th.emplace_back(work, t);
    work(0);
    for (std::thread& t : th) t.join();
  }, cfg);
  std::map<std::string, Ref> total;
  std::map<std::string, std::set<size_t>> handles;
  for (auto& v : rec)
    for (const Rec& r : v) {
      total[r.tag].add(r.v);
      handles[r.tag].insert(r.handle);
    }
  PBT_EQ(timers ? Timing::GetTimerImpls().size() : Statistics::GetStatsCollectors().size(), total.size(), "names");
  std::set<size_t> used;
  for (auto& e : total) {
    PBT_EQ(handles[e.first].size(), size_t(1), e.first << " has several handles");
    PBT_CHECK(used.insert(*handles[e.first].begin()).second, "two names share a handle");
    const size_t n = timers ? Timing::GetNumSamples(e.first) : Statistics::GetNumSamples(e.first);
    PBT_EQ(n, e.second.n(), "samples of " << e.first);
    const double sum = timers ? Timing::GetTotalSeconds(e.first) : Statistics::GetTotal(e.first);
    PBT_CHECK(near(sum, e.second.sum(), sumTol(e.second)), "total of " << e.first << ": " << sum);
    const double lo = timers ? Timing::GetMinSeconds(e.first) : Statistics::GetMin(e.first);
    const double hi = timers ? Timing::GetMaxSeconds(e.first) : Statistics::GetMax(e.first);
    PBT_CHECK(closeTo(lo, e.second.lo(), 1e-12, 1e-15) && closeTo(hi, e.second.hi(), 1e-12, 1e-15), "range of " << e.first);
  }
}
