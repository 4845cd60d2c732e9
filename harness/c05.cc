// C05: channel groups against a map model, and concurrent use under the
// controlled scheduler.
#include <map>
#include <memory>
#include <thread>

#include <aslam/common/channel-definitions.h>
#include <aslam/common/channel.h>

#include "ctlsched.h"
#include "pbt.h"

const char* pbt::kProperty = "C05";
using pbt::Source;
using namespace aslam::channels;

typedef Eigen::Matrix<unsigned char, Eigen::Dynamic, Eigen::Dynamic> MatUc;
DECLARE_CHANNEL(TEST_INT, int)
DECLARE_CHANNEL(TEST_DOUBLE, double)

namespace {

enum Kind { kInt, kDouble, kVec, kMat2, kList, kImage, kKinds };
const char* kKindName[] = {"int", "double", "VectorXi", "Matrix2Xd", "list", "image"};

struct Value {
  Kind kind = kInt;
  int i = 0;
  double d = 0;
  Eigen::VectorXi v;
  Eigen::Matrix2Xd m;
  std::vector<MatUc> l;
  // Image model: private copy of the pixels.
  int rows = 0, cols = 0, type = 0;
  std::string pix;
};
cv::Mat imageOf(const Value& a) {
  cv::Mat m(a.rows, a.cols, a.type);
  if (!a.pix.empty()) memcpy(m.data, a.pix.data(), a.pix.size());
  return m;
}
bool imageIs(const cv::Mat& m, const Value& a) {
  if (m.rows != a.rows || m.cols != a.cols || (m.type() != a.type)) return false;
  for (int r = 0; r < m.rows; ++r) {
    const size_t n = m.elemSize() * m.cols;
    if (n && memcmp(m.ptr(r), a.pix.data() + r * n, n) != 0) return false;
  }
  return true;
}
template <typename M>
bool eq(const M& a, const M& b) {
  return a.rows() == b.rows() && a.cols() == b.cols() && (a.size() == 0 || (a.array() == b.array()).all());
}
bool equalValues(const Value& a, const Value& b) {
  if (a.kind != b.kind) return false;
  switch (a.kind) {
    case kInt: return a.i == b.i;
    case kDouble: return a.d == b.d;
    case kVec: return eq(a.v, b.v);
    case kMat2: return eq(a.m, b.m);
    case kList: {
      if (a.l.size() != b.l.size()) return false;
      for (size_t k = 0; k < a.l.size(); ++k)
        if (!eq(a.l[k], b.l[k])) return false;
      return true;
    }
    default: return a.rows == b.rows && a.cols == b.cols && a.type == b.type && a.pix == b.pix;
  }
}
Value genValue(Source& s, Kind k) {
  Value a;
  a.kind = k;
  if (k != kInt && k != kDouble && s.chance(1, 150)) {  // more than one byte counts
    const int seed = s.i(0, 1), n = s.i(250, 700);
    switch (k) {
      case kVec:
        a.v.resize(n);
        for (int j = 0; j < n; ++j) a.v(j) = (j * 7 + seed) % 31;
        break;
      case kMat2:
        a.m.resize(2, n);
        for (int j = 0; j < 2 * n; ++j) a.m.data()[j] = (j * 7 + seed) % 31;
        break;
      case kList:
        a.l.resize(n);
        for (int j = 0; j < n; ++j) a.l[j] = MatUc::Constant(j % 3, 1 + j % 2, static_cast<unsigned char>(j + seed));
        break;
      default:
        a.rows = s.boolean() ? n : s.i(1, 20);
        a.cols = a.rows == n ? s.i(1, 20) : n;
        a.type = CV_8UC3;
        a.pix.resize(a.rows * a.cols * 3);
        for (size_t j = 0; j < a.pix.size(); ++j) a.pix[j] = static_cast<char>(j * 7 + seed + j / 256);
    }
    return a;
  }
  switch (k) {
    case kInt: a.i = s.chance(1, 20) ? s.range(-2147483648ll, 2147483647ll) : s.i(0, 2); break;
    case kDouble: a.d = s.i(0, 2) * 0.5; break;
    case kVec:
      a.v.resize(s.i(0, 3));
      for (int j = 0; j < a.v.size(); ++j) a.v(j) = s.i(0, 1);
      break;
    case kMat2:
      a.m.resize(2, s.i(0, 2));
      for (int j = 0; j < a.m.size(); ++j) a.m.data()[j] = s.i(0, 1);
      break;
    case kList:
      a.l.resize(s.i(0, 2));
      for (MatUc& m : a.l) {
        m.resize(s.i(0, 2), s.i(0, 2));
        for (int j = 0; j < m.size(); ++j) m.data()[j] = s.i(0, 1);
      }
      break;
    default:
      a.rows = s.i(0, 2);
      a.cols = s.i(0, 2);
      a.type = s.oneOf<int>({CV_8UC1, CV_8UC3, CV_16UC1, CV_32SC1, CV_32SC2});
      a.pix.resize(a.rows * a.cols * CV_ELEM_SIZE(a.type));
      for (char& c : a.pix) c = s.i(0, 4) == 4;
  }
  return a;
}
// Changes a value in one place.
Value tweak(Source& s, const Value& a) {
  Value b = a;
  switch (a.kind) {
    case kInt: b.i += 1; break;
    case kDouble: b.d += 1e-9; break;
    case kVec:
      if (b.v.size() == 0) b.v = Eigen::VectorXi::Zero(1);
      else if (s.boolean()) b.v(s.draw(b.v.size())) ^= 4;
      else b.v = Eigen::VectorXi(b.v.head(b.v.size() - 1));
      break;
    case kMat2:
      if (b.m.cols() == 0) b.m = Eigen::Matrix2Xd::Zero(2, 1);
      else if (s.boolean()) b.m.data()[s.draw(b.m.size())] += 0.25;
      else b.m = Eigen::Matrix2Xd(b.m.leftCols(b.m.cols() - 1));
      break;
    case kList:
      if (s.boolean() && !b.l.empty() && b.l.back().size() > 0) b.l.back().data()[s.draw(b.l.back().size())] ^= 8;
      else b.l.push_back(MatUc::Zero(1, 1));
      break;
    default:
      if (!b.pix.empty() && s.boolean()) {
        b.pix[s.draw(b.pix.size())] ^= 2;
      } else {
        b.rows += 1;
        b.pix.resize(b.rows * b.cols * CV_ELEM_SIZE(b.type));
      }
  }
  return b;
}

const char* kDynNames[] = {"a", "b", "c"};
// Names 0..2 are used through addChannel/getChannelData, the others through the
// declared accessors of that type.
enum { kNumDyn = 3, kNumNames = 9 };
Kind declaredKind(int name) { return static_cast<Kind>(name - kNumDyn); }
std::string nameOf(int n) {
  static const std::string decl[] = {TEST_INT_CHANNEL, TEST_DOUBLE_CHANNEL, TRACK_IDS_CHANNEL,
                                     VISUAL_KEYPOINT_MEASUREMENTS_CHANNEL, DESCRIPTORS_CHANNEL, RAW_IMAGE_CHANNEL};
  return n < kNumDyn ? std::string(kDynNames[n]) : decl[n - kNumDyn];
}

template <typename T>
void store(T* dst, const Value& a);
template <> void store(int* d, const Value& a) { *d = a.i; }
template <> void store(double* d, const Value& a) { *d = a.d; }
template <> void store(Eigen::VectorXi* d, const Value& a) { *d = a.v; }
template <> void store(Eigen::Matrix2Xd* d, const Value& a) { *d = a.m; }
template <> void store(std::vector<MatUc>* d, const Value& a) { *d = a.l; }
template <> void store(cv::Mat* d, const Value& a) { *d = imageOf(a); }

template <typename F>
void withType(Kind k, F f) {
  switch (k) {
    case kInt: f(static_cast<int*>(nullptr)); break;
    case kDouble: f(static_cast<double*>(nullptr)); break;
    case kVec: f(static_cast<Eigen::VectorXi*>(nullptr)); break;
    case kMat2: f(static_cast<Eigen::Matrix2Xd*>(nullptr)); break;
    case kList: f(static_cast<std::vector<MatUc>*>(nullptr)); break;
    default: f(static_cast<cv::Mat*>(nullptr)); break;
  }
}
struct Adder {
  const std::string& name;
  ChannelGroup* g;
  const Value& a;
  template <typename T>
  void operator()(T*) { store(&addChannel<T>(name, g), a); }
};
struct Setter {
  const std::string& name;
  ChannelGroup* g;
  const Value& a;
  template <typename T>
  void operator()(T*) { store(&getChannelData<T>(name, *g), a); }
};
struct Touch {
  const std::string& name;
  const ChannelGroup* g;
  template <typename T>
  void operator()(T*) { (void)getChannelData<T>(name, *g); }
};
struct Checker {
  const std::string& name;
  const ChannelGroup* g;
  const Value& a;
  bool ok = false;
  void operator()(int*) { ok = getChannelData<int>(name, *g) == a.i; }
  void operator()(double*) { ok = getChannelData<double>(name, *g) == a.d; }
  void operator()(Eigen::VectorXi*) { ok = eq(getChannelData<Eigen::VectorXi>(name, *g), a.v); }
  void operator()(Eigen::Matrix2Xd*) { ok = eq(getChannelData<Eigen::Matrix2Xd>(name, *g), a.m); }
  void operator()(std::vector<MatUc>*) {
    Value b;
    b.kind = kList;
    b.l = getChannelData<std::vector<MatUc>>(name, *g);
    ok = equalValues(a, b);
  }
  void operator()(cv::Mat*) { ok = imageIs(getChannelData<cv::Mat>(name, *g), a); }
};

#define FOR_DECLARED(n, OP)                                   \
  switch (declaredKind(n)) {                                  \
    case kInt: OP(TEST_INT) break;                            \
    case kDouble: OP(TEST_DOUBLE) break;                      \
    case kVec: OP(TRACK_IDS) break;                           \
    case kMat2: OP(VISUAL_KEYPOINT_MEASUREMENTS) break;       \
    case kList: OP(DESCRIPTORS) break;                        \
    default: OP(RAW_IMAGE) break;                             \
  }

void add(int n, ChannelGroup* g, const Value& a) {
  if (n < kNumDyn) {
    const std::string name = nameOf(n);
    withType(a.kind, Adder{name, g, a});
    return;
  }
#define OP(X) store(&add_##X##_Channel(g), a);
  FOR_DECLARED(n, OP)
#undef OP
}
void set(int n, ChannelGroup* g, const Value& a) {
  if (n < kNumDyn) {
    const std::string name = nameOf(n);
    withType(a.kind, Setter{name, g, a});
    return;
  }
#define OP(X) store(&get_##X##_Data(*g), a);
  FOR_DECLARED(n, OP)
#undef OP
}
bool has(int n, const ChannelGroup& g) {
  const bool by_name = hasChannel(nameOf(n), g);
  if (n >= kNumDyn) {
#define OP(X) if (has_##X##_Channel(g) != by_name) pbt::fail("has_ and hasChannel disagree");
    FOR_DECLARED(n, OP)
#undef OP
  }
  return by_name;
}
void removeChannel(int n, ChannelGroup* g) {
#define OP(X) remove_##X##_Channel(g);
  FOR_DECLARED(n, OP)
#undef OP
}

// The model of one channel slot is shared between groups that were copied (a
// copy aliases its channels) and private after a clone.
typedef std::shared_ptr<Value> Slot;
typedef std::map<int, Slot> Model;

bool modelEqual(const Model& a, const Model& b) {
  if (a.size() != b.size()) return false;
  for (const auto& p : a) {
    auto it = b.find(p.first);
    if (it == b.end() || !equalValues(*p.second, *it->second)) return false;
  }
  return true;
}

}  // namespace

PBT_PROP(model, "at least six operations including a clone or copy and a comparison of unequal groups", 20000, 400000) {
  const int kGroups = 3;
  std::unique_ptr<ChannelGroup> g[kGroups];
  Model m[kGroups];
  for (auto& p : g) p.reset(new ChannelGroup);
  const int ops = s.size(1, 24);
  bool cloned = false, unequal = false;
  auto verify = [&]() {
    for (int k = 0; k < kGroups; ++k) {
      PBT_EQ(g[k]->channels_.size(), m[k].size(), "number of channels of group " << k);
      for (int n = 0; n < kNumNames; ++n) {
        const bool want = m[k].count(n) != 0;
        PBT_CHECK(has(n, *g[k]) == want, "group " << k << " has " << nameOf(n));
        if (!want) continue;
        const Value& a = *m[k][n];
        const std::string name = nameOf(n);
        Checker c{name, g[k].get(), a};
        withType(a.kind, [&](auto* t) { c(t); });
        PBT_CHECK(c.ok, "group " << k << " channel " << name << " holds another value");
      }
    }
  };
  for (int o = 0; o < ops; ++o) {
    const int k = s.i(0, kGroups - 1), j = s.i(0, kGroups - 1);
    const int op = s.i(0, 9);
    const int n = s.i(0, kNumNames - 1);
    const Kind kind = n < kNumDyn ? static_cast<Kind>(s.draw(kKinds)) : declaredKind(n);
    if (op <= 2) {
      if (m[k].count(n)) continue;
      const Value a = genValue(s, kind);
      s << "add " << nameOf(n) << ":" << kKindName[kind] << " to " << k << "; ";
      add(n, g[k].get(), a);
      m[k][n] = std::make_shared<Value>(a);
    } else if (op <= 4) {
      if (!m[k].count(n)) continue;
      Slot slot = m[k][n];
      const Value a = s.boolean() ? tweak(s, *slot) : genValue(s, slot->kind);
      s << "set " << nameOf(n) << " in " << k << "; ";
      set(n, g[k].get(), a);
      *slot = a;
    } else if (op == 5) {
      if (n < kNumDyn || !m[k].count(n)) continue;
      s << "remove " << nameOf(n) << " from " << k << "; ";
      removeChannel(n, g[k].get());
      m[k].erase(n);
    } else if (op == 6) {
      s << "group " << k << " = clone of " << j << "; ";
      cloned = true;
      ChannelGroup c;
  c = cloneChannelGroup(*g[j]);
      *g[k] = c;
      Model mm;
      for (const auto& p : m[j]) mm[p.first] = std::make_shared<Value>(*p.second);
      m[k] = mm;
    } else if (op == 7) {
      s << "group " << k << " = copy of " << j << "; ";
      cloned = true;
      if (s.boolean()) {
        *g[k] = *g[j];
      } else {
        std::unique_ptr<ChannelGroup> c(new ChannelGroup(*g[j]));
        g[k] = std::move(c);
      }
      const Model mm = m[j];
      m[k] = mm;
    } else {
      s << "compare " << k << " and " << j << "; ";
      const bool want = modelEqual(m[k], m[j]);
      unequal = unequal || !want;
      PBT_CHECK(isChannelGroupEqual(*g[k], *g[j]) == want, "equality of " << k << " and " << j << " should be " << want);
      PBT_CHECK(isChannelGroupEqual(*g[j], *g[k]) == want, "equality of " << j << " and " << k << " should be " << want);
    }
    verify();
  }
  s.nontrivial(ops >= 6 && cloned && unequal);
}

// Two groups with the same names: the values decide, whatever their shapes.
PBT_PROP(equality, "same names on both sides, one value changed", 40000, 600000) {
  ChannelGroup a, b;
  Model ma, mb;
  const int n = s.i(1, 4);
  s << "names";
  for (int k = 0; k < n; ++k) {
    const int name = s.i(0, kNumNames - 1);
    if (ma.count(name)) continue;
    const Kind kind = name < kNumDyn ? static_cast<Kind>(s.draw(kKinds)) : declaredKind(name);
    const Value v = genValue(s, kind);
    s << " " << nameOf(name) << ":" << kKindName[kind];
    add(name, &a, v);
    ma[name] = std::make_shared<Value>(v);
  }
  const int changed = s.i(-1, 3);
  int idx = 0;
  bool differs = false;
  for (const auto& p : ma) {
    Value v = *p.second;
    if (idx++ == changed) {
      const int how = s.i(0, 2);
      if (how == 0) v = tweak(s, v);
      if (how == 1) v = genValue(s, v.kind);
      if (how == 2 && p.first < kNumDyn) v = genValue(s, static_cast<Kind>(s.draw(kKinds)));
      s << "; other side " << nameOf(p.first) << ":" << kKindName[v.kind];
      differs = !equalValues(v, *p.second);
    }
    add(p.first, &b, v);
    mb[p.first] = std::make_shared<Value>(v);
  }
  s.nontrivial(differs);
  const bool want = modelEqual(ma, mb);
  s.label(want ? "equal" : "unequal");
  PBT_CHECK(isChannelGroupEqual(a, b) == want, "a == b should be " << want);
  PBT_CHECK(isChannelGroupEqual(b, a) == want, "b == a should be " << want);
  PBT_CHECK(isChannelGroupEqual(a, a) && isChannelGroupEqual(b, b), "a group equals itself");
  ChannelGroup c;
  c = cloneChannelGroup(a);
  PBT_CHECK(isChannelGroupEqual(a, c) && isChannelGroupEqual(c, a), "a clone equals its origin");
  ChannelGroup d(a);
  PBT_CHECK(isChannelGroupEqual(a, d), "a copy equals its origin");
  for (const auto& p : ma) {
    const std::string name = nameOf(p.first);
    Checker ca{name, &a, *p.second}, cb{name, &b, *mb[p.first]};
    withType(p.second->kind, [&](auto* t) { ca(t); });
    withType(mb[p.first]->kind, [&](auto* t) { cb(t); });
    PBT_CHECK(ca.ok && cb.ok, "comparison or cloning changed a value");
    // No storage is shared: writing to the clone leaves the origin alone (the
    // header of an image is private, its pixels are shared by design).
    set(p.first, &c, tweak(s, *p.second));
    ca.ok = false;
    withType(p.second->kind, [&](auto* t) { ca(t); });
    PBT_CHECK(ca.ok, "writing to a clone changed its origin: " << name);
  }
  std::ostringstream out;
  a.printParameters(out);
  for (const auto& p : ma) PBT_CHECK(out.str().find(nameOf(p.first)) != std::string::npos, "printParameters omits a channel");
}

PBT_PROP(refusals, "every case", 400, 6000) {
  const int n = s.i(0, kNumNames - 1);
  const Kind kind = n < kNumDyn ? static_cast<Kind>(s.draw(kKinds)) : declaredKind(n);
  const Kind other = static_cast<Kind>((kind + 1 + s.draw(kKinds - 1)) % kKinds);
  const Value v = genValue(s, kind), w = genValue(s, other);
  const int what = s.i(0, 4);
  const std::string name = nameOf(n);
  s << "case " << what << " name " << name << ":" << kKindName[kind] << " other " << kKindName[other];
  s.nontrivial();
  s.label("case " + std::to_string(what));
  ChannelGroup g;
  if (what != 1 && what != 4) add(n, &g, v);
  const pbt::Fate f = pbt::fateOf([&]() {
    switch (what) {
      case 0: add(n, &g, v); break;                               // exists already
      case 1: withType(kind, Touch{name, &g}); break;             // does not exist
      case 2: withType(other, Touch{name, &g}); break;            // wrong type
      case 3: withType(other, Adder{name, &g, w}); break;         // exists with another type
      case 4: if (n < kNumDyn) abort(); removeChannel(n, &g); break;  // removing what is not there
    }
  });
  PBT_CHECK(f == pbt::Fate::kAborted || f == pbt::Fate::kThrew, "not refused: " << pbt::fateName(f));
}
