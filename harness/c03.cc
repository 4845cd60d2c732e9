// C03: channel data survives serialization bit for bit.
#include "asan_iface.h"

#include <memory>

#include <aslam/common/channel-definitions.h>
#include <aslam/common/channel-serialization.h>
#include <aslam/common/channel.h>

#include "pbt.h"

const char* pbt::kProperty = "C03";
using pbt::Source;
using aslam::channels::Channel;

namespace {

void fillBytes(Source& s, void* p, size_t n) {
  unsigned char* b = static_cast<unsigned char*>(p);
  const int mode = s.i(0, 3);
  if (n > 4096) {
    uint64_t v = s.bits() | 1u;
    for (size_t k = 0; k < n; ++k) {
      v = v * 6364136223846793005ull + 1442695040888963407ull;
      b[k] = static_cast<unsigned char>(v >> 56);
    }
    return;
  }
  for (size_t k = 0; k < n; k += 8) {
    uint64_t v;
    if (mode == 0) {
      v = 0x0101010101010101ull * s.draw(4);
    } else if (mode == 1) {
      const double d = s.anyDouble();
      memcpy(&v, &d, 8);
    } else if (mode == 2) {
      float f[2] = {static_cast<float>(s.anyDouble()), std::numeric_limits<float>::quiet_NaN()};
      memcpy(&v, f, 8);
    } else {
      v = s.bits();
    }
    memcpy(b + k, &v, std::min<size_t>(8, n - k));
  }
}

// Makes one of the dimensions exceed one or two bytes.
void large(Source& s, int* a, int* b) {
  if (a && b && s.boolean()) std::swap(a, b);
  if (!a) a = b;
  if (!a) return;
  *a = s.oneOf<int>({127, 128, 255, 256, 257, 300, 700, 32768, 65535, 65536, 65537, 70000});
  if (b && b != a) *b = std::min(*b, *a < 1000 ? 300 : 2);
}

template <typename M>
struct Shape;
template <typename S, int R, int C>
struct Shape<Eigen::Matrix<S, R, C>> {
  typedef Eigen::Matrix<S, R, C> M;
  static void resize(Source& s, int max, M* m) {
    int r = R == Eigen::Dynamic ? s.size(0, max) : R;
    int c = C == Eigen::Dynamic ? s.size(0, max) : C;
    if (max > 1 && s.chance(1, 150)) {
      large(s, R == Eigen::Dynamic ? &r : nullptr, C == Eigen::Dynamic ? &c : nullptr);
      s.label("large");
    }
    m->resize(r, c);
    fillBytes(s, m->data(), sizeof(S) * r * c);
  }
};
template <typename M>
void gen(Source& s, M* m, int max = 12) {
  Shape<M>::resize(s, max, m);
}
template <typename M>
void gen(Source& s, std::vector<M>* v, int max = 6) {
  const bool many = s.chance(1, 150);
  if (many) s.label("long list");
  v->resize(many ? s.i(250, 300) : s.size(0, 6));
  if (many) max = 1;
  for (M& m : *v) gen(s, &m, max);
}
template <typename S, int R, int C>
bool sameBits(const Eigen::Matrix<S, R, C>& a, const Eigen::Matrix<S, R, C>& b) {
  return a.rows() == b.rows() && a.cols() == b.cols() &&
         (a.size() == 0 || memcmp(a.data(), b.data(), sizeof(S) * a.size()) == 0);
}
template <typename M>
bool sameBits(const std::vector<M>& a, const std::vector<M>& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i)
    if (!sameBits(a[i], b[i])) return false;
  return true;
}
bool sameBits(const cv::Mat& a, const cv::Mat& b) {
  if (a.rows != b.rows || a.cols != b.cols || a.type() != b.type()) return false;
  for (int r = 0; r < a.rows; ++r)
    if (a.cols > 0 && memcmp(a.ptr(r), b.ptr(r), a.elemSize() * a.cols) != 0) return false;
  return true;
}
template <typename S, int R, int C>
std::string shape(const Eigen::Matrix<S, R, C>& m) {
  return std::to_string(m.rows()) + "x" + std::to_string(m.cols());
}
template <typename M>
std::string shape(const std::vector<M>& v) {
  std::string r = "[";
  for (const M& m : v) r += shape(m) + " ";
  return r + "]";
}
std::string shape(const cv::Mat& m) {
  return std::to_string(m.rows) + "x" + std::to_string(m.cols) + " depth " + std::to_string(m.depth()) + " ch " +
         std::to_string(m.channels());
}

// A heap copy of exactly n bytes, so that reading past it is caught.
struct Exact {
  explicit Exact(const std::string& b) : p(static_cast<char*>(malloc(b.size()))), n(b.size()) {
    memcpy(p, b.data(), b.size());
  }
  ~Exact() { free(p); }
  char* p;
  size_t n;
};

template <typename T>
void roundTrip(Source& s, const T& value, const std::vector<T>& olds) {
  T source = value;  // shallow for images: also shows that the source is untouched
  const std::string before = shape(value);
  std::string text = "old content that is longer than nothing";
  PBT_CHECK(aslam::internal::serializeToString(source, &text), "serializeToString");
  char* buf = nullptr;
  size_t size = 12345;
  PBT_CHECK(aslam::internal::serializeToBuffer(source, &buf, &size), "serializeToBuffer");
  PBT_CHECK(buf != nullptr, "no buffer");
  PBT_CHECK(__sanitizer_get_allocated_size(buf) == size, "reported " << size << " bytes, wrote "
            << __sanitizer_get_allocated_size(buf));
  const std::string raw(buf, size);
  delete[] buf;
  PBT_CHECK(raw == text, "string and buffer form differ: " << text.size() << " and " << raw.size() << " bytes");
  PBT_CHECK(shape(source) == before, "source changed");
  Channel<T> ch;
  ch.value_ = source;
  std::string ctext;
  PBT_CHECK(ch.serializeToString(&ctext), "Channel::serializeToString");
  char* cbuf = nullptr;
  size_t csize = 0;
  PBT_CHECK(ch.serializeToBuffer(&cbuf, &csize), "Channel::serializeToBuffer");
  const std::string craw(cbuf, csize);
  delete[] cbuf;
  PBT_CHECK(ctext == text && craw == text, "channel form differs from value form");
  Exact e(text);
  for (const T& old : olds) {
    T t1 = old;
    PBT_CHECK(aslam::internal::deSerializeFromString(text, &t1), "deSerializeFromString");
    PBT_CHECK(sameBits(value, t1), "string round trip into " << shape(old) << " gives " << shape(t1));
    T t2 = old;
    PBT_CHECK(aslam::internal::deSerializeFromBuffer(e.p, e.n, &t2), "deSerializeFromBuffer");
    PBT_CHECK(sameBits(value, t2), "buffer round trip into " << shape(old) << " gives " << shape(t2));
    Channel<T> c1, c2;
    c1.value_ = old;
    c2.value_ = old;
    PBT_CHECK(c1.deSerializeFromString(text) && sameBits(value, c1.value_), "channel string round trip");
    PBT_CHECK(c2.deSerializeFromBuffer(e.p, e.n) && sameBits(value, c2.value_), "channel buffer round trip");
    std::string again;
    PBT_CHECK(c1.serializeToString(&again) && again == text, "encoding of the decoded value differs");
  }
}

template <typename T>
void caseFor(Source& s, const char* name) {
  T v;
  gen(s, &v);
  std::vector<T> olds(2);
  for (T& o : olds) gen(s, &o);
  s << name << " " << shape(v) << " into " << shape(olds[0]) << ", " << shape(olds[1]);
  s.nontrivial(shape(v) != shape(olds[0]) || shape(v) != shape(olds[1]));
  s.label(name);
  roundTrip(s, v, olds);
}

template <typename S>
void eigenScalar(Source& s, const char* n, bool list) {
  const std::string name = std::string(list ? "list of " : "") + n;
  typedef Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic> XX;
  typedef Eigen::Matrix<S, Eigen::Dynamic, 1> X1;
  typedef Eigen::Matrix<S, 1, Eigen::Dynamic> R1;
  typedef Eigen::Matrix<S, 2, Eigen::Dynamic> D2;
  typedef Eigen::Matrix<S, Eigen::Dynamic, 3> D3;
  typedef Eigen::Matrix<S, 3, 5> F;
  const bool all = std::is_same<S, double>::value || (std::is_same<S, unsigned char>::value && !list);
  const int k = s.i(0, all ? 5 : 1);
  // The instantiations dominate the build time: every scalar type has the fully
  // dynamic and one partly fixed shape, the others are spread over the types.
#define KIND(I, T)                                                                                   \
  case I:                                                                                            \
    if (list) caseFor<std::vector<T>>(s, (name + " " #T).c_str()); else caseFor<T>(s, (name + " " #T).c_str()); \
    break;
  struct All {
    static void run(Source& s, int k, bool list, const std::string& name, std::true_type) {
  switch (k) {
    KIND(0, XX)
    KIND(1, X1)
    KIND(2, R1)
    KIND(3, D2)
    KIND(4, D3)
    KIND(5, F)
  }
    }
    static void run(Source& s, int k, bool list, const std::string& name, std::false_type) {
      switch (k) {
        KIND(0, XX)
        KIND(1, D2)
      }
    }
  };
  All::run(s, k, list, name, std::integral_constant<bool, std::is_same<S, double>::value || std::is_same<S, unsigned char>::value>());
#undef KIND
}
void anyEigen(Source& s, bool list) {
  switch (s.i(0, 6)) {
    case 0: eigenScalar<double>(s, "double", list); break;
    case 1: eigenScalar<float>(s, "float", list); break;
    case 2: eigenScalar<int>(s, "int", list); break;
    case 3: eigenScalar<unsigned char>(s, "uchar", list); break;
    case 4: eigenScalar<signed char>(s, "char", list); break;
    case 5: eigenScalar<uint16_t>(s, "ushort", list); break;
    default: eigenScalar<int16_t>(s, "short", list); break;
  }
}

cv::Mat image(Source& s, int max, bool continuous) {
  const int depth = s.i(0, 6);
  const int ch = s.chance(1, 12) ? s.i(1, 512) : s.i(1, 5);
  int rows = s.size(0, ch > 8 ? 3 : max), cols = s.size(0, ch > 8 ? 3 : max);
  if (ch <= 5 && s.chance(1, 200)) {
    large(s, &rows, &cols);
    s.label("large");
  }
  const int layout = s.i(0, 2);
  const int type = CV_MAKETYPE(depth, ch);
  cv::Mat m;
  if (layout == 0 || rows == 0 || cols == 0) {
    m.create(rows, cols, type);
  } else {  // a window of a larger image
    const int pr = s.i(0, 3), pc = continuous && rows > 1 ? 0 : s.i(continuous ? 0 : 1, 3);
    const int or_ = s.i(0, pr), oc = s.i(0, pc);
    cv::Mat big(rows + pr, cols + pc, type);
    for (int r = 0; r < big.rows; ++r) memset(big.ptr(r), 0xa5, big.elemSize() * big.cols);
    m = big(cv::Rect(oc, or_, cols, rows));
  }
  for (int r = 0; r < m.rows; ++r) {
    if (m.cols > 0) fillBytes(s, m.ptr(r), m.elemSize() * m.cols);
  }
  return m;
}

}  // namespace

PBT_PROP(matrices, "target holds a value of another shape", 60000, 1000000) { anyEigen(s, false); }

PBT_PROP(matrix_lists, "target holds a list of other shapes", 40000, 600000) { anyEigen(s, true); }

PBT_PROP(images, "more than one pixel and a target of other shape or type", 40000, 600000) {
  const cv::Mat v = image(s, 9, true);
  std::vector<cv::Mat> olds = {image(s, 9, true), cv::Mat(), image(s, 9, true)};
  if (s.boolean()) {
    olds[2].create(v.rows, v.cols, v.type());
    for (int r = 0; r < v.rows && v.cols > 0; ++r) memset(olds[2].ptr(r), 7, v.elemSize() * v.cols);
  }
  s << shape(v) << (v.isSubmatrix() ? " window" : "") << " into " << shape(olds[0]) << ", empty, " << shape(olds[2]);
  s.nontrivial(v.total() > 1 && shape(v) != shape(olds[0]));
  s.label("depth " + std::to_string(v.depth()));
  PBT_CHECK(v.isContinuous(), "generator");
  // A clone, so that the decode cannot go through storage shared with v; olds
  // are private to each decode for the same reason.
  cv::Mat ref(v.rows, v.cols, v.type());  // clone() forgets the shape of empty images
  if (!v.empty()) v.copyTo(ref);
  std::string text;
  PBT_CHECK(aslam::internal::serializeToString(v, &text), "serializeToString");
  PBT_CHECK(sameBits(v, ref), "source changed");
  char* buf = nullptr;
  size_t size = 0;
  PBT_CHECK(aslam::internal::serializeToBuffer(v, &buf, &size), "serializeToBuffer");
  PBT_CHECK(__sanitizer_get_allocated_size(buf) == size, "reported size");
  const std::string raw(buf, size);
  delete[] buf;
  PBT_CHECK(raw == text, "string and buffer form differ");
  Exact e(text);
  const int border = s.i(1, 2);
  s << ", border " << border;
  for (const cv::Mat& old : olds) {
    for (int form = 0; form < 8; ++form) {
      Channel<cv::Mat> c;
      cv::Mat big;
      if (form < 4) {
        c.value_ = old.clone();
      } else {  // a window of a larger image
        if (old.empty()) continue;
        big.create(old.rows + 2 * border, old.cols + 2 * border, old.type());
        for (int r = 0; r < big.rows; ++r) memset(big.ptr(r), 0x5a, big.elemSize() * big.cols);
        c.value_ = big(cv::Rect(border, border, old.cols, old.rows));
        old.copyTo(c.value_);
      }
      bool ok = false;
      if (form % 4 == 0) ok = aslam::internal::deSerializeFromString(text, &c.value_);
      if (form % 4 == 1) ok = aslam::internal::deSerializeFromBuffer(e.p, e.n, &c.value_);
      if (form % 4 == 2) ok = c.deSerializeFromString(text);
      if (form % 4 == 3) ok = c.deSerializeFromBuffer(e.p, e.n);
      PBT_CHECK(ok, "form " << form << " refused");
      PBT_CHECK(sameBits(ref, c.value_), "form " << form << " gives " << shape(c.value_));
      for (int r = 0; r < big.rows; ++r)
        for (size_t b = 0; b < big.elemSize() * big.cols; ++b)
          if (r < border || r >= big.rows - border || b < border * big.elemSize() || b >= (big.cols - border) * big.elemSize())
            PBT_CHECK(big.ptr(r)[b] == 0x5a, "form " << form << " wrote outside of the window");
      if (!c.value_.isContinuous()) continue;
      std::string again;
      PBT_CHECK(c.serializeToString(&again) && again == text, "encoding of the decoded image differs");
    }
  }
}

// A window of a larger image has gaps between its rows: either the pixels of
// the window survive or the call refuses, but never other bytes.
PBT_PROP(image_windows, "window narrower than its image, more than one row", 600, 8000) {
  const cv::Mat v = image(s, 9, false);
  s << shape(v) << " continuous=" << v.isContinuous();
  s.nontrivial(!v.isContinuous());
  auto both = [&](bool string) {
    std::string text;
    if (string) {
      if (!aslam::internal::serializeToString(v, &text)) return;
    } else {
      char* buf = nullptr;
      size_t size = 0;
      if (!aslam::internal::serializeToBuffer(v, &buf, &size)) return;
      text.assign(buf, size);
      delete[] buf;
    }
    cv::Mat out;
    if (!aslam::internal::deSerializeFromString(text, &out) || !sameBits(v, out)) _exit(55);
  };
  for (int k = 0; k < 2; ++k) {
    const pbt::Fate f = pbt::fateOf([&]() { both(k == 0); });
    PBT_CHECK(f != pbt::Fate::kCrashed && f != pbt::Fate::kHung, "other pixels written for a window of an image");
    if (v.isContinuous()) PBT_CHECK(f == pbt::Fate::kReturned, "contiguous image refused: " << pbt::fateName(f));
  }
}

namespace {
template <typename T>
void scalar(Source& s, const char* name) {
  T v;
  if (std::is_floating_point<T>::value) {
    if (sizeof(T) == 8 || s.boolean()) {
      v = static_cast<T>(s.anyDouble());
    } else {
      const uint32_t b = static_cast<uint32_t>(s.bits());
      float f;
      memcpy(&f, &b, 4);
      v = static_cast<T>(f);
    }
  } else {
    v = static_cast<T>(s.anyInt64());
  }
  std::ostringstream o;
  o.precision(20);
  o << +v;
  s << name << " " << o.str();
  s.label(name);
  s.nontrivial(v != T(0) && v != T(1));
  const bool nan = v != v;
  auto same = [&](T a) { return nan ? a != a : memcmp(&a, &v, sizeof(T)) == 0; };
  Channel<T> c, d;
  c.value_ = v;
  d.value_ = T(1);
  std::string text;
  PBT_CHECK(c.serializeToString(&text), "serializeToString");
  PBT_CHECK(d.deSerializeFromString(text), "deSerializeFromString of '" << text << "'");
  PBT_CHECK(same(d.value_), "text '" << text << "' reads back as " << +d.value_);
  T f = T(1);
  PBT_CHECK(aslam::internal::deSerializeFromString(text, &f) && same(f), "free function");
  char* buf = nullptr;
  size_t n = 0;
  PBT_CHECK(c.serializeToBuffer(&buf, &n), "serializeToBuffer");
  PBT_CHECK(n == sizeof(T) && __sanitizer_get_allocated_size(buf) == n, "size " << n);
  PBT_CHECK(memcmp(buf, &v, n) == 0, "buffer bytes");
  Exact e(std::string(buf, n));
  delete[] buf;
  Channel<T> g;
  g.value_ = T(1);
  PBT_CHECK(g.deSerializeFromBuffer(e.p, e.n), "deSerializeFromBuffer");
  PBT_CHECK(memcmp(&g.value_, &v, n) == 0, "buffer round trip gives " << +g.value_);
}
}  // namespace

PBT_PROP(scalars, "neither zero nor one", 200000, 3000000) {
  switch (s.i(0, 9)) {
    case 0: scalar<int>(s, "int"); break;
    case 1: scalar<double>(s, "double"); break;
    case 2: scalar<float>(s, "float"); break;
    case 3: scalar<int64_t>(s, "int64"); break;
    case 4: scalar<uint64_t>(s, "uint64"); break;
    case 5: scalar<uint32_t>(s, "uint32"); break;
    case 6: scalar<int16_t>(s, "int16"); break;
    case 7: scalar<uint16_t>(s, "uint16"); break;
    case 8: scalar<int8_t>(s, "int8"); break;
    default: scalar<uint8_t>(s, "uint8"); break;
  }
}

// The named channels of a group use the same encoding.
PBT_PROP(declared_channels, "all channels hold data and the target held other data", 10000, 100000) {
  using namespace aslam::channels;
  ChannelGroup a, b;
  Eigen::Matrix2Xd kp;
  Eigen::VectorXi ids;
  std::vector<Eigen::Matrix<unsigned char, Eigen::Dynamic, Eigen::Dynamic>> desc;
  gen(s, &kp);
  gen(s, &ids);
  gen(s, &desc);
  cv::Mat img = image(s, 6, true);
  s << shape(kp) << " " << shape(ids) << " " << shape(desc) << " " << shape(img);
  s.nontrivial(kp.size() && ids.size() && desc.size() && img.total());
  add_VISUAL_KEYPOINT_MEASUREMENTS_Channel(&a) = kp;
  add_TRACK_IDS_Channel(&a) = ids;
  add_DESCRIPTORS_Channel(&a) = desc;
  add_RAW_IMAGE_Channel(&a) = img;
  gen(s, &add_VISUAL_KEYPOINT_MEASUREMENTS_Channel(&b));
  gen(s, &add_TRACK_IDS_Channel(&b));
  gen(s, &add_DESCRIPTORS_Channel(&b));
  add_RAW_IMAGE_Channel(&b);
  std::string t;
  serialize_VISUAL_KEYPOINT_MEASUREMENTS_Channel(a, &t);
  deserialize_VISUAL_KEYPOINT_MEASUREMENTS_Channel(b, t);
  serialize_TRACK_IDS_Channel(a, &t);
  deserialize_TRACK_IDS_Channel(b, t);
  serialize_DESCRIPTORS_Channel(a, &t);
  deserialize_DESCRIPTORS_Channel(b, t);
  serialize_RAW_IMAGE_Channel(a, &t);
  deserialize_RAW_IMAGE_Channel(b, t);
  PBT_CHECK(sameBits(get_VISUAL_KEYPOINT_MEASUREMENTS_Data(b), kp), "keypoints");
  PBT_CHECK(sameBits(get_TRACK_IDS_Data(b), ids), "track ids");
  PBT_CHECK(sameBits(get_DESCRIPTORS_Data(b), desc), "descriptors");
  PBT_CHECK(sameBits(get_RAW_IMAGE_Data(b), img), "image");
  PBT_CHECK(sameBits(get_VISUAL_KEYPOINT_MEASUREMENTS_Data(a), kp) && sameBits(get_DESCRIPTORS_Data(a), desc),
            "source changed");
}
