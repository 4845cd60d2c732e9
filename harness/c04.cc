// C04: malformed serialized data is refused without touching memory out of
// bounds. Every decode runs in a child process on a heap block of exactly the
// stated length (ASan catches reads and writes past any block) with a malloc
// hook that bounds single allocations by the size of the input.
#include "asan_iface.h"
#include <sys/mman.h>
#include <unistd.h>

#include <aslam/common/channel-serialization.h>
#include <aslam/common/channel.h>

#include "pbt.h"

const char* pbt::kProperty = "C04";
using pbt::Source;

namespace {

volatile size_t g_bound = 0;
char* g_msg = nullptr;  // shared with the child

void mallocHook(const volatile void*, size_t n) {
  if (g_bound != 0 && n > g_bound) {
    const size_t b = g_bound;
    g_bound = 0;
    snprintf(g_msg, 4096, "allocates %zu bytes for an input that allows %zu", n, b);
    _exit(41);
  }
}
void freeHook(const volatile void*) {}

struct Init {
  Init() {
    g_msg = static_cast<char*>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    __sanitizer_install_malloc_and_free_hooks(mallocHook, freeHook);
  }
};

void put32(std::string* s, uint32_t v) { s->append(reinterpret_cast<char*>(&v), 4); }
std::string header(uint32_t r, uint32_t c, uint32_t depth, uint32_t ch) {
  std::string t;
  put32(&t, r);
  put32(&t, c);
  put32(&t, depth);
  put32(&t, ch);
  return t;
}
std::string payload(Source& s, size_t n) {
  std::string t(n, '\0');
  const uint64_t k = s.bits();
  for (size_t i = 0; i < n; ++i) t[i] = static_cast<char>((k >> (8 * (i % 8))) + i);
  return t;
}

// Reference encoders.
template <typename S, int R, int C>
std::string encode(const Eigen::Matrix<S, R, C>& m) {
  std::string t = header(m.rows(), m.cols(), cv::DataType<S>::depth, 1);
  if (m.size() > 0) t.append(reinterpret_cast<const char*>(m.data()), sizeof(S) * m.size());
  return t;
}
template <typename M>
std::string encode(const std::vector<M>& v) {
  const uint64_t n = v.size();
  std::string t(reinterpret_cast<const char*>(&n), 8);
  for (const M& m : v) t += encode(m);
  return t;
}
std::string encode(const cv::Mat& m) {
  std::string t = header(m.rows, m.cols, m.depth(), m.channels());
  for (int r = 0; r < m.rows; ++r) {
    if (m.cols > 0) t.append(reinterpret_cast<const char*>(m.ptr(r)), m.elemSize() * m.cols);
  }
  return t;
}
template <typename S>
typename std::enable_if<std::is_arithmetic<S>::value, std::string>::type encode(const S& v) {
  return std::string(reinterpret_cast<const char*>(&v), sizeof(S));
}

template <typename S, int R, int C>
void valid(Source& s, Eigen::Matrix<S, R, C>* m) {
  m->resize(R == Eigen::Dynamic ? (s.chance(1, 5) ? 0 : s.size(0, 6)) : R, C == Eigen::Dynamic ? s.size(0, 6) : C);
  const std::string p = payload(s, sizeof(S) * m->size());
  if (m->size() > 0) memcpy(m->data(), p.data(), p.size());
}
template <typename M>
void valid(Source& s, std::vector<M>* v) {
  v->resize(s.size(0, 4));
  for (M& m : *v) valid(s, &m);
}
void valid(Source& s, cv::Mat* m) {
  m->create(s.size(0, 6), s.size(0, 6), CV_MAKETYPE(s.i(0, 6), s.i(1, 4)));
  for (int r = 0; r < m->rows; ++r) {
    const std::string p = payload(s, m->elemSize() * m->cols);
    if (!p.empty()) memcpy(m->ptr(r), p.data(), p.size());
  }
}
template <typename S>
typename std::enable_if<std::is_arithmetic<S>::value>::type valid(Source& s, S* v) {
  const std::string p = payload(s, sizeof(S));
  memcpy(v, p.data(), sizeof(S));
}

uint32_t badWord(Source& s) {
  switch (s.draw(6)) {
    case 0: return static_cast<uint32_t>(s.draw(20));
    case 1: return 0xffffffffu - static_cast<uint32_t>(s.draw(3));
    case 2: return static_cast<uint32_t>((1ull << s.draw(33)) - s.draw(2));
    case 3: return s.oneOf<uint32_t>({512, 513, 514, 1024, 1025, 4096, 4097, 65536, 65537});
    case 4: return 0x80000000u + static_cast<uint32_t>(s.draw(5));
    default: return static_cast<uint32_t>(s.bits());
  }
}

// The offsets of the headers in a valid encoding.
template <typename M>
std::vector<size_t> headers(const M&) {
  return {0};
}
template <typename M>
std::vector<size_t> headers(const std::vector<M>& v) {
  std::vector<size_t> out(1, 8);
  for (const M& m : v) out.push_back(out.back() + encode(m).size());
  if (out.size() > 1) out.pop_back();
  return out;
}

// Corrupts a valid encoding. Returns true if the result is a strict prefix.
bool corrupt(Source& s, std::string* t, const std::vector<size_t>& headers) {
  const std::string orig = *t;
  const uint64_t index = s.draw(headers.size());
  const size_t first_header = headers[index];
  switch (s.i(0, 6)) {
    case 0:  // truncation
      if (!t->empty()) t->resize(s.boolean() ? t->size() - 1 - s.draw(std::min<size_t>(t->size(), 9)) : s.draw(t->size()));
      break;
    case 1: {  // header words
      const int n = s.i(1, 3);
      for (int k = 0; k < n; ++k) {
        const size_t at = first_header + 4 * s.draw(4);
        const uint32_t w = badWord(s);
        if (at + 4 <= t->size()) memcpy(&(*t)[at], &w, 4);
      }
      break;
    }
    case 2: {  // 64-bit count of lists (or first two words)
      uint64_t w = s.boolean() ? s.draw(20) : s.boolean() ? ~0ull >> s.draw(64) : s.bits();
      if (t->size() >= 8) memcpy(&(*t)[0], &w, 8);
      break;
    }
    case 3:  // extension
      *t += payload(s, s.i(1, 40));
      break;
    case 4: {  // bit flips anywhere
      const int n = s.i(1, 4);
      for (int k = 0; k < n && !t->empty(); ++k) (*t)[s.draw(t->size())] ^= static_cast<char>(1u << s.draw(8));
      break;
    }
    case 5: {  // consistent lie: header product matches the payload after wrap around
      const uint32_t ch = s.oneOf<uint32_t>({1, 0, 2, 3, 512, 513, 1025, 0x10000, 0x80000001u});
      const uint32_t r = s.oneOf<uint32_t>({0, 1, 2, 0x10000, 0x80000000u, 0xffffffffu});
      const uint32_t c = s.oneOf<uint32_t>({0, 1, 3, 0x10000, 0x40000000u});
      const uint32_t depth = s.i(0, 7);
      static const size_t kSize[8] = {1, 1, 2, 2, 4, 4, 8, 2};
      const uint64_t bytes = kSize[depth] * uint64_t(r) * c * ch;  // wraps like size_t
      const std::string p = payload(s, bytes <= 4096 ? bytes : s.i(0, 64));
      *t = orig.substr(0, std::min(first_header, orig.size())) + header(r, c, depth, ch) + p;
      if (first_header > 0 && s.boolean()) {  // the list ends here
        const uint64_t count = index + 1;
        memcpy(&(*t)[0], &count, 8);
      }
      break;
    }
    default: {  // arbitrary bytes
      t->resize(s.size(0, 80));
      for (char& c : *t) c = static_cast<char>(s.draw(3) ? s.draw(4) : s.draw(256));
    }
  }
  return t->size() < orig.size() && orig.compare(0, t->size(), *t) == 0;
}

template <typename T>
void oneType(Source& s, const char* name, bool list) {
  static Init init;
  T value, old, after;
  valid(s, &value);
  valid(s, &old);
  valid(s, &after);
  std::string bytes = encode(value);
  const std::string good = encode(after);
  const bool prefix = corrupt(s, &bytes, headers(value));
  const bool same = bytes == encode(value);
  const int form = s.i(0, 3);
  s << name << (form & 1 ? " string" : " buffer") << (form & 2 ? " (channel)" : "") << " of " << bytes.size() << " bytes:";
  if (s.describing) {
    static const char kHex[] = "0123456789abcdef";
    std::string h;
    for (unsigned char c : bytes.substr(0, 48)) {
      h += kHex[c >> 4];
      h += kHex[c & 15];
    }
    s << " " << h << (prefix ? " (truncated)" : "");
  }
  s.nontrivial(!same);
  s.label(name);
  s.label(prefix ? "truncation" : "corruption");
  g_msg[0] = 0;
  const pbt::Fate fate = pbt::fateOf([&]() {
    auto bad = [](const std::string& m) {
      snprintf(g_msg, 4096, "%s", m.c_str());
      _exit(42);
    };
    char* p = static_cast<char*>(malloc(bytes.size() ? bytes.size() : 1));
    memcpy(p, bytes.data(), bytes.size());
    if (bytes.empty()) __asan_poison_memory_region(p, 1);
    aslam::channels::Channel<T> target;
    target.value_ = old;
    bool ok = false;
    g_bound = 4 * bytes.size() + (1 << 17);  // glog needs a message buffer of 30 kB
    try {
      if (form == 0) ok = aslam::internal::deSerializeFromBuffer(p, bytes.size(), &target.value_);
      if (form == 2) ok = target.deSerializeFromBuffer(p, bytes.size());
      if (form == 1) ok = aslam::internal::deSerializeFromString(bytes, &target.value_);
      if (form == 3) ok = target.deSerializeFromString(bytes);
    } catch (const std::exception&) {
      ok = false;
    }
    g_bound = 0;
    if (ok) {
      if (prefix) bad("a truncated encoding was accepted");
      std::string again = encode(target.value_);
      if (again.size() > bytes.size() || bytes.compare(0, again.size(), again) != 0) {
        bad("accepted, but the value is not what the bytes say: its encoding has " + std::to_string(again.size()) +
            " bytes");
      }
      if (!list && again.size() != bytes.size()) bad("surplus bytes behind the value were accepted");
    } else {
      if (same) bad("a valid encoding was refused");
    }
    // The target stays usable.
    char* q = static_cast<char*>(malloc(good.size()));
    memcpy(q, good.data(), good.size());
    if (!target.deSerializeFromBuffer(q, good.size()) || encode(target.value_) != good) {
      bad("a valid encoding does not decode after the refusal");
    }
    free(q);
    free(p);
  });
  s.label(pbt::fateName(fate));
  PBT_CHECK(fate == pbt::Fate::kReturned || fate == pbt::Fate::kAborted,
            pbt::fateName(fate) << (g_msg[0] ? ": " : "") << g_msg);
  if (same) PBT_CHECK(fate == pbt::Fate::kReturned, "a valid encoding was refused");
}

}  // namespace

PBT_PROP(matrix_bytes, "bytes are not a valid encoding of the value they came from", 6000, 60000) {
  switch (s.i(0, 6)) {
    case 0: oneType<Eigen::MatrixXd>(s, "MatrixXd", false); break;
    case 1: oneType<Eigen::Matrix2Xd>(s, "Matrix2Xd", false); break;
    case 2: oneType<Eigen::VectorXi>(s, "VectorXi", false); break;
    case 3: oneType<Eigen::Matrix<unsigned char, Eigen::Dynamic, Eigen::Dynamic>>(s, "uchar matrix", false); break;
    case 4: oneType<Eigen::Matrix<float, 1, Eigen::Dynamic>>(s, "float row vector", false); break;
    case 5: oneType<Eigen::Matrix<short, Eigen::Dynamic, 3>>(s, "short matrix of 3 columns", false); break;
    default: oneType<Eigen::Matrix3d>(s, "Matrix3d", false); break;
  }
}
PBT_PROP(list_bytes, "bytes are not a valid encoding of the value they came from", 6000, 60000) {
  switch (s.i(0, 4)) {
    case 0:
      oneType<std::vector<Eigen::Matrix<unsigned char, Eigen::Dynamic, Eigen::Dynamic>>>(s, "list of uchar matrices", true);
      break;
    case 1: oneType<std::vector<Eigen::MatrixXd>>(s, "list of MatrixXd", true); break;
    case 2: oneType<std::vector<Eigen::Matrix<int, 3, Eigen::Dynamic>>>(s, "list of Matrix3Xi", true); break;
    case 3: oneType<std::vector<Eigen::Matrix<short, Eigen::Dynamic, 3>>>(s, "list of short matrices of 3 columns", true); break;
    default: oneType<std::vector<Eigen::Matrix<float, 2, 2>>>(s, "list of Matrix2f", true); break;
  }
}
PBT_PROP(image_bytes, "bytes are not a valid encoding of the value they came from", 6000, 60000) {
  oneType<cv::Mat>(s, "image", false);
}
PBT_PROP(scalar_bytes, "buffer of another length than the type", 1500, 15000) {
  static Init init;
  const std::string bytes = payload(s, s.i(0, 20));
  const bool dbl = s.boolean();
  s << (dbl ? "double" : "int") << " from " << bytes.size() << " bytes";
  s.nontrivial(bytes.size() != (dbl ? 8u : 4u));
  g_msg[0] = 0;
  const pbt::Fate fate = pbt::fateOf([&]() {
    char* p = static_cast<char*>(malloc(bytes.size() ? bytes.size() : 1));
    memcpy(p, bytes.data(), bytes.size());
    if (bytes.empty()) __asan_poison_memory_region(p, 1);
    double d = 0;
    int i = 0;
    const bool ok = dbl ? aslam::internal::deSerializeFromBuffer(p, bytes.size(), &d)
                        : aslam::internal::deSerializeFromBuffer(p, bytes.size(), &i);
    const size_t n = dbl ? 8 : 4;
    if (ok && (bytes.size() < n || memcmp(dbl ? (void*)&d : (void*)&i, bytes.data(), n) != 0)) _exit(42);
    if (!ok && bytes.size() == n) _exit(43);
  });
  PBT_CHECK(fate != pbt::Fate::kCrashed && fate != pbt::Fate::kHung, pbt::fateName(fate));
  if (bytes.size() == (dbl ? 8u : 4u)) PBT_CHECK(fate == pbt::Fate::kReturned, "valid bytes refused");
}
PBT_PROP(scalar_text, "text that is not a number", 3000, 30000) {
  static Init init;
  std::string t;
  const int n = s.size(0, 30);
  static const char kAlpha[] = "0123456789+-.eExXnaif \t\n\0z";
  for (int k = 0; k < n; ++k) t += kAlpha[s.draw(sizeof(kAlpha) - 1)];
  const int kind = s.i(0, 3);
  s << "kind " << kind << " text '" << t << "'";
  bool number = !t.empty();
  for (char c : t) number = number && c >= '0' && c <= '9';
  s.nontrivial(!number);
  s.label(number ? "number" : "other");
  const pbt::Fate fate = pbt::fateOf([&]() {
    bool ok = false;
    try {
      double d;
      float f;
      int i;
      uint64_t u;
      if (kind == 0) ok = aslam::internal::deSerializeFromString(t, &d);
      if (kind == 1) ok = aslam::internal::deSerializeFromString(t, &f);
      if (kind == 2) ok = aslam::internal::deSerializeFromString(t, &i);
      if (kind == 3) ok = aslam::internal::deSerializeFromString(t, &u);
      if (ok && t.find_first_of("0123456789nif") == std::string::npos) _exit(44);  // a number out of nothing
    } catch (const std::exception&) {
    }
  });
  PBT_CHECK(fate == pbt::Fate::kReturned || fate == pbt::Fate::kAborted, pbt::fateName(fate));
  if (number && n < 9) PBT_CHECK(fate == pbt::Fate::kReturned, "a number was refused");
}
