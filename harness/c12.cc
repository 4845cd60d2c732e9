// C12: YAML forms of matrices, scalars and maps.
#include <stdlib.h>
#include <unistd.h>

#include <cmath>
#include <fstream>
#include <map>
#include <sstream>
#include <string>
#include <vector>

#include <aslam/common/yaml-file-serialization.h>
#include <aslam/common/yaml-serialization.h>

#include "asan_iface.h"
#include "pbt.h"

const char* pbt::kProperty = "C12";
using pbt::Source;
using Eigen::Dynamic;

namespace {
bool g_watch = false;
size_t g_largest = 0;
void onMalloc(const volatile void*, size_t n) {
  if (g_watch && n > g_largest) g_largest = n;
}
void onFree(const volatile void*) {}
struct Watch {
  Watch() {
    static bool installed = false;
    if (!installed) {
      __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);
      installed = true;
    }
    g_largest = 0;
    g_watch = true;
  }
  ~Watch() { g_watch = false; }
};

struct TempFile {
  TempFile() {
    char buf[] = "/tmp/verif_c12_XXXXXX";
    const int fd = mkstemp(buf);
    if (fd >= 0) close(fd);
    name = buf;
  }
  ~TempFile() { unlink(name.c_str()); }
  std::string name;
};

template <typename T>
T value(Source& s);
template <>
double value<double>(Source& s) {
  switch (s.draw(4)) {
    case 0: return static_cast<double>(s.range(-20, 20));
    case 1: return s.sreal(10.0);
    case 2: return s.oneOf<double>({0.1, 1.0 / 3, -0.0, 1e22, 123456789012345680.0, 5e-300, 1.7976931348623157e308, 2.2250738585072014e-308,
                                    M_PI, 0.30000000000000004, 9007199254740993.0, 1e-5, 100000000.0, 1e15, 1e16, 1e17});
    default: {
      const double d = s.finiteDouble();
      // denormals are out of range for the text parser of yaml-cpp / libstdc++
      return d != 0 && std::fabs(d) < std::numeric_limits<double>::min() ? 0.25 : d;
    }
  }
}
template <>
float value<float>(Source& s) {
  switch (s.draw(3)) {
    case 0: return static_cast<float>(s.range(-20, 20));
    case 1: return static_cast<float>(s.sreal(10.0));
    default: {
      const uint32_t b = static_cast<uint32_t>(s.bits());
      float f;
      std::memcpy(&f, &b, 4);
      return std::isnormal(f) ? f : 0.1f;
    }
  }
}
template <>
int value<int>(Source& s) {
  return s.chance(1, 3) ? s.oneOf<int>({0, -1, 2147483647, -2147483647 - 1, 1000000}) : static_cast<int>(static_cast<int32_t>(s.anyInt64()));
}
template <>
long value<long>(Source& s) { return s.anyInt64(); }
template <>
unsigned value<unsigned>(Source& s) { return static_cast<unsigned>(s.anyInt64()); }
template <>
signed char value<signed char>(Source& s) { return static_cast<signed char>(s.range(-128, 127)); }
template <>
unsigned char value<unsigned char>(Source& s) { return static_cast<unsigned char>(s.range(0, 255)); }
template <>
short value<short>(Source& s) { return static_cast<short>(s.range(-32768, 32767)); }
template <>
unsigned long value<unsigned long>(Source& s) { return static_cast<unsigned long>(s.anyInt64()); }
template <>
bool value<bool>(Source& s) { return s.boolean(); }

template <typename A, typename B>
bool identical(const A& a, const B& b) {
  if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
  if (a.size() == 0) return true;
  for (Eigen::Index i = 0; i < a.rows(); ++i)
    for (Eigen::Index j = 0; j < a.cols(); ++j) {
      const typename A::Scalar x = a(i, j), y = b(i, j);
      if (std::memcmp(&x, &y, sizeof x) != 0) return false;
    }
  return true;
}

template <typename M>
void roundTrip(Source& s, const char* name) {
  typedef typename M::Scalar T;
  const int rows = M::RowsAtCompileTime == Dynamic ? s.size(1, 30) : static_cast<int>(M::RowsAtCompileTime);
  const int cols = M::ColsAtCompileTime == Dynamic ? s.size(1, 20) : static_cast<int>(M::ColsAtCompileTime);
  M m(rows, cols);
  for (int i = 0; i < rows; ++i)
    for (int j = 0; j < cols; ++j) m(i, j) = value<T>(s);
  const M original = m;
  s << name << " " << rows << "x" << cols;
  s.nontrivial(rows * cols > 1);
  YAML::Node node;
  node = m;
  PBT_CHECK(identical(m, original), "source modified");
  const std::string text = YAML::Dump(node);
  PBT_CHECK(identical(node.as<M>(), m), "node does not hold the matrix: " << text);
  const YAML::Node parsed = YAML::Load(text);
  PBT_CHECK(identical(parsed.as<M>(), m), "text differs: " << text);
  // dynamic reader of the same scalar
  typedef Eigen::Matrix<T, Dynamic, Dynamic> X;
  PBT_CHECK(identical(parsed.as<X>(), m), "read as a dynamic matrix: " << text);
  // inside a map, next to other entries, overwriting an old value
  YAML::Node map;
  map["before"] = 3;
  map["m"] = m;
  map["after"] = "text";
  const YAML::Node map2 = YAML::Load(YAML::Dump(map));
  M got(rows, cols);
  got.setZero();
  PBT_CHECK(YAML::safeGet(map2, "m", &got), "safeGet refused");
  PBT_CHECK(identical(got, m), "inside a map");
  // inside a sequence of matrices
  YAML::Node seq;
  seq.push_back(m);
  seq.push_back(m);
  const YAML::Node seq2 = YAML::Load(YAML::Dump(seq));
  PBT_CHECK(identical(seq2[1].as<M>(), m), "inside a sequence");
  // streams and files
  std::stringstream ss;
  PBT_CHECK(YAML::Save(m, &ss), "Save to a stream");
  PBT_CHECK(identical(YAML::Load(ss.str()).template as<M>(), m), "through a stream");
  if (s.chance(1, 10)) {
    TempFile f;
    if (s.boolean()) {
      std::ofstream o(f.name);
      for (int k = 0; k < 3000; ++k) o << "old: content\n";
    }
    PBT_CHECK(YAML::Save(m, f.name), "Save to a file");
    M back(rows, cols);
    back.setZero();
    PBT_CHECK(YAML::Load(f.name, &back), "Load from a file");
    PBT_CHECK(identical(back, m), "through a file");
  }
}
}  // namespace

PBT_PROP(round_trip, "more than one coefficient", 8000, 200000) {
  switch (s.draw(22)) {
    case 16: roundTrip<Eigen::Matrix<unsigned char, Dynamic, Dynamic>>(s, "Matrix uint8"); break;
    case 17: roundTrip<Eigen::Matrix<unsigned char, Dynamic, 1>>(s, "Vector uint8"); break;
    case 18: roundTrip<Eigen::Matrix<signed char, 2, Dynamic>>(s, "Matrix2X int8"); break;
    case 19: roundTrip<Eigen::Matrix<short, Dynamic, Dynamic>>(s, "Matrix int16"); break;
    case 20: roundTrip<Eigen::Matrix<unsigned long, Dynamic, 1>>(s, "Vector uint64"); break;
    case 21: roundTrip<Eigen::Matrix<float, 3, 2, Eigen::RowMajor>>(s, "Matrix32f row major"); break;
    case 0: roundTrip<Eigen::MatrixXd>(s, "MatrixXd"); break;
    case 1: roundTrip<Eigen::VectorXd>(s, "VectorXd"); break;
    case 2: roundTrip<Eigen::RowVectorXd>(s, "RowVectorXd"); break;
    case 3: roundTrip<Eigen::Matrix4d>(s, "Matrix4d"); break;
    case 4: roundTrip<Eigen::Matrix<double, 1, 1>>(s, "Matrix1d"); break;
    case 5: roundTrip<Eigen::Vector3d>(s, "Vector3d"); break;
    case 6: roundTrip<Eigen::Matrix<double, 1, 4>>(s, "RowVector4d"); break;
    case 7: roundTrip<Eigen::Matrix<double, 2, 3, Eigen::RowMajor>>(s, "Matrix23 row major"); break;
    case 8: roundTrip<Eigen::Matrix<double, 3, Dynamic>>(s, "Matrix3Xd"); break;
    case 9: roundTrip<Eigen::Matrix<double, Dynamic, 2>>(s, "MatrixX2d"); break;
    case 10: roundTrip<Eigen::Matrix<double, Dynamic, Dynamic, Eigen::RowMajor>>(s, "MatrixXd row major"); break;
    case 11: roundTrip<Eigen::MatrixXf>(s, "MatrixXf"); break;
    case 12: roundTrip<Eigen::MatrixXi>(s, "MatrixXi"); break;
    case 13: roundTrip<Eigen::Matrix<long, Dynamic, Dynamic>>(s, "Matrix int64"); break;
    case 14: roundTrip<Eigen::Matrix<unsigned, Dynamic, Dynamic>>(s, "Matrix unsigned"); break;
    default: roundTrip<Eigen::Matrix<bool, Dynamic, Dynamic>>(s, "Matrix bool"); break;
  }
}

// Sizes beyond 255 and beyond 65535 coefficients, written as rows and as a linear array.
PBT_PROP(large_matrices, "more than 255 coefficients", 24, 400) {
  const bool huge = s.chance(1, 12), vec = s.chance(1, 3);
  const int rows = huge ? s.i(1, 400) : s.i(1, vec ? 1500 : 300), cols = vec ? 1 : huge ? s.i(150, 400) : s.i(1, s.boolean() ? 300 : 4);
  const uint64_t salt = s.bits();
  const bool linear = s.boolean();
  s << rows << "x" << cols << (linear ? " written as a linear array" : "") << " salt " << salt;
  Eigen::MatrixXd m(rows, cols);
  for (int i = 0; i < rows; ++i)
    for (int j = 0; j < cols; ++j) m(i, j) = static_cast<double>(((i * 1000003ull + j) * 0x9e3779b97f4a7c15ull + salt) >> 40) / 7;
  s.nontrivial(rows * cols > 255);
  s.label(rows * cols > 65535 ? "huge" : rows > 255 || cols > 255 ? "long side" : "other");
  std::string text;
  if (linear) {
    std::ostringstream o;
    o.precision(17);
    o << "rows: " << rows << "\ncols: " << cols << "\ndata: [";
    for (int i = 0; i < rows; ++i)
      for (int j = 0; j < cols; ++j) o << (i + j ? ", " : "") << m(i, j);
    o << "]\n";
    text = o.str();
  } else {
    YAML::Node node;
    node = m;
    text = YAML::Dump(node);
  }
  YAML::Node map;
  map["m"] = YAML::Load(text);
  Eigen::MatrixXd got;
  PBT_CHECK(YAML::safeGet(map, "m", &got), "refused");
  PBT_CHECK(identical(got, m), "differs (" << got.rows() << "x" << got.cols() << ")");
  // a wrong size that agrees in the low bits is still wrong
  YAML::Node bad = YAML::Load(text);
  if (s.boolean()) {
    bad["rows"] = rows + s.oneOf<int>({256, 65536, 1});
  } else {
    bad["cols"] = cols + s.oneOf<int>({256, 65536, 1});
  }
  map["m"] = bad;
  Eigen::MatrixXd keep = Eigen::MatrixXd::Constant(1, 1, 5);
  PBT_CHECK(!YAML::safeGet(map, "m", &keep), "a wrong number of rows or columns is accepted");
}

namespace {
template <typename M>
void integerMatrix(Source& s, const char* name) {
  typedef typename M::Scalar T;
  const long lo = static_cast<long>(std::numeric_limits<T>::min()), hi = static_cast<long>(std::numeric_limits<T>::max());
  const int rows = s.i(1, 4);
  const int cols = M::ColsAtCompileTime == Dynamic ? s.i(1, 3) : static_cast<int>(M::ColsAtCompileTime);
  std::vector<std::string> texts;
  std::vector<long> values;
  bool valid = true;
  for (int k = 0; k < rows * cols; ++k) {
    long v = s.chance(1, 3) ? s.oneOf<long>({lo, hi, 0, 1, 9, 49, 100}) : s.range(lo / 2, hi / 2);
    v = std::min(std::max(v, lo), hi);
    std::string t = std::to_string(v);
    if (s.chance(1, 12)) {
      t = s.oneOf<std::string>({std::to_string(lo - 1), std::to_string(hi + 1), std::to_string(lo - 1000), std::to_string(2 * hi + 2), "1.5", "abc", "12 ", "7x", "", "~", "'"});
      if (t == "12 ") v = 12;
      else if (t == "'") { t = "'13'"; v = 13; }
      else valid = false;
    }
    texts.push_back(t);
    values.push_back(v);
  }
  std::ostringstream doc;
  doc << "rows: " << rows << "\ncols: " << cols << "\ndata:\n";
  if (cols == 1 && s.boolean()) {
    for (auto& t : texts) doc << "  - " << t << "\n";
  } else {
    for (int i = 0; i < rows; ++i) {
      doc << "  - [";
      for (int j = 0; j < cols; ++j) doc << (j ? ", " : "") << (texts[i * cols + j].empty() ? std::string("\"\"") : texts[i * cols + j]);
      doc << "]\n";
    }
  }
  s << name << (valid ? " valid " : " invalid ") << doc.str();
  s.nontrivial(rows * cols > 1);
  s.label(valid ? "valid" : "refused");
  YAML::Node map;
  map["m"] = YAML::Load(doc.str());
  M got(rows, cols);
  got.setZero();
  const bool ok = YAML::safeGet(map, "m", &got);
  PBT_CHECK(ok == valid, (ok ? "accepted " : "refused ") << doc.str());
  if (valid)
    for (int k = 0; k < rows * cols; ++k)
      PBT_CHECK(static_cast<long>(got(k / cols, k % cols)) == values[k], "value " << k << " is " << static_cast<long>(got(k / cols, k % cols)) << " of " << doc.str());
}
}  // namespace

PBT_PROP(integer_types, "more than one coefficient", 6000, 150000) {
  switch (s.draw(6)) {
    case 0: integerMatrix<Eigen::Matrix<signed char, Dynamic, Dynamic>>(s, "int8"); break;
    case 1: integerMatrix<Eigen::Matrix<unsigned char, Dynamic, Dynamic>>(s, "uint8"); break;
    case 2: integerMatrix<Eigen::Matrix<unsigned char, Dynamic, 1>>(s, "uint8 vector"); break;
    case 3: integerMatrix<Eigen::Matrix<short, Dynamic, 2>>(s, "int16"); break;
    case 4: integerMatrix<Eigen::Matrix<unsigned short, Dynamic, Dynamic>>(s, "uint16"); break;
    default: integerMatrix<Eigen::Matrix<int, Dynamic, Dynamic>>(s, "int32");
  }
}

namespace {
// A generated matrix document and what reading it has to give.
struct Doc {
  YAML::Node node;
  std::string text;
  bool valid = true;
  long rows = 0, cols = 0;
  Eigen::MatrixXd want;
};

void breakScalar(Source& s, std::string* v, bool* valid) {
  *v = s.oneOf<const char*>({"abc", "1.5x", "~", "[1, 2]", "{a: 1}", "''", "--3"});
  *valid = false;
}

Doc document(Source& s) {
  Doc d;
  d.rows = s.chance(1, 12) ? 0 : s.i(1, 5);
  d.cols = s.chance(1, 12) ? 0 : s.i(1, 5);
  Eigen::MatrixXd m(d.rows, d.cols);
  for (int i = 0; i < d.rows; ++i)
    for (int j = 0; j < d.cols; ++j) m(i, j) = static_cast<double>(s.i(-9, 9)) / 4;
  d.want = m;
  std::string rows = std::to_string(d.rows), cols = std::to_string(d.cols);
  // data as nested text
  auto num = [](double v) {
    std::ostringstream o;
    o << v;
    return o.str();
  };
  std::vector<std::vector<std::string>> cell(d.rows);
  for (int i = 0; i < d.rows; ++i)
    for (int j = 0; j < d.cols; ++j) cell[i].push_back(num(m(i, j)));
  bool linear = s.boolean();
  bool wrap_single = s.boolean();  // [[1], [2]] instead of [1, 2] for one column
  std::string data_override;
  bool omit_rows = false, omit_cols = false, omit_data = false;
  const int damage = s.i(0, 11);
  switch (damage) {
    case 0: case 1: case 2: break;  // intact
    case 3: {  // wrong rows
      const std::string other = s.oneOf<const char*>({"-1", "0", "1", "2", "7", "1000000", "99999999999", "4611686018427387904", "65536"});
      if (s.chance(1, 4)) breakScalar(s, &rows, &d.valid);
      else rows = other;
      break;
    }
    case 4: {
      const std::string other = s.oneOf<const char*>({"-1", "0", "1", "2", "7", "1000000", "99999999999", "4611686018427387904", "65536"});
      if (s.chance(1, 4)) breakScalar(s, &cols, &d.valid);
      else cols = other;
      break;
    }
    case 5: {  // both
      rows = s.oneOf<const char*>({"65536", "-1", "3", "2147483648", "-65536", "1000000"});
      cols = s.oneOf<const char*>({"65536", "-1", "3", "2147483648", "-65536", "1000000"});
      break;
    }
    case 6: {  // a row too short or too long, or one row more or less
      if (cell.empty()) { cell.emplace_back(1, "1"); break; }
      const int i = s.i(0, static_cast<int>(cell.size()) - 1);
      switch (s.draw(4)) {
        case 0: cell[i].push_back("5"); break;
        case 1: if (!cell[i].empty()) cell[i].pop_back(); break;
        case 2: cell.push_back(cell[i]); break;
        default: cell.pop_back();
      }
      break;
    }
    case 7: {  // ill-typed element
      if (d.rows == 0 || d.cols == 0) break;
      breakScalar(s, &cell[s.i(0, d.rows - 1)][s.i(0, d.cols - 1)], &d.valid);
      break;
    }
    case 8: omit_rows = s.boolean(); omit_cols = !omit_rows; d.valid = false; break;
    case 9: omit_data = true; d.valid = false; break;
    case 10: data_override = s.oneOf<const char*>({"5", "~", "{a: 1}", "text"}); d.valid = false; break;
    default: {  // rows of very different lengths with the right total
      if (d.rows >= 2 && d.cols >= 2) {
        cell[0].push_back(cell[1].back());
        cell[1].pop_back();
      }
    }
  }
  std::ostringstream data;
  if (!data_override.empty()) data << data_override;
  else {
    data << "[";
    bool first = true;
    for (auto& r : cell) {
      if (linear) {
        for (auto& c : r) {
          data << (first ? "" : ", ") << c;
          first = false;
        }
      } else {
        data << (first ? "" : ", ");
        first = false;
        if (r.size() == 1 && !wrap_single) data << r[0];
        else {
          data << "[";
          for (size_t j = 0; j < r.size(); ++j) data << (j ? ", " : "") << r[j];
          data << "]";
        }
      }
    }
    data << "]";
  }
  // Is what was written a valid matrix?
  long r = 0, c = 0;
  auto integer = [](const std::string& t, long* v) {
    char* end;
    errno = 0;
    *v = strtol(t.c_str(), &end, 10);
    return !t.empty() && *end == 0 && errno == 0;
  };
  if (!integer(rows, &r) || !integer(cols, &c)) d.valid = false;
  if (d.valid) {
    std::vector<std::string> flat;
    for (auto& q : cell) flat.insert(flat.end(), q.begin(), q.end());
    bool ok = r >= 0 && c >= 0;
    if (ok && (r == 0 || c == 0)) {
      // an empty matrix: no data, or (for rows without columns) empty rows
      ok = linear ? flat.empty()
                  : cell.empty() || (c == 0 && static_cast<long>(cell.size()) == r && flat.empty());
    } else if (ok) {
      const bool total = r <= static_cast<long>(flat.size()) && static_cast<long>(flat.size()) % r == 0 && static_cast<long>(flat.size()) / r == c;
      if (linear) ok = total;
      else {
        bool rect = static_cast<long>(cell.size()) == r;
        for (auto& q : cell) rect = rect && static_cast<long>(q.size()) == c;
        // a list of single values is a linear array, whatever its shape
        bool singles = true;
        for (auto& q : cell) singles = singles && q.size() == 1;
        ok = rect || (singles && total);
      }
    }
    d.valid = ok;
    if (ok) {
      d.rows = r;
      d.cols = c;
      d.want.resize(r, c);
      for (long i = 0; i < r * c; ++i) d.want(i / c, i % c) = std::stod(flat[i]);
    }
  }
  std::ostringstream t;
  t << "{";
  if (!omit_rows) t << "rows: " << rows << ", ";
  if (!omit_cols) t << "cols: " << cols << ", ";
  if (!omit_data) t << "data: " << data.str() << ", ";
  t << "extra: 1}";
  d.text = t.str();
  d.node = YAML::Load(d.text);
  return d;
}

template <typename M>
void readDocument(Source& s, const Doc& d) {
  const bool fits = d.valid && (M::RowsAtCompileTime == Dynamic || M::RowsAtCompileTime == d.rows) &&
                    (M::ColsAtCompileTime == Dynamic || M::ColsAtCompileTime == d.cols);
  const int r0 = M::RowsAtCompileTime == Dynamic ? 2 : static_cast<int>(M::RowsAtCompileTime);
  const int c0 = M::ColsAtCompileTime == Dynamic ? 2 : static_cast<int>(M::ColsAtCompileTime);
  M old(r0, c0);
  for (int i = 0; i < r0; ++i)
    for (int j = 0; j < c0; ++j) old(i, j) = 77.5 + i - 3 * j;
  YAML::Node map;
  map["m"] = d.node;
  M got = old;
  bool ok;
  {
    Watch w;
    ok = YAML::safeGet(map, "m", &got);
  }
  PBT_CHECK(g_largest < (1u << 20), "allocated " << g_largest << " bytes for " << d.text);
  PBT_EQ(ok, fits, "safeGet of " << d.text << " into " << static_cast<int>(M::RowsAtCompileTime) << "x" << static_cast<int>(M::ColsAtCompileTime));
  PBT_CHECK(fits ? identical(got, d.want) : identical(got, old), "value after reading " << d.text);
  bool threw = false;
  try {
    const M v = d.node.template as<M>();
    PBT_CHECK(fits && identical(v, d.want), "as<> of " << d.text);
  } catch (const YAML::Exception&) {
    threw = true;
  }
  PBT_EQ(threw, !fits, "as<> of " << d.text);
  if (s.chance(1, 20)) {
    TempFile f;
    {
      std::ofstream o(f.name);
      o << d.text;
    }
    M from_file = old;
    PBT_EQ(YAML::Load(f.name, &from_file), fits, "Load of " << d.text);
    PBT_CHECK(fits ? identical(from_file, d.want) : identical(from_file, old), "value after loading " << d.text);
  }
}
}  // namespace

PBT_PROP(documents, "the document is damaged or the target has another shape", 25000, 600000) {
  const Doc d = document(s);
  s << d.text;
  s.nontrivial(!d.valid);
  switch (s.draw(7)) {
    case 0: case 1: readDocument<Eigen::MatrixXd>(s, d); break;
    case 2: readDocument<Eigen::VectorXd>(s, d); break;
    case 3: readDocument<Eigen::Matrix<double, 1, Dynamic>>(s, d); break;
    case 4: readDocument<Eigen::Matrix2d>(s, d); break;
    case 5: readDocument<Eigen::Vector3d>(s, d); break;
    default: readDocument<Eigen::Matrix<double, 2, Dynamic>>(s, d); break;
  }
}

PBT_PROP(lookups, "at least three entries", 20000, 300000) {
  enum Kind { kInt, kDouble, kWord, kBool, kSeq, kMap, kNull };
  struct Entry {
    Kind kind;
    long i;
    double d;
    std::string w;
    std::vector<int> v;
  };
  std::map<std::string, Entry> model;
  YAML::Node node(YAML::NodeType::Map);
  const int n = s.size(0, 8);
  s.nontrivial(n >= 3);
  for (int k = 0; k < n; ++k) {
    const std::string key = s.oneOf<const char*>({"a", "b", "key", "k e y", "Key", "1", "", "a:b", "nested.key"});
    Entry e;
    e.kind = static_cast<Kind>(s.draw(7));
    switch (e.kind) {
      case kInt: e.i = value<int>(s); node[key] = e.i; break;
      case kDouble: e.d = s.i(-8, 8) + 0.37; node[key] = e.d; break;
      case kWord: e.w = s.oneOf<const char*>({"hello", "two words", "x-y", "#hash", "colon: here", "multi\nline"}); node[key] = e.w; break;
      case kBool: e.i = s.boolean(); node[key] = static_cast<bool>(e.i); break;
      case kSeq: {
        YAML::Node q(YAML::NodeType::Sequence);
        const int len = s.i(0, 4);
        for (int j = 0; j < len; ++j) {
          e.v.push_back(value<int>(s));
          q.push_back(e.v.back());
        }
        node[key] = q;
        break;
      }
      case kMap: {
        YAML::Node q;
        q["inner"] = 1;
        node[key] = q;
        break;
      }
      default: node[key] = YAML::Node(YAML::NodeType::Null);
    }
    model[key] = e;
  }
  const std::string text = YAML::Dump(node);
  s << text;
  const YAML::Node doc = s.boolean() ? YAML::Load(text) : node;
  const std::string before = YAML::Dump(doc);
  const int q = s.i(1, 8);
  for (int k = 0; k < q; ++k) {
    const std::string key = s.oneOf<const char*>({"a", "b", "key", "k e y", "Key", "1", "", "a:b", "nested.key", "missing"});
    const auto it = model.find(key);
    const bool present = it != model.end();
    PBT_EQ(YAML::hasKey(doc, key), present, "hasKey(" << key << ")");
    const Kind kind = present ? it->second.kind : kNull;
    switch (s.draw(6)) {
      case 0: {
        int v = 4711;
        const bool ok = YAML::safeGet(doc, key, &v);
        PBT_EQ(ok, present && kind == kInt, "int under " << key);
        PBT_EQ(v, ok ? static_cast<int>(it->second.i) : 4711, "int value");
        break;
      }
      case 1: {
        double v = 4711;
        const bool ok = YAML::safeGet(doc, key, &v);
        PBT_EQ(ok, present && (kind == kInt || kind == kDouble), "double under " << key);
        PBT_EQ(v, !ok ? 4711.0 : kind == kInt ? static_cast<double>(it->second.i) : it->second.d, "double value");
        break;
      }
      case 2: {
        if (present && kind != kWord && kind != kSeq && kind != kMap) break;  // every scalar is a string
        std::string v = "old";
        const bool ok = YAML::safeGet(doc, key, &v);
        PBT_EQ(ok, present && kind == kWord, "string under " << key);
        PBT_EQ(v, ok ? it->second.w : std::string("old"), "string value");
        break;
      }
      case 3: {
        bool v = true;
        const bool ok = YAML::safeGet(doc, key, &v);
        PBT_EQ(ok, present && kind == kBool, "bool under " << key);
        PBT_EQ(v, ok ? it->second.i != 0 : true, "bool value");
        break;
      }
      case 4: {
        std::vector<int> v(3, 7);
        const bool ok = YAML::safeGet(doc, key, &v);
        PBT_EQ(ok, present && kind == kSeq, "list under " << key);
        PBT_CHECK(ok ? v == it->second.v : v == std::vector<int>(3, 7), "list value");
        break;
      }
      default: {
        Eigen::Vector2d v(7, 8);
        PBT_CHECK(!YAML::safeGet(doc, key, &v), "a vector under " << key);
        PBT_CHECK(v == Eigen::Vector2d(7, 8), "vector changed");
      }
    }
  }
  PBT_EQ(YAML::Dump(doc), before, "a lookup changed the document");
  // Not a map at all.
  const YAML::Node other = YAML::Load(s.oneOf<const char*>({"5", "[1, 2]", "~", "text", "[]", "[{a: 1}]"}));
  int v = 4711;
  PBT_CHECK(!YAML::safeGet(other, "a", &v) && v == 4711 && !YAML::hasKey(other, "a"), "lookup in something that is not a map");
}

namespace {
struct Thing : public aslam::YamlFileSerializable {
  Eigen::MatrixXd m;
  std::string name;
  double x = 0;
  void serialize(YAML::Node* n) const override {
    (*n)["m"] = m;
    (*n)["name"] = name;
    (*n)["x"] = x;
  }
  bool deserialize(const YAML::Node& n) override {
    return YAML::safeGet(n, "m", &m) && YAML::safeGet(n, "name", &name) && YAML::safeGet(n, "x", &x);
  }
};
}  // namespace

PBT_PROP(files, "always", 1500, 20000) {
  s.nontrivial();
  Thing t;
  t.m.resize(s.i(1, 6), s.i(1, 6));
  for (int i = 0; i < t.m.size(); ++i) t.m.data()[i] = value<double>(s);
  t.name = s.oneOf<const char*>({"plain", "with: colon", "- dash", "#x", "two\nlines"});
  t.x = value<double>(s);
  s << t.m.rows() << "x" << t.m.cols() << " " << t.name;
  TempFile f;
  if (s.boolean()) {
    std::ofstream o(f.name);
    for (int k = 0; k < 2000; ++k) o << "older: longer content of the file\n";
  }
  t.serializeToFile(f.name);
  Thing u;
  PBT_CHECK(u.deserializeFromFile(f.name), "refused what was written");
  PBT_CHECK(identical(u.m, t.m) && u.name == t.name && std::memcmp(&u.x, &t.x, 8) == 0, "file round trip");
  // Damaged and missing files are refused.
  {
    std::ofstream o(f.name);
    o << s.oneOf<const char*>({"", "{", "m: {rows: 2, cols: 2, data: [1, 2", "[1, 2, 3]", "name: x", "\t- ]", "m: 1\nname: x\nx: 2"});
  }
  Thing w;
  PBT_CHECK(!w.deserializeFromFile(f.name), "accepted a damaged file");
  Eigen::MatrixXd mm = Eigen::MatrixXd::Constant(2, 2, 5.0);
  PBT_CHECK(!YAML::Load(f.name, &mm) && mm == Eigen::MatrixXd::Constant(2, 2, 5.0), "Load accepted a damaged file");
  const std::string missing = f.name + "_missing";
  PBT_CHECK(!w.deserializeFromFile(missing) && !YAML::Load(missing, &mm), "accepted a missing file");
  PBT_CHECK(!YAML::Save(mm, f.name + "_missing/file.yaml"), "Save into a missing directory reported success");
}
