// C07: container helpers agree with their obvious reference definition.
#include <algorithm>
#include <map>
#include <numeric>
#include <random>
#include <set>

#include <aslam/common/memory.h>
#include <aslam/common/stl-helpers.h>

#include "pbt.h"
#include "util.h"

const char* pbt::kProperty = "C07";
using pbt::Source;
namespace c = aslam::common;

namespace {

std::vector<size_t> subset(Source& s, size_t n) {
  // A sorted list of distinct indices below n; empty and full included.
  std::vector<size_t> r;
  switch (s.draw(5)) {
    case 0: break;
    case 1:
      for (size_t i = 0; i < n; ++i) r.push_back(i);
      break;
    case 2:
      if (n > 0) {  // a block
        const size_t a = s.draw(n), b = s.draw(n);
        for (size_t i = std::min(a, b); i <= std::max(a, b); ++i) r.push_back(i);
      }
      break;
    default: {
      const uint64_t den = 1 + s.draw(4);
      for (size_t i = 0; i < n; ++i)
        if (s.chance(1, den + 1)) r.push_back(i);
    }
  }
  return r;
}

template <typename T>
std::string show(const std::vector<T>& v) {
  std::ostringstream o;
  o << "[";
  for (size_t i = 0; i < v.size(); ++i) o << (i ? "," : "") << v[i];
  o << "]";
  return o.str();
}

template <typename T>
std::vector<T> refErase(const std::vector<T>& v, const std::vector<size_t>& idx) {
  std::vector<T> r;
  for (size_t i = 0; i < v.size(); ++i)
    if (std::find(idx.begin(), idx.end(), i) == idx.end()) r.push_back(v[i]);
  return r;
}

struct Tracked {  // detects use of moved-from / destroyed values
  static int alive;
  int v;
  std::string payload;
  explicit Tracked(int x = 0) : v(x), payload(std::to_string(x) + "-payload-long-enough-to-allocate") { ++alive; }
  Tracked(const Tracked& o) : v(o.v), payload(o.payload) { ++alive; }
  Tracked& operator=(const Tracked& o) { v = o.v; payload = o.payload; return *this; }
  ~Tracked() { --alive; }
  bool operator==(const Tracked& o) const { return v == o.v && payload == o.payload; }
};
int Tracked::alive = 0;

}  // namespace

PBT_PROP(erase_vector, "at least one and not all of >= 2 elements erased", 20000, 400000) {
  const int n = s.size(0, 60);
  std::vector<int> data(n);
  for (int& x : data) x = s.i(0, 9);
  std::vector<size_t> idx = subset(s, n);
  const bool shuffled = s.chance(1, 3);
  if (shuffled)
    for (size_t i = idx.size(); i > 1; --i) std::swap(idx[i - 1], idx[s.draw(i)]);
  s << "data=" << show(data) << " erase=" << show(idx);
  s.nontrivial(!idx.empty() && idx.size() < data.size());
  s.label(idx.empty() ? "none" : idx.size() == data.size() ? "all" : "some");
  const std::vector<int> before = data;
  const std::vector<size_t> idx_before = idx;
  const std::vector<int> got = c::eraseIndicesFromVector(data, idx);
  PBT_CHECK(got == refErase(before, idx), "got " << show(got));
  PBT_CHECK(data == before && idx == idx_before, "inputs changed");
  // Same through the container front end (vector overload), in place.
  std::vector<size_t> sorted = idx;
  std::sort(sorted.begin(), sorted.end());
  std::vector<int> inplace = data;
  c::stl_helpers::eraseIndicesFromContainer(sorted, inplace.size(), &inplace);
  PBT_CHECK(inplace == got, "container overload gave " << show(inplace));
}

PBT_PROP(erase_vector_objects, "at least one and not all erased", 4000, 60000) {
  const int base_alive = Tracked::alive;
  {
    const int n = s.size(0, 40);
    std::vector<Tracked> data;
    for (int i = 0; i < n; ++i) data.push_back(Tracked(s.i(0, 5)));
    std::vector<size_t> idx = subset(s, n);
    s.nontrivial(!idx.empty() && idx.size() < data.size());
    s << "n=" << n << " erase=" << show(idx);
    const std::vector<Tracked> got = c::eraseIndicesFromVector(data, idx);
    PBT_CHECK(got == refErase(data, idx), "objects differ");
    Aligned<std::vector, Eigen::Vector4d> al;
    for (int i = 0; i < n; ++i) al.push_back(Eigen::Vector4d::Constant(data[i].v + 0.5 * i));
    const Aligned<std::vector, Eigen::Vector4d> got2 = c::eraseIndicesFromVector(al, idx);
    size_t k = 0;
    for (int i = 0; i < n; ++i) {
      if (std::find(idx.begin(), idx.end(), size_t(i)) != idx.end()) continue;
      PBT_CHECK(k < got2.size() && got2[k] == al[i], "aligned element " << i);
      ++k;
    }
    PBT_EQ(k, got2.size(), "aligned size");
  }
  PBT_EQ(Tracked::alive, base_alive, "element lifetimes unbalanced");
}

namespace {
template <typename Mat>
void eraseCols(Source& s, const Mat& m, const std::vector<size_t>& idx) {
  Mat got = m;
  c::stl_helpers::eraseIndicesFromContainer(idx, m.cols(), &got);
  PBT_EQ(size_t(got.cols()), size_t(m.cols()) - idx.size(), "columns");
  PBT_EQ(got.rows(), m.rows(), "rows");
  int k = 0;
  for (int j = 0; j < m.cols(); ++j) {
    if (std::binary_search(idx.begin(), idx.end(), size_t(j))) continue;
    PBT_CHECK(got.col(k) == m.col(j), "column " << j << " moved wrongly");
    ++k;
  }
}
template <typename Mat>
void eraseRows(Source& s, const Mat& m, const std::vector<size_t>& idx) {
  Mat got = m;
  c::stl_helpers::eraseIndicesFromContainer(idx, m.rows(), &got);
  PBT_EQ(size_t(got.rows()), size_t(m.rows()) - idx.size(), "rows");
  PBT_EQ(got.cols(), m.cols(), "cols");
  int k = 0;
  for (int j = 0; j < m.rows(); ++j) {
    if (std::binary_search(idx.begin(), idx.end(), size_t(j))) continue;
    PBT_CHECK(got.row(k) == m.row(j), "row " << j << " moved wrongly");
    ++k;
  }
}
}  // namespace

PBT_PROP(erase_matrix, "at least one and not all columns/rows erased", 20000, 400000) {
  const int n = s.size(0, 40);
  const int other = s.i(0, 5);
  const int kind = s.i(0, 6);
  const std::vector<size_t> idx = subset(s, n);
  s << "kind=" << kind << " n=" << n << " other=" << other << " erase=" << show(idx);
  s.label("kind" + std::to_string(kind));
  s.label(idx.empty() ? "none" : idx.size() == size_t(n) ? "all" : "some");
  s.nontrivial(!idx.empty() && idx.size() < size_t(n));
  double val = 1;
  auto fill = [&](auto& m) {
    for (int j = 0; j < m.cols(); ++j)
      for (int i = 0; i < m.rows(); ++i) m(i, j) = static_cast<typename std::decay<decltype(m(0, 0))>::type>(val++);
  };
  switch (kind) {
    case 0: { Eigen::Matrix<double, 2, Eigen::Dynamic> m(2, n); fill(m); eraseCols(s, m, idx); break; }
    case 1: { Eigen::Matrix<int, 1, Eigen::Dynamic> m(1, n); fill(m); eraseCols(s, m, idx); break; }
    case 2: { Eigen::VectorXi m(n); fill(m); eraseRows(s, m, idx); break; }
    case 3: { Eigen::Matrix<double, Eigen::Dynamic, 3> m(n, 3); fill(m); eraseRows(s, m, idx); break; }
    case 4: { Eigen::Matrix<float, 3, Eigen::Dynamic> m(3, n); fill(m); eraseCols(s, m, idx); break; }
    case 5: {
      Eigen::Matrix<unsigned char, Eigen::Dynamic, Eigen::Dynamic> m(other, n), orig;
      fill(m);
      orig = m;
      c::stl_helpers::OneDimensionAdapter<unsigned char, c::stl_helpers::kColumns> a(&m);
      c::stl_helpers::eraseIndicesFromContainer(idx, size_t(n), &a);
      PBT_EQ(size_t(m.cols()), size_t(n) - idx.size(), "columns");
      PBT_EQ(m.rows(), other, "rows");
      int k = 0;
      for (int j = 0; j < n; ++j) {
        if (std::binary_search(idx.begin(), idx.end(), size_t(j))) continue;
        PBT_CHECK(m.col(k) == orig.col(j), "adapter column " << j);
        ++k;
      }
      break;
    }
    default: {
      Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic> m(n, other), orig;
      fill(m);
      orig = m;
      c::stl_helpers::OneDimensionAdapter<double, c::stl_helpers::kRows> a(&m);
      c::stl_helpers::eraseIndicesFromContainer(idx, size_t(n), &a);
      PBT_EQ(size_t(m.rows()), size_t(n) - idx.size(), "rows");
      PBT_EQ(m.cols(), other, "cols");
      int k = 0;
      for (int j = 0; j < n; ++j) {
        if (std::binary_search(idx.begin(), idx.end(), size_t(j))) continue;
        PBT_CHECK(m.row(k) == orig.row(j), "adapter row " << j);
        ++k;
      }
    }
  }
}

PBT_PROP(erase_refuses_bad_indices, "an index is out of range, or unordered for a matrix", 250, 3000) {
  const int n = s.i(0, 6);
  std::vector<size_t> idx = subset(s, n);
  idx.push_back(n + s.draw(3));
  s << "n=" << n << " erase=" << show(idx);
  s.nontrivial();
  const int kind = s.i(0, 1);
  const pbt::Fate f = pbt::fateOf([&]() {
    if (kind == 0) {
      std::vector<int> v(n, 1);
      c::eraseIndicesFromVector(v, idx);
    } else {
      Eigen::VectorXi v = Eigen::VectorXi::Ones(n);
      c::stl_helpers::eraseIndicesFromContainer(idx, size_t(n), &v);
    }
  });
  PBT_CHECK(f == pbt::Fate::kAborted, "out of range index was not refused: " << pbt::fateName(f));
}

PBT_PROP(keep_n, "some elements kept and some removed", 20000, 400000) {
  const int n = s.size(0, 60);
  struct E { int key; int id; };
  std::vector<E> v;
  for (int i = 0; i < n; ++i) v.push_back(E{s.i(0, 20), i});
  const size_t keep = s.draw(n + 3);
  const bool greater = s.boolean();
  s << "n=" << n << " keep=" << keep << " greater=" << greater << " keys=";
  for (const E& e : v) s << e.key << " ";
  s.nontrivial(keep > 0 && keep < size_t(n));
  std::vector<E> orig = v;
  std::vector<int> removed;
  auto cmp = [greater](const E& a, const E& b) { return greater ? a.key > b.key : a.key < b.key; };
  auto action = [&removed](const E& e) { removed.push_back(e.id); };
  const size_t r = c::keepOnlyNSortedElements(keep, cmp, &v, action);
  const size_t want = std::min<size_t>(keep, n);
  PBT_EQ(r, want, "returned count");
  PBT_EQ(v.size(), want, "container size");
  std::set<int> kept_ids, rem_ids(removed.begin(), removed.end());
  for (const E& e : v) {
    PBT_CHECK(orig[e.id].key == e.key, "element altered");
    kept_ids.insert(e.id);
  }
  PBT_EQ(kept_ids.size(), v.size(), "an element was duplicated");
  PBT_EQ(rem_ids.size(), removed.size(), "action run twice on an element");
  PBT_EQ(rem_ids.size() + kept_ids.size(), size_t(n), "elements lost");
  for (int id : rem_ids) PBT_CHECK(!kept_ids.count(id), "element both kept and removed");
  // Multiset of kept keys is the top of the full order.
  std::vector<int> keys, all;
  for (const E& e : v) keys.push_back(e.key);
  for (const E& e : orig) all.push_back(e.key);
  std::sort(all.begin(), all.end());
  if (greater) std::reverse(all.begin(), all.end());
  all.resize(want);
  std::vector<int> sk = keys;
  std::sort(sk.begin(), sk.end());
  if (greater) std::reverse(sk.begin(), sk.end());
  PBT_CHECK(sk == all, "kept " << show(keys) << " expected " << show(all));
  // Default action overload.
  std::vector<E> v2 = orig;
  c::keepOnlyNSortedElements(keep, cmp, &v2);
  PBT_EQ(v2.size(), want, "default action overload");
}

PBT_PROP(draw_n, "fewer drawn than available, more than one", 8000, 100000) {
  const int n = s.size(0, 60);
  std::vector<int> in(n);
  for (int i = 0; i < n; ++i) in[i] = i * 3 + 1;
  const size_t k = 1 + s.draw(n + 2);
  s << "n=" << n << " k=" << k;
  s.nontrivial(k < size_t(n) && k > 1);
  const std::vector<int> before = in;
  for (int mode = 0; mode < 3; ++mode) {
    std::vector<int> out(s.i(0, 3), -7), out2;
    if (mode == 2) c::drawNRandomElements(k, in, &out);
    else c::drawNRandomElements(k, in, &out, mode == 1);
    PBT_CHECK(in == before, "input changed");
    PBT_EQ(out.size(), std::min<size_t>(k, n), "number drawn");
    std::set<int> u(out.begin(), out.end());
    PBT_EQ(u.size(), out.size(), "repetition");
    for (int x : out) PBT_CHECK((x - 1) % 3 == 0 && x >= 1 && (x - 1) / 3 < n, "element " << x << " not from input");
    if (mode == 1) {
      c::drawNRandomElements(k, in, &out2, true);
      PBT_CHECK(out == out2, "fixed seed not reproducible");
    }
    if (k >= size_t(n)) PBT_CHECK(out == in, "all elements requested: input order expected");
  }
}

PBT_PROP(draw_n_every_element_reachable, "n elements, 1 drawn", 60, 600) {
  // Every element can be drawn: 60 n draws miss a given element with
  // probability < e^-60.
  const int n = s.i(2, 12);
  std::vector<int> in(n);
  std::iota(in.begin(), in.end(), 0);
  s << "n=" << n;
  s.nontrivial();
  const size_t k = 1 + s.draw(n - 1);
  std::set<int> seen;
  for (int t = 0; t < 60 * n; ++t) {
    std::vector<int> out;
    c::drawNRandomElements(k, in, &out);
    seen.insert(out.begin(), out.end());
  }
  PBT_EQ(seen.size(), size_t(n), "some element is never drawn");
}

PBT_PROP(statistics, "at least two distinct values", 30000, 500000) {
  const int n = s.size(1, 50);
  std::vector<double> v(n);
  const int mode = s.i(0, 3);
  for (double& x : v) {
    x = mode == 0 ? s.i(-5, 5) : mode == 1 ? s.sreal(1e3) : mode == 2 ? s.sreal(1e-6) : 1e6 + s.sreal(1.0);
  }
  s << "v=" << show(v);
  s.nontrivial(std::set<double>(v.begin(), v.end()).size() > 1);
  const std::vector<double> orig = v;
  double scale = 0;
  long double sum = 0;
  for (double x : v) { sum += x; scale = std::max(scale, std::fabs(x)); }
  const double mu = static_cast<double>(sum / n);
  PBT_CHECK(std::fabs(c::mean(v.begin(), v.end()) - mu) <= 1e-13 * (scale + 1e-300) * n, "mean");
  PBT_CHECK(v == orig, "mean changed the input");
  long double ss = 0;
  for (double x : v) ss += (static_cast<long double>(x) - sum / n) * (static_cast<long double>(x) - sum / n);
  const double sd = static_cast<double>(std::sqrt(static_cast<double>(ss / n)));
  PBT_CHECK(std::fabs(c::stddev(v.begin(), v.end()) - sd) <= 1e-12 * sd + 1e-13 * scale * n + 1e-300,
            "stddev " << c::stddev(v.begin(), v.end()) << " want " << sd);
  PBT_CHECK(v == orig, "stddev changed the input");
  std::vector<double> sorted = orig;
  std::sort(sorted.begin(), sorted.end());
  const double med = n % 2 ? sorted[n / 2] : (sorted[n / 2] + sorted[n / 2 - 1]) / 2.0;
  const double got = c::median(v.begin(), v.end());
  PBT_CHECK(std::fabs(got - med) <= 1e-15 * scale, "median " << got << " want " << med);
  std::sort(v.begin(), v.end());
  PBT_CHECK(v == sorted, "median lost elements");
  // Integer containers too.
  std::vector<int> iv;
  for (int i = 0; i < n; ++i) iv.push_back(s.i(-100, 100));
  std::vector<int> is = iv;
  std::sort(is.begin(), is.end());
  const double imed = n % 2 ? is[n / 2] : (is[n / 2] + is[n / 2 - 1]) / 2.0;
  long isum = 0;
  for (int x : iv) isum += x;
  PBT_CHECK(std::fabs(c::mean(iv.begin(), iv.end()) - double(isum) / n) < 1e-10, "integer mean");
  double iss = 0;
  for (int x : iv) iss += (x - double(isum) / n) * (x - double(isum) / n);
  PBT_CHECK(std::fabs(c::stddev(iv.begin(), iv.end()) - std::sqrt(iss / n)) < 1e-9, "integer stddev");
  std::vector<int> iv2 = iv;
  PBT_CHECK(c::median(iv2.begin(), iv2.end()) == imed, "integer median");
}

PBT_PROP(nested_count_and_convert, "at least two inner lists of different size", 8000, 80000) {
  const int n = s.size(0, 20);
  std::vector<std::vector<int>> nested(n);
  Aligned<std::vector, Aligned<std::vector, int>> an(n);
  size_t want = 0;
  std::set<size_t> sizes;
  for (int i = 0; i < n; ++i) {
    const int k = s.size(0, 30);
    nested[i].assign(k, 1);
    an[i].assign(k, 1);
    want += k;
    sizes.insert(k);
  }
  s << "outer=" << n << " total=" << want;
  s.nontrivial(sizes.size() > 1);
  PBT_EQ(c::countNumberOfElementsInNestedList(nested), want, "count");
  PBT_EQ(c::countNumberOfElementsInNestedList(an), want, "count (aligned)");
  Eigen::Matrix<double, 3, Eigen::Dynamic> m(3, n);
  for (int j = 0; j < n; ++j) m.col(j) << s.sreal(10), s.sreal(10), j;
  Aligned<std::vector, Eigen::Vector3d> out(s.i(0, 4), Eigen::Vector3d::Ones());
  c::convertEigenToStlVector<3>(m, &out);
  PBT_EQ(out.size(), size_t(n), "converted size");
  for (int j = 0; j < n; ++j) PBT_CHECK(out[j] == m.col(j), "column " << j);
}

// The same definitions on containers whose sizes and indices exceed one and two bytes.
PBT_PROP(large_containers, "more than 255 elements", 400, 8000) {
  const bool huge = s.chance(1, 6);
  const int n = huge ? s.oneOf<int>({65535, 65536, 65537, 70000, 131075}) + s.i(0, 3) : s.oneOf<int>({255, 256, 257, 300, 512, 700, 4096, 33000}) + s.i(-1, 2);
  std::mt19937 rng(static_cast<unsigned>(s.draw(1u << 30)));
  std::vector<size_t> idx;
  switch (s.draw(4)) {
    case 0: {  // a few single elements
      std::set<size_t> u;
      const int k = s.i(1, 6);
      for (int i = 0; i < k; ++i) u.insert(s.chance(1, 3) ? std::min<size_t>(n - 1, s.oneOf<int>({127, 128, 254, 255, 256, 257, 32767, 32768, 65534, 65535, 65536})) : s.draw(n));
      idx.assign(u.begin(), u.end());
      break;
    }
    case 1: {
      const size_t a = s.draw(n), b = s.draw(n);
      for (size_t i = std::min(a, b); i <= std::max(a, b); ++i) idx.push_back(i);
      break;
    }
    case 2: {
      const size_t step = 1 + s.draw(5);
      for (size_t i = s.draw(5); i < size_t(n); i += step) idx.push_back(i);
      break;
    }
    default: {
      const unsigned den = 2 + static_cast<unsigned>(s.draw(400));
      for (int i = 0; i < n; ++i)
        if (rng() % den == 0) idx.push_back(i);
    }
  }
  s << "n=" << n << " erase " << idx.size() << " elements" << (idx.empty() ? "" : ", the first ") << (idx.empty() ? "" : std::to_string(idx[0]));
  s.nontrivial(n > 255);
  s.label(huge ? "more than two bytes" : "more than one byte");
  std::vector<char> erased(n, 0);
  for (size_t i : idx) erased[i] = 1;
  std::vector<int> data(n), want;
  for (int i = 0; i < n; ++i) data[i] = static_cast<int>(rng());
  for (int i = 0; i < n; ++i)
    if (!erased[i]) want.push_back(data[i]);
  PBT_CHECK(c::eraseIndicesFromVector(data, idx) == want, "eraseIndicesFromVector");
  {
    std::vector<int> v = data;
    c::stl_helpers::eraseIndicesFromContainer(idx, size_t(n), &v);
    PBT_CHECK(v == want, "container overload");
  }
  const Eigen::Map<const Eigen::VectorXi> d(data.data(), n), w(want.data(), want.size());
  auto same = [](const auto& a, const auto& b) { return a.rows() == b.rows() && a.cols() == b.cols() && (a.size() == 0 || a == b); };
  switch (s.draw(5)) {
    case 0: {
      Eigen::Matrix<int, 2, Eigen::Dynamic> m(2, n), e(2, want.size());
      m.row(0) = d.transpose(); m.row(1) = -d.transpose();
      e.row(0) = w.transpose(); e.row(1) = -w.transpose();
      c::stl_helpers::eraseIndicesFromContainer(idx, size_t(n), &m);
      PBT_CHECK(same(m, e), "matrix columns");
      break;
    }
    case 1: {
      Eigen::VectorXi m = d, e = w;
      c::stl_helpers::eraseIndicesFromContainer(idx, size_t(n), &m);
      PBT_CHECK(same(m, e), "vector");
      break;
    }
    case 2: {
      Eigen::MatrixXi m(2, n), e(2, want.size());
      m.row(0) = d.transpose(); m.row(1) = -d.transpose();
      e.row(0) = w.transpose(); e.row(1) = -w.transpose();
      c::stl_helpers::OneDimensionAdapter<int, c::stl_helpers::kColumns> a(&m);
      c::stl_helpers::eraseIndicesFromContainer(idx, size_t(n), &a);
      PBT_CHECK(same(m, e), "adapter columns");
      break;
    }
    case 3: {
      Eigen::MatrixXi m(n, 2), e(want.size(), 2);
      m.col(0) = d; m.col(1) = -d;
      e.col(0) = w; e.col(1) = -w;
      c::stl_helpers::OneDimensionAdapter<int, c::stl_helpers::kRows> a(&m);
      c::stl_helpers::eraseIndicesFromContainer(idx, size_t(n), &a);
      PBT_CHECK(same(m, e), "adapter rows");
      break;
    }
    default: {
      Eigen::Matrix<int, Eigen::Dynamic, 2> m(n, 2), e(want.size(), 2);
      m.col(0) = d; m.col(1) = -d;
      e.col(0) = w; e.col(1) = -w;
      c::stl_helpers::eraseIndicesFromContainer(idx, size_t(n), &m);
      PBT_CHECK(same(m, e), "matrix rows");
    }
  }
  // The greatest elements.
  std::vector<int> sorted = data;
  std::sort(sorted.begin(), sorted.end());
  {
    const size_t keep = s.draw(n + 2);
    std::vector<int> v = data, top(sorted.rbegin(), sorted.rbegin() + std::min<size_t>(keep, n));
    size_t removed = 0;
    const size_t r = c::keepOnlyNSortedElements(keep, std::greater<int>(), &v, [&removed](int) { ++removed; });
    PBT_EQ(r, top.size(), "kept elements");
    PBT_EQ(removed, n - top.size(), "removed elements");
    std::sort(v.begin(), v.end(), std::greater<int>());
    PBT_CHECK(v == top, "kept other elements than the " << keep << " greatest");
  }
  // Draws.
  {
    const size_t k = 1 + s.draw(std::min(n, 2000));
    std::vector<int> in(n), out;
    std::iota(in.begin(), in.end(), 0);
    const bool fixed = s.boolean();
    c::drawNRandomElements(k, in, &out, fixed);
    const std::set<int> u(out.begin(), out.end());
    PBT_CHECK(out.size() == std::min<size_t>(k, n) && u.size() == out.size(), "drew " << out.size() << " elements, " << u.size() << " different ones, of " << k);
    PBT_CHECK(*u.begin() >= 0 && *u.rbegin() < n, "an element that is not in the input");
    // 2 k draws of which none hits the upper half: less likely than 2^-40
    if (k >= 40) PBT_CHECK(*u.rbegin() >= n / 2 && *u.begin() < n / 2, "only elements of one half");
  }
  // Statistics, of large integers too: their sum exceeds 32 bits.
  {
    long double sum = 0, ss = 0;
    for (int x : data) sum += x;
    const long double mu = sum / n;
    for (int x : data) ss += (x - mu) * (x - mu);
    const double mean = c::mean(data.begin(), data.end()), dev = c::stddev(data.begin(), data.end());
    PBT_CHECK(std::fabs(mean - static_cast<double>(mu)) < 1e-2, "mean " << mean << " of " << static_cast<double>(mu));
    PBT_CHECK(std::fabs(dev - std::sqrt(static_cast<double>(ss / n))) < 1e-6 * dev, "standard deviation " << dev);
    const double med = n % 2 ? sorted[n / 2] : (static_cast<double>(sorted[n / 2]) + sorted[n / 2 - 1]) / 2.0;
    std::vector<int> v = data;
    PBT_CHECK(c::median(v.begin(), v.end()) == med, "median of integers");
    std::vector<unsigned char> bytes(n);
    for (int i = 0; i < n; ++i) bytes[i] = static_cast<unsigned char>(data[i]);
    double bsum = 0;
    for (unsigned char b : bytes) bsum += b;
    PBT_CHECK(std::fabs(c::mean(bytes.begin(), bytes.end()) - bsum / n) < 1e-9, "mean of bytes");
    std::vector<unsigned char> bs = bytes;
    std::sort(bs.begin(), bs.end());
    PBT_CHECK(c::median(bytes.begin(), bytes.end()) == (n % 2 ? bs[n / 2] : (bs[n / 2] + bs[n / 2 - 1]) / 2.0), "median of bytes");
    std::vector<float> f(data.begin(), data.end());
    std::vector<float> fs = f;
    std::sort(fs.begin(), fs.end());
    PBT_CHECK(c::median(f.begin(), f.end()) == (n % 2 ? fs[n / 2] : (static_cast<double>(fs[n / 2]) + fs[n / 2 - 1]) / 2.0), "median of floats");
    std::vector<unsigned> u(data.begin(), data.end());
    double usum = 0;
    for (unsigned x : u) usum += x;
    PBT_CHECK(std::fabs(c::mean(u.begin(), u.end()) - usum / n) < 1e-2, "mean of unsigned integers");
    double uss = 0;
    for (unsigned x : u) uss += (x - usum / n) * (x - usum / n);
    const double udev = c::stddev(u.begin(), u.end());
    PBT_CHECK(std::fabs(udev - std::sqrt(uss / n)) < 1e-6 * udev, "standard deviation of unsigned integers " << udev);
  }
  // Lists.
  {
    std::vector<std::vector<char>> nested(3);
    nested[1].resize(n);
    nested[2].resize(n / 2);
    PBT_EQ(c::countNumberOfElementsInNestedList(nested), size_t(n) + n / 2, "nested count");
    Eigen::Matrix2Xd m(2, n);
    for (int i = 0; i < n; ++i) m.col(i) << data[i], i;
    Aligned<std::vector, Eigen::Vector2d> out;
    c::convertEigenToStlVector<2>(m, &out);
    PBT_EQ(out.size(), size_t(n), "converted size");
    for (int i = 0; i < n; ++i) PBT_CHECK(out[i] == m.col(i), "converted column " << i);
  }
}
