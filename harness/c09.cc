// C09: binary descriptors.
#include <map>
#include <memory>
#include <random>
#include <new>
#include <set>
#include <string>
#include <vector>

#include <aslam/common/descriptor-utils.h>
#include <aslam/common/feature-descriptor-ref.h>
#include <aslam/common/hamming.h>

#include "pbt.h"
#include "util.h"

const char* pbt::kProperty = "C09";
using pbt::Source;
namespace ac = aslam::common;
namespace du = aslam::common::descriptor_utils;

// Live arrays, so that leaks and double frees inside one case are seen.
static bool g_count = false;
static std::set<void*>* g_live = nullptr;
static int g_bad_frees = 0;
void* operator new[](size_t n) {
  void* p = malloc(n ? n : 1);
  if (p == nullptr) throw std::bad_alloc();
  if (g_count) {
    g_count = false;
    g_live->insert(p);
    g_count = true;
  }
  return p;
}
static void freeArray(void* p) {
  if (p == nullptr) return;
  if (g_count) {
    g_count = false;
    if (g_live->erase(p) == 0) ++g_bad_frees;
    g_count = true;
  }
  free(p);
}
void operator delete[](void* p) noexcept { freeArray(p); }
void operator delete[](void* p, size_t) noexcept { freeArray(p); }

namespace {
typedef std::vector<unsigned char> Bytes;

int anyLength(Source& s, int lo = 1) {
  switch (s.draw(6)) {
    case 0: return std::max(lo, 16 * s.i(1, 4));
    case 1: return s.oneOf<int>({16, 32, 48, 64, 128, 256});
    case 2: return std::max(lo, s.i(lo, 40));
    case 3: return s.oneOf<int>({15, 17, 31, 33, 47, 49, 63, 65, 127, 129});
    case 4: return s.oneOf<int>({480, 496, 512, 528, 544, 992, 1008, 1024, 2048});
    default: return std::max(lo, s.i(lo, 1100));
  }
}
void fillBytes(Source& s, unsigned char* p, int n) {
  switch (s.draw(5)) {
    case 0: std::memset(p, 0, n); break;
    case 1: std::memset(p, 0xff, n); break;
    case 2: {
      std::memset(p, 0, n);
      const int k = s.i(0, 6);
      for (int q = 0; q < k; ++q) {
        const int bit = s.i(0, n * 8 - 1);
        p[bit / 8] ^= 1u << (bit % 8);
      }
      break;
    }
    case 3: {
      const int period = s.i(1, 5);
      unsigned char pat[5];
      for (int q = 0; q < period; ++q) pat[q] = static_cast<unsigned char>(s.draw(256));
      for (int q = 0; q < n; ++q) p[q] = pat[q % period];
      break;
    }
    default: {
      uint64_t st = s.bits();
      for (int q = 0; q < n; ++q) {
        st = st * 6364136223846793005ull + 1442695040888963407ull;
        p[q] = static_cast<unsigned char>(st >> 56);
      }
    }
  }
}
int refDistance(const unsigned char* a, const unsigned char* b, int n) {
  int d = 0;
  for (int k = 0; k < n; ++k) {
    for (int b2 = 0; b2 < 8; ++b2) d += ((a[k] >> b2) & 1) != ((b[k] >> b2) & 1);
  }
  return d;
}
bool refBit(const unsigned char* a, int bit) { return (a[bit / 8] >> (bit % 8)) & 1; }

// Heap block in which [data, data+n) ends exactly at the end of the block (so
// that any read past it is reported) at a chosen misalignment.
struct Exact {
  Exact(int n_, int misalign) : n(n_), off(misalign), raw(static_cast<unsigned char*>(malloc(n_ + misalign))) {}
  ~Exact() { free(raw); }
  unsigned char* data() { return raw + off; }
  int n, off;
  unsigned char* raw;
};
}  // namespace

PBT_PROP(hamming, "length >= 2 bytes and distance neither 0 nor all bits", 400000, 6000000, true) {
  const int n = anyLength(s);
  Exact a(n, s.chance(1, 3) ? s.i(1, 15) : 0), b(n, s.chance(1, 3) ? s.i(1, 15) : 0);
  fillBytes(s, a.data(), n);
  switch (s.draw(3)) {
    case 0: fillBytes(s, b.data(), n); break;
    case 1:
      for (int k = 0; k < n; ++k) b.data()[k] = static_cast<unsigned char>(~a.data()[k]);
      break;
    default: std::memcpy(b.data(), a.data(), n);
  }
  const int flips = s.i(0, 4);
  for (int k = 0; k < flips; ++k) {
    const int bit = s.chance(1, 3) ? n * 8 - 1 - s.i(0, 7) : s.i(0, n * 8 - 1);
    b.data()[bit / 8] ^= 1u << (bit % 8);
  }
  const Bytes a0(a.data(), a.data() + n), b0(b.data(), b.data() + n);
  const int want = refDistance(a.data(), b.data(), n);
  s << "length " << n << " misaligned " << a.off << "," << b.off << " distance " << want;
  s.nontrivial(n >= 2 && want != 0 && want != 8 * n);
  ac::Hamming h;
  PBT_EQ(h(a.data(), b.data(), n), want, "operator()");
  PBT_EQ(ac::Hamming::evaluate(a.data(), b.data(), n), want, "evaluate");
  PBT_EQ(ac::Hamming::evaluate(b.data(), a.data(), n), want, "symmetry");
  PBT_EQ(ac::Hamming::evaluate(a.data(), a.data(), n), 0, "self distance");
  if (n % 16 == 0) {
    PBT_EQ(static_cast<int>(ac::Hamming::PopcntofXORed(a.data(), b.data(), n / 16)), want, "bytes overload");
    if (a.off == 0 && b.off == 0) {
      PBT_EQ(static_cast<int>(ac::Hamming::PopcntofXORed(reinterpret_cast<const __m128i*>(a.data()),
                                                        reinterpret_cast<const __m128i*>(b.data()), n / 16)),
             want, "word overload");
    }
  }
  ac::FeatureDescriptorConstRef ca(a.data(), n), cb(b.data(), n);
  PBT_EQ(static_cast<int>(ac::GetNumBitsDifferent(ca, cb)), want, "GetNumBitsDifferent");
  ac::FeatureDescriptorRef ra(a.data(), n, false), rb(b.data(), n, false);
  PBT_EQ(static_cast<int>(ac::GetNumBitsDifferent(ra, rb)), want, "GetNumBitsDifferent (mutable refs)");
  PBT_EQ(ca == cb, want == 0, "equality");
  PBT_EQ(ra == rb, want == 0, "equality of mutable references");
  PBT_CHECK(Bytes(a.data(), a.data() + n) == a0 && Bytes(b.data(), b.data() + n) == b0, "inputs modified");
  if (s.chance(1, 500)) {
    ac::FeatureDescriptorConstRef shorter(a.data(), n - 1);
    PBT_CHECK(pbt::fateOf([&] { ac::GetNumBitsDifferent(shorter, cb); }) == pbt::Fate::kAborted,
              "different lengths compared");
    PBT_CHECK(!(shorter == cb), "descriptors of different length are equal");
  }
}

PBT_PROP(bits, "at least 3 bit operations", 100000, 600000) {
  const int n = anyLength(s);
  Exact a(n, s.i(0, 3));
  fillBytes(s, a.data(), n);
  std::vector<bool> model(n * 8);
  for (int k = 0; k < n * 8; ++k) model[k] = refBit(a.data(), k);
  du::DescriptorType ed = Eigen::Map<du::DescriptorType>(a.data(), n);
  std::vector<bool> emodel = model;
  ac::FeatureDescriptorRef ref(a.data(), n, false);
  const int ops = s.size(1, 20);
  s.nontrivial(ops >= 3);
  s << "length " << n << " ops " << ops;
  for (int k = 0; k < ops; ++k) {
    const int bit = s.i(0, n * 8 - 1);
    switch (s.draw(5)) {
      case 0: ac::SetBit(bit, &ref); model[bit] = true; break;
      case 1: ac::FlipBit(bit, &ref); model[bit] = !model[bit]; break;
      case 2: PBT_EQ(ac::GetBit(bit, ref.ToConstRef()), static_cast<bool>(model[bit]), "GetBit " << bit); break;
      case 3: du::setBit(bit, &ed); emodel[bit] = true; break;
      default: PBT_EQ(du::getBit(bit, ed), static_cast<bool>(emodel[bit]), "getBit " << bit); break;
    }
  }
  for (int k = 0; k < n * 8; ++k) {
    PBT_EQ(refBit(a.data(), k), static_cast<bool>(model[k]), "bit " << k);
    PBT_EQ(refBit(ed.data(), k), static_cast<bool>(emodel[k]), "eigen bit " << k);
  }
  if (s.chance(1, 3)) {
    const int flips = s.i(0, std::min(n * 8 - 1, 64));
    const Bytes before(a.data(), a.data() + n);
    ac::FlipNRandomBits(flips, &ref);
    PBT_EQ(refDistance(before.data(), a.data(), n), flips, "FlipNRandomBits");
  }
  if (s.chance(1, 10)) {
    const int flips = n * 8 - 1;
    const Bytes before(a.data(), a.data() + n);
    ac::FlipNRandomBits(flips, &ref);
    PBT_EQ(refDistance(before.data(), a.data(), n), flips, "FlipNRandomBits (all but one)");
  }
  if (s.chance(1, 400)) {
    const int over = n * 8 + s.i(0, 9);
    PBT_CHECK(pbt::fateOf([&] { ac::SetBit(over, &ref); }) == pbt::Fate::kAborted, "SetBit out of range");
    PBT_CHECK(pbt::fateOf([&] { ac::FlipBit(over, &ref); }) == pbt::Fate::kAborted, "FlipBit out of range");
    PBT_CHECK(pbt::fateOf([&] { ac::GetBit(over, ref.ToConstRef()); }) == pbt::Fate::kAborted, "GetBit out of range");
    PBT_CHECK(pbt::fateOf([&] { du::getBit(over, ed); }) == pbt::Fate::kAborted, "getBit out of range");
    PBT_CHECK(pbt::fateOf([&] { du::setBit(over, &ed); }) == pbt::Fate::kAborted, "setBit out of range");
    PBT_CHECK(pbt::fateOf([&] { volatile unsigned char c = ref[n]; (void)c; }) == pbt::Fate::kAborted, "ref[size]");
    const ac::FeatureDescriptorConstRef cref = ref.ToConstRef();
    PBT_CHECK(pbt::fateOf([&] { volatile unsigned char c = cref[n]; (void)c; }) == pbt::Fate::kAborted, "const ref[size]");
  }
  if (s.chance(1, 500)) {
    const size_t too_many = n * 8 + 1 + s.draw(5);
    PBT_CHECK(pbt::fateOf([&] { ac::FlipNRandomBits(too_many, &ref); }) == pbt::Fate::kAborted,
              "flipped more bits than there are");
  }
}

PBT_PROP(random_fill, "length >= 2", 5000, 50000) {
  const int n = anyLength(s);
  const int seed = static_cast<int>(s.bits());
  s << "length " << n << " seed " << seed;
  s.nontrivial(n >= 2);
  Exact a(n, 0), b(n, 5);
  ac::FeatureDescriptorRef ra(a.data(), n, false), rb(b.data(), n, false);
  ra.SetRandom(seed);
  rb.SetRandom(seed);
  PBT_CHECK(Bytes(a.data(), a.data() + n) == Bytes(b.data(), b.data() + n), "same seed, different bytes");
  if (n >= 128) {
    std::set<unsigned char> seen(a.data(), a.data() + n);
    PBT_CHECK(seen.size() > 32, "SetRandom hardly varies");
  }
  ra.SetZero();
  for (int k = 0; k < n; ++k) PBT_EQ(static_cast<int>(a.data()[k]), 0, "SetZero byte " << k);
}

PBT_PROP(statistics, "at least 3 different descriptors", 5000, 100000) {
  const int n = s.chance(1, 2) ? 16 * s.i(1, 4) : s.chance(1, 40) ? std::min(anyLength(s), 600) : s.i(1, 40);
  const int cols = s.chance(1, 10) ? s.i(0, 40) : s.i(0, 9);
  du::DescriptorsType d(n, cols);
  std::set<Bytes> distinct;
  for (int c = 0; c < cols; ++c) {
    if (c > 0 && s.chance(1, 2)) {
      d.col(c) = d.col(s.i(0, c - 1));
      const int flips = s.i(0, 3);
      for (int k = 0; k < flips; ++k) {
        const int bit = s.i(0, n * 8 - 1);
        d(bit / 8, c) ^= 1u << (bit % 8);
      }
    } else {
      fillBytes(s, d.col(c).data(), n);
    }
    distinct.insert(Bytes(d.col(c).data(), d.col(c).data() + n));
  }
  const du::DescriptorsType d0 = d;
  s.nontrivial(distinct.size() >= 3);
  s << n << " bytes x " << cols;
  std::vector<int> sums(n * 8, 0);
  for (int c = 0; c < cols; ++c)
    for (int b = 0; b < n * 8; ++b) sums[b] += refBit(d.col(c).data(), b);

  // Mean rounded to binary: a bit is set iff it is set in more than half.
  du::DescriptorType mean;
  if (s.boolean()) mean.resize(s.i(1, 20), 1);
  du::descriptorMeanRoundedToBinaryValue(d, &mean);
  PBT_EQ(static_cast<int>(mean.size()), n, "mean size");
  for (int b = 0; b < n * 8; ++b) PBT_EQ(refBit(mean.data(), b), 2 * sums[b] > cols, "mean bit " << b << " sum " << sums[b]);

  // The same on descriptor references.
  if (cols > 0) {
    std::vector<std::unique_ptr<ac::FeatureDescriptorRef>> own;
    std::vector<ac::FeatureDescriptorRef*> refs;
    for (int c = 0; c < cols; ++c) {
      own.emplace_back(new ac::FeatureDescriptorRef(d.col(c).data(), n, false));
      refs.push_back(own.back().get());
    }
    Exact m(n, 1);
    fillBytes(s, m.data(), n);
    ac::FeatureDescriptorRef mref(m.data(), n, false);
    ac::DescriptorMean(refs, &mref);
    for (int b = 0; b < n * 8; ++b) PBT_EQ(refBit(m.data(), b), 2 * sums[b] > cols, "DescriptorMean bit " << b);
  }

  // Deviations.
  const double mad = du::descriptorMeanAbsoluteDeviation(d);
  const double sd = du::descriptorMeanStandardDeviation(d);
  if (cols < 2) {
    PBT_CHECK(mad == 0.0 && sd == 0.0, "deviation of fewer than two descriptors: " << mad << " " << sd);
  } else {
    double want_mad = 0, want_sd = 0;
    for (int c = 0; c < cols; ++c) want_mad += refDistance(d.col(c).data(), mean.data(), n);
    want_mad /= cols;
    for (int b = 0; b < n * 8; ++b) {
      const double p = static_cast<double>(sums[b]) / cols;
      want_sd += p * (1 - p);  // mean over descriptors of (bit - p)^2
    }
    want_sd = std::sqrt(want_sd);
    PBT_CHECK(closeTo(mad, want_mad, 1e-12, 1e-12), "mean absolute deviation " << mad << " want " << want_mad);
    PBT_CHECK(closeTo(sd, want_sd, 1e-9, 1e-9), "standard deviation " << sd << " want " << want_sd);
  }
  if (cols > 0) {
    Eigen::VectorXd fm;
    du::floatDescriptorMean(d, &fm);
    PBT_EQ(static_cast<int>(fm.size()), n * 8, "float mean size");
    for (int b = 0; b < n * 8; ++b) PBT_CHECK(closeTo(fm(b), static_cast<double>(sums[b]) / cols, 1e-12, 0), "float mean bit " << b);
    Eigen::VectorXf ff;
    du::floatDescriptorMean(d, &ff);
    for (int b = 0; b < n * 8; ++b) PBT_CHECK(closeTo(ff(b), static_cast<double>(sums[b]) / cols, 1e-6, 0), "float mean bit " << b);
    const int c = s.i(0, cols - 1);
    double want = 0;
    for (int b = 0; b < n * 8; ++b) {
      const double e = refBit(d.col(c).data(), b) - fm(b);
      want += e * e;
    }
    PBT_CHECK(closeTo(du::differenceToMeanSquaredNorm(d.col(c), fm), want, 1e-9, 1e-9), "differenceToMeanSquaredNorm");
    // Medoid: smallest accumulated distance to the others.
    std::vector<long> acc(cols, 0);
    for (int i = 0; i < cols; ++i)
      for (int j = 0; j < cols; ++j) acc[i] += refDistance(d.col(i).data(), d.col(j).data(), n);
    size_t idx = 12345;
    du::getIndexOfDescriptorClosestToMedian(d, &idx);
    PBT_CHECK(idx < static_cast<size_t>(cols), "medoid index " << idx);
    for (int i = 0; i < cols; ++i) PBT_CHECK(acc[idx] <= acc[i], "medoid " << idx << " has " << acc[idx] << ", " << i << " has " << acc[i]);
  }
  PBT_CHECK(d == d0, "descriptors modified");
}

PBT_PROP(many_descriptors, "more than 255 descriptors", 40, 1500) {
  const bool huge = s.chance(1, 5);
  const int n = huge ? s.i(1, 2) : s.chance(1, 2) ? 16 * s.i(1, 4) : s.i(1, 40);
  const int cols = huge ? s.oneOf<int>({65535, 65536, 65537, 66001}) : s.oneOf<int>({255, 256, 257, 300, 511, 513});
  std::mt19937 rng(static_cast<unsigned>(s.draw(1u << 30)));
  du::DescriptorsType d(n, cols);
  // Bits that are set in a given share of the descriptors, also in all of them.
  const int kind = s.i(0, 2);
  std::vector<unsigned> share(n * 8);
  for (unsigned& p : share) p = kind == 0 ? rng() % 1001 : kind == 1 ? 500 : rng() % 2 * 1000;
  const bool exact_half = s.boolean();
  std::vector<int> sums(n * 8, 0);
  for (int c = 0; c < cols; ++c)
    for (int b = 0; b < n * 8; ++b) {
      const bool set = exact_half && b % 3 == 0 ? c < (cols + b % 2) / 2 : rng() % 1000 < share[b];
      if (b % 8 == 0) d(b / 8, c) = 0;
      if (set) d(b / 8, c) |= static_cast<unsigned char>(1u << (b % 8)), ++sums[b];
    }
  s << n << " bytes x " << cols << " kind " << kind;
  s.nontrivial(cols > 255);
  for (int b = 0; b < n * 8; ++b) {  // the numbering of the bits is that of refBit
    int sum = 0;
    for (int c = 0; c < cols; ++c) sum += refBit(d.col(c).data(), b);
    sums[b] = sum;
  }
  du::DescriptorType mean;
  du::descriptorMeanRoundedToBinaryValue(d, &mean);
  for (int b = 0; b < n * 8; ++b) PBT_EQ(refBit(mean.data(), b), 2 * sums[b] > cols, "mean bit " << b << " sum " << sums[b]);
  {
    std::vector<std::unique_ptr<ac::FeatureDescriptorRef>> own;
    std::vector<ac::FeatureDescriptorRef*> refs;
    for (int c = 0; c < cols; ++c) {
      own.emplace_back(new ac::FeatureDescriptorRef(d.col(c).data(), n, false));
      refs.push_back(own.back().get());
    }
    Exact m(n, 1);
    ac::FeatureDescriptorRef mref(m.data(), n, false);
    ac::DescriptorMean(refs, &mref);
    for (int b = 0; b < n * 8; ++b) PBT_EQ(refBit(m.data(), b), 2 * sums[b] > cols, "DescriptorMean bit " << b);
  }
  double want_mad = 0, want_sd = 0;
  for (int c = 0; c < cols; ++c) want_mad += refDistance(d.col(c).data(), mean.data(), n);
  want_mad /= cols;
  for (int b = 0; b < n * 8; ++b) {
    const double p = static_cast<double>(sums[b]) / cols;
    want_sd += p * (1 - p);
  }
  want_sd = std::sqrt(want_sd);
  const double mad = du::descriptorMeanAbsoluteDeviation(d), sd = du::descriptorMeanStandardDeviation(d);
  PBT_CHECK(closeTo(mad, want_mad, 1e-10, 1e-10), "mean absolute deviation " << mad << " want " << want_mad);
  PBT_CHECK(closeTo(sd, want_sd, 1e-8, 1e-8), "standard deviation " << sd << " want " << want_sd);
  Eigen::VectorXd fm;
  du::floatDescriptorMean(d, &fm);
  for (int b = 0; b < n * 8; ++b) PBT_CHECK(closeTo(fm(b), static_cast<double>(sums[b]) / cols, 1e-10, 1e-12), "float mean bit " << b);
  if (huge) return;
  // A strict medoid: many copies of one descriptor, at any index first.
  if (s.boolean()) {
    const int at = s.i(0, cols - 1);
    for (int c = at; c < cols; ++c) if (rng() % 3) d.col(c) = d.col(at);
  }
  std::vector<long> acc(cols, 0);
  const unsigned char* const p = d.data();
  const auto quick = [](const unsigned char* a, const unsigned char* b, int n) {
    int r = 0;
    for (int k = 0; k < n; ++k) r += __builtin_popcount(a[k] ^ b[k]);
    return r;
  };
  for (int i = 0; i < cols; ++i)
    for (int j = 0; j < cols; ++j) acc[i] += quick(p + i * n, p + j * n, n);
  size_t idx = 12345;
  du::getIndexOfDescriptorClosestToMedian(d, &idx);
  PBT_CHECK(idx < static_cast<size_t>(cols), "medoid index " << idx);
  for (int i = 0; i < cols; ++i) PBT_CHECK(acc[idx] <= acc[i], "medoid " << idx << " has " << acc[idx] << ", " << i << " has " << acc[i]);
}

PBT_PROP(pairwise_distances, "at least 3 descriptors", 4000, 60000) {
  const int n = s.i(1, 64);
  const bool many = s.chance(1, 200);
  const int cols = many ? s.i(20, 320) : s.i(0, 7);
  s.nontrivial(cols >= 3);
  du::DescriptorsType d(n, cols);
  std::mt19937 rng(many ? static_cast<unsigned>(s.draw(1u << 30)) : 0);
  for (int c = 0; c < cols; ++c)
    for (int k = 0; k < n; ++k) {
      if (many) {
        d(k, c) = static_cast<unsigned char>(rng() % (n > 16 ? 30 : 60));
        continue;
      }
      // small enough that every distance fits the 8-bit result
      d(k, c) = static_cast<unsigned char>(s.draw(n > 16 ? 30 : 60));
    }
  s << n << "x" << cols;
  du::DescriptorType r;
  du::pairwiseEuclidianDistances(d, &r);
  PBT_EQ(static_cast<int>(r.size()), cols * (cols - 1) / 2, "size");
  int at = 0;
  for (int i = 0; i < cols; ++i)
    for (int j = i + 1; j < cols; ++j, ++at) {
      long sq = 0;
      for (int k = 0; k < n; ++k) sq += (d(k, i) - d(k, j)) * (d(k, i) - d(k, j));
      const double want = std::sqrt(static_cast<double>(sq));
      PBT_CHECK(std::fabs(static_cast<double>(r(at)) - want) <= 1.0, "distance " << i << "," << j << ": " << static_cast<int>(r(at)) << " want " << want);
    }
}

// Lifecycle: slots against a model of owned bytes and aliases.
namespace {
struct Model {
  enum Kind { kNull, kAlias, kOwn } kind = kNull;
  int buf = 0, off = 0, size = 0;
  Bytes bytes;
};
}  // namespace

PBT_PROP(lifecycle, "an assignment between an owning and a non-owning descriptor happened", 200000, 3000000, true) {
  std::set<void*> live;
  g_live = &live;
  g_bad_frees = 0;
  const int nbuf = 3;
  std::vector<std::unique_ptr<Exact>> buf;
  std::vector<Bytes> content;
  for (int k = 0; k < nbuf; ++k) {
    const int n = s.i(1, 40);
    buf.emplace_back(new Exact(n, 0));
    fillBytes(s, buf[k]->data(), n);
    content.emplace_back(buf[k]->data(), buf[k]->data() + n);
  }
  bool mixed = false;
  {
    struct Guard {
      Guard() { g_count = true; }
      ~Guard() { g_count = false; }
    } guard;
    std::vector<ac::FeatureDescriptorRef> slot;
    slot.reserve(2);
    std::vector<Model> model;
    auto bytesOf = [&](const Model& m) -> Bytes {
      if (m.kind == Model::kNull) return Bytes();
      if (m.kind == Model::kOwn) return m.bytes;
      return Bytes(content[m.buf].begin() + m.off, content[m.buf].begin() + m.off + m.size);
    };
    auto put = [&](Model& m, int at, unsigned char v) {
      if (m.kind == Model::kOwn) m.bytes[at] = v;
      if (m.kind == Model::kAlias) content[m.buf][m.off + at] = v;
    };
    auto assign = [&](Model& to, const Model& from) {
      mixed = mixed || (to.kind == Model::kOwn) != (from.kind == Model::kOwn);
      if (to.kind == Model::kOwn || from.kind == Model::kOwn) {
        const Bytes b = bytesOf(from);
        to = Model();
        to.kind = Model::kOwn;
        to.bytes = b;
        to.size = static_cast<int>(b.size());
      } else {
        to = from;
      }
    };
    const int ops = s.size(1, 30);
    for (int step = 0; step < ops; ++step) {
      const int op = slot.empty() ? s.i(0, 3) : s.i(0, 15);
      const int a = slot.empty() ? 0 : s.i(0, static_cast<int>(slot.size()) - 1);
      const int b = slot.empty() ? 0 : s.i(0, static_cast<int>(slot.size()) - 1);
      switch (op) {
        case 0: {  // alias of a buffer
          Model m;
          m.kind = Model::kAlias;
          m.buf = s.i(0, nbuf - 1);
          m.off = s.i(0, buf[m.buf]->n - 1);
          m.size = s.i(1, buf[m.buf]->n - m.off);
          s << "alias(" << m.buf << "," << m.off << "," << m.size << ") ";
          slot.emplace_back(buf[m.buf]->data() + m.off, m.size, false);
          model.push_back(m);
          break;
        }
        case 1: {  // heap allocating constructor
          Model m;
          m.kind = Model::kOwn;
          m.size = s.i(0, 40);
          s << "own(" << m.size << ") ";
          ac::FeatureDescriptorRef r(static_cast<uint32_t>(m.size));
          r.SetZero();
          m.bytes.assign(m.size, 0);
          if (m.size && s.boolean()) {
            const int seed = s.i(0, 99);
            r.SetRandom(seed);
            Bytes e(m.size);
            ac::FeatureDescriptorRef er(e.data(), e.size(), false);
            er.SetRandom(seed);
            m.bytes = e;
          }
          slot.push_back(r);
          model.push_back(m);
          break;
        }
        case 2: {
          s << "default ";
          slot.emplace_back();
          model.push_back(Model());
          break;
        }
        case 3: {  // takes ownership of an array
          Model m;
          m.kind = Model::kOwn;
          m.size = s.i(1, 20);
          unsigned char* p = new unsigned char[m.size];
          for (int k = 0; k < m.size; ++k) p[k] = static_cast<unsigned char>(k * 7 + step);
          m.bytes.assign(p, p + m.size);
          s << "adopt(" << m.size << ") ";
          slot.emplace_back(p, m.size, true);
          model.push_back(m);
          break;
        }
        case 4: case 5: case 6: {
          s << "slot" << a << "=slot" << b << " ";
          slot[a] = slot[b];
          if (a != b) assign(model[a], model[b]);
          break;
        }
        case 7: {
          s << "copy(" << b << ") ";
          slot.push_back(ac::FeatureDescriptorRef(slot[b]));
          const Model copy = model[b];
          model.push_back(copy);
          break;
        }
        case 8: {
          s << "release(" << a << ") ";
          slot[a].Release();
          if (model[a].kind == Model::kOwn) model[a] = Model();
          break;
        }
        case 9: {
          const int n = s.chance(1, 3) ? model[a].size : s.i(0, 40);
          s << "allocate(" << a << "," << n << ") ";
          slot[a].Allocate(n);
          slot[a].SetZero();
          model[a] = Model();
          model[a].kind = Model::kOwn;
          model[a].size = n;
          model[a].bytes.assign(n, 0);
          break;
        }
        case 10: {
          if (model[a].kind == Model::kNull || model[a].size == 0) break;
          const int at = s.i(0, model[a].size - 1);
          const unsigned char v = static_cast<unsigned char>(s.draw(256));
          s << "write(" << a << "," << at << ") ";
          slot[a][at] = v;
          put(model[a], at, v);
          break;
        }
        case 11: {
          s << "zero(" << a << ") ";
          slot[a].SetZero();
          for (int k = 0; k < model[a].size; ++k) put(model[a], k, 0);
          break;
        }
        case 12: {
          s << "swap(" << a << "," << b << ") ";
          std::swap(slot[a], slot[b]);
          if (a != b) {
            const Model t = model[a];
            assign(model[a], model[b]);
            assign(model[b], t);
          }
          break;
        }
        case 13: {
          s << "pop ";
          slot.pop_back();
          model.pop_back();
          break;
        }
        case 14: {  // assign a view of the slot's own bytes
          if (model[a].kind != Model::kOwn || model[a].size == 0) break;
          const int off = s.i(0, model[a].size - 1);
          const int n = s.i(1, model[a].size - off);
          s << "slot" << a << "=view(" << off << "," << n << ") ";
          ac::FeatureDescriptorRef view(slot[a].data() + off, n, false);
          slot[a] = view;
          model[a].bytes = Bytes(model[a].bytes.begin() + off, model[a].bytes.begin() + off + n);
          model[a].size = n;
          break;
        }
        default: {
          if (model[a].size == 0) break;
          const int bit = s.i(0, model[a].size * 8 - 1);
          s << "flip(" << a << "," << bit << ") ";
          ac::FlipBit(bit, &slot[a]);
          put(model[a], bit / 8, bytesOf(model[a])[bit / 8] ^ (1u << (bit % 8)));
          break;
        }
      }
      // Everything agrees with the model after every step.
      PBT_EQ(slot.size(), model.size(), "slots");
      size_t owned = 0;
      for (size_t k = 0; k < slot.size(); ++k) {
        const Bytes want = bytesOf(model[k]);
        const ac::FeatureDescriptorRef& cs = slot[k];
        PBT_EQ(static_cast<size_t>(cs.size()), want.size(), "size of slot " << k);
        owned += model[k].kind == Model::kOwn;
        if (model[k].kind == Model::kAlias) {
          PBT_CHECK(cs.data() == buf[model[k].buf]->data() + model[k].off, "slot " << k << " no longer aliases its bytes");
        }
        if (model[k].kind == Model::kOwn) {
          for (int q = 0; q < nbuf; ++q) {
            PBT_CHECK(cs.data() + cs.size() <= buf[q]->raw || cs.data() >= buf[q]->raw + buf[q]->n || cs.size() == 0,
                      "owning slot " << k << " aliases a buffer");
          }
        }
        for (size_t q = 0; q < want.size(); ++q) {
          PBT_EQ(static_cast<int>(cs[q]), static_cast<int>(want[q]), "slot " << k << " byte " << q);
        }
        const ac::FeatureDescriptorConstRef cref = cs.ToConstRef();
        PBT_CHECK(cref.data() == cs.data() && cref.size() == cs.size(), "const reference");
      }
      for (int q = 0; q < nbuf; ++q) {
        PBT_CHECK(Bytes(buf[q]->data(), buf[q]->data() + buf[q]->n) == content[q], "buffer " << q << " changed");
      }
      PBT_EQ(live.size(), owned, "live arrays after step " << step);
      PBT_EQ(g_bad_frees, 0, "freed something that was not allocated");
    }
    if (slot.size() >= 2) {
      const int a = s.i(0, static_cast<int>(slot.size()) - 1), b = s.i(0, static_cast<int>(slot.size()) - 1);
      const Bytes x = bytesOf(model[a]), y = bytesOf(model[b]);
      const bool both_data = (slot[a].data() != nullptr) == (slot[b].data() != nullptr);
      PBT_EQ(slot[a] == slot[b], both_data && x == y, "equality");
    }
  }
  s.nontrivial(mixed);
  PBT_EQ(live.size(), size_t(0), "arrays alive after destruction");
  PBT_EQ(g_bad_frees, 0, "freed something that was not allocated");
}
