// C22: frame-to-frame matching is exclusive, gated and best-scoring.
#include <gflags/gflags.h>
#include <glog/logging.h>

#include <iomanip>
#include <iostream>
#include <random>
#include <set>

#include "camera_ref.h"
#include "pbt.h"
#include "rig_ref.h"
#include "util.h"

#include <aslam/matcher/gyro-two-frame-matcher.h>
#include <aslam/matcher/match-helpers.h>
#include <aslam/frames/visual-frame.h>

DECLARE_int32(gyro_matcher_small_search_distance_px);
DECLARE_int32(gyro_matcher_large_search_distance_px);

const char* pbt::kProperty = "C22";
void pbt::workerInit() { FLAGS_minloglevel = 4; }

using aslam::VisualFrame;
using pbt::Source;
typedef VisualFrame::DescriptorsT Descriptors;

namespace {
Eigen::IOFormat full(17, 0, ", ", "; ");

struct Scene {
  uint32_t height = 0;
  int type = 0, bytes = 0, small = 10, large = 20;
  Eigen::Matrix2Xd kp1, pred;
  Descriptors d1, d0;
  std::vector<unsigned char> success;
  VisualFrame::Ptr f1, f0;
  std::vector<std::pair<int, int>> result;
  bool has_result = false;
};
int bitsDifferent(const Scene& c, int k, int j) {
  int n = 0;
  for (int r = 0; r < c.bytes; ++r) n += __builtin_popcount(c.d0(r, k) ^ c.d1(r, j));
  return n;
}

void block(VisualFrame* f, const Eigen::Matrix2Xd& kp, const Descriptors& d, int type) {
  f->extendKeypointMeasurements(kp);
  f->extendDescriptors(d, type);
}
// A block of another feature type with other descriptor length and positions.
void otherBlock(Source& s, VisualFrame* f, int type) {
  const int n = s.size(0, 4);
  Eigen::Matrix2Xd kp(2, n);
  Descriptors d(s.i(1, 70), n);
  for (int i = 0; i < n; ++i) {
    kp.col(i) << s.real(0, 100), s.real(0, 20);
    for (int r = 0; r < d.rows(); ++r) d(r, i) = static_cast<unsigned char>(s.draw(4));
  }
  block(f, kp, d, type);
}

Scene scene(Source& s, bool distinct_y = false) {
  Scene c;
  static const int lengths[] = {1, 2, 8, 16, 32, 48, 64};
  c.bytes = s.chance(3, 4) ? lengths[s.draw(7)] : s.i(1, 64);
  if (s.chance(1, 3)) {
    c.small = s.i(1, 30);
    c.large = c.small + s.i(0, 20);
  }
  c.height = static_cast<uint32_t>(s.chance(1, 4) ? s.range(1, 20) : s.boolean() ? s.range(20, 70) : s.range(70, 1500));
  const double w = s.boolean() ? s.real(1, 60) : s.real(60, 1500);
  // Most of the keypoints share a region so that they compete.
  const double x0 = s.real(0, 1) * w, y0 = (s.chance(1, 3) ? 1.0 : s.real(0, 1)) * c.height;
  const bool whole = s.boolean();
  const double top = std::nextafter(static_cast<double>(c.height), 0), right = std::nextafter(w, 0);
  const auto inside = [&](double x, double most) { return std::min(std::max(x, 0.0), most); };
  const int n1 = s.size(0, 14), n0 = s.size(0, 14);
  c.kp1.resize(2, n1);
  c.d1.resize(c.bytes, n1);
  const int bits = 8 * c.bytes;
  std::vector<std::vector<unsigned char>> proto;
  const int protos = s.i(1, 4);
  for (int p = 0; p < protos; ++p) {
    std::vector<unsigned char> v(c.bytes);
    const int how = s.i(0, 2);
    for (int r = 0; r < c.bytes; ++r) v[r] = how == 0 ? 0 : how == 1 ? 255 : static_cast<unsigned char>(s.draw(256));
    proto.push_back(v);
  }
  const auto descriptor = [&](Descriptors* d, int col) {
    const std::vector<unsigned char>& p = proto[s.draw(protos)];
    for (int r = 0; r < c.bytes; ++r) (*d)(r, col) = p[r];
    const int flips = s.boolean() ? s.i(0, std::max(1, bits / 20)) : s.i(0, std::max(1, bits / 4));
    for (int i = 0; i < flips; ++i) {
      const int b = static_cast<int>(s.draw(bits));
      (*d)(b / 8, col) ^= static_cast<unsigned char>(1u << (b % 8));
    }
  };
  std::set<double> ys;
  for (int i = 0; i < n1; ++i) {
    double x, y;
    do {
      if (s.chance(3, 4)) {
        x = x0 + s.sreal(1) * 1.2 * c.large;
        y = y0 + s.sreal(1) * 1.2 * c.large;
      } else {
        x = s.real(0, 1) * w;
        y = s.real(0, 1) * c.height;
      }
      if (whole) x = std::floor(x), y = std::floor(y);
      x = inside(x, whole ? std::ceil(w) - 1 : right);
      y = inside(y, whole ? c.height - 1.0 : top);
      if (distinct_y && ys.count(y)) y = inside(y - s.real(0.01, c.height * 1.0), top);
      if (distinct_y && ys.count(y)) throw pbt::Discard();
    } while (false);
    ys.insert(y);
    c.kp1.col(i) << x, y;
    descriptor(&c.d1, i);
  }
  c.pred.resize(2, n0);
  c.d0.resize(c.bytes, n0);
  Eigen::Matrix2Xd kp0(2, n0);
  for (int i = 0; i < n0; ++i) {
    kp0.col(i) << s.real(0, 1) * w, s.real(0, 1) * c.height;
    c.success.push_back(!s.chance(1, 8));
    Eigen::Vector2d p;
    if (n1 > 0 && s.chance(4, 5)) {
      const double r = s.boolean() ? c.small : 1.15 * c.large;
      p = c.kp1.col(s.draw(n1)) + Eigen::Vector2d(s.sreal(1), s.sreal(1)) * r;
      if (whole) p = Eigen::Vector2d(std::round(p(0)), std::round(p(1)));
    } else if (s.chance(1, 3)) {
      static const double far[] = {-1e12, -3e9, -300, -20, -1, 0, 20, 300, 3e9, 1e12};
      p << far[s.draw(10)], c.height + far[s.draw(10)];
    } else {
      p = Eigen::Vector2d(s.real(-0.1, 1.1) * w, s.real(-0.1, 1.1) * c.height);
    }
    c.pred.col(i) = p;
    if (n1 > 0 && s.chance(3, 4)) {
      c.d0.col(i) = c.d1.col(s.draw(n1));
      if (s.boolean()) {
        const int flips = s.i(0, std::max(1, bits / 8));
        for (int j = 0; j < flips; ++j) {
          const int b = static_cast<int>(s.draw(bits));
          c.d0(b / 8, i) ^= static_cast<unsigned char>(1u << (b % 8));
        }
      }
      if (s.chance(1, 12)) for (int r = 0; r < c.bytes; ++r) c.d0(r, i) = static_cast<unsigned char>(~c.d0(r, i));
    } else {
      descriptor(&c.d0, i);
    }
  }
  c.f1.reset(new VisualFrame);
  c.f0.reset(new VisualFrame);
  const int64_t t = s.range(0, 1000000);
  c.f0->setTimestampNanoseconds(t);
  c.f1->setTimestampNanoseconds(t + s.range(1, 1000000000));
  c.type = s.chance(1, 3) ? s.i(1, 5) : 0;
  const bool before1 = s.chance(1, 4), before0 = s.chance(1, 4);
  if (before1) otherBlock(s, c.f1.get(), 9);
  block(c.f1.get(), c.kp1, c.d1, c.type);
  if (s.chance(1, 4)) otherBlock(s, c.f1.get(), 7);
  if (before0) otherBlock(s, c.f0.get(), 9);
  block(c.f0.get(), kp0, c.d0, c.type);
  if (s.chance(1, 4)) otherBlock(s, c.f0.get(), 7);
  s << "scene: height " << c.height << ", " << c.bytes << " bytes, windows " << c.small << " and " << c.large << ", type " << c.type << "\n";
  for (int i = 0; i < n1; ++i) s << std::setprecision(17) << "  new " << i << " at " << c.kp1.col(i).transpose() << "\n";
  for (int i = 0; i < n0; ++i) {
    s << std::setprecision(17) << "  old " << i << (c.success[i] ? "" : " (no prediction)") << " predicted at " << c.pred.col(i).transpose() << ", bits different:";
    for (int j = 0; j < n1; ++j) s << " " << bitsDifferent(c, i, j);
    s << "\n";
  }
  return c;
}

// Frames with more keypoints than one byte counts, spread over the image.
Scene crowd(Source& s) {
  Scene c;
  static const int lengths[] = {16, 32, 48, 64};
  c.bytes = lengths[s.draw(4)];
  if (s.chance(1, 3)) {
    c.small = s.i(1, 30);
    c.large = c.small + s.i(0, 20);
  }
  c.height = static_cast<uint32_t>(s.chance(1, 4) ? s.range(20, 200) : s.range(200, 3000));
  const double w = s.real(60, 3000);
  const int n1 = s.chance(1, 4) ? s.i(0, 20) : s.i(250, 700), n0 = s.chance(1, 4) ? s.i(0, 20) : s.i(250, 700), protos = s.i(20, 400);
  std::mt19937 rng(static_cast<unsigned>(s.draw(1u << 30)));
  const auto real = [&](double a, double b) { return std::uniform_real_distribution<double>(a, b)(rng); };
  const auto below = [&](int n) { return static_cast<int>(rng() % static_cast<unsigned>(n)); };
  Descriptors proto(c.bytes, protos);
  for (int i = 0; i < proto.size(); ++i) proto.data()[i] = static_cast<unsigned char>(rng());
  const auto flip = [&](Descriptors* d, int col, int most) {
    for (int i = below(most + 1); i > 0; --i) {
      const int b = below(8 * c.bytes);
      (*d)(b / 8, col) ^= static_cast<unsigned char>(1u << (b % 8));
    }
  };
  const double top = std::nextafter(static_cast<double>(c.height), 0);
  const double columns = s.chance(1, 3) ? 0.05 : 1;  // share of the width
  c.kp1.resize(2, n1);
  c.d1.resize(c.bytes, n1);
  for (int i = 0; i < n1; ++i) {
    c.kp1.col(i) << real(0, columns * w), std::min(real(0, c.height), top);
    c.d1.col(i) = proto.col(below(protos));
    flip(&c.d1, i, 2 * c.bytes);
  }
  if (s.boolean()) {  // in one row
    const double y = std::floor(real(0, c.height));
    for (int i = below(n1 + 1); i > 0; --i) c.kp1(1, i - 1) = y;
  }
  c.pred.resize(2, n0);
  c.d0.resize(c.bytes, n0);
  Eigen::Matrix2Xd kp0(2, n0);
  for (int i = 0; i < n0; ++i) {
    kp0.col(i) << real(0, w), real(0, c.height);
    c.success.push_back(below(16) != 0);
    if (n1 > 0 && below(8)) {
      const int j = below(n1);
      c.pred.col(i) = c.kp1.col(j) + Eigen::Vector2d(real(-1, 1), real(-1, 1)) * (below(2) ? c.small : 1.05 * c.large);
      c.d0.col(i) = c.d1.col(below(6) ? j : below(n1));
      flip(&c.d0, i, c.bytes);
    } else {
      c.pred.col(i) << real(-0.1, 1.1) * w, real(-0.1, 1.1) * c.height;
      c.d0.col(i) = proto.col(below(protos));
    }
  }
  c.f1.reset(new VisualFrame);
  c.f0.reset(new VisualFrame);
  const int64_t t = s.chance(1, 2) ? s.range(0, 1000000) : s.range(0, int64_t{1} << 61);
  c.f0->setTimestampNanoseconds(t);
  c.f1->setTimestampNanoseconds(t + s.range(1, 1000000000));
  c.type = s.chance(1, 3) ? s.i(1, 300) : 0;
  if (s.chance(1, 4)) otherBlock(s, c.f1.get(), 1000);
  block(c.f1.get(), c.kp1, c.d1, c.type);
  if (s.chance(1, 4)) otherBlock(s, c.f0.get(), 1000);
  block(c.f0.get(), kp0, c.d0, c.type);
  s << "crowded scene: height " << c.height << ", width " << w << ", " << c.bytes << " bytes, windows " << c.small << " and " << c.large << ", " << n1 << " new and " << n0 << " old keypoints\n";
  return c;
}

std::vector<std::pair<int, int>> runMatcher(const Scene& c, bool dirty, const aslam::Quaternion& q) {
  FLAGS_gyro_matcher_small_search_distance_px = c.small;
  FLAGS_gyro_matcher_large_search_distance_px = c.large;
  aslam::FrameToFrameMatches m;
  if (dirty) m.emplace_back(3, 1), m.emplace_back(0, 0);
  aslam::GyroTwoFrameMatcher matcher(q, *c.f1, *c.f0, c.type, c.height, c.pred, c.success, &m);
  matcher.match();
  std::vector<std::pair<int, int>> r;
  for (const aslam::FrameToFrameMatch& x : m) r.emplace_back(x.getKeypointIndexInFrameA(), x.getKeypointIndexInFrameB());
  return r;
}

// Candidates of an old keypoint, by definition.
struct Query {
  std::vector<int> candidates;  // in the window that is searched
  int best = -1;                // set if there is a candidate above the threshold
  int d_best = 0, d_second = -1;
  bool tie = false, open = false;
  bool passes = false;
};
Query query(const Scene& c, int k) {
  Query q;
  if (!c.success[k]) return q;
  const int bits = 8 * c.bytes, n1 = static_cast<int>(c.kp1.cols());
  const auto within = [&](int j, int d) {
    return std::abs(c.kp1(0, j) - c.pred(0, k)) <= d && std::abs(c.kp1(1, j) - c.pred(1, k)) <= d;
  };
  const auto edge = [&](int j, int d) {  // there the outcome is left to rounding
    for (int i = 0; i < 2; ++i) {
      const double a = c.kp1(i, j), b = c.pred(i, k);
      if (std::abs(std::abs(a - b) - d) < 1e-9 * (1 + std::abs(b)) && (a != std::floor(a) || b != std::floor(b))) return true;
    }
    return false;
  };
  for (int window : {c.small, c.large}) {
    const bool was_open = q.open;
    q = Query();
    q.open = was_open;
    for (int j = 0; j < n1; ++j) {
      if (edge(j, c.small) || edge(j, c.large)) q.open = true;
      if (!within(j, window) && !edge(j, window)) continue;
      q.candidates.push_back(j);
      const int d = bitsDifferent(c, k, j);
      // Exactly at a threshold or ratio the outcome is left to rounding.
      if (5 * (bits - d) == 4 * bits) q.open = true;
      if (q.d_second < 0 || d < q.d_second) q.d_second = d;
      if (5 * (bits - d) > 4 * bits && (q.best < 0 || d < q.d_best)) q.best = j, q.d_best = d;
    }
    if (q.best >= 0 && !q.open) break;  // an open one may claim anything in the large window
  }
  q.d_second = -1;
  for (int j : q.candidates) {
    if (j == q.best) continue;
    const int d = bitsDifferent(c, k, j);
    if (q.best >= 0 && d == q.d_best) q.tie = true;
    if (q.d_second < 0 || d < q.d_second) q.d_second = d;
  }
  if (q.best >= 0) {
    if (q.d_second < 0) q.passes = true;
    else if (q.d_second == 0) q.open = true;  // two perfect candidates
    else if (5 * q.d_best == 4 * q.d_second) q.open = true;
    else q.passes = 5 * q.d_best < 4 * q.d_second;
  }
  return q;
}

void check(Source& s, const Scene& c, const std::vector<std::pair<int, int>>& m) {
  const int n0 = static_cast<int>(c.pred.cols()), n1 = static_cast<int>(c.kp1.cols()), bits = 8 * c.bytes;
  std::vector<int> of0(n0, -1), of1(n1, -1);
  for (const auto& x : m) {
    REQ(x.first >= 0 && x.first < n1 && x.second >= 0 && x.second < n0) << "match " << x.first << " <- " << x.second << " of unknown keypoints";
    REQ(of1[x.first] < 0 && of0[x.second] < 0) << "match " << x.first << " <- " << x.second << ": keypoint used twice";
    of1[x.first] = x.second;
    of0[x.second] = x.first;
    REQ(c.success[x.second]) << "match " << x.first << " <- " << x.second << " without a prediction";
    for (int i = 0; i < 2; ++i)
      REQ(std::abs(c.kp1(i, x.first) - c.pred(i, x.second)) <= c.large * (1 + 1e-9)) << "match " << x.first << " <- " << x.second << " outside the window";
    REQ(5 * (bits - bitsDifferent(c, x.second, x.first)) >= 4 * bits) << "match " << x.first << " <- " << x.second << " below the threshold";
  }
  std::vector<Query> q(n0);
  bool open = false;
  for (int k = 0; k < n0; ++k) {
    q[k] = query(c, k);
    open |= q[k].open;
  }
  // What a keypoint may claim in the first round, other than for open cases.
  const auto mayClaim = [&](int k, int j) {
    if (q[k].open) return std::find(q[k].candidates.begin(), q[k].candidates.end(), j) != q[k].candidates.end();
    return q[k].best == j && q[k].passes;
  };
  // Winners of the first round.
  std::vector<bool> lost(n0, false), claimed(n1, false);
  int contested = 0;
  for (int j = 0; j < n1; ++j) {
    int d = -1, claims = 0;
    for (int k = 0; k < n0; ++k) {
      if (!mayClaim(k, j)) continue;
      ++claims;
      if (d < 0 || bitsDifferent(c, k, j) < d) d = bitsDifferent(c, k, j);
    }
    claimed[j] = claims > 0;
    contested += claims > 1;
    int winners = 0, winner = -1;
    bool has_open = false;
    for (int k = 0; k < n0; ++k)
      if (mayClaim(k, j)) has_open |= q[k].open;
    for (int k = 0; k < n0; ++k) {
      if (!mayClaim(k, j)) continue;
      if (bitsDifferent(c, k, j) == d) ++winners, winner = k;
      else if (!has_open) lost[k] = true;
    }
    if (claims == 0) continue;
    if (has_open) {  // then it is not known who wins
      for (int k = 0; k < n0; ++k)
        if (mayClaim(k, j) && !q[k].open && of0[k] != j) lost[k] = true;
      continue;
    }
    if (winners == 1) {
      REQ_EQ(of0[winner], j) << "best candidate of " << winner << ", which no better keypoint claims";
    } else {
      REQ(of1[j] >= 0 && mayClaim(of1[j], j) && bitsDifferent(c, of1[j], j) == d) << "several keypoints claim " << j << " equally, " << of1[j] << " has it";
      for (int k = 0; k < n0; ++k)
        if (mayClaim(k, j) && bitsDifferent(c, k, j) == d && of1[j] != k) lost[k] = true;
    }
  }
  int second = 0;
  for (int k = 0; k < n0; ++k) {
    if (q[k].open) continue;
    if (!q[k].passes) {
      REQ_EQ(of0[k], -1) << "old keypoint " << k << " has no unambiguous best candidate (" << q[k].best << ", bits " << q[k].d_best << " and " << q[k].d_second << ")";
      continue;
    }
    if (!lost[k]) continue;
    // Losers may get another candidate, held to the stricter threshold.
    if (of0[k] >= 0) {
      ++second;
      REQ(std::find(q[k].candidates.begin(), q[k].candidates.end(), of0[k]) != q[k].candidates.end()) << "loser " << k << " matched outside its window";
      REQ(20 * (bits - bitsDifferent(c, k, of0[k])) >= 17 * bits) << "loser " << k << " matched to " << of0[k] << " below the strict threshold";
      if (!open) REQ(!claimed[of0[k]]) << "loser " << k << " matched to a claimed keypoint";
    }
  }
  // Losers get their best remaining candidate, the best scoring loser first,
  // and those that lose again get another chance. Ties leave the rest open.
  bool sure = !open;
  std::vector<bool> taken = claimed;
  for (int round = 0; round < 2 && sure; ++round) {
    std::vector<int> wish(n0, -1);
    for (int k = 0; k < n0; ++k) {
      if (!lost[k]) continue;
      int d = 0;
      for (int j : q[k].candidates) {
        const int e = bitsDifferent(c, k, j);
        if (taken[j] || 20 * (bits - e) < 17 * bits) continue;
        if (20 * (bits - e) == 17 * bits || (wish[k] >= 0 && e == d)) sure = false;
        if (wish[k] < 0 || e < d) wish[k] = j, d = e;
      }
    }
    for (int k = 0; k < n0 && sure; ++k) {
      if (wish[k] < 0) continue;
      bool wins = true;
      for (int l = 0; l < n0; ++l) {
        if (l == k || wish[l] != wish[k]) continue;
        const int a = bitsDifferent(c, k, wish[k]), b = bitsDifferent(c, l, wish[k]);
        if (a == b) sure = false;
        wins &= a < b;
      }
      if (!wins || !sure) continue;
      REQ_EQ(of0[k], wish[k]) << "loser " << k << " and its best remaining candidate in round " << round;
      if (round) s.label("lost twice");
    }
    for (int k = 0; k < n0 && sure; ++k) {
      if (wish[k] < 0 || of0[k] != wish[k]) continue;
      taken[wish[k]] = true;
      lost[k] = false;
    }
  }
  s.label(open ? "at a threshold" : "");
  if (second) s.label("second round");
  if (contested) s.label("contested");
  if (m.size() >= 2 && contested && n1 < 250 && n0 < 250) s.nontrivial();
}

aslam::Quaternion quaternion(Source& s) { return aslam::Quaternion(rref::rotation(s)); }
}  // namespace

// A history of matcher runs on scenes of different sizes.
PBT_PROP(match, "at least two matches and a keypoint of the new frame wanted by two keypoints of the old one", 24000, 1500000, false, 16, true) {
  const int n = s.i(1, 3);
  std::vector<Scene> scenes;
  for (int i = 0; i < n; ++i) scenes.push_back(scene(s));
  const int runs = n + s.i(0, 2);
  for (int r = 0; r < runs; ++r) {
    Scene& c = scenes[r < n ? r : s.draw(n)];
    s << "run\n";
    const auto m = runMatcher(c, s.chance(1, 3), quaternion(s));
    for (const auto& x : m) s << "  match " << x.first << " <- " << x.second << "\n";
    check(s, c, m);
    if (c.has_result) REQ(m == c.result) << "a second run gave other matches";
    c.result = m;
    c.has_result = true;
  }
}

PBT_PROP(crowded, "more than 255 keypoints in both frames and more than 20 matches", 300, 12000, false, 16, true) {
  const Scene c = crowd(s);
  const auto m = runMatcher(c, s.chance(1, 3), quaternion(s));
  s << m.size() << " matches\n";
  for (const auto& x : m) s << "  match " << x.first << " <- " << x.second << "\n";
  check(s, c, m);
  if (c.kp1.cols() > 255 && c.pred.cols() > 255 && m.size() > 20) s.nontrivial();
}

// Renumbering the keypoints of the new frame renumbers the matches.
PBT_PROP(renumber, "at least two matches", 6000, 600000, false, 16, true) {
  Scene c = scene(s, true);
  const int n = static_cast<int>(c.kp1.cols());
  std::vector<int> p(n);
  for (int i = 0; i < n; ++i) p[i] = i;
  for (int i = n - 1; i > 0; --i) std::swap(p[i], p[s.draw(i + 1)]);
  Scene e = c;
  for (int i = 0; i < n; ++i) {
    e.kp1.col(p[i]) = c.kp1.col(i);
    e.d1.col(p[i]) = c.d1.col(i);
  }
  e.f1.reset(new VisualFrame);
  e.f1->setTimestampNanoseconds(c.f1->getTimestampNanoseconds());
  block(e.f1.get(), e.kp1, e.d1, e.type);
  // Shift in x and the order of equally good candidates do not matter either
  // for keypoints without a rival, but only the renumbering is exact.
  for (int k = 0; k < c.pred.cols(); ++k)
    if (query(c, k).tie) throw pbt::Discard();
  auto a = runMatcher(c, false, quaternion(s)), b = runMatcher(e, false, quaternion(s));
  for (auto& x : a) x.first = p[x.first];
  std::sort(a.begin(), a.end());
  std::sort(b.begin(), b.end());
  REQ(a == b) << "the matches depend on the numbering";
  if (a.size() >= 2) s.nontrivial();
}

namespace {
// A frame with keypoints of the camera, partly not back-projectable.
struct CameraFrame {
  cref::Cam c;
  VisualFrame::Ptr f;
  Eigen::Matrix2Xd kp;
  int type = 0;
};
CameraFrame cameraFrame(Source& s, const cref::Cam& cam, int type, int least) {
  CameraFrame r;
  r.c = cam;
  r.type = type;
  const bool big = s.chance(1, 80);  // more than one byte counts
  const int n = big ? s.i(250, 600) : s.size(least, 8);
  std::mt19937 rng(big ? static_cast<unsigned>(s.draw(1u << 30)) : 0);
  r.kp.resize(2, n);
  for (int i = 0; i < n; ++i) {
    if (i >= 10) {
      r.kp.col(i) = r.kp.col(i % 10) + Eigen::Vector2d(rng() % 1000, rng() % 1000) * 1e-2;
      continue;
    }
    switch (s.draw(6)) {
      case 0: r.kp.col(i) << s.real(0, 1) * cam.w, s.real(0, 1) * cam.h; break;
      case 1: r.kp.col(i) << (s.boolean() ? 0 : cam.w - 1), (s.boolean() ? 0 : cam.h - 1); break;
      case 2:
        if (cam.kind == cref::kLidar) r.kp.col(i) << cam.w / 2.0, cam.h / 2.0;
        else r.kp.col(i) << cam.c(0), cam.c(1);
        break;
      default: r.kp.col(i) = cref::refProject(cam, cref::anyPoint(s, cam));
    }
    if (!r.kp.col(i).allFinite() || r.kp.col(i).norm() > 5.0 * (cam.w + cam.h)) r.kp.col(i).setZero();
  }
  r.f.reset(new VisualFrame);
  r.f->setCameraGeometry(cam.cam);
  r.f->setTimestampNanoseconds(1);
  if (s.chance(1, 3)) otherBlock(s, r.f.get(), type + 1);
  block(r.f.get(), r.kp, Descriptors::Zero(32, n), type);
  if (s.chance(1, 3)) otherBlock(s, r.f.get(), type + 2);
  return r;
}
}  // namespace

PBT_PROP(rotate, "a keypoint is predicted inside the image by a rotation other than the identity", 60000, 4000000) {
  cref::Cam cam = cref::camera(s, 3);
  cam.cam = cref::build(cam);
  s << cref::show(cam);
  const CameraFrame f = cameraFrame(s, cam, s.i(0, 2), 0);
  Eigen::Quaterniond q;
  switch (s.draw(6)) {
    case 0: q.setIdentity(); break;
    case 1: q = Eigen::Quaterniond(-1, 0, 0, 0); break;
    case 2: q = rref::rotation(s); break;
    default: {
      const Eigen::Vector3d a(s.sreal(1), s.sreal(1), s.sreal(1));
      const double angle = s.boolean() ? s.logReal(1e-9, 1e-3) : s.real(0, 0.4);
      q = a.norm() < 1e-3 ? Eigen::Quaterniond::Identity() : Eigen::Quaterniond(Eigen::AngleAxisd(angle, a.normalized()));
      if (s.chance(1, 4)) q.coeffs() = -q.coeffs();
    }
  }
  q.normalize();
  s << "rotation " << q.coeffs().transpose() << "\nkeypoints " << f.kp.format(full) << "\n";
  Eigen::Matrix2Xd pred(2, s.i(0, 5));
  pred.setConstant(-7);
  std::vector<unsigned char> success(s.i(0, 5), 1);
  if (f.type == 0 && s.boolean()) aslam::predictKeypointsByRotation(*f.f, aslam::Quaternion(q), &pred, &success);
  else aslam::predictKeypointsByRotation(*f.f, aslam::Quaternion(q), &pred, &success, f.type);
  REQ_EQ(pred.cols(), f.kp.cols()) << "predictions";
  REQ_EQ(success.size(), static_cast<size_t>(f.kp.cols())) << "flags";
  const Eigen::Matrix3d R = q.toRotationMatrix();
  for (int i = 0; i < f.kp.cols(); ++i) {
    Eigen::Vector3d ray;
    const bool bp = cam.cam->backProject3(f.kp.col(i), &ray);
    if (!bp) {
      REQ(!success[i]) << "keypoint " << i << " has no ray but a prediction";
      REQ(pred.col(i) == f.kp.col(i)) << "failed prediction of keypoint " << i << " moved";
      continue;
    }
    const Eigen::Vector3d turned = R * ray;
    // Rays that differ by rounding: where they disagree the outcome is open.
    int visible = 0, total = 0;
    Eigen::Vector2d u, v;
    double wobble = 0;
    for (int t = 0; t < 7; ++t) {
      Eigen::Vector3d r = turned;
      if (t) r((t - 1) / 2) += (t % 2 ? 1 : -1) * 1e-9 * turned.norm();
      const aslam::ProjectionResult res = cam.cam->project3(r, t ? &v : &u);
      visible += res.isKeypointVisible();
      ++total;
      if (t) wobble = std::max(wobble, (u - v).norm());
    }
    if (visible != 0 && visible != total) continue;
    REQ_EQ(static_cast<bool>(success[i]), visible != 0) << "keypoint " << i << " at " << f.kp.col(i).transpose();
    if (!visible) {
      REQ(pred.col(i) == f.kp.col(i)) << "failed prediction of keypoint " << i << " moved to " << pred.col(i).transpose();
      s.label("left the image");
      continue;
    }
    REQ((pred.col(i) - u).norm() <= 1e-6 + wobble) << "keypoint " << i << " predicted at " << pred.col(i).transpose() << " and not at " << u.transpose();
    if (std::abs(q.w()) < 1 - 1e-6) s.nontrivial();
  }
}

PBT_PROP(bearings, "at least two matches between different keypoint numbers", 30000, 2000000) {
  cref::Cam cam1 = cref::camera(s, 3), cam0 = cref::camera(s, 3);
  cam1.cam = cref::build(cam1);
  cam0.cam = cref::build(cam0);
  const int type = s.i(0, 2);
  const CameraFrame f1 = cameraFrame(s, cam1, type, 1), f0 = cameraFrame(s, cam0, type, 1);
  aslam::FrameToFrameMatches m;
  const int n = f1.kp.cols() > 200 || f0.kp.cols() > 200 ? s.i(10, 40) : s.size(0, 10);
  int different = 0;
  for (int i = 0; i < n; ++i) {
    m.emplace_back(static_cast<int>(s.draw(f1.kp.cols())), static_cast<int>(s.draw(f0.kp.cols())));
    different += m.back().first != m.back().second;
  }
  s << cref::show(cam1) << cref::show(cam0) << "keypoints " << f1.kp.format(full) << " and " << f0.kp.format(full) << "\n";
  for (const auto& x : m) s << x.first << " <- " << x.second << "\n";
  Aligned<std::vector, Eigen::Vector3d> b1(s.i(0, 3)), b0(s.i(0, 3));
  aslam::getBearingVectorsFromMatches(*f1.f, *f0.f, m, type, &b1, &b0);
  REQ_EQ(b1.size(), m.size()) << "bearing vectors";
  REQ_EQ(b0.size(), m.size()) << "bearing vectors";
  for (int i = 0; i < n; ++i) {
    Eigen::Vector3d r1, r0;
  if (cam1.cam->backProject3(f1.kp.col(m[i].first), &r1) && r1.allFinite()) {
      r1.normalize();
      REQ((b1[i] - r1).norm() < 1e-9) << "match " << i << ": " << b1[i].transpose() << " and not " << r1.transpose();
    }
    if (cam0.cam->backProject3(f0.kp.col(m[i].second), &r0) && r0.allFinite()) {
      r0.normalize();
      REQ((b0[i] - r0).norm() < 1e-9) << "match " << i << ": " << b0[i].transpose() << " and not " << r0.transpose();
    }
  }
  if (different >= 2) s.nontrivial();
}
