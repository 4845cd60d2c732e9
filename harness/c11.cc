// C11: weighted occupancy grid against a cell-by-cell model.
#include <opencv2/imgproc/imgproc_c.h>

#include <algorithm>
#include <cmath>
#include <map>
#include <random>
#include <set>
#include <vector>

#include <aslam/common/occupancy-grid.h>

#include "pbt.h"
#include "util.h"

const char* pbt::kProperty = "C11";
using pbt::Source;
namespace ac = aslam::common;

namespace {
template <typename C, typename W>
struct Harness {
  typedef ac::WeightedKeypoint<C, W, int> Point;
  typedef ac::WeightedOccupancyGrid<Point> Grid;
  typedef std::pair<int, int> Cell;

  explicit Harness(Source& src) : s(src) {}
  Source& s;
  C rows, cols, cell_r, cell_c;
  int nr, nc;
  // id -> point, the model's content
  std::map<int, Point> content;
  int next_id = 0;
  bool interesting = false;

  Cell cellOf(const Point& p) const {
    return Cell(std::min(nr - 1, static_cast<int>(std::floor(static_cast<double>(p.u_rows) / cell_r))),
                std::min(nc - 1, static_cast<int>(std::floor(static_cast<double>(p.v_cols) / cell_c))));
  }
  static bool same(const Point& a, const Point& b) {
    return a.u_rows == b.u_rows && a.v_cols == b.v_cols && a.weight == b.weight && a.id == b.id;
  }
  C coordinate(C limit, C cell) {
    double v;
    const double step = std::is_integral<C>::value ? 1.0 : 0.25;
    switch (s.draw(6)) {
      case 0: v = 0; break;
      case 1: v = std::floor((limit - step) / step) * step; break;      // close to the far border
      case 2: v = cell * s.i(0, static_cast<int>(limit / cell)); break;  // cell border
      case 3: v = cell * s.i(0, static_cast<int>(limit / cell)) + step * s.i(-1, 1); break;
      default: v = step * s.i(0, static_cast<int>(limit / step)); break;
    }
    if (v >= limit) v = std::floor((limit - step) / step) * step;
    return static_cast<C>(std::max(0.0, v));
  }
  W weight() {
    switch (s.draw(5)) {
      case 4: return static_cast<W>(s.i(std::is_signed<W>::value ? -1000000 : 0, 1000000));
      case 0: return static_cast<W>(s.i(0, 2));
      case 1: return static_cast<W>(1);
      case 2: return std::is_signed<W>::value ? static_cast<W>(s.i(-50, 50)) : static_cast<W>(s.i(0, 90));
      default: return static_cast<W>(s.real(0, 100));
    }
  }
  Point point() { return Point(coordinate(rows, cell_r), coordinate(cols, cell_c), weight(), next_id++); }
  std::vector<Point> inCell(Cell c) const {
    std::vector<Point> r;
    for (auto& e : content)
      if (cellOf(e.second) == c) r.push_back(e.second);
    return r;
  }
  std::map<int, Point> actual(const Grid& g) {
    typename Grid::PointList list;
    if (s.boolean()) list.push_back(Point(0, 0, 0, -7));  // must be cleared
    const size_t n = g.getAllPointsInGrid(&list);
    PBT_EQ(n, list.size(), "returned count");
    PBT_EQ(n, g.getNumPoints(), "getNumPoints");
    std::map<int, Point> m;
    for (const Point& p : list) PBT_CHECK(m.emplace(p.id, p).second, "point " << p.id << " is stored twice");
    return m;
  }
  // After: every point of the grid is a point of the model with the same data.
  void compare(const Grid& g, const char* what) {
    const std::map<int, Point> a = actual(g);
    PBT_EQ(a.size(), content.size(), "number of points after " << what);
    for (auto& e : content) {
      auto it = a.find(e.first);
      PBT_CHECK(it != a.end(), "point " << e.first << " is missing after " << what);
      PBT_CHECK(same(it->second, e.second), "point " << e.first << " changed by " << what);
    }
  }
  void cells(Grid& g) {
    const Grid& cg = g;
    for (int i = 0; i < nr; ++i) {
      for (int j = 0; j < nc; ++j) {
        const C u = static_cast<C>(std::min<double>(i * cell_r, rows));
        const C v = static_cast<C>(std::min<double>(j * cell_c, cols));
        if (!(u < rows && v < cols)) continue;
        std::set<int> want, got;
        for (const Point& p : inCell(Cell(i, j))) want.insert(p.id);
        for (const Point& p : g.getGridCell(u, v)) got.insert(p.id);
        PBT_CHECK(want == got, "cell " << i << "," << j << " holds " << got.size() << " points, expected " << want.size());
        PBT_EQ(cg.getGridCell(u, v).size(), want.size(), "const access");
      }
    }
  }
  void mask(Grid& g) {
    const C radius = static_cast<C>(s.i(1, 4));
    const size_t full = static_cast<size_t>(s.i(1, 4));
    const cv::Mat m = g.getOccupancyMask(radius, full);
    PBT_CHECK(m.rows == static_cast<int>(std::floor(rows)) && m.cols == static_cast<int>(std::floor(cols)) && m.type() == CV_8UC1,
              "mask geometry");
    std::map<Cell, int> count;
    for (auto& e : content) ++count[cellOf(e.second)];
    for (int y = 0; y < m.rows; ++y) {
      for (int x = 0; x < m.cols; ++x) {
        const bool free = m.at<unsigned char>(y, x) == 255;
        PBT_CHECK(free || m.at<unsigned char>(y, x) == 0, "mask value");
        bool must = false, may = false;
        for (auto& e : content) {
          const double dy = y - std::floor(static_cast<double>(e.second.u_rows));
          const double dx = x - std::floor(static_cast<double>(e.second.v_cols));
          const double d = std::sqrt(dx * dx + dy * dy);
          must = must || d <= radius - 1.0 || d == 0.0 || ((dx == 0 || dy == 0) && d <= radius);
          may = may || d <= radius + 1.0;
        }
        for (auto& c : count) {
          if (c.second < static_cast<int>(full)) continue;
          const double y0 = c.first.first * static_cast<double>(cell_r), y1 = y0 + cell_r;
          const double x0 = c.first.second * static_cast<double>(cell_c), x1 = x0 + cell_c;
          // whole pixels of the cell; fractional borders are left open
          must = must || (y >= y0 && y + 1 <= y1 && x >= x0 && x + 1 <= x1);
          may = may || (y + 1 > y0 && y < y1 && x + 1 > x0 && x < x1);
        }
        PBT_CHECK(!(must && free), "pixel " << y << "," << x << " should be masked");
        PBT_CHECK(may || free, "pixel " << y << "," << x << " is masked without reason");
      }
    }
  }

  // Cells and points beyond what one byte counts.
  void preload(Grid& g) {
    std::mt19937 rng(static_cast<unsigned>(s.draw(1u << 30)));
    const double step = std::is_integral<C>::value ? 1.0 : 0.25;
    const int n = s.i(250, 1500), weights = s.boolean() ? 3 : 1000000, base = std::is_signed<W>::value && s.boolean() ? -1 : 0;
    const bool dense = s.chance(1, 3);  // most of them in one cell
    const auto below = [&](double limit) { return static_cast<C>(step * static_cast<int>(rng() % std::max(1u, static_cast<unsigned>(std::ceil(limit / step))))); };
    for (int i = 0; i < n; ++i) {
      const bool first = dense && rng() % 8;
      C u = below(first ? std::min<double>(rows, cell_r) : rows), v = below(first ? std::min<double>(cols, cell_c) : cols);
      if (!(u < rows)) u = 0;
      if (!(v < cols)) v = 0;
      const Point p(u, v, static_cast<W>(static_cast<int>(rng() % weights) + base), next_id++);
      g.addPointUnconditional(p);
      content.emplace(p.id, p);
    }
    s << n << " points, ";
    compare(g, "addPointUnconditional");
  }

  // Points of the neighbouring cells that are as close as possible.
  void surround(Grid& g, const Point& p) {
    const double step = std::is_integral<C>::value ? 1.0 : 0.25;
    const auto line = [&](double x, double cell, double limit) {
      std::vector<double> at(1, x);
      const double first = std::floor(x / cell) * cell;
      if (first - step >= 0) at.push_back(first - step);
      if (first + cell < limit) at.push_back(first + cell);
      return at;
    };
    const std::vector<double> us = line(static_cast<double>(p.u_rows), cell_r, rows), vs = line(static_cast<double>(p.v_cols), cell_c, cols);
    s << "around(" << p.u_rows << "," << p.v_cols << ") ";
    for (double u : us)
      for (double v : vs) {
        if (s.chance(1, 12)) continue;
        const Point q(static_cast<C>(u), static_cast<C>(v), weight(), next_id++);
        g.addPointUnconditional(q);
        content.emplace(q.id, q);
      }
    compare(g, "addPointUnconditional");
  }

  void run(bool large = false) {
    const bool integral = std::is_integral<C>::value;
    auto dim = [&](double* cell) {
      const double unit = integral ? 1.0 : s.oneOf<double>({1.0, 0.5, 0.25});
      *cell = unit * s.i(1, large ? 60 : 8);
      double total = *cell * (large ? s.boolean() ? s.i(1, 3) : s.i(1, 40) : s.i(1, 6));
      if (s.boolean()) total += unit * s.i(0, static_cast<int>(*cell / unit) - 1);
      if (total < 1.0) total = std::ceil(1.0 / *cell) * *cell;
      return total;
    };
    double cr, cc;
    rows = static_cast<C>(dim(&cr));
    cols = static_cast<C>(dim(&cc));
    cell_r = static_cast<C>(cr);
    cell_c = static_cast<C>(cc);
    nr = static_cast<int>(std::ceil(static_cast<double>(rows) / cr));
    nc = static_cast<int>(std::ceil(static_cast<double>(cols) / cc));
    s << rows << "x" << cols << " cells " << cell_r << "x" << cell_c << ": ";
    Grid g(rows, cols, cell_r, cell_c);
    if (large) preload(g);
    const int ops = large ? s.i(1, 6) : s.size(1, 40);
    for (int k = 0; k < ops; ++k) {
      switch (s.draw(9)) {
        case 0: case 1: {
          const Point p = point();
          s << "add(" << p.u_rows << "," << p.v_cols << "," << p.weight << ") ";
          g.addPointUnconditional(p);
          content.emplace(p.id, p);
          compare(g, "addPointUnconditional");
          break;
        }
        case 2: case 3: {
          const Point p = point();
          const size_t limit = static_cast<size_t>(large && s.boolean() ? s.i(1, 1000) : s.i(1, 3));
          s << "addfull(" << p.u_rows << "," << p.v_cols << "," << p.weight << "; " << limit << ") ";
          const std::vector<Point> before = inCell(cellOf(p));
          const bool added = g.addPointOrReplaceWeakestIfCellFull(p, limit);
          if (before.size() < limit) {
            PBT_CHECK(added, "refused although the cell is not full");
            content.emplace(p.id, p);
          } else {
            const Point weakest = *std::min_element(before.begin(), before.end());
            PBT_EQ(added, weakest.weight < p.weight, "replacement decision, weakest " << weakest.weight);
            interesting = true;
            if (added) {
              // exactly one point of the lowest weight is gone
              const std::map<int, Point> now = actual(g);
              int gone = -1;
              for (const Point& q : before)
                if (!now.count(q.id)) {
                  PBT_CHECK(gone == -1, "several points replaced");
                  PBT_CHECK(!(weakest.weight < q.weight), "replaced a point of weight " << q.weight << " instead of the weakest");
                  gone = q.id;
                }
              PBT_CHECK(gone >= 0, "no point replaced");
              content.erase(gone);
              content.emplace(p.id, p);
            }
          }
          compare(g, "addPointOrReplaceWeakestIfCellFull");
          break;
        }
        case 4: case 5: {
          const Point p = point();
          if (s.chance(1, 8)) surround(g, p);
          const double most = std::min<double>(cell_r, cell_c);
          C d = static_cast<C>(s.boolean() ? most : most * s.i(1, 4) / 4.0);
          if (!(d > 0)) d = 1;
          s << "addnear(" << p.u_rows << "," << p.v_cols << "," << p.weight << "; " << d << ") ";
          std::vector<Point> conflict;
          for (auto& e : content) {
            const double du = static_cast<double>(p.u_rows) - e.second.u_rows, dv = static_cast<double>(p.v_cols) - e.second.v_cols;
            if (du * du + dv * dv < static_cast<double>(d) * d) conflict.push_back(e.second);
          }
          g.addPointOrReplaceWeakestNearestPoints(p, d);
          content.emplace(p.id, p);
          if (!conflict.empty()) {
            interesting = true;
            conflict.push_back(p);
            const W best = std::max_element(conflict.begin(), conflict.end())->weight;
            const std::map<int, Point> now = actual(g);
            int kept = -1;
            for (const Point& q : conflict)
              if (now.count(q.id)) {
                PBT_CHECK(kept == -1, "points " << kept << " and " << q.id << " both kept");
                kept = q.id;
                PBT_CHECK(!(q.weight < best), "kept weight " << q.weight << " instead of " << best);
              }
            PBT_CHECK(kept >= 0, "all conflicting points removed");
            for (const Point& q : conflict)
              if (q.id != kept) content.erase(q.id);
          }
          compare(g, "addPointOrReplaceWeakestNearestPoints");
          break;
        }
        case 6: {
          const size_t limit = static_cast<size_t>(large && s.chance(3, 4) ? s.i(1, 600) : s.i(1, 4));
          s << "percell(" << limit << ") ";
          const std::map<int, Point> before = content;
          const size_t removed = g.removeWeightedPointsFromOverfullCells(limit);
          thinned(g, before, [&](size_t n) { return std::min(n, limit); });
          PBT_EQ(removed, before.size() - content.size(), "returned number of removed points");
          interesting = interesting || removed > 0;
          compare(g, "removeWeightedPointsFromOverfullCells");
          break;
        }
        case 7: {
          const size_t limit = static_cast<size_t>(large && s.chance(3, 4) ? s.i(1, 1500) : s.chance(1, 3) ? s.i(1, 3) : s.i(1, 20));
          s << "total(" << limit << ") ";
          const std::map<int, Point> before = content;
          std::map<Cell, size_t> sizes;
          for (auto& e : before) ++sizes[cellOf(e.second)];
          g.removePointsFromFullestCellsUntilSize(limit);
          PBT_EQ(g.getNumPoints(), std::min(limit, before.size()), "points left");
          thinned(g, before, nullptr);
          std::map<Cell, size_t> left;
          for (auto& c : sizes) left[c.first] = 0;
          for (auto& e : content) ++left[cellOf(e.second)];
          size_t most = 0;
          for (auto& c : left) most = std::max(most, c.second);
          for (auto& c : sizes) {
            if (left[c.first] < c.second) {
              PBT_CHECK(left[c.first] + 1 >= most, "a cell was thinned to " << left[c.first] << " while another keeps " << most);
            }
          }
          interesting = interesting || before.size() > limit;
          compare(g, "removePointsFromFullestCellsUntilSize");
          break;
        }
        default: {
          if (s.chance(1, 3)) {
            s << "reset ";
            g.reset();
            content.clear();
          } else {
            const W w = weight();
            s << "weights(" << w << ") ";
            g.setConstantWeightForAllPointsInGrid(w);
            for (auto& e : content) e.second.weight = w;
          }
          compare(g, "reset/setConstantWeight");
          break;
        }
      }
      if (s.chance(1, large ? 12 : 4)) cells(g);
    }
    cells(g);
    // (cells below one pixel have no meaningful pixel mask)
    if (cell_r >= 1 && cell_c >= 1 && s.chance(1, 3) && static_cast<double>(rows) * cols * content.size() < 2e6) mask(g);
    s.nontrivial(interesting);
  }

  // Takes over what the grid kept after checking that every cell kept its
  // strongest points (and, where given, exactly the right number of them).
  void thinned(Grid& g, const std::map<int, Point>& before, const std::function<size_t(size_t)>& want) {
    const std::map<int, Point> now = actual(g);
    for (auto& e : now) PBT_CHECK(before.count(e.first), "point " << e.first << " appeared");
    std::map<Cell, std::vector<Point>> groups;
    for (auto& e : before) groups[cellOf(e.second)].push_back(e.second);
    content.clear();
    for (auto& c : groups) {
      std::vector<Point>& pts = c.second;
      std::sort(pts.begin(), pts.end(), [](const Point& a, const Point& b) { return b.weight < a.weight; });
      size_t kept = 0;
      for (const Point& p : pts) kept += now.count(p.id);
      if (want) PBT_EQ(kept, want(pts.size()), "points left in a cell of " << pts.size());
      for (const Point& p : pts) {
        if (!now.count(p.id)) continue;
        content.emplace(p.id, p);
        PBT_CHECK(kept > 0 && !(p.weight < pts[kept - 1].weight), "kept weight " << p.weight << ", a stronger one was dropped");
      }
    }
  }
};
}  // namespace

PBT_PROP(history, "a replacement, minimum distance conflict or thinning took effect", 120000, 2000000, true) {
  switch (s.draw(4)) {
    case 0: { Harness<double, double> h(s); h.run(); break; }
    case 1: { Harness<float, double> h(s); h.run(); break; }
    case 2: { Harness<int, int> h(s); h.run(); break; }
    default: { Harness<double, unsigned> h(s); h.run(); break; }
  }
}

// Arbitrary geometry: every coordinate inside the image belongs to a cell.
PBT_PROP(large, "more than 255 points and a replacement, conflict or thinning took effect", 400, 12000, true) {
  switch (s.draw(4)) {
    case 0: { Harness<double, double> h(s); h.run(true); break; }
    case 1: { Harness<float, double> h(s); h.run(true); break; }
    case 2: { Harness<int, int> h(s); h.run(true); break; }
    default: { Harness<double, unsigned> h(s); h.run(true); break; }
  }
}

PBT_PROP(every_coordinate, "the cell size does not divide the image size exactly", 200000, 3000000) {
  typedef ac::WeightedKeypoint<double, double, int> Point;
  double dims[2], cell[2];
  int n[2];
  for (int d = 0; d < 2; ++d) {
    dims[d] = s.chance(1, 2) ? s.i(1, 2000) : s.real(0.5, 2000);
    n[d] = s.i(1, 64);
    cell[d] = s.chance(3, 4) ? dims[d] / n[d] : std::min(dims[d], s.real(dims[d] / 64, dims[d]));
  }
  ac::WeightedOccupancyGrid<Point> g(dims[0], dims[1], cell[0], cell[1]);
  double u[2];
  for (int d = 0; d < 2; ++d) {
    switch (s.draw(5)) {
      case 0: u[d] = std::nextafter(dims[d], 0.0); break;
      case 1: u[d] = cell[d] * s.i(0, n[d]); break;
      case 2: u[d] = std::nextafter(cell[d] * s.i(0, n[d]), s.boolean() ? 0.0 : 1e9); break;
      case 3: u[d] = s.oneOf<double>({0.0, -0.0, 5e-324, 1e-300}); break;
      default: u[d] = s.real(0, dims[d]);
    }
    if (!(u[d] < dims[d])) u[d] = std::nextafter(dims[d], 0.0);
    if (u[d] < 0) u[d] = 0;
  }
  s.nontrivial(std::fmod(dims[0], cell[0]) != 0 || std::fmod(dims[1], cell[1]) != 0);
  char text[200];
  snprintf(text, sizeof text, "%.17g x %.17g cells %.17g x %.17g at %.17g,%.17g", dims[0], dims[1], cell[0], cell[1], u[0], u[1]);
  s << text;
  const Point p(u[0], u[1], 1.0, 7);
  switch (s.draw(3)) {
    case 0: g.addPointUnconditional(p); break;
    case 1: PBT_CHECK(g.addPointOrReplaceWeakestIfCellFull(p, 1), "refused in an empty grid"); break;
    default: g.addPointOrReplaceWeakestNearestPoints(p, std::min(cell[0], cell[1]));
  }
  PBT_EQ(g.getNumPoints(), size_t(1), "points");
  PBT_EQ(g.getGridCell(u[0], u[1]).size(), size_t(1), "the point's own cell");
  // The cell covers the coordinate, up to the rounding of its borders.
  const double tol = 1e-12;
  double in[2];
  bool testable = true;
  for (int d = 0; d < 2; ++d) {
    const double k = std::floor(u[d] / cell[d]);
    const double frac = u[d] / cell[d] - k;
    if (frac < tol || frac > 1 - tol) testable = false;
    in[d] = (k + 0.5) * cell[d];
    if (!(in[d] < dims[d])) testable = false;
  }
  if (testable) PBT_EQ(g.getGridCell(in[0], in[1]).size(), size_t(1), "cell centre at " << in[0] << "," << in[1]);
  typename ac::WeightedOccupancyGrid<Point>::PointList all;
  g.getAllPointsInGrid(&all);
  PBT_CHECK(all.size() == 1 && all[0].u_rows == u[0] && all[0].v_cols == u[1] && all[0].id == 7, "stored point");
}

PBT_PROP(refusals, "always", 60, 600) {
  s.nontrivial();
  typedef ac::WeightedKeypoint<double, double, int> Point;
  const double rows = s.i(2, 9), cols = s.i(2, 9);
  const double bad_u = s.oneOf<double>({-1.0, -1e-9, rows, rows + 1, std::nan("")});
  const bool swap = s.boolean();
  const double u = swap ? 0.5 : bad_u, v = swap ? (bad_u == rows ? cols : bad_u == rows + 1 ? cols + 1 : bad_u) : 0.5;
  s << rows << "x" << cols << " point " << u << "," << v;
  const int how = s.i(0, 3);
  const pbt::Fate f = pbt::fateOf([&] {
    ac::WeightedOccupancyGrid<Point> g(rows, cols, 1.0, 1.0);
    const Point p(u, v, 1.0, 1);
    if (how == 0) g.addPointUnconditional(p);
    if (how == 1) g.addPointOrReplaceWeakestIfCellFull(p, 1);
    if (how == 2) g.addPointOrReplaceWeakestNearestPoints(p, 1.0);
    if (how == 3) g.getGridCell(u, v);
  });
  PBT_CHECK(f == pbt::Fate::kAborted, "a coordinate outside the image " << pbt::fateName(f));
}
