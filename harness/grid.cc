// Simulated workloads for the weighted occupancy grid.
//   C25 the grid keeps exactly the points its rules say
#include <aslam/common/memory.h>
#include <aslam/common/occupancy-grid.h>

#include <cmath>
#include <memory>
#include <new>
#include <thread>
#include <vector>

#include "simrt.h"

namespace {
using sim::Op;
using sim::Plan;
using sim::Rng;

enum OpCode {
  kAdd = 1,  // seed
  kAddCell,  // seed, max. points per cell
  kAddNear,  // seed, min. distance in per mille of the cell size
  kTrim,     // max. points per cell
  kShrink,   // max. total number of points
  kReset,
  kWeights,  // weight
  kMask,     // radius, max. points per cell
  kBad,      // kind of mistake, seed
  kShared,   // reads the grid of thread 0 after the first phase
};
enum CfgIdx { kType = 0, kRows, kCols, kCellRows, kCellCols, kScale, kAlloc, kSpread, kDims };
enum Mistake { kNegativeRow = 0, kNegativeCol, kBeyondRow, kBeyondCol, kNoRoom, kNoDistance, kFarDistance, kNothingLeft, kTrimAll, kNoRadius, kNotANumber, kMistakes };

struct Ctx {
  bool mistake[sim::kMaxSimThreads];
  int ready = 0;
};
Ctx* C = nullptr;
void on_abort() {
  if (C->mistake[sim::tid()]) sim::set_abort_ok(true);
}

struct Known {  // one point of the model
  double u, v, w;
  int i, j;     // its cell
};

template <typename T, typename W>
struct Subject {
  typedef aslam::common::WeightedKeypoint<T, W, int> Point;
  typedef aslam::common::WeightedOccupancyGrid<Point> Grid;
  typedef typename Grid::PointList List;

  std::unique_ptr<Grid> grid;
  T max_u, max_v, cell_u, cell_v;
  int rows, cols;
  double eps;           // slack where the coordinates are not exact
  int spread = 0;
  int next_id = 0;
  std::vector<Known> all;      // every point ever made, by id
  std::vector<char> in;        // is it in the grid?

  static double number(int64_t quarters, int64_t scale) {
    if (!std::is_floating_point<T>::value) return static_cast<double>(quarters);
    return scale ? quarters * 0.1 : quarters * 0.25;
  }
  void init(const Plan& plan) {
    const int64_t scale = plan.cfg[kScale];
    cell_u = static_cast<T>(number(plan.cfg[kCellRows], scale));
    cell_v = static_cast<T>(number(plan.cfg[kCellCols], scale));
    max_u = std::max(cell_u, static_cast<T>(number(plan.cfg[kRows], scale)));
    max_v = std::max(cell_v, static_cast<T>(number(plan.cfg[kCols], scale)));
    eps = scale && std::is_floating_point<T>::value ? 1e-3 : 0.0;
    spread = static_cast<int>(plan.cfg[kSpread]);
    grid.reset(new Grid(max_u, max_v, cell_u, cell_v));
    rows = static_cast<int>(std::ceil(static_cast<double>(max_u) / cell_u));
    cols = static_cast<int>(std::ceil(static_cast<double>(max_v) / cell_v));
  }
  T coordinate(Rng& r, T max, T cell) {
    const int n = static_cast<int>(std::ceil(static_cast<double>(max) / cell));
    T x;
    switch (r.below(8)) {
      case 0: x = 0; break;
      case 1:  // the last value that is still inside
        x = std::is_floating_point<T>::value ? static_cast<T>(std::nextafter(max, static_cast<T>(0))) : static_cast<T>(max - 1);
        break;
      case 2: x = static_cast<T>(cell * static_cast<T>(r.below(n))); break;  // on a border
      case 3:  // just below a border
        x = static_cast<T>(cell * static_cast<T>(1 + r.below(n)));
        x = std::is_floating_point<T>::value ? static_cast<T>(std::nextafter(x, static_cast<T>(0))) : static_cast<T>(x - 1);
        break;
      default: {
        // The points crowd in the first cells.
        const double reach = spread ? std::min<double>(max, spread * 0.5 * cell) : max;
        x = std::is_floating_point<T>::value ? static_cast<T>(std::floor(reach * 4 * (r.below(1000) / 1000.0)) / 4)
                                             : static_cast<T>(reach * (r.below(1000) / 1000.0));
      }
    }
    if (!(x < max)) x = 0;
    return x;
  }
  Point point(Rng& r) {
    const T u = coordinate(r, max_u, cell_u), v = coordinate(r, max_v, cell_v);
    const W w = static_cast<W>(r.range(-3, 3));
    const int id = next_id++;
    sim::Quiet q;
    all.push_back({static_cast<double>(u), static_cast<double>(v), static_cast<double>(w), -1, -1});
    in.push_back(0);
    return Point(u, v, w, id);
  }

  struct State {
    std::vector<std::vector<int>> cell;  // ids
    std::vector<double> weight;          // by id
    std::vector<char> in;
    size_t total = 0;
    size_t fullest = 0;
  };
  // Reads the whole grid and checks what holds at all times.
  State state(const char* what) {
    sim::Quiet q;
    State s;
    s.in.assign(all.size(), 0);
    s.weight.assign(all.size(), 0);
    s.cell.resize(rows * cols);
    std::vector<const List*> seen;
    for (int i = 0; i < rows; ++i)
      for (int j = 0; j < cols; ++j) {
        const T u = middle(i, cell_u, max_u), v = middle(j, cell_v, max_v);
        const List* cell = &grid->getGridCell(u, v);
        bool known = false;  // rounding may leave the last cells without room
        for (const List* x : seen) known = known || x == cell;
        if (known) continue;
        seen.push_back(cell);
        for (const Point& p : *cell) {
          if (p.id < 0 || p.id >= next_id) sim::fail("C25", "foreign-point", "after %s the grid holds a point with id %d", what, p.id);
          if (s.in[p.id]) sim::fail("C25", "twice", "after %s point %d is in the grid twice", what, p.id);
          const Known& k = all[p.id];
          if (static_cast<double>(p.u_rows) != k.u || static_cast<double>(p.v_cols) != k.v)
            sim::fail("C25", "moved", "after %s point %d lies at (%g, %g) instead of (%g, %g)", what, p.id, (double)p.u_rows, (double)p.v_cols, k.u, k.v);
          if (static_cast<double>(p.weight) != k.w)
            sim::fail("C25", "weight", "after %s point %d has weight %g instead of %g", what, p.id, (double)p.weight, k.w);
          if (k.u < (double)cell_u * i - eps || k.u >= (double)cell_u * (i + 1) + eps || k.v < (double)cell_v * j - eps || k.v >= (double)cell_v * (j + 1) + eps)
            sim::fail("C25", "wrong-cell", "after %s point %d at (%g, %g) is in cell (%d, %d)", what, p.id, k.u, k.v, i, j);
          s.in[p.id] = 1;
          s.cell[i * cols + j].push_back(p.id);
          all[p.id].i = i;
          all[p.id].j = j;
          ++s.total;
        }
        s.fullest = std::max(s.fullest, s.cell[i * cols + j].size());
      }
    if (grid->getNumPoints() != s.total)
      sim::fail("C25", "count", "after %s the grid reports %zu points and holds %zu", what, grid->getNumPoints(), s.total);
    List list;
    list.emplace_back(T(), T(), W(), -5);
    if (grid->getAllPointsInGrid(&list) != s.total || list.size() != s.total)
      sim::fail("C25", "count", "after %s the list of all points has %zu entries for %zu points", what, list.size(), s.total);
    std::vector<char> listed(all.size(), 0);
    for (const Point& p : list) {
      if (p.id < 0 || p.id >= next_id || listed[p.id] || !s.in[p.id])
        sim::fail("C25", "list", "after %s the list of all points has a wrong entry (id %d)", what, p.id);
      listed[p.id] = 1;
    }
    const auto f = grid->getFullestGridCell();
    if (f.i_rows >= static_cast<size_t>(rows) || f.j_cols >= static_cast<size_t>(cols) || s.cell[f.i_rows * cols + f.j_cols].size() != s.fullest)
      sim::fail("C25", "fullest", "after %s cell (%zu, %zu) counts as the fullest", what, f.i_rows, f.j_cols);
    return s;
  }
  static T middle(int i, T cell, T max) {
    const T lo = static_cast<T>(cell * static_cast<T>(i));
    const T hi = std::min(max, static_cast<T>(cell * static_cast<T>(i + 1)));
    const T m = static_cast<T>(lo + (hi - lo) / 2);
    return m < max ? m : static_cast<T>(std::nextafter(static_cast<double>(max), 0.0)) < max
                             ? static_cast<T>(std::nextafter(static_cast<double>(max), 0.0))
                             : std::nextafter(static_cast<float>(max), 0.0f);
  }
  void expect(const std::vector<char>& want, const State& s, const char* what) {
    for (int id = 0; id < next_id; ++id) {
      if (want[id] == s.in[id]) continue;
      sim::fail("C25", want[id] ? "lost-point" : "extra-point", "after %s point %d (%g, %g; weight %g) is %s the grid", what, id, all[id].u, all[id].v,
                all[id].w, want[id] ? "no longer in" : "still in");
    }
    in = s.in;
  }
  // After a failed allocation: nothing but a subset of the points.
  void after_failure(int id, const char* what) {
    sim::probe("allocation_failed");
    const State s = state(what);
    for (int k = 0; k < next_id; ++k)
      if (s.in[k] && !in[k] && k != id) sim::fail("C25", "extra-point", "after %s that failed point %d is back in the grid", what, k);
    in = s.in;
  }

  void run_op(const Op& op) {
    Rng r(static_cast<uint64_t>(op.a[0]));
    std::vector<char> want;
    switch (op.code) {
      case kAdd: {
        const Point p = point(r);
        try {
          sim::AllocFaultScope scope;
          grid->addPointUnconditional(p);
        } catch (const std::bad_alloc&) {
          after_failure(p.id, "adding a point");
          return;
        }
        sim::Quiet q;
        want = in;
        want[p.id] = 1;
        expect(want, state("adding a point"), "adding a point");
        break;
      }
      case kAddCell: {
        const Point p = point(r);
        const size_t max = static_cast<size_t>(op.a[1]);
        const State before = state("an earlier call");
        bool added = false;
        try {
          sim::AllocFaultScope scope;
          added = grid->addPointOrReplaceWeakestIfCellFull(p, max);
        } catch (const std::bad_alloc&) {
          after_failure(p.id, "adding a point to a cell");
          return;
        }
        sim::Quiet q;
        const char* what = "adding a point to a cell with a limit";
        const State s = state(what);
        // Which cell?  Where the point is now, or where it would have gone.
        int c = -1;
        if (s.in[p.id]) {
          c = all[p.id].i * cols + all[p.id].j;
        } else {
          const List* cell = &grid->getGridCell(p.u_rows, p.v_cols);
          for (int i = 0; i < rows; ++i)
            for (int j = 0; j < cols; ++j)
              if (c < 0 && &grid->getGridCell(middle(i, cell_u, max_u), middle(j, cell_v, max_v)) == cell) c = i * cols + j;
        }
        if (c < 0) sim::fail("C25", "wrong-cell", "point %d belongs to no cell", p.id);
        const std::vector<int>& b = before.cell[c];
        want = in;
        bool expected = true;
        if (b.size() < max) {
          want[p.id] = 1;
          sim::probe("room_in_cell");
        } else {
          double lowest = all[b[0]].w;
          for (int id : b) lowest = std::min(lowest, all[id].w);
          if (lowest < all[p.id].w) {
            want[p.id] = 1;
            int gone = -1;
            for (int id : b)
              if (!s.in[id] && all[id].w == lowest) gone = id;
            if (gone < 0) sim::fail("C25", "not-the-weakest", "a stronger point was added to a full cell, but none of the weakest was replaced");
            want[gone] = 0;
            sim::probe("weakest_replaced");
          } else {
            expected = false;
            sim::probe("cell_full");
          }
        }
        if (added != expected) sim::fail("C25", "result", "%s returned %s", what, added ? "true" : "false");
        expect(want, s, what);
        break;
      }
      case kAddNear: {
        const Point p = point(r);
        const T d = std::max(static_cast<T>(std::is_floating_point<T>::value ? 0.25 : 1),
                             static_cast<T>(std::min(cell_u, cell_v) * static_cast<double>(op.a[1]) / 1000.0));
        if (d > std::min(cell_u, cell_v)) return;
        try {
          sim::AllocFaultScope scope;
          grid->addPointOrReplaceWeakestNearestPoints(p, d);
        } catch (const std::bad_alloc&) {
          after_failure(p.id, "adding a point at a distance");
          return;
        }
        sim::Quiet q;
        const char* what = "adding a point with a minimum distance";
        const State s = state(what);
        want = in;
        want[p.id] = 1;
        std::vector<int> near;
        bool border = false;
        for (int id = 0; id < next_id; ++id) {
          if (!want[id]) continue;
          const T du = static_cast<T>(p.u_rows - static_cast<T>(all[id].u)), dv = static_cast<T>(p.v_cols - static_cast<T>(all[id].v));
          const T sq = static_cast<T>(du * du + dv * dv), limit = static_cast<T>(d * d);
          if (std::is_floating_point<T>::value && std::abs(static_cast<double>(sq - limit)) < 1e-3 && sq != limit) border = true;
          if (std::is_floating_point<T>::value && eps && std::abs(static_cast<double>(sq - limit)) < 1e-3) border = true;
          if (sq < limit || id == p.id) near.push_back(id);
        }
        if (border) {
          sim::probe("distance_undecided");
          in = s.in;
          break;
        }
        double highest = all[p.id].w;
        for (int id : near) highest = std::max(highest, all[id].w);
        int kept = -1;
        for (int id : near) {
          if (!s.in[id]) continue;
          if (kept >= 0) sim::fail("C25", "too-close", "points %d and %d of one neighbourhood both stayed in the grid", kept, id);
          kept = id;
        }
        if (kept < 0) sim::fail("C25", "lost-point", "no point of the neighbourhood stayed in the grid");
        if (all[kept].w != highest) sim::fail("C25", "not-the-strongest", "point %d with weight %g was kept, the strongest has %g", kept, all[kept].w, highest);
        if (near.size() > 1) sim::probe(kept == p.id ? "neighbours_replaced" : "neighbour_stays");
        if (near.size() > 2) sim::probe("several_neighbours");
        for (int id : near) want[id] = id == kept;
        expect(want, s, what);
        break;
      }
      case kTrim: {
        const size_t max = static_cast<size_t>(op.a[1]);
        const State before = state("an earlier call");
        const size_t removed = grid->removeWeightedPointsFromOverfullCells(max);
        sim::Quiet q;
        const char* what = "trimming the cells";
        const State s = state(what);
        size_t gone = 0;
        for (size_t c = 0; c < before.cell.size(); ++c) {
          const size_t had = before.cell[c].size(), has = s.cell[c].size();
          if (has != std::min(had, max)) sim::fail("C25", "cell-size", "after %s to %zu points a cell of %zu has %zu", what, max, had, has);
          gone += had - has;
        }
        weakest_gone(before, s, what);
        if (removed != gone) sim::fail("C25", "result", "%s returned %zu, %zu points are gone", what, removed, gone);
        if (gone) sim::probe("trimmed");
        in = s.in;
        break;
      }
      case kShrink: {
        const size_t max = static_cast<size_t>(op.a[1]);
        const State before = state("an earlier call");
        grid->removePointsFromFullestCellsUntilSize(max);
        sim::Quiet q;
        const char* what = "shrinking the grid";
        const State s = state(what);
        if (s.total != std::min(max, before.total)) sim::fail("C25", "count", "after %s of %zu points to %zu it holds %zu", what, before.total, max, s.total);
        for (size_t c = 0; c < before.cell.size(); ++c)
          if (s.cell[c].size() < before.cell[c].size() && s.cell[c].size() + 1 < s.fullest)
            sim::fail("C25", "not-the-fullest", "%s took a cell from %zu to %zu points while another has %zu", what, before.cell[c].size(), s.cell[c].size(), s.fullest);
        weakest_gone(before, s, what);
        if (s.total < before.total) sim::probe("shrunk");
        in = s.in;
        break;
      }
      case kReset: {
        grid->reset();
        sim::Quiet q;
        want.assign(next_id, 0);
        expect(want, state("a reset"), "a reset");
        break;
      }
      case kWeights: {
        const W w = static_cast<W>(op.a[1]);
        grid->setConstantWeightForAllPointsInGrid(w);
        sim::Quiet q;
        for (int id = 0; id < next_id; ++id)
          if (in[id]) all[id].w = static_cast<double>(w);
        want = in;
        expect(want, state("setting the weights"), "setting the weights");
        break;
      }
      case kMask: {
        const T radius = static_cast<T>(1 + op.a[1] % 4);
        const size_t max = static_cast<size_t>(op.a[2]);
        const State s = state("an earlier call");
        cv::Mat mask = grid->getOccupancyMask(radius, max);
        sim::Quiet q;
        check_mask(mask, s, static_cast<double>(radius), max);
        want = in;
        expect(want, state("making a mask"), "making a mask");
        break;
      }
      case kBad: {
        Point p = point(r);
        bool add = true;
        C->mistake[sim::tid()] = true;
        switch (op.a[1]) {
          case kNegativeRow: p.u_rows = static_cast<T>(-1); break;
          case kNegativeCol: p.v_cols = static_cast<T>(-1); break;
          case kBeyondRow: p.u_rows = max_u; break;
          case kBeyondCol: p.v_cols = max_v; break;
          case kNotANumber:
            if (!std::is_floating_point<T>::value) p.u_rows = static_cast<T>(-2);
            else p.u_rows = std::numeric_limits<T>::quiet_NaN();
            break;
          case kNoRoom: add = false; grid->addPointOrReplaceWeakestIfCellFull(p, 0); break;
          case kNoDistance: add = false; grid->addPointOrReplaceWeakestNearestPoints(p, static_cast<T>(0)); break;
          case kFarDistance: add = false; grid->addPointOrReplaceWeakestNearestPoints(p, static_cast<T>(std::min(cell_u, cell_v) + 1)); break;
          case kNothingLeft: add = false; grid->removePointsFromFullestCellsUntilSize(0); break;
          case kTrimAll: add = false; grid->removeWeightedPointsFromOverfullCells(0); break;
          case kNoRadius: add = false; grid->getOccupancyMask(static_cast<T>(0), 1); break;
        }
        if (add) switch (r.below(4)) {
            case 0: grid->addPointUnconditional(p); break;
            case 1: grid->addPointOrReplaceWeakestIfCellFull(p, 2); break;
            case 2: grid->addPointOrReplaceWeakestNearestPoints(p, std::min(cell_u, cell_v)); break;
            default: grid->getGridCell(p.u_rows, p.v_cols); break;
          }
        sim::fail("C25", "mistake-accepted", "a call with invalid arguments was accepted (kind %d)", (int)op.a[1]);
      }
    }
  }
  void weakest_gone(const State& before, const State& s, const char* what) {
    for (size_t c = 0; c < before.cell.size(); ++c) {
      double lowest_kept = 1e9, highest_gone = -1e9;
      for (int id : before.cell[c]) {
        if (s.in[id]) lowest_kept = std::min(lowest_kept, all[id].w);
        else highest_gone = std::max(highest_gone, all[id].w);
      }
      if (highest_gone > lowest_kept)
        sim::fail("C25", "not-the-weakest", "%s removed a point of weight %g and kept one of weight %g in the same cell", what, highest_gone, lowest_kept);
      for (int id : s.cell[c])
        if (!before.in[id]) sim::fail("C25", "extra-point", "%s brought point %d back", what, id);
    }
  }
  void check_mask(const cv::Mat& mask, const State& s, double radius, size_t max) {
    if (mask.rows != static_cast<int>(std::floor((double)max_u)) || mask.cols != static_cast<int>(std::floor((double)max_v)) || mask.type() != CV_8UC1)
      sim::fail("C25", "mask", "the mask has %d rows and %d columns", mask.rows, mask.cols);
    for (int y = 0; y < mask.rows; ++y)
      for (int x = 0; x < mask.cols; ++x) {
        bool must = false, may = false;
        for (int id = 0; id < next_id; ++id) {
          if (!s.in[id]) continue;
          const double dy = y - std::floor(all[id].u), dx = x - std::floor(all[id].v), d = std::sqrt(dx * dx + dy * dy);
          if (d <= radius - 1) must = true;
          if (d <= radius + 1.5) may = true;
        }
        for (int i = 0; i < rows; ++i)
          for (int j = 0; j < cols; ++j) {
            if (s.cell[i * cols + j].size() < max) continue;
            // Pixels cut by a cell's border may or may not belong to it.
            const double u0 = (double)cell_u * i, u1 = (double)cell_u * (i + 1), v0 = (double)cell_v * j, v1 = (double)cell_v * (j + 1);
            if (y >= u0 - 2.0 && y < u1 + 1.0 && x >= v0 - 2.0 && x < v1 + 1.0) {
              const bool whole = u0 == std::floor(u0) && u1 == std::floor(u1) && v0 == std::floor(v0) && v1 == std::floor(v1);
              if (!whole) may = true;
              if (y >= u0 && y < u1 && x >= v0 && x < v1) {
                may = true;
                if (y + 1 < u1 && x + 1 < v1 && y >= u0 && x >= v0) must = true;
                if (whole) must = true;
              }
            }
          }
        const int got = mask.at<unsigned char>(y, x);
        if (got != 0 && got != 255) sim::fail("C25", "mask", "a pixel of the mask is %d", got);
        if (must && got) sim::fail("C25", "mask-free", "pixel (%d, %d) near a point or in a full cell is not masked", y, x);
        if (!may && !got) sim::fail("C25", "mask-taken", "pixel (%d, %d) far from all points and outside full cells is masked", y, x);
      }
    sim::probe("mask");
  }
  void read_only() {
    const Grid& g = *grid;
    List l;
    const size_t n = g.getAllPointsInGrid(&l);
    if (n != g.getNumPoints()) sim::fail("C25", "count", "a reader found %zu points, the grid reports %zu", n, g.getNumPoints());
    (void)g.getFullestGridCell();
    cv::Mat m = g.getOccupancyMask(static_cast<T>(2), 2);
    (void)m;
  }
};

template <typename T, typename W>
void run_as(const Plan& plan) {
  std::unique_ptr<Subject<T, W>[]> s(new Subject<T, W>[sim::kMaxThreads]);
  for (int t = 0; t < plan.nthreads; ++t) s[t].init(plan);
  for (int phase = 0; phase < 2; ++phase) {
    std::vector<std::thread> threads;
    for (int t = 0; t < plan.nthreads; ++t)
      threads.emplace_back([t, phase, &plan, &s] {
        bool reads = false;
        for (int i = 0; i < plan.th[t].n; ++i) {
          const Op& op = plan.th[t].ops[i];
          if (op.code == kShared) reads = true;
          else if (phase == 0) s[t].run_op(op);
        }
        if (phase == 1 && reads) s[0].read_only();
      });
    for (std::thread& t : threads) t.join();
  }
  for (int t = 0; t < plan.nthreads; ++t) s[t].expect(s[t].in, s[t].state("everything"), "everything");
  sim::Quiet q;
  s.reset();
}

void run(const Plan& plan) {
  sim::set_default_props("C25");
  sim::set_stuck_props("C25");
  C = new Ctx;
  for (bool& x : C->mistake) x = false;
  sim::set_abort_callback(on_abort);
  switch (plan.cfg[kType]) {
    case 0: run_as<double, double>(plan); break;
    case 1: run_as<float, float>(plan); break;
    case 2: run_as<int, int>(plan); break;
    default: run_as<double, int>(plan); break;
  }
}

void gen(Rng& r, Plan* p, sim::Env* env, bool thorough) {
  const int type = static_cast<int>(r.below(4));
  p->add_cfg(type, type);
  const int64_t cell_u = r.range(1, 12), cell_v = r.chance(0.5) ? cell_u : r.range(1, 12);
  const int64_t unit = type == 2 ? 1 : 4;
  auto size = [&](int64_t c) { return c * unit * r.range(1, 5) + (r.chance(0.5) ? r.range(0, c * unit - 1) : 0); };
  const int64_t rows = size(cell_u), cols = size(cell_v);
  p->add_cfg(rows, 1);
  p->add_cfg(cols, 1);
  p->add_cfg(cell_u * (r.chance(0.7) ? unit : 1), 1);
  p->add_cfg(cell_v * (r.chance(0.7) ? unit : 1), 1);
  if (p->cfg[kRows] / p->cfg[kCellRows] > 8) p->cfg[kRows] = p->cfg[kCellRows] * 8 + r.range(0, 1);
  if (p->cfg[kCols] / p->cfg[kCellCols] > 8) p->cfg[kCols] = p->cfg[kCellCols] * 8 + r.range(0, 1);
  p->add_cfg(r.chance(0.3), 0);
  p->add_cfg(r.chance(0.3), 0);
  env->alloc_fail = p->cfg[kAlloc] != 0;
  p->add_cfg(r.range(0, 4), 0);
  p->nthreads = static_cast<int>(r.chance(0.4) ? 1 : r.range(2, 3));
  const bool mistakes = r.chance(0.15);
  const int style = static_cast<int>(r.below(4));  // which way of adding prevails
  for (int t = 0; t < p->nthreads; ++t) {
    const int n = static_cast<int>(r.range(3, thorough ? 50 : 30));
    const int64_t limit = r.range(1, 4), near = r.chance(0.5) ? 1000 : r.range(100, 1000);
    for (int i = 0; i < n; ++i) {
      const int64_t seed = static_cast<int64_t>(r.next() >> 1);
      const uint64_t w = r.below(20);
      if (w < 13) {
        const int kind = r.chance(0.6) ? style : static_cast<int>(r.below(3));
        if (kind == 1) p->add(t, kAddCell, seed, r.chance(0.8) ? limit : r.range(1, 4));
        else if (kind == 2) p->add(t, kAddNear, seed, r.chance(0.8) ? near : r.range(100, 1000));
        else p->add(t, kAdd, seed);
      } else if (w < 14) p->add(t, kTrim, seed, r.range(1, 4));
      else if (w < 15) p->add(t, kShrink, seed, r.range(1, 20));
      else if (w < 16) { if (r.chance(0.3)) p->add(t, kReset); }
      else if (w < 17) { if (r.chance(0.5)) p->add(t, kWeights, seed, r.range(-3, 3)); }
      else if (w < 18) p->add(t, kMask, seed, r.range(0, 3), r.range(1, 4));
      else if (w < 19) { if (mistakes) p->add(t, kBad, seed, r.range(0, kMistakes - 1)); }
      else p->add(t, kShared);
    }
  }
}
const sim::Harness h = {"occupancy_grid", "C25", gen, run};
sim::Registrar reg(&h);
}  // namespace
