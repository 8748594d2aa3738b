// Simulated workloads for calibration targets.
//   C34 a calibration target is observed exactly where its tags are
#include <aslam/calibration/focallength-initializers.h>
#include <aslam/calibration/target-aprilgrid.h>
#include <aslam/calibration/target-observation.h>
#include <opencv2/imgproc/imgproc.hpp>

#include <algorithm>
#include <cmath>
#include <cstdio>
#include <map>
#include <memory>
#include <new>
#include <string>
#include <thread>
#include <vector>

#include "simrt.h"

namespace {
using aslam::calibration::DetectorAprilGrid;
using aslam::calibration::TargetAprilGrid;
using aslam::calibration::TargetBase;
using aslam::calibration::TargetObservation;
using sim::Op;
using sim::Plan;
using sim::Rng;
typedef AprilTags::TagDetection Tag;

enum OpCode {
  kGrid = 1,  // slot, seed
  kQuery,     // slot, seed
  kMove,      // slot, seed: the calibration moves points of the target
  kObserve,   // slot, seed
  kDetect,    // slot, seed
  kShared,    // seed: the detector all threads know
  kLook,      // slot, seed: at an observation
  kDraw,      // slot, seed
  kFocal,     // slot, seed
  kCircles,   // slot, seed
  kFile,      // slot, seed
  kMistake,   // slot, seed, kind
  kForget,    // slot: the owner drops its target
};
enum CfgIdx { kAlloc = 0, kSharedSeed, kTags, kDisk };
enum { kSlots = 2, kImageMax = 4 };

// What is known about a target.
struct Model {
  size_t tag_rows = 0, tag_cols = 0, border = 0;
  double size = 0, space = 0;
  std::vector<double> points;  // x y z, row by row
  size_t rows() const { return 2 * tag_rows; }
  size_t cols() const { return 2 * tag_cols; }
  size_t n() const { return rows() * cols(); }
};
struct Corner {
  double x, y;
};
struct Seen {
  TargetObservation::Ptr o;
  uint32_t w = 0, h = 0;
  std::map<int, Corner> corners;
  bool exact = true;
};
struct Slot {
  Model m;
  TargetAprilGrid::Ptr target;
  std::weak_ptr<TargetAprilGrid> weak;
  DetectorAprilGrid::DetectorConfiguration how;
  DetectorAprilGrid::Ptr detector;
  std::vector<Seen> seen;
};
struct World {
  std::vector<Tag> tags;  // what the detector of this thread finds
  int drawn = 0, windows = 0;
};
struct Ctx {
  bool mistake[sim::kMaxSimThreads];  // an abort is fine
  World world[sim::kMaxSimThreads];
  Slot shared;
  int disk_mode;
};
Ctx* C;
void on_abort() {
  if (C->mistake[sim::tid()] || sim::disk::hard_errors() > 0) sim::set_abort_ok(true);
}
}  // namespace

// --------------------------------------------------------------- stand-ins
namespace AprilTags {
TagDetector::TagDetector(const TagCodes&, size_t black_border) : black_border_(black_border) {}
std::vector<TagDetection> TagDetector::extractTags(const cv::Mat&) const {
  if (black_border_ < 1 || black_border_ > 3) sim::fail("C34", "tag-border", "the tags are looked for with a border of %zu bits", black_border_);
  return C->world[sim::tid()].tags;
}
void TagDetection::draw(cv::Mat& image) const {
  ++C->world[sim::tid()].drawn;
  if (image.channels() != 3) sim::fail("C34", "warning-image", "tags are marked in an image with %d channels", image.channels());
}
}  // namespace AprilTags
namespace cv {
void destroyAllWindows() {}
void namedWindow(const String&, int) { ++C->world[sim::tid()].windows; }
void imshow(const String&, InputArray) {}
int waitKey(int) {
  sim::yield();
  return 13;
}
}  // namespace cv
extern "C" int cvStartWindowThread() { return 0; }

namespace {
double number(Rng& r, double lo, double hi) { return lo + (hi - lo) * (static_cast<double>(r.below(1u << 20)) / (1u << 20)); }

Model random_model(Rng& r, int64_t tags) {
  Model m;
  m.tag_rows = static_cast<size_t>(r.range(1, tags));
  m.tag_cols = static_cast<size_t>(r.chance(0.3) ? static_cast<int64_t>(m.tag_rows) : r.range(1, tags));
  m.size = r.chance(0.3) ? 0.088 : number(r, 0.01, 1.5);
  m.space = r.chance(0.3) ? 0.3 * m.size : number(r, 0.05, 1.2) * m.size;
  m.border = static_cast<size_t>(r.range(1, 3));
  return m;
}
void fill(Model* m) {
  m->points.clear();
  for (size_t i = 0; i < m->rows(); ++i)
    for (size_t j = 0; j < m->cols(); ++j) {
      m->points.push_back(static_cast<double>(j / 2) * (m->size + m->space) + (j % 2 ? m->size : 0));
      m->points.push_back(static_cast<double>(i / 2) * (m->size + m->space) + (i % 2 ? m->size : 0));
      m->points.push_back(0);
    }
}
bool close(double a, double b) { return std::fabs(a - b) <= 1e-9 * (1 + std::fabs(a)); }

void check_target(const TargetBase& t, const Model& m, Rng& r) {
  if (t.rows() != m.rows() || t.cols() != m.cols() || t.size() != m.n() || t.points().cols() != static_cast<int>(m.n()))
    sim::fail("C34", "grid-size", "a target of %zu x %zu tags has %zu x %zu corners (%zu)", m.tag_rows, m.tag_cols, t.rows(), t.cols(), t.size());
  for (int i = 0; i < 6; ++i) {
    const size_t row = r.below(m.rows()), col = r.below(m.cols()), at = row * m.cols() + col;
    if (t.gridCoordinatesToPoint(row, col) != at)
      sim::fail("C34", "grid-order", "row %zu, column %zu of %zu x %zu is corner %zu", row, col, m.rows(), m.cols(), t.gridCoordinatesToPoint(row, col));
    const std::pair<size_t, size_t> rc = t.pointToGridCoordinates(at);
    if (rc.first != col || rc.second != row) sim::fail("C34", "grid-coordinates", "corner %zu of %zu x %zu is at (%zu %zu)", at, m.rows(), m.cols(), rc.first, rc.second);
    const Eigen::Vector3d a = t.point(at), b = t.gridPoint(row, col), c = t.points().col(static_cast<int>(at));
    for (int k = 0; k < 3; ++k) {
      const double want = m.points[at * 3 + static_cast<size_t>(k)];
      if (a[k] != b[k] || a[k] != c[k]) sim::fail("C34", "point", "the ways to get corner %zu disagree", at);
      if (!close(want, a[k])) sim::fail("C34", "point", "coordinate %d of corner %zu (row %zu, column %zu) is %g instead of %g", k, at, row, col, a[k], want);
    }
  }
  const double w = std::fabs(m.points[3 * (m.cols() - 1)] - m.points[0]);
  const double h = std::fabs(m.points[3 * (m.rows() - 1) * m.cols() + 1] - m.points[1]);
  if (!close(w, t.width()) || !close(h, t.height())) sim::fail("C34", "extent", "the target is %g x %g instead of %g x %g", t.width(), t.height(), w, h);
}
void config(Rng& r, Slot* s) {
  DetectorAprilGrid::DetectorConfiguration& d = s->how;
  d = DetectorAprilGrid::DetectorConfiguration();
  if (r.chance(0.6)) d.run_subpixel_refinement = false;
  if (r.chance(0.5)) d.max_subpixel_refine_displacement_px_sq = number(r, 0.01, 4);
  if (r.chance(0.7)) d.min_visible_tags_for_valid_obs = 1 + r.below(4);
  if (r.chance(0.5)) d.min_border_distance_px = static_cast<double>(r.range(1, 8));
}
template <class F>
void with_faults(bool faults, const char* what, F f) {
  for (int attempt = 0; attempt < 2; ++attempt) {
    try {
      std::unique_ptr<sim::AllocFaultScope> scope;
      if (attempt == 0 && faults) scope.reset(new sim::AllocFaultScope);
      f();
      return;
    } catch (const std::bad_alloc&) {
      sim::probe("failed");
    } catch (const cv::Exception&) {
      sim::probe("failed");
    }
  }
  sim::fail("C34", "no-memory", "%s fails although there is memory", what);
}
void make(Rng& r, Slot* s, const Model& model, bool faults) {
  Slot n;
  n.m = model;
  fill(&n.m);
  config(r, &n);
  TargetAprilGrid::TargetConfiguration c;
  c.num_tag_rows = model.tag_rows;
  c.num_tag_cols = model.tag_cols;
  c.tag_size_meter = model.size;
  c.tag_inbetween_space_meter = model.space;
  c.black_tag_border_bits = model.border;
  with_faults(faults, "making a target", [&] {
    n.target.reset();
    n.target.reset(new TargetAprilGrid(c));
  });
  c.num_tag_rows = 77;
  with_faults(faults, "making a detector", [&] { n.detector.reset(new DetectorAprilGrid(n.target, n.how)); });
  n.weak = n.target;
  check_target(*n.target, n.m, r);
  *s = std::move(n);
  sim::probe("target");
}

// All that can be asked of an observation.
void check_seen(const Slot& s, const Seen& e, Rng& r) {
  TargetObservation& o = *e.o;
  const TargetObservation& co = o;
  if (o.getImageWidth() != e.w || o.getImageHeight() != e.h)
    sim::fail("C34", "image-size", "an image of %u x %u is said to be %u x %u", e.w, e.h, o.getImageWidth(), o.getImageHeight());
  if (o.getTarget().get() != co.getTarget().get() || (s.target && o.getTarget() != s.target)) sim::fail("C34", "target", "an observation belongs to another target");
  const size_t n = e.corners.size();
  if (o.numObservedCorners() != n || static_cast<size_t>(o.getObservedCornerIds().rows()) != n || static_cast<size_t>(o.getObservedCorners().cols()) != n)
    sim::fail("C34", "corner-count", "%zu corners (%d ids, %d points) are observed instead of %zu", o.numObservedCorners(), static_cast<int>(o.getObservedCornerIds().rows()),
              static_cast<int>(o.getObservedCorners().cols()), n);
  if (o.allCornersObservered() != (n == s.m.n())) sim::fail("C34", "all-corners", "%zu of %zu corners are seen", n, s.m.n());
  const Eigen::Matrix3Xd points = o.getCorrespondingTargetPoints();
  if (static_cast<size_t>(points.cols()) != n) sim::fail("C34", "target-points", "%d target points belong to %zu corners", static_cast<int>(points.cols()), n);
  std::vector<int> count(s.m.n(), 0);
  for (size_t i = 0; i < n; ++i) {
    const size_t id = o.getObservedCornerId(static_cast<int>(i));
    if (static_cast<int>(id) != o.getObservedCornerIds()[static_cast<int>(i)]) sim::fail("C34", "corner-id", "the ways to get the id of corner %zu disagree", i);
    const auto it = e.corners.find(static_cast<int>(id));
    if (it == e.corners.end() || count[id]++) sim::fail("C34", "corner-id", "corner %zu of a target of %zu x %zu corners is observed", id, s.m.rows(), s.m.cols());
    const Eigen::Vector2d a = o.getObservedCorner(i), b = o.getObservedCorners().col(static_cast<int>(i));
    if (a[0] != b[0] || a[1] != b[1]) sim::fail("C34", "corner", "the ways to get corner %zu disagree", i);
    const double tolerance = e.exact ? 0 : 1e-3;
    if (!(std::fabs(a[0] - it->second.x) <= tolerance && std::fabs(a[1] - it->second.y) <= tolerance))
      sim::fail("C34", "corner", "corner %zu is observed at (%g %g) instead of (%g %g)", id, a[0], a[1], it->second.x, it->second.y);
    for (size_t k = 0; k < 3; ++k)
      if (!close(s.m.points[3 * id + k], points(static_cast<int>(k), static_cast<int>(i))))
        sim::fail("C34", "target-points", "the target point of corner %zu is not where the target has it", id);
  }
  for (int i = 0; i < 8; ++i) {
    const size_t id = r.below(s.m.n());
    const auto it = e.corners.find(static_cast<int>(id));
    if (o.observedCornerId(id) != (it != e.corners.end())) sim::fail("C34", "observed", "whether corner %zu is observed is wrong", id);
    Eigen::Vector2d p(-1, -2);
    if (o.getObservedCornerById(static_cast<int>(id), &p) != (it != e.corners.end())) sim::fail("C34", "observed", "looking for corner %zu is wrong", id);
    const double tolerance = e.exact ? 0 : 1e-3;
    if (it != e.corners.end() && !(std::fabs(p[0] - it->second.x) <= tolerance && std::fabs(p[1] - it->second.y) <= tolerance))
      sim::fail("C34", "corner", "corner %zu is found at (%g %g) instead of (%g %g)", id, p[0], p[1], it->second.x, it->second.y);
    if (it == e.corners.end() && (p[0] != -1 || p[1] != -2)) sim::fail("C34", "observed", "a corner that was not seen has a place");
  }
}
TargetObservation::Ptr build(const TargetBase::Ptr& t, Rng& r, uint32_t w, uint32_t h, const std::map<int, Corner>& corners, bool faults) {
  std::vector<int> order;
  for (const auto& c : corners) order.push_back(c.first);
  if (r.chance(0.6))
    for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[r.below(i)]);
  TargetObservation::Ptr o;
  with_faults(faults, "making an observation", [&] {
    Eigen::VectorXi ids(static_cast<int>(order.size()));
    Eigen::Matrix2Xd points(2, static_cast<int>(order.size()));
    for (size_t i = 0; i < order.size(); ++i) {
      ids[static_cast<int>(i)] = order[i];
      points.col(static_cast<int>(i)) = Eigen::Vector2d(corners.at(order[i]).x, corners.at(order[i]).y);
    }
    o.reset(new TargetObservation(t, h, w, ids, points));
    ids.setConstant(-7);
    points.setConstant(-7);
  });
  return o;
}
void remember(Slot* s, Seen&& e) {
  if (s->seen.size() >= kImageMax) s->seen.erase(s->seen.begin());
  s->seen.push_back(std::move(e));
}
void observe(Rng& r, Slot* s, bool faults) {
  if (!s->target) return;
  Seen e;
  e.w = static_cast<uint32_t>(r.range(1, 2000));
  e.h = static_cast<uint32_t>(r.range(1, 2000));
  const int skip = r.chance(0.3) ? 0 : static_cast<int>(r.range(1, 9));
  for (size_t i = 0; i < s->m.n(); ++i)
    if (skip == 0 || !r.chance(skip / 10.0)) e.corners[static_cast<int>(i)] = Corner{number(r, -5, 2000), number(r, -5, 2000)};
  e.o = build(s->target, r, e.w, e.h, e.corners, faults);
  check_seen(*s, e, r);
  sim::probe(e.corners.size() == s->m.n() ? "complete" : "partial");
  remember(s, std::move(e));
}

// What the tag detector finds in an image is up to the simulation.
std::vector<Tag> random_tags(Rng& r, const Slot& s, const cv::Mat& image, bool* duplicates) {
  std::vector<Tag> tags;
  const int num = static_cast<int>(s.m.n() / 4), w = image.cols, h = image.rows;
  const double b = s.how.min_border_distance_px;
  const int visible = static_cast<int>(r.range(0, 10)), trouble = r.chance(0.5) ? 0 : static_cast<int>(r.range(1, 5));
  *duplicates = r.chance(0.1);
  std::vector<int> ids;
  for (int i = 0; i < num; ++i)
    if (static_cast<int>(r.below(10)) < visible) ids.push_back(i);
  if (*duplicates && !ids.empty()) ids.push_back(ids[r.below(ids.size())]);
  if (trouble && r.chance(0.3)) ids.push_back(num + static_cast<int>(r.below(r.chance(0.5) ? 1 : 500)));
  for (int id : ids) {
    Tag t;
    t.id = id;
    t.good = !(trouble && r.below(12) < static_cast<uint64_t>(trouble));
    if (!t.good && r.chance(0.3)) t.id = -1;
    for (int c = 0; c < 4; ++c) {
      t.p[c].first = static_cast<float>(number(r, b, w - b));
      t.p[c].second = static_cast<float>(number(r, b, h - b));
    }
    if (trouble && r.below(8) < static_cast<uint64_t>(trouble)) {
      const int c = static_cast<int>(r.below(4));
      float& at = r.chance(0.5) ? t.p[c].first : t.p[c].second;
      const int limit = &at == &t.p[c].first ? w : h;
      switch (r.below(7)) {
        case 0: at = static_cast<float>(b); break;  // just good enough
        case 1: at = static_cast<float>(limit - b); break;
        case 2: at = static_cast<float>(b) - 0.01f; break;
        case 3: at = static_cast<float>(limit - b) + 0.01f; break;
        case 4: at = -3.0f; break;
        case 5: at = static_cast<float>(limit) + 100.0f; break;
        default: at = static_cast<float>(std::max(w, h) - b) + 0.5f; break;  // outside in one direction only
      }
    }
    tags.push_back(t);
  }
  for (size_t i = tags.size(); i > 1; --i) std::swap(tags[i - 1], tags[r.below(i)]);
  return tags;
}
void detect(Rng& r, Slot* s, const DetectorAprilGrid& detector, bool keep, bool faults) {
  const int w = static_cast<int>(r.range(30, 90)), h = static_cast<int>(r.range(30, 90));
  cv::Mat image(h, w, CV_8UC1);
  {
    sim::Quiet q;
    const int cell = static_cast<int>(r.range(3, 9)), flat = r.chance(0.2);
    const uint64_t salt = r.next();
    for (int v = 0; v < h; ++v)
      for (int u = 0; u < w; ++u)
        image.at<unsigned char>(v, u) =
            static_cast<unsigned char>(flat ? 90 : (((u / cell + v / cell) & 1) ? 220 : 30) + static_cast<int>(Rng::mix(salt + static_cast<uint64_t>(v * w + u)) % 20));
  }
  World& world = C->world[sim::tid()];
  bool duplicates = false;
  world.tags = random_tags(r, *s, image, &duplicates);
  world.windows = 0;
  TargetObservation::Ptr o;
  const cv::Mat before = image.clone();
  with_faults(faults, "looking for a target", [&] { o = detector.detectTargetInImage(image); });
  {
    sim::Quiet q;
    for (int v = 0; v < h; ++v)
      for (int u = 0; u < w; ++u)
        if (image.at<unsigned char>(v, u) != before.at<unsigned char>(v, u)) sim::fail("C34", "image-changed", "looking for a target changed the image");
  }
  // The tags that count.
  const double b = s->how.min_border_distance_px;
  std::vector<Tag> good;
  for (const Tag& t : world.tags) {
    bool ok = t.good && t.id >= 0 && t.id < static_cast<int>(s->m.tag_rows * s->m.tag_cols);
    for (int c = 0; c < 4; ++c) ok = ok && t.p[c].first >= b && t.p[c].first <= w - b && t.p[c].second >= b && t.p[c].second <= h - b;
    if (ok) good.push_back(t);
  }
  if (good.size() < s->how.min_visible_tags_for_valid_obs) {
    if (o) sim::fail("C34", "few-tags", "%zu tags are enough for an observation that needs %zu", good.size(), s->how.min_visible_tags_for_valid_obs);
    sim::probe("few_tags");
    return;
  }
  std::vector<int> count(s->m.tag_rows * s->m.tag_cols, 0);
  bool twice = false;
  for (const Tag& t : good) twice = twice || ++count[static_cast<size_t>(t.id)] > 1;
  if (twice) {
    if (o) sim::fail("C34", "duplicate", "an image with a tag that is there twice gives an observation");
    sim::probe("duplicate");
    return;
  }
  if (world.windows) sim::fail("C34", "warning", "the user is warned about wild tags that are not there");
  if (!o) sim::fail("C34", "not-observed", "%zu good tags of %zu are not enough although %zu would be", good.size(), count.size(), s->how.min_visible_tags_for_valid_obs);
  Seen e;
  e.o = o;
  e.w = static_cast<uint32_t>(w);
  e.h = static_cast<uint32_t>(h);
  for (const Tag& t : good) {
    const size_t row = 2 * (static_cast<size_t>(t.id) / s->m.tag_cols), col = 2 * (static_cast<size_t>(t.id) % s->m.tag_cols);
    // Around the tag.
    static const size_t kDown[] = {0, 0, 1, 1}, kRight[] = {0, 1, 1, 0};
    for (size_t c = 0; c < 4; ++c) {
      const int id = static_cast<int>((row + kDown[c]) * s->m.cols() + col + kRight[c]);
      Corner at = {t.p[c].first, t.p[c].second};
      if (s->how.run_subpixel_refinement) {
        e.exact = false;
        std::vector<cv::Point2f> p(1, cv::Point2f(t.p[c].first, t.p[c].second));
        cv::cornerSubPix(image, p, cv::Size(2, 2), cv::Size(-1, -1), cv::TermCriteria(cv::TermCriteria::EPS + cv::TermCriteria::MAX_ITER, 30, 0.1));
        const double dx = p[0].x - at.x, dy = p[0].y - at.y, d2 = dx * dx + dy * dy, limit = s->how.max_subpixel_refine_displacement_px_sq;
        at.x = p[0].x;
        at.y = p[0].y;
        if (std::fabs(d2 - limit) < 1e-3 * (1 + limit)) {
          // Either way.
          if (!o->observedCornerId(static_cast<size_t>(id))) continue;
        } else if (d2 > limit) {
          sim::probe("moved_too_far");
          continue;
        } else if (d2 > 0.01) {
          sim::probe("refined");
        }
      }
      e.corners[id] = at;
    }
  }
  check_seen(*s, e, r);
  sim::probe("detected");
  if (keep) remember(s, std::move(e));
}

void draw(const Slot& s, Rng& r) {
  if (s.seen.empty()) return;
  const Seen& e = s.seen[r.below(s.seen.size())];
  const int w = static_cast<int>(std::min<uint32_t>(e.w, 120)), h = static_cast<int>(std::min<uint32_t>(e.h, 120));
  const int pad = 4;
  cv::Mat whole(h + 2 * pad, w + 2 * pad, CV_8UC3, cv::Scalar(10, 200, 30));
  cv::Mat image = whole(cv::Rect(pad, pad, w, h));
  e.o->drawCornersIntoImage(&image);
  if (image.cols != w || image.rows != h) sim::fail("C34", "draw", "drawing corners changes the size of the image");
  cv::Mat near(whole.rows, whole.cols, CV_8UC1, cv::Scalar(0));
  sim::Quiet q;
  for (const auto& c : e.corners) {
    const int x = static_cast<int>(c.second.x), y = static_cast<int>(c.second.y);
    bool red = false;
    for (int v = std::max(y - 3, -pad); v <= y + 3 && v < h + pad; ++v)
      for (int u = std::max(x - 3, -pad); u <= x + 3 && u < w + pad; ++u) {
        if (u < 0 || v < 0 || u >= w || v >= h) continue;
        near.at<unsigned char>(v + pad, u + pad) = 1;
        const cv::Vec3b p = image.at<cv::Vec3b>(v, u);
        red = red || (std::abs(u - x) <= 2 && std::abs(v - y) <= 2 && p[0] < 10 && p[1] < 60 && p[2] > 190);
      }
    if (x >= 1 && y >= 1 && x < w - 1 && y < h - 1 && !red) sim::fail("C34", "draw", "corner %d at (%d %d) is not drawn into an image of %d x %d", c.first, x, y, w, h);
  }
  for (int v = 0; v < whole.rows; ++v)
    for (int u = 0; u < whole.cols; ++u)
      if (!near.at<unsigned char>(v, u) && whole.at<cv::Vec3b>(v, u) != cv::Vec3b(10, 200, 30))
        sim::fail("C34", "draw", "drawing corners changes pixel (%d %d) of an image of %d x %d", u - pad, v - pad, w, h);
  sim::probe("drawn");
}

typedef bool (*Initializer)(const std::vector<TargetObservation::Ptr>&, Eigen::VectorXd*);
typedef aslam::calibration::FocalLengthInitializer<aslam::PinholeCamera, aslam::NullDistortion> ForNone;
typedef aslam::calibration::FocalLengthInitializer<aslam::PinholeCamera, aslam::EquidistantDistortion> ForEquidistant;
typedef aslam::calibration::FocalLengthInitializer<aslam::PinholeCamera, aslam::RadTanDistortion> ForRadTan;

bool initialize(Initializer f, const std::vector<TargetObservation::Ptr>& list, Rng& r, bool faults, Eigen::VectorXd* k) {
  bool ok = false;
  // Whatever is there is replaced.  (Eigen cannot survive a failure to resize
  // a vector that is not empty.)
  if (!faults && r.chance(0.7)) *k = Eigen::VectorXd::Constant(static_cast<int>(r.range(0, 6)), -3.0);
  with_faults(faults, "a first guess", [&] {
    ok = f(list, k);
  });
  return ok;
}
// Leave out what is not complete: nothing changes.
void only_complete(Initializer f, const std::vector<TargetObservation::Ptr>& list, bool ok, const Eigen::VectorXd& k, Rng& r, const char* what) {
  std::vector<TargetObservation::Ptr> some;
  for (const auto& o : list)
    if (o->allCornersObservered()) some.push_back(o);
  if (some.size() == list.size()) return;
  if (some.empty()) {
    if (ok) sim::fail("C34", "focal-from-nothing", "the %s guess succeeds although no target was seen completely", what);
    sim::probe("no_complete");
    return;
  }
  Eigen::VectorXd other;
  const bool also = initialize(f, some, r, false, &other);
  if (also != ok) sim::fail("C34", "focal-partial", "the %s guess depends on observations that cannot be used", what);
  if (!ok) return;
  for (int i = 0; i < 4; ++i)
    if (!(std::fabs(k[i] - other[i]) <= 1e-9 * std::fabs(other[i])))
      sim::fail("C34", "focal-partial", "incomplete observations change parameter %d of the %s guess from %g to %g", i, what, other[i], k[i]);
  sim::probe("some_complete");
}
void centre(const Eigen::VectorXd& k, uint32_t w, uint32_t h, const char* what) {
  if (k.size() != 4) sim::fail("C34", "focal", "the %s guess has %d parameters", what, static_cast<int>(k.size()));
  if (!close((w - 1.0) / 2, k[2]) || !close((h - 1.0) / 2, k[3])) sim::fail("C34", "focal", "the %s guess of the centre of %u x %u is (%g %g)", what, w, h, k[2], k[3]);
}
// Exact views of a flat target by a pinhole camera.
void focal(const Slot& s, Rng& r, bool faults) {
  if (!s.target) return;
  Model ideal = s.m;
  fill(&ideal);
  if (ideal.points != s.m.points) return;
  const uint32_t w = static_cast<uint32_t>(r.range(300, 1200)), h = static_cast<uint32_t>(r.range(300, 1200));
  const double fu = number(r, 0.5, 2) * w, fv = fu * number(r, 0.8, 1.25), cu = (w - 1) / 2.0, cv = (h - 1) / 2.0;
  const double width = s.target->width(), height = s.target->height(), big = std::max(width, height);
  const int views = static_cast<int>(r.range(1, 4));
  const int left_out = r.chance(0.5) ? 0 : static_cast<int>(r.range(1, 10));
  std::vector<TargetObservation::Ptr> list;
  int complete = 0;
  for (int i = 0; i < views; ++i) {
    const double a = (r.chance(0.5) ? 1 : -1) * number(r, 0.4, 0.8), b = (r.chance(0.5) ? 1 : -1) * number(r, 0.4, 0.8), c = number(r, -0.3, 0.3);
    const Eigen::Matrix3d rot =
        (Eigen::AngleAxisd(a, Eigen::Vector3d::UnitX()) * Eigen::AngleAxisd(b, Eigen::Vector3d::UnitY()) * Eigen::AngleAxisd(c, Eigen::Vector3d::UnitZ())).toRotationMatrix();
    const Eigen::Vector3d mid(width / 2, height / 2, 0), t(number(r, -0.2, 0.2) * big, number(r, -0.2, 0.2) * big, number(r, 1.6, 2.5) * big);
    std::map<int, Corner> corners;
    const bool some = static_cast<int>(r.below(10)) < left_out;
    for (size_t p = 0; p < s.m.n(); ++p) {
      const Eigen::Vector3d x = rot * (Eigen::Vector3d(s.m.points[3 * p], s.m.points[3 * p + 1], 0) - mid) + t;
      if (some && r.chance(0.3)) continue;
      corners[static_cast<int>(p)] = Corner{fu * x[0] / x[2] + cu, fv * x[1] / x[2] + cv};
    }
    complete += corners.size() == s.m.n();
    list.push_back(build(s.target, r, w, h, corners, false));
  }
  Eigen::VectorXd k;
  const bool ok = initialize(r.chance(0.5) ? ForNone::initialize : aslam::calibration::initFocalLengthAbsoluteConic, list, r, faults, &k);
  only_complete(aslam::calibration::initFocalLengthAbsoluteConic, list, ok, k, r, "absolute conic");
  if (ok != (complete > 0)) sim::fail("C34", "focal", "%d complete views give no guess", complete);
  if (!ok) return;
  centre(k, w, h, "absolute conic");
  const double e = std::max(std::fabs(k[0] / fu - 1), std::fabs(k[1] / fv - 1));
  if (!(e < 0.02)) sim::fail("C34", "focal", "the focal lengths from %d of %d exact views are (%g %g) instead of (%g %g)", complete, views, k[0], k[1], fu, fv);
  sim::probe("focal");
}
// Rows on circles through two points far apart.
void circles(const Slot& s, Rng& r, bool faults) {
  if (!s.target || s.m.cols() < 4) return;
  const uint32_t w = static_cast<uint32_t>(r.range(300, 1200)), h = static_cast<uint32_t>(r.range(300, 1200));
  const int views = static_cast<int>(r.range(1, 4));
  const int left_out = r.chance(0.5) ? 0 : static_cast<int>(r.range(1, 10));
  const size_t rows = s.m.rows(), cols = s.m.cols();
  std::vector<TargetObservation::Ptr> list;
  std::vector<double> f;
  const double scale = number(r, 0.3, 1) * w;
  for (int i = 0; i < views; ++i) {
    const double guess = scale * number(r, 1, 1.5), half = guess * M_PI / 2, turn = number(r, -3, 3);
    const double x0 = w * number(r, 0.4, 0.6), y0 = h * number(r, 0.4, 0.6);
    std::map<int, Corner> corners;
    const bool some = static_cast<int>(r.below(10)) < left_out;
    const double from = number(r, -0.9, -0.3), to = number(r, 0.3, 0.9);
    for (size_t row = 0; row < rows; ++row) {
      // The middle of the arc is this far from the line through both points.
      const double g = half * (from + (to - from) * (static_cast<double>(row) + 0.013) / static_cast<double>(rows - 1));
      const double bend = std::fabs(g) < 0.02 * half ? 0.02 * half : g;
      const double radius = (half * half + bend * bend) / (2 * std::fabs(bend)), mid = bend > 0 ? bend - radius : bend + radius;
      const double reach = std::asin(std::min(1.0, half / radius)) * 0.7;
      for (size_t col = 0; col < cols; ++col) {
        const double a = reach * (2.0 * static_cast<double>(col) / static_cast<double>(cols - 1) - 1);
        const double x = radius * std::sin(a), y = mid + (bend > 0 ? radius : -radius) * std::cos(a);
        if (some && r.chance(0.3)) continue;
        corners[static_cast<int>(row * cols + col)] = Corner{x0 + std::cos(turn) * x - std::sin(turn) * y, y0 + std::sin(turn) * x + std::cos(turn) * y};
      }
    }
    if (corners.size() == s.m.n()) f.push_back(guess);
    list.push_back(build(s.target, r, w, h, corners, false));
  }
  Eigen::VectorXd k;
  Initializer init[] = {aslam::calibration::initFocalLengthVanishingPoints, ForEquidistant::initialize, ForRadTan::initialize};
  const bool ok = initialize(init[r.below(3)], list, r, faults, &k);
  only_complete(init[0], list, ok, k, r, "vanishing point");
  if (ok != !f.empty()) sim::fail("C34", "focal", "%zu complete views give no guess", f.size());
  if (!ok) return;
  centre(k, w, h, "vanishing point");
  // All pairs of rows of an image agree: the median is that of the images.
  std::sort(f.begin(), f.end());
  const double lo = f[(f.size() - 1) / 2], hi = f[f.size() / 2], e = 1e-3 * hi;
  if (k[0] != k[1] || !(k[0] >= lo - e && k[0] <= hi + e)) sim::fail("C34", "focal", "the focal length from circles is %g instead of %g to %g", k[0], lo, hi);
  sim::probe("circles");
}

void file(Slot* s, Rng& r, int64_t tags, bool faults) {
  char path[64];
  std::snprintf(path, sizeof(path), SIM_DISK_ROOT "target%d_%d.yaml", sim::tid(), static_cast<int>(r.below(2)));
  Model m = random_model(r, tags);
  const double ratio = number(r, 0.05, 1.2);
  m.border = 2;
  std::string text[5];
  char line[128];
  text[0] = r.chance(0.5) ? "target_type: 'aprilgrid' #gridtype\n" : "target_type: aprilgrid\n";
  std::snprintf(line, sizeof(line), "tagCols: %zu\n", m.tag_cols), text[1] = line;
  std::snprintf(line, sizeof(line), "tagRows: %zu   # number\n", m.tag_rows), text[2] = line;
  std::snprintf(line, sizeof(line), "tagSize: %.17g\n", m.size), text[3] = line;
  std::snprintf(line, sizeof(line), "tagSpacing: %.17g\n", ratio), text[4] = line;
  for (size_t i = 5; i > 1; --i) std::swap(text[i - 1], text[r.below(i)]);
  std::string all;
  for (const std::string& t : text) all += t;
  if (r.chance(0.3)) all += "other: [1, 2]\n";
  {
    sim::Quiet q;
    sim::disk::put(path, all.data(), all.size());
  }
  TargetAprilGrid::TargetConfiguration c;
  const int errors = sim::disk::hard_errors();
  // A file that cannot be opened for want of memory ends the program.
  C->mistake[sim::tid()] = faults;
  with_faults(faults, "reading a file", [&] { c = TargetAprilGrid::TargetConfiguration::fromYaml(path); });
  C->mistake[sim::tid()] = false;
  if (sim::disk::hard_errors() != errors) return;
  if (c.num_tag_cols != m.tag_cols || c.num_tag_rows != m.tag_rows || !close(m.size, c.tag_size_meter) || !close(ratio * m.size, c.tag_inbetween_space_meter))
    sim::fail("C34", "file", "a file with %zu x %zu tags of %g, spacing %g, is read as %zu x %zu tags of %g, spacing %g", m.tag_rows, m.tag_cols, m.size, ratio * m.size, c.num_tag_rows,
              c.num_tag_cols, c.tag_size_meter, c.tag_inbetween_space_meter);
  if (c.black_tag_border_bits != 2) sim::fail("C34", "file", "a file changes the border of tags");
  sim::probe("file");
  m.space = c.tag_inbetween_space_meter;
  make(r, s, m, false);
}

void mistake(Rng& r, Slot* s, int kind) {
  if (!s->target) return;
  const size_t n = s->m.n();
  Seen e;
  for (size_t i = 0; i < n; i += 1 + r.below(2)) e.corners[static_cast<int>(i)] = Corner{1, 2};
  e.o = build(s->target, r, 10, 20, e.corners, false);
  bool& on = C->mistake[sim::tid()];
  on = true;
  Eigen::VectorXd k;
  Eigen::Vector2d p;
  Eigen::VectorXi ids = Eigen::VectorXi::Zero(2);
  TargetAprilGrid::TargetConfiguration c;
  TargetObservation::Ptr o;
  const size_t past = n + r.below(3);
  kind = std::min(kind, 15);
  switch (kind) {
    case 0: s->target->point(past); break;
    case 1: s->target->gridCoordinatesToPoint(s->m.rows() + r.below(2), 0); break;
    case 2: s->target->gridPoint(0, s->m.cols() + r.below(2)); break;
    case 3: s->target->pointMutable(past); break;
    case 4: o.reset(new TargetObservation(nullptr, 5, 5, ids, Eigen::Matrix2Xd::Zero(2, 2))); break;
    case 5: o.reset(new TargetObservation(s->target, 5, 5, ids, Eigen::Matrix2Xd::Zero(2, r.chance(0.5) ? 1 : 3))); break;
    case 6: e.o->observedCornerId(past); break;
    case 7: e.o->getObservedCorner(e.corners.size() + r.below(3)); break;
    case 8: e.o->getObservedCornerId(static_cast<int>(e.corners.size() + r.below(3))); break;
    case 9: e.o->getObservedCornerById(static_cast<int>(past), &p); break;
    case 10: aslam::calibration::initFocalLengthAbsoluteConic(std::vector<TargetObservation::Ptr>(), &k); break;
    case 11: aslam::calibration::initFocalLengthVanishingPoints(std::vector<TargetObservation::Ptr>(), &k); break;
    case 12: (r.chance(0.5) ? c.tag_size_meter : c.tag_inbetween_space_meter) = r.chance(0.5) ? 0.0 : -0.1; { TargetAprilGrid t(c); } break;
    case 13: (r.chance(0.5) ? c.num_tag_rows : c.num_tag_cols) = 0; { TargetAprilGrid t(c); } break;
    case 14: { DetectorAprilGrid d(nullptr, s->how); } break;
    default: {
      // A file that cannot be meant.
      static const char* const kBad[] = {"target_type: checkerboard\ntagCols: 3\ntagRows: 2\ntagSize: 0.1\ntagSpacing: 0.3\n",
                                         "target_type: aprilgrid\ntagCols: 0\ntagRows: 2\ntagSize: 0.1\ntagSpacing: 0.3\n",
                                         "target_type: aprilgrid\ntagCols: 3\ntagRows: -2\ntagSize: 0.1\ntagSpacing: 0.3\n",
                                         "target_type: aprilgrid\ntagCols: 3\ntagRows: 2\ntagSize: 0.0\ntagSpacing: 0.3\n",
                                         "target_type: aprilgrid\ntagCols: 3\ntagRows: 2\ntagSize: 0.1\ntagSpacing: -0.3\n",
                                         "target_type: aprilgrid\ntagCols: 3\ntagRows: 2\ntagSize: big\ntagSpacing: 0.3\n",
                                         "target_type: aprilgrid\ntagCols: 3\ntagSize: 0.1\ntagSpacing: 0.3\n",
                                         "target_type: aprilgrid\ntagCols: 3\ntagRows: 0\ntagSize: 0.1\ntagSpacing: 0.3\n",
                                         "target_type: aprilgrid\ntagCols: 3\ntagRows: 2\ntagSize: 0.1\n",
                                         "target_type: aprilgrid\ntagRows: 2\ntagSize: 0.1\ntagSpacing: 0.3\n",
                                         "target_type: aprilgrid\ntagCols: 3\ntagRows: 2\ntagSpacing: 0.3\n",
                                         "tagCols: 3\ntagRows: 2\ntagSize: 0.1\ntagSpacing: 0.3\n",
                                         "target_type: aprilgrid\ntagCols: 3\ntagRows: two\ntagSize: 0.1\ntagSpacing: 0.3\n",
                                         "target_type: aprilgrid\ntagCols: 3\ntagRows: 2\ntagSize: 0.1\ntagSpacing: [1]\n",
                                         "tagCols: [\n", ""};
      const uint64_t files = sizeof(kBad) / sizeof(kBad[0]);
      const char* path = SIM_DISK_ROOT "bad.yaml";
      const uint64_t which = r.below(files + 1);
      if (which < files) {
        sim::Quiet q;
        sim::disk::put(path, kBad[which], std::string(kBad[which]).size());
      }
      TargetAprilGrid::TargetConfiguration::fromYaml(which < files ? path : SIM_DISK_ROOT "missing.yaml");
    }
  }
  on = false;
  sim::fail("C34", "mistake-accepted", "an impossible request (%d) is not refused", kind);
}

void run(const Plan& plan) {
  sim::set_default_props("C34");
  sim::set_stuck_props("C34");
  C = new Ctx;
  for (bool& x : C->mistake) x = false;
  sim::set_abort_callback(on_abort);
  const int64_t tags = std::max<int64_t>(1, plan.cfg[kTags]);
  const bool faults = plan.cfg[kAlloc] != 0;
  {
    Rng r(static_cast<uint64_t>(plan.cfg[kSharedSeed]));
    make(r, &C->shared, random_model(r, std::min<int64_t>(tags, 3)), false);
  }
  sim::disk::set_mode(static_cast<int>(plan.cfg[kDisk]), int64_t{1} << 40);
  std::vector<std::thread> threads;
  for (int t = 0; t < plan.nthreads; ++t)
    threads.emplace_back([t, tags, faults, &plan] {
      std::unique_ptr<Slot[]> slots(new Slot[kSlots]);
      for (int i = 0; i < plan.th[t].n; ++i) {
        const Op& op = plan.th[t].ops[i];
        Slot& s = slots[op.a[0] % kSlots];
        Rng r(static_cast<uint64_t>(op.a[1]));
        if (op.code == kShared) {
          if (r.chance(0.2)) check_target(*C->shared.target, C->shared.m, r);
          else detect(r, &C->shared, *C->shared.detector, false, faults);
          continue;
        }
        if (op.code == kGrid || s.m.points.empty()) {
          make(r, &s, random_model(r, tags), faults);
          if (op.code == kGrid) continue;
        }
        switch (op.code) {
          case kQuery:
            if (s.target) check_target(*s.target, s.m, r);
            break;
          case kMove:
            if (s.target)
              for (int k = 0; k < 3; ++k) {
                const size_t id = r.below(s.m.n()), c = r.below(3);
                const double d = number(r, -0.1, 0.1);
                s.target->pointMutable(id)[c] += d;
                s.m.points[3 * id + c] += d;
              }
            break;
          case kObserve: observe(r, &s, faults); break;
          case kDetect:
            if (s.detector) detect(r, &s, *s.detector, true, faults);
            break;
          case kLook:
            if (!s.seen.empty()) {
              const Seen& e = s.seen[r.below(s.seen.size())];
              if (r.chance(0.3)) {
                Seen copy = e;
                copy.o.reset(new TargetObservation(*e.o));
                check_seen(s, copy, r);
              }
              check_seen(s, e, r);
            }
            break;
          case kDraw: draw(s, r); break;
          case kFocal: focal(s, r, faults); break;
          case kCircles: circles(s, r, faults); break;
          case kFile: file(&s, r, tags, faults); break;
          case kForget:
            // Observations and detectors keep it.
            s.target.reset();
            if (r.chance(0.5)) s.detector.reset();
            if (!s.detector && s.seen.empty() && !s.weak.expired()) sim::fail("C34", "leak", "a target is still there although nobody needs it");
            if (s.detector || !s.seen.empty()) {
              if (s.weak.expired()) sim::fail("C34", "target", "a target is gone although it is needed");
            }
            break;
          case kMistake: mistake(r, &s, static_cast<int>(op.a[2])); break;
          default: break;
        }
      }
      for (int i = 0; i < kSlots; ++i) {
        Rng r(1);
        for (const Seen& e : slots[i].seen) check_seen(slots[i], e, r);
      }
    });
  for (std::thread& t : threads) t.join();
  Rng r(2);
  check_target(*C->shared.target, C->shared.m, r);
  if (C->shared.target.use_count() != 2) sim::fail("C34", "leak", "observations keep a target although they are gone");
}

void gen(Rng& r, Plan* p, sim::Env* env, bool thorough) {
  p->add_cfg(r.chance(0.3), 0);
  env->alloc_fail = p->cfg[kAlloc] != 0;
  p->add_cfg(static_cast<int64_t>(r.next() >> 1), 0);
  p->add_cfg(r.chance(0.1) ? 7 : 4, 1);
  p->add_cfg(r.chance(0.3) ? (r.chance(0.7) ? sim::disk::kBenign : sim::disk::kErrors) : 0, 0);
  env->io_faults = p->cfg[kDisk] != 0;
  p->nthreads = static_cast<int>(r.chance(0.4) ? 1 : r.range(2, 3));
  const bool mistakes = r.chance(0.15);
  for (int t = 0; t < p->nthreads; ++t) {
    const int n = static_cast<int>(r.range(2, thorough ? 20 : 12));
    for (int i = 0; i < n; ++i) {
      const int64_t slot = r.range(0, kSlots - 1), seed = static_cast<int64_t>(r.next() >> 1);
      const uint64_t w = r.below(30);
      if (w < 2) p->add(t, kGrid, slot, seed);
      else if (w < 4) p->add(t, kQuery, slot, seed);
      else if (w < 6) p->add(t, kMove, slot, seed);
      else if (w < 9) p->add(t, kObserve, slot, seed);
      else if (w < 14) p->add(t, kDetect, slot, seed);
      else if (w < 17) p->add(t, kShared, slot, seed);
      else if (w < 20) p->add(t, kLook, slot, seed);
      else if (w < 21) p->add(t, kDraw, slot, seed);
      else if (w < 23) p->add(t, kFocal, slot, seed);
      else if (w < 25) p->add(t, kCircles, slot, seed);
      else if (w < 27) p->add(t, kFile, slot, seed);
      else if (w < 28) { if (mistakes) p->add(t, kMistake, slot, seed, r.range(0, 20)); }
      else p->add(t, kForget, slot, seed);
    }
  }
}
const sim::Harness h = {"calibration_target", "C34", gen, run};
sim::Registrar reg(&h);
}  // namespace
