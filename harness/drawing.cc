// Simulated workloads for drawings of frames.
//   C39 a drawing shows the features of its frame and changes nothing else
#include <aslam/frames/visual-frame.h>
#include <aslam/matcher/match.h>
#include <aslam/visualization/basic-visualization.h>

#include <algorithm>
#include <cmath>
#include <memory>
#include <new>
#include <thread>
#include <vector>

#include <opencv2/imgproc/imgproc.hpp>

#include "simrt.h"

namespace {
using aslam::VisualFrame;
using sim::Op;
using sim::Plan;
using sim::Rng;

enum OpCode {
  kMake = 1,  // frame, seed
  kPoints,    // frame, picture, seed: keypoints
  kMatches,   // frame, frame, picture, seed
  kPicture,   // picture, seed: gets another content
  kSet,       // frame, seed: the frame gets another image
  kMistake,   // seed, kind
};
enum CfgIdx { kAlloc = 0, kSharedSeed };
enum { kOwn = 3, kShared = 2, kAll = kOwn + kShared, kPictures = 2, kTypes = 3 };

struct Point { double x = 0, y = 0; };
struct Frame {
  std::unique_ptr<VisualFrame> f;
  cv::Mat wide;  // the image may be a part of it
  std::vector<unsigned char> pixels;
  int w = 0, h = 0;
  std::vector<Point> points[kTypes];
  int grey(int x, int y) const { return pixels[static_cast<size_t>(y * w + x)]; }
};
struct Ctx {
  bool mistake[sim::kMaxSimThreads];
  Frame shared[kShared];
};
Ctx* C;
void on_abort() {
  if (C->mistake[sim::tid()]) sim::set_abort_ok(true);
}
void check_frame(const Frame& f, const char* when) {
  const cv::Mat raw = f.f->getRawImage();
  if (raw.type() != CV_8UC1 || raw.cols != f.w || raw.rows != f.h) sim::fail("C39", "frame", "%s: the raw image has another size or type", when);
  for (int y = 0; y < f.h; ++y)
    for (int x = 0; x < f.w; ++x)
      if (raw.at<unsigned char>(y, x) != f.grey(x, y)) sim::fail("C39", "frame", "%s: the raw image has changed at %d,%d", when, x, y);
  const Eigen::Matrix2Xd& k = f.f->getKeypointMeasurements();
  Eigen::Index at = 0;
  for (const std::vector<Point>& points : f.points)
    for (const Point& p : points) {
      if (at >= k.cols() || k(0, at) != p.x || k(1, at) != p.y) sim::fail("C39", "frame", "%s: the keypoints have changed", when);
      ++at;
    }
  if (at != k.cols()) sim::fail("C39", "frame", "%s: the keypoints have changed", when);
}
void make(Rng& r, Frame* out) {
  Frame n;
  n.w = static_cast<int>(r.range(16, 56));
  n.h = static_cast<int>(r.range(16, 56));
  const int left = r.chance(0.3) ? 3 : 0;
  n.wide = cv::Mat(n.h + left, n.w + 2 * left, CV_8UC1);
  for (int y = 0; y < n.wide.rows; ++y)
    for (int x = 0; x < n.wide.cols; ++x) n.wide.at<unsigned char>(y, x) = static_cast<unsigned char>(r.next() & 255);
  const cv::Mat image = n.wide(cv::Rect(left, left, n.w, n.h));
  for (int y = 0; y < n.h; ++y)
    for (int x = 0; x < n.w; ++x) n.pixels.push_back(image.at<unsigned char>(y, x));
  n.f.reset(new VisualFrame);
  n.f->setRawImage(image);
  Eigen::Matrix2Xd all(2, 0);
  for (int type = 0; type < kTypes; ++type) {
    const int count = static_cast<int>(r.chance(0.25) ? 0 : r.below(6));
    for (int i = 0; i < count; ++i) {
      Point p;
      p.x = r.chance(0.1) ? -20.0 : static_cast<double>(r.below(static_cast<uint64_t>(n.w * 8))) / 8;
      p.y = r.chance(0.1) ? n.h + 9.5 : static_cast<double>(r.below(static_cast<uint64_t>(n.h * 8))) / 8;
      n.points[type].push_back(p);
      all.conservativeResize(Eigen::NoChange, all.cols() + 1);
      all.col(all.cols() - 1) << p.x, p.y;
    }
  }
  n.f->setKeypointMeasurements(all);
  for (int type = 0; type < kTypes; ++type) {
    const VisualFrame::DescriptorsT d = VisualFrame::DescriptorsT::Zero(type + 1, static_cast<int>(n.points[type].size()));
    if (type == 0) n.f->setDescriptors(d, type);
    else n.f->extendDescriptors(d, type);
  }
  *out = std::move(n);
  sim::probe("frame");
}
void set_image(Rng& r, Frame* f) {
  // Images of frames and pictures may share memory, so the new one is elsewhere.
  cv::Mat image(f->h, f->w, CV_8UC1);
  const unsigned char add = static_cast<unsigned char>(1 + r.below(255));
  for (int y = 0; y < f->h; ++y)
    for (int x = 0; x < f->w; ++x) {
      unsigned char& p = f->pixels[static_cast<size_t>(y * f->w + x)];
      image.at<unsigned char>(y, x) = p = static_cast<unsigned char>(p + add);
    }
  f->f->setRawImage(image);
  f->wide = image;
  sim::probe("another_image");
}
bool inside(const Frame& f, double x, double y, int margin) { return x >= margin && y >= margin && x < f.w - margin && y < f.h - margin; }
bool coloured(const cv::Mat& m, int x, int y) {
  const cv::Vec3b& p = m.at<cv::Vec3b>(y, x);
  return p[0] != p[1] || p[1] != p[2];
}
// Pixels near a place that are not grey.
int count(const cv::Mat& m, double cx, double cy, double from, double to) {
  int n = 0;
  for (int y = std::max(0, static_cast<int>(cy - to) - 1); y < std::min(m.rows, static_cast<int>(cy + to) + 2); ++y)
    for (int x = std::max(0, static_cast<int>(cx - to) - 1); x < std::min(m.cols, static_cast<int>(cx + to) + 2); ++x) {
      const double d = std::hypot(x - cx, y - cy);
      if (d >= from && d <= to && coloured(m, x, y)) ++n;
    }
  return n;
}
double from_segment(double x, double y, const Point& a, const Point& b) {
  const double dx = b.x - a.x, dy = b.y - a.y, l = dx * dx + dy * dy;
  const double s = l > 0 ? std::min(1.0, std::max(0.0, ((x - a.x) * dx + (y - a.y) * dy) / l)) : 0;
  return std::hypot(x - a.x - s * dx, y - a.y - s * dy);
}
void check_shape(const Frame& f, const cv::Mat& m) {
  if (m.type() != CV_8UC3 || m.cols != f.w || m.rows != f.h) sim::fail("C39", "shape", "a drawing of %d,%d has the size %d,%d or no colours", f.w, f.h, m.cols, m.rows);
}
template <typename F>
void with_faults(const char* what, bool faults, bool switches, const F& f) {
  for (int attempt = 0; attempt < 2; ++attempt) {
    try {
      std::unique_ptr<sim::AllocPointScope> points(switches ? new sim::AllocPointScope : nullptr);
      std::unique_ptr<sim::AllocFaultScope> scope;
      if (attempt == 0 && faults) scope.reset(new sim::AllocFaultScope);
      f();
      return;
    } catch (const std::bad_alloc&) {
      sim::probe("failed");
    } catch (const cv::Exception&) {
      sim::probe("failed");
    }
  }
  sim::fail("C39", "no-memory", "%s fails although there is memory", what);
}
void draw_points(Rng& r, const Frame& f, cv::Mat* picture, bool faults) {
  const int type = static_cast<int>(r.below(kTypes));
  const std::vector<Point>& points = f.points[type];
  const cv::Mat old = *picture;  // a header that somebody else has
  with_faults("drawing keypoints", faults, r.chance(0.5), [&] { aslam_cv_visualization::drawKeypoints(*f.f, picture, type); });
  check_frame(f, "After drawing keypoints");
  if (points.empty()) return;  // there is nothing to draw: the image may be left alone
  check_shape(f, *picture);
  for (int y = 0; y < f.h; ++y)
    for (int x = 0; x < f.w; ++x) {
      bool near = false;
      for (const Point& p : points) near |= std::hypot(x - p.x, y - p.y) <= 4.5;
      const cv::Vec3b& v = picture->at<cv::Vec3b>(y, x);
      const int g = f.grey(x, y);
      if (!near && (v[0] != g || v[1] != g || v[2] != g)) sim::fail("C39", "points", "the drawing differs from the image at %d,%d, far from any keypoint of its type", x, y);
    }
  for (const Point& p : points)
    if (inside(f, p.x, p.y, 3) && count(*picture, p.x, p.y, 0, 3.5) < 3) sim::fail("C39", "points", "the keypoint at %g,%g of %zu is not drawn", p.x, p.y, points.size());
  // The same again, whatever was in the picture.
  cv::Mat again;
  aslam_cv_visualization::drawKeypoints(*f.f, &again, type);
  if (again.size() != picture->size() || cv::norm(again, *picture, cv::NORM_INF) != 0) sim::fail("C39", "same", "the same drawing differs the second time");
  sim::probe("points");
}
void draw_matches(Rng& r, const Frame& a, const Frame& b, cv::Mat* picture, bool faults) {
  const int type = static_cast<int>(r.below(kTypes));
  const std::vector<Point>&pa = a.points[type], &pb = b.points[type];
  aslam::FrameToFrameMatches matches;
  if (!pa.empty() && !pb.empty())
    for (uint64_t i = r.below(4); i > 0; --i) {
      aslam::FrameToFrameMatch m;
      m.first = static_cast<int>(r.below(pa.size()));
      m.second = static_cast<int>(r.below(pb.size()));
      matches.push_back(m);
    }
  with_faults("drawing matches", faults, r.chance(0.5), [&] { aslam_cv_visualization::drawKeypointMatches(*a.f, *b.f, matches, type, picture); });
  check_frame(a, "After drawing matches");
  check_frame(b, "After drawing matches");
  check_shape(a, *picture);
  for (int y = 0; y < a.h; ++y)
    for (int x = 0; x < a.w; ++x) {
      bool near = false;
      for (const aslam::FrameToFrameMatch& m : matches) {
        const Point &p = pa[static_cast<size_t>(m.first)], &q = pb[static_cast<size_t>(m.second)];
        near |= std::hypot(x - p.x, y - p.y) <= 7.5 || from_segment(x, y, p, q) <= 3.5;
      }
      const cv::Vec3b& v = picture->at<cv::Vec3b>(y, x);
      const int g = a.grey(x, y);
      if (!near && (v[0] != g || v[1] != g || v[2] != g)) sim::fail("C39", "matches", "the drawing differs from the image of the first frame at %d,%d, far from any match", x, y);
    }
  for (const aslam::FrameToFrameMatch& m : matches) {
    const Point &p = pa[static_cast<size_t>(m.first)], &q = pb[static_cast<size_t>(m.second)];
    if (inside(a, p.x, p.y, 8) && count(*picture, p.x, p.y, 2, 7) < 8) sim::fail("C39", "matches", "the matched keypoint at %g,%g is not marked", p.x, p.y);
    for (int i = 1; i < 4; ++i) {
      const double x = p.x + (q.x - p.x) * i / 4, y = p.y + (q.y - p.y) * i / 4;
      if (inside(a, x, y, 3) && count(*picture, x, y, 0, 2.6) < 1) sim::fail("C39", "matches", "the match from %g,%g to %g,%g has no line", p.x, p.y, q.x, q.y);
    }
  }
  cv::Mat again;
  aslam_cv_visualization::drawKeypointMatches(*a.f, *b.f, matches, type, &again);
  if (again.size() != picture->size() || cv::norm(again, *picture, cv::NORM_INF) != 0) sim::fail("C39", "same", "the same drawing differs the second time");
  sim::probe(matches.empty() ? "no_matches" : "matches");
}
void set_picture(Rng& r, const Frame* frames, cv::Mat* picture) {
  switch (r.below(4)) {
    case 0: *picture = cv::Mat(); break;
    case 1: *picture = cv::Mat(static_cast<int>(r.range(1, 60)), static_cast<int>(r.range(1, 60)), CV_8UC3, cv::Scalar(9, 99, 199)); break;
    case 2: *picture = cv::Mat(static_cast<int>(r.range(1, 60)), static_cast<int>(r.range(1, 60)), CV_8UC1, cv::Scalar(7)); break;
    default: *picture = frames[r.below(kOwn)].f->getRawImage(); break;  // the caller starts with a header of a raw image
  }
}
void mistake(Rng& r, const Frame& a, int kind) {
  bool& on = C->mistake[sim::tid()];
  on = true;
  const int type = static_cast<int>(r.below(kTypes));
  aslam::FrameToFrameMatches matches(1);
  matches[0].first = matches[0].second = 0;
  cv::Mat m;
  switch (kind % 3) {
    case 0: aslam_cv_visualization::drawKeypoints(*a.f, nullptr, type); break;
    case 1: aslam_cv_visualization::drawKeypointMatches(*a.f, *a.f, aslam::FrameToFrameMatches(), type, nullptr); break;
    default:
      (r.chance(0.5) || a.points[type].empty() ? matches[0].first : matches[0].second) = static_cast<int>(a.points[type].size());
      aslam_cv_visualization::drawKeypointMatches(*a.f, *a.f, matches, type, &m);
      break;
  }
  on = false;
  sim::fail("C39", "mistake-accepted", "an impossible request (%d) is not refused", kind % 3);
}

void run(const Plan& plan) {
  sim::set_default_props("C39");
  sim::set_stuck_props("C39");
  C = new Ctx;
  for (bool& x : C->mistake) x = false;
  sim::set_abort_callback(on_abort);
  {
    Rng r(static_cast<uint64_t>(plan.cfg[kSharedSeed]));
    for (Frame& f : C->shared) make(r, &f);
  }
  const bool faults = plan.cfg[kAlloc] != 0;
  std::vector<std::thread> threads;
  for (int t = 0; t < plan.nthreads; ++t)
    threads.emplace_back([t, faults, &plan] {
      Frame own[kOwn];
      cv::Mat pictures[kPictures], known[kPictures];
      Rng first(static_cast<uint64_t>(plan.cfg[kSharedSeed]) + static_cast<uint64_t>(t) + 1);
      for (Frame& f : own) make(first, &f);
      const auto frame = [&](int64_t i) -> const Frame& { return i < kOwn ? own[i] : C->shared[(i - kOwn) % kShared]; };
      for (int i = 0; i < plan.th[t].n; ++i) {
        const Op& op = plan.th[t].ops[i];
        const auto look = [&] {
          for (int k = 0; k < kPictures; ++k)
            if (!known[k].empty() && (known[k].size() != pictures[k].size() || cv::norm(known[k], pictures[k], cv::NORM_INF) != 0)) sim::fail("C39", "picture", "a drawing has changed later");
        };
        look();
        switch (op.code) {
          case kMake: {
            Rng r(static_cast<uint64_t>(op.a[1]));
            // A picture may still show the memory of the old frame.
            for (int k = 0; k < kPictures; ++k) known[k] = pictures[k] = cv::Mat();
            make(r, &own[op.a[0] % kOwn]);
            break;
          }
          case kSet: {
            Rng r(static_cast<uint64_t>(op.a[1]));
            set_image(r, &own[op.a[0] % kOwn]);
            break;
          }
          case kPoints: {
            Rng r(static_cast<uint64_t>(op.a[2]));
            draw_points(r, frame(op.a[0] % kAll), &pictures[op.a[1] % kPictures], faults);
            break;
          }
          case kMatches: {
            Rng r(static_cast<uint64_t>(op.a[3]));
            draw_matches(r, frame(op.a[0] % kAll), frame(op.a[1] % kAll), &pictures[op.a[2] % kPictures], faults);
            break;
          }
          case kPicture: {
            Rng r(static_cast<uint64_t>(op.a[1]));
            set_picture(r, own, &pictures[op.a[0] % kPictures]);
            break;
          }
          case kMistake: {
            Rng r(static_cast<uint64_t>(op.a[0]));
            mistake(r, frame(static_cast<int64_t>(r.below(kAll))), static_cast<int>(op.a[1]));
            break;
          }
          default: break;
        }
        const int64_t m = op.code == kPoints ? op.a[1] : op.code == kMatches ? op.a[2] : op.code == kPicture ? op.a[0] : -1;
        if (m >= 0) known[m % kPictures] = pictures[m % kPictures].clone();
        look();
      }
      for (const Frame& f : own) check_frame(f, "At the end");
    });
  for (std::thread& t : threads) t.join();
  for (const Frame& f : C->shared) check_frame(f, "At the end");
}
void gen(Rng& r, Plan* p, sim::Env* env, bool thorough) {
  p->add_cfg(r.chance(0.3), 0);
  p->add_cfg(static_cast<int64_t>(r.next() >> 8), 0);
  env->alloc_fail = p->cfg[kAlloc] != 0;
  p->nthreads = static_cast<int>(r.chance(0.3) ? 1 : r.range(2, 3));
  const bool mistakes = r.chance(0.1);
  for (int t = 0; t < p->nthreads; ++t) {
    const int n = static_cast<int>(r.range(2, thorough ? 16 : 8));
    for (int i = 0; i < n; ++i) {
      const int64_t seed = static_cast<int64_t>(r.next() >> 1);
      const int64_t a = r.range(0, kAll - 1), b = r.range(0, kAll - 1), m = r.range(0, kPictures - 1);
      const uint64_t w = r.below(20);
      if (w < 2) p->add(t, kMake, a, seed);
      else if (w < 8) p->add(t, kPoints, a, m, seed);
      else if (w < 15) p->add(t, kMatches, a, b, m, seed);
      else if (w < 17) p->add(t, kPicture, m, seed);
      else if (w < 19) p->add(t, kSet, a, seed);
      else if (mistakes) p->add(t, kMistake, seed, r.range(0, 2));
    }
  }
}
const sim::Harness h = {"drawings", "C39", gen, run};
sim::Registrar reg(&h);
}  // namespace
