// Simulated workloads for the feature pipelines.
//   C36 a feature pipeline puts into a frame exactly what was found in its image
#include <aslam/cameras/camera-pinhole.h>
#include <aslam/frames/visual-frame.h>
#include <aslam/pipeline/undistorter.h>
#include <aslam/pipeline/visual-pipeline-brisk.h>
#include <aslam/pipeline/visual-pipeline-freak.h>
#include <aslam/pipeline/visual-pipeline-null.h>

#include <memory>
#include <new>
#include <set>
#include <string>
#include <thread>
#include <vector>

#include "feature-standin.h"
#include "simrt.h"

namespace {
using aslam::Camera;
using aslam::VisualFrame;
using aslam::VisualPipeline;
using sim::Op;
using sim::Plan;
using sim::Rng;

enum OpCode {
  kMake = 1,  // slot, seed
  kProcess,   // slot, seed
  kOptions,   // slot, seed: the pipeline gets other options
  kShared,    // slot, seed: a pipeline that all threads know
  kReuse,     // slot, seed: the driver writes the next image into its buffer
  kLook,      // slot, seed: at the frames so far
  kDrop,      // slot, seed: the pipeline or the frames
  kMistake,   // slot, seed, kind
};
enum CfgIdx { kAlloc = 0, kSharedSeed, kSize };
enum { kSlots = 2, kPipes = 2, kFrames = 4 };
enum Kind { kBrisk, kFreak, kNull, kKinds };
const char* const kNames[] = {"BRISK", "FREAK", "null"};

struct Options {
  size_t octaves = 0, keypoints = 0;
  double radius = 0, threshold = 0;
  bool rotation = false, scale = false;
  int hessian = 0, layers = 0;
  float pattern = 0;
};
// An image processing step: another size, inverted, and a part of a wider image.
class Step : public aslam::Undistorter {
 public:
  Step(Camera::Ptr in, Camera::Ptr out, unsigned seed) : aslam::Undistorter(in, out), seed_(seed) {}
  void processImage(const cv::Mat& image, cv::Mat* out) const override {
    const int w = static_cast<int>(output_camera_->imageWidth()), h = static_cast<int>(output_camera_->imageHeight());
    const int extra = seed_ % 2 ? 5 : 0;
    cv::Mat wide;
    if (seed_ % 4 == 0) {  // into the memory it is given, as cv::remap does
      out->create(h, w, CV_8UC1);
      wide = *out;
    } else {
      wide = cv::Mat(h, w + extra, CV_8UC1, cv::Scalar(seed_ % 251));
    }
    for (int y = 0; y < h; ++y) {
      const uint8_t* from = image.ptr<uint8_t>(y * image.rows / h);
      uint8_t* to = wide.ptr<uint8_t>(y);
      for (int x = 0; x < w; ++x) to[x] = static_cast<uint8_t>(255 - from[x * image.cols / w] + seed_);
    }
    *out = wide(cv::Rect(0, 0, w, h));
  }

 private:
  const unsigned seed_;
};
struct Pipe {
  std::shared_ptr<VisualPipeline> p;
  int kind = kNull;
  Options o;
  bool copy = false;
  Camera::Ptr in, out;
  std::shared_ptr<Step> step;  // the same once more, for the oracle
};
struct Made {
  std::shared_ptr<VisualFrame> f;
  int kind = kNull;
  bool copy = false;
  int64_t stamp = 0;
  Camera::Ptr in, out;
  const uint8_t* pixels = nullptr;
  cv::Mat raw;  // what the image was
  std::vector<cv::KeyPoint> keypoints;
  cv::Mat descriptors;
};
struct Slot {
  Pipe pipe;
  std::vector<Made> frames;
  cv::Mat buffer;  // of the driver
};
struct Ctx {
  bool mistake[sim::kMaxSimThreads];
  Pipe shared[kPipes];
  std::set<std::string> ids;
};
Ctx* C;
void on_abort() {
  if (C->mistake[sim::tid()]) sim::set_abort_ok(true);
}

Options random_options(Rng& r) {
  Options o;
  o.octaves = r.below(5);
  o.keypoints = 1 + r.below(500);
  o.radius = static_cast<double>(r.below(40)) / 2;
  o.threshold = static_cast<double>(r.below(100)) / 4;
  o.rotation = r.chance(0.5);
  o.scale = r.chance(0.5);
  o.hessian = static_cast<int>(r.below(600));
  o.layers = 1 + static_cast<int>(r.below(5));
  o.pattern = static_cast<float>(10 + r.below(20));
  return o;
}
Camera::Ptr random_camera(Rng& r, int64_t size) {
  const bool usual = r.chance(0.5);  // many images have the same size
  const int w = usual ? 16 : static_cast<int>(r.range(4, size)), h = usual ? 12 : static_cast<int>(r.range(4, size));
  return Camera::Ptr(new aslam::PinholeCamera(10 + static_cast<double>(r.below(50)), 10 + static_cast<double>(r.below(50)), w / 2., h / 2., static_cast<uint32_t>(w),
                                              static_cast<uint32_t>(h)));
}
template <class F>
void with_faults(bool faults, const char* what, F f) {
  for (int attempt = 0; attempt < 2; ++attempt) {
    try {
      std::unique_ptr<sim::AllocFaultScope> scope;
      if (attempt == 0 && faults) scope.reset(new sim::AllocFaultScope);
      f();
      return;
    } catch (const std::bad_alloc&) {
      sim::probe("failed");
    } catch (const cv::Exception&) {
      sim::probe("failed");
    }
  }
  sim::fail("C36", "no-memory", "%s fails although there is memory", what);
}
void make(Rng& r, Pipe* pipe, int64_t size, bool faults) {
  Pipe n;
  n.kind = r.chance(0.1) ? static_cast<int>(kNull) : r.chance(0.5) ? static_cast<int>(kBrisk) : static_cast<int>(kFreak);
  n.o = random_options(r);
  n.copy = r.chance(0.5);
  n.in = n.out = random_camera(r, size);
  const bool step = n.kind != kNull && r.chance(0.5);
  const unsigned seed = static_cast<unsigned>(r.below(1000));
  if (step) {
    if (r.chance(0.6)) n.out = random_camera(r, size);
    n.step.reset(new Step(n.in, n.out, seed));
  }
  const Options& o = n.o;
  with_faults(faults, "making a pipeline", [&] {
    std::unique_ptr<aslam::Undistorter> u;
    if (step) u.reset(new Step(n.in, n.out, seed));
    switch (n.kind) {
      case kBrisk:
        if (step) n.p.reset(new aslam::BriskVisualPipeline(u, n.copy, o.octaves, o.radius, o.threshold, o.keypoints, o.rotation, o.scale));
        else n.p.reset(new aslam::BriskVisualPipeline(n.in, n.copy, o.octaves, o.radius, o.threshold, o.keypoints, o.rotation, o.scale));
        break;
      case kFreak:
        if (step) n.p.reset(new aslam::FreakVisualPipeline(u, n.copy, o.octaves, o.hessian, o.layers, o.rotation, o.scale, o.pattern));
        else n.p.reset(new aslam::FreakVisualPipeline(n.in, n.copy, o.octaves, o.hessian, o.layers, o.rotation, o.scale, o.pattern));
        break;
      default: n.p.reset(new aslam::NullVisualPipeline(n.in, n.copy));
    }
  });
  if (n.p->getInputCameraShared() != n.in || n.p->getOutputCameraShared() != n.out) sim::fail("C36", "cameras", "a %s pipeline has other cameras than it was made with", kNames[n.kind]);
  *pipe = n;
  sim::probe("pipeline");
}
void set_options(Rng& r, Pipe* p, bool faults) {
  if (p->kind == kNull) return;
  const Options o = random_options(r);
  with_faults(faults, "changing the options", [&] {
    if (p->kind == kBrisk)
      static_cast<aslam::BriskVisualPipeline&>(*p->p).initializeBrisk(o.octaves, o.radius, o.threshold, o.keypoints, o.rotation, o.scale);
    else
      static_cast<aslam::FreakVisualPipeline&>(*p->p).initializeFreak(o.octaves, o.hessian, o.layers, o.rotation, o.scale, o.pattern);
  });
  p->o = o;
  sim::probe("options");
}

// What must be found in an image.
void expect(const Pipe& p, const cv::Mat& raw, Made* m) {
  cv::Mat image;
  if (p.step) p.step->processImage(raw, &image);
  else image = raw;
  const Options& o = p.o;
  using namespace feature_standin;
  if (p.kind == kBrisk) {
    detect(brisk_detector(static_cast<double>(o.octaves), o.radius, o.threshold, static_cast<double>(o.keypoints)), image, &m->keypoints);
    if (!m->keypoints.empty()) compute(brisk_extractor(o.rotation, o.scale), kBriskBytes, image, &m->keypoints, &m->descriptors);
  } else if (p.kind == kFreak) {
    detect(surf_detector(o.hessian, static_cast<double>(o.octaves), o.layers), image, &m->keypoints);
    if (!m->keypoints.empty()) compute(freak_extractor(o.rotation, o.scale, o.pattern, static_cast<double>(o.octaves)), kFreakBytes, image, &m->keypoints, &m->descriptors);
  }
  if (m->keypoints.empty()) sim::probe("no_keypoints");
}
void check(const Made& m, const char* when) {
  const VisualFrame& f = *m.f;
  const char* k = kNames[m.kind];
  if (f.getTimestampNanoseconds() != m.stamp) sim::fail("C36", "stamp", "%s a frame of the %s pipeline has another time stamp than its image", when, k);
  if (f.getRawCameraGeometry() != m.in || f.getCameraGeometry() != m.out) sim::fail("C36", "geometry", "%s a frame of the %s pipeline has other cameras than the pipeline", when, k);
  if (!f.getId().isValid()) sim::fail("C36", "id", "%s a frame of the %s pipeline has no id", when, k);
  if (!f.hasRawImage()) sim::fail("C36", "image", "%s a frame of the %s pipeline has no image", when, k);
  const cv::Mat& raw = f.getRawImage();
  if (raw.size() != m.raw.size() || raw.type() != m.raw.type()) sim::fail("C36", "image", "%s the image of a frame of the %s pipeline has another size", when, k);
  if (!m.copy && raw.data != m.pixels) sim::fail("C36", "copied", "%s the %s pipeline copied an image although it should not", when, k);
  if (m.copy) {
    if (raw.data == m.pixels) sim::fail("C36", "not-copied", "%s the %s pipeline did not copy an image", when, k);
    for (int y = 0; y < raw.rows; ++y)
      if (std::memcmp(raw.ptr(y), m.raw.ptr(y), static_cast<size_t>(raw.cols))) sim::fail("C36", "image", "%s row %d of the copied image of a %s pipeline differs", when, y, k);
  }
  if (m.kind == kNull) {
    if (f.hasKeypointMeasurements() || f.hasDescriptors()) sim::fail("C36", "features", "%s a frame of the null pipeline has features", when);
    return;
  }
  if (!f.hasKeypointMeasurements() || !f.hasKeypointMeasurementUncertainties() || !f.hasKeypointOrientations() || !f.hasKeypointScores() || !f.hasKeypointScales() ||
      !f.hasDescriptors())
    sim::fail("C36", "missing", "%s a frame of the %s pipeline with %zu keypoints lacks data", when, k, m.keypoints.size());
  if (f.hasTrackIds()) sim::fail("C36", "track-ids", "%s a frame of the %s pipeline has tracks", when, k);
  const int n = static_cast<int>(m.keypoints.size());
  const VisualFrame::DescriptorsT& d = f.getDescriptors();
  if (f.getKeypointMeasurements().cols() != n || f.getKeypointMeasurementUncertainties().rows() != n || f.getKeypointOrientations().rows() != n ||
      f.getKeypointScores().rows() != n || f.getKeypointScales().rows() != n || d.cols() != n)
    sim::fail("C36", "count",
              "%s a frame of the %s pipeline has %d keypoints (%d uncertainties, %d orientations, %d scores, %d scales, %d descriptors) instead of %d", when, k,
              static_cast<int>(f.getKeypointMeasurements().cols()), static_cast<int>(f.getKeypointMeasurementUncertainties().rows()),
              static_cast<int>(f.getKeypointOrientations().rows()), static_cast<int>(f.getKeypointScores().rows()), static_cast<int>(f.getKeypointScales().rows()),
              static_cast<int>(d.cols()), n);
  if (n && d.rows() != m.descriptors.cols) sim::fail("C36", "descriptor-size", "%s descriptors of the %s pipeline have %d bytes instead of %d", when, k, static_cast<int>(d.rows()), m.descriptors.cols);
  for (int i = 0; i < n; ++i) {
    const cv::KeyPoint& p = m.keypoints[static_cast<size_t>(i)];
    const Eigen::Vector2d at = f.getKeypointMeasurement(static_cast<size_t>(i));
    if (at[0] != p.pt.x || at[1] != p.pt.y)
      sim::fail("C36", "position", "%s keypoint %d of %d of the %s pipeline is at (%g %g) instead of (%g %g)", when, i, n, k, at[0], at[1], p.pt.x, p.pt.y);
    if (f.getKeypointScale(static_cast<size_t>(i)) != p.size || f.getKeypointOrientation(static_cast<size_t>(i)) != p.angle ||
        f.getKeypointScore(static_cast<size_t>(i)) != p.response)
      sim::fail("C36", "keypoint-data", "%s keypoint %d of %d of the %s pipeline has scale %g, orientation %g, score %g instead of %g, %g, %g", when, i, n, k,
                f.getKeypointScale(static_cast<size_t>(i)), f.getKeypointOrientation(static_cast<size_t>(i)), f.getKeypointScore(static_cast<size_t>(i)), p.size, p.angle, p.response);
    if (f.getKeypointMeasurementUncertainty(static_cast<size_t>(i)) != 0.8) sim::fail("C36", "uncertainty", "%s keypoint %d of the %s pipeline has an uncertainty of %g", when, i, k, f.getKeypointMeasurementUncertainty(static_cast<size_t>(i)));
    for (int b = 0; b < m.descriptors.cols; ++b)
      if (d(b, i) != m.descriptors.ptr<uint8_t>(i)[b])
        sim::fail("C36", "descriptor", "%s byte %d of descriptor %d of %d of the %s pipeline is %d instead of %d", when, b, i, n, k, d(b, i), m.descriptors.ptr<uint8_t>(i)[b]);
  }
}
cv::Mat random_image(Rng& r, const Camera& c) {
  const int w = static_cast<int>(c.imageWidth()), h = static_cast<int>(c.imageHeight());
  const int extra = r.chance(0.3) ? 1 + static_cast<int>(r.below(9)) : 0;
  cv::Mat m(h, w + extra, CV_8UC1, cv::Scalar(r.below(256)));
  for (int i = 0; i < 8; ++i) m.at<uint8_t>(static_cast<int>(r.below(static_cast<uint64_t>(h))), static_cast<int>(r.below(static_cast<uint64_t>(w)))) = static_cast<uint8_t>(r.below(256));
  return extra ? m(cv::Rect(0, 0, w, h)) : m;
}
void process(Rng& r, const Pipe& p, Slot* s, bool faults) {
  cv::Mat image;
  // Drivers may use the same buffer again, if the pipeline copies.
  if (p.copy && !s->buffer.empty() && s->buffer.cols == static_cast<int>(p.in->imageWidth()) && s->buffer.rows == static_cast<int>(p.in->imageHeight()) && r.chance(0.5))
    image = s->buffer;
  else
    image = random_image(r, *p.in);
  Made m;
  m.kind = p.kind;
  m.copy = p.copy;
  m.in = p.in;
  m.out = p.out;
  m.stamp = r.chance(0.05) ? -static_cast<int64_t>(r.next() >> 2) : static_cast<int64_t>(r.next() >> 1);
  m.pixels = image.data;
  m.raw = image.clone();
  expect(p, m.raw, &m);
  with_faults(faults, "processing an image", [&] { m.f = p.p->processImage(image, m.stamp); });
  if (!m.f) sim::fail("C36", "no-frame", "the %s pipeline makes no frame", kNames[p.kind]);
  for (int y = 0; y < image.rows; ++y)
    if (std::memcmp(image.ptr(y), m.raw.ptr(y), static_cast<size_t>(image.cols))) sim::fail("C36", "input-changed", "the %s pipeline changed the image it was given", kNames[p.kind]);
  check(m, "At first");
  {
    sim::Quiet q;
    if (!C->ids.insert(m.f->getId().hexString()).second) sim::fail("C36", "id", "two frames have the same id");
  }
  if (p.copy) s->buffer = image;
  s->frames.push_back(std::move(m));
  if (s->frames.size() > kFrames) s->frames.erase(s->frames.begin());
  sim::probe("processed");
}
void mistake(Rng& r, Slot* s, int kind) {
  bool& on = C->mistake[sim::tid()];
  on = true;
  const Pipe& p = s->pipe;
  const int w = static_cast<int>(p.in->imageWidth()), h = static_cast<int>(p.in->imageHeight());
  switch (kind % 4) {
    case 0: p.p->processImage(cv::Mat(h + 1, w, CV_8UC1, cv::Scalar(0)), 1); break;
    case 1: p.p->processImage(cv::Mat(h, w - 1, CV_8UC1, cv::Scalar(0)), 1); break;
    case 2: {
      std::unique_ptr<aslam::Undistorter> none;
      aslam::BriskVisualPipeline b(none, true, 1, 1, 1, 1, true, true);
      break;
    }
    default: {
      aslam::FreakVisualPipeline b(Camera::ConstPtr(), true, 1, 1, 1, true, true, 22.f);
    }
  }
  on = false;
  sim::fail("C36", "mistake-accepted", "an impossible request (%d) is not refused", kind % 4);
}

void run(const Plan& plan) {
  sim::set_default_props("C36");
  sim::set_stuck_props("C36");
  C = new Ctx;
  for (bool& x : C->mistake) x = false;
  sim::set_abort_callback(on_abort);
  const int64_t size = std::max<int64_t>(4, plan.cfg[kSize]);
  {
    Rng r(static_cast<uint64_t>(plan.cfg[kSharedSeed]));
    for (Pipe& p : C->shared) make(r, &p, size, false);
  }
  const bool faults = plan.cfg[kAlloc] != 0;
  std::vector<std::thread> threads;
  for (int t = 0; t < plan.nthreads; ++t)
    threads.emplace_back([t, size, faults, &plan] {
      std::unique_ptr<Slot[]> s(new Slot[kSlots]);
      for (int i = 0; i < plan.th[t].n; ++i) {
        const Op& op = plan.th[t].ops[i];
        Slot& x = s[op.a[0] % kSlots];
        Rng r(static_cast<uint64_t>(op.a[1]));
        if (op.code == kShared) {
          process(r, C->shared[r.below(kPipes)], &x, faults);
          continue;
        }
        if (op.code == kMake || !x.pipe.p) {
          make(r, &x.pipe, size, faults);
          if (op.code == kMake) continue;
        }
        switch (op.code) {
          case kProcess: process(r, x.pipe, &x, faults); break;
          case kOptions: set_options(r, &x.pipe, faults); break;
          case kReuse:
            if (!x.buffer.empty()) x.buffer = cv::Scalar(r.below(256)), x.buffer.at<uint8_t>(0, 0) = static_cast<uint8_t>(r.below(256));
            break;
          case kLook:
            for (const Made& m : x.frames) check(m, "Later");
            break;
          case kDrop:
            if (r.chance(0.5)) x.pipe = Pipe();
            else if (!x.frames.empty()) x.frames.erase(x.frames.begin() + static_cast<long>(r.below(x.frames.size())));
            break;
          case kMistake: mistake(r, &x, static_cast<int>(op.a[2])); break;
          default: break;
        }
      }
      for (int i = 0; i < kSlots; ++i)
        for (const Made& m : s[i].frames) check(m, "At the end");
    });
  for (std::thread& t : threads) t.join();
}

void gen(Rng& r, Plan* p, sim::Env* env, bool thorough) {
  p->add_cfg(r.chance(0.3), 0);
  env->alloc_fail = p->cfg[kAlloc] != 0;
  p->add_cfg(static_cast<int64_t>(r.next() >> 1), 0);
  p->add_cfg(r.chance(0.1) ? 40 : 14, 4);
  p->nthreads = static_cast<int>(r.chance(0.3) ? 1 : r.range(2, 4));
  const bool mistakes = r.chance(0.1);
  for (int t = 0; t < p->nthreads; ++t) {
    const int n = static_cast<int>(r.range(2, thorough ? 20 : 10));
    for (int i = 0; i < n; ++i) {
      const int64_t slot = r.range(0, kSlots - 1), seed = static_cast<int64_t>(r.next() >> 1);
      const uint64_t w = r.below(24);
      if (w < 2) p->add(t, kMake, slot, seed);
      else if (w < 9) p->add(t, kProcess, slot, seed);
      else if (w < 12) p->add(t, kOptions, slot, seed);
      else if (w < 18) p->add(t, kShared, slot, seed);
      else if (w < 20) p->add(t, kReuse, slot, seed);
      else if (w < 22) p->add(t, kLook, slot, seed);
      else if (w < 23) p->add(t, kDrop, slot, seed);
      else if (mistakes) p->add(t, kMistake, slot, seed, r.range(0, 3));
    }
  }
}
const sim::Harness h = {"feature_pipelines", "C36", gen, run};
sim::Registrar reg(&h);
}  // namespace
