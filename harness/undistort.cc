// Simulated workloads for undistortion.
//   C32 an undistorted image shows every direction where its output camera says
#include <aslam/cameras/camera-3d-lidar.h>
#include <aslam/cameras/camera-pinhole.h>
#include <aslam/cameras/camera-unified-projection.h>
#include <aslam/cameras/distortion-equidistant.h>
#include <aslam/cameras/distortion-fisheye.h>
#include <aslam/cameras/distortion-null.h>
#include <aslam/cameras/distortion-radtan.h>
#include <aslam/pipeline/undistorter-mapped.h>
#include <opencv2/imgproc/imgproc.hpp>

#include <cmath>
#include <memory>
#include <new>
#include <string>
#include <thread>
#include <vector>

#include "simrt.h"

namespace {
using aslam::Camera;
using aslam::Distortion;
using aslam::InterpolationMethod;
using aslam::MappedUndistorter;
using aslam::ProjectionResult;
using sim::Op;
using sim::Plan;
using sim::Rng;
#include "camera_ref.inc"

enum OpCode {
  kBuild = 1,  // slot, seed
  kMaps,       // slot
  kProcess,    // slot, seed
  kSource,     // slot, seed: the original camera changes
  kShared,     // seed: the undistorter all threads know
  kMistake,    // slot, seed, kind
  kRectangle,  // slot, seed: what the scaling parameter promises
};
enum CfgIdx { kAlloc = 0, kSharedSeed, kSize };
enum { kSlots = 2 };
enum How { kPlain, kDispatch, kToPinhole, kDirect, kHows };

struct Slot {
  std::shared_ptr<Camera> source;
  bool resized = false, removed = false;  // what happened to it
  std::shared_ptr<MappedUndistorter> u;
  Model in;    // the camera of the distorted image
  Model out;   // the camera of the undistorted image
  int how = kPlain;
  int map_type = CV_16SC2;
  double alpha = 0;
  double scale = 1;
  InterpolationMethod interpolation = InterpolationMethod::Linear;
  cv::Mat result;  // used again and again
  uint64_t serial = 0;
};
struct Ctx {
  bool mistake[sim::kMaxSimThreads];
  Slot shared;
};
Ctx* C;
void on_abort() {
  if (C->mistake[sim::tid()]) sim::set_abort_ok(true);
}

// A camera and a distortion that can be undone all over the image.
Model random_model(Rng& r, bool to_pinhole, int64_t size) {
  Model m;
  m.cls = to_pinhole || r.chance(0.5) ? kUnified : kPinhole;
  m.w = static_cast<uint32_t>(r.range(8, size));
  m.h = static_cast<uint32_t>(r.chance(0.3) ? m.w : r.range(8, size));
  const double big = std::max(m.w, m.h);
  double f = number(r, 0.9, 2.5);
  const bool wide = m.cls == kUnified && !to_pinhole && r.chance(0.5);
  if (wide) f = number(r, 0.35, 0.7);
  if (to_pinhole) f = number(r, 1.2, 2.5);
  f *= big;
  const double g = r.chance(0.5) ? f : f * number(r, 0.9, 1.2);
  const double cu = number(r, 0.4, 0.6) * m.w, cv = number(r, 0.4, 0.6) * m.h;
  m.k = {f, g, cu, cv};
  if (m.cls == kUnified) m.k.insert(m.k.begin(), r.chance(0.1) ? 0.0 : r.chance(0.2) ? 1.0 : number(r, 0.3, wide ? 1.0 : 1.3));
  m.d.kind = static_cast<int>(r.below(kKinds));
  if (wide && m.d.kind != kNone) m.d.kind = r.chance(0.5) ? kNone : kRadTan;
  static const double kLimit[2][4] = {{0.06, 0.01, 0.005, 0.005}, {0.04, 0.01, 0.004, 0.001}};
  for (int i = 0; i < kNumDist[m.d.kind]; ++i)
    m.d.p.push_back(m.d.kind == kFisheye ? number(r, 0.5, 0.9) : number(r, -1, 1) * kLimit[m.d.kind - 1][i] * (wide ? 0.3 : 1));
  // A keypoint in a corner must still be the image of a direction.
  if (wide && m.d.kind == kRadTan)
    for (int i = 0; i < 2; ++i)
      if (m.d.p[static_cast<size_t>(i)] < 0) m.d.p[static_cast<size_t>(i)] *= 0.3;
  return m;
}
Camera* make_camera(const Model& m) {
  Distortion::UniquePtr d;
  switch (m.d.kind) {
    case kRadTan: d.reset(new aslam::RadTanDistortion(vec(m.d.p))); break;
    case kEquidistant: d.reset(new aslam::EquidistantDistortion(vec(m.d.p))); break;
    case kFisheye: d.reset(new aslam::FisheyeDistortion(vec(m.d.p))); break;
    default: d.reset(new aslam::NullDistortion); break;
  }
  if (m.cls == kPinhole) return new aslam::PinholeCamera(vec(m.k), m.w, m.h, d);
  return new aslam::UnifiedProjectionCamera(vec(m.k), m.w, m.h, d);
}
Model model_of(const Camera& c) {
  Model m;
  m.cls = c.getType() == Camera::Type::kPinhole ? kPinhole : c.getType() == Camera::Type::kUnifiedProjection ? kUnified : kLidar;
  const Eigen::VectorXd& k = c.getParameters();
  m.k.assign(k.data(), k.data() + k.size());
  switch (c.getDistortion().getType()) {
    case Distortion::Type::kRadTan: m.d.kind = kRadTan; break;
    case Distortion::Type::kEquidistant: m.d.kind = kEquidistant; break;
    case Distortion::Type::kFisheye: m.d.kind = kFisheye; break;
    default: m.d.kind = kNone;
  }
  const Eigen::VectorXd& p = c.getDistortion().getParameters();
  m.d.p.assign(p.data(), p.data() + p.size());
  m.w = c.imageWidth();
  m.h = c.imageHeight();
  return m;
}
bool same(const Model& a, const Model& b) {
  return a.cls == b.cls && a.k == b.k && a.d.kind == b.d.kind && a.d.p == b.d.p && a.w == b.w && a.h == b.h;
}
// The direction of a keypoint of a camera without distortion.
bool lift(const Model& m, Real u, Real v, Real out[3]) {
  const int o = m.cls == kUnified ? 1 : 0;
  const Real x = (u - m.k[2 + o]) / m.k[o], y = (v - m.k[3 + o]) / m.k[1 + o];
  out[0] = x;
  out[1] = y;
  out[2] = 1;
  if (m.cls == kPinhole) return true;
  const Real xi = m.k[0], r2 = x * x + y * y, det = 1 + (1 - xi * xi) * r2;
  if (det < 1e-6L) return false;
  const Real s = (xi + sqrtl(det)) / (1 + r2);
  out[0] = s * x;
  out[1] = s * y;
  out[2] = s - xi;
  return true;
}
Ref seen(const Model& m, const Real dir[3]) {
  Real in[16];
  int n = 0;
  for (int i = 0; i < 3; ++i) in[n++] = dir[i];
  for (double v : m.k) in[n++] = v;
  for (double v : m.d.p) in[n++] = v;
  return project(m.cls, m.d.kind, m.w, in);
}
// Where the pixel (u, v) of the undistorted image was in the distorted one.
// false: not defined.
bool origin(const Slot& s, int u, int v, Vec2* k) {
  Real dir[3];
  if (!lift(s.out, u, v, dir)) return false;
  const Real d = sqrtl(dir[0] * dir[0] + dir[1] * dir[1] + dir[2] * dir[2]);
  if (s.in.cls == kPinhole && dir[2] < 0.02L * d) return false;
  // Close to the horizon of the unified model everything is noise.
  if (s.in.cls == kUnified && dir[2] + s.in.k[0] * d < 0.02L * d) return false;
  const Ref ref = seen(s.in, dir);
  if (ref.s != kIn) return false;
  *k = ref.k;
  return true;
}

void audit(const Slot& s, const char* when) {
  const Camera &a = s.u->getInputCamera(), &b = s.u->getOutputCamera();
  const Model in = model_of(a), out = model_of(b);
  if (!same(in, s.in)) sim::fail("C32", "input-camera", "%s the undistorter has another input camera than it was made for", when);
  if (!same(out, s.out)) sim::fail("C32", "output-camera", "%s the output camera of an undistorter changed", when);
  if (b.hasDistortion()) sim::fail("C32", "output-camera", "%s the output camera has a distortion", when);
  if (s.u->getInputCameraShared().get() != &a || s.u->getOutputCameraShared().get() != &b)
    sim::fail("C32", "cameras", "%s the two ways to get a camera of an undistorter disagree", when);
}

void build(Rng& r, Slot* s, int64_t size, bool faults) {
  Slot n;
  n.how = static_cast<int>(r.below(kHows));
  n.in = random_model(r, n.how == kToPinhole, size);
  if (n.how == kToPinhole && n.in.d.kind == kEquidistant) n.in.k[1] *= 1.3, n.in.k[2] *= 1.3;
  // Often the camera is one that had an undistorter before.
  const bool usable = s->source && !s->resized && (n.how != kToPinhole || (s->how == kToPinhole && !s->removed));
  const uint64_t history = usable ? r.below(4) : 9;
  if (history == 0) {
    // The camera itself, perhaps with other parameters by now.
    n.source = s->source;
    n.in = model_of(*n.source);
    n.removed = s->removed;
    sim::probe("same_camera");
  } else if (history == 1) {
    // Another calibration of the same camera.
    n.in = s->in;
    for (size_t i = n.in.cls == kUnified ? 1 : 0; i < n.in.k.size(); ++i) n.in.k[i] *= 1.02;
    n.removed = s->removed;
    n.source.reset(make_camera(n.in));
    n.source->setId(s->source->getId());
    sim::probe("same_id");
  } else {
    n.source.reset(make_camera(n.in));
  }
  n.alpha = r.chance(0.3) ? 0.0 : r.chance(0.3) ? 1.0 : r.below(1000) / 1000.0;
  n.scale = r.chance(0.5) ? 1.0 : r.range(4, 16) / 8.0;
  static const InterpolationMethod kMethods[] = {InterpolationMethod::Linear, InterpolationMethod::Cubic, InterpolationMethod::Lanczos,
                                                 InterpolationMethod::NearestNeighbor};
  if (history < 2 && r.chance(0.6)) n.alpha = s->alpha, n.scale = s->scale;
  n.interpolation = kMethods[r.chance(0.5) ? 0 : r.below(4)];
  std::unique_ptr<MappedUndistorter> u;
  const float alpha = static_cast<float>(n.alpha), scale = static_cast<float>(n.scale);
  for (int attempt = 0; attempt < 2 && !u; ++attempt) {
    try {
      std::unique_ptr<sim::AllocFaultScope> scope;
      if (attempt == 0 && faults) scope.reset(new sim::AllocFaultScope);
      switch (n.how) {
        case kPlain:
          if (n.in.cls == kPinhole)
            u = aslam::createMappedUndistorter(static_cast<const aslam::PinholeCamera&>(*n.source), alpha, scale, n.interpolation);
          else
            u = aslam::createMappedUndistorter(static_cast<const aslam::UnifiedProjectionCamera&>(*n.source), alpha, scale, n.interpolation);
          break;
        case kDispatch: u = aslam::createMappedUndistorter<Camera>(*n.source, alpha, scale, n.interpolation); break;
        case kToPinhole:
          u = aslam::createMappedUndistorterToPinhole(static_cast<const aslam::UnifiedProjectionCamera&>(*n.source), alpha, scale, n.interpolation);
          break;
        default: {
          // Any camera without distortion may be the output.
          Model out = random_model(r, false, size);
          out.d = Dist();
          n.map_type = r.chance(0.5) ? CV_16SC2 : CV_32FC1;
          std::shared_ptr<Camera> target(make_camera(out));
          std::shared_ptr<Camera> copy(n.source->clone());
          cv::Mat map_u, map_v;
          if (r.chance(0.3)) map_u.create(3, 5, CV_8UC1);
          aslam::common::buildUndistortMap(*copy, *target, n.map_type, map_u, map_v);
          u.reset(new MappedUndistorter(copy, target, map_u, map_v, n.interpolation));
          n.out = out;
        }
      }
    } catch (const std::bad_alloc&) {
      u.reset();
      sim::probe("failed");
    } catch (const cv::Exception&) {
      u.reset();
      sim::probe("failed");
    }
  }
  if (!u) sim::fail("C32", "no-undistorter", "an undistorter cannot be made although there is memory");
  n.u = std::move(u);
  if (n.how != kDirect) {
    n.out = model_of(n.u->getOutputCamera());
    const int cls = n.how == kToPinhole ? kPinhole : n.in.cls;
    if (n.out.cls != cls) sim::fail("C32", "output-camera", "the output camera of a %s camera is a %s camera", kClassNames[n.in.cls], kClassNames[n.out.cls]);
    const uint32_t w = static_cast<uint32_t>(scale * n.in.w), h = static_cast<uint32_t>(scale * n.in.h);
    if (n.out.w != w || n.out.h != h) sim::fail("C32", "output-size", "%u x %u scaled by %g gives %u x %u", n.in.w, n.in.h, n.scale, n.out.w, n.out.h);
    if (cls == kUnified && n.out.k[0] != n.in.k[0]) sim::fail("C32", "output-camera", "undistortion changes the mirror parameter");
  }
  audit(n, "At first");
  n.serial = r.next();
  *s = n;
  sim::probe("built");
}

void maps(const Slot& s, Rng& r) {
  audit(s, "Later");
  const cv::Mat &a = s.u->getUndistortMapU(), &b = s.u->getUndistortMapV();
  sim::Quiet q;
  const int w = static_cast<int>(s.out.w), h = static_cast<int>(s.out.h);
  if (a.cols != w || a.rows != h || b.cols != w || b.rows != h) sim::fail("C32", "map-size", "the maps have another size than the output image");
  if (a.type() != s.map_type) sim::fail("C32", "map-type", "the map has another type than asked for");
  const int n = std::min(w * h, 400), start = static_cast<int>(r.below(static_cast<uint64_t>(w * h)));
  // All pixels of a small image, a random part of a big one.
  const int stride = w * h <= 400 ? 1 : std::max(1, w * h / 400) | 1;
  for (int i = 0; i < n; ++i) {
    const int at = (start + i * stride) % (w * h), u = at % w, v = at / w;
    Vec2 k;
    if (!origin(s, u, v, &k)) continue;
    double x, y;
    if (s.map_type == CV_16SC2) {
      const cv::Vec2s m = a.at<cv::Vec2s>(v, u);
      const int f = b.at<ushort>(v, u);
      x = m[0] + (f % cv::INTER_TAB_SIZE) / static_cast<double>(cv::INTER_TAB_SIZE);
      y = m[1] + (f / cv::INTER_TAB_SIZE) / static_cast<double>(cv::INTER_TAB_SIZE);
    } else {
      x = a.at<float>(v, u);
      y = b.at<float>(v, u);
    }
    // Coordinates far away may be cut off, but not end in the image.
    const Real big = 30000;
    const bool far = fabsl(k.x) > big || fabsl(k.y) > big;
    if (far) {
      const bool inside = x > -8 && y > -8 && x < s.in.w + 8.0 && y < s.in.h + 8.0;
      if (inside) sim::fail("C32", "map-far", "pixel (%d %d) shows (%g %g) instead of (%g %g)", u, v, x, y, (double)k.x, (double)k.y);
      continue;
    }
    const Real e = 1.01L / 64 + 1e-6L * (fabsl(k.x) + fabsl(k.y)) + (s.in.d.kind == kFisheye ? 1e-3L : 0);
    if (!(fabsl(x - k.x) <= e && fabsl(y - k.y) <= e))
      sim::fail("C32", "map", "%s camera, %s distortion: pixel (%d %d) of the undistorted image (%s) comes from (%.6g %.6g) instead of (%.6g %.6g)",
                kClassNames[s.in.cls], kKindNames[s.in.d.kind], u, v, kClassNames[s.out.cls], x, y, (double)k.x, (double)k.y);
  }
  sim::probe("maps");
}

// A picture whose brightness tells the place.
double brightness(const Slot& s, Real x, Real y, int flip) {
  const double a = 150.0 / s.in.w, b = 80.0 / s.in.h;
  const double g = static_cast<double>(a * x + b * y) + 5;
  return flip ? 250 - g : g;
}
void process(Slot* s, Rng& r, cv::Mat* result, bool faults) {
  static const int kTypes[] = {CV_8UC1, CV_8UC3, CV_32FC1, CV_16UC1};
  const int type = kTypes[r.chance(0.5) ? 0 : r.below(4)];
  const int w = static_cast<int>(s->in.w), h = static_cast<int>(s->in.h), flip = static_cast<int>(r.below(2));
  const int border = r.chance(0.3) ? 3 : 0;
  cv::Mat whole(h + border, w + 2 * border, type, cv::Scalar::all(7));
  cv::Mat image = whole(cv::Rect(border, border ? 1 : 0, w, h));
  {
    sim::Quiet q;
    for (int v = 0; v < h; ++v)
      for (int u = 0; u < w; ++u) {
        const double g = brightness(*s, u, v, flip);
        switch (type) {
          case CV_8UC1: image.at<unsigned char>(v, u) = static_cast<unsigned char>(g + 0.5); break;
          case CV_8UC3: image.at<cv::Vec3b>(v, u) = cv::Vec3b(static_cast<unsigned char>(g + 0.5), 255, static_cast<unsigned char>(g * 0.5 + 0.5)); break;
          case CV_16UC1: image.at<ushort>(v, u) = static_cast<ushort>(g * 200 + 0.5); break;
          default: image.at<float>(v, u) = static_cast<float>(g);
        }
      }
  }
  bool done = false;
  for (int attempt = 0; attempt < 2 && !done; ++attempt) {
    try {
      std::unique_ptr<sim::AllocFaultScope> scope;
      if (attempt == 0 && faults) scope.reset(new sim::AllocFaultScope);
      sim::AllocPointScope points;
      s->u->processImage(image, result);
      done = true;
    } catch (const std::bad_alloc&) {
      sim::probe("failed");
    } catch (const cv::Exception&) {
      sim::probe("failed");
    }
  }
  if (!done) sim::fail("C32", "no-image", "an image cannot be undistorted although there is memory");
  sim::Quiet q;
  const cv::Mat& o = *result;
  if (o.cols != static_cast<int>(s->out.w) || o.rows != static_cast<int>(s->out.h) || o.type() != type)
    sim::fail("C32", "image-shape", "the undistorted image is %d x %d of type %d instead of %u x %u of type %d", o.cols, o.rows, o.type(), s->out.w, s->out.h, type);
  const bool nearest = s->interpolation == InterpolationMethod::NearestNeighbor, lanczos = s->interpolation == InterpolationMethod::Lanczos;
  const double slope = 150.0 / w + 80.0 / h;
  // With fixed-point maps OpenCV's nearest neighbour may be the next one.
  const double e = slope * (nearest ? 1.05 : s->interpolation == InterpolationMethod::Linear ? 0.04 : 0.2) + (lanczos ? 5 : 0.05) + (type == CV_8UC1 || type == CV_8UC3 ? 1.6 : type == CV_16UC1 ? 0.02 : 0.02);
  const int n = std::min(o.cols * o.rows, 400), start = static_cast<int>(r.below(static_cast<uint64_t>(o.cols * o.rows)));
  const int stride = o.cols * o.rows <= 400 ? 1 : std::max(1, o.cols * o.rows / 400) | 1;
  const int reach = lanczos ? 4 : nearest ? 1 : s->interpolation == InterpolationMethod::Cubic ? 2 : 1;
  for (int i = 0; i < n; ++i) {
    const int at = (start + i * stride) % (o.cols * o.rows), u = at % o.cols, v = at / o.cols;
    Vec2 k;
    if (!origin(*s, u, v, &k)) continue;
    double got = 0;
    switch (type) {
      case CV_8UC1: got = o.at<unsigned char>(v, u); break;
      case CV_8UC3: got = o.at<cv::Vec3b>(v, u)[0]; break;
      case CV_16UC1: got = o.at<ushort>(v, u) / 200.0; break;
      default: got = o.at<float>(v, u);
    }
    const Real m = reach + 0.1L;
    if (k.x > m && k.y > m && k.x < w - 1 - m && k.y < h - 1 - m) {
      const double want = brightness(*s, k.x, k.y, flip);
      if (!(std::fabs(got - want) <= e))
        sim::fail("C32", "image", "%s camera, %s distortion: pixel (%d %d) of the undistorted image is %g instead of %g (type %d, interpolation %d, allowed %g, from (%g %g) of %d x %d)", kClassNames[s->in.cls],
                  kKindNames[s->in.d.kind], u, v, got, want, type, static_cast<int>(s->interpolation), e, (double)k.x, (double)k.y, w, h);
      if (type == CV_8UC3) {
        const cv::Vec3b p = o.at<cv::Vec3b>(v, u);
        if (p[1] < (lanczos ? 250 : 254) || !(std::fabs(p[2] - want * 0.5) <= e)) sim::fail("C32", "image", "the channels of an undistorted image are mixed up");
      }
    } else if (k.x < -reach - 1.1L || k.y < -reach - 1.1L || k.x > w + reach + 0.1L || k.y > h + reach + 0.1L) {
      if (got != 0) sim::fail("C32", "outside", "pixel (%d %d) of the undistorted image is %g although nothing was seen there", u, v, got);
    }
  }
  for (int v = 0; v < h; ++v) {
    const int u = static_cast<int>(r.below(static_cast<uint64_t>(w)));
    if (type == CV_8UC1 && image.at<unsigned char>(v, u) != static_cast<unsigned char>(brightness(*s, u, v, flip) + 0.5))
      sim::fail("C32", "input-changed", "undistortion changed its input image");
  }
  sim::probe("processed");
}

// All pixels valid, or no pixel lost.
void rectangle(const Slot& s, Rng& r) {
  if (s.how == kDirect || s.out.w < 8 || s.out.h < 8) return;
  sim::Quiet q;
  if (s.alpha == 0) {
    const Real ex = 1.6L + 0.03L * s.in.w, ey = 1.6L + 0.03L * s.in.h;
    for (int i = 0; i < 20; ++i) {
      const int u = r.chance(0.5) ? (r.chance(0.5) ? 0 : static_cast<int>(s.out.w) - 1) : static_cast<int>(r.below(s.out.w));
      const int v = r.chance(0.5) ? (r.chance(0.5) ? 0 : static_cast<int>(s.out.h) - 1) : static_cast<int>(r.below(s.out.h));
      Vec2 k;
      if (!origin(s, u, v, &k)) continue;
      if (k.x < -ex || k.y < -ey || k.x > s.in.w + ex || k.y > s.in.h + ey)
        sim::fail("C32", "invalid-pixel", "%s camera, %s distortion: without free space, pixel (%d %d) of %u x %u comes from (%g %g) outside of %u x %u", kClassNames[s.in.cls],
                  kKindNames[s.in.d.kind], u, v, s.out.w, s.out.h, (double)k.x, (double)k.y, s.in.w, s.in.h);
    }
    sim::probe("all_valid");
  } else if (s.alpha == 1) {
    const Real ex = 1.6L + 0.03L * s.out.w, ey = 1.6L + 0.03L * s.out.h;
    for (int i = 0; i < 20; ++i) {
      const double u = r.chance(0.5) ? (r.chance(0.5) ? 0 : s.in.w - 1.0) : static_cast<double>(r.below(s.in.w));
      const double v = r.chance(0.5) ? (r.chance(0.5) ? 0 : s.in.h - 1.0) : static_cast<double>(r.below(s.in.h));
      Eigen::Vector3d ray;
      if (!s.u->getInputCamera().backProject3(Eigen::Vector2d(u, v), &ray)) continue;
      Real dir[3] = {ray[0], ray[1], ray[2]};
      // Only where the inversion worked.
      const Ref back = seen(s.in, dir);
      if (back.s != kIn || fabsl(back.k.x - u) > 0.01L || fabsl(back.k.y - v) > 0.01L) continue;
      const Ref ref = seen(s.out, dir);
      if (ref.s != kIn) continue;
      if (ref.k.x < -ex || ref.k.y < -ey || ref.k.x > s.out.w + ex || ref.k.y > s.out.h + ey)
        sim::fail("C32", "lost-pixel", "%s camera, %s distortion: with all free space, pixel (%g %g) of %u x %u ends at (%g %g) outside of %u x %u", kClassNames[s.in.cls],
                  kKindNames[s.in.d.kind], u, v, s.in.w, s.in.h, (double)ref.k.x, (double)ref.k.y, s.out.w, s.out.h);
    }
    sim::probe("none_lost");
  }
}

void mistake(Rng& r, Slot* s, int kind) {
  bool& on = C->mistake[sim::tid()];
  on = true;
  std::unique_ptr<MappedUndistorter> u;
  const InterpolationMethod m = InterpolationMethod::Linear;
  const int w = static_cast<int>(s->in.w), h = static_cast<int>(s->in.h);
  switch (kind % 7) {
    case 0: s->u->processImage(cv::Mat(h + 1, w, CV_8UC1, cv::Scalar(0)), &s->result); break;
    case 1: s->u->processImage(cv::Mat(h, w + 1, CV_8UC1, cv::Scalar(0)), &s->result); break;
    case 2: u = aslam::createMappedUndistorter<Camera>(*s->source, r.chance(0.5) ? -0.01f : 1.01f, 1.0f, m); break;
    case 3: u = aslam::createMappedUndistorter<Camera>(*s->source, 0.5f, r.chance(0.5) ? 0.0f : -1.0f, m); break;
    case 4: {
      aslam::Camera3DLidar c(Eigen::Vector4d(2 * M_PI / 16, 0.05, 0.4, 0.0), 16, 16);
      u = aslam::createMappedUndistorter<Camera>(c, 0.5f, 1.0f, m);
      break;
    }
    case 5: {
      const cv::Mat a(static_cast<int>(s->out.h) + 1, static_cast<int>(s->out.w), CV_16SC2, cv::Scalar::all(0)), b(a.rows, a.cols, CV_16UC1, cv::Scalar(0));
      u.reset(new MappedUndistorter(s->u->getInputCameraShared(), s->u->getOutputCameraShared(), a, b, m));
      break;
    }
    default: s->u->processImage(cv::Mat(h, w, CV_8UC1, cv::Scalar(0)), nullptr); break;
  }
  on = false;
  sim::fail("C32", "mistake-accepted", "an impossible request (%d) is not refused", kind % 7);
}

// The camera it was made from belongs to the user.
void source(Rng& r, Slot* s) {
  Camera& c = *s->source;
  switch (r.below(4)) {
    case 0: c.getParametersMutable()[s->in.cls == kUnified ? 1 : 0] += 1.5; break;
    case 1: c.removeDistortion(), s->removed = true; break;
    case 2: c.setImageWidth(c.imageWidth() + 3), s->resized = true; break;
    default:
      if (c.hasDistortion()) {
        double& d = c.getDistortionMutable()->getParametersMutable()[0];
        d *= 0.5;
        // A field of view model has a range of valid parameters, and a later
        // camera may be made from this one.
        if (s->in.d.kind == kFisheye) d = std::max(d, 0.55);
      }
  }
  audit(*s, "After a change of the original camera");
}

void run(const Plan& plan) {
  sim::set_default_props("C32");
  sim::set_stuck_props("C32");
  C = new Ctx;
  for (bool& x : C->mistake) x = false;
  sim::set_abort_callback(on_abort);
  const int64_t size = std::max<int64_t>(8, plan.cfg[kSize]);
  {
    Rng r(static_cast<uint64_t>(plan.cfg[kSharedSeed]));
    build(r, &C->shared, std::min<int64_t>(size, 24), false);
  }
  const bool faults = plan.cfg[kAlloc] != 0;
  std::vector<std::thread> threads;
  for (int t = 0; t < plan.nthreads; ++t)
    threads.emplace_back([t, size, faults, &plan] {
      std::unique_ptr<Slot[]> s(new Slot[kSlots]);
      cv::Mat result;
      for (int i = 0; i < plan.th[t].n; ++i) {
        const Op& op = plan.th[t].ops[i];
        Slot& x = s[op.a[0] % kSlots];
        Rng r(static_cast<uint64_t>(op.a[1]));
        if (op.code == kShared) {
          if (r.chance(0.3)) maps(C->shared, r);
          else process(&C->shared, r, &result, false);
          continue;
        }
        if (op.code == kBuild || !x.u) {
          build(r, &x, size, faults);
          if (op.code == kBuild) continue;
        }
        switch (op.code) {
          case kMaps: maps(x, r); break;
          case kProcess: process(&x, r, r.chance(0.7) ? &x.result : &result, faults); break;
          case kSource: source(r, &x); break;
          case kRectangle: rectangle(x, r); break;
          case kMistake: mistake(r, &x, static_cast<int>(op.a[2])); break;
          default: break;
        }
      }
      for (int i = 0; i < kSlots; ++i)
        if (s[i].u) audit(s[i], "At the end");
    });
  for (std::thread& t : threads) t.join();
  audit(C->shared, "At the end");
}

void gen(Rng& r, Plan* p, sim::Env* env, bool thorough) {
  p->add_cfg(r.chance(0.3), 0);
  env->alloc_fail = p->cfg[kAlloc] != 0;
  p->add_cfg(static_cast<int64_t>(r.next() >> 1), 0);
  p->add_cfg(r.chance(0.1) ? 64 : 24, 8);
  p->nthreads = static_cast<int>(r.chance(0.4) ? 1 : r.range(2, 3));
  const bool mistakes = r.chance(0.1);
  for (int t = 0; t < p->nthreads; ++t) {
    const int n = static_cast<int>(r.range(2, thorough ? 16 : 8));
    for (int i = 0; i < n; ++i) {
      const int64_t slot = r.range(0, kSlots - 1), seed = static_cast<int64_t>(r.next() >> 1);
      const uint64_t w = r.below(20);
      if (w < 3) p->add(t, kBuild, slot, seed);
      else if (w < 7) p->add(t, kMaps, slot, seed);
      else if (w < 12) p->add(t, kProcess, slot, seed);
      else if (w < 14) p->add(t, kRectangle, slot, seed);
      else if (w < 15) p->add(t, kSource, slot, seed);
      else if (w < 16) { if (mistakes) p->add(t, kMistake, slot, seed, r.range(0, 6)); }
      else p->add(t, kShared, slot, seed);
    }
  }
}
const sim::Harness h = {"undistort_maps", "C32", gen, run};
sim::Registrar reg(&h);
}  // namespace
