// Simulated workloads for the camera models.
//   C31 a camera answers for exactly the configuration it holds
#include <aslam/cameras/camera-3d-lidar.h>
#include <aslam/cameras/camera-pinhole.h>
#include <aslam/cameras/camera-unified-projection.h>
#include <aslam/cameras/distortion-equidistant.h>
#include <aslam/cameras/distortion-fisheye.h>
#include <aslam/cameras/distortion-null.h>
#include <aslam/cameras/distortion-radtan.h>

#include <cmath>
#include <memory>
#include <new>
#include <string>
#include <thread>
#include <vector>

#include "simrt.h"

namespace {
using aslam::Camera;
using aslam::Distortion;
using aslam::ProjectionResult;
using sim::Op;
using sim::Plan;
using sim::Rng;

enum OpCode {
  kBuild = 1,  // slot, seed
  kChange,     // slot, seed, what
  kMask,       // slot, seed
  kClone,      // slot, seed, other slot
  kLoad,       // slot, seed
  kBadLoad,    // slot, seed
  kRandom,     // slot
  kProject,    // slot, seed
  kBack,       // slot, seed
  kLimits,     // slot, seed: visibility, mask, rolling shutter
  kCompare,    // slot, seed
  kDraw,       // slot, seed: random keypoints and points
  kShared,     // seed, what: the camera all threads know
  kMistake,    // slot, seed, kind
  kDistort,    // slot, seed: the distortion itself
};
enum CfgIdx { kAlloc = 0, kSharedSeed };
enum { kSlots = 3 };
#include "camera_ref.inc"
struct Slot {
  Camera::Ptr c;
  Model m;
};
struct Ctx {
  bool mistake[sim::kMaxSimThreads];
  Slot shared;
};
Ctx* C;
void on_abort() {
  if (C->mistake[sim::tid()]) sim::set_abort_ok(true);
}

// ------------------------------------------------------------------ building
Dist random_dist(Rng& r) {
  Dist d;
  d.kind = static_cast<int>(r.below(kKinds));
  const bool zero = r.chance(0.1);
  static const double kLimit[2][4] = {{0.1, 0.02, 0.01, 0.01}, {0.05, 0.02, 0.005, 0.001}};
  for (int i = 0; i < kNumDist[d.kind]; ++i)
    d.p.push_back(zero ? 0.0 : d.kind == kFisheye ? number(r, 0.5, 1.5) : number(r, -1, 1) * kLimit[d.kind - 1][i]);
  return d;
}
std::vector<double> random_intrinsics(Rng& r, int cls, uint32_t w, uint32_t h) {
  const double f = number(r, 0.4, 2.0) * std::max(w, h), g = r.chance(0.5) ? f : f * number(r, 0.7, 1.4);
  const double cu = r.chance(0.2) ? w * 0.5 : number(r, 0.1, 0.9) * w, cv = r.chance(0.2) ? h * 0.5 : number(r, 0.1, 0.9) * h;
  switch (cls) {
    case kPinhole: return {f, g, cu, cv};
    case kUnified: return {r.chance(0.15) ? 0.0 : r.chance(0.15) ? 1.0 : number(r, 0.3, 1.6), f, g, cu, cv};
    default: {
      // The lidar scans the full circle.
      const double vres = number(r, 0.3, 1.4) / h;
      return {2 * M_PI / w, vres, number(r, 0.2, 0.8) * vres * h, r.chance(0.3) ? 0.0 : number(r, 0, 3)};
    }
  }
}
void random_size(Rng& r, Model* m) {
  const bool big = r.chance(0.05);
  m->w = static_cast<uint32_t>(r.range(1, big ? 320 : 24));
  m->h = static_cast<uint32_t>(r.range(1, big ? 240 : 24));
}
Camera::Ptr make(Rng& r, const Model& m) {
  Camera::Ptr c;
  const std::vector<double>& k = m.k;
  Distortion::UniquePtr d = make(m.d);
  const bool none = m.d.kind == kNone;
  switch (m.cls) {
    case kPinhole:
      if (none && r.chance(0.3)) c.reset(new aslam::PinholeCamera(k[0], k[1], k[2], k[3], m.w, m.h));
      else if (none && r.chance(0.3)) c.reset(new aslam::PinholeCamera(vec(k), m.w, m.h));
      else if (m.d.kind == kRadTan && r.chance(0.3))
        c = Camera::construct<aslam::PinholeCamera, aslam::RadTanDistortion>(vec(k), m.w, m.h, vec(m.d.p));
      else if (r.chance(0.5)) c.reset(new aslam::PinholeCamera(k[0], k[1], k[2], k[3], m.w, m.h, d));
      else c.reset(new aslam::PinholeCamera(vec(k), m.w, m.h, d));
      break;
    case kUnified:
      if (none && r.chance(0.3)) c.reset(new aslam::UnifiedProjectionCamera(k[0], k[1], k[2], k[3], k[4], m.w, m.h));
      else if (none && r.chance(0.3)) c.reset(new aslam::UnifiedProjectionCamera(vec(k), m.w, m.h));
      else if (m.d.kind == kEquidistant && r.chance(0.3))
        c = Camera::construct<aslam::UnifiedProjectionCamera, aslam::EquidistantDistortion>(vec(k), m.w, m.h, vec(m.d.p));
      else if (r.chance(0.5)) c.reset(new aslam::UnifiedProjectionCamera(k[0], k[1], k[2], k[3], k[4], m.w, m.h, d));
      else c.reset(new aslam::UnifiedProjectionCamera(vec(k), m.w, m.h, d));
      break;
    default: c.reset(new aslam::Camera3DLidar(vec(k), m.w, m.h)); break;
  }
  return c;
}
void build(Rng& r, Slot* s, int cls = -1) {
  Slot n;
  n.m.cls = cls >= 0 ? cls : static_cast<int>(r.below(kClasses));
  random_size(r, &n.m);
  n.m.k = random_intrinsics(r, n.m.cls, n.m.w, n.m.h);
  if (n.m.cls != kLidar) n.m.d = random_dist(r);
  n.c = make(r, n.m);
  aslam::SensorId id;
  aslam::generateId(&id);
  n.c->setId(id);
  n.m.id = id.hexString();
  *s = n;
}

// ------------------------------------------------------------------- checking
const Dist dist_of(const Distortion& d) {
  Dist o;
  const Eigen::VectorXd& p = d.getParameters();
  for (int i = 0; i < p.size(); ++i) o.p.push_back(p[i]);
  switch (d.getType()) {
    case Distortion::Type::kRadTan: o.kind = kRadTan; break;
    case Distortion::Type::kEquidistant: o.kind = kEquidistant; break;
    case Distortion::Type::kFisheye: o.kind = kFisheye; break;
    default: o.kind = kNone;
  }
  return o;
}
std::vector<double> intrinsics_of(const Camera& c) {
  const Eigen::VectorXd& k = c.getParameters();
  return std::vector<double>(k.data(), k.data() + k.size());
}
// What the camera says about itself that the model does not, or nothing.
std::string different(const Camera& c, const Model& m) {
  static const Camera::Type kTypes[] = {Camera::Type::kPinhole, Camera::Type::kUnifiedProjection, Camera::Type::kLidar3D};
  if (c.getType() != kTypes[m.cls]) return "type";
  if (c.getParameterSize() != kNumIntr[m.cls]) return "number of intrinsics";
  if (intrinsics_of(c) != m.k) return "intrinsics";
  const Dist d = dist_of(c.getDistortion());
  if (d.kind != m.d.kind || c.hasDistortion() != (m.d.kind != kNone)) return "distortion model";
  if (c.getDistortion().getParameterSize() != kNumDist[d.kind]) return "number of distortion coefficients";
  if (d.p != m.d.p) return "distortion coefficients";
  if (c.imageWidth() != m.w || c.imageHeight() != m.h) return "image size";
  if (c.getLineDelayNanoSeconds() != m.delay) return "line delay";
  if (c.hasCompressedImages() != m.compressed) return "compression";
  if (c.getId().hexString() != m.id) return "id";
  if (c.getTopic() != m.topic || c.getDescription() != m.description) return "description";
  if (c.hasMask() != m.masked) return "presence of a mask";
  if (m.masked) {
    const cv::Mat& k = c.getMask();
    sim::Quiet q;
    if (k.rows != static_cast<int>(m.h) || k.cols != static_cast<int>(m.w)) return "mask size";
    for (uint32_t v = 0; v < m.h; ++v)
      for (uint32_t u = 0; u < m.w; ++u)
        if (k.at<unsigned char>(static_cast<int>(v), static_cast<int>(u)) != m.mask[v * m.w + u]) return "mask";
  }
  const uint32_t lines = m.cls == kLidar ? m.w : m.h;
  if (c.getNumberOfLines() != (m.delay ? lines : 1u)) return "number of lines";
  if (static_cast<uint64_t>(c.maxRollingShutterDelayNanoSeconds()) != lines * m.delay) return "longest rolling shutter delay";
  if (c.getLineDelayMode() != (m.cls == kLidar ? Camera::LineDelayMode::kColumns : Camera::LineDelayMode::kRows)) return "scan direction";
  if (!c.isValid()) return "validity";
  return "";
}
void audit(const Slot& s, const char* when) {
  const std::string w = different(*s.c, s.m);
  if (!w.empty()) sim::fail("C31", "configuration", "%s the %s camera reports another %s", when, kClassNames[s.m.cls], w.c_str());
}
struct Point {
  Real in[16];
  int n;
};
Point input(const Eigen::Vector3d& p, const Model& m) {
  Point o;
  o.n = 0;
  for (int i = 0; i < 3; ++i) o.in[o.n++] = p[i];
  for (double v : m.k) o.in[o.n++] = v;
  for (double v : m.d.p) o.in[o.n++] = v;
  return o;
}
// Derivative of the projection after its inputs [first, first + cols).
bool derivative(const Model& m, Point p, int first, int cols, Real scale, Real out[2][8]) {
  for (int i = 0; i < cols; ++i) {
    const Real v = p.in[first + i], h = 1e-7L * (first == 0 ? scale : std::max<Real>(1, fabsl(v)));
    p.in[first + i] = v + h;
    const Ref a = project(m.cls, m.d.kind, m.w, p.in);
    p.in[first + i] = v - h;
    const Ref b = project(m.cls, m.d.kind, m.w, p.in);
    p.in[first + i] = v;
    if (a.s != kIn || b.s != kIn) return false;
    out[0][i] = (a.k.x - b.k.x) / (2 * h);
    out[1][i] = (a.k.y - b.k.y) / (2 * h);
  }
  return true;
}
template <typename J>
void compare(const Model& m, const Eigen::Vector3d& p, const J& j, int first, int cols, const char* after, Real sign = 1) {
  if (j.rows() != 2 || j.cols() < cols)
    sim::fail("C31", "jacobian-size", "the derivative after the %s is %d x %d", after, (int)j.rows(), (int)j.cols());
  Real d[2][8];
  if (!derivative(m, input(p, m), first, cols, p.norm(), d)) return;
  Real big = 0;
  for (int i = 0; i < cols; ++i) big = std::max(big, std::max(fabsl(d[0][i]), fabsl(d[1][i])));
  for (int i = 0; i < cols; ++i)
    for (int k = 0; k < 2; ++k)
      if (!(fabsl(j(k, i) - sign * d[k][i]) <= 1e-3L * big + 1e-5L))
        sim::fail("C31", "jacobian", "%s camera, %s distortion: the derivative after the %s %d is %.9g instead of %.9g (point %g %g %g)",
                  kClassNames[m.cls], kKindNames[m.d.kind], after, i, j(k, i), static_cast<double>(sign * d[k][i]), p[0], p[1], p[2]);
}
void judge(const Model& m, const Eigen::Vector3d& p, const Eigen::Vector2d& k, const ProjectionResult& res, const char* how) {
  Ref ref;
  Status s = status(res);
  {
    sim::Quiet q;
    ref = project(m.cls, m.d.kind, m.w, input(p, m).in);
  }
  // Close to the image plane the result is all noise.
  const bool sane = m.cls == kPinhole ? p[2] > 0.01 * p.norm() : true;
  if (ref.s == kUnsure) return;
  if (ref.s == kIn) {
    const Real e = 1e-6L * (1 + fabsl(ref.k.x) + fabsl(ref.k.y)) + (m.d.kind == kFisheye ? 1e-3L : 0);
    // A lidar may put a point on the seam at either end of the image.
    const Real seam = m.cls == kLidar && fabsl(fabsl(ref.k.x - k[0]) - m.w) < 1e-6L ? m.w : 0;
    if (sane && !(fabsl(fabsl(ref.k.x - k[0]) - seam) <= e && fabsl(ref.k.y - k[1]) <= e))
      sim::fail("C31", "projection", "%s camera, %s distortion: %s puts point (%.9g %.9g %.9g) at (%.9g %.9g) instead of (%.9g %.9g)",
                kClassNames[m.cls], kKindNames[m.d.kind], how, p[0], p[1], p[2], k[0], k[1], (double)ref.k.x, (double)ref.k.y);
    if (!sane || seam > 0) return;
    ref.s = visible(ref.k, m.w, m.h);
  }
  if (s != ref.s && !(ref.s == kEither && (s == kIn || s == kOut)))
    sim::fail("C31", "status", "%s camera: %s calls point (%.9g %.9g %.9g) %s although it is %s", kClassNames[m.cls], how, p[0], p[1], p[2],
              name(s), name(ref.s));
  if (static_cast<bool>(res) != (s == kIn) || res.isKeypointVisible() != (s == kIn))
    sim::fail("C31", "status", "a projection result does not agree with its own status");
}

Eigen::Vector3d random_point(Rng& r, const Model& m) {
  const double scale = r.chance(0.8) ? number(r, 0.5, 20) : r.chance(0.5) ? number(r, 0.02, 0.5) : number(r, 20, 1e5);
  Eigen::Vector3d p(number(r, -1, 1), number(r, -1, 1), number(r, 0.1, 1));
  switch (r.below(12)) {
    case 0: p = Eigen::Vector3d(0, 0, 1); break;                                // on the axis
    case 1: p = Eigen::Vector3d(number(r, -1e-4, 1e-4), number(r, -1e-4, 1e-4), 1); break;
    case 2: p[2] = -p[2]; break;                                               // behind
    case 3: p[static_cast<int>(r.below(2))] = 0; break;
    case 4:
      if (r.chance(0.3)) p[2] = 0;
      else if (r.chance(0.3)) p[2] = -0.0;
      else if (r.chance(0.3)) p = Eigen::Vector3d::Zero();
      else if (m.cls == kPinhole) return Eigen::Vector3d(p[0], p[1], r.chance(0.5) ? 5e-11 : 2e-10);
      else if (m.cls == kLidar) return p.normalized() * number(r, 0.001, 0.02);
      break;
    case 5: p[2] = number(r, -1, 1); break;
    case 6:
    case 7:
    case 8: {  // aim into the image
      if (m.cls == kLidar) break;
      const int o = m.cls == kUnified;
      p = Eigen::Vector3d((number(r, -0.1, 1.1) * m.w - m.k[2 + o]) / m.k[o], (number(r, -0.1, 1.1) * m.h - m.k[3 + o]) / m.k[1 + o], 1);
      break;
    }
    default: break;
  }
  return p * scale;
}

// One projection in one of the many ways to ask for it.
void project(Rng& r, const Camera& c, const Model& m) {
  const Eigen::Vector3d p = random_point(r, m);
  Eigen::Vector2d k(-777, -777);
  switch (r.below(m.cls == kLidar ? 6 : 10)) {
    case 0: judge(m, p, k, c.project3(p, &k), "project3()"); break;
    case 1: {
      Eigen::Vector4d p4;
      const double w = r.chance(0.3) ? -number(r, 0.1, 2) : r.chance(0.3) ? 0.0 : number(r, 0.1, 2);
      p4 << (w < 0 ? Eigen::Vector3d(-p) : p), w;
      judge(m, p, k, c.project4(p4, &k), "project4()");
      break;
    }
    case 2: {
      const int n = static_cast<int>(r.below(5));
      Eigen::Matrix3Xd ps(3, n);
      for (int i = 0; i < n; ++i) ps.col(i) = random_point(r, m);
      Eigen::Matrix2Xd ks = Eigen::Matrix2Xd::Constant(2, r.below(6), 3.0);
      std::vector<ProjectionResult> res(r.below(6));
      c.project3Vectorized(ps, &ks, &res);
      if (ks.cols() != n || res.size() != static_cast<size_t>(n))
        sim::fail("C31", "vectorized-size", "%d points give %d keypoints and %d results", n, (int)ks.cols(), (int)res.size());
      for (int i = 0; i < n; ++i) judge(m, ps.col(i), ks.col(i), res[static_cast<size_t>(i)], "project3Vectorized()");
      break;
    }
    case 3: {  // with parameters of another camera
      Model o = m;
      if (r.chance(0.7)) o.k = random_intrinsics(r, m.cls, m.w, m.h);
      if (m.d.kind != kNone && r.chance(0.7))
        do o.d = random_dist(r);
        while (o.d.kind != m.d.kind);
      const Eigen::VectorXd ki = vec(o.k), kd = vec(o.d.p);
      const bool gi = o.k != m.k || r.chance(0.5), gd = m.cls != kLidar && (o.d.p != m.d.p || r.chance(0.5));
      judge(o, p, k, c.project3Functional(p, gi ? &ki : nullptr, gd ? &kd : nullptr, &k), "project3Functional() with given parameters");
      break;
    }
    case 4: {  // the template
      Model o = m;
      o.k = random_intrinsics(r, m.cls, m.w, m.h);
      const Eigen::VectorXd ki = vec(o.k);
      if (m.cls == kLidar) {
        const Eigen::VectorXd none;
        judge(o, p, k, static_cast<const aslam::Camera3DLidar&>(c).project3Functional<double, aslam::NullDistortion>(p, ki, none, &k), "the template");
      } else if (m.cls == kPinhole) {
        const auto& pc = static_cast<const aslam::PinholeCamera&>(c);
        do o.d = random_dist(r);
        while (o.d.kind != m.d.kind);
        const Eigen::VectorXd kd = vec(o.d.p);
        switch (m.d.kind) {
          case kNone: judge(o, p, k, pc.project3Functional<double, aslam::NullDistortion>(p, ki, kd, &k), "the template"); break;
          case kRadTan:
          case kEquidistant: break;  // no template
          default: judge(o, p, k, pc.project3Functional<double, aslam::FisheyeDistortion>(p, ki, kd, &k), "the template"); break;
        }
      }
      break;
    }
    case 5: {
      const bool seen = c.isProjectable3(p);
      Ref ref = project(m.cls, m.d.kind, m.w, input(p, m).in);
      if (m.cls == kPinhole && p[2] <= 0.01 * p.norm() && ref.s == kIn) break;
      if (ref.s == kIn) ref.s = visible(ref.k, m.w, m.h);
      if (m.cls == kLidar && ref.s == kOut && fabsl(ref.k.x - m.w) < 1e-3L) break;
      if ((ref.s == kIn && !seen) || (ref.s != kIn && ref.s != kEither && ref.s != kUnsure && seen))
        sim::fail("C31", "projectable", "a point that is %s is called %sprojectable", name(ref.s), seen ? "" : "not ");
      break;
    }
    default: {  // derivatives
      Eigen::Matrix<double, 2, 3> jp;
      const int how = static_cast<int>(r.below(3));
      if (how == 1) {
        Eigen::Matrix<double, 2, 4> j4;
        Eigen::Vector4d p4;
        const double w = r.chance(0.3) ? -number(r, 0.1, 2) : r.chance(0.3) ? 0.0 : number(r, 0.1, 2);
        p4 << (w < 0 ? Eigen::Vector3d(-p) : p), w;
        const ProjectionResult res = c.project4(p4, &k, &j4);
        judge(m, p, k, res, "project4()");
        sim::Quiet q;
        const Ref ref = project(m.cls, m.d.kind, m.w, input(p, m).in);
        if (ref.s != kIn || (m.cls == kPinhole && p[2] < 0.05 * p.norm())) break;
        compare(m, p, j4, 0, 3, "homogeneous point", w < 0 ? -1 : 1);
        if (j4(0, 3) != 0 || j4(1, 3) != 0) sim::fail("C31", "jacobian", "the derivative after the scale of a homogeneous point is not zero");
        break;
      }
      Eigen::Matrix<double, 2, Eigen::Dynamic> ji, jd;
      bool gp = true, gi = false, gd = false;
      Model o = m;
      ProjectionResult res;
      if (how == 0) {
        res = c.project3(p, &k, &jp);
      } else {
        if (r.chance(0.5)) o.k = random_intrinsics(r, m.cls, m.w, m.h);
        if (r.chance(0.5))
          do o.d = random_dist(r);
          while (o.d.kind != m.d.kind);
        const Eigen::VectorXd ki = vec(o.k), kd = vec(o.d.p);
        gp = r.chance(0.7);
        gi = r.chance(0.7);
        gd = r.chance(0.7);
        if (gi && r.chance(0.3)) ji.resize(2, 9);
        res = c.project3Functional(p, o.k != m.k ? &ki : nullptr, o.d.p != m.d.p ? &kd : nullptr, &k, gp ? &jp : nullptr, gi ? &ji : nullptr, gd ? &jd : nullptr);
      }
      judge(o, p, k, res, "project3() with derivatives");
      sim::Quiet q;
      const int ni = kNumIntr[m.cls], nd = kNumDist[m.d.kind];
      if ((gi && ji.cols() != ni) || (gd && (jd.cols() != nd || jd.rows() != 2)))
        sim::fail("C31", "jacobian-size", "derivatives after %d intrinsics and %d coefficients have %d and %d columns", ni, nd, (int)ji.cols(), (int)jd.cols());
      const Ref ref = project(o.cls, o.d.kind, o.w, input(p, o).in);
      if (ref.s != kIn || (m.cls == kPinhole && p[2] < 0.05 * p.norm())) break;
      if (gp) compare(o, p, jp, 0, 3, "point");
      if (gi) compare(o, p, ji, 3, ni, "intrinsics");
      if (gd && nd) compare(o, p, jd, 3 + ni, nd, "distortion coefficients");
      sim::probe("derivatives");
    }
  }
  sim::probe("projected");
}

// A direction whose keypoint can be undistorted without ambiguity.
bool tame(const Model& m, const Eigen::Vector3d& p) {
  if (p.norm() < 1e-3) return false;
  if (m.cls == kLidar) return p.norm() > 0.05 && fabs(p[1]) < 0.99 * p.norm();
  const double d = p.norm(), xi = m.cls == kUnified ? m.k[0] : 0;
  const double z = p[2] + xi * d;
  if (z < 0.1 * d || (m.cls == kPinhole && p[2] < 0.1 * d)) return false;
  if (m.cls == kUnified) {
    const double fov = xi <= 1 ? xi : 1 / xi;
    if (p[2] < -fov * d + 0.1 * d) return false;
    if (xi > 1 && p[2] < 0.3 * d) return false;
  }
  const double x = p[0] / z, y = p[1] / z;
  return m.d.kind == kNone || x * x + y * y < 1.5;
}
void back(Rng& r, const Camera& c, const Model& m) {
  const int n = static_cast<int>(r.range(1, 3));
  Eigen::Matrix2Xd ks(2, n);
  std::vector<Eigen::Vector3d> ps;
  while (static_cast<int>(ps.size()) < n) {
    Eigen::Vector3d p = random_point(r, m);
    if (!tame(m, p)) p = Eigen::Vector3d(number(r, -0.3, 0.3), number(r, -0.3, 0.3), 1);
    const Ref ref = project(m.cls, m.d.kind, m.w, input(p, m).in);
    ks.col(static_cast<int>(ps.size())) << static_cast<double>(ref.k.x), static_cast<double>(ref.k.y);
    ps.push_back(p);
  }
  Eigen::Matrix3Xd out = Eigen::Matrix3Xd::Zero(3, n);
  std::vector<unsigned char> ok(r.below(3));
  const int how = static_cast<int>(r.below(3));
  if (how == 0) {
    c.backProject3Vectorized(ks, &out, &ok);
    if (out.cols() != n || ok.size() != static_cast<size_t>(n)) sim::fail("C31", "vectorized-size", "%d keypoints give %d rays", n, (int)out.cols());
  } else {
    ok.assign(static_cast<size_t>(n), 0);
    for (int i = 0; i < n; ++i) {
      if (how == 1) {
        Eigen::Vector3d b;
        ok[static_cast<size_t>(i)] = c.backProject3(ks.col(i), &b);
        out.col(i) = b;
      } else {
        Eigen::Vector4d b;
        ok[static_cast<size_t>(i)] = c.backProject4(ks.col(i), &b);
        out.col(i) = b.head<3>();
        if (b[3] != 0.0) sim::fail("C31", "ray", "a ray in homogeneous coordinates ends at a finite point");
      }
    }
  }
  for (int i = 0; i < n; ++i) {
    if (!ok[static_cast<size_t>(i)]) sim::fail("C31", "no-ray", "%s camera: the keypoint of a visible direction has no ray", kClassNames[m.cls]);
    const Eigen::Vector3d a = ps[static_cast<size_t>(i)].normalized(), b = out.col(i).normalized();
    if (!((a - b).norm() < 1e-4))
      sim::fail("C31", "back-projection", "%s camera, %s distortion: direction (%.6g %.6g %.6g) comes back as (%.6g %.6g %.6g)", kClassNames[m.cls],
                kKindNames[m.d.kind], a[0], a[1], a[2], b[0], b[1], b[2]);
    if (m.cls == kUnified && !static_cast<const aslam::UnifiedProjectionCamera&>(c).isLiftable(ks.col(i)))
      sim::fail("C31", "no-ray", "the keypoint of a visible direction is called not liftable");
  }
  sim::probe("back_projected");
}
// The rays of the border of the image, in whatever order.
void border(const Camera& c, const Model& m) {
  if (m.cls == kUnified || m.d.kind != kNone || m.w < 3 || m.h < 3) return;
  Eigen::MatrixXd rays;
  if (m.cls == kPinhole) static_cast<const aslam::PinholeCamera&>(c).getBorderRays(rays);
  else static_cast<const aslam::Camera3DLidar&>(c).getBorderRays(rays);
  if (rays.rows() != 4 || rays.cols() != 8) sim::fail("C31", "border-rays", "%d border rays of %d coordinates", (int)rays.cols(), (int)rays.rows());
  const double u[] = {0, m.w * 0.5, m.w - 1.0}, v[] = {0, m.h * 0.5, m.h - 1.0};
  for (int a = 0; a < 3; ++a)
    for (int b = 0; b < 3; ++b) {
      if (a == 1 && b == 1) continue;
      bool found = false;
      for (int i = 0; i < 8 && !found; ++i) {
        const Ref ref = project(m.cls, kNone, m.w, input(Eigen::Vector3d(rays.col(i).head<3>()), m).in);
        const Real du = fabsl(ref.k.x - u[a]);
        found = (du < 1e-4L || (m.cls == kLidar && fabsl(du - m.w) < 1e-4L)) && fabsl(ref.k.y - v[b]) < 1e-4L && rays(3, i) == 0.0;
      }
      if (!found) sim::fail("C31", "border-rays", "no border ray of the %s camera leads through pixel (%g, %g)", kClassNames[m.cls], u[a], v[b]);
    }
}

void limits(Rng& r, const Camera& c, const Model& m) {
  for (int i = 0; i < 6; ++i) {
    double k[2];
    for (int a = 0; a < 2; ++a) {
      const double size = a ? m.h : m.w;
      switch (r.below(8)) {
        case 0: k[a] = 0; break;
        case 1: k[a] = size; break;
        case 2: k[a] = size - 0.25; break;
        case 3: k[a] = -0.25; break;
        case 4: k[a] = r.chance(0.2) ? NAN : r.chance(0.5) ? 1e12 : -1e12; break;
        default: k[a] = 0.25 * static_cast<double>(r.range(-4, static_cast<int64_t>(4 * size) + 4)); break;
      }
    }
    const Eigen::Vector2d kp(k[0], k[1]);
    const bool in = k[0] >= 0 && k[1] >= 0 && k[0] < m.w && k[1] < m.h;
    if (c.isKeypointVisible(kp) != in || (std::fabs(k[0]) < 1e6 && std::fabs(k[1]) < 1e6 && c.isKeypointVisible(kp.cast<float>()) != in))
      sim::fail("C31", "visible", "keypoint (%g, %g) is called %s in an image of %u x %u", k[0], k[1], in ? "outside" : "visible", m.w, m.h);
    const bool hidden = !in || (m.masked && m.mask[static_cast<uint32_t>(k[1]) * m.w + static_cast<uint32_t>(k[0])] == 0);
    if (c.isMasked(kp) != hidden)
      sim::fail("C31", "masked", "keypoint (%g, %g) is called %s in an image of %u x %u with%s mask", k[0], k[1], hidden ? "unmasked" : "masked", m.w, m.h, m.masked ? "" : "out");
    const int most = 2 * static_cast<int>(std::min(m.w, m.h)) - 1;   // quarters, less than half the image
    const double margin = 0.25 * static_cast<double>(r.range(-4, most));
    const bool far = k[0] >= margin && k[1] >= margin && k[0] < m.w - margin && k[1] < m.h - margin;
    if (c.isKeypointVisibleWithMargin(kp, margin) != far)
      sim::fail("C31", "margin", "keypoint (%g, %g) is called %s in an image of %u x %u with margin %g", k[0], k[1], far ? "outside" : "visible", m.w, m.h, margin);
    const double line = m.cls == kLidar ? k[0] : k[1];
    if (line == line && std::fabs(line) < 1e6) {
      const int64_t want = static_cast<int64_t>(static_cast<uint64_t>(static_cast<int64_t>(line)) * m.delay);
      if (c.rollingShutterDelayNanoSeconds(kp) != want)
        sim::fail("C31", "rolling-shutter", "keypoint (%g, %g) of a %s camera is seen %lld ns late instead of %lld", k[0], k[1], kClassNames[m.cls],
                  (long long)c.rollingShutterDelayNanoSeconds(kp), (long long)want);
    }
  }
  border(c, m);
}
void draw(Rng& r, const Camera& c, const Model& m) {
  if (m.w < 2 || m.h < 2) return;
  const Eigen::Vector2d k = c.createRandomKeypoint();
  if (!(k[0] >= 0 && k[1] >= 0 && k[0] < m.w && k[1] < m.h))
    sim::fail("C31", "random-keypoint", "a random keypoint (%g, %g) is outside the image of %u x %u", k[0], k[1], m.w, m.h);
  // A keypoint too far out has no ray.
  const int o = m.cls == kUnified;
  double far = 0;
  for (int i = 0; m.cls != kLidar && i < 4; ++i)
    far = std::max(far, std::hypot((i % 2 * m.w - m.k[2 + o]) / m.k[o], (i / 2 * m.h - m.k[3 + o]) / m.k[1 + o]));
  if (m.d.kind != kNone && far > 0.8) return;
  const double depth = number(r, 0.5, 50);
  const Eigen::Vector3d p = c.createRandomVisiblePoint(depth);
  if (!(std::fabs(p.norm() - depth) < 1e-6 * depth)) sim::fail("C31", "random-point", "a random point is %g away instead of %g", p.norm(), depth);
  Ref ref = project(m.cls, m.d.kind, m.w, input(p, m).in);
  if (ref.s == kIn) ref.s = visible(ref.k, m.w, m.h);
  if (ref.s != kIn && ref.s != kEither && ref.s != kUnsure)
    sim::fail("C31", "random-point", "a random visible point is %s (keypoint %g, %g)", name(ref.s), (double)ref.k.x, (double)ref.k.y);
  sim::probe("random_point");
}
void distort(Rng& r, const Camera& c, const Model& m) {
  const Distortion& d = c.getDistortion();
  Real p[4] = {0, 0, 0, 0};
  Dist o = m.d;
  const bool given = r.chance(0.4) && m.d.kind != kNone;
  if (given)
    do o = random_dist(r);
    while (o.kind != m.d.kind);
  const Eigen::VectorXd e = vec(o.p);
  for (size_t i = 0; i < o.p.size(); ++i) p[i] = o.p[i];
  const double radius = r.chance(0.2) ? 0 : r.chance(0.2) ? number(r, 0, 3e-3) : number(r, 0, 1.2), angle = number(r, -4, 4);
  const Eigen::Vector2d q(radius * std::cos(angle), radius * std::sin(angle));
  const Vec2 want = distort(o.kind, p, Vec2{q[0], q[1]});
  Eigen::Vector2d got = q, sep(5, 5);
  Eigen::Matrix2d j;
  bool have = false;
  if (given) {
    d.distortUsingExternalCoefficients(&e, &got, &j);
    have = true;
  } else {
    switch (r.below(3)) {
      case 0: d.distort(&got); break;
      case 1: d.distort(q, &got); break;
      default: d.distort(&got, &j); have = true;
    }
  }
  if (!(fabsl(got[0] - want.x) < 1e-6L && fabsl(got[1] - want.y) < 1e-6L))
    sim::fail("C31", "distort", "%s distortion moves (%.9g %.9g) to (%.9g %.9g) instead of (%.9g %.9g)", kKindNames[o.kind], q[0], q[1], got[0], got[1],
              (double)want.x, (double)want.y);
  if (have)
    for (int i = 0; i < 2; ++i) {
      Vec2 a{q[0], q[1]}, b = a;
      (i ? a.y : a.x) += 1e-7L;
      (i ? b.y : b.x) -= 1e-7L;
      a = distort(o.kind, p, a);
      b = distort(o.kind, p, b);
      if (!(fabsl(j(0, i) - (a.x - b.x) / 2e-7L) < 1e-4L && fabsl(j(1, i) - (a.y - b.y) / 2e-7L) < 1e-4L))
        sim::fail("C31", "distort-jacobian", "%s distortion: derivative (%.9g %.9g) at (%.9g %.9g) instead of (%.9g %.9g)", kKindNames[o.kind], j(0, i), j(1, i),
                  q[0], q[1], (double)((a.x - b.x) / 2e-7L), (double)((a.y - b.y) / 2e-7L));
    }
  Eigen::Matrix<double, 2, Eigen::Dynamic> jp;
  // No coefficients: the internal ones.
  d.distortParameterJacobian(given ? &e : nullptr, q, &jp);
  if (jp.cols() != kNumDist[o.kind]) sim::fail("C31", "jacobian-size", "%d coefficients, derivative of %d columns", kNumDist[o.kind], (int)jp.cols());
  for (int i = 0; i < kNumDist[o.kind]; ++i) {
    Real a[4], b[4];
    for (int n = 0; n < 4; ++n) a[n] = b[n] = p[n];
    if (o.kind == kFisheye && p[0] == 0) break;
    a[i] += 1e-7L;
    b[i] -= 1e-7L;
    const Vec2 x = distort(o.kind, a, Vec2{q[0], q[1]}), y = distort(o.kind, b, Vec2{q[0], q[1]});
    if (!(fabsl(jp(0, i) - (x.x - y.x) / 2e-7L) < 1e-4L && fabsl(jp(1, i) - (x.y - y.y) / 2e-7L) < 1e-4L))
      sim::fail("C31", "distort-jacobian", "%s distortion: derivative after coefficient %d at (%.9g %.9g) is (%.9g %.9g) instead of (%.9g %.9g)",
                kKindNames[o.kind], i, q[0], q[1], jp(0, i), jp(1, i), (double)((x.x - y.x) / 2e-7L), (double)((x.y - y.y) / 2e-7L));
  }
  Eigen::Vector2d undone(static_cast<double>(want.x), static_cast<double>(want.y));
  if (given) d.undistortUsingExternalCoefficients(e, &undone);
  else if (r.chance(0.5)) d.undistort(&undone);
  else {
    d.undistort(undone, &sep);
    undone = sep;
  }
  if (!((undone - q).norm() < 1e-4))
    sim::fail("C31", "undistort", "%s distortion takes (%.9g %.9g) back to (%.9g %.9g)", kKindNames[o.kind], q[0], q[1], undone[0], undone[1]);
}

// ------------------------------------------------------------------- changing
void new_mask(Rng& r, Slot* s) {
  Model& m = s->m;
  cv::Mat k;
  {
    sim::Quiet q;
    m.mask.assign(static_cast<size_t>(m.w) * m.h, 0);
    const double p = number(r, 0.1, 0.9);
    for (unsigned char& v : m.mask) v = r.chance(p) ? static_cast<unsigned char>(r.range(1, 255)) : 0;
    m.masked = true;
    k = cv::Mat(static_cast<int>(m.h), static_cast<int>(m.w), CV_8UC1);
    for (uint32_t v = 0; v < m.h; ++v)
      for (uint32_t u = 0; u < m.w; ++u) k.at<unsigned char>(static_cast<int>(v), static_cast<int>(u)) = m.mask[v * m.w + u];
  }
  s->c->setMask(k);
}
// After the size may have changed: either the old mask is still there and fits,
// or there is none.
void settle_mask(Slot* s) {
  Model& m = s->m;
  if (!m.masked) return;
  if (s->c->hasMask() && m.mask.size() == static_cast<size_t>(m.w) * m.h) return;  // compared by audit()
  if (s->c->hasMask() && (s->c->getMask().rows != static_cast<int>(m.h) || s->c->getMask().cols != static_cast<int>(m.w)))
    sim::fail("C31", "stale-mask", "an image of %u x %u has a mask of %d x %d", m.w, m.h, s->c->getMask().cols, s->c->getMask().rows);
  m.masked = false;
  m.mask.clear();
}
void change(Rng& r, Slot* s, int what) {
  Model& m = s->m;
  Camera& c = *s->c;
  switch (what % 10) {
    case 0:
      m.k = random_intrinsics(r, m.cls, m.w, m.h);
      c.setParameters(vec(m.k));
      break;
    case 1: {
      const std::vector<double> k = random_intrinsics(r, m.cls, m.w, m.h);
      const size_t i = r.below(k.size());
      m.k[i] = k[i];
      c.getParametersMutable()[i] = k[i];
      break;
    }
    case 2: {
      if (m.cls == kLidar) break;
      m.d = random_dist(r);
      Distortion::UniquePtr d = make(m.d);
      c.setDistortion(d);
      break;
    }
    case 3:
      m.d = Dist();
      c.removeDistortion();
      break;
    case 4: {
      if (m.d.kind == kNone) break;
      Dist d;
      do d = random_dist(r);
      while (d.kind != m.d.kind);
      if (r.chance(0.5)) {  // only one of them
        const size_t i = r.below(d.p.size());
        const double v = d.p[i];
        d = m.d;
        d.p[i] = v;
      }
      m.d = d;
      if (r.chance(0.5)) c.getDistortionMutable()->setParameters(vec(d.p));
      else for (size_t i = 0; i < d.p.size(); ++i) c.getDistortionMutable()->getParametersMutable()[i] = d.p[i];
      break;
    }
    case 5: {
      // Keep the optical centre inside the image and the lidar closed.
      const uint32_t w = m.w, h = m.h;
      if (r.chance(0.7)) random_size(r, &m);
      else if (r.chance(0.5)) std::swap(m.w, m.h);
      if (m.w != w || r.chance(0.3)) c.setImageWidth(m.w);
      if (m.h != h || r.chance(0.3)) c.setImageHeight(m.h);
      m.k = random_intrinsics(r, m.cls, m.w, m.h);
      c.setParameters(vec(m.k));
      if (m.w != w || m.h != h) {
        settle_mask(s);
        if (m.masked) {  // same number of pixels, other shape
          if (c.getMask().rows != static_cast<int>(m.h))
            sim::fail("C31", "stale-mask", "an image of %u x %u has a mask of %d x %d", m.w, m.h, c.getMask().cols, c.getMask().rows);
          m.masked = c.hasMask();
        }
      }
      break;
    }
    case 6:
      m.delay = r.chance(0.3) ? 0 : r.chance(0.1) ? r.next() >> 30 : r.below(100000);
      c.setLineDelayNanoSeconds(m.delay);
      break;
    case 7:
      m.compressed = r.chance(0.5);
      c.setCompressedImages(m.compressed);
      break;
    case 8:
      m.topic = "t" + std::to_string(r.below(100));
      c.setTopic(m.topic);
      break;
    default: {
      aslam::SensorId id;
      aslam::generateId(&id);
      c.setId(id);
      m.id = id.hexString();
      m.description = "d" + std::to_string(r.below(100));
      c.setDescription(m.description);
    }
  }
}
// A copy, which may fail for lack of memory.
Camera::Ptr copy(Rng& r, const Camera& c) {
  const int how = static_cast<int>(r.below(2));
  try {
    sim::AllocFaultScope faults;
    if (how == 0) return Camera::Ptr(c.clone());
    return std::dynamic_pointer_cast<Camera>(static_cast<const aslam::Sensor&>(c).cloneAsSensor());
  } catch (const std::exception&) {
    sim::probe("clone_failed");
    return Camera::Ptr();
  }
}
void clone(Rng& r, Slot* s, Slot* into) {
  Camera::Ptr c = copy(r, *s->c);
  if (!c) {
    audit(*s, "after a failed copy");
    return;
  }
  Slot n;
  n.c = c;
  n.m = s->m;
  audit(n, "a copy of");
  if (s->m.masked && r.chance(0.6)) {
    // Writing into the mask of the original leaves the copy alone.
    cv::Mat k = s->c->getMask();
    {
      sim::Quiet q;
      for (int v = 0; v < k.rows; ++v)
        for (int u = 0; u < k.cols; ++u) k.at<unsigned char>(v, u) = static_cast<unsigned char>(k.at<unsigned char>(v, u) ? 0 : 9);
      for (unsigned char& v : s->m.mask) v = v ? 0 : 9;
    }
    audit(n, "after a change of the mask of the original");
    audit(*s, "after a change of its mask");
  }
  change(r, r.chance(0.5) ? s : &n, static_cast<int>(r.below(10)));
  audit(*s, "after the change of a camera or its copy");
  audit(n, "after the change of a camera or its copy");
  if (into != s) *into = n;
  sim::probe("cloned");
}
void load(Rng& r, Slot* s) {
  Slot o;
  build(r, &o, s->m.cls);
  for (int i = static_cast<int>(r.below(5)); i > 0; --i) change(r, &o, static_cast<int>(r.below(10)));
  if (r.chance(0.5)) {  // same size
    o.m.w = s->m.w;
    o.m.h = s->m.h;
    o.c->setImageWidth(o.m.w);
    o.c->setImageHeight(o.m.h);
    o.m.k = random_intrinsics(r, o.m.cls, o.m.w, o.m.h);
    o.c->setParameters(vec(o.m.k));
  }
  YAML::Node n;
  o.c->serialize(&n);
  const Model old = s->m;
  if (!s->c->deserialize(n)) sim::fail("C31", "load-refused", "a %s camera does not take its own description", kClassNames[s->m.cls]);
  s->m = o.m;
  s->m.masked = s->c->hasMask();
  if (s->m.masked) {
    if (!old.masked || old.w != s->m.w || old.h != s->m.h)
      sim::fail("C31", "stale-mask", "after loading another camera the mask is %d x %d for an image of %u x %u", s->c->getMask().cols, s->c->getMask().rows, s->m.w, s->m.h);
    s->m.mask = old.mask;
  }
  sim::probe("loaded");
}
// A description that must be refused; afterwards the camera is some camera.
void bad_load(Rng& r, Slot* s) {
  Slot o;
  build(r, &o, s->m.cls);
  YAML::Node n;
  o.c->serialize(&n);
  const int what = static_cast<int>(r.below(6));
  switch (what) {
    case 0: {
      // Another number of intrinsics: those of another class.
      Slot e;
      build(r, &e, s->m.cls == kUnified ? static_cast<int>(r.below(2)) * 2 : static_cast<int>(kUnified));
      YAML::Node x;
      e.c->serialize(&x);
      n["intrinsics"] = x["intrinsics"];
      break;
    }
    case 1: n["type"] = s->m.cls == kPinhole ? "unified-projection" : "pinhole"; break;
    case 2: n.remove(r.chance(0.5) ? "image_width" : "image_height"); break;
    case 3: n.remove("intrinsics"); break;
    case 4: n.remove("type"); break;
    default:
      n["distortion"] = YAML::Node();
      n["distortion"]["type"] = r.chance(0.5) ? "equidistant" : "unknown";
      break;
  }
  if (s->c->deserialize(n)) sim::fail("C31", "bad-load", "a %s camera takes a description that is wrong (%d)", kClassNames[s->m.cls], what);
  const Camera& c = *s->c;
  if (c.getParameters().size() != c.getParameterSize())
    sim::fail("C31", "half-loaded", "after a refused description the camera has %d intrinsics instead of %d", (int)c.getParameters().size(), c.getParameterSize());
  if (c.getDistortion().getParameters().size() != c.getDistortion().getParameterSize())
    sim::fail("C31", "half-loaded", "after a refused description the distortion has %d coefficients", (int)c.getDistortion().getParameters().size());
  if (c.hasMask() && (c.getMask().rows != static_cast<int>(c.imageHeight()) || c.getMask().cols != static_cast<int>(c.imageWidth())))
    sim::fail("C31", "stale-mask", "after a refused description the mask does not fit the image");
  for (int i = 0; i < 4; ++i) {
    Eigen::Vector2d k;
    Eigen::Vector3d p;
    c.project3(Eigen::Vector3d(number(r, -1, 1), number(r, -1, 1), number(r, -1, 1)), &k);
    c.backProject3(Eigen::Vector2d(number(r, 0, c.imageWidth()), number(r, 0, c.imageHeight())), &p);
    c.isMasked(Eigen::Vector2d(number(r, 0, 900), number(r, 0, 700)));
  }
  sim::probe("load_refused");
  build(r, s, r.chance(0.5) ? s->m.cls : -1);
}
void randomize(Slot* s) {
  s->c->setRandom();
  const Camera& c = *s->c;
  Model& m = s->m;
  m.k = intrinsics_of(c);
  m.d = dist_of(c.getDistortion());
  m.w = c.imageWidth();
  m.h = c.imageHeight();
  m.delay = c.getLineDelayNanoSeconds();
  m.id = c.getId().hexString();
  m.topic = c.getTopic();
  m.description = c.getDescription();
  if (c.hasMask()) sim::fail("C31", "stale-mask", "a randomised camera has a mask");
  m.masked = false;
  m.mask.clear();
}
void compare(Rng& r, Slot* s) {
  Camera::Ptr c(s->c->clone());
  if (!(*c == *s->c) || *c != *s->c) sim::fail("C31", "equality", "a copy of a %s camera is not equal to it", kClassNames[s->m.cls]);
  Slot n;
  n.c = c;
  n.m = s->m;
  const int what = static_cast<int>(r.below(10));
  change(r, &n, what);
  const Model &a = s->m, &b = n.m;
  double far = 0;
  for (size_t i = 0; i < a.k.size(); ++i) far = std::max(far, std::fabs(a.k[i] - b.k[i]) / (1 + std::fabs(a.k[i]) + std::fabs(b.k[i])));
  const bool other = a.d.kind != b.d.kind || a.d.p != b.d.p || a.w != b.w || a.h != b.h || a.delay != b.delay || a.compressed != b.compressed ||
                     a.topic != b.topic || a.id != b.id || a.description != b.description || far > 1e-3;
  if (other && (*c == *s->c || !(*s->c != *c))) sim::fail("C31", "equality", "a %s camera is equal to another one (change %d)", kClassNames[a.cls], what);
  // And back: equal again.
  Slot x;
  build(r, &x);
  if (*x.c == *s->c) sim::fail("C31", "equality", "two cameras with nothing in common are equal");
}
void mistake(Rng& r, Slot* s, int kind) {
  bool& on = C->mistake[sim::tid()];
  on = true;
  const Model& m = s->m;
  switch (kind % 6) {
    case 0: s->c->setParameters(Eigen::VectorXd::Constant(kNumIntr[m.cls] + (r.chance(0.5) ? 1 : -1), 1.0)); break;
    case 1: s->c->setMask(cv::Mat(static_cast<int>(m.h) + 1, static_cast<int>(m.w), CV_8UC1)); break;
    case 2: s->c->setMask(cv::Mat(static_cast<int>(m.h), static_cast<int>(m.w) + 1, CV_8UC1)); break;
    case 3: s->c->setMask(cv::Mat(static_cast<int>(m.h), static_cast<int>(m.w), CV_16UC1)); break;
    case 4:
      if (m.d.kind == kNone) {
        on = false;
        return;
      }
      s->c->getDistortionMutable()->setParameters(Eigen::VectorXd::Constant(m.d.kind == kFisheye ? 1 : 3, 1.9));
      break;
    default: {
      Eigen::VectorXd k = vec(m.k);
      const int i = m.cls == kUnified ? 1 : 0;
      k[i] = -1.0;
      Camera::Ptr c;
      if (m.cls == kPinhole) c.reset(new aslam::PinholeCamera(k, m.w, m.h));
      else if (m.cls == kUnified) c.reset(new aslam::UnifiedProjectionCamera(k, m.w, m.h));
      else c.reset(new aslam::Camera3DLidar(k, m.w, m.h));
    }
  }
  on = false;
  sim::fail("C31", "mistake-accepted", "a wrong call (%d) on a %s camera is accepted", kind % 6, kClassNames[m.cls]);
}
// A default constructed camera is a camera, too.
void fresh(Rng& r) {
  Camera::Ptr c;
  switch (r.below(3)) {
    case 0: c.reset(new aslam::PinholeCamera); break;
    case 1: c.reset(new aslam::UnifiedProjectionCamera); break;
    default: c.reset(new aslam::Camera3DLidar);
  }
  if (c->getParameters().size() != c->getParameterSize())
    sim::fail("C31", "default", "a new camera has %d intrinsics instead of %d", (int)c->getParameters().size(), c->getParameterSize());
  if (c->isValid()) sim::fail("C31", "default", "a camera without intrinsics is called valid");
  Eigen::Vector3d p;
  c->backProject3(Eigen::Vector2d(0, 0), &p);
}

void body(const sim::PlanThread& ops) {
  std::vector<Slot> slots(kSlots);
  for (int i = 0; i < ops.n; ++i) {
    const Op& op = ops.ops[i];
    Rng r(static_cast<uint64_t>(op.a[1]));
    if (op.code == kShared) {
      const Slot& s = C->shared;
      switch (op.a[2] % 4) {
        case 0: {
          Camera::Ptr c = copy(r, *s.c);
          if (!c) break;
          Slot n;
          n.c = c;
          n.m = s.m;
          audit(n, "a copy of");
          slots[static_cast<size_t>(op.a[0]) % kSlots] = n;
          break;
        }
        case 1: limits(r, *s.c, s.m); break;
        case 2: back(r, *s.c, s.m); break;
        default: project(r, *s.c, s.m);
      }
      audit(s, "while shared");
      continue;
    }
    Slot& s = slots[static_cast<size_t>(op.a[0]) % kSlots];
    if (!s.c) build(r, &s);
    switch (op.code) {
      case kBuild:
        if (r.chance(0.1)) fresh(r);
        build(r, &s);
        break;
      case kChange: change(r, &s, static_cast<int>(op.a[2])); break;
      case kMask:
        if (r.chance(0.8)) {
          new_mask(r, &s);
        } else {
          s.c->clearMask();
          s.m.masked = false;
        }
        break;
      case kClone: clone(r, &s, &slots[static_cast<size_t>(op.a[2]) % kSlots]); break;
      case kLoad: load(r, &s); break;
      case kBadLoad: bad_load(r, &s); break;
      case kRandom: randomize(&s); break;
      case kProject:
        for (int k = 0; k < 3; ++k) project(r, *s.c, s.m);
        break;
      case kBack: back(r, *s.c, s.m); break;
      case kLimits: limits(r, *s.c, s.m); break;
      case kCompare: compare(r, &s); break;
      case kDraw: draw(r, *s.c, s.m); break;
      case kMistake: mistake(r, &s, static_cast<int>(op.a[2])); break;
      case kDistort:
        for (int k = 0; k < 3; ++k) distort(r, *s.c, s.m);
        break;
    }
    audit(s, "after a call");
  }
}

void run(const Plan& plan) {
  sim::set_default_props("C31");
  sim::set_stuck_props("C31");
  C = new Ctx;
  for (bool& b : C->mistake) b = false;
  sim::set_abort_callback(on_abort);
  Rng r(static_cast<uint64_t>(plan.cfg[kSharedSeed]));
  build(r, &C->shared);
  if (r.chance(0.5)) new_mask(r, &C->shared);
  std::vector<std::thread> threads;
  for (int t = 0; t < plan.nthreads; ++t) threads.emplace_back([t, &plan]() { body(plan.th[t]); });
  for (std::thread& t : threads) t.join();
  audit(C->shared, "at the end");
}
void gen(Rng& r, Plan* p, sim::Env* env, bool thorough) {
  p->add_cfg(r.chance(0.3), 0);
  env->alloc_fail = p->cfg[kAlloc] != 0;
  p->add_cfg(static_cast<int64_t>(r.next() >> 1), 0);
  p->nthreads = static_cast<int>(r.chance(0.5) ? 1 : r.range(2, 3));
  const bool mistakes = r.chance(0.1);
  for (int t = 0; t < p->nthreads; ++t) {
    const int n = static_cast<int>(r.range(3, thorough ? 40 : 20));
    for (int i = 0; i < n; ++i) {
      const int64_t slot = r.chance(0.7) ? 0 : r.range(0, kSlots - 1), s = static_cast<int64_t>(r.next() >> 1);
      const uint64_t w = r.below(40);
      if (w < 2) p->add(t, kBuild, slot, s);
      else if (w < 9) p->add(t, kChange, slot, s, r.range(0, 9));
      else if (w < 12) p->add(t, kMask, slot, s);
      else if (w < 15) p->add(t, kClone, slot, s, r.range(0, kSlots - 1));
      else if (w < 16) p->add(t, kLoad, slot, s);
      else if (w < 17) p->add(t, kBadLoad, slot, s);
      else if (w < 18) p->add(t, kRandom, slot, s);
      else if (w < 24) p->add(t, kProject, slot, s);
      else if (w < 27) p->add(t, kBack, slot, s);
      else if (w < 30) p->add(t, kLimits, slot, s);
      else if (w < 32) p->add(t, kCompare, slot, s);
      else if (w < 34) p->add(t, kDraw, slot, s);
      else if (w < 36) p->add(t, kDistort, slot, s);
      else if (w < 39) p->add(t, kShared, slot, s, r.range(0, 3));
      else if (mistakes) p->add(t, kMistake, slot, s, r.range(0, 5));
    }
  }
}
const sim::Harness h = {"camera_models", "C31", gen, run};
sim::Registrar reg(&h);
}  // namespace
