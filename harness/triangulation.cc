// Simulated workloads for triangulation.
//   C35 a triangulated point is where its rays meet, or it is refused
#include <aslam/cameras/camera-pinhole.h>
#include <aslam/cameras/camera-unified-projection.h>
#include <aslam/cameras/distortion-null.h>
#include <aslam/cameras/distortion-radtan.h>
#include <aslam/cameras/ncamera.h>
#include <aslam/frames/feature-track.h>
#include <aslam/frames/visual-frame.h>
#include <aslam/frames/visual-nframe.h>
#include <aslam/triangulation/triangulation.h>

#include <Eigen/Eigenvalues>

#include <algorithm>
#include <cmath>
#include <memory>
#include <new>
#include <string>
#include <thread>
#include <vector>

#include "simrt.h"

namespace {
using aslam::Camera;
using aslam::FeatureTrack;
using aslam::Transformation;
using aslam::TriangulationResult;
using sim::Op;
using sim::Plan;
using sim::Rng;
typedef long double Real;
typedef Eigen::Matrix<Real, 3, 1> Vec3;
typedef Eigen::Matrix<Real, 3, 3> Mat3;
typedef Eigen::Vector3d V3;

enum OpCode {
  kViews = 1,  // seed: everything that needs no images
  kBegin,      // slot, seed: a new track
  kAppend,     // slot, seed
  kPop,        // slot
  kTrack,      // slot, seed: triangulate it
  kOthers,     // seed: the track all threads know
  kMistake,    // slot, seed, kind
};
enum CfgIdx { kAlloc = 0, kSharedSeed };
enum { kSlots = 2, kMaxTrack = 12 };

struct Rig {
  std::vector<Camera::Ptr> cameras;
  aslam::TransformationVector T_C_B;
  aslam::NCamera::Ptr ncamera;
};
struct Slot {
  Rig rig;
  bool one_camera = true;
  size_t camera = 0;
  double pixel_noise = 0;
  V3 point;
  std::unique_ptr<FeatureTrack> track;
  aslam::TransformationVector poses;  // T_W_B
  std::vector<Eigen::Vector2d> keypoints;
  std::vector<size_t> frames, indices;
  double distance = 5;  // from the point
  int still = 0;        // the views all come from one place
};
struct Ctx {
  bool mistake[sim::kMaxSimThreads];
  Slot shared;
};
Ctx* C;
void on_abort() {
  if (C->mistake[sim::tid()]) sim::set_abort_ok(true);
}
double number(Rng& r, double lo, double hi) { return lo + (hi - lo) * (static_cast<double>(r.below(1u << 20)) / (1u << 20)); }
V3 vec(Rng& r, double s) { return V3(number(r, -s, s), number(r, -s, s), number(r, -s, s)); }
Transformation random_pose(Rng& r, double place) {
  Eigen::Vector4d q(number(r, -1, 1), number(r, -1, 1), number(r, -1, 1), number(r, -1, 1));
  if (q.norm() < 0.1) q = Eigen::Vector4d(1, 0, 0, 0);
  q.normalize();
  return Transformation(aslam::Quaternion(q[0], q[1], q[2], q[3]), vec(r, place));
}
Transformation small_pose(Rng& r, double place, double angle) {
  V3 axis = vec(r, 1);
  if (axis.norm() < 0.1) axis = V3(0, 0, 1);
  const Eigen::Quaterniond q(Eigen::AngleAxisd(number(r, -angle, angle), axis.normalized()));
  return Transformation(aslam::Quaternion(q.w(), q.x(), q.y(), q.z()), vec(r, place));
}
// A pose from which a point is seen in the given direction.
Transformation looking(Rng& r, const V3& from, const V3& to, double off) {
  const V3 z = (to - from).normalized();
  V3 x = z.cross(std::fabs(z[0]) < 0.7 ? V3(1, 0, 0) : V3(0, 1, 0)).normalized();
  const double roll = number(r, -3, 3);
  x = Eigen::AngleAxisd(roll, z) * x;
  Eigen::Matrix3d m;
  m.col(0) = x;
  m.col(1) = z.cross(x);
  m.col(2) = z;
  V3 axis(number(r, -1, 1), number(r, -1, 1), 0.01);
  const Eigen::Quaterniond q(m * Eigen::AngleAxisd(number(r, -off, off), axis.normalized()));
  return Transformation(aslam::Quaternion(q.w(), q.x(), q.y(), q.z()), from);
}

// The point closest to all rays, and how well it is known.
struct Answer {
  Vec3 point;
  Real weakest = 0, scale = 1;
};
Answer meet(const std::vector<V3>& from, const std::vector<V3>& ray) {
  Mat3 a = Mat3::Zero();
  Vec3 b = Vec3::Zero();
  Answer out;
  for (size_t i = 0; i < from.size(); ++i) {
    const Vec3 v = ray[i].cast<Real>().normalized(), c = from[i].cast<Real>();
    const Mat3 m = Mat3::Identity() - v * v.transpose();
    a += m;
    b += m * c;
    out.scale = std::max(out.scale, c.norm());
  }
  Eigen::SelfAdjointEigenSolver<Mat3> s(a);
  out.weakest = s.eigenvalues()[0] / static_cast<Real>(from.size());
  if (out.weakest > 1e-12L) {
    out.point = a.fullPivLu().solve(b);
    out.scale = std::max(out.scale, out.point.norm());
  }
  return out;
}
template <class F>
TriangulationResult with_faults(bool faults, V3* p, F f) {
  for (int attempt = 0; attempt < 2; ++attempt) {
    try {
      std::unique_ptr<sim::AllocFaultScope> scope;
      if (attempt == 0 && faults) scope.reset(new sim::AllocFaultScope);
      return f(p);
    } catch (const std::bad_alloc&) {
      sim::probe("failed");
    }
  }
  sim::fail("C35", "no-memory", "triangulation fails although there is memory");
}
const char* name(const TriangulationResult& t) {
  switch (t.status()) {
    case TriangulationResult::Status::kSuccessful: return "successful";
    case TriangulationResult::Status::kTooFewMeasurments: return "too few";
    case TriangulationResult::Status::kUnobservable: return "unobservable";
    default: return "uninitialized";
  }
}
void judge(const TriangulationResult& t, const V3& p, const V3& before, const Answer& a, size_t n, const char* how) {
  const bool ok = t.status() == TriangulationResult::Status::kSuccessful;
  if (static_cast<bool>(t) != ok || t.wasTriangulationSuccessful() != ok) sim::fail("C35", "status", "the status of a triangulation contradicts itself");
  if (!ok && (p - before).norm() != 0) sim::fail("C35", "refused-point", "%s: no point can be triangulated (%s), but there is one", how, name(t));
  if (n < 2) {
    if (t.status() != TriangulationResult::Status::kTooFewMeasurments) sim::fail("C35", "too-few", "%s: the triangulation from %zu views is %s", how, n, name(t));
    sim::probe("too_few");
    return;
  }
  if (a.weakest < 1e-10L) {
    if (t.status() != TriangulationResult::Status::kUnobservable) sim::fail("C35", "unobservable", "%s: the triangulation from %zu parallel rays is %s", how, n, name(t));
    sim::probe("unobservable");
    return;
  }
  if (!ok) {
    if (t.status() != TriangulationResult::Status::kUnobservable || a.weakest > 1e-3L)
      sim::fail("C35", "refused", "%s: the triangulation from %zu views is %s although the point can be told to %g", how, n, name(t), static_cast<double>(a.weakest));
    return;
  }
  const Real e = 1e-11L / a.weakest * a.scale;
  const Real d = (p.cast<Real>() - a.point).norm();
  if (!(d <= e))
    sim::fail("C35", "point", "%s: the point triangulated from %zu views is (%g %g %g) instead of (%g %g %g)", how, n, p[0], p[1], p[2], static_cast<double>(a.point[0]),
              static_cast<double>(a.point[1]), static_cast<double>(a.point[2]));
  sim::probe("triangulated");
}

// Rays without images.
void views(Rng& r, bool faults) {
  const size_t n = static_cast<size_t>(r.chance(0.1) ? r.below(2) : r.chance(0.2) ? 2 : r.range(2, 20));
  const size_t m = static_cast<size_t>(r.range(1, 3));
  const V3 point = vec(r, 10);
  const double distance = number(r, 0.5, 20), noise = r.chance(0.5) ? 0 : number(r, 0, 0.05);
  aslam::TransformationVector T_B_C, T_G_B;
  for (size_t i = 0; i < m; ++i) T_B_C.push_back(r.chance(0.1) ? Transformation() : random_pose(r, 0.5));
  const bool snapshots = r.chance(0.4);
  static const int kKinds[] = {0, 1, 1, 2, 2, 3};
  const int kind = kKinds[r.below(6)];
  const V3 main = vec(r, 1).normalized() + V3(0, 0, 1e-3), place = point - main * distance;
  Aligned<std::vector, Eigen::Vector2d> normalized;
  std::vector<size_t> which;
  std::vector<V3> from, ray;
  Eigen::Matrix3Xd rays(3, static_cast<int>(n)), places(3, static_cast<int>(n));
  for (size_t i = 0; i < n; ++i) {
    V3 at = place;
    if (kind == 1) at += vec(r, distance * 0.3);                         // about one place
    else if (kind == 2) at = point + (vec(r, 1) + V3(1e-3, 0, 0)).normalized() * distance;  // all around
    else if (kind == 3) at += main * distance * number(r, -0.5, 0.5);    // towards the point
    Transformation T_G_C = looking(r, at, point, 0.6);
    const size_t cam = r.below(m);
    // Several cameras may see the point at the same time (or the same one twice).
    if (snapshots && i > 0 && (kind == 1 || kind == 2) && r.chance(0.5)) {
      const Transformation other = T_G_B.back() * T_B_C[cam];
      const V3 c = other.inverse().transform(point);
      if (std::fabs(c[2]) > 0.2 * c.norm()) T_G_C = other;
    }
    const V3 c = T_G_C.inverse().transform(point);
    Eigen::Vector2d uv = c.head<2>() / c[2];
    // Only other places make the rays differ where the point is unobservable.
    if (kind == 1 || kind == 2) uv += Eigen::Vector2d(number(r, -noise, noise), number(r, -noise, noise));
    which.push_back(cam);
    normalized.push_back(uv);
    T_G_B.push_back(T_G_C * T_B_C[cam].inverse());
    const Transformation back = T_G_B.back() * T_B_C[cam];
    from.push_back(back.getPosition());
    ray.push_back(back.getRotationMatrix() * V3(uv[0], uv[1], 1));
    rays.col(static_cast<int>(i)) = ray.back() * number(r, 0.2, 4) * (r.chance(0.1) ? -1 : 1);
    places.col(static_cast<int>(i)) = from.back();
  }
  const Answer a = meet(from, ray);
  const V3 before = vec(r, 100);
  V3 p = before;
  TriangulationResult t = with_faults(faults, &p, [&](V3* out) { return aslam::linearTriangulateFromNViewsMultiCam(normalized, which, T_G_B, T_B_C, out); });
  judge(t, p, before, a, n, "several cameras");
  p = before;
  t = with_faults(faults, &p, [&](V3* out) { return aslam::linearTriangulateFromNViews(rays, places, out); });
  judge(t, p, before, a, n, "rays");
  if (m == 1) {
    p = before;
    t = with_faults(faults, &p, [&](V3* out) { return aslam::linearTriangulateFromNViews(normalized, T_G_B, T_B_C[0], out); });
    judge(t, p, before, a, n, "one camera");
  }
}
// A camera that moves a bit, looking at one point.
void iterative(Rng& r, bool faults) {
  const size_t n = static_cast<size_t>(r.chance(0.1) ? r.below(2) : r.range(2, 12));
  const double depth = number(r, 0.5, 20);
  const Transformation T_B_C = random_pose(r, 0.5), T_G_C0 = random_pose(r, 30);
  const V3 in_first(number(r, -0.5, 0.5) * depth, number(r, -0.5, 0.5) * depth, depth), point = T_G_C0.transform(in_first);
  Aligned<std::vector, Eigen::Vector2d> normalized;
  aslam::TransformationVector T_G_B;
  std::vector<V3> from, ray;
  for (size_t i = 0; i < n; ++i) {
    const Transformation T_G_C = i == 0 ? T_G_C0 : T_G_C0 * small_pose(r, depth * 0.15, 0.3);
    T_G_B.push_back(T_G_C * T_B_C.inverse());
    const V3 c = T_G_C.inverse().transform(point);
    normalized.push_back(c.head<2>() / c[2]);
    from.push_back(T_G_C.getPosition());
    ray.push_back(point - from.back());
  }
  const V3 before = vec(r, 100);
  V3 p = before;
  const TriangulationResult t = with_faults(faults, &p, [&](V3* out) { return aslam::iterativeGaussNewtonTriangulateFromNViews(normalized, T_G_B, T_B_C, out); });
  const Answer a = meet(from, ray);
  if (n < 2) {
    judge(t, p, before, a, n, "iterative");
    return;
  }
  if (a.weakest < 5e-3L) return;
  if (!t) sim::fail("C35", "refused", "iterative: the triangulation from %zu views is %s", n, name(t));
  if (!((p - point).norm() <= 0.01 * depth))
    sim::fail("C35", "point", "iterative: the point triangulated from %zu views at %g m is (%g %g %g) instead of (%g %g %g), %g", n, depth, p[0], p[1], p[2], point[0], point[1], point[2],
              static_cast<double>(a.weakest));
  sim::probe("iterative");
}

Camera::Ptr camera(Rng& r) {
  const double w = 640, h = 480, f = number(r, 200, 600);
  aslam::Distortion::UniquePtr d;
  if (r.chance(0.3)) {
    Eigen::Vector4d k(number(r, -0.05, 0.05), number(r, -0.01, 0.01), number(r, -0.002, 0.002), number(r, -0.002, 0.002));
    d.reset(new aslam::RadTanDistortion(k));
  } else {
    d.reset(new aslam::NullDistortion);
  }
  if (r.chance(0.7)) {
    Eigen::VectorXd k(4);
    k << f, f * number(r, 0.9, 1.1), w / 2, h / 2;
    return Camera::Ptr(new aslam::PinholeCamera(k, 640, 480, d));
  }
  Eigen::VectorXd k(5);
  k << number(r, 0.2, 1.2), f * 2, f * 2 * number(r, 0.9, 1.1), w / 2, h / 2;
  return Camera::Ptr(new aslam::UnifiedProjectionCamera(k, 640, 480, d));
}
void begin(Rng& r, Slot* s) {
  Slot n;
  const size_t m = static_cast<size_t>(r.range(1, 3));
  for (size_t i = 0; i < m; ++i) {
    n.rig.cameras.push_back(camera(r));
    n.rig.T_C_B.push_back(random_pose(r, 0.5));
  }
  aslam::NCameraId id;
  aslam::generateId(&id);
  n.rig.ncamera.reset(new aslam::NCamera(id, n.rig.T_C_B, n.rig.cameras, "rig"));
  n.one_camera = m == 1 || r.chance(0.5);
  n.camera = r.below(m);
  n.point = vec(r, 10);
  n.pixel_noise = r.chance(0.5) ? 0 : number(r, 0, 3);
  n.distance = number(r, 1, 20);
  n.still = r.chance(0.15);
  n.track.reset(new FeatureTrack(r.below(1000)));
  *s = std::move(n);
}
void append(Rng& r, Slot* s) {
  if (s->poses.size() >= kMaxTrack) return;
  const size_t cam = s->one_camera ? s->camera : r.below(s->rig.cameras.size());
  const V3 at = s->still ? V3(s->point + V3(s->distance, 0, 0)) : V3(s->point + V3(s->distance, 0, 0) + vec(r, s->distance * 0.3));
  const Transformation T_W_C = looking(r, at, s->point, 0.25);
  const V3 c = T_W_C.inverse().transform(s->point);
  Eigen::Vector2d keypoint;
  if (!s->rig.cameras[cam]->project3(c, &keypoint).isKeypointVisible()) return;
  if (!s->still) keypoint += Eigen::Vector2d(number(r, -1, 1), number(r, -1, 1)) * s->pixel_noise;
  // Several frames with several keypoints, only one of which counts.
  aslam::VisualNFrame::Ptr nframe(new aslam::VisualNFrame(s->rig.ncamera));
  const int64_t stamp = static_cast<int64_t>(r.below(1000000));
  const size_t count = 1 + r.below(4), index = r.below(count);
  for (size_t i = 0; i < s->rig.cameras.size(); ++i) {
    if (i != cam && r.chance(0.5)) continue;
    aslam::VisualFrame::Ptr frame = aslam::VisualFrame::createEmptyTestVisualFrame(s->rig.cameras[i], stamp);
    Eigen::Matrix2Xd k(2, static_cast<int>(count));
    for (size_t j = 0; j < count; ++j) k.col(static_cast<int>(j)) << number(r, 0, 640), number(r, 0, 480);
    if (i == cam) k.col(static_cast<int>(index)) = keypoint;
    frame->setKeypointMeasurements(k);
    nframe->setFrame(i, frame);
  }
  s->track->addKeypointObservationAtBack(nframe, cam, index);
  s->poses.push_back(T_W_C * s->rig.T_C_B[cam]);
  s->keypoints.push_back(keypoint);
  s->frames.push_back(cam);
  s->indices.push_back(index);
}
void pop(Slot* s) {
  if (s->poses.empty()) return;
  s->track->popLastKeypointIdentifier();
  s->poses.pop_back();
  s->keypoints.pop_back();
  s->frames.pop_back();
  s->indices.pop_back();
}
void check_track(const Slot& s) {
  const FeatureTrack& t = *s.track;
  const size_t n = s.poses.size();
  if (t.getTrackLength() != n || t.hasObservations() != (n > 0) || t.getKeypointIdentifiers().size() != n)
    sim::fail("C35", "track", "a track of %zu observations has length %zu", n, t.getTrackLength());
  if (n == 0) return;
  if (&t.getFirstKeypointIdentifier() != &t.getKeypointIdentifiers()[0] || &t.getLastKeypointIdentifier() != &t.getKeypointIdentifiers()[n - 1])
    sim::fail("C35", "track", "the ends of a track are elsewhere");
  double lo[2] = {1e9, 1e9}, hi[2] = {-1e9, -1e9};
  for (size_t i = 0; i < n; ++i) {
    const aslam::KeypointIdentifier& k = t.getKeypointIdentifiers()[i];
    if (k.getFrameIndex() != s.frames[i] || k.getKeypointIndex() != s.indices[i] || k.getCamera() != s.rig.cameras[s.frames[i]]) sim::fail("C35", "track", "observation %zu is another one", i);
    const Eigen::Vector2d m = k.getKeypointMeasurement();
    if (m != s.keypoints[i]) sim::fail("C35", "track", "observation %zu is at (%g %g) instead of (%g %g)", i, m[0], m[1], s.keypoints[i][0], s.keypoints[i][1]);
    for (int c = 0; c < 2; ++c) lo[c] = std::min(lo[c], m[c]), hi[c] = std::max(hi[c], m[c]);
  }
  const double box = (hi[0] - lo[0]) * (hi[0] - lo[0]) + (hi[1] - lo[1]) * (hi[1] - lo[1]), got = t.getDiagonalSqOfDisparityBoundingBox();
  if (!(std::fabs(got - box) <= 1e-9 * (1 + box))) sim::fail("C35", "disparity", "the disparity of a track is %g instead of %g", got, box);
}
void triangulate(Rng& r, const Slot& s, bool faults) {
  check_track(s);
  const size_t n = s.poses.size();
  if (n < 2) return;
  std::vector<V3> from, ray;
  for (size_t i = 0; i < n; ++i) {
    const Transformation T_W_C = s.poses[i] * s.rig.T_C_B[s.frames[i]].inverse();
    V3 c;
    if (!s.rig.cameras[s.frames[i]]->backProject3(s.keypoints[i], &c)) return;
    from.push_back(T_W_C.getPosition());
    ray.push_back(T_W_C.getRotationMatrix() * c);
  }
  const Answer a = meet(from, ray);
  const V3 before = vec(r, 100);
  V3 p = before;
  TriangulationResult t = with_faults(faults, &p, [&](V3* out) { return aslam::fastTriangulateFeatureTrack(*s.track, s.poses, out); });
  judge(t, p, before, a, n, "fast track");
  if (s.one_camera) {
    p = before;
    t = with_faults(faults, &p, [&](V3* out) { return aslam::triangulateFeatureTrack(*s.track, s.poses, out); });
    judge(t, p, before, a, n, "track");
  }
  // Without noise it is the point itself (as far as the distortion is undone).
  if (t && s.pixel_noise == 0 && a.weakest > 1e-3L && !((p - s.point).norm() <= 1e-3 * s.distance))
    sim::fail("C35", "exact", "the point of a track of %zu exact observations is (%g %g %g) instead of (%g %g %g)", n, p[0], p[1], p[2], s.point[0], s.point[1], s.point[2]);
  sim::probe("track");
}
void mistake(Rng& r, Slot* s, int kind) {
  while (s->poses.size() > 1) pop(s);
  for (int i = 0; i < 50 && s->poses.size() < 3; ++i) append(r, s);
  if (s->poses.size() < 3) return;
  bool& on = C->mistake[sim::tid()];
  on = true;
  V3 p(1, 2, 3);
  Aligned<std::vector, Eigen::Vector2d> normalized(3, Eigen::Vector2d(0.1, 0.2));
  aslam::TransformationVector two(s->poses.begin(), s->poses.begin() + 2), rig(1);
  const Transformation one;
  std::vector<size_t> which(3, 0);
  kind %= 9;
  switch (kind) {
    case 0: aslam::linearTriangulateFromNViews(normalized, two, one, &p); break;
    case 1: aslam::linearTriangulateFromNViewsMultiCam(normalized, which, two, rig, &p); break;
    case 2: which.pop_back(), aslam::linearTriangulateFromNViewsMultiCam(normalized, which, s->poses, rig, &p); break;
    case 3: which[r.below(3)] = 1, aslam::linearTriangulateFromNViewsMultiCam(normalized, which, s->poses, rig, &p); break;
    case 4: aslam::iterativeGaussNewtonTriangulateFromNViews(normalized, two, one, &p); break;
    case 5: aslam::triangulateFeatureTrack(*s->track, two, &p); break;
    case 6: aslam::fastTriangulateFeatureTrack(*s->track, two, &p); break;
    case 7:
      pop(s), pop(s);
      if (r.chance(0.5)) pop(s);
      if (r.chance(0.5)) aslam::triangulateFeatureTrack(*s->track, s->poses, &p);
      else aslam::fastTriangulateFeatureTrack(*s->track, s->poses, &p);
      break;
    default: aslam::linearTriangulateFromNViews(normalized, s->poses, one, nullptr); break;
  }
  on = false;
  sim::fail("C35", "mistake-accepted", "an impossible request (%d) is not refused", kind);
}

void run(const Plan& plan) {
  sim::set_default_props("C35");
  sim::set_stuck_props("C35");
  C = new Ctx;
  for (bool& x : C->mistake) x = false;
  sim::set_abort_callback(on_abort);
  {
    Rng r(static_cast<uint64_t>(plan.cfg[kSharedSeed]));
    begin(r, &C->shared);
    for (int i = 0; i < 6; ++i) append(r, &C->shared);
  }
  const bool faults = plan.cfg[kAlloc] != 0;
  std::vector<std::thread> threads;
  for (int t = 0; t < plan.nthreads; ++t)
    threads.emplace_back([t, faults, &plan] {
      std::unique_ptr<Slot[]> slots(new Slot[kSlots]);
      for (int i = 0; i < plan.th[t].n; ++i) {
        const Op& op = plan.th[t].ops[i];
        Slot& s = slots[op.a[0] % kSlots];
        Rng r(static_cast<uint64_t>(op.a[1]));
        if (op.code == kViews) {
          if (r.chance(0.7)) views(r, faults);
          else iterative(r, faults);
          continue;
        }
        if (op.code == kOthers) {
          triangulate(r, C->shared, faults);
          continue;
        }
        if (op.code == kBegin || !s.track) begin(r, &s);
        switch (op.code) {
          case kAppend:
            for (uint64_t k = 1 + r.below(3); k > 0; --k) append(r, &s);
            break;
          case kPop: pop(&s); break;
          case kTrack: triangulate(r, s, faults); break;
          case kMistake: mistake(r, &s, static_cast<int>(op.a[2])); break;
          default: break;
        }
      }
      for (int i = 0; i < kSlots; ++i)
        if (slots[i].track) check_track(slots[i]);
    });
  for (std::thread& t : threads) t.join();
  Rng r(1);
  triangulate(r, C->shared, false);
}

void gen(Rng& r, Plan* p, sim::Env* env, bool thorough) {
  p->add_cfg(r.chance(0.3), 0);
  env->alloc_fail = p->cfg[kAlloc] != 0;
  p->add_cfg(static_cast<int64_t>(r.next() >> 1), 0);
  p->nthreads = static_cast<int>(r.chance(0.4) ? 1 : r.range(2, 3));
  const bool mistakes = r.chance(0.15);
  for (int t = 0; t < p->nthreads; ++t) {
    const int n = static_cast<int>(r.range(2, thorough ? 24 : 14));
    for (int i = 0; i < n; ++i) {
      const int64_t slot = r.range(0, kSlots - 1), seed = static_cast<int64_t>(r.next() >> 1);
      const uint64_t w = r.below(24);
      if (w < 7) p->add(t, kViews, slot, seed);
      else if (w < 8) p->add(t, kBegin, slot, seed);
      else if (w < 14) p->add(t, kAppend, slot, seed);
      else if (w < 16) p->add(t, kPop, slot, seed);
      else if (w < 20) p->add(t, kTrack, slot, seed);
      else if (w < 22) p->add(t, kOthers, slot, seed);
      else if (mistakes && r.chance(0.5)) p->add(t, kMistake, slot, seed, r.range(0, 17));
    }
  }
}
const sim::Harness h = {"triangulation", "C35", gen, run};
sim::Registrar reg(&h);
}  // namespace
