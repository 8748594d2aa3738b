// Simulated workloads for pose estimation and outlier rejection.
//   C37 poses and inliers are those that fit the observations that were given
#include <aslam/calibration/target-algorithms.h>
#include <aslam/calibration/target-aprilgrid.h>
#include <aslam/cameras/camera-pinhole.h>
#include <aslam/cameras/camera-unified-projection.h>
#include <aslam/cameras/distortion-null.h>
#include <aslam/cameras/distortion-radtan.h>
#include <aslam/cameras/ncamera.h>
#include <aslam/frames/visual-frame.h>
#include <aslam/geometric-vision/match-outlier-rejection-twopt.h>
#include <aslam/geometric-vision/pnp-pose-estimator.h>
#include <opengv/standin.h>

#include <algorithm>
#include <cmath>
#include <memory>
#include <new>
#include <string>
#include <thread>
#include <unordered_set>
#include <vector>

#include "simrt.h"

namespace opengv {
namespace standin {
World& world() {
  static thread_local World w;
  return w;
}
}  // namespace standin
}  // namespace opengv

// The target is never looked for in an image here.
namespace AprilTags {
TagDetector::TagDetector(const TagCodes&, size_t black_border) : black_border_(black_border) {}
std::vector<TagDetection> TagDetector::extractTags(const cv::Mat&) const { return {}; }
void TagDetection::draw(cv::Mat&) const {}
}  // namespace AprilTags

namespace {
using aslam::Camera;
using aslam::Transformation;
using aslam::geometric_vision::BearingVectors;
using aslam::geometric_vision::PnpPoseEstimator;
using opengv::standin::World;
using opengv::standin::world;
using sim::Op;
using sim::Plan;
using sim::Rng;
typedef Eigen::Vector3d V3;
typedef Eigen::Matrix3d M3;

enum OpCode {
  kPose = 1,  // seed: of one camera
  kRigPose,   // seed
  kTarget,    // seed: of a calibration target
  kReject,    // seed: bearing vectors
  kMatches,   // seed: matches of two frames
  kPose3d,    // seed
  kMistake,   // seed, kind
};
enum CfgIdx { kAlloc = 0, kSharedSeed };
enum { kMaxIterations = 40 };
struct Rig {
  std::vector<Camera::Ptr> cameras;
  aslam::TransformationVector T_C_B;
  aslam::NCamera::Ptr ncamera;
};
struct Estimator {
  std::unique_ptr<PnpPoseEstimator> e;
  bool refine = false, random = true;
};
struct Ctx {
  bool mistake[sim::kMaxSimThreads];
  Estimator shared;
  Rig rig;
};
Ctx* C;
void on_abort() {
  if (C->mistake[sim::tid()]) sim::set_abort_ok(true);
}
double number(Rng& r, double lo, double hi) { return lo + (hi - lo) * (static_cast<double>(r.below(1u << 20)) / (1u << 20)); }
V3 vec(Rng& r, double s) { return V3(number(r, -s, s), number(r, -s, s), number(r, -s, s)); }
V3 direction(Rng& r) {
  V3 v = vec(r, 1);
  return v.norm() < 0.1 ? V3(0, 0, 1) : V3(v.normalized());
}
Eigen::Quaterniond turn(Rng& r, double angle) { return Eigen::Quaterniond(Eigen::AngleAxisd(number(r, -angle, angle), direction(r))); }
Transformation pose(const Eigen::Quaterniond& q, const V3& p) { return Transformation(aslam::Quaternion(q.w(), q.x(), q.y(), q.z()), p); }
Transformation random_pose(Rng& r, double place) { return pose(turn(r, 3.1), vec(r, place)); }

Camera::Ptr random_camera(Rng& r) {
  const double f = number(r, 150, 600), g = f * number(r, 0.5, 1.8);
  aslam::Distortion::UniquePtr d;
  if (r.chance(0.3)) d.reset(new aslam::RadTanDistortion(Eigen::Vector4d(number(r, -0.03, 0.03), number(r, -0.01, 0.01), number(r, -0.002, 0.002), number(r, -0.002, 0.002))));
  else d.reset(new aslam::NullDistortion);
  if (r.chance(0.6)) {
    Eigen::VectorXd k(4);
    k << f, g, 320 + number(r, -20, 20), 240 + number(r, -20, 20);
    return Camera::Ptr(new aslam::PinholeCamera(k, 640, 480, d));
  }
  Eigen::VectorXd k(5);
  k << number(r, 0.2, 1), 2 * f, 2 * g, 320 + number(r, -20, 20), 240 + number(r, -20, 20);
  return Camera::Ptr(new aslam::UnifiedProjectionCamera(k, 640, 480, d));
}
double focal_length(const Camera& c) {
  const Eigen::VectorXd& k = c.getParameters();
  return k.size() == 5 ? (k[1] + k[2]) / 2 : (k[0] + k[1]) / 2;
}
void make_rig(Rng& r, Rig* rig) {
  const size_t n = static_cast<size_t>(r.range(1, 4));
  for (size_t i = 0; i < n; ++i) {
    rig->cameras.push_back(random_camera(r));
    rig->T_C_B.push_back(random_pose(r, 0.5));
  }
  aslam::NCameraId id;
  aslam::generateId(&id);
  rig->ncamera.reset(new aslam::NCamera(id, rig->T_C_B, rig->cameras, "rig"));
}
void make_estimator(Rng& r, Estimator* e) {
  e->refine = r.chance(0.5);
  e->random = r.chance(0.5);
  if (e->random && r.chance(0.5)) e->e.reset(new PnpPoseEstimator(e->refine));
  else e->e.reset(new PnpPoseEstimator(e->refine, e->random));
}
void random_world(Rng& r, World* w) {
  for (auto& l : w->lucky)
    for (int& i : l) i = static_cast<int>(r.range(1, r.chance(0.2) ? 2 * kMaxIterations : kMaxIterations / 2));
}
template <class F>
void with_faults(bool faults, const char* what, F f) {
  for (int attempt = 0; attempt < 2; ++attempt) {
    try {
      std::unique_ptr<sim::AllocFaultScope> scope;
      if (attempt == 0 && faults) scope.reset(new sim::AllocFaultScope);
      f();
      return;
    } catch (const std::bad_alloc&) {
      sim::probe("failed");
    }
  }
  sim::fail("C37", "no-memory", "%s fails although there is memory", what);
}

// Landmarks and where one or more cameras see them.
struct Scene {
  Eigen::Matrix2Xd seen;
  Eigen::Matrix3Xd landmarks;
  std::vector<int> cameras;
};
void observe(Rng& r, const Camera& c, const Transformation& T_G_C, double sigma, Eigen::Vector2d* seen, V3* landmark) {
  for (;;) {
    const double depth = number(r, 0.5, 30);
    const V3 at(number(r, -0.5, 0.5) * depth, number(r, -0.4, 0.4) * depth, depth);
    if (!c.project3(at, seen).isKeypointVisible()) continue;
    *landmark = T_G_C.transform(at);
    break;
  }
  const uint64_t kind = r.below(8);
  if (kind == 0) {
    *landmark = vec(r, 30);
  } else if (kind < 5) {  // about as far off as is allowed
    const double a = number(r, 0, 6.28), d = number(r, 0.5, 1.5) * sigma;
    *seen += d * Eigen::Vector2d(std::cos(a), std::sin(a));
  } else if (kind < 6) {
    *seen += Eigen::Vector2d(number(r, -0.3, 0.3), number(r, -0.3, 0.3)) * sigma;
  }
}
struct Fit {
  bool ok = false;
  int iterations = 0;
  std::vector<int> inliers;
  std::vector<double> distances;
  bool close = false;  // an observation is too close to the border between fitting and not
};
Fit fit(const Scene& s, const Rig& rig, const Transformation& T_G_B, double threshold, int max_iterations, bool random) {
  Fit f;
  const size_t n = static_cast<size_t>(s.seen.cols());
  if (n < 4) return f;
  const int lucky = world().lucky[opengv::standin::kAbsolute][random];
  f.iterations = std::min(lucky, max_iterations);
  if (lucky > max_iterations) return f;
  f.ok = true;
  for (size_t i = 0; i < n; ++i) {
    const size_t c = static_cast<size_t>(s.cameras[i]);
    V3 ray;
    rig.cameras[c]->backProject3(s.seen.col(static_cast<long>(i)), &ray);
    const V3 at = rig.T_C_B[c].transform(T_G_B.inverse().transform(s.landmarks.col(static_cast<long>(i))));
    const double d = 1 - at.normalized().dot(ray.normalized());
    if (std::fabs(d - threshold) < 1e-5 * threshold + 1e-13) f.close = true;
    if (d < threshold) f.inliers.push_back(static_cast<int>(i)), f.distances.push_back(d);
  }
  return f;
}
Transformation from_matrix(const opengv::transformation_t& m) { return pose(Eigen::Quaterniond(M3(m.leftCols<3>())), m.col(3)); }
bool near(const Transformation& a, const Transformation& b) {
  return (a.getPosition() - b.getPosition()).norm() < 1e-7 && (a.getRotationMatrix() - b.getRotationMatrix()).norm() < 1e-8;
}
void expect_fit(const char* what, const Fit& f, bool ok, const std::vector<int>* inliers, int iterations) {
  if (ok != f.ok) sim::fail("C37", "success", "%s: the pose estimation %s", what, ok ? "succeeds although no pose was found" : "fails although a pose was found");
  if (iterations != f.iterations) sim::fail("C37", "iterations", "%s: %d iterations instead of %d", what, iterations, f.iterations);
  if (!inliers) return;
  std::vector<int> got = *inliers;
  std::sort(got.begin(), got.end());
  if (got != f.inliers) {
    size_t i = 0;
    while (i < got.size() && i < f.inliers.size() && got[i] == f.inliers[i]) ++i;
    const bool extra = i < got.size() && (i == f.inliers.size() || got[i] < f.inliers[i]);
    sim::fail("C37", "inliers", "%s: %zu inliers instead of %zu; observation %d is %s", what, got.size(), f.inliers.size(), extra ? got[i] : f.inliers[i], extra ? "one of them" : "missing");
  }
}
void expect_pose(const char* what, const Fit& f, const Transformation& got, const Transformation& before, const Transformation& truth, bool may_refine, bool must_refine,
                 const std::vector<int>& inliers) {
  if (!f.ok) {
    if (!near(got, before)) sim::fail("C37", "failed-pose", "%s: the pose changed although none was found", what);
    sim::probe("not_found");
    return;
  }
  opengv::transformation_t refined = opengv::standin::refine(world().pose, inliers);
  const bool plain = near(got, truth), better = near(got, from_matrix(refined));
  if (!((plain && !must_refine) || (better && may_refine)))
    sim::fail("C37", "pose", "%s: the pose is at (%g %g %g) instead of (%g %g %g)%s", what, got.getPosition()[0], got.getPosition()[1], got.getPosition()[2],
              must_refine ? refined(0, 3) : world().pose(0, 3), world().pose(1, 3), must_refine ? refined(2, 3) : world().pose(2, 3), must_refine && plain ? ", it is not refined" : "");
  sim::probe("found");
}
void set_truth(const Transformation& T) {
  world().pose.leftCols<3>() = T.getRotationMatrix();
  world().pose.col(3) = T.getPosition();
}

void rig_pose_once(Rng& r, const Estimator& e, const Rig& the_rig, bool single, bool faults) {
  const Rig* rig = &the_rig;
  random_world(r, &world());
  const Transformation truth = random_pose(r, 10), before = random_pose(r, 3);
  set_truth(truth);
  const double sigma = number(r, 0.3, 3);
  const int max_iterations = static_cast<int>(r.range(1, kMaxIterations));
  const bool pixels = r.chance(0.6);
  double f = 0;
  for (const Camera::Ptr& c : rig->cameras) f += focal_length(*c) / static_cast<double>(rig->cameras.size());
  const double threshold = 1 - std::cos(std::atan(sigma / f));
  Scene s;
  const int n = static_cast<int>(r.chance(0.1) ? r.below(5) : r.range(4, 30));
  s.seen.resize(2, n);
  s.landmarks.resize(3, n);
  for (int i = 0; i < n; ++i) {
    const size_t c = r.below(rig->cameras.size());
    Eigen::Vector2d seen;
    V3 landmark;
    observe(r, *rig->cameras[c], truth * rig->T_C_B[c].inverse(), sigma, &seen, &landmark);
    s.seen.col(i) = seen;
    s.landmarks.col(i) = landmark;
    s.cameras.push_back(static_cast<int>(c));
  }
  const Fit expected = fit(s, *rig, truth, threshold, max_iterations, e.random);
  if (expected.close) return;
  const bool distances = r.chance(0.5);
  Transformation got;
  std::vector<int> inliers;
  std::vector<double> d;
  int iterations = -1;
  bool ok = false;
  const PnpPoseEstimator& p = *e.e;
  with_faults(faults, "estimating a pose", [&] {
    got = before;
    inliers.assign(3, 77);
    d.assign(5, 77);
    if (single) {
      const Camera::ConstPtr camera = rig->cameras[0];
      ok = pixels ? p.absolutePoseRansacPinholeCam(s.seen, s.landmarks, sigma, max_iterations, camera, &got, &inliers, &iterations)
                  : p.absolutePoseRansac(s.seen, s.landmarks, threshold, max_iterations, camera, &got, &inliers, &iterations);
    } else if (distances) {
      ok = pixels ? p.absoluteMultiPoseRansacPinholeCam(s.seen, s.cameras, s.landmarks, sigma, max_iterations, rig->ncamera, &got, &inliers, &d, &iterations)
                  : p.absoluteMultiPoseRansac(s.seen, s.cameras, s.landmarks, threshold, max_iterations, rig->ncamera, &got, &inliers, &d, &iterations);
    } else {
      ok = pixels ? p.absoluteMultiPoseRansacPinholeCam(s.seen, s.cameras, s.landmarks, sigma, max_iterations, rig->ncamera, &got, &inliers, &iterations)
                  : p.absoluteMultiPoseRansac(s.seen, s.cameras, s.landmarks, threshold, max_iterations, rig->ncamera, &got, &inliers, &iterations);
    }
  });
  const char* what = single ? "one camera" : "a rig";
  expect_fit(what, expected, ok, &inliers, iterations);
  if (!single && distances) {
    if (d.size() != inliers.size()) sim::fail("C37", "distances", "%s: %zu distances of %zu inliers", what, d.size(), inliers.size());
    for (size_t i = 0; i < d.size(); ++i) {
      const size_t k = static_cast<size_t>(std::find(expected.inliers.begin(), expected.inliers.end(), inliers[i]) - expected.inliers.begin());
      if (!(std::fabs(d[i] - expected.distances[k]) < 1e-12)) sim::fail("C37", "distances", "%s: inlier %d has a distance of %g instead of %g", what, inliers[i], d[i], expected.distances[k]);
    }
  }
  // Whether the pose of a single camera is refined is left open.
  expect_pose(what, expected, got, before, truth, e.refine, e.refine && !single, inliers);
}
void rig_pose(Rng& r, const Estimator& e, const Rig& shared, bool single, bool faults) {
  Rig own;
  const Rig* rig = &shared;
  if (single || r.chance(0.5)) {
    if (single) own.cameras.push_back(random_camera(r)), own.T_C_B.push_back(Transformation());
    else make_rig(r, &own);
    rig = &own;
  }
  rig_pose_once(r, e, *rig, single, faults);
  // The calibration changes.
  while (rig == &own && r.chance(0.4)) {
    const size_t c = r.below(own.cameras.size());
    if (!single && r.chance(0.7)) {
      own.T_C_B[c] = random_pose(r, 0.5);
      own.ncamera->set_T_C_B(c, own.T_C_B[c]);
    } else {
      const int at = own.cameras[c]->getType() == Camera::Type::kPinhole ? 0 : 1;
      Eigen::VectorXd k = own.cameras[c]->getParameters();
      k[at] *= number(r, 0.7, 1.4);
      k[at + 1] *= number(r, 0.7, 1.4);
      own.cameras[c]->setParameters(k);
    }
    rig_pose_once(r, e, *rig, single, faults);
  }
}

void target_pose(Rng& r, bool faults) {
  aslam::calibration::TargetAprilGrid::TargetConfiguration config;
  config.num_tag_rows = static_cast<size_t>(r.range(1, 4));
  config.num_tag_cols = static_cast<size_t>(r.range(1, 4));
  config.tag_size_meter = number(r, 0.02, 0.2);
  config.tag_inbetween_space_meter = number(r, 0.005, 0.1);
  aslam::calibration::TargetBase::Ptr target(new aslam::calibration::TargetAprilGrid(config));
  Rig rig;
  rig.cameras.push_back(random_camera(r));
  rig.T_C_B.push_back(Transformation());
  random_world(r, &world());
  const bool options = r.chance(0.7), refine = options ? r.chance(0.5) : true;
  const double sigma = options ? number(r, 0.3, 3) : 1;
  const int max_iterations = options ? static_cast<int>(r.range(1, kMaxIterations)) : 200;
  if (!options && r.chance(0.3)) world().lucky[opengv::standin::kAbsolute][1] = static_cast<int>(r.range(150, 250));
  // In front of the target, looking at it.
  const V3 middle = target->points().rowwise().mean();
  const double away = number(r, 1, 3);
  const Eigen::Quaterniond q = Eigen::Quaterniond(Eigen::AngleAxisd(3.14159, V3(1, 0, 0))) * turn(r, 0.3);
  const Transformation truth = pose(q, middle - q * V3(0, 0, away)), before = random_pose(r, 3);
  set_truth(truth);
  const double threshold = 1 - std::cos(std::atan(sigma / focal_length(*rig.cameras[0])));
  std::vector<int> ids;
  std::vector<Eigen::Vector2d> seen;
  for (size_t i = 0; i < target->size(); ++i) {
    if (r.chance(0.3)) continue;
    Eigen::Vector2d k;
    if (!rig.cameras[0]->project3(truth.inverse().transform(target->point(i)), &k).isKeypointVisible()) continue;
    if (r.chance(0.1)) k = Eigen::Vector2d(number(r, 100, 540), number(r, 100, 380));
    else if (r.chance(0.5)) k += sigma * Eigen::Vector2d(number(r, -1.2, 1.2), number(r, -1.2, 1.2));
    ids.push_back(static_cast<int>(i));
    seen.push_back(k);
  }
  // Detectors may report corners in any order.
  for (size_t i = ids.size(); i > 1; --i) {
    const size_t j = r.below(i);
    std::swap(ids[i - 1], ids[j]);
    std::swap(seen[i - 1], seen[j]);
  }
  Scene s;
  const int n = static_cast<int>(ids.size());
  s.seen.resize(2, n);
  s.landmarks.resize(3, n);
  s.cameras.assign(static_cast<size_t>(n), 0);
  Eigen::VectorXi id_vector(n);
  for (int i = 0; i < n; ++i) {
    id_vector[i] = ids[static_cast<size_t>(i)];
    s.seen.col(i) = seen[static_cast<size_t>(i)];
    s.landmarks.col(i) = target->point(static_cast<size_t>(id_vector[i]));
  }
  const Fit expected = fit(s, rig, truth, threshold, max_iterations, true);
  if (expected.close) return;
  const aslam::calibration::TargetObservation observation(target, 480, 640, id_vector, s.seen);
  Transformation got;
  bool ok = false;
  const Camera::ConstPtr camera = rig.cameras[0];
  with_faults(faults, "estimating the pose of a target", [&] {
    got = before;
    ok = options ? aslam::calibration::estimateTargetTransformation(observation, camera, &got, refine, sigma, max_iterations)
                 : aslam::calibration::estimateTargetTransformation(observation, camera, &got);
  });
  expect_fit("a target", expected, ok, nullptr, expected.iterations);
  expect_pose("a target", expected, got, before, truth, refine, false, expected.inliers);
}

// Two views of the same things.
struct Pair {
  M3 R;         // as is known before
  BearingVectors a, b;
};
struct Split {
  bool ok = false, close = false;
  std::unordered_set<int> inliers;
};
Split split(const Pair& p, double threshold, size_t max_iterations, bool fixed) {
  Split s;
  if (p.a.size() < 6) return s;
  const World& w = world();
  const auto found = [&](int k) { return static_cast<size_t>(w.lucky[k][!fixed]) <= max_iterations; };
  for (size_t i = 0; i < p.a.size(); ++i) {
    const double rotation = 1 - p.a[i].dot(w.rotation * p.b[i]);
    const double translation = std::fabs(w.translation.cross(p.a[i]).normalized().dot(p.R * p.b[i]));
    for (double d : {rotation, translation})
      if (std::fabs(d - threshold) < 1e-5 * threshold + 1e-13) s.close = true;
    if ((found(opengv::standin::kRotation) && rotation < threshold) || (found(opengv::standin::kTranslation) && translation < threshold)) s.inliers.insert(static_cast<int>(i));
  }
  s.ok = s.inliers.size() >= 6;
  if (!s.ok) s.inliers.clear();
  return s;
}
// The direction in which the second camera sees what the first sees at a.
V3 second(Rng& r, const V3& a, double threshold) {
  const World& w = world();
  const uint64_t kind = r.below(8);
  if (kind == 0) return direction(r);
  V3 b;
  if (kind < 4) {
    b = w.rotation.transpose() * a;
    const double angle = std::acos(1 - std::min(threshold, 1.)) * (kind == 1 ? 0 : number(r, 0.5, 1.5));
    b = Eigen::AngleAxisd(angle, b.cross(direction(r)).normalized()) * b;
  } else {
    const V3 point = a * number(r, 1, 10);
    b = w.rotation.transpose() * (point - w.translation);
    if (kind > 5) b = b.normalized() + direction(r) * threshold * number(r, 0.5, 2);
  }
  return b.normalized();
}
double begin_pair(Rng& r, Pair* p) {
  World& w = world();
  random_world(r, &w);
  w.rotation = turn(r, r.chance(0.3) ? 3 : 0.5).toRotationMatrix();
  w.translation = vec(r, 1);
  if (w.translation.norm() < 0.1) w.translation = V3(0.3, 0.1, 0);
  p->R = r.chance(0.5) ? w.rotation : M3(w.rotation * turn(r, 0.02).toRotationMatrix());
  return std::pow(10, number(r, -6, -1.5));
}
void check_split(const Split& s, bool ok) {
  if (ok != s.ok) sim::fail("C37", "success", "outlier rejection %s with %zu inliers", ok ? "succeeds" : "fails", s.inliers.size());
  sim::probe(ok ? "split" : "all_outliers");
}
void reject(Rng& r, bool faults) {
  Pair p;
  const double threshold = begin_pair(r, &p);
  const size_t n = r.chance(0.2) ? r.below(8) : static_cast<size_t>(r.range(6, 40));
  for (size_t i = 0; i < n; ++i) {
    p.a.push_back(direction(r));
    p.b.push_back(second(r, p.a.back(), threshold));
  }
  const bool fixed = r.chance(0.5);
  const size_t max_iterations = static_cast<size_t>(r.range(1, kMaxIterations));
  const Split s = split(p, threshold, max_iterations, fixed);
  if (s.close) return;
  const Eigen::Quaterniond q(p.R);
  std::unordered_set<int> inliers;
  bool ok = false;
  with_faults(faults, "rejecting outliers", [&] {
    inliers = {3, 1000};
    ok = aslam::geometric_vision::rejectOutlierFeatureMatchesTranslationRotationSAC(p.a, p.b, aslam::Quaternion(q.w(), q.x(), q.y(), q.z()), fixed, threshold, max_iterations, &inliers);
  });
  check_split(s, ok);
  if (inliers != s.inliers) sim::fail("C37", "inliers", "outlier rejection finds %zu inliers among %zu instead of %zu", inliers.size(), n, s.inliers.size());
}
aslam::VisualFrame::Ptr frame(const Camera::Ptr& c, const std::vector<Eigen::Vector2d>& k, const std::vector<int>& types) {
  aslam::VisualFrame::Ptr f(new aslam::VisualFrame);
  aslam::FrameId id;
  aslam::generateId(&id);
  f->setId(id);
  f->setCameraGeometry(c);
  f->setTimestampNanoseconds(5);
  const long n = static_cast<long>(k.size());
  Eigen::Matrix2Xd points(2, n);
  for (long i = 0; i < n; ++i) points.col(i) = k[static_cast<size_t>(i)];
  // First those of type 0, then those of type 1.
  const long first = std::count(types.begin(), types.end(), 0);
  f->setKeypointMeasurements(points.leftCols(first));
  const aslam::VisualFrame::DescriptorsT d = aslam::VisualFrame::DescriptorsT::Zero(4, first), more = aslam::VisualFrame::DescriptorsT::Zero(8, n - first);
  f->setDescriptors(d);
  if (first < n) {
    f->extendKeypointMeasurements(points.rightCols(n - first));
    f->extendDescriptors(more, 1);
  }
  return f;
}
void matches(Rng& r, bool faults) {
  Pair p;
  const double threshold = begin_pair(r, &p);
  const Camera::Ptr ca = random_camera(r), cb = random_camera(r);
  const int type = r.chance(0.4) ? 1 : 0;
  std::vector<Eigen::Vector2d> ka, kb, others_a, others_b;
  const size_t n = r.chance(0.2) ? r.below(8) : static_cast<size_t>(r.range(6, 30));
  for (size_t i = 0; i < n; ++i) {
    const Eigen::Vector2d k(number(r, 80, 560), number(r, 60, 420));
    V3 ray, b;
    ca->backProject3(k, &ray);
    b = second(r, ray.normalized(), threshold);
    Eigen::Vector2d l;
    if (!(b[2] > 0.3) || !cb->project3(b, &l).isKeypointVisible()) l = Eigen::Vector2d(number(r, 80, 560), number(r, 60, 420));
    ka.push_back(k);
    kb.push_back(l);
  }
  for (uint64_t i = type ? 1 + r.below(4) : r.below(4); i > 0; --i) {
    others_a.push_back(Eigen::Vector2d(number(r, 80, 560), number(r, 60, 420)));
    others_b.push_back(Eigen::Vector2d(number(r, 80, 560), number(r, 60, 420)));
  }
  // The second frame has them in another order, some features match several times.
  std::vector<int> order;
  for (size_t i = 0; i < n; ++i) order.push_back(static_cast<int>(i));
  for (size_t i = n; i > 1; --i) std::swap(order[i - 1], order[r.below(i)]);
  std::vector<Eigen::Vector2d> shuffled(n);
  for (size_t i = 0; i < n; ++i) shuffled[static_cast<size_t>(order[i])] = kb[i];
  aslam::FrameToFrameMatches m;
  for (size_t i = 0; i < n; ++i) {
    if (r.chance(0.1)) continue;
    m.emplace_back(static_cast<int>(i), order[i]);
    if (r.chance(0.05)) m.emplace_back(static_cast<int>(i), order[r.below(n)]);
  }
  for (size_t i = m.size(); i > 1; --i)
    if (r.chance(0.5)) std::swap(m[i - 1], m[r.below(i)]);
  for (const aslam::FrameToFrameMatch& x : m) {
    V3 u, v;
    ca->backProject3(ka[static_cast<size_t>(x.first)], &u);
    cb->backProject3(shuffled[static_cast<size_t>(x.second)], &v);
    p.a.push_back(u.normalized());
    p.b.push_back(v.normalized());
  }
  const auto join = [&](const std::vector<Eigen::Vector2d>& mine, const std::vector<Eigen::Vector2d>& others, std::vector<int>* types) {
    std::vector<Eigen::Vector2d> all = type ? others : mine;
    all.insert(all.end(), type ? mine.begin() : others.begin(), type ? mine.end() : others.end());
    types->assign(type ? others.size() : mine.size(), 0);
    types->resize(all.size(), 1);
    return all;
  };
  std::vector<int> ta, tb;
  const std::vector<Eigen::Vector2d> all_a = join(ka, others_a, &ta), all_b = join(shuffled, others_b, &tb);
  const aslam::VisualFrame::Ptr fa = frame(ca, all_a, ta), fb = frame(cb, all_b, tb);
  const bool fixed = r.chance(0.5);
  const size_t max_iterations = static_cast<size_t>(r.range(1, kMaxIterations));
  const Split s = split(p, threshold, max_iterations, fixed);
  if (s.close || n == 0) return;
  const Eigen::Quaterniond q(p.R);
  aslam::FrameToFrameMatches in, out;
  bool ok = false;
  with_faults(faults, "rejecting outlier matches", [&] {
    in.clear();
    out.clear();
    ok = aslam::geometric_vision::rejectOutlierFeatureMatchesTranslationRotationSAC(*fa, *fb, aslam::Quaternion(q.w(), q.x(), q.y(), q.z()), type, m, fixed, threshold, max_iterations, &in, &out);
  });
  check_split(s, ok);
  size_t i = 0, j = 0;
  for (size_t k = 0; k < m.size(); ++k) {
    const bool inlier = s.inliers.count(static_cast<int>(k)) != 0;
    const aslam::FrameToFrameMatches& list = inlier ? in : out;
    size_t& at = inlier ? i : j;
    if (at >= list.size() || list[at].first != m[k].first || list[at].second != m[k].second)
      sim::fail("C37", "matches", "match %zu of %zu (%d, %d) is not the %zu%s", k, m.size(), m[k].first, m[k].second, at + 1, inlier ? ". inlier" : ". outlier");
    ++at;
  }
  if (i != in.size() || j != out.size()) sim::fail("C37", "matches", "%zu inliers and %zu outliers of %zu matches", in.size(), out.size(), m.size());
  sim::probe("matches");
}

// Known finding: the pose from 3D features aborts.
void pose_3d(Rng& r, const Estimator& e, const Rig& rig) {
  const Transformation truth = random_pose(r, 10), before = random_pose(r, 3);
  const int n = static_cast<int>(r.chance(0.3) ? r.below(2) : r.range(7, 20));
  Eigen::Matrix3Xd seen(3, n), landmarks(3, n);
  std::vector<int> cameras(static_cast<size_t>(n), 0), inliers(2, 5);
  std::vector<double> d;
  int iterations = 0;
  for (int i = 0; i < n; ++i) {
    const V3 at = vec(r, 10);
    seen.col(i) = at;
    landmarks.col(i) = (truth * rig.T_C_B[0].inverse()).transform(at);
  }
  Transformation got = before;
  bool& on = C->mistake[sim::tid()];
  on = n >= 2;
  if (n >= 2) sim::probe("known_3d");
  const bool ok = e.e->absoluteMultiPoseRansac3DFeatures(seen, cameras, landmarks, 0.01, 20, 0.9, rig.ncamera, &got, &inliers, &d, &iterations);
  on = false;
  if (!ok) {
    if (!near(got, before)) sim::fail("C37", "failed-pose", "3D features: the pose changed although none was found");
    if (n > 6) sim::fail("C37", "success", "3D features: the pose estimation fails");
    return;
  }
  if (n < 3) sim::fail("C37", "success", "3D features: there is a pose for %d of them", n);
  if (!((got.getPosition() - truth.getPosition()).norm() < 1e-6 && (got.getRotationMatrix() - truth.getRotationMatrix()).norm() < 1e-6))
    sim::fail("C37", "pose", "3D features: the pose is wrong");
  sim::probe("pose_3d");
}
void mistake(Rng& r, const Estimator& e, const Rig& rig, int kind) {
  bool& on = C->mistake[sim::tid()];
  on = true;
  const Eigen::Matrix2Xd seen = Eigen::Matrix2Xd::Constant(2, 8, 200);
  const Eigen::Matrix3Xd few = Eigen::Matrix3Xd::Constant(3, 7, 1), all = Eigen::Matrix3Xd::Constant(3, 8, 1);
  const std::vector<int> cameras(8, 0), missing(7, 0);
  Transformation T;
  std::vector<int> inliers;
  std::vector<double> d;
  int it = 0;
  const BearingVectors a(8, V3(0, 0, 1)), b(r.chance(0.5) ? 7 : 9, V3(0, 0, 1));
  std::unordered_set<int> set;
  const aslam::Quaternion q;
  random_world(r, &world());
  set_truth(T);
  world().rotation.setIdentity();
  world().translation = V3(1, 0, 0);
  using aslam::geometric_vision::rejectOutlierFeatureMatchesTranslationRotationSAC;
  switch (kind % 12) {
    case 0: e.e->absolutePoseRansac(seen, few, 0.1, 10, rig.cameras[0], &T, &inliers, &it); break;
    case 1: e.e->absolutePoseRansacPinholeCam(seen, few, 0.1, 10, rig.cameras[0], &T, &inliers, &it); break;
    case 2: e.e->absoluteMultiPoseRansac(seen, cameras, few, 0.1, 10, rig.ncamera, &T, &inliers, &it); break;
    case 3: e.e->absoluteMultiPoseRansac(seen, missing, all, 0.1, 10, rig.ncamera, &T, &inliers, &d, &it); break;
    case 4: e.e->absoluteMultiPoseRansacPinholeCam(seen, missing, all, 0.1, 10, rig.ncamera, &T, &inliers, &d, &it); break;
    case 5: e.e->absoluteMultiPoseRansac(seen, std::vector<int>(8, static_cast<int>(rig.cameras.size())), all, 0.1, 10, rig.ncamera, &T, &inliers, &d, &it); break;
    case 6: rejectOutlierFeatureMatchesTranslationRotationSAC(a, b, q, true, 0.1, 10, &set); break;
    case 7: rejectOutlierFeatureMatchesTranslationRotationSAC(a, a, q, true, 0, 10, &set); break;
    case 8: rejectOutlierFeatureMatchesTranslationRotationSAC(a, a, q, true, 0.1, 0, &set); break;
    case 9: rejectOutlierFeatureMatchesTranslationRotationSAC(a, a, q, true, 0.1, 10, nullptr); break;
    case 10: e.e->absoluteMultiPoseRansac(seen, cameras, all, 0.1, 10, rig.ncamera, nullptr, &inliers, &d, &it); break;
    default: e.e->absolutePoseRansac(seen, all, 0.1, 10, rig.cameras[0], &T, nullptr, &it); break;
  }
  on = false;
  sim::fail("C37", "mistake-accepted", "an impossible request (%d) is not refused", kind % 12);
}

void run(const Plan& plan) {
  sim::set_default_props("C37");
  sim::set_stuck_props("C37");
  C = new Ctx;
  for (bool& x : C->mistake) x = false;
  sim::set_abort_callback(on_abort);
  {
    Rng r(static_cast<uint64_t>(plan.cfg[kSharedSeed]));
    make_estimator(r, &C->shared);
    make_rig(r, &C->rig);
  }
  const bool faults = plan.cfg[kAlloc] != 0;
  std::vector<std::thread> threads;
  for (int t = 0; t < plan.nthreads; ++t)
    threads.emplace_back([t, faults, &plan] {
      for (int i = 0; i < plan.th[t].n; ++i) {
        const Op& op = plan.th[t].ops[i];
        Rng r(static_cast<uint64_t>(op.a[0]));
        Estimator own;
        const Estimator* e = &C->shared;
        if (r.chance(0.5)) make_estimator(r, &own), e = &own;
        switch (op.code) {
          case kPose: rig_pose(r, *e, C->rig, true, faults); break;
          case kRigPose: rig_pose(r, *e, C->rig, false, faults); break;
          case kTarget: target_pose(r, faults); break;
          case kReject: reject(r, faults); break;
          case kMatches: matches(r, faults); break;
          case kPose3d: pose_3d(r, *e, C->rig); break;
          case kMistake: mistake(r, *e, C->rig, static_cast<int>(op.a[1])); break;
          default: break;
        }
      }
    });
  for (std::thread& t : threads) t.join();
}
void gen(Rng& r, Plan* p, sim::Env* env, bool thorough) {
  p->add_cfg(r.chance(0.3), 0);
  env->alloc_fail = p->cfg[kAlloc] != 0;
  p->add_cfg(static_cast<int64_t>(r.next() >> 1), 0);
  p->nthreads = static_cast<int>(r.chance(0.4) ? 1 : r.range(2, 3));
  const bool mistakes = r.chance(0.15);
  for (int t = 0; t < p->nthreads; ++t) {
    const int n = static_cast<int>(r.range(1, thorough ? 10 : 6));
    for (int i = 0; i < n; ++i) {
      const int64_t seed = static_cast<int64_t>(r.next() >> 1);
      const uint64_t w = r.below(24);
      if (w < 5) p->add(t, kPose, seed);
      else if (w < 11) p->add(t, kRigPose, seed);
      else if (w < 14) p->add(t, kTarget, seed);
      else if (w < 18) p->add(t, kReject, seed);
      else if (w < 23) p->add(t, kMatches, seed);
      else if (mistakes) p->add(t, r.chance(0.2) ? kPose3d : kMistake, seed, r.range(0, 11));
    }
  }
}
const sim::Harness h = {"geometric_vision", "C37", gen, run};
sim::Registrar reg(&h);
}  // namespace
