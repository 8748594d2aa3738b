// Simulated workloads for camera rigs that are copied, changed and asked.
//   C28 a rig keeps cameras, poses and ids together, whatever its history
#include <aslam/cameras/camera-3d-lidar.h>
#include <aslam/cameras/camera-pinhole.h>
#include <aslam/cameras/camera-unified-projection.h>
#include <aslam/cameras/distortion-equidistant.h>
#include <aslam/cameras/distortion-fisheye.h>
#include <aslam/cameras/distortion-null.h>
#include <aslam/cameras/distortion-radtan.h>
#include <aslam/cameras/ncamera.h>

#include <memory>
#include <new>
#include <set>
#include <string>
#include <thread>
#include <vector>

#include "simrt.h"

namespace {
using aslam::Camera;
using aslam::NCamera;
using sim::Op;
using sim::Plan;
using sim::Rng;

enum { kOwn = 3, kShared = 2, kMaxRig = 5 };
enum OpCode {
  kMake = 1,   // rig, seed
  kClone,      // rig, source, seed
  kNewIds,     // rig, source, seed
  kUndistort,  // rig, source
  kSetCamera,  // rig, seed, source of the camera or -1
  kPose,       // rig, seed
  kCovariance, // rig, seed
  kEdit,       // rig, seed: a camera of the rig changes
  kRename,     // rig, seed
  kCompare,    // rig, other, seed
  kRandom,     // rig
  kReload,     // rig, source
  kMistake,    // rig, seed, kind
};
enum Mistake { kPoseBeyond = 0, kCameraBeyond, kSetBeyond, kSetPoseBeyond, kNullCamera, kAbsentId, kFewPoses, kNullInList, kMistakes };
const char* const kMistakeName[] = {"the pose of a camera behind the last one", "a camera behind the last one",
                                    "setting a camera behind the last one", "setting a pose behind the last one",
                                    "setting no camera", "the pose of a camera that is not in the rig",
                                    "a rig with fewer poses than cameras", "a rig with a missing camera"};
enum CfgIdx { kAlloc = 0 };

double number(Rng& r, double lo, double hi) { return lo + (hi - lo) * static_cast<double>(r.below(1000000007)) / 1000000007.0; }
std::string text(Rng& r) {
  static const char* const k[] = {"", "/cam0/image_raw", "rig", "left", "two\nlines"};
  return k[r.below(5)];
}

// What a camera has to be.
struct Cam {
  Camera::Ptr real;
  std::string id, topic, description;
  int kind = 0, distortion = 0;
  Eigen::VectorXd parameters, coefficients;
  uint32_t w = 0, h = 0;
  uint64_t delay = 0;
  bool compressed = false;
  int mask = -1;  // the value of its pixels
};
typedef std::shared_ptr<Cam> CamPtr;
struct Rig {
  NCamera::Ptr real;
  std::string id, topic, description;
  std::vector<CamPtr> cam;
  std::vector<Eigen::Matrix4d> pose;  // of the body in the camera
  bool has_cov = false;
  aslam::TransformationCovariance cov;
};
struct Ctx {
  Rig own[sim::kMaxThreads][kOwn], shared[kShared];
  std::set<std::string> ids;  // all ids ever seen
  std::vector<aslam::CameraId> old[sim::kMaxThreads];  // of cameras of this thread
  bool mistake[sim::kMaxSimThreads];
};
Ctx* C = nullptr;

void on_abort() {
  if (C->mistake[sim::tid()]) sim::set_abort_ok(true);
}

int distortion_kind(const Camera& c) { return static_cast<int>(c.getDistortion().getType()); }
void read(const Camera::Ptr& real, int kind, Cam* c) {
  c->real = real;
  c->kind = kind;
  c->id = real->getId().hexString();
  c->topic = real->getTopic();
  c->description = real->getDescription();
  c->distortion = distortion_kind(*real);
  c->parameters = real->getParameters();
  c->coefficients = real->getDistortion().getParameters();
  c->w = real->imageWidth();
  c->h = real->imageHeight();
  c->delay = real->getLineDelayNanoSeconds();
  c->compressed = real->hasCompressedImages();
  c->mask = real->hasMask() ? real->getMask().at<uint8_t>(0, 0) : -1;
}

aslam::Distortion::UniquePtr distortion(Rng& r) {
  aslam::Distortion::UniquePtr d;
  Eigen::VectorXd p(4);
  for (int i = 0; i < 4; ++i) p[i] = number(r, -0.1, 0.1);
  switch (r.below(4)) {
    case 0: d.reset(new aslam::NullDistortion); break;
    case 1: d.reset(new aslam::EquidistantDistortion(p)); break;
    case 2: d.reset(new aslam::FisheyeDistortion(Eigen::VectorXd::Constant(1, number(r, 0.5, 1.4)))); break;
    default: d.reset(new aslam::RadTanDistortion(p)); break;
  }
  return d;
}
CamPtr camera(Rng& r, int me) {
  const uint32_t w = static_cast<uint32_t>(r.range(2, 40)), h = static_cast<uint32_t>(r.range(2, 40));
  aslam::Distortion::UniquePtr d = distortion(r);
  Camera::Ptr c;
  const int kind = static_cast<int>(r.below(3));
  Eigen::VectorXd p(4);
  p << number(r, 1, 2000), number(r, 1, 2000), number(r, 1, w), number(r, 1, h);
  switch (kind) {
    case 0: c.reset(new aslam::PinholeCamera(p, w, h, d)); break;
    case 1: {
      Eigen::VectorXd q(5);
      q << number(r, 0, 1.5), p;
      c.reset(new aslam::UnifiedProjectionCamera(q, w, h, d));
      break;
    }
    default:
      p << number(r, 1e-4, 0.1), number(r, 1e-4, 0.1), number(r, 0.1, 3), number(r, 0.1, 3);
      c.reset(new aslam::Camera3DLidar(p, w, h));
  }
  aslam::CameraId id;
  aslam::generateId(&id);
  c->setId(id);
  c->setTopic(text(r));
  c->setDescription(text(r));
  c->setLineDelayNanoSeconds(r.below(1000));
  c->setCompressedImages(r.chance(0.5));
  if (r.chance(0.2)) c->setMask(cv::Mat(static_cast<int>(h), static_cast<int>(w), CV_8UC1, cv::Scalar(r.range(0, 255))));
  CamPtr cam(new Cam);
  read(c, kind, cam.get());
  {
    sim::Quiet q;
    C->ids.insert(cam->id);
    C->old[me].push_back(id);
  }
  return cam;
}
aslam::Transformation pose(Rng& r) {
  Eigen::Vector4d q(number(r, -1, 1), number(r, -1, 1), number(r, -1, 1), number(r, -1, 1));
  if (q.norm() < 0.1) q = Eigen::Vector4d(1, 0, 0, 0);
  q.normalize();
  return aslam::Transformation(aslam::Quaternion(q[0], q[1], q[2], q[3]),
                               Eigen::Vector3d(number(r, -9, 9), number(r, -9, 9), number(r, -9, 9)));
}
aslam::TransformationCovariance covariance(Rng& r) {
  aslam::TransformationCovariance c;
  for (int i = 0; i < c.size(); ++i) c.data()[i] = number(r, -1, 1);
  return c;
}

void check_camera(const Camera& real, const Cam& c, const char* what) {
  Cam now;
  read(c.real, c.kind, &now);
  const char* d = nullptr;
  if (now.id != c.id) d = "id";
  else if (now.topic != c.topic || now.description != c.description) d = "topic or description";
  else if (now.parameters.size() != c.parameters.size() || now.parameters != c.parameters) d = "intrinsics";
  else if (now.distortion != c.distortion || now.coefficients.size() != c.coefficients.size() || now.coefficients != c.coefficients) d = "distortion";
  else if (now.w != c.w || now.h != c.h) d = "image size";
  else if (now.delay != c.delay || now.compressed != c.compressed) d = "line delay or compression";
  else if (now.mask != c.mask) d = "mask";
  if (d) sim::fail("C28", "camera-changed", "after %s a camera has another %s", what, d);
}

// The rig answers as it has to, by index and by id.
void check(int me, const Rig& rig, const char* what, double tolerance = 0.0) {
  const NCamera& n = *rig.real;
  if (n.getId().hexString() != rig.id) sim::fail("C28", "rig-id", "after %s the rig has another id", what);
  if (n.getTopic() != rig.topic || n.getDescription() != rig.description) sim::fail("C28", "rig-name", "after %s the rig has another topic or description", what);
  const size_t k = rig.cam.size();
  if (n.getNumCameras() != k || n.numCameras() != k || n.getCameraVector().size() != k || n.getTransformationVector().size() != k)
    sim::fail("C28", "count", "after %s a rig of %zu cameras has %zu cameras and %zu poses", what, k, n.getCameraVector().size(), n.getTransformationVector().size());
  for (size_t i = 0; i < k; ++i) {
    const Cam& c = *rig.cam[i];
    if (&n.getCamera(i) != c.real.get() || n.getCameraShared(i) != c.real || n.getCameraVector()[i] != c.real)
      sim::fail("C28", "wrong-camera", "after %s index %zu is another camera", what, i);
    check_camera(n.getCamera(i), c, what);
    const aslam::CameraId& id = c.real->getId();
    if (n.getCameraId(i) != id) sim::fail("C28", "wrong-id", "after %s index %zu has the id of another camera", what, i);
    if (!n.hasCameraWithId(id)) sim::fail("C28", "lookup", "after %s the rig does not find its camera %zu by id", what, i);
    if (n.getCameraIndex(id) != static_cast<int>(i))
      sim::fail("C28", "lookup", "after %s the rig finds camera %zu at index %d", what, i, n.getCameraIndex(id));
    const Eigen::Matrix4d m = n.get_T_C_B(i).getTransformationMatrix();
    if ((m - rig.pose[i]).cwiseAbs().maxCoeff() > tolerance) sim::fail("C28", "wrong-pose", "after %s camera %zu has another pose", what, i);
    if (&n.get_T_C_B(id) != &n.get_T_C_B(i)) sim::fail("C28", "wrong-pose", "after %s the pose of camera %zu differs by id and by index", what, i);
  }
  for (const aslam::CameraId& id : C->old[me]) {
    bool in = false;
    for (const CamPtr& c : rig.cam) in |= c->real->getId() == id;
    if (in) continue;
    if (n.hasCameraWithId(id) || n.getCameraIndex(id) != -1)
      sim::fail("C28", "phantom", "after %s the rig finds a camera that it does not hold, at index %d", what, n.getCameraIndex(id));
  }
  aslam::TransformationCovariance cov;
  if (n.has_T_G_B_fixed_localization_covariance() != rig.has_cov || n.get_T_G_B_fixed_localization_covariance(&cov) != rig.has_cov)
    sim::fail("C28", "covariance", "after %s the rig %s a localization covariance", what, rig.has_cov ? "has lost" : "has got");
  if (rig.has_cov && cov != rig.cov) sim::fail("C28", "covariance", "after %s the rig has another localization covariance", what);
  if (!n.isValid()) sim::fail("C28", "invalid", "after %s the rig is not valid", what);
}

void make(Rng& r, int me, Rig* rig) {
  *rig = Rig();
  std::vector<Camera::Ptr> cameras;
  aslam::TransformationVector poses;
  const int n = static_cast<int>(r.range(1, kMaxRig));
  for (int i = 0; i < n; ++i) {
    rig->cam.push_back(camera(r, me));
    cameras.push_back(rig->cam.back()->real);
    poses.push_back(pose(r));
    rig->pose.push_back(poses.back().getTransformationMatrix());
  }
  aslam::NCameraId id;
  aslam::generateId(&id);
  rig->id = id.hexString();
  rig->description = text(r);
  rig->topic = text(r);
  rig->has_cov = r.chance(0.4);
  if (rig->has_cov) {
    rig->cov = covariance(r);
    rig->real.reset(new NCamera(id, poses, rig->cov, cameras, rig->description));
  } else {
    rig->real.reset(new NCamera(id, poses, cameras, rig->description));
  }
  rig->real->setTopic(rig->topic);
  sim::Quiet q;
  C->ids.insert(rig->id);
}

// What a copy has to be, with the cameras it made for itself.
Rig copy_of(int me, const Rig& from, const NCamera::Ptr& real, const char* what) {
  Rig rig = from;
  rig.real = real;
  if (real->numCameras() != from.cam.size()) sim::fail("C28", "count", "%s gave %zu cameras of %zu", what, real->numCameras(), from.cam.size());
  for (size_t i = 0; i < rig.cam.size(); ++i) {
    CamPtr c(new Cam(*from.cam[i]));
    c->real = real->getCameraShared(i);
    if (!c->real) sim::fail("C28", "wrong-camera", "%s gave no camera %zu", what, i);
    for (const CamPtr& o : from.cam)
      if (o->real == c->real) sim::fail("C28", "shared-camera", "%s shares a camera with the original", what);
    rig.cam[i] = c;
  }
  return rig;
}
// The ids of a copy that has to have ids of its own.
void renew(int me, Rig* rig, const char* what) {
  sim::Quiet q;
  auto take = [&](const std::string& id, bool valid, std::string* kept) {
    if (!valid) sim::fail("C28", "invalid-id", "%s gave an invalid id", what);
    if (!C->ids.insert(id).second) sim::fail("C28", "id-reused", "%s gave an id that another rig or camera has", what);
    *kept = id;
  };
  take(rig->real->getId().hexString(), rig->real->getId().isValid(), &rig->id);
  for (const CamPtr& c : rig->cam) {
    take(c->real->getId().hexString(), c->real->getId().isValid(), &c->id);
    C->old[me].push_back(c->real->getId());
  }
}

void clone(Rng& r, int me, Rig* to, const Rig& from) {
  NCamera::Ptr real;
  const uint64_t how = r.below(4);
  try {
    sim::AllocFaultScope s;
    sim::label("clone");
    switch (how) {
      case 0: real.reset(from.real->clone()); break;
      case 1: real = from.real->cloneToShared(); break;
      case 2: real = std::dynamic_pointer_cast<NCamera>(from.real->cloneAsSensor()); break;
      default: real.reset(new NCamera(*from.real)); break;
    }
    sim::label("");
  } catch (const std::bad_alloc&) {
    sim::label("");
    sim::probe("allocation_failed");
  } catch (const cv::Exception&) {  // how OpenCV reports it
    sim::label("");
    sim::probe("allocation_failed");
  }
  if (real) {
    Rig rig = copy_of(me, from, real, "a clone");
    check(me, rig, "cloning");
    if (!(*real == *from.real)) sim::fail("C28", "unequal", "a clone does not equal its original");
    *to = rig;
    sim::probe("cloned");
  }
}
void new_ids(int me, Rig* to, const Rig& from) {
  NCamera::Ptr real(from.real->cloneWithNewIds());
  Rig rig = copy_of(me, from, real, "a clone with new ids");
  renew(me, &rig, "a clone with new ids");
  check(me, rig, "cloning with new ids");
  *to = rig;
  sim::probe("cloned_with_new_ids");
}
void undistort(int me, Rig* to, const Rig& from) {
  NCamera::Ptr real = from.real->cloneRigWithoutDistortion();
  Rig rig = copy_of(me, from, real, "a clone without distortion");
  for (const CamPtr& c : rig.cam) {
    c->distortion = static_cast<int>(aslam::Distortion::Type::kNoDistortion);
    c->coefficients = aslam::NullDistortion().getParameters();
  }
  renew(me, &rig, "a clone without distortion");
  check(me, rig, "cloning without distortion");
  *to = rig;
  sim::probe("cloned_without_distortion");
}
void set_camera(Rng& r, int me, Rig* rig, const Rig* source) {
  CamPtr c;
  if (source && source->real) {
    c = source->cam[r.below(source->cam.size())];
    for (const CamPtr& o : rig->cam)
      if (o->real->getId() == c->real->getId() && !(o == c)) return;  // ids in a rig have to differ
  } else {
    c = camera(r, me);
  }
  size_t i = r.below(rig->cam.size());
  for (size_t k = 0; k < rig->cam.size(); ++k)
    if (rig->cam[k] == c) i = k;  // the camera that is there anyway
  rig->real->setCamera(i, c->real);
  rig->cam[i] = c;
  check(me, *rig, "replacing a camera");
  sim::probe(source ? "camera_of_another_rig" : "camera_replaced");
}
void set_pose(Rng& r, int me, Rig* rig) {
  const size_t i = r.below(rig->cam.size());
  const aslam::Transformation t = pose(r);
  switch (r.below(3)) {
    case 0: rig->real->set_T_C_B(i, t); break;
    case 1: rig->real->get_T_C_B_Mutable(i) = t; break;
    default: rig->real->get_T_C_B_Mutable(rig->cam[i]->real->getId()) = t; break;
  }
  rig->pose[i] = t.getTransformationMatrix();
  check(me, *rig, "setting a pose");
}
void edit(Rng& r, int me, Rig* rig) {
  const size_t i = r.below(rig->cam.size());
  Camera* c = r.chance(0.5) ? &rig->real->getCameraMutable(i) : rig->real->getCameraShared(i).get();
  Cam* m = rig->cam[i].get();
  switch (r.below(5)) {
    case 0:
      c->setLineDelayNanoSeconds(m->delay + 1);
      ++m->delay;
      break;
    case 1:
      c->setCompressedImages(!m->compressed);
      m->compressed = !m->compressed;
      break;
    case 2:
      c->getParametersMutable()[1] += 0.25;
      m->parameters[1] += 0.25;
      break;
    case 3: {
      if (m->kind == 2) break;
      aslam::Distortion::UniquePtr d = distortion(r);
      m->distortion = static_cast<int>(d->getType());
      m->coefficients = d->getParameters();
      c->setDistortion(d);
      break;
    }
    default:
      if (m->mask >= 0 && r.chance(0.5)) {
        c->clearMask();
        m->mask = -1;
      } else {
        m->mask = static_cast<int>(r.range(0, 255));
        c->setMask(cv::Mat(static_cast<int>(m->h), static_cast<int>(m->w), CV_8UC1, cv::Scalar(m->mask)));
      }
  }
  check(me, *rig, "changing a camera");
  sim::probe("camera_changed");
}

// Masks take no part in the comparison.
bool same(const Rig& a, const Rig& b, std::string* what) {
  *what = "";
  if (a.id != b.id) *what = "id";
  else if (a.topic != b.topic || a.description != b.description) *what = "topic or description";
  else if (a.cam.size() != b.cam.size()) *what = "number of cameras";
  else if (a.has_cov != b.has_cov || (a.has_cov && a.cov != b.cov)) *what = "localization covariance";
  else
    for (size_t i = 0; i < a.cam.size(); ++i) {
      const Cam &p = *a.cam[i], &q = *b.cam[i];
      if (p.id != q.id) *what = "id of a camera";
      else if (p.topic != q.topic || p.description != q.description) *what = "topic or description of a camera";
      else if (p.kind != q.kind) *what = "kind of a camera";
      else if (p.parameters != q.parameters) *what = "intrinsics of a camera";
      else if (p.distortion != q.distortion || p.coefficients != q.coefficients) *what = "distortion of a camera";
      else if (p.w != q.w || p.h != q.h || p.delay != q.delay || p.compressed != q.compressed) *what = "image format or line delay of a camera";
      else if ((a.pose[i] - b.pose[i]).cwiseAbs().maxCoeff() > 1e-8) *what = "pose of a camera";
    }
  return what->empty();
}
void compare(const Rig& a, const Rig& b) {
  std::string what;
  const bool want = same(a, b, &what);
  for (int k = 0; k < 2; ++k) {
    const NCamera &p = k ? *b.real : *a.real, &q = k ? *a.real : *b.real;
    if ((p == q) != want || (p != q) == want || p.isEqual(q, false) != want) {
      if (want) sim::fail("C28", "unequal", "two equal rigs compare as different");
      sim::fail("C28", "equal", "two rigs with another %s compare as equal", what.c_str());
    }
  }
  sim::probe(want ? "equal" : "different");
}
// A copy that differs in one thing compares as different.
void compare_changed(Rng& r, int me, const Rig& from) {
  NCamera::Ptr real(from.real->clone());
  Rig rig = copy_of(me, from, real, "a clone");
  const size_t i = r.below(rig.cam.size());
  switch (r.below(6)) {
    case 0: {
      const double d = (r.chance(0.5) ? 1 : -1) * (r.chance(0.5) ? 1e-5 : 1.0);
      Eigen::Vector3d p = real->get_T_C_B(i).getPosition();
      p[static_cast<int>(r.below(3))] += d;
      real->set_T_C_B(i, aslam::Transformation(real->get_T_C_B(i).getRotation(), p));
      rig.pose[i] = real->get_T_C_B(i).getTransformationMatrix();
      break;
    }
    case 1: {
      const int e = static_cast<int>(r.below(36));
      if (!rig.has_cov || r.chance(0.3)) rig.cov = covariance(r);
      else rig.cov.data()[e] += 0.5;
      rig.has_cov = true;
      real->set_T_G_B_fixed_localization_covariance(rig.cov);
      break;
    }
    case 2:
      rig.topic += "x";
      real->setTopic(rig.topic);
      break;
    case 3: {
      Cam* c = rig.cam[i].get();
      c->real->getParametersMutable()[c->parameters.size() - 1] += 0.25;
      c->parameters[c->parameters.size() - 1] += 0.25;
      break;
    }
    case 4: {
      Cam* c = rig.cam[i].get();
      if (c->kind == 2) break;
      aslam::Distortion::UniquePtr d = distortion(r);
      c->distortion = static_cast<int>(d->getType());
      c->coefficients = d->getParameters();
      c->real->setDistortion(d);
      break;
    }
    default:
      rig.cam[i]->real->setCompressedImages(!rig.cam[i]->compressed);
      rig.cam[i]->compressed = !rig.cam[i]->compressed;
  }
  compare(from, rig);
}

void random_rig(int me, Rig* rig) {
  rig->real->setRandom();
  const NCamera& n = *rig->real;
  if (n.numCameras() < 1 || n.numCameras() != n.getTransformationVector().size())
    sim::fail("C28", "count", "a random rig has %zu cameras and %zu poses", n.numCameras(), n.getTransformationVector().size());
  Rig now = *rig;
  now.cam.clear();
  now.pose.clear();
  for (size_t i = 0; i < n.numCameras(); ++i) {
    CamPtr c(new Cam);
    read(rig->real->getCameraShared(i), n.getCamera(i).getType() == Camera::Type::kPinhole ? 0 : 1, c.get());
    now.cam.push_back(c);
    now.pose.push_back(n.get_T_C_B(i).getTransformationMatrix());
  }
  now.real = rig->real;
  renew(me, &now, "a random rig");
  *rig = now;
  check(me, *rig, "drawing a random rig");
  sim::probe("random");
}

void reload(int me, Rig* to, const Rig& from, bool other_direction) {
  if (!to->real || to->real == from.real) return;
  for (const CamPtr& c : from.cam)
    if (c->mask >= 0) return;  // masks are not part of a calibration
  YAML::Node n;
  from.real->serialize(&n);
  if (other_direction)  // poses may be written in either direction
    for (size_t i = 0; i < from.cam.size(); ++i) {
      YAML::Node c = n["cameras"][i];
      c.remove("T_B_C");
      c["T_C_B"] = from.pose[i];
    }
  if (!to->real->deserialize(n)) sim::fail("C28", "reload", "a rig does not load what another one wrote");
  Rig rig = copy_of(me, from, to->real, "a loaded rig");
  check(me, rig, "loading", 1e-9);
  for (size_t i = 0; i < rig.pose.size(); ++i) rig.pose[i] = rig.real->get_T_C_B(i).getTransformationMatrix();
  *to = rig;
  sim::probe("loaded");
}

void mistake(Rng& r, int me, Rig* rig, int kind) {
  const size_t n = rig->cam.size(), beyond = n + r.below(3);
  C->mistake[sim::tid()] = true;
  switch (kind) {
    case kPoseBeyond: rig->real->get_T_C_B(beyond); break;
    case kCameraBeyond: rig->real->getCamera(beyond); break;
    case kSetBeyond: rig->real->setCamera(beyond, camera(r, me)->real); break;
    case kSetPoseBeyond: rig->real->set_T_C_B(beyond, pose(r)); break;
    case kNullCamera: rig->real->setCamera(r.below(n), nullptr); break;
    case kAbsentId: {
      aslam::CameraId id;
      aslam::generateId(&id);
      if (r.chance(0.5)) rig->real->get_T_C_B(id);
      else rig->real->get_T_C_B_Mutable(id);
      break;
    }
    case kFewPoses:
    default: {
      std::vector<Camera::Ptr> cameras;
      aslam::TransformationVector poses;
      for (const CamPtr& c : rig->cam) {
        cameras.push_back(c->real);
        poses.push_back(pose(r));
      }
      if (kind == kFewPoses) poses.pop_back();
      else cameras[r.below(n)] = nullptr;
      aslam::NCameraId id;
      aslam::generateId(&id);
      NCamera bad(id, poses, cameras, "");
    }
  }
  C->mistake[sim::tid()] = false;
  sim::fail("C28", "accepted", "%s was accepted", kMistakeName[kind]);
}

const Rig& source(int me, int64_t which) {
  which %= kOwn + kShared;
  return which < kOwn ? C->own[me][which] : C->shared[which - kOwn];
}

void body(int me, const sim::PlanThread& ops) {
  Rng start(static_cast<uint64_t>(me) + 77);
  make(start, me, &C->own[me][0]);
  for (int i = 0; i < ops.n; ++i) {
    const Op& op = ops.ops[i];
    Rig* rig = &C->own[me][op.a[0] % kOwn];
    Rng r(static_cast<uint64_t>(op.a[1]));
    if (op.code == kMake) {
      make(r, me, rig);
      check(me, *rig, "building");
      continue;
    }
    const Rig& other = source(me, op.a[2]);
    const bool makes = op.code == kClone || op.code == kNewIds || op.code == kUndistort;
    if (makes && !other.real) continue;
    if (!makes && !rig->real) continue;
    switch (op.code) {
      case kClone: clone(r, me, rig, other); break;
      case kNewIds: new_ids(me, rig, other); break;
      case kUndistort: undistort(me, rig, other); break;
      case kSetCamera: set_camera(r, me, rig, op.a[3] % 2 && op.a[2] % (kOwn + kShared) < kOwn ? &other : nullptr); break;
      case kPose: set_pose(r, me, rig); break;
      case kCovariance:
        rig->cov = covariance(r);
        rig->has_cov = true;
        rig->real->set_T_G_B_fixed_localization_covariance(rig->cov);
        break;
      case kEdit: edit(r, me, rig); break;
      case kRename:
        rig->topic = text(r);
        rig->description = text(r);
        rig->real->setTopic(rig->topic);
        rig->real->setDescription(rig->description);
        break;
      case kCompare:
        if (other.real && op.a[3] % 2) compare(*rig, other);
        else compare_changed(r, me, *rig);
        break;
      case kRandom: random_rig(me, rig); break;
      case kReload:
        if (other.real) reload(me, rig, other, op.a[3] % 2);
        break;
      case kMistake: mistake(r, me, rig, static_cast<int>(op.a[3]) % kMistakes); break;
    }
    // No rig changes but the one that was meant.
    for (const Rig& o : C->own[me])
      if (o.real) check(me, o, "an operation on some rig");
  }
}

void run(const Plan& plan) {
  sim::set_default_props("C28");
  sim::set_stuck_props("C28");
  C = new Ctx;
  for (bool& x : C->mistake) x = false;
  sim::set_abort_callback(on_abort);
  Rng r(4711);
  for (Rig& s : C->shared) make(r, sim::kMaxThreads - 1, &s);
  std::vector<std::thread> threads;
  for (int t = 0; t < plan.nthreads; ++t) threads.emplace_back([t, &plan] { body(t, plan.th[t]); });
  for (std::thread& t : threads) t.join();
  for (const Rig& s : C->shared) check(sim::kMaxThreads - 1, s, "being read by several threads");
}

void gen(Rng& r, Plan* p, sim::Env* env, bool thorough) {
  p->add_cfg(r.chance(0.15), 0);
  env->alloc_fail = p->cfg[kAlloc] != 0;
  p->nthreads = static_cast<int>(r.chance(0.4) ? 1 : r.range(2, 3));
  const bool mistakes = r.chance(0.15);
  for (int t = 0; t < p->nthreads; ++t) {
    const int n = static_cast<int>(r.range(2, thorough ? 14 : 9));
    for (int i = 0; i < n; ++i) {
      static const int k[] = {kMake, kClone, kClone, kNewIds, kNewIds, kUndistort, kUndistort, kSetCamera, kSetCamera, kSetCamera, kPose, kPose,
                              kCovariance, kEdit, kEdit, kEdit, kRename, kCompare, kCompare, kCompare, kReload, kReload, kRandom};
      int code = k[r.below(sizeof(k) / sizeof(*k))];
      if (mistakes && i == n - 1) code = kMistake;
      p->add(t, code, static_cast<int64_t>(r.below(kOwn)), static_cast<int64_t>(r.next() >> 1), static_cast<int64_t>(r.below(kOwn + kShared)),
             static_cast<int64_t>(r.below(1000)));
    }
  }
}
const sim::Harness h = {"rig_calls", "C28", gen, run};
sim::Registrar reg(&h);
}  // namespace
