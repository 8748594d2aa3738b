// Simulated workloads for calibration files: cameras and camera rigs kept on a
// failing disk.
//   C24 a calibration that was saved comes back as the same calibration,
//       whatever the object it is loaded into held before
#include <aslam/cameras/camera-3d-lidar.h>
#include <aslam/cameras/camera-factory.h>
#include <aslam/cameras/camera-pinhole.h>
#include <aslam/cameras/camera-unified-projection.h>
#include <aslam/cameras/distortion-equidistant.h>
#include <aslam/cameras/distortion-fisheye.h>
#include <aslam/cameras/distortion-null.h>
#include <aslam/cameras/distortion-radtan.h>
#include <aslam/cameras/ncamera.h>
#include <aslam/common/yaml-serialization.h>

#include <memory>
#include <string>
#include <thread>
#include <vector>

#include "simrt.h"

namespace {
using aslam::Camera;
using aslam::Distortion;
using aslam::NCamera;
using sim::Op;
using sim::Plan;
using sim::Rng;

enum OpCode {
  kSave = 1,   // file, value seed, type
  kLoad,       // file, seed of the object loaded into, type
  kLoadOther,  // file, other type, type
  kDelete,
  kCrash,      // file, kept permille
  kPut,        // file, value seed, type: a hand-written file
  kEdit,       // file, value seed, type: change the kept object, save it
};
enum CfgIdx { kMode = 0, kDisk = 1 };
enum { kPinhole = 0, kUnified, kLidar, kRig, kTypes, kFilesPerThread = 2, kMaxRig = 4 };
const char* const kNames[] = {"pinhole camera", "unified projection camera", "lidar camera", "camera rig"};

double number(Rng& r, double lo, double hi) {
  return lo + (hi - lo) * static_cast<double>(r.below(1000000007)) / 1000000007.0;
}
std::string text(Rng& r) {
  static const char* const k[] = {"", "/cam0/image_raw", "left: \"camera\"", "# no comment", "two\nlines", "0x1f", "no", "~", "'"};
  return k[r.below(sizeof(k) / sizeof(*k))];
}

Distortion::UniquePtr distortion(Rng& r) {
  Distortion::UniquePtr d;
  Eigen::VectorXd p(4);
  for (int i = 0; i < 4; ++i) p[i] = number(r, -0.1, 0.1);
  switch (r.below(4)) {
    case 0: d.reset(new aslam::NullDistortion); break;
    case 1: d.reset(new aslam::EquidistantDistortion(p)); break;
    case 2: d.reset(new aslam::FisheyeDistortion(Eigen::VectorXd::Constant(1, r.chance(0.1) ? 0.0 : number(r, 0.5, 1.4)))); break;
    default: d.reset(new aslam::RadTanDistortion(p)); break;
  }
  return d;
}
void settle(Rng& r, Camera* c) {
  aslam::SensorId id;
  aslam::generateId(&id);
  c->setId(id);
  c->setTopic(text(r));
  c->setDescription(text(r));
  if (r.chance(0.6)) c->setLineDelayNanoSeconds(r.chance(0.2) ? r.next() >> 2 : r.below(100000));
  c->setCompressedImages(r.chance(0.5));
}
Camera::Ptr camera(Rng& r, int type) {
  Camera::Ptr c;
  const uint32_t w = static_cast<uint32_t>(r.range(1, 4000)), h = static_cast<uint32_t>(r.range(1, 4000));
  Distortion::UniquePtr d = distortion(r);
  Eigen::VectorXd p;
  switch (type) {
    case kPinhole:
      p = Eigen::Vector4d(number(r, 1, 2000), number(r, 1, 2000), number(r, 1, w), number(r, 1, h));
      if (r.chance(0.2)) c.reset(new aslam::PinholeCamera(p, w, h));
      else c.reset(new aslam::PinholeCamera(p, w, h, d));
      break;
    case kUnified:
      p.resize(5);
      p << number(r, 0, 1.5), number(r, 1, 2000), number(r, 1, 2000), number(r, 1, w), number(r, 1, h);
      if (r.chance(0.2)) c.reset(new aslam::UnifiedProjectionCamera(p, w, h));
      else c.reset(new aslam::UnifiedProjectionCamera(p, w, h, d));
      break;
    default:
      p = Eigen::Vector4d(number(r, 1e-4, 0.1), number(r, 1e-4, 0.1), number(r, 0.1, 3), number(r, 0.1, 3));
      c.reset(new aslam::Camera3DLidar(p, w, h));
      break;
  }
  settle(r, c.get());
  return c;
}
Camera::Ptr empty(int type) {
  switch (type) {
    case kPinhole: return Camera::Ptr(new aslam::PinholeCamera);
    case kUnified: return Camera::Ptr(new aslam::UnifiedProjectionCamera);
    default: return Camera::Ptr(new aslam::Camera3DLidar);
  }
}
aslam::Transformation pose(Rng& r) {
  Eigen::Vector4d q(number(r, -1, 1), number(r, -1, 1), number(r, -1, 1), number(r, -1, 1));
  if (q.norm() < 0.1) q = Eigen::Vector4d(1, 0, 0, 0);
  q.normalize();
  return aslam::Transformation(aslam::Quaternion(q[0], q[1], q[2], q[3]),
                               Eigen::Vector3d(number(r, -9, 9), number(r, -9, 9), number(r, -9, 9)));
}
NCamera::Ptr rig(Rng& r) {
  std::vector<Camera::Ptr> cameras;
  aslam::TransformationVector poses;
  const int n = static_cast<int>(r.range(1, kMaxRig));
  for (int i = 0; i < n; ++i) {
    cameras.push_back(camera(r, static_cast<int>(r.below(3))));
    poses.push_back(pose(r));
  }
  aslam::NCameraId id;
  aslam::generateId(&id);
  NCamera::Ptr rig;
  if (r.chance(0.4)) {
    aslam::TransformationCovariance cov;
    for (int i = 0; i < cov.size(); ++i) cov.data()[i] = number(r, -1, 1);
    rig.reset(new NCamera(id, poses, cov, cameras, text(r)));
  } else {
    rig.reset(new NCamera(id, poses, cameras, text(r)));
  }
  rig->setTopic(text(r));
  return rig;
}

// What is different, or nothing.
std::string different(const aslam::Sensor& a, const aslam::Sensor& b) {
  if (a.getId() != b.getId()) return "id";
  if (a.getTopic() != b.getTopic()) return "topic";
  if (a.getDescription() != b.getDescription()) return "description";
  if (a.getSensorType() != b.getSensorType()) return "kind of sensor";
  return "";
}
std::string different(const Camera& a, const Camera& b) {
  const std::string s = different(static_cast<const aslam::Sensor&>(a), static_cast<const aslam::Sensor&>(b));
  if (!s.empty()) return s;
  if (typeid(a) != typeid(b)) return "class of camera";
  if (a.getType() != b.getType()) return "camera type";
  if (a.imageWidth() != b.imageWidth() || a.imageHeight() != b.imageHeight()) return "image size";
  if (a.getLineDelayNanoSeconds() != b.getLineDelayNanoSeconds()) return "line delay";
  if (a.hasCompressedImages() != b.hasCompressedImages()) return "compression";
  if (a.getParameters().size() != b.getParameters().size() || a.getParameters() != b.getParameters()) return "intrinsics";
  if (a.getDistortion().getType() != b.getDistortion().getType()) return "distortion type";
  const Eigen::VectorXd& p = a.getDistortion().getParameters();
  const Eigen::VectorXd& q = b.getDistortion().getParameters();
  if (p.size() != q.size() || p != q) return "distortion parameters";
  // Points appear where they did before.
  static const double k[][3] = {{0.1, 0.2, 1}, {-0.3, 0.1, 2}, {0, 0, 0.5}, {1, -1, 3}};
  for (const double* x : k) {
    Eigen::Vector2d u = Eigen::Vector2d::Zero(), v = Eigen::Vector2d::Zero();
    const bool ru = a.project3(Eigen::Vector3d(x[0], x[1], x[2]), &u).isKeypointVisible();
    const bool rv = b.project3(Eigen::Vector3d(x[0], x[1], x[2]), &v).isKeypointVisible();
    if (ru != rv || (ru && u != v)) return "projection";
  }
  return "";
}
std::string different(const NCamera& a, const NCamera& b) {
  const std::string s = different(static_cast<const aslam::Sensor&>(a), static_cast<const aslam::Sensor&>(b));
  if (!s.empty()) return s;
  if (a.numCameras() != b.numCameras()) return "number of cameras";
  if (b.getCameraVector().size() != b.getTransformationVector().size()) return "number of poses";
  for (size_t i = 0; i < a.numCameras(); ++i) {
    const std::string c = different(a.getCamera(i), b.getCamera(i));
    if (!c.empty()) return c + " of a camera";
    if ((a.get_T_C_B(i).getTransformationMatrix() - b.get_T_C_B(i).getTransformationMatrix()).cwiseAbs().maxCoeff() > 1e-9)
      return "pose of a camera";
    const aslam::CameraId& id = a.getCameraId(i);
    if (!b.hasCameraWithId(id) || b.getCameraIndex(id) != static_cast<int>(i)) return "camera index of an id";
    if (&b.get_T_C_B(id) != &b.get_T_C_B(i)) return "pose of an id";
  }
  aslam::TransformationCovariance p, q;
  if (a.get_T_G_B_fixed_localization_covariance(&p) != b.get_T_G_B_fixed_localization_covariance(&q))
    return "presence of the localization covariance";
  if (a.has_T_G_B_fixed_localization_covariance() && p != q) return "localization covariance";
  return "";
}

struct Ctx {
  bool saving[sim::kMaxSimThreads];
  bool partial[sim::kMaxSimThreads];  // loading what a failed save or a crash left behind
};
Ctx* C = nullptr;

void on_abort() {
  if (C->partial[sim::tid()]) sim::set_abort_ok(true);
  if (C->saving[sim::tid()] && sim::disk::open_errors() + sim::disk::write_errors() > 0) sim::set_abort_ok(true);
}
std::string content(const std::string& path) {
  sim::Quiet q;
  std::string s;
  const int64_t n = sim::disk::size(path.c_str());
  if (n > 0) s.assign(reinterpret_cast<const char*>(sim::disk::data(path.c_str())), static_cast<size_t>(n));
  return s;
}

// One file that keeps calibrations of one type.
struct File {
  std::string path;
  int type = 0;
  bool exists = false;  // some version is there
  bool known = false;   // and it is the calibration last saved
  bool has_id = true;   // else each load makes up an id
  Camera::Ptr cam;
  NCamera::Ptr ncam;

  std::string compare(const Camera& o) const { return different(*cam, o); }
  aslam::Sensor* value() const { return type == kRig ? static_cast<aslam::Sensor*>(ncam.get()) : cam.get(); }

  void make(Rng& r) {
    if (type == kRig) ncam = rig(r);
    else cam = camera(r, type);
  }
  // Loads into `target`; returns what is different from the kept value.
  bool read(aslam::Sensor* target, bool from_file) {
    if (from_file) return target->deserializeFromFile(path);
    return target->deserialize(YAML::Load(content(path)));
  }
  void write(bool through_disk) {
    if (through_disk) {
      const int e = sim::disk::open_errors() + sim::disk::write_errors();
      C->saving[sim::tid()] = true;
      value()->serializeToFile(path);
      C->saving[sim::tid()] = false;
      exists = known = has_id = true;
      std::string what;
      try {
        aslam::Sensor* back = type == kRig ? static_cast<aslam::Sensor*>(new NCamera) : nullptr;
        Camera::Ptr c = type == kRig ? nullptr : empty(type);
        NCamera::Ptr n(static_cast<NCamera*>(back));
        if (!read(type == kRig ? back : c.get(), false)) what = "it cannot be parsed";
        else what = type == kRig ? different(*ncam, *n) : different(*cam, *c);
      } catch (const std::exception&) {
        what = "it is no YAML";
      }
      if (!what.empty())
        sim::fail("C24", "incomplete-save", "saving a %s reported success, but the file does not hold it: %s (the disk reported %d errors)",
                  kNames[type], what.c_str(), sim::disk::open_errors() + sim::disk::write_errors() - e);
      sim::probe("saved");
    }
  }
  // A file as a person writes it: optional parts are left out.
  void put(Rng& r) {
    YAML::Node n;
    if (type == kRig) {
      for (size_t i = 0; i < ncam->numCameras(); ++i) {
        Camera* c = ncam->getCameraShared(i).get();
        if (r.chance(0.5)) c->setLineDelayNanoSeconds(0);
        if (r.chance(0.5)) c->setCompressedImages(false);
        unname(r, c);
      }
      unname(r, ncam.get());
      ncam->serialize(&n);
      for (size_t i = 0; i < ncam->numCameras(); ++i) {
        YAML::Node c = n["cameras"][i];
        prune(r, ncam->getCamera(i), c["camera"]);
        if (r.chance(0.6)) {
          c.remove("T_B_C");
          c["T_C_B"] = ncam->get_T_C_B(i).getTransformationMatrix();
        }
      }
    } else {
      if (r.chance(0.5)) cam->setLineDelayNanoSeconds(0);
      if (r.chance(0.5)) cam->setCompressedImages(false);
      unname(r, cam.get());
      cam->serialize(&n);
      prune(r, *cam, n);
    }
    drop_names(r, *value(), n);
    has_id = !r.chance(0.15);
    if (!has_id) n.remove("id");
    const std::string s = YAML::Dump(n);
    {
      sim::Quiet q;
      sim::disk::put(path.c_str(), s.data(), s.size());
    }
    exists = known = true;
    sim::probe("hand_written");
  }
  void unname(Rng& r, aslam::Sensor* s) {
    if (r.chance(0.5)) s->setTopic("");
    if (r.chance(0.5)) s->setDescription("");
  }
  void drop_names(Rng& r, const aslam::Sensor& s, YAML::Node n) {
    if (s.getTopic().empty() && r.chance(0.7)) n.remove("topic");
    if (s.getDescription().empty() && r.chance(0.7)) n.remove("description");
  }
  // Takes the place of an id that the file does not have.
  void made_up(aslam::Sensor* s) {
    if (!s->getId().isValid()) sim::fail("C24", "invalid-id", "a %s loaded from a file without id has an invalid id", kNames[type]);
    if (s->getId() == value()->getId()) sim::fail("C24", "id-reused", "a %s loaded from a file without id has the id of another one", kNames[type]);
    s->setId(value()->getId());
    sim::probe("id_made_up");
  }
  void prune(Rng& r, const Camera& c, YAML::Node n) {
    if (type == kRig) drop_names(r, c, n);
    if (c.getLineDelayNanoSeconds() == 0 && r.chance(0.7)) n.remove("line-delay-nanoseconds");
    if (!c.hasCompressedImages() && r.chance(0.7)) n.remove("compressed");
    if (!c.getDistortion().getParameters().size() && r.chance(0.3)) {
      n["distortion"]["type"] = "none";
      n["distortion"]["parameters"]["rows"] = 0;
      n["distortion"]["parameters"]["cols"] = 1;
      n["distortion"]["parameters"]["data"] = YAML::Node(YAML::NodeType::Sequence);
      if (r.chance(0.7)) n["distortion"] = YAML::Node();
    }
  }
  void load(Rng& r) {
    const int e = sim::disk::open_errors() + sim::disk::read_errors();
    Camera::Ptr c;
    NCamera::Ptr n;
    bool ok;
    const bool used = r.chance(0.6);
    if (type == kRig) {
      n = used ? rig(r) : NCamera::Ptr(new NCamera);
      if (used && r.chance(0.3)) n.reset(n->clone());
      ok = read(n.get(), true);
    } else if (r.chance(0.25)) {
      // Whatever camera the file describes.
      try {
        c = aslam::createCamera(YAML::LoadFile(path));
      } catch (const std::exception&) {
      }
      ok = c != nullptr;
    } else {
      c = used ? camera(r, type) : empty(type);
      ok = read(c.get(), true);
    }
    const bool failed = sim::disk::open_errors() + sim::disk::read_errors() > e;
    if (ok && !exists) sim::fail("C24", "phantom", "loading a %s from a missing file reported success", kNames[type]);
    if (ok && known && !has_id) {
      if (type == kRig) made_up(n.get());
      else made_up(c.get());
    }
    if (ok && known) {
      const std::string what = type == kRig ? different(*ncam, *n) : different(*cam, *c);
      if (!what.empty())
        sim::fail("C24", "wrong-load", "loading a %s reported success, but the %s is not the saved one%s%s", kNames[type],
                  what.c_str(), used ? " (the object held another calibration before)" : "", failed ? " (the disk reported a read error)" : "");
      if (type == kRig && r.chance(0.3)) {
        NCamera::Ptr copy(n->clone());
        const std::string d = different(*ncam, *copy);
        if (!d.empty()) sim::fail("C24", "wrong-copy", "a copy of a loaded camera rig has another %s", d.c_str());
      }
    }
    if (!ok && known && !failed)
      sim::fail("C24", "load-refused", "loading a completely saved %s failed on a disk without errors", kNames[type]);
    sim::probe(ok ? used ? "loaded_into_used_object" : "loaded" : "load_failed");
  }
  // A camera of another class must not take over the file.
  void load_other(Rng& r, int other) {
    if (!known || type == kRig || other == kRig || other == type) return;
    Camera::Ptr c = r.chance(0.5) ? camera(r, other) : empty(other);
    if (read(c.get(), true))
      sim::fail("C24", "wrong-type", "a saved %s was loaded into a %s", kNames[type], kNames[other]);
    sim::probe("other_type_refused");
  }
  void edit(Rng& r) {
    if (type == kRig) {
      const size_t i = r.below(ncam->numCameras());
      switch (r.below(4)) {
        case 0: ncam->set_T_C_B(i, pose(r)); break;
        case 1: ncam->setCamera(i, camera(r, static_cast<int>(r.below(3)))); break;
        case 2: ncam.reset(ncam->cloneWithNewIds()); break;
        default: {
          aslam::TransformationCovariance cov;
          for (int k = 0; k < cov.size(); ++k) cov.data()[k] = number(r, -1, 1);
          ncam->set_T_G_B_fixed_localization_covariance(cov);
        }
      }
    } else if (type != kLidar && r.chance(0.6)) {
      Distortion::UniquePtr d = distortion(r);
      cam->setDistortion(d);
    } else {
      settle(r, cam.get());
    }
  }
};

void body(int me, const sim::PlanThread& ops) {
  std::unique_ptr<File> file[kFilesPerThread];
  for (int i = 0; i < ops.n; ++i) {
    const Op& op = ops.ops[i];
    std::unique_ptr<File>& f = file[static_cast<int>(op.a[0]) % kFilesPerThread];
    if (!f) {
      f.reset(new File);
      f->type = static_cast<int>(op.a[2]) % kTypes;
      f->path = SIM_DISK_ROOT "t" + std::to_string(me) + "_" + std::to_string(op.a[0] % kFilesPerThread) + ".yaml";
    }
    Rng r(static_cast<uint64_t>(op.a[1]));
    C->partial[sim::tid()] = f->exists && !f->known;
    switch (op.code) {
      case kSave: f->make(r); f->write(true); break;
      case kEdit:
        if (f->value()) {
          f->edit(r);
          f->write(true);
        }
        break;
      case kPut: f->make(r); f->put(r); break;
      case kLoad: f->load(r); break;
      case kLoadOther: f->load_other(r, static_cast<int>(op.a[3]) % kTypes); break;
      case kDelete:
        sim::disk::remove(f->path.c_str());
        f->exists = f->known = false;
        break;
      case kCrash: {
        if (!f->exists) break;
        sim::Quiet q;
        const int64_t n = sim::disk::size(f->path.c_str());
        sim::disk::truncate(f->path.c_str(), static_cast<size_t>(n * (op.a[3] % 1000) / 1000));
        f->known = false;
        sim::probe("torn_file");
        break;
      }
    }
    C->partial[sim::tid()] = false;
  }
}

void run(const Plan& plan) {
  sim::set_default_props("C24");
  sim::set_stuck_props("C24");
  C = new Ctx;
  for (bool& s : C->saving) s = false;
  for (bool& s : C->partial) s = false;
  sim::set_abort_callback(on_abort);
  sim::disk::set_mode(static_cast<int>(plan.cfg[kMode]), plan.cfg[kDisk]);
  std::vector<std::thread> threads;
  for (int t = 0; t < plan.nthreads; ++t) threads.emplace_back([t, &plan]() { body(t, plan.th[t]); });
  for (std::thread& t : threads) t.join();
}
void gen(Rng& r, Plan* p, sim::Env* env, bool thorough) {
  env->io_faults = true;
  const int64_t mode = r.chance(0.4) ? sim::disk::kBenign : r.chance(0.2) ? sim::disk::kNone : sim::disk::kErrors;
  p->add_cfg(mode, 0);
  p->add_cfg(mode == sim::disk::kErrors && r.chance(0.3) ? r.range(0, 20000) : -1, -1);
  p->nthreads = static_cast<int>(r.chance(0.6) ? 1 : r.range(2, 3));
  for (int t = 0; t < p->nthreads; ++t) {
    const int n = static_cast<int>(r.range(1, thorough ? 8 : 5));
    const int64_t type[kFilesPerThread] = {static_cast<int64_t>(r.below(kTypes)), static_cast<int64_t>(r.below(kTypes))};
    for (int i = 0; i < n; ++i) {
      const int64_t f = static_cast<int64_t>(r.chance(0.3));
      const uint64_t w = i == 0 && r.chance(0.9) ? r.below(8) : r.below(24);
      const int64_t s = static_cast<int64_t>(r.next() >> 1);
      if (w < 5) p->add(t, kSave, f, s, type[f]);
      else if (w < 8) p->add(t, kPut, f, s, type[f]);
      else if (w < 11) p->add(t, kEdit, f, s, type[f]);
      else if (w < 14 && type[f] != kRig) p->add(t, kLoadOther, f, s, type[f], r.range(0, 2));
      else if (w < 22) p->add(t, kLoad, f, s, type[f]);
      else if (w < 23) p->add(t, kDelete, f, 0, type[f]);
      else p->add(t, kCrash, f, 0, type[f], r.range(0, 999));
    }
  }
}
const sim::Harness h = {"calibration_files", "C24", gen, run};
sim::Registrar reg(&h);
}  // namespace
