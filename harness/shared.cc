// Simulated workloads for read-only use of shared objects.
//   C22 concurrent read-only operations give what they give alone
#include <aslam/cameras/camera-3d-lidar.h>
#include <aslam/cameras/camera-factory.h>
#include <aslam/cameras/camera-pinhole.h>
#include <aslam/cameras/camera-unified-projection.h>
#include <aslam/cameras/distortion-equidistant.h>
#include <aslam/cameras/distortion-fisheye.h>
#include <aslam/cameras/distortion-null.h>
#include <aslam/cameras/distortion-radtan.h>
#include <aslam/cameras/ncamera.h>
#include <aslam/common/channel-serialization.h>
#include <aslam/common/covariance-helpers.h>
#include <aslam/common/descriptor-utils.h>
#include <aslam/common/eigen-hash.h>
#include <aslam/common/feature-descriptor-ref.h>
#include <aslam/common/hamming.h>
#include <aslam/common/hash-id.h>
#include <aslam/common/occupancy-grid.h>
#include <aslam/common/opencv-predicates.h>
#include <aslam/common/predicates.h>
#include <aslam/common/stl-helpers.h>
#include <aslam/common/time.h>
#include <aslam/common/unique-id.h>
#include <aslam/detectors/line-segment-detector.h>
#include <aslam/frames/feature-track.h>
#include <aslam/frames/visual-frame.h>
#include <aslam/frames/visual-nframe.h>
#include <aslam/matcher/gyro-two-frame-matcher.h>
#include <aslam/matcher/match-helpers.h>
#include <aslam/pipeline/undistorter-mapped.h>
#include <aslam/tracker/tracking-helpers.h>
#include <aslam/triangulation/triangulation.h>
#include <kaze/KAZE.h>

#include <cstring>
#include <memory>
#include <sstream>
#include <string>
#include <thread>
#include <vector>

#include "simrt.h"

namespace {
using sim::Op;
using sim::Plan;
using sim::Rng;

// ------------------------------------------------------------------- digests
struct Digest {
  uint64_t h = 1469598103934665603ull;
  void bytes(const void* p, size_t n) {
    const unsigned char* c = static_cast<const unsigned char*>(p);
    for (size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 1099511628211ull;
  }
  void num(int64_t v) { bytes(&v, sizeof(v)); }
  void num(double v) { bytes(&v, sizeof(v)); }
  void str(const std::string& s) {
    num(static_cast<int64_t>(s.size()));
    bytes(s.data(), s.size());
  }
  template <typename D>
  void mat(const Eigen::MatrixBase<D>& m) {
    num(static_cast<int64_t>(m.rows()));
    num(static_cast<int64_t>(m.cols()));
    for (int c = 0; c < m.cols(); ++c)
      for (int r = 0; r < m.rows(); ++r) {
        const typename D::Scalar v = m(r, c);
        bytes(&v, sizeof(v));
      }
  }
  void image(const cv::Mat& m) {
    num(static_cast<int64_t>(m.rows));
    num(static_cast<int64_t>(m.cols));
    num(static_cast<int64_t>(m.type()));
    for (int r = 0; r < m.rows; ++r) bytes(m.ptr(r), m.cols * m.elemSize());
  }
  void result(const aslam::ProjectionResult& r) { num(static_cast<int64_t>(r.getDetailedStatus())); }
};

double uniform(Rng& r, double lo, double hi) { return lo + (hi - lo) * (r.below(1u << 30) / static_cast<double>(1u << 30)); }
Eigen::VectorXd vec(std::initializer_list<double> v) {
  Eigen::VectorXd x(v.size());
  int i = 0;
  for (double d : v) x[i++] = d;
  return x;
}

enum { kW = 48, kH = 32, kDescBytes = 48, kNumCameras = 9 };

// ------------------------------------------------------------- the shared world
struct World {
  std::vector<aslam::Camera::ConstPtr> cameras;
  aslam::NCamera::Ptr rig;
  std::vector<aslam::VisualFrame::Ptr> frames;  // all channels set
  aslam::VisualNFrame::Ptr nframe, nframe_copy;
  std::unique_ptr<aslam::MappedUndistorter> undistorter;
  cv::Mat image, image_f, undistort_in;
  aslam::common::descriptor_utils::DescriptorsType descriptors;
  std::unique_ptr<aslam::common::WeightedOccupancyGrid<>> grid;
  aslam::TransformationVector T_G_B;
  aslam::Transformation T_B_C;
  Eigen::Vector3d landmark;
  aslam::channels::ChannelGroup group;
  std::vector<int> numbers;
  std::vector<aslam::HashId> ids;
  std::string camera_yaml[kNumCameras];
};

aslam::Distortion::UniquePtr distortion(int kind) {
  using namespace aslam;
  switch (kind) {
    case 0: return Distortion::UniquePtr(new NullDistortion());
    case 1: return RadTanDistortion::createTestDistortion();
    case 2: return EquidistantDistortion::createTestDistortion();
    default: return FisheyeDistortion::createTestDistortion();
  }
}
aslam::Camera::Ptr camera(Rng& r, int kind) {
  aslam::Distortion::UniquePtr d = distortion(kind % 4);
  aslam::Camera::Ptr c;
  if (kind < 4)
    c.reset(new aslam::PinholeCamera(uniform(r, 20, 40), uniform(r, 20, 40), kW / 2 + 0.3, kH / 2 - 0.2, kW, kH, d));
  else if (kind < 8)
    c.reset(new aslam::UnifiedProjectionCamera(uniform(r, 0.6, 1.1), uniform(r, 20, 40), uniform(r, 20, 40), kW / 2 + 0.3,
                                               kH / 2 - 0.2, kW, kH, d));
  else
    c = aslam::Camera3DLidar::createTestCamera();
  aslam::CameraId id;
  aslam::generateId(&id);
  c->setId(id);
  c->setLineDelayNanoSeconds(r.below(3) * 1000);
  c->setTopic("/cam" + std::to_string(kind));
  if (r.chance(0.5)) {
    cv::Mat mask(c->imageHeight(), c->imageWidth(), CV_8UC1);
    for (int i = 0; i < mask.rows; ++i)
      for (int j = 0; j < mask.cols; ++j) mask.at<uint8_t>(i, j) = (i * 7 + j * 3) % 5 ? 255 : 0;
    c->setMask(mask);
  }
  return c;
}
aslam::Transformation pose(Rng& r) {
  Eigen::Vector4d q(1.0 + uniform(r, 0, 1), uniform(r, -0.3, 0.3), uniform(r, -0.3, 0.3), uniform(r, -0.3, 0.3));
  q.normalize();
  return aslam::Transformation(aslam::Quaternion(q[0], q[1], q[2], q[3]),
                               Eigen::Vector3d(uniform(r, -1, 1), uniform(r, -1, 1), uniform(r, -1, 1)));
}
aslam::VisualFrame::Ptr frame(Rng& r, const aslam::Camera::ConstPtr& cam, int64_t stamp) {
  aslam::VisualFrame::Ptr f = aslam::VisualFrame::createEmptyTestVisualFrame(cam, stamp);
  // Two blocks of features with descriptors of different kinds.
  for (int block = 0; block < 2; ++block) {
    const int n = static_cast<int>(r.range(2, 6));
    Eigen::Matrix2Xd k(2, n);
    Eigen::VectorXd u(n), o(n), s(n), sc(n);
    Eigen::Matrix3Xd p(3, n);
    Eigen::VectorXi t(n), ids(n);
    aslam::VisualFrame::DescriptorsT d(kDescBytes, n);
    for (int i = 0; i < n; ++i) {
      k.col(i) << uniform(r, 1, kW - 1), uniform(r, 1, kH - 1);
      u[i] = uniform(r, 0.1, 2);
      o[i] = uniform(r, 0, 360);
      s[i] = uniform(r, 0, 100);
      sc[i] = uniform(r, 1, 10);
      p.col(i) << uniform(r, -5, 5), uniform(r, -5, 5), uniform(r, 1, 9);
      t[i] = static_cast<int>(r.below(1000));
      ids[i] = static_cast<int>(r.range(-1, 50));
      for (int b = 0; b < kDescBytes; ++b) d(b, i) = static_cast<unsigned char>(r.next());
    }
    if (block == 0) {
      f->setKeypointMeasurements(k);
      f->setKeypointMeasurementUncertainties(u);
      f->setKeypointOrientations(o);
      f->setKeypointScores(s);
      f->setKeypointScales(sc);
      f->setKeypoint3DPositions(p);
      f->setKeypointTimeOffsets(t);
      f->setTrackIds(ids);
      f->setDescriptors(d, 0, 0);
    } else {
      f->extendKeypointMeasurements(k);
      f->extendKeypointMeasurementUncertainties(u);
      f->extendKeypointOrientations(o);
      f->extendKeypointScores(s);
      f->extendKeypointScales(sc);
      f->extendKeypoint3DPositions(p);
      f->extendKeypointTimeOffsets(t);
      f->extendTrackIds(ids);
      f->extendDescriptors(d, 1);
    }
  }
  cv::Mat raw(kH, kW, CV_8UC1);
  for (int i = 0; i < raw.rows; ++i)
    for (int j = 0; j < raw.cols; ++j) raw.at<uint8_t>(i, j) = static_cast<uint8_t>(i * 5 + j * 3 + stamp);
  f->setRawImage(raw);
  f->setRawCameraGeometry(cam);
  return f;
}

cv::Mat test_image(Rng& r, int w, int h) {
  cv::Mat m(h, w, CV_8UC1, cv::Scalar(40));
  const int n = static_cast<int>(r.range(1, 3));
  for (int k = 0; k < n; ++k) {
    const int x0 = static_cast<int>(r.range(2, w / 2)), y0 = static_cast<int>(r.range(2, h / 2));
    const int x1 = static_cast<int>(r.range(x0 + 4, w - 2)), y1 = static_cast<int>(r.range(y0 + 4, h - 2));
    const uint8_t v = static_cast<uint8_t>(r.range(90, 250));
    for (int y = y0; y < y1; ++y)
      for (int x = x0; x < x1; ++x) m.at<uint8_t>(y, x) = v;
  }
  return m;
}

enum Need { kNeedUndistorter = 1 };

World* make_world(uint64_t seed, int needs) {
  sim::Quiet q;
  Rng r(seed);
  World* w = new World;
  cv::setNumThreads(0);
  for (int i = 0; i < kNumCameras; ++i) {
    aslam::Camera::Ptr c = camera(r, i);
    YAML::Node node;
    c->serialize(&node);
    w->camera_yaml[i] = YAML::Dump(node);
    w->cameras.push_back(c);
  }
  std::vector<aslam::Camera::Ptr> rig_cameras;
  aslam::TransformationVector poses;
  for (int i = 0; i < 3; ++i) {
    rig_cameras.push_back(camera(r, static_cast<int>(r.below(8))));
    poses.push_back(pose(r));
  }
  aslam::NCameraId rig_id;
  aslam::generateId(&rig_id);
  w->rig.reset(new aslam::NCamera(rig_id, poses, rig_cameras, "rig"));
  aslam::TransformationCovariance cov = aslam::TransformationCovariance::Identity();
  w->rig->set_T_G_B_fixed_localization_covariance(cov);
  for (int i = 0; i < 3; ++i) w->frames.push_back(frame(r, w->rig->getCameraShared(i), 1000 + i));
  w->nframe = aslam::VisualNFrame::createEmptyTestVisualNFrame(w->rig, 1000);
  for (int i = 0; i < 3; ++i) w->nframe->setFrame(i, w->frames[i]);
  w->nframe_copy.reset(new aslam::VisualNFrame(*w->nframe));
  w->image = test_image(r, 40, 32);
  w->image.convertTo(w->image_f, CV_32F, 1.0 / 255);
  if (needs & kNeedUndistorter) {
    aslam::Distortion::UniquePtr d = distortion(1 + static_cast<int>(r.below(3)));
    aslam::PinholeCamera cam(14, 14, 8, 6, 16, 12, d);
    w->undistorter = aslam::createMappedUndistorter(cam, 0.5f, 1.0f, aslam::InterpolationMethod::Linear);
    w->undistort_in = test_image(r, 16, 12);
  }
  w->descriptors.resize(kDescBytes, 5);
  for (int i = 0; i < w->descriptors.size(); ++i) w->descriptors.data()[i] = static_cast<unsigned char>(r.next());
  w->grid.reset(new aslam::common::WeightedOccupancyGrid<>(kH, kW, 8.0, 8.0));
  for (int i = 0; i < 12; ++i)
    w->grid->addPointUnconditional(
        aslam::common::WeightedKeypoint<>(uniform(r, 0, kH - 1), uniform(r, 0, kW - 1), uniform(r, 0, 10), i));
  for (int i = 0; i < 4; ++i) w->T_G_B.push_back(pose(r));
  w->T_B_C = pose(r);
  w->landmark << uniform(r, -2, 2), uniform(r, -2, 2), uniform(r, 3, 8);
  Eigen::Matrix2Xd k(2, 4);
  for (int i = 0; i < k.size(); ++i) k.data()[i] = uniform(r, 0, 10);
  aslam::channels::addChannel<Eigen::Matrix2Xd>("numbers", &w->group);
  aslam::channels::getChannelData<Eigen::Matrix2Xd>("numbers", w->group) = k;
  for (int i = 0; i < 20; ++i) w->numbers.push_back(static_cast<int>(r.below(100)));
  for (int i = 0; i < 4; ++i) w->ids.push_back(aslam::HashId::random());
  return w;
}

// ---------------------------------------------------------------- operations
const aslam::Camera& cam(const World& w, Rng& r) { return *w.cameras[r.below(w.cameras.size())]; }
Eigen::Vector3d point(Rng& r) {
  return Eigen::Vector3d(uniform(r, -3, 3), uniform(r, -3, 3), uniform(r, r.chance(0.2) ? -2 : 0.5, 8));
}
Eigen::Vector2d keypoint(Rng& r) { return Eigen::Vector2d(uniform(r, -4, kW + 4), uniform(r, -4, kH + 4)); }
const aslam::VisualFrame& fr(const World& w, Rng& r) { return *w.frames[r.below(w.frames.size())]; }

// Without a projection there is neither a keypoint nor a Jacobian to look at.
bool usable(const aslam::ProjectionResult& r) {
  return r.getDetailedStatus() != aslam::ProjectionResult::Status::PROJECTION_INVALID;
}

void op_project(const World& w, Rng& r, Digest& d) {
  const aslam::Camera& c = cam(w, r);
  const Eigen::Vector3d p = point(r);
  Eigen::Vector2d k(0, 0);
  Eigen::Matrix<double, 2, 3> J = Eigen::Matrix<double, 2, 3>::Zero();
  d.result(c.project3(p, &k));
  d.mat(k);
  k.setZero();
  if (c.getType() != aslam::Camera::Type::kLidar3D) {
    d.result(c.project3(p, &k, &J));
    d.mat(k);
    d.mat(J);
  }
  d.num(static_cast<int64_t>(c.isProjectable3(p)));
}
void op_project4(const World& w, Rng& r, Digest& d) {
  const aslam::Camera& c = cam(w, r);
  const Eigen::Vector3d p = point(r);
  Eigen::Vector4d h;
  h << p, (r.chance(0.5) ? 1.0 : -1.0);
  Eigen::Vector2d k(0, 0);
  d.result(c.project4(h, &k));
  d.mat(k);
  if (c.getType() != aslam::Camera::Type::kLidar3D) {
    Eigen::Matrix<double, 2, 4> J = Eigen::Matrix<double, 2, 4>::Zero();
    k.setZero();
    const aslam::ProjectionResult res = c.project4(h, &k, &J);
    d.result(res);
    if (usable(res)) d.mat(J);
  }
  d.num(static_cast<int64_t>(c.isProjectable4(h)));
}
void op_functional(const World& w, Rng& r, Digest& d) {
  const aslam::Camera& c = *w.cameras[r.below(8)];
  const Eigen::Vector3d p = point(r);
  Eigen::VectorXd in = c.getParameters(), dist = c.getDistortion().getParameters();
  in[0] += 0.01;
  const bool external = r.chance(0.5);
  Eigen::Vector2d k(0, 0);
  Eigen::Matrix<double, 2, 3> Jp = Eigen::Matrix<double, 2, 3>::Zero();
  Eigen::Matrix<double, 2, Eigen::Dynamic> Ji, Jd;
  Ji.setZero(2, c.getParameterSize());
  Jd.setZero(2, c.getDistortion().getParameterSize());
  d.result(c.project3Functional(p, external ? &in : nullptr, external && dist.size() ? &dist : nullptr, &k, &Jp, &Ji, &Jd));
  d.mat(k);
  d.mat(Jp);
  d.mat(Ji);
  d.mat(Jd);
}
void op_vectorized(const World& w, Rng& r, Digest& d) {
  const aslam::Camera& c = cam(w, r);
  const int n = static_cast<int>(r.range(1, 5));
  Eigen::Matrix3Xd p(3, n);
  Eigen::Matrix2Xd k(2, n), out = Eigen::Matrix2Xd::Zero(2, n);
  for (int i = 0; i < n; ++i) {
    p.col(i) << uniform(r, -1, 1), uniform(r, -1, 1), uniform(r, 2, 8);
    k.col(i) << uniform(r, 2, kW - 2), uniform(r, 2, kH - 2);
  }
  std::vector<aslam::ProjectionResult> res;
  c.project3Vectorized(p, &out, &res);
  for (int i = 0; i < n; ++i) {
    d.result(res[i]);
    if (usable(res[i])) d.mat(out.col(i));
  }
  Eigen::Matrix3Xd back;
  std::vector<unsigned char> ok;
  c.backProject3Vectorized(k, &back, &ok);
  for (int i = 0; i < n; ++i) {
    d.num(static_cast<int64_t>(ok[i]));
    if (ok[i]) d.mat(back.col(i));
  }
}
void op_backproject(const World& w, Rng& r, Digest& d) {
  const aslam::Camera& c = cam(w, r);
  const Eigen::Vector2d k(uniform(r, 2, kW - 2), uniform(r, 2, kH - 2));
  Eigen::Vector3d p(0, 0, 0);
  Eigen::Vector4d h(0, 0, 0, 0);
  if (c.backProject3(k, &p)) d.mat(p);
  if (c.backProject4(k, &h)) d.mat(h);
}
void op_camera_state(const World& w, Rng& r, Digest& d) {
  const aslam::Camera& c = cam(w, r);
  const Eigen::Vector2d k = keypoint(r);
  d.num(static_cast<int64_t>(c.isMasked(k)));
  d.num(static_cast<int64_t>(c.isKeypointVisible(k)));
  d.num(static_cast<int64_t>(c.isKeypointVisibleWithMargin(k, 2.0)));
  d.num(static_cast<int64_t>(c.hasMask()));
  d.image(c.getMask());
  d.num(static_cast<int64_t>(c.imageWidth()) * c.imageHeight());
  d.num(static_cast<int64_t>(c.hasDistortion()));
  d.num(static_cast<int64_t>(c.getLineDelayNanoSeconds()));
  d.num(static_cast<int64_t>(c.rollingShutterDelayNanoSeconds(k)));
  d.num(static_cast<int64_t>(c.maxRollingShutterDelayNanoSeconds()));
  d.num(static_cast<int64_t>(c.getNumberOfLines()));
  d.num(static_cast<int64_t>(c.isValid()));
  d.mat(c.getParameters());
  d.num(static_cast<int64_t>(c.intrinsicsValid(c.getParameters())));
  d.str(c.getSensorTypeString());
  d.str(c.getTopic());
}
void op_camera_print(const World& w, Rng& r, Digest& d) {
  const aslam::Camera& c = cam(w, r);
  std::ostringstream s;
  c.printParameters(s, "camera");
  d.str(s.str());
}
void op_camera_type(const World& w, Rng& r, Digest& d) {
  const aslam::Camera& c = cam(w, r);
  std::ostringstream s;
  s << c.getType();
  d.str(s.str());
}
void op_distortion_type(const World& w, Rng& r, Digest& d) {
  const aslam::Camera& c = cam(w, r);
  std::ostringstream s;
  s << c.getDistortion().getType();
  d.str(s.str());
}
void op_camera_clone(const World& w, Rng& r, Digest& d) {
  const aslam::Camera& c = cam(w, r);
  const aslam::Camera& other = cam(w, r);
  std::unique_ptr<aslam::Camera> copy(c.clone());
  d.num(static_cast<int64_t>(*copy == c));
  d.num(static_cast<int64_t>(c.isEqual(other, false)));
  d.mat(copy->getParameters());
  copy->getParametersMutable()[0] += 1;
  d.num(static_cast<int64_t>(copy->isEqual(c, false)));
}
void op_camera_yaml(const World& w, Rng& r, Digest& d) {
  const int i = static_cast<int>(r.below(kNumCameras));
  YAML::Node node;
  w.cameras[i]->serialize(&node);
  d.str(YAML::Dump(node));
  YAML::Node own = YAML::Load(w.camera_yaml[i]);
  aslam::Camera::Ptr c = aslam::createCamera(own);
  d.num(static_cast<int64_t>(c != nullptr));
  if (c) d.num(static_cast<int64_t>(c->isEqual(*w.cameras[i], false)));
}
void op_distortion(const World& w, Rng& r, Digest& d) {
  const aslam::Distortion& x = w.cameras[r.below(8)]->getDistortion();
  const aslam::Distortion& y = w.cameras[r.below(8)]->getDistortion();
  Eigen::Vector2d p(uniform(r, -0.5, 0.5), uniform(r, -0.5, 0.5)), q = p, out(0, 0);
  Eigen::Matrix2d J = Eigen::Matrix2d::Zero();
  x.distort(&q, &J);
  d.mat(q);
  d.mat(J);
  x.distort(p, &out);
  d.mat(out);
  Eigen::VectorXd ext = x.getParameters();
  if (ext.size()) {
    ext[0] *= 1.01;
    Eigen::Vector2d e = p;
    x.distortUsingExternalCoefficients(&ext, &e, &J);
    d.mat(e);
    d.mat(J);
    Eigen::Matrix<double, 2, Eigen::Dynamic> Jd;
    Jd.setZero(2, x.getParameterSize());
    x.distortParameterJacobian(&ext, p, &Jd);
    d.mat(Jd);
    x.undistortUsingExternalCoefficients(ext, &e);
    d.mat(e);
  }
  x.undistort(q, &out);
  d.mat(out);
  d.num(static_cast<int64_t>(x == y));
  d.num(static_cast<int64_t>(x.distortionParametersValid(x.getParameters())));
  std::ostringstream s;
  x.printParameters(s, "d");
  s << x;
  d.str(s.str());
  std::unique_ptr<aslam::Distortion> copy(x.clone());
  d.num(static_cast<int64_t>(*copy == x));
}
void op_rig(const World& w, Rng& r, Digest& d) {
  const aslam::NCamera& n = *w.rig;
  const size_t i = r.below(n.getNumCameras());
  const aslam::CameraId id = n.getCameraId(i);
  d.num(static_cast<int64_t>(n.getCameraIndex(id)));
  d.num(static_cast<int64_t>(n.hasCameraWithId(id)));
  d.mat(n.get_T_C_B(id).getTransformationMatrix());
  d.mat(n.get_T_C_B(i).getTransformationMatrix());
  d.num(static_cast<int64_t>(n.getCameraShared(i).get() == &n.getCamera(i)));
  aslam::TransformationCovariance c;
  d.num(static_cast<int64_t>(n.get_T_G_B_fixed_localization_covariance(&c)));
  d.mat(c);
  d.num(static_cast<int64_t>(n.isValid()));
}
void op_rig_clone(const World& w, Rng& r, Digest& d) {
  std::unique_ptr<aslam::NCamera> copy(w.rig->clone());
  d.num(static_cast<int64_t>(copy->isEqual(*w.rig, false)));
  aslam::NCamera::Ptr plain = w.rig->cloneRigWithoutDistortion();
  d.num(static_cast<int64_t>(plain->getNumCameras()));
  for (size_t i = 0; i < plain->getNumCameras(); ++i) d.num(static_cast<int64_t>(plain->getCamera(i).hasDistortion()));
  YAML::Node node;
  w.rig->serialize(&node);
  d.str(YAML::Dump(node));
}
void op_frame(const World& w, Rng& r, Digest& d) {
  const aslam::VisualFrame& f = fr(w, r);
  const size_t n = f.getNumKeypointMeasurements();
  const size_t i = r.below(n);
  d.mat(f.getKeypointMeasurements());
  d.mat(f.getKeypointMeasurementUncertainties());
  d.mat(f.getKeypointOrientations());
  d.mat(f.getKeypointScores());
  d.mat(f.getKeypointScales());
  d.mat(f.getKeypoint3DPositions());
  d.mat(f.getKeypointTimeOffsets());
  d.mat(f.getTrackIds());
  d.mat(f.getKeypointMeasurement(i));
  d.num(f.getKeypointMeasurementUncertainty(i));
  d.num(f.getKeypointOrientation(i));
  d.num(f.getKeypointScore(i));
  d.num(f.getKeypointScale(i));
  d.num(static_cast<int64_t>(f.getTrackId(i)));
  d.bytes(f.getDescriptor(i), kDescBytes);
  d.num(static_cast<int64_t>(f.hasRawImage() && f.hasDescriptors() && f.hasChannel("RAW_IMAGE")));
  d.num(static_cast<int64_t>(f.getTimestampNanoseconds()));
  std::ostringstream s;
  f.print(s, "frame");
  d.str(s.str());
}
void op_frame_types(const World& w, Rng& r, Digest& d) {
  const aslam::VisualFrame& f = fr(w, r);
  const int type = static_cast<int>(r.below(2));
  const size_t n = f.getNumKeypointMeasurementsOfType(type);
  d.num(static_cast<int64_t>(n));
  d.mat(f.getDescriptorTypes());
  d.num(static_cast<int64_t>(f.hasDescriptorType(type)));
  d.num(static_cast<int64_t>(f.hasDescriptorType(7)));
  size_t start = 0, size = 0;
  f.getDescriptorBlockTypeStartAndSize(type, &start, &size);
  d.num(static_cast<int64_t>(start * 1000 + size));
  d.mat(f.getKeypointMeasurementsOfType(type));
  d.mat(f.getKeypointScoresOfType(type));
  d.mat(f.getDescriptorsOfType(type));
  d.mat(f.getTrackIdsOfType(type));
  const size_t i = r.below(n);
  d.mat(f.getKeypointMeasurementOfType(i, type));
  d.num(f.getKeypointScaleOfType(i, type));
  d.num(static_cast<int64_t>(f.getDescriptorType(r.below(f.getNumKeypointMeasurements()))));
  std::string bytes;
  f.serializeDescriptorsToString(&bytes);
  d.str(bytes);
}
void op_frame_bearings(const World& w, Rng& r, Digest& d) {
  const aslam::VisualFrame& f = fr(w, r);
  const int type = static_cast<int>(r.below(2));
  std::vector<size_t> idx;
  for (size_t i = 0; i < f.getNumKeypointMeasurementsOfType(type); ++i) idx.push_back(i);
  std::vector<unsigned char> ok;
  const Eigen::Matrix3Xd b = f.getNormalizedBearingVectors(idx, type, &ok);
  for (size_t i = 0; i < idx.size(); ++i) {
    d.num(static_cast<int64_t>(ok[i]));
    if (ok[i]) d.mat(b.col(i));
  }
  Eigen::Vector2d raw(0, 0);
  d.result(f.getKeypointInRawImageCoordinates(idx[0], &raw));
  d.mat(raw);
}
void op_frame_copy(const World& w, Rng& r, Digest& d) {
  const aslam::VisualFrame& f = fr(w, r);
  aslam::VisualFrame copy(f);
  d.num(static_cast<int64_t>(copy == f));
  (*copy.getKeypointMeasurementsMutable())(0, 0) += 1;
  d.num(static_cast<int64_t>(copy == f));
  d.image(copy.getRawImage());
  d.num(static_cast<int64_t>(f == *w.frames[0]));
}
void op_nframe(const World& w, Rng& r, Digest& d) {
  const aslam::VisualNFrame& n = *w.nframe;
  const size_t i = r.below(n.getNumFrames());
  d.num(static_cast<int64_t>(n.getMinTimestampNanoseconds()));
  d.num(static_cast<int64_t>(n.getMaxTimestampNanoseconds()));
  d.num(static_cast<int64_t>(n.areAllFramesSet() && n.isFrameValid(i) && n.hasRawImagesInAllFrames()));
  d.mat(n.get_T_C_B(i).getTransformationMatrix());
  d.num(static_cast<int64_t>(n.getCameraIndex(n.getCameraId(i))));
  d.num(static_cast<int64_t>(n.compareWithoutCameraSystem(*w.nframe_copy)));
  d.num(static_cast<int64_t>(n == *w.nframe_copy));
  aslam::VisualNFrame copy(n);
  d.num(static_cast<int64_t>(copy.getNumCameras()));
}
void op_undistort(const World& w, Rng& r, Digest& d) {
  cv::Mat out;
  w.undistorter->processImage(w.undistort_in, &out);
  d.image(out);
  d.image(w.undistorter->getUndistortMapU());
}
void op_triangulate(const World& w, Rng& r, Digest& d) {
  Aligned<std::vector, Eigen::Vector2d> m;
  std::vector<size_t> cams;
  Aligned<std::vector, aslam::Transformation> T_G_B, T_B_C;
  T_B_C.push_back(w.T_B_C);
  const Eigen::Vector3d G = w.landmark + Eigen::Vector3d(uniform(r, -0.5, 0.5), uniform(r, -0.5, 0.5), 0);
  Eigen::Matrix3Xd t(3, w.T_G_B.size()), p(3, w.T_G_B.size());
  for (size_t i = 0; i < w.T_G_B.size(); ++i) {
    const Eigen::Vector3d c = (w.T_G_B[i] * w.T_B_C).inverse() * G;
    m.push_back(Eigen::Vector2d(c[0] / c[2] + uniform(r, -1e-3, 1e-3), c[1] / c[2]));
    cams.push_back(0);
    T_G_B.push_back(w.T_G_B[i]);
    p.col(i) = (w.T_G_B[i] * w.T_B_C).getPosition();
    t.col(i) = G - p.col(i) + Eigen::Vector3d(uniform(r, -1e-3, 1e-3), 0, 0);
  }
  Eigen::Vector3d out(0, 0, 0);
  d.num(static_cast<int64_t>(aslam::linearTriangulateFromNViews(m, w.T_G_B, w.T_B_C, &out).status()));
  d.mat(out);
  d.num(static_cast<int64_t>(aslam::linearTriangulateFromNViewsMultiCam(m, cams, T_G_B, T_B_C, &out).status()));
  d.mat(out);
  d.num(static_cast<int64_t>(aslam::linearTriangulateFromNViews(t, p, &out).status()));
  d.mat(out);
  d.num(static_cast<int64_t>(aslam::iterativeGaussNewtonTriangulateFromNViews(m, T_G_B, w.T_B_C, &out).status()));
  d.mat(out);
}
void op_match(const World& w, Rng& r, Digest& d) {
  const aslam::VisualFrame& a = *w.frames[1];  // the later one
  const aslam::VisualFrame& b = *w.frames[0];
  const int type = static_cast<int>(r.below(2));
  Eigen::Matrix2Xd predicted;
  std::vector<unsigned char> ok;
  aslam::Quaternion q;
  q.setIdentity();
  aslam::predictKeypointsByRotation(b, q, &predicted, &ok, type);
  d.mat(predicted);
  for (unsigned char x : ok) d.num(static_cast<int64_t>(x));
  aslam::FrameToFrameMatches matches;
  aslam::GyroTwoFrameMatcher matcher(q, a, b, type, kH, predicted, ok, &matches);
  matcher.match();
  d.num(static_cast<int64_t>(matches.size()));
  aslam::FrameToFrameMatches pairs;
  const size_t n = std::min(a.getNumKeypointMeasurementsOfType(type), b.getNumKeypointMeasurementsOfType(type));
  for (size_t i = 0; i < n; ++i) pairs.emplace_back(static_cast<int>(i), static_cast<int>(i));
  Aligned<std::vector, Eigen::Vector3d> ba, bb;
  aslam::getBearingVectorsFromMatches(a, b, pairs, type, &ba, &bb);
  for (const auto& v : ba) d.mat(v);
  for (const auto& v : bb) d.mat(v);
}
void op_insert_keypoints(const World& w, Rng& r, Digest& d) {
  aslam::VisualFrame::Ptr f = aslam::VisualFrame::createEmptyTestVisualFrame(w.cameras[0], 5);
  for (int round = 0; round < 2; ++round) {
    std::vector<cv::KeyPoint> k;
    cv::Mat desc(3, kDescBytes, CV_8UC1);
    for (int i = 0; i < 3; ++i) {
      k.push_back(cv::KeyPoint(static_cast<float>(r.below(kW)), static_cast<float>(r.below(kH)), 5.f, 3.f, 1.f, 2));
      for (int b = 0; b < kDescBytes; ++b) desc.at<uint8_t>(i, b) = static_cast<uint8_t>(r.next());
    }
    if (round == 0)
      aslam::insertCvKeypointsAndDescriptorsIntoEmptyVisualFrame(k, desc, 0.8, f.get());
    else
      aslam::insertAdditionalCvKeypointsAndDescriptorsToVisualFrame(k, desc, 0.8, f.get());
  }
  d.mat(f->getKeypointMeasurements());
  d.mat(f->getDescriptors());
  d.mat(f->getKeypointScores());
}
void op_hamming(const World& w, Rng& r, Digest& d) {
  const unsigned char* a = w.descriptors.col(r.below(5)).data();
  const unsigned char* b = w.descriptors.col(r.below(5)).data();
  aslam::common::Hamming h;
  d.num(static_cast<int64_t>(h(a, b, kDescBytes)));
  d.num(static_cast<int64_t>(aslam::common::Hamming::evaluate(a, b, 16)));
  aslam::common::FeatureDescriptorConstRef ra(a, kDescBytes), rb(b, kDescBytes);
  d.num(static_cast<int64_t>(aslam::common::GetNumBitsDifferent(ra, rb)));
}
void op_descriptors(const World& w, Rng& r, Digest& d) {
  using namespace aslam::common::descriptor_utils;
  DescriptorType median;
  descriptorMeanRoundedToBinaryValue(w.descriptors, &median);
  d.mat(median);
  size_t idx = 0;
  getIndexOfDescriptorClosestToMedian(w.descriptors, &idx);
  d.num(static_cast<int64_t>(idx));
  d.num(descriptorMeanAbsoluteDeviation(w.descriptors));
  d.num(descriptorMeanStandardDeviation(w.descriptors));
}
void op_grid(const World& w, Rng& r, Digest& d) {
  typedef aslam::common::WeightedOccupancyGrid<> Grid;
  const Grid& g = *w.grid;
  d.num(static_cast<int64_t>(g.getNumPoints()));
  Grid::PointList points;
  g.getAllPointsInGrid(&points);
  for (const auto& p : points) {
    d.num(p.u_rows);
    d.num(p.weight);
    d.num(static_cast<int64_t>(p.id));
  }
  d.image(g.getOccupancyMask(3.0, 2));
  Grid own(kH, kW, 8.0, 8.0);
  for (int i = 0; i < 6; ++i) {
    own.addPointOrReplaceWeakestIfCellFull(
        aslam::common::WeightedKeypoint<>(uniform(r, 0, kH - 1), uniform(r, 0, kW - 1), uniform(r, 0, 9), i), 1);
    own.addPointOrReplaceWeakestNearestPoints(
        aslam::common::WeightedKeypoint<>(uniform(r, 0, kH - 1), uniform(r, 0, kW - 1), uniform(r, 0, 9), i), 4.0);
  }
  own.removePointsFromFullestCellsUntilSize(3);
  d.num(static_cast<int64_t>(own.getNumPoints()));
}
void op_containers(const World& w, Rng& r, Digest& d) {
  std::vector<int> out;
  aslam::common::drawNRandomElements(3, w.numbers, &out, true);
  for (int x : out) d.num(static_cast<int64_t>(x));
  std::vector<size_t> erase;
  erase.push_back(r.below(w.numbers.size()));
  for (int x : aslam::common::eraseIndicesFromVector(w.numbers, erase)) d.num(static_cast<int64_t>(x));
  d.num(aslam::common::mean(w.numbers.begin(), w.numbers.end()));
  d.num(aslam::common::stddev(w.numbers.begin(), w.numbers.end()));
  std::vector<int> copy = w.numbers;
  d.num(aslam::common::median(copy.begin(), copy.end()));
  aslam::common::keepOnlyNSortedElements(4, std::greater<int>(), &copy);
  for (int x : copy) d.num(static_cast<int64_t>(x));
}
void op_strings(const World& w, Rng& r, Digest& d) {
  const aslam::HashId& a = w.ids[r.below(w.ids.size())];
  const aslam::HashId& b = w.ids[r.below(w.ids.size())];
  d.str(a.hexString());
  d.str(a.shortHex());
  d.num(static_cast<int64_t>(a < b) + 2 * (a == b));
  aslam::HashId back;
  d.num(static_cast<int64_t>(back.fromHexString(a.hexString())));
  d.num(static_cast<int64_t>(back == a));
  d.num(static_cast<int64_t>(std::hash<aslam::HashId>()(a)));
  d.str(aslam::time::timeNanosecondsToString(r.range(-5, 5) * 700000001));
  d.num(static_cast<int64_t>(aslam::time::from_seconds(uniform(r, 0, 10))));
  std::ostringstream s;
  aslam::ProjectionResult pr(aslam::ProjectionResult::Status::POINT_BEHIND_CAMERA);
  s << pr << aslam::TriangulationResult(aslam::TriangulationResult::UNOBSERVABLE);
  d.str(s.str());
}
void op_channels(const World& w, Rng& r, Digest& d) {
  using namespace aslam::channels;
  d.mat(getChannelData<Eigen::Matrix2Xd>("numbers", w.group));
  d.num(static_cast<int64_t>(hasChannel("numbers", w.group)));
  d.num(static_cast<int64_t>(hasChannel("nothing", w.group)));
  std::string bytes;
  aslam::internal::serializeToString(getChannelData<Eigen::Matrix2Xd>("numbers", w.group), &bytes);
  d.str(bytes);
  Eigen::Matrix2Xd back;
  d.num(static_cast<int64_t>(aslam::internal::deSerializeFromString(bytes, &back)));
  d.mat(back);
  aslam::internal::serializeToString(w.image, &bytes);
  d.str(bytes);
}
void op_lines(const World& w, Rng& r, Digest& d) {
  aslam::LineSegmentDetector::Options o;
  o.min_segment_length_px = 4;
  aslam::LineSegmentDetector det(o);
  aslam::Lines lines;
  det.detect(w.image, &lines);
  d.num(static_cast<int64_t>(lines.size()));
  for (const auto& l : lines) {
    d.mat(l.start_point);
    d.mat(l.end_point);
  }
}
void op_lines_refined(const World& w, Rng& r, Digest& d) {
  const int refine = static_cast<int>(r.below(3));  // none, standard, advanced
  cv::Ptr<aslamcv::LineSegmentDetector> det =
      aslamcv::createLineSegmentDetectorPtr(refine, 1.0, 0.6, 2.0, 22.5, 0, 0.7, 256);
  std::vector<cv::Vec4i> lines;
  std::vector<double> width, prec, nfa;
  if (refine == 2)
    det->detect(w.image, lines, width, prec, nfa);
  else
    det->detect(w.image, lines, width, prec);
  d.num(static_cast<int64_t>(lines.size()));
  for (const auto& l : lines)
    for (int i = 0; i < 4; ++i) d.num(static_cast<int64_t>(l[i]));
  for (double x : width) d.num(x);
  for (double x : nfa) d.num(x);
}
void op_kaze(const World& w, Rng& r, Digest& d) {
  KAZEOptions o;
  o.img_width = w.image_f.cols;
  o.img_height = w.image_f.rows;
  o.omax = 1;
  o.nsublevels = 3;
  o.use_fed = r.chance(0.5);
  o.descriptor = static_cast<DESCRIPTOR_TYPE>(r.below(12));
  o.diffusivity = static_cast<DIFFUSIVITY_TYPE>(r.below(4));
  o.dthreshold = 1e-5f;
  libKAZE::KAZE kaze(o);
  d.num(static_cast<int64_t>(kaze.Create_Nonlinear_Scale_Space(w.image_f)));
  std::vector<cv::KeyPoint> k;
  kaze.Feature_Detection(k);
  for (const auto& x : k) {
    d.num(static_cast<double>(x.pt.x));
    d.num(static_cast<double>(x.pt.y));
    d.num(static_cast<double>(x.response));
  }
  if (k.size() > 4) k.resize(4);
  if (!k.empty()) {
    cv::Mat desc;
    kaze.Compute_Descriptors(k, desc);
    d.image(desc);
  }
}
void op_rotate_covariance(const World& w, Rng& r, Digest& d) {
  aslam::TransformationCovariance in, out;
  for (int i = 0; i < in.size(); ++i) in.data()[i] = uniform(r, -1, 1);
  aslam::common::rotateCovariance(w.T_B_C, in, &out);
  d.mat(out);
}
void op_feature_track(const World& w, Rng& r, Digest& d) {
  aslam::FeatureTrack t(7);
  std::shared_ptr<const aslam::VisualNFrame> n = w.nframe;
  for (int i = 0; i < 3; ++i) t.addKeypointObservationAtBack(n, i, r.below(2));
  d.num(t.getDiagonalSqOfDisparityBoundingBox());
  for (const auto& k : t.getKeypointIdentifiers()) {
    d.mat(k.getKeypointMeasurement());
    d.mat(k.get_T_C_B().getTransformationMatrix());
  }
}
void op_descriptor_refs(const World& w, Rng& r, Digest& d) {
  std::vector<unsigned char> bytes(w.descriptors.data(), w.descriptors.data() + kDescBytes);
  aslam::common::FeatureDescriptorRef ref(&bytes[0], static_cast<uint32_t>(kDescBytes), false);
  ref.SetRandom(static_cast<int>(r.below(5)));
  aslam::common::FlipBit(r.below(kDescBytes * 8), &ref);
  d.bytes(bytes.data(), bytes.size());
}

struct Operation {
  const char* name;
  void (*fn)(const World&, Rng&, Digest&);
  int needs;
  int cost;  // 1: cheap, 3: at most one per run and thread
};
const Operation kOps[] = {
    {"project", op_project, 0, 1},
    {"project homogeneous", op_project4, 0, 1},
    {"project with external parameters", op_functional, 0, 1},
    {"project and back-project lists", op_vectorized, 0, 1},
    {"back-project", op_backproject, 0, 1},
    {"camera state", op_camera_state, 0, 1},
    {"camera description", op_camera_print, 0, 1},
    {"camera type name", op_camera_type, 0, 1},
    {"distortion type name", op_distortion_type, 0, 1},
    {"camera copy and comparison", op_camera_clone, 0, 1},
    {"camera to and from YAML", op_camera_yaml, 0, 2},
    {"distortion", op_distortion, 0, 1},
    {"rig lookup", op_rig, 0, 1},
    {"rig copies", op_rig_clone, 0, 2},
    {"frame getters", op_frame, 0, 1},
    {"frame feature types", op_frame_types, 0, 1},
    {"frame bearing vectors", op_frame_bearings, 0, 1},
    {"frame copy and comparison", op_frame_copy, 0, 1},
    {"nframe getters", op_nframe, 0, 1},
    {"undistort image", op_undistort, kNeedUndistorter, 1},
    {"triangulate", op_triangulate, 0, 2},
    {"match frames", op_match, 0, 2},
    {"insert keypoints", op_insert_keypoints, 0, 1},
    {"hamming distance", op_hamming, 0, 1},
    {"descriptor statistics", op_descriptors, 0, 2},
    {"occupancy grid", op_grid, 0, 2},
    {"container helpers", op_containers, 0, 1},
    {"ids, times, strings", op_strings, 0, 1},
    {"channels and their bytes", op_channels, 0, 1},
    {"line segments", op_lines, 0, 3},
    {"line segments with precision", op_lines_refined, 0, 3},
    {"KAZE", op_kaze, 0, 3},
    {"rotate covariance", op_rotate_covariance, 0, 1},
    {"feature track", op_feature_track, 0, 1},
    {"descriptor references", op_descriptor_refs, 0, 1},
};
enum { kNumOps = sizeof(kOps) / sizeof(kOps[0]) };

enum CfgIdx { kWorldSeed = 0, kReference };  // 0: alone first, 1: alone afterwards
enum { kOpRun = 1 };                         // a0: operation, a1: argument seed

struct Outcome {
  int op;
  int64_t arg;
  uint64_t digest;
};
struct Ctx {
  World* world = nullptr;
  std::vector<Outcome> got[sim::kMaxThreads];
};
Ctx* C = nullptr;

uint64_t perform(int op, int64_t arg) {
  Rng r(static_cast<uint64_t>(arg) * 77777 + op);
  Digest d;
  sim::label(kOps[op].name);
  kOps[op].fn(*C->world, r, d);
  sim::label("");
  return d.h;
}

void gen(Rng& rng, Plan* plan, sim::Env* env, bool thorough) {
  plan->add_cfg(static_cast<int64_t>(rng.below(1u << 20)), 0);
  plan->add_cfg(rng.chance(0.75) ? 1 : 0, 0);
  env->spurious = false;
  env->fair_after = 400000;
  env->max_extra = 4000000;
  plan->nthreads = static_cast<int>(rng.range(2, thorough ? 4 : 3));
  // Few different operations, so that threads meet in the same code.
  int pick[3], heavy = 0;
  const int kinds = static_cast<int>(rng.range(1, 3));
  for (int i = 0; i < kinds; ++i) {
    do pick[i] = static_cast<int>(rng.below(kNumOps));
    while (kOps[pick[i]].cost == 3 && (heavy || rng.chance(0.6)));
    heavy += kOps[pick[i]].cost == 3;
  }
  int64_t args[3];
  for (int i = 0; i < 3; ++i) args[i] = static_cast<int64_t>(rng.below(1000));
  for (int t = 0; t < plan->nthreads; ++t) {
    const int n = static_cast<int>(rng.range(1, heavy ? 2 : 4));
    bool used_heavy = false;
    for (int i = 0; i < n; ++i) {
      const int op = pick[rng.below(kinds)];
      if (kOps[op].cost == 3) {
        if (used_heavy) continue;
        used_heavy = true;
      }
      plan->add(t, kOpRun, op, args[rng.below(3)]);
    }
    if (plan->th[t].n == 0) plan->add(t, kOpRun, pick[0], args[0]);
  }
}

void run(const Plan& plan) {
  Ctx ctx;
  C = &ctx;
  int needs = 0;
  for (int t = 0; t < plan.nthreads; ++t)
    for (int i = 0; i < plan.th[t].n; ++i) needs |= kOps[plan.th[t].ops[i].a[0]].needs;
  ctx.world = make_world(static_cast<uint64_t>(plan.cfg[kWorldSeed]), needs);
  std::vector<Outcome> alone;
  auto reference = [&] {
    for (int t = 0; t < plan.nthreads; ++t)
      for (int i = 0; i < plan.th[t].n; ++i) {
        const Op& o = plan.th[t].ops[i];
        bool have = false;
        for (const Outcome& x : alone) have |= x.op == o.a[0] && x.arg == o.a[1];
        if (have) continue;
        alone.push_back({static_cast<int>(o.a[0]), o.a[1], perform(static_cast<int>(o.a[0]), o.a[1])});
      }
  };
  if (plan.cfg[kReference] == 0) reference();
  std::vector<std::thread> threads;
  for (int t = 0; t < plan.nthreads; ++t)
    threads.emplace_back([t, &plan] {
      for (int i = 0; i < plan.th[t].n; ++i) {
        const Op& o = plan.th[t].ops[i];
        C->got[t].push_back({static_cast<int>(o.a[0]), o.a[1], perform(static_cast<int>(o.a[0]), o.a[1])});
      }
    });
  for (std::thread& t : threads) t.join();
  if (plan.cfg[kReference] != 0) reference();
  for (int t = 0; t < plan.nthreads; ++t)
    for (const Outcome& g : ctx.got[t])
      for (const Outcome& a : alone)
        if (a.op == g.op && a.arg == g.arg && a.digest != g.digest)
          sim::fail("C22", "result-differs", "'%s' (arguments %lld) gave another result while other threads ran than alone",
                    kOps[g.op].name, static_cast<long long>(g.arg));
  if (plan.nthreads > 1) sim::probe("concurrent-reads");
  C = nullptr;
}

void run_shared(const Plan& plan) {
  sim::set_default_props("C22");
  sim::set_stuck_props("C22");
  run(plan);
}
const sim::Harness kShared = {"shared_reads", "C22", gen, run_shared};
sim::Registrar r1(&kShared);
}  // namespace
