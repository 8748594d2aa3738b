// Simulated workloads for multi-camera frames and the observations that refer
// to them.
//   C29 a multi-frame keeps one frame per camera, copies are independent, and
//       observations and tracks keep referring to what they were made from
#include <aslam/cameras/camera-pinhole.h>
#include <aslam/cameras/ncamera.h>
#include <aslam/frames/feature-track.h>
#include <aslam/frames/visual-frame.h>
#include <aslam/frames/visual-nframe.h>

#include <limits>
#include <algorithm>
#include <memory>
#include <new>
#include <string>
#include <thread>
#include <vector>

#include "simrt.h"

namespace {
using aslam::NCamera;
using aslam::VisualFrame;
using aslam::VisualNFrame;
using sim::Op;
using sim::Plan;
using sim::Rng;

enum { kOwn = 3, kShared = 2, kMaxCams = 4, kMaxTracks = 2 };
enum OpCode {
  kMake = 1,  // multi-frame, seed
  kEmpty,     // multi-frame, seed: all frames made at once
  kSet,       // multi-frame, seed
  kUnset,     // multi-frame, seed
  kRig,       // multi-frame, seed: gets a rig
  kCopy,      // multi-frame, seed, source
  kEdit,      // multi-frame, seed: a frame of it changes
  kRaw,       // multi-frame
  kClear,     // multi-frame
  kCompare,   // multi-frame, seed, other
  kObserve,   // track, seed, source
  kPop,       // track
  kRename,    // multi-frame
  kMistake,   // multi-frame, seed, -, kind
};
enum Mistake { kGetBeyond = 0, kGetUnset, kSetBeyond, kUnsetBeyond, kNull, kOtherCamera, kOtherRig, kObserveUnset, kObserveBeyond, kObserveFrameBeyond, kMistakes };
const char* const kMistakeName[] = {"a frame behind the last one", "getting a frame that is not set", "setting a frame behind the last one",
                                    "removing a frame behind the last one", "setting no frame", "a frame of another camera",
                                    "a rig with another number of cameras", "an observation in a frame that is not set",
                                    "an observation of a keypoint that the frame does not have", "an observation in a frame behind the last one"};
enum CfgIdx { kAlloc = 0 };

struct Rig {
  NCamera::Ptr real;
  std::vector<aslam::Camera::Ptr> cam;
};
// What a frame has to be.
struct Frame {
  VisualFrame::Ptr real;
  aslam::FrameId id;
  int64_t stamp = 0;
  Eigen::Matrix2Xd points;
  aslam::VisualFrame::DescriptorsT descriptors;
  bool other_channels = false;  // the channels that clearing adds
  int raw = -1;                 // value of the image
  aslam::Camera::ConstPtr cam;
};
typedef std::shared_ptr<Frame> FramePtr;
struct Multi {
  VisualNFrame::Ptr real;
  aslam::NFramesId id;
  const Rig* rig = nullptr;
  std::vector<FramePtr> frame;
};
struct Seen {
  VisualNFrame::ConstPtr nframe;
  aslam::NFramesId id;
  aslam::FrameId frame_id;
  const Rig* rig;
  size_t frame, keypoint;
  Eigen::Vector2d point;
  std::vector<uint8_t> descriptor;
};
struct Track {
  std::unique_ptr<aslam::FeatureTrack> real;
  size_t id = 0;
  std::vector<Seen> seen;
};
enum { kOwnCams = 5, kRigs = 2 * kOwnCams };  // the second half: the cameras of the first half at other places
struct Ctx {
  Rig rig[kRigs];
  Multi own[sim::kMaxThreads][kOwn], shared[kShared];
  Track track[sim::kMaxThreads][kMaxTracks];
  bool mistake[sim::kMaxSimThreads];
};
Ctx* C = nullptr;

void on_abort() {
  if (C->mistake[sim::tid()]) sim::set_abort_ok(true);
}

int64_t timestamp(Rng& r) {
  switch (r.below(6)) {
    case 0: return static_cast<int64_t>(r.below(3));
    case 1: return -static_cast<int64_t>(r.below(1000));
    case 2: return std::numeric_limits<int64_t>::max() - static_cast<int64_t>(r.below(3));
    case 3: return std::numeric_limits<int64_t>::min() + 1 + static_cast<int64_t>(r.below(3));
    default: return 1500000000000000000ll + static_cast<int64_t>(r.below(1000000000));
  }
}
Eigen::Matrix2Xd points(Rng& r) {
  Eigen::Matrix2Xd m(2, r.below(5));
  const double base = r.chance(0.3) ? -100.0 : 0.0;  // outside of the image
  for (int i = 0; i < m.size(); ++i) m.data()[i] = base + static_cast<double>(r.below(80)) + 0.25 * static_cast<double>(r.below(4));
  return m;
}
void features(Rng& r, Frame* f) {
  f->points = points(r);
  f->real->setKeypointMeasurements(f->points);
  f->descriptors = VisualFrame::DescriptorsT(16, f->points.cols());
  for (int i = 0; i < f->descriptors.size(); ++i) f->descriptors.data()[i] = static_cast<unsigned char>(r.below(256));
  f->real->setDescriptors(f->descriptors);
}
FramePtr frame(Rng& r, const aslam::Camera::ConstPtr& cam) {
  FramePtr f(new Frame);
  f->real.reset(new VisualFrame);
  f->cam = cam;
  if (cam) f->real->setCameraGeometry(cam);
  aslam::generateId(&f->id);
  f->real->setId(f->id);
  f->stamp = timestamp(r);
  f->real->setTimestampNanoseconds(f->stamp);
  features(r, f.get());
  if (r.chance(0.6)) {
    f->raw = static_cast<int>(r.below(256));
    f->real->setRawImage(cv::Mat(3, 4, CV_8UC1, cv::Scalar(f->raw)));
  }
  return f;
}

void check_frame(const VisualFrame& real, const Frame& f, const char* what, size_t i) {
  const char* d = nullptr;
  if (real.getId() != f.id) d = "id";
  else if (real.getTimestampNanoseconds() != f.stamp) d = "time stamp";
  else if (real.getCameraGeometry() != f.cam) d = "camera";
  else if (real.getKeypointMeasurements().cols() != f.points.cols() || real.getKeypointMeasurements() != f.points) d = "list of keypoints";
  else if (real.hasRawImage() != (f.raw >= 0) || (f.raw >= 0 && real.getRawImage().at<uint8_t>(2, 3) != f.raw)) d = "image";
  else if (real.hasTrackIds() != f.other_channels) d = "list of track ids";
  if (d) sim::fail("C29", "frame", "after %s frame %zu has another %s", what, i, d);
}
void check(const Multi& m, const char* what) {
  const VisualNFrame& n = *m.real;
  if (n.getId() != m.id) sim::fail("C29", "id", "after %s the multi-frame has another id", what);
  if (n.getNumFrames() != m.frame.size()) sim::fail("C29", "count", "after %s the multi-frame has %zu frames of %zu", what, n.getNumFrames(), m.frame.size());
  if (n.getNCameraShared() != (m.rig ? m.rig->real : nullptr)) sim::fail("C29", "rig", "after %s the multi-frame has another rig", what);
  bool all = true, any = false;
  int64_t lo = std::numeric_limits<int64_t>::max(), hi = std::numeric_limits<int64_t>::min();
  for (size_t i = 0; i < m.frame.size(); ++i) {
    const FramePtr& f = m.frame[i];
    if (n.isFrameSet(i) != (f != nullptr)) sim::fail("C29", "set", "after %s frame %zu is %s", what, i, f ? "missing" : "set");
    if (n.getFrameShared(i) != (f ? f->real : nullptr)) sim::fail("C29", "frame", "after %s index %zu is another frame", what, i);
    if (!f) {
      all = false;
      continue;
    }
    any = true;
    check_frame(n.getFrame(i), *f, what, i);
    if (!n.isFrameValid(i)) sim::fail("C29", "frame", "after %s frame %zu is not valid", what, i);
    lo = std::min(lo, f->stamp);
    hi = std::max(hi, f->stamp);
  }
  if (n.areAllFramesSet() != all) sim::fail("C29", "all-set", "after %s the multi-frame says that %s frames are set", what, all ? "not all" : "all");
  if (all) {
    bool raw = true;
    for (const FramePtr& f : m.frame) raw &= f->raw >= 0;
    if (n.hasRawImagesInAllFrames() != raw) sim::fail("C29", "raw", "after %s the multi-frame says that %s frames have an image", what, raw ? "not all" : "all");
  }
  if (!m.rig) return;
  if (&n.getNCamera() != m.rig->real.get() || n.getNumCameras() != m.frame.size()) sim::fail("C29", "rig", "after %s the multi-frame has another rig", what);
  if (any) {
    if (n.getMinTimestampNanoseconds() != lo) sim::fail("C29", "min-time", "after %s the first time stamp is %lld, not %lld", what, (long long)n.getMinTimestampNanoseconds(), (long long)lo);
    if (n.getMaxTimestampNanoseconds() != hi) sim::fail("C29", "max-time", "after %s the last time stamp is %lld, not %lld", what, (long long)n.getMaxTimestampNanoseconds(), (long long)hi);
  }
  for (size_t i = 0; i < m.frame.size(); ++i) {
    const aslam::CameraId id = m.rig->cam[i]->getId();
    if (&n.getCamera(i) != m.rig->cam[i].get() || n.getCameraId(i) != id || !n.hasCameraWithId(id) || n.getCameraIndex(id) != i ||
        &n.get_T_C_B(i) != &m.rig->real->get_T_C_B(i))
      sim::fail("C29", "camera", "after %s the multi-frame does not describe camera %zu of its rig", what, i);
  }
  const aslam::CameraId other = C->rig[(m.rig - C->rig) % kOwnCams ? 0 : 1].cam[0]->getId();
  if (n.hasCameraWithId(other)) sim::fail("C29", "camera", "after %s the multi-frame finds a camera of another rig", what);
}
void check_track(const Track& t, const char* what) {
  const aslam::FeatureTrack& n = *t.real;
  if (n.getTrackId() != t.id) sim::fail("C29", "track-id", "after %s a track has another id", what);
  if (n.getTrackLength() != t.seen.size() || n.getKeypointIdentifiers().size() != t.seen.size() || n.hasObservations() == t.seen.empty())
    sim::fail("C29", "track-length", "after %s a track of %zu observations has %zu", what, t.seen.size(), n.getTrackLength());
  double lo[2] = {1e300, 1e300}, hi[2] = {-1e300, -1e300};
  for (size_t i = 0; i < t.seen.size(); ++i) {
    const Seen& s = t.seen[i];
    const aslam::KeypointIdentifier& k = n.getKeypointIdentifiers()[i];
    const char* d = nullptr;
    if (&k.getNFrame() != s.nframe.get() || k.getNFrameId() != s.id) d = "multi-frame";
    else if (k.getFrameIndex() != s.frame || k.getFrameId() != s.frame_id || &k.getFrame() != &s.nframe->getFrame(s.frame)) d = "frame";
    else if (k.getKeypointIndex() != s.keypoint || k.getKeypointMeasurement() != s.point) d = "keypoint";
    else if (!std::equal(s.descriptor.begin(), s.descriptor.end(), k.getDescriptor())) d = "descriptor";
    else if (s.rig && (k.getCamera() != s.rig->cam[s.frame] || &k.getNCamera() != s.rig->real.get() || &k.get_T_C_B() != &s.rig->real->get_T_C_B(s.frame))) d = "camera";
    if (d) sim::fail("C29", "observation", "after %s observation %zu of a track refers to another %s", what, i, d);
    for (int c = 0; c < 2; ++c) {
      lo[c] = std::min(lo[c], s.point[c]);
      hi[c] = std::max(hi[c], s.point[c]);
    }
  }
  if (t.seen.empty()) return;
  if (&n.getFirstKeypointIdentifier() != &n.getKeypointIdentifiers()[0] || &n.getLastKeypointIdentifier() != &n.getKeypointIdentifiers().back())
    sim::fail("C29", "track-ends", "after %s the first and last observation of a track are others", what);
  const double want = (hi[0] - lo[0]) * (hi[0] - lo[0]) + (hi[1] - lo[1]) * (hi[1] - lo[1]);
  const double got = n.getDiagonalSqOfDisparityBoundingBox();
  if (!(std::abs(got - want) <= 1e-9 * (1 + want))) sim::fail("C29", "disparity", "after %s the squared diagonal of the observations is %g, not %g", what, got, want);
}

void make(Rng& r, Multi* m) {
  *m = Multi();
  aslam::generateId(&m->id);
  const Rig* rig = &C->rig[r.below(kRigs)];
  m->frame.resize(rig->cam.size());
  switch (r.below(3)) {
    case 0: m->real.reset(new VisualNFrame(m->id, static_cast<unsigned>(rig->cam.size()))); break;
    case 1:
      m->real.reset(new VisualNFrame(m->id, rig->real));
      m->rig = rig;
      break;
    default:
      m->real.reset(new VisualNFrame(rig->real));
      m->rig = rig;
      if (!m->real->getId().isValid() || m->real->getId() == m->id) sim::fail("C29", "id", "a new multi-frame has no id of its own");
      m->id = m->real->getId();
  }
  check(*m, "building");
}
void make_empty(Rng& r, Multi* m) {
  *m = Multi();
  m->rig = &C->rig[r.below(kRigs)];
  const int64_t t = timestamp(r);
  m->real = VisualNFrame::createEmptyTestVisualNFrame(m->rig->real, t);
  m->id = m->real->getId();
  if (!m->id.isValid()) sim::fail("C29", "id", "a new multi-frame has no valid id");
  for (size_t i = 0; i < m->rig->cam.size(); ++i) {
    FramePtr f(new Frame);
    f->real = m->real->getFrameShared(i);
    if (!f->real) sim::fail("C29", "set", "a new multi-frame has no frame %zu", i);
    f->id = f->real->getId();
    f->stamp = t;
    f->points.resize(2, 0);
    f->descriptors.resize(48, 0);
    f->cam = m->rig->cam[i];
    m->frame.push_back(f);
  }
  check(*m, "building all frames");
}
void set(Rng& r, Multi* m) {
  const size_t i = r.below(m->frame.size());
  FramePtr f = frame(r, m->rig ? m->rig->cam[i] : nullptr);
  m->real->setFrame(i, f->real);
  m->frame[i] = f;
  check(*m, "setting a frame");
  sim::probe("frame_set");
}
void set_rig(Rng& r, Multi* m) {
  for (int k = 0; k < kRigs; ++k) {
    const Rig* rig = &C->rig[(k + r.below(kRigs)) % kRigs];
    if (rig->cam.size() != m->frame.size()) continue;
    m->real->setNCameras(rig->real);
    m->rig = rig;
    for (size_t i = 0; i < m->frame.size(); ++i)
      if (m->frame[i]) m->frame[i]->cam = rig->cam[i];
    check(*m, "setting the rig");
    sim::probe("rig_set");
    return;
  }
}
void copy(Rng& r, Multi* to, const Multi& from) {
  const uint64_t how = r.below(3);
  VisualNFrame::Ptr real;
  bool done = false;
  if (how == 1 && to->real && to != &from) real = to->real;
  if (how == 2) {
    if (!to->real) return;
    // A multi-frame assigned to itself stays as it is.
    const VisualNFrame& self = *to->real;
    try {
      sim::AllocFaultScope s;
      *to->real = self;
    } catch (const std::bad_alloc&) {
      sim::probe("allocation_failed");
    } catch (const cv::Exception&) {
      sim::probe("allocation_failed");
    }
    Multi now = *to;
    for (size_t i = 0; i < now.frame.size() && i < now.real->getNumFrames(); ++i)
      if (now.frame[i] && now.real->getFrameShared(i)) {
        now.frame[i] = FramePtr(new Frame(*now.frame[i]));
        now.frame[i]->real = now.real->getFrameShared(i);
      }
    check(now, "assigning a multi-frame to itself");
    *to = now;
    sim::probe("assigned_to_itself");
    return;
  }
  try {
    sim::AllocFaultScope s;
    sim::label("copy");
    if (real) *real = *from.real;
    else real.reset(new VisualNFrame(*from.real));
    sim::label("");
    done = true;
  } catch (const std::bad_alloc&) {
    sim::label("");
    sim::probe("allocation_failed");
  } catch (const cv::Exception&) {  // how OpenCV reports it
    sim::label("");
    sim::probe("allocation_failed");
  }
  check(from, "being copied");
  if (!done) {
    if (how == 1 && to->real) check(*to, "a failed assignment");
    return;
  }
  Multi m = from;
  m.real = real;
  if (real->getNumFrames() != from.frame.size()) sim::fail("C29", "count", "a copy has %zu frames of %zu", real->getNumFrames(), from.frame.size());
  for (size_t i = 0; i < m.frame.size(); ++i) {
    if (!m.frame[i]) continue;
    FramePtr f(new Frame(*m.frame[i]));
    f->real = real->getFrameShared(i);
    if (!f->real) sim::fail("C29", "set", "a copy has lost frame %zu", i);
    if (f->real == from.frame[i]->real) sim::fail("C29", "shared-frame", "a copy shares frame %zu with the original", i);
    m.frame[i] = f;
  }
  check(m, "copying");
  *to = m;
  sim::probe(how == 1 ? "assigned" : "copied");
}
Frame* some_frame(Rng& r, Multi* m) {
  for (int k = 0; k < 4; ++k) {
    Frame* f = m->frame[r.below(m->frame.size())].get();
    if (f) return f;
  }
  return nullptr;
}
// A frame that no track refers to may change.
bool referred(int me, const Multi& m) {
  for (const Track& t : C->track[me])
    for (const Seen& s : t.seen)
      if (s.nframe == m.real) return true;
  return false;
}
void edit(Rng& r, Multi* m) {
  Frame* f = some_frame(r, m);
  if (!f) return;
  switch (r.below(3)) {
    case 0:
      f->stamp = timestamp(r);
      f->real->setTimestampNanoseconds(f->stamp);
      break;
    case 1:
      if (f->other_channels) break;
      features(r, f);
      break;
    default:
      f->raw = static_cast<int>(r.below(256));
      f->real->setRawImage(cv::Mat(3, 4, CV_8UC1, cv::Scalar(f->raw)));
  }
  check(*m, "changing a frame");
  sim::probe("frame_changed");
}
bool all_set(const Multi& m) {
  for (const FramePtr& f : m.frame)
    if (!f) return false;
  return true;
}
bool same(const Frame& a, const Frame& b, bool cameras) {
  return a.stamp == b.stamp && a.points.cols() == b.points.cols() && a.points == b.points && a.raw == b.raw && a.other_channels == b.other_channels &&
         a.descriptors.rows() == b.descriptors.rows() && a.descriptors.cols() == b.descriptors.cols() && a.descriptors == b.descriptors &&
         (!cameras || a.cam == b.cam);
}
void compare(const Multi& a, const Multi& b) {
  if (!all_set(a) || !all_set(b)) return;
  bool want = a.id == b.id && a.frame.size() == b.frame.size();
  for (size_t i = 0; want && i < a.frame.size(); ++i) want = same(*a.frame[i], *b.frame[i], false);
  if (a.real->compareWithoutCameraSystem(*b.real) != want)
    sim::fail("C29", want ? "unequal" : "equal", "two multi-frames with %s content compare without rigs as %s", want ? "equal" : "different", want ? "different" : "equal");
  want = want && a.rig == b.rig;
  for (size_t i = 0; want && i < a.frame.size(); ++i) want = same(*a.frame[i], *b.frame[i], true);
  if ((*a.real == *b.real) != want)
    sim::fail("C29", want ? "unequal" : "equal", "two %s multi-frames compare as %s", want ? "equal" : "different", want ? "different" : "equal");
  sim::probe(want ? "equal" : "different");
}
// A copy that differs in one thing compares as different.
void compare_changed(Rng& r, const Multi& from) {
  Multi m;
  Rng how(0);
  m = from;
  m.real.reset(new VisualNFrame(*from.real));
  for (size_t i = 0; i < m.frame.size(); ++i)
    if (m.frame[i]) {
      m.frame[i] = FramePtr(new Frame(*m.frame[i]));
      m.frame[i]->real = m.real->getFrameShared(i);
      if (!m.frame[i]->real) return;
    }
  const uint64_t what = r.below(10);
  if (what < 3) {
    aslam::generateId(&m.id);
    m.real->setId(m.id);
  } else if (what < 5 && m.rig) {
    // The same cameras at other places.
    m.rig = &C->rig[(m.rig - C->rig + kOwnCams) % kRigs];
    m.real->setNCameras(m.rig->real);
  } else {
    edit(r, &m);
  }
  compare(from, m);
  compare(m, from);
}

void observe(Rng& r, Track* t, const Multi& m) {
  if (!t->real) {
    t->id = r.below(1000000);
    if (r.chance(0.5)) t->real.reset(new aslam::FeatureTrack(t->id));
    else t->real.reset(new aslam::FeatureTrack(t->id, r.below(3)));
  }
  const size_t i = r.below(m.frame.size());
  if (!m.frame[i] || !m.frame[i]->points.cols() || m.frame[i]->other_channels || !m.rig) return;
  Seen s;
  s.nframe = m.real;
  s.id = m.id;
  s.frame_id = m.frame[i]->id;
  s.rig = m.rig;
  s.frame = i;
  s.keypoint = r.below(static_cast<uint64_t>(m.frame[i]->points.cols()));
  s.point = m.frame[i]->points.col(static_cast<int>(s.keypoint));
  const auto d = m.frame[i]->descriptors.col(static_cast<int>(s.keypoint));
  s.descriptor.assign(d.data(), d.data() + d.size());
  t->real->addKeypointObservationAtBack(m.real, i, s.keypoint);
  t->seen.push_back(s);
  check_track(*t, "adding an observation");
  sim::probe("observed");
}

void mistake(Rng& r, Multi* m, int kind) {
  const size_t n = m->frame.size(), beyond = n + r.below(3);
  size_t unset = n, i = r.below(n);
  for (size_t k = 0; k < n; ++k)
    if (!m->frame[k]) unset = k;
  C->mistake[sim::tid()] = true;
  bool tried = true;
  switch (kind) {
    case kGetBeyond:
      if (r.chance(0.5)) m->real->getFrame(beyond);
      else m->real->getFrameShared(beyond);
      break;
    case kGetUnset:
      if (unset == n) tried = false;
      else m->real->getFrame(unset);
      break;
    case kSetBeyond: m->real->setFrame(beyond, frame(r, m->rig ? m->rig->cam[0] : nullptr)->real); break;
    case kUnsetBeyond: m->real->unSetFrame(beyond); break;
    case kNull: m->real->setFrame(i, nullptr); break;
    case kOtherCamera: {
      if (!m->rig) {
        tried = false;
        break;
      }
      const Rig& o = C->rig[(m->rig - C->rig) % kOwnCams ? 0 : 1];
      m->real->setFrame(i, frame(r, n > 1 && r.chance(0.5) ? m->rig->cam[(i + 1) % n] : o.cam[0])->real);
      break;
    }
    case kOtherRig: m->real->setNCameras(C->rig[n % kMaxCams].real); break;
    case kObserveUnset:
      if (unset == n) tried = false;
      else aslam::KeypointIdentifier::create(m->real, unset, 0);
      break;
    case kObserveBeyond:
      if (!m->frame[i]) tried = false;
      else aslam::KeypointIdentifier::create(m->real, i, static_cast<size_t>(m->frame[i]->points.cols()) + r.below(2));
      break;
    default: aslam::KeypointIdentifier::create(m->real, beyond, 0); break;
  }
  C->mistake[sim::tid()] = false;
  if (tried) sim::fail("C29", "accepted", "%s was accepted", kMistakeName[kind]);
}

void body(int me, const sim::PlanThread& ops) {
  Rng start(static_cast<uint64_t>(me) + 31);
  make(start, &C->own[me][0]);
  for (int i = 0; i < ops.n; ++i) {
    const Op& op = ops.ops[i];
    Multi* m = &C->own[me][op.a[0] % kOwn];
    Track* t = &C->track[me][op.a[0] % kMaxTracks];
    Rng r(static_cast<uint64_t>(op.a[1]));
    const int64_t which = op.a[2] % (kOwn + kShared);
    const Multi& other = which < kOwn ? C->own[me][which] : C->shared[which - kOwn];
    const bool changes = op.code == kSet || op.code == kUnset || op.code == kRig || op.code == kEdit || op.code == kClear || op.code == kRename || op.code == kCopy;
    // Observations look at the multi-frame as it is: it goes on as a copy.
    if (changes && m->real && referred(me, *m)) *m = Multi();
    if (op.code != kMake && op.code != kEmpty && op.code != kCopy && op.code != kObserve && op.code != kPop && !m->real) continue;
    switch (op.code) {
      case kMake: make(r, m); break;
      case kEmpty: make_empty(r, m); break;
      case kSet: set(r, m); break;
      case kUnset: {
        const size_t k = r.below(m->frame.size());
        m->real->unSetFrame(k);
        m->frame[k] = nullptr;
        check(*m, "removing a frame");
        break;
      }
      case kRig: set_rig(r, m); break;
      case kCopy:
        if (other.real) copy(r, m, other);
        break;
      case kEdit: edit(r, m); break;
      case kRaw:
        // A frame without an image refuses to release it.
        if (!all_set(*m) || !std::all_of(m->frame.begin(), m->frame.end(), [](const FramePtr& f) { return f->raw >= 0; })) break;
        m->real->releaseRawImagesOfAllFrames();
        for (const FramePtr& f : m->frame) f->raw = -1;
        check(*m, "releasing the images");
        sim::probe("images_released");
        break;
      case kClear:
        if (!all_set(*m)) break;
        m->real->clearKeypointChannelsOfAllFrames();
        for (const FramePtr& f : m->frame) {
          f->points.resize(2, 0);
          f->descriptors.resize(0, 0);
          f->other_channels = true;
        }
        check(*m, "clearing the keypoints");
        sim::probe("cleared");
        break;
      case kCompare:
        if (!all_set(*m)) break;
        if (op.a[3] % 2 && other.real) compare(*m, other);
        else compare_changed(r, *m);
        break;
      case kObserve:
        if (other.real) observe(r, t, other);
        break;
      case kPop:
        if (t->seen.empty()) break;
        t->real->popLastKeypointIdentifier();
        t->seen.pop_back();
        check_track(*t, "dropping an observation");
        break;
      case kRename:
        aslam::generateId(&m->id);
        m->real->setId(m->id);
        break;
      case kMistake: mistake(r, m, static_cast<int>(op.a[3]) % kMistakes); break;
    }
    for (const Multi& o : C->own[me])
      if (o.real) check(o, "an operation on some multi-frame");
    for (const Track& o : C->track[me])
      if (o.real) check_track(o, "an operation on some multi-frame");
    const Track &p = C->track[me][0], &q = C->track[me][1];
    if (p.real && q.real && ((*p.real < *q.real) != (p.seen.size() < q.seen.size()) || (*p.real > *q.real) != (p.seen.size() > q.seen.size())))
      sim::fail("C29", "track-order", "tracks are not ordered by length");
  }
}

void run(const Plan& plan) {
  sim::set_default_props("C29");
  sim::set_stuck_props("C29");
  C = new Ctx;
  for (bool& x : C->mistake) x = false;
  sim::set_abort_callback(on_abort);
  for (int k = 0; k < kRigs; ++k) {
    aslam::TransformationVector poses;
    for (int i = 0; i < 1 + k % kOwnCams % kMaxCams; ++i) {
      poses.push_back(aslam::Transformation(aslam::Quaternion(1, 0, 0, 0), Eigen::Vector3d(i, k, 0)));
      if (k >= kOwnCams) {
        C->rig[k].cam.push_back(C->rig[k - kOwnCams].cam[i]);
        continue;
      }
      aslam::PinholeCamera::Ptr c = aslam::PinholeCamera::createTestCamera();
      aslam::CameraId id;
      aslam::generateId(&id);
      c->setId(id);
      C->rig[k].cam.push_back(c);
    }
    aslam::NCameraId id;
    aslam::generateId(&id);
    C->rig[k].real.reset(new NCamera(id, poses, C->rig[k].cam, "rig"));
  }
  Rng r(5);
  for (Multi& s : C->shared) {
    do make(r, &s);
    while (!s.rig);
    for (size_t i = 0; i < s.frame.size(); ++i) {
      FramePtr f;
      do f = frame(r, s.rig->cam[i]);
      while (!f->points.cols());
      s.frame[i] = f;
      s.real->setFrame(i, f->real);
    }
  }
  std::vector<std::thread> threads;
  for (int t = 0; t < plan.nthreads; ++t) threads.emplace_back([t, &plan] { body(t, plan.th[t]); });
  for (std::thread& t : threads) t.join();
  for (const Multi& s : C->shared) check(s, "being read by several threads");
}

void gen(Rng& r, Plan* p, sim::Env* env, bool thorough) {
  p->add_cfg(r.chance(0.2), 0);
  env->alloc_fail = p->cfg[kAlloc] != 0;
  p->nthreads = static_cast<int>(r.chance(0.4) ? 1 : r.range(2, 3));
  const bool mistakes = r.chance(0.2);
  for (int t = 0; t < p->nthreads; ++t) {
    const int n = static_cast<int>(r.range(3, thorough ? 20 : 14));
    for (int i = 0; i < n; ++i) {
      static const int k[] = {kMake, kEmpty, kSet, kSet, kSet, kSet, kSet, kSet, kUnset, kRig, kRig, kCopy, kCopy, kCopy, kEdit, kEdit, kEdit,
                              kRaw, kClear, kCompare, kCompare, kCompare, kObserve, kObserve, kObserve, kObserve, kPop, kRename};
      int code = k[r.below(sizeof(k) / sizeof(*k))];
      if (mistakes && i == n - 1) code = kMistake;
      p->add(t, code, static_cast<int64_t>(r.below(6)), static_cast<int64_t>(r.next() >> 1), static_cast<int64_t>(r.below(kOwn + kShared)),
             static_cast<int64_t>(r.below(1000)));
    }
  }
}
const sim::Harness h = {"nframe_calls", "C29", gen, run};
sim::Registrar reg(&h);
}  // namespace
