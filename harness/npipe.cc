// Simulated camera rigs feeding aslam::VisualNPipeline.
//   C10 delivered multi-camera frames are well formed and synchronised
//   C11 delivery is exactly once and in time order (refinement of a model)
//   C12 blocking calls, queue limits and shutdown
//   C13 recovery after lost images
//   C14 fetching the latest frame
#include <aslam/cameras/camera-pinhole.h>
#include <aslam/cameras/ncamera.h>
#include <aslam/common/unique-id.h>
#include <aslam/frames/visual-frame.h>
#include <aslam/frames/visual-nframe.h>
#include <aslam/pipeline/undistorter.h>
#include <aslam/pipeline/visual-npipeline.h>
#include <aslam/pipeline/visual-pipeline-null.h>
#include <aslam/pipeline/visual-pipeline.h>

#include <algorithm>
#include <cstring>
#include <memory>
#include <new>
#include <set>
#include <stdexcept>
#include <string>
#include <thread>
#include <unordered_set>
#include <vector>

#include <opencv2/core/core.hpp>

#include "simrt.h"

namespace sim {
void extra_zygote_setup() { cv::setNumThreads(0); }
}  // namespace sim

namespace {
using aslam::VisualFrame;
using aslam::VisualNFrame;
using aslam::VisualNPipeline;
using sim::Op;
using sim::Plan;
using sim::Rng;

enum OpCode {
  kFeed = 1,     // camera, timestamp, method + 4 * treatment, queue limit
  kNext,         // getNext
  kNextBlock,    // getNextBlocking
  kLatest,       // getLatestAndClear
  kLatestBlock,  // getLatestAndClearBlocking
  kNumComplete,
  kNumProcessing,
  kWaitAll,
  kShutdown,
  kSleep,        // simulated ns
  kWork,         // (history only) one image is added to the pending sets
};
enum Method { kPlain = 0, kIfFull, kDropOldest };
enum Treatment { kNormal = 0, kThrows, kShifted, kSlow, kNoMemory };
enum CfgIdx { kCams = 0, kWorkers, kTolerance, kCopy, kPreprocess, kEnd, kBad, kEndDelay, kNumCfg };
enum EndMode { kSettle = 0, kShutNow, kDestroyNow, kJustDestroy };
enum { kMaxCams = 4, kMaxImages = 256, kMaxEvents = 128, kShift = 7 };

struct Image {
  int cam;
  int64_t ts;       // as fed
  int64_t final_ts; // as reported by the processed frame
  int method, treatment;
  bool bad;
  uint64_t call, ret;
  bool accepted;    // the call says that the image was taken
  bool refused;
  bool no_memory;   // the call failed
  int processed, finished, delivered;
  bool failed;      // processing threw
  unsigned char pix[8];
};
struct Event {
  int code, thread;
  uint64_t call, ret;
  int image;        // kWork
  int64_t limit;    // kFeed
  bool flag;        // kFeed: result
  int64_t number;   // queries
  bool got;         // fetch: something was returned
  int set[kMaxCams];
};
struct Current {
  int code;         // operation the thread is in
  int64_t limit;
};
struct Ctx {
  int cams;
  int64_t tolerance;
  bool copy, preprocess;
  std::unique_ptr<VisualNPipeline> pipe;
  std::vector<std::shared_ptr<aslam::Camera>> in_cam, out_cam;
  // Oracle state.
  Image im[kMaxImages];
  int nim = 0;
  Event e[kMaxEvents];
  int ne = 0;
  bool overflow = false;
  Current now[sim::kMaxSimThreads];
  int open_work[sim::kMaxSimThreads];  // event index + 1 of the worker's last image
  uint64_t shutdown_call = 0, shutdown_ret = 0;
  bool gone = false;
  bool bad_fed = false;
  std::set<std::string> ids;
};
Ctx* C;
const char* kDefault = "C10,C11";

int begin(int code, int64_t limit = 0) {
  sim::Quiet q;
  C->now[sim::tid()] = Current{code, limit};
  if (C->ne >= kMaxEvents) {
    C->overflow = true;
    return -1;
  }
  Event& e = C->e[C->ne];
  memset(&e, 0, sizeof(e));
  e.code = code;
  e.thread = sim::tid();
  e.limit = limit;
  e.call = sim::stamp();
  e.ret = ~0ull;
  return C->ne++;
}
template <typename F>
void end(int i, F f) {
  sim::Quiet q;
  C->now[sim::tid()].code = 0;
  if (i < 0) return;
  f(&C->e[i]);
  C->e[i].ret = sim::stamp();
}
void withdraw(int i) {  // the call had no effect
  if (i < 0) return;
  C->e[i].code = 0;
  C->e[i].ret = sim::stamp();
}

// ----------------------------------------------------------- code under test
int image_of(const unsigned char* d, bool inverted) {
  unsigned char b[4];
  for (int i = 0; i < 4; ++i) b[i] = inverted ? static_cast<unsigned char>(~d[i]) : d[i];
  const int id = b[0] | b[1] << 8;
  if (id >= C->nim || b[2] != C->im[id].cam || b[3] != static_cast<unsigned char>(~b[0])) return -1;
  return id;
}
// The processing step of one camera.
void process(const cv::Mat& image, VisualFrame* frame, int cam, bool inverted) {
  int id, treatment;
  int64_t ts;
  {
    sim::Quiet q;
    const int me = sim::tid();
    if (C->gone) SIM_SOFT("C11", "work-after-destruction", "an image is processed after the pipeline was destroyed");
    unsigned char pix[4] = {0, 0, 0, 0};
    if (inverted && image.isContinuous()) memcpy(pix, image.data, 4);
    for (int i = 0; !inverted && image.rows == 2 && i < 4; ++i) pix[i] = image.ptr(i / 2)[i % 2];
    id = image.rows == 2 && image.cols == (inverted ? 3 : 2) ? image_of(pix, inverted) : -1;
    if (id < 0) sim::fail("C10", "image-garbled", "camera %d is asked to process an image that nobody fed", cam);
    Image& im = C->im[id];
    if (im.cam != cam) SIM_SOFT("C10", "wrong-camera", "image %d of camera %d is processed by the pipeline of camera %d", id, im.cam, cam);
    if (C->open_work[me]) {
      Event& e = C->e[C->open_work[me] - 1];
      if (e.ret == ~0ull) e.ret = sim::stamp();
      C->open_work[me] = 0;
    }
    if (++im.processed > 1) SIM_SOFT("C11", "processed-twice", "image %d is processed twice", id);
    if (C->shutdown_ret && im.call > C->shutdown_ret)
      SIM_SOFT("C12", "work-after-shutdown", "image %d was fed after shutdown() returned and is processed", id);
    if (im.refused) SIM_SOFT("C12", "refused-but-processed", "image %d was refused and is processed", id);
    treatment = im.treatment;
    if (frame->getTimestampNanoseconds() != im.ts)
      sim::fail("C10", "timestamp", "image %d was fed with time %lld and is processed with time %lld", id, (long long)im.ts, (long long)frame->getTimestampNanoseconds());
  }
  Eigen::Matrix2Xd keypoints(2, 1 + id % 3);
  keypoints.setConstant(id);
  frame->setKeypointMeasurements(keypoints);
  if (treatment == kSlow) sim::advance_time(500 + id * 13 % 900);
  if (treatment == kThrows) {
    {
      sim::Quiet q;
      C->im[id].failed = true;
    }
    sim::probe("processing_failed");
    throw std::runtime_error("processing failed");
  }
  if (treatment == kShifted) frame->setTimestampNanoseconds(frame->getTimestampNanoseconds() + kShift);
  sim::Quiet q;
  Image& im = C->im[id];
  im.final_ts = im.ts + (treatment == kShifted ? kShift : 0);
  ++im.finished;
  if (C->ne >= kMaxEvents) {
    C->overflow = true;
    return;
  }
  Event& e = C->e[C->ne];
  memset(&e, 0, sizeof(e));
  e.code = kWork;
  e.thread = sim::tid();
  e.image = id;
  e.call = sim::stamp();
  e.ret = ~0ull;
  C->open_work[sim::tid()] = ++C->ne;
}

class RigPipeline : public aslam::VisualPipeline {
 public:
  RigPipeline(const aslam::Camera::ConstPtr& camera, bool copy, int cam)
      : VisualPipeline(camera, camera, copy), cam_(cam), inverted_(false) {}
  RigPipeline(std::unique_ptr<aslam::Undistorter>& pre, bool copy, int cam)
      : VisualPipeline(pre, copy), cam_(cam), inverted_(true) {}

 protected:
  void processFrameImpl(const cv::Mat& image, VisualFrame* frame) const override {
    process(image, frame, cam_, inverted_);
  }
  const int cam_;
  const bool inverted_;
};
// Stand-in for image undistortion: another size, inverted pixels.
class Inverter : public aslam::Undistorter {
 public:
  Inverter(aslam::Camera::Ptr in, aslam::Camera::Ptr out) : Undistorter(in, out) {}
  void processImage(const cv::Mat& in, cv::Mat* out) const override {
    *out = cv::Mat(2, 3, CV_8UC1);
    for (int i = 0; i < 4; ++i) out->data[i] = static_cast<unsigned char>(~in.ptr(i / 2)[i % 2]);
  }
};

// Checks one delivered frame (C10) and notes its images.
void inspect(const std::shared_ptr<VisualNFrame>& nf, int* set) {
  Ctx& c = *C;
  if (nf->getNumFrames() != static_cast<size_t>(c.cams))
    sim::fail("C10", "wrong-size", "a delivered set has %d frames for %d cameras", (int)nf->getNumFrames(), c.cams);
  if (!nf->areAllFramesSet()) sim::fail("C10", "incomplete", "an incomplete set is delivered");
  if (nf->getNCameraShared().get() != c.pipe->getOutputNCameras().get())
    sim::fail("C10", "rig", "a delivered set belongs to another camera rig");
  int64_t lo = INT64_MAX, hi = INT64_MIN;
  for (int cam = 0; cam < c.cams; ++cam) {
    const std::shared_ptr<VisualFrame> f = nf->getFrameShared(cam);
    const cv::Mat& raw = f->getRawImage();
    unsigned char pix[4] = {0, 0, 0, 0};
    if (raw.rows == 2 && raw.cols == 2)
      for (int i = 0; i < 4; ++i) pix[i] = raw.ptr(i / 2)[i % 2];
    const Eigen::Matrix2Xd& kp = f->getKeypointMeasurements();
    const double first = kp.cols() ? kp(0, 0) : -1, last = kp.cols() ? kp(1, kp.cols() - 1) : -1;
    const int64_t ts = f->getTimestampNanoseconds();
    const std::string id = f->getId().hexString(), nid = nf->getId().hexString();
    sim::Quiet q;
    const int i = image_of(pix, false);
    if (i < 0) sim::fail("C10", "image-content", "camera %d of a delivered set carries an image that nobody fed", cam);
    Image& im = c.im[i];
    if (im.cam != cam) SIM_SOFT("C10", "wrong-slot", "image %d of camera %d is delivered as camera %d", i, im.cam, cam);
    if (++im.delivered > 1) SIM_SOFT("C11", "delivered-twice", "image %d is delivered twice", i);
    if (im.finished != 1) sim::fail("C10", "unprocessed", "image %d is delivered without having been processed", i);
    if (ts != im.final_ts) sim::fail("C10", "timestamp", "image %d is delivered with time %lld instead of %lld", i, (long long)ts, (long long)im.final_ts);
    if (kp.cols() != 1 + i % 3 || first != i || last != i)
      sim::fail("C10", "features", "image %d is delivered with the features of another image", i);
    if (f->getRawCameraGeometry().get() != c.in_cam[cam].get() || f->getCameraGeometry().get() != c.out_cam[cam].get())
      sim::fail("C10", "geometry", "image %d is delivered with the geometry of another camera", i);
    if (c.copy ? raw.data == im.pix : raw.data != im.pix)
      sim::fail("C10", "copying", "image %d is delivered %s although copying is %s", i, c.copy ? "without a copy" : "as a copy", c.copy ? "on" : "off");
    if (!f->getId().isValid() || !c.ids.insert(id).second) SIM_SOFT("C10", "frame-id", "the id of a delivered frame is invalid or not unique");
    if (cam == 0 && (!nf->getId().isValid() || !c.ids.insert(nid).second))
      SIM_SOFT("C10", "set-id", "the id of a delivered set is invalid or not unique");
    set[cam] = i;
    lo = std::min(lo, ts);
    hi = std::max(hi, ts);
  }
  if (hi - lo > 2 * c.tolerance)
    SIM_SOFT("C10", "not-synchronised", "a delivered set spans %lld ns with a tolerance of %lld ns", (long long)(hi - lo), (long long)c.tolerance);
  sim::probe("set_delivered");
}

void fetch(int code) {
  std::shared_ptr<VisualNFrame> nf;
  bool result = true;
  const int e = begin(code);
  const bool blocking = code == kNextBlock || code == kLatestBlock;
  bool late;
  {
    sim::Quiet q;
    late = C->shutdown_ret != 0;
  }
  switch (code) {
    case kNext: nf = C->pipe->getNext(); break;
    case kNextBlock: result = C->pipe->getNextBlocking(&nf); break;
    case kLatest: nf = C->pipe->getLatestAndClear(); break;
    default: result = C->pipe->getLatestAndClearBlocking(&nf); break;
  }
  if (blocking) {
    sim::Quiet q;
    if (result && late) SIM_SOFT("C12", "fetch-after-shutdown", "a blocking fetch succeeded after shutdown() returned");
    if (result && !nf) sim::fail("C12", "fetch-nothing", "a blocking fetch succeeded without a frame");
    if (!result && nf) SIM_SOFT("C11", "fetch-lost", "a blocking fetch failed but took a frame");
    if (!result && !C->shutdown_call) SIM_SOFT("C12", "fetch-gave-up", "a blocking fetch failed although nobody shut the pipeline down");
    sim::probe(result ? "blocking_fetch" : "fetch_released");
  }
  int set[kMaxCams] = {0, 0, 0, 0};
  end(e, [&](Event* ev) {
    ev->got = nf != nullptr;
    if (blocking && !result) ev->code = 0;
  });
  if (!nf) return;
  inspect(nf, set);
  sim::Quiet q;
  if (e >= 0) memcpy(C->e[e].set, set, sizeof(set));
}

void feed(const Op& op) {
  int id;
  {
    sim::Quiet q;
    if (C->nim >= kMaxImages) return;
    id = C->nim++;
    Image& im = C->im[id];
    memset(&im, 0, sizeof(im));
    im.cam = static_cast<int>(op.a[0]);
    im.bad = im.cam >= C->cams;
    if (im.bad && im.cam < 8) im.cam = C->cams;
    if (im.bad) C->bad_fed = true;
    im.ts = op.a[1];
    im.method = static_cast<int>(op.a[2] & 3);
    im.treatment = static_cast<int>(op.a[2] >> 2);
    // Every third image is a region of a wider one.
    const int second = id % 3 == 1 ? 4 : 2;
    im.pix[0] = static_cast<unsigned char>(id);
    im.pix[1] = static_cast<unsigned char>(id >> 8);
    im.pix[second] = static_cast<unsigned char>(im.cam);
    im.pix[second + 1] = static_cast<unsigned char>(~id);
    im.call = sim::stamp();
  }
  Image& im = C->im[id];
  const cv::Mat image = id % 3 == 1 ? cv::Mat(2, 4, CV_8UC1, im.pix)(cv::Rect(0, 0, 2, 2)) : cv::Mat(2, 2, CV_8UC1, im.pix);
  const size_t limit = static_cast<size_t>(op.a[3]);
  bool threw = false, flag = false, late;
  {
    sim::Quiet q;
    late = C->shutdown_ret != 0;
  }
  const int e = im.method == kPlain ? -1 : begin(kFeed, op.a[3]);
  if (e >= 0) {
    sim::Quiet q;
    C->e[e].image = im.method;
  }
  if (im.method == kPlain) {
    sim::Quiet q;
    C->now[sim::tid()] = Current{kFeed, -1};
  }
  try {
    std::unique_ptr<sim::AllocFaultScope> scope;
    if (im.treatment == kNoMemory) scope.reset(new sim::AllocFaultScope);
    switch (im.method) {
      case kPlain: C->pipe->processImage(im.cam, image, im.ts); break;
      case kIfFull: flag = C->pipe->processImageBlockingIfFull(im.cam, image, im.ts, limit); break;
      default: flag = C->pipe->processImageNonBlockingDroppingOldestNFrameIfFull(im.cam, image, im.ts, limit); break;
    }
  } catch (const std::bad_alloc&) {
    threw = true;
  }
  sim::Quiet q;
  C->now[sim::tid()].code = 0;
  im.ret = sim::stamp();
  if (threw) {
    sim::probe("feed_out_of_memory");
    im.no_memory = true;
    // Whether an old frame was dropped before the failure is unknown.
    if (e >= 0) {
      C->e[e].flag = true;
      C->e[e].number = 1;
      C->e[e].ret = sim::stamp();
    }
    return;
  }
  if (im.method == kIfFull) {
    if (!flag && !C->shutdown_call)
      SIM_SOFT("C12", "feed-gave-up", "a blocking feed gave up although nobody shut the pipeline down");
    if (flag && late) SIM_SOFT("C12", "feed-after-shutdown", "a blocking feed reports success after shutdown() returned");
    im.accepted = flag;
    im.refused = !flag;
    sim::probe(flag ? "blocking_feed" : "feed_released");
    if (!flag) {
      withdraw(e);
      return;
    }
  } else if (!C->shutdown_call) {
    im.accepted = true;
  }
  if (e >= 0) {
    C->e[e].flag = flag;
    C->e[e].ret = sim::stamp();
    if (im.method == kDropOldest && flag) sim::probe("oldest_dropped");
  }
}

void do_shutdown() {
  {
    sim::Quiet q;
    if (!C->shutdown_call) C->shutdown_call = sim::stamp();
    C->now[sim::tid()] = Current{kShutdown, 0};
  }
  C->pipe->shutdown();
  sim::Quiet q;
  C->now[sim::tid()].code = 0;
  if (!C->shutdown_ret) C->shutdown_ret = sim::stamp();
}
void close_works(uint64_t before) {
  for (int i = 0; i < C->ne; ++i)
    if (C->e[i].code == kWork && C->e[i].ret == ~0ull && C->im[C->e[i].image].ret && C->im[C->e[i].image].ret < before)
      C->e[i].ret = sim::stamp();
}
void wait_all() {
  uint64_t start;
  {
    sim::Quiet q;
    start = sim::stamp();
    C->now[sim::tid()] = Current{kWaitAll, 0};
  }
  C->pipe->waitForAllWorkToComplete();
  sim::Quiet q;
  C->now[sim::tid()].code = 0;
  for (int i = 0; i < C->nim; ++i) {
    const Image& im = C->im[i];
    if (im.accepted && im.ret < start && im.finished + im.failed != 1 && !im.bad) {
      if (C->shutdown_call && im.ret > C->shutdown_call) continue;  // judged at the end
      SIM_SOFT("C11", "wait-early", "waiting for all work returned before image %d was processed", i);
    }
  }
  close_works(start);
}

void body(const sim::PlanThread& th) {
  for (int i = 0; i < th.n; ++i) {
    const Op& op = th.ops[i];
    switch (op.code) {
      case kFeed: feed(op); break;
      case kNext: case kNextBlock: case kLatest: case kLatestBlock: fetch(op.code); break;
      case kNumComplete:
      case kNumProcessing: {
        const int e = begin(op.code);
        const size_t n = op.code == kNumComplete ? C->pipe->getNumFramesComplete() : C->pipe->getNumFramesProcessing();
        end(e, [n](Event* ev) { ev->number = static_cast<int64_t>(n); });
        break;
      }
      case kWaitAll: wait_all(); break;
      case kShutdown: do_shutdown(); break;
      case kSleep: sim::advance_time(op.a[0]); break;
    }
  }
}

// -------------------------------------------------------------- reference model
struct Set {
  int64_t key;
  int16_t im[kMaxCams];
};
struct State {
  int np = 0, nc = 0;
  Set p[40], c[40];
  std::string str() const {
    std::string s(reinterpret_cast<const char*>(&np), sizeof(np));
    s.append(reinterpret_cast<const char*>(p), sizeof(Set) * np);
    s.append(reinterpret_cast<const char*>(c), sizeof(Set) * nc);
    return s;
  }
};
bool complete(const Set& s) {
  for (int i = 0; i < C->cams; ++i)
    if (s.im[i] < 0) return false;
  return true;
}
void erase(Set* a, int* n, int i) {
  memmove(a + i, a + i + 1, sizeof(Set) * (*n - i - 1));
  --*n;
}
bool insert(Set* a, int* n, const Set& s) {
  if (*n >= 40) {
    C->overflow = true;
    return false;
  }
  int i = 0;
  while (i < *n && a[i].key < s.key) ++i;
  if (i < *n && a[i].key == s.key) return false;
  memmove(a + i + 1, a + i, sizeof(Set) * (*n - i));
  a[i] = s;
  ++*n;
  return true;
}
bool same(const Set& s, const int* set) {
  for (int i = 0; i < C->cams; ++i)
    if (s.im[i] != set[i]) return false;
  return true;
}
// Applies the event to the state if its result agrees.  `alt` selects among
// the outcomes the interface leaves open; *more is set when there are others.
bool apply(const Event& e, State* s, int alt, bool* more) {
  *more = false;
  switch (e.code) {
    case kWork: {
      const Image& im = C->im[e.image];
      const int64_t ts = im.final_ts;
      int best = -1, other = -1;
      int64_t diff = INT64_MAX;
      for (int i = 0; i < s->np; ++i) {
        const int64_t d = std::abs(s->p[i].key - ts);
        if (d < diff) {
          diff = d;
          best = i;
          other = -1;
        } else if (d == diff) {
          other = i;
        }
      }
      if (best < 0 || diff > C->tolerance) {
        Set n;
        n.key = ts;
        for (int16_t& x : n.im) x = -1;
        n.im[im.cam] = static_cast<int16_t>(e.image);
        insert(s->p, &s->np, n);
      } else {
        // Equally close to two sets: either will do.
        if (other >= 0) {
          *more = alt == 0;
          if (alt) best = other;
        }
        s->p[best].im[im.cam] = static_cast<int16_t>(e.image);
      }
      // Two consecutive complete sets show that earlier incomplete ones lost
      // an image.
      if (s->np > 3) {
        int stop = -1;
        for (int i = 0; i + 1 < s->np; ++i)
          if (complete(s->p[i]) && complete(s->p[i + 1])) {
            stop = i;
            break;
          }
        for (int i = stop - 1; i >= 0; --i)
          if (!complete(s->p[i])) erase(s->p, &s->np, i);
      }
      while (s->np && complete(s->p[0])) {
        insert(s->c, &s->nc, s->p[0]);
        erase(s->p, &s->np, 0);
      }
      return true;
    }
    case kFeed:
      if (e.image == kIfFull) {
        if (e.number) return true;  // failed for lack of memory
        return s->nc < e.limit;
      }
      if (e.number) {  // failed for lack of memory: dropped something, or not
        *more = alt == 0;
        if (alt && s->nc >= e.limit) erase(s->c, &s->nc, 0);
        return true;
      }
      if (e.flag != (s->nc >= e.limit)) return false;
      if (e.flag) erase(s->c, &s->nc, 0);
      return true;
    case kNext:
    case kNextBlock:
      if (e.got != (s->nc > 0)) return false;
      if (!e.got) return true;
      if (!same(s->c[0], e.set)) return false;
      erase(s->c, &s->nc, 0);
      return true;
    case kLatest:
    case kLatestBlock: {
      if (e.got != (s->nc > 0)) return false;
      if (!e.got) return true;
      if (!same(s->c[s->nc - 1], e.set)) return false;
      const int64_t key = s->c[s->nc - 1].key;
      s->nc = 0;
      while (s->np && s->p[0].key <= key) erase(s->p, &s->np, 0);
      return true;
    }
    case kNumComplete: return s->nc == e.number;
    case kNumProcessing: return s->np == e.number;
  }
  return true;
}
struct Checker {
  std::unordered_set<std::string> seen;
  std::vector<int> order;  // events by call
  int steps = 0;
  bool gave_up = false;
  typedef unsigned __int128 Mask;
  Mask all = 0;
  bool search(Mask done, const State& s) {
    if (done == all) return true;
    if (++steps > 40000) {
      gave_up = true;
      return true;
    }
    std::string key(reinterpret_cast<const char*>(&done), sizeof(done));
    key += s.str();
    if (!seen.insert(key).second) return false;
    uint64_t first_ret = ~0ull;
    for (int i : order) {
      if (done >> i & 1) continue;
      if (C->e[i].call > first_ret) break;
      first_ret = std::min(first_ret, C->e[i].ret);
    }
    for (int i : order) {
      if (done >> i & 1) continue;
      if (C->e[i].call > first_ret) break;
      bool more = true;
      for (int alt = 0; more; ++alt) {
        State t = s;
        if (apply(C->e[i], &t, alt, &more) && search(done | Mask(1) << i, t)) return true;
        if (gave_up) return true;
      }
    }
    return false;
  }
};
void describe_history(char* out, size_t size) {
  static const char* const kCode[] = {"", "feed", "next", "next(blocking)", "latest", "latest(blocking)", "complete", "processing", "", "", "", "image"};
  size_t k = 0;
  out[0] = 0;
  std::vector<int> order;
  for (int i = 0; i < C->ne; ++i) order.push_back(i);
  std::sort(order.begin(), order.end(), [](int a, int b) { return C->e[a].call < C->e[b].call; });
  for (int i : order) {
    const Event& e = C->e[i];
    if (!e.code || k > size - 300) continue;
    k += snprintf(out + k, size - k, "\n    T%d [%llu,%llu] %s", e.thread, (unsigned long long)e.call, (unsigned long long)e.ret, kCode[e.code]);
    if (e.code == kWork) k += snprintf(out + k, size - k, " %d camera %d time %lld", e.image, C->im[e.image].cam, (long long)C->im[e.image].final_ts);
    else if (e.code == kFeed) k += snprintf(out + k, size - k, " %s limit %lld -> %d", e.image == kIfFull ? "if full block" : "drop oldest", (long long)e.limit, e.flag);
    else if (e.code == kNumComplete || e.code == kNumProcessing) k += snprintf(out + k, size - k, " -> %lld", (long long)e.number);
    else if (!e.got) k += snprintf(out + k, size - k, " -> nothing");
    else {
      k += snprintf(out + k, size - k, " -> images");
      for (int c = 0; c < C->cams; ++c) k += snprintf(out + k, size - k, " %d", e.set[c]);
    }
  }
}

void on_abort() {
  sim::Quiet q;
  if (C && C->bad_fed) {
    sim::probe("bad_image_refused");
    sim::set_abort_ok(true);
  }
}

void check_settled() {
  const int n = static_cast<int>(C->pipe->getNumFramesComplete());
  sim::Quiet q;
  for (int i = 0; i < sim::kMaxSimThreads; ++i) {
    const Current& w = C->now[i];
    if (!w.code || i == sim::tid()) continue;
    const char* what = nullptr;
    if (C->shutdown_ret) what = "although the pipeline was shut down";
    else if ((w.code == kNextBlock || w.code == kLatestBlock) && n > 0) what = "although a frame is available";
    else if (w.code == kFeed && w.limit >= 0 && n < w.limit) what = "although the queue is below the limit";
    else if (w.code == kFeed && w.limit < 0) what = "in a call that never blocks";
    else if (w.code == kWaitAll) what = "although all work is done";
    if (what) SIM_SOFT("C12", "waits-forever", "T%d keeps waiting %s (operation %d, %d frames available)", i, what, w.code, n);
    sim::probe(w.code == kFeed ? "feed_waits" : "fetch_waits");
  }
  if (C->shutdown_call) return;
  for (int i = 0; i < C->nim; ++i) {
    const Image& im = C->im[i];
    if (im.accepted && !im.bad && im.finished + im.failed != 1)
      SIM_SOFT("C11", "image-lost", "image %d was taken and is not processed when everything has settled", i);
  }
  close_works(sim::stamp());
}

void run(const Plan& plan, const char* model_props) {
  sim::set_default_props(kDefault);
  sim::set_stuck_props("C12");
  sim::set_abort_callback(on_abort);
  C = new Ctx;
  for (Current& c : C->now) c.code = 0;
  for (int& w : C->open_work) w = 0;
  C->cams = static_cast<int>(plan.cfg[kCams]);
  C->tolerance = plan.cfg[kTolerance];
  C->copy = plan.cfg[kCopy];
  C->preprocess = plan.cfg[kPreprocess];
  std::vector<std::shared_ptr<aslam::VisualPipeline>> pipelines;
  aslam::TransformationVector poses;
  for (int c = 0; c < C->cams; ++c) {
    C->in_cam.emplace_back(new aslam::PinholeCamera(1, 1, 1, 1, 2, 2));
    C->out_cam.push_back(C->in_cam.back());
    if (C->preprocess) C->out_cam.back().reset(new aslam::PinholeCamera(1, 1, 1, 1, 3, 2));
    for (const auto& cam : {C->in_cam.back(), C->out_cam.back()}) {
      aslam::SensorId id;
      aslam::generateId(&id);
      cam->setId(id);
    }
    poses.emplace_back();
    if (C->preprocess) {
      std::unique_ptr<aslam::Undistorter> pre(new Inverter(C->in_cam.back(), C->out_cam.back()));
      pipelines.emplace_back(new RigPipeline(pre, C->copy, c));
    } else {
      pipelines.emplace_back(new RigPipeline(C->in_cam.back(), C->copy, c));
    }
  }
  aslam::NCameraId rig_id;
  aslam::generateId(&rig_id);
  std::shared_ptr<aslam::NCamera> in(new aslam::NCamera(rig_id, poses, C->in_cam, "in"));
  std::shared_ptr<aslam::NCamera> out = in;
  if (C->preprocess) {
    aslam::generateId(&rig_id);
    out.reset(new aslam::NCamera(rig_id, poses, C->out_cam, "out"));
  }
  C->pipe.reset(new VisualNPipeline(static_cast<size_t>(plan.cfg[kWorkers]), pipelines, in, out, C->tolerance));
  if (C->pipe->getInputNCameras() != in || C->pipe->getOutputNCameras() != out)
    sim::fail("C10", "rig", "the pipeline reports other camera rigs than it was given");
  std::vector<std::thread> threads;
  for (int t = 0; t < plan.nthreads; ++t) threads.emplace_back([t, &plan]() { body(plan.th[t]); });

  const int end_mode = static_cast<int>(plan.cfg[kEnd]);
  bool just_destroy = false;
  if (end_mode == kSettle || end_mode == kJustDestroy) {
    sim::wait_quiescent();
    check_settled();
    sim::label("getNext");
    while (true) {  // drains what is complete; also frees waiting feeders
      fetch(kNext);
      sim::Quiet q;
      if (C->ne == 0 || C->ne >= kMaxEvents || !C->e[C->ne - 1].got || C->e[C->ne - 1].code != kNext) break;
    }
    sim::wait_quiescent();
    check_settled();
    if (end_mode == kJustDestroy) {
      sim::Quiet q;
      just_destroy = !C->shutdown_call;
      for (const Current& w : C->now) just_destroy &= !w.code;
    }
  } else {
    sim::advance_time(plan.cfg[kEndDelay]);
  }
  if (!just_destroy) do_shutdown();
  for (std::thread& t : threads) t.join();
  if (just_destroy) {  // without shutdown(), while images are being processed
    for (int k = 0; k < 3; ++k) {
      Op op;
      op.code = kFeed;
      op.a[0] = k % C->cams;
      op.a[1] = 90000 + 1000 * k;
      op.a[2] = kPlain + 4 * (k == 1 ? kSlow : kNormal);
      op.a[3] = 1;
      feed(op);
    }
    sim::probe("destroyed_while_working");
  } else if (end_mode != kDestroyNow) {
    wait_all();
    {
      std::shared_ptr<VisualNFrame> nf;
      if (C->pipe->getNextBlocking(&nf) || C->pipe->getLatestAndClearBlocking(&nf) || nf)
        SIM_SOFT("C12", "fetch-after-shutdown", "a blocking fetch succeeded after shutdown() returned");
    }
    for (int i = 0; i < kMaxEvents; ++i) {
      int e;
      {
        sim::Quiet q;
        e = C->ne;
        if (e >= kMaxEvents) break;
      }
      fetch(kNext);
      sim::Quiet q;
      if (!C->e[e].got) break;
    }
  }
  C->pipe.reset();
  sim::Quiet q;
  C->gone = true;
  if (C->bad_fed)
    for (int i = 0; i < C->nim; ++i)
      if (C->im[i].bad && C->im[i].accepted)
        SIM_SOFT("C10", "bad-image-taken", "an image for a camera that the rig does not have was not refused");
  for (int i = 0; i < C->nim; ++i) {
    const Image& im = C->im[i];
    if (im.accepted && !im.bad && im.finished + im.failed != 1) {
      if (im.method == kIfFull && im.ret > C->shutdown_call)
        SIM_SOFT("C12", "accepted-but-dropped", "a blocking feed reports that image %d was taken during shutdown, but it is never processed", i);
      SIM_SOFT("C11", "image-lost", "image %d was taken and never processed", i);
    }
    if (im.no_memory && im.processed) sim::probe("processed_after_failure");
  }
  Checker c;
  for (int i = 0; i < C->ne; ++i) {
    if (!C->e[i].code) continue;
    if (C->e[i].ret == ~0ull) C->e[i].ret = sim::stamp();
    c.order.push_back(i);
    c.all |= Checker::Mask(1) << i;
  }
  std::sort(c.order.begin(), c.order.end(), [](int a, int b) { return C->e[a].call < C->e[b].call; });
  if (C->overflow) sim::inconclusive("history too long");
  const bool ok = c.search(0, State());
  if (c.gave_up || C->overflow) sim::inconclusive("history too large to check");
  if (!ok) {
    static char text[12000];
    describe_history(text, sizeof(text));
    sim::fail(model_props, "not-explained", "no order of the operations explains what was delivered (%d cameras, tolerance %lld):%s", C->cams, (long long)C->tolerance, text);
  }
  sim::probe("history_checked");
}

// ------------------------------------------------------------------ workloads
struct Style {
  double loss, dup, thrown, shifted, slow, no_memory, swap;
  int if_full, drop_oldest;        // of 10 feeds
  int next, next_block, latest, latest_block, query;  // weights
  double shutdown;
};
int64_t g_period, g_base;  // of the workload just made
void gen_rig(Rng& r, Plan* p, sim::Env* env, bool thorough, const Style& st, bool wild_ok) {
  const int cams = static_cast<int>(r.below(8) == 0 ? 1 : r.range(2, r.below(3) ? 3 : 4));
  // Microseconds between images, or real rates and pauses, from any origin.
  static const int64_t kPeriods[] = {33333333, 1ll << 31, 1ll << 32, (1ll << 32) - 7, 3600000000000ll};
  static const int64_t kBases[] = {0, 1ll << 32, 1600000000000000000ll};
  const int64_t period = g_period = r.chance(0.75) ? 1000 : kPeriods[r.below(5)];
  const int64_t base = g_base = r.chance(0.75) ? 1000 : kBases[r.below(3)];
  const bool wild = wild_ok && r.chance(0.2);
  const int64_t tolerance = wild ? static_cast<int64_t>(r.below(60)) : r.chance(0.3) ? 0 : r.range(20, 200);
  const int64_t jitter = wild ? 40 : tolerance / 2;
  p->add_cfg(cams, 1);
  p->add_cfg(r.range(1, 4), 1);
  p->add_cfg(tolerance, 0);
  p->add_cfg(r.chance(0.3), 0);
  p->add_cfg(r.chance(0.25), 0);
  const uint64_t em = r.below(10);
  p->add_cfg(em < 5 ? kSettle : em < 7 ? kJustDestroy : em < 9 ? kShutNow : kDestroyNow, 0);
  p->add_cfg(0, 0);
  p->add_cfg(static_cast<int64_t>(r.below(4000)), 0);
  env->alloc_fail = st.no_memory > 0;
  const int instants = static_cast<int>(r.range(2, thorough ? 10 : 7));
  const int feeders = r.chance(0.2) ? 1 : r.chance(0.5) ? cams : static_cast<int>(r.range(1, cams));
  const int fetchers = static_cast<int>(r.range(1, 2));
  p->nthreads = feeders + fetchers;
  for (int k = 0; k < instants; ++k)
    for (int c = 0; c < cams; ++c) {
      if (r.chance(st.loss)) continue;
      const int copies = r.chance(st.dup) ? 2 : 1;
      int64_t ts = 0;
      for (int d = 0; d < copies; ++d) {
        if (!d || r.chance(0.4)) ts = wild ? base + static_cast<int64_t>(r.below(400))
                          : base + 1000 + k * period + (jitter ? r.range(-jitter, jitter) : 0);
        const uint64_t m = r.below(10);
        const int method = m < static_cast<uint64_t>(st.if_full) ? kIfFull
                         : m < static_cast<uint64_t>(st.if_full + st.drop_oldest) ? kDropOldest : kPlain;
        int treatment = kNormal;
        if (r.chance(st.thrown)) treatment = kThrows;
        else if (r.chance(st.shifted)) treatment = kShifted;
        else if (r.chance(st.slow)) treatment = kSlow;
        else if (r.chance(st.no_memory)) treatment = kNoMemory;
        const int64_t limit = method == kIfFull && r.chance(0.05) ? 0 : r.range(1, 3);
        const int t = c % feeders;
        p->add(t, kFeed, c, ts, method + 4 * treatment, limit);
        if (r.chance(d + 1 < copies ? 0.6 : 0.25)) p->add(t, kSleep, static_cast<int64_t>(r.below(1500)));
      }
    }
  // Images overtake each other.
  for (int t = 0; t < feeders; ++t)
    for (int i = 0; i + 1 < p->th[t].n; ++i)
      if (r.chance(st.swap)) std::swap(p->th[t].ops[i], p->th[t].ops[static_cast<size_t>(i + 1 + r.below(std::min(4, p->th[t].n - i - 1)))]);
  const int total = st.next + st.next_block + st.latest + st.latest_block + st.query;
  for (int t = feeders; t < p->nthreads; ++t) {
    const int n = static_cast<int>(r.range(1, thorough ? 9 : 7));
    for (int i = 0; i < n; ++i) {
      int w = static_cast<int>(r.below(static_cast<uint64_t>(total)));
      if ((w -= st.next) < 0) p->add(t, kNext);
      else if ((w -= st.next_block) < 0) p->add(t, kNextBlock);
      else if ((w -= st.latest) < 0) p->add(t, kLatest);
      else if ((w -= st.latest_block) < 0) p->add(t, kLatestBlock);
      else p->add(t, r.chance(0.6) ? kNumProcessing : r.chance(0.6) ? kNumComplete : kWaitAll);
      if (r.chance(0.4)) p->add(t, kSleep, static_cast<int64_t>(r.below(3000)));
    }
  }
  if (r.chance(st.shutdown)) {
    const int t = static_cast<int>(r.below(static_cast<uint64_t>(p->nthreads)));
    p->add(t, kShutdown);
    std::swap(p->th[t].ops[p->th[t].n - 1], p->th[t].ops[r.below(static_cast<uint64_t>(p->th[t].n))]);
  }
}
//                      loss  dup   throw shift slow  mem   swap  if drop next blk lat latb qry shutdown
const Style kSync    = {0.01, 0.02, 0.01, 0.04, 0.10, 0.02, 0.15, 1, 1,   4,   3,  0,  0,   3, 0.05};
const Style kQueue   = {0.02, 0.01, 0.01, 0.00, 0.10, 0.00, 0.05, 6, 2,   3,   6,  1,  3,   1, 0.35};
const Style kLoss    = {0.12, 0.02, 0.05, 0.02, 0.10, 0.02, 0.10, 1, 0,   4,   2,  0,  0,   3, 0.03};
const Style kNewest  = {0.03, 0.10, 0.01, 0.02, 0.10, 0.00, 0.15, 1, 1,   1,   1,  5,  4,   3, 0.05};

void gen_sync(Rng& r, Plan* p, sim::Env* env, bool th) {
  gen_rig(r, p, env, th, kSync, true);
  if (r.chance(0.03)) {  // somebody feeds a camera that does not exist
    const int t = static_cast<int>(r.below(static_cast<uint64_t>(p->nthreads)));
    p->add(t, kFeed, r.chance(0.7) ? 7 : 8 + static_cast<int64_t>(r.below(3)), 1000 + static_cast<int64_t>(r.below(3000)), kPlain, 1);
  }
}
void gen_queue(Rng& r, Plan* p, sim::Env* env, bool th) { gen_rig(r, p, env, th, kQueue, false); }
void gen_loss(Rng& r, Plan* p, sim::Env* env, bool th) { gen_rig(r, p, env, th, kLoss, false); }
void gen_newest(Rng& r, Plan* p, sim::Env* env, bool th) {
  gen_rig(r, p, env, th, kNewest, true);
  if (!r.chance(0.2)) return;
  // A complete set waits, some of its images (or neighbours) arrive again, and
  // then the newest set is fetched.
  if (p->nthreads >= sim::kMaxThreads) return;
  const int t = r.chance(0.5) ? p->nthreads++ : 0;
  if (t == p->nthreads - 1) p->th[t].n = 0;
  const bool alone = r.chance(0.5);
  for (int i = 0; i < p->nthreads; ++i)
    if (i != t && (alone || (p->th[i].n && p->th[i].ops[0].code != kFeed && r.chance(0.5)))) p->th[i].n = 0;
  const int cams = static_cast<int>(p->cfg[kCams]);
  const int64_t ts = g_base + g_period * r.range(0, 11) + std::min<int64_t>(g_period / 2, 1500);
  for (int c = 0; c < cams; ++c) p->add(t, kFeed, c, ts, kPlain, 1);
  p->add(t, kSleep, 4000);
  const int64_t late[3] = {ts, ts - p->cfg[kTolerance] - 1, ts + p->cfg[kTolerance] + 1};
  for (int k = 0; k < 3; ++k)
    if (r.chance(0.6))
      for (int c = 0; c < cams - 1; ++c)
        if (r.chance(0.6)) p->add(t, kFeed, c, late[k], kPlain, 1);
  p->add(t, kSleep, 4000);
  p->add(t, r.chance(0.5) ? kLatest : kLatestBlock);
  p->add(t, kNumProcessing);
  for (int k = 0; k < 3; ++k)
    for (int c = 0; c < cams; ++c)
      if (r.chance(0.4)) p->add(t, kFeed, c, late[k], kPlain, 1);
}
void run_sync(const Plan& p) { kDefault = "C10,C11"; run(p, "C11"); }
void run_queue(const Plan& p) { kDefault = "C12"; run(p, "C11,C12"); }
void run_loss(const Plan& p) { kDefault = "C13"; run(p, "C11,C13"); }
void run_newest(const Plan& p) { kDefault = "C14"; run(p, "C11,C14"); }

const sim::Harness h1 = {"rig_sync", "C10,C11,C12", gen_sync, run_sync};
const sim::Harness h2 = {"rig_queue", "C10,C11,C12", gen_queue, run_queue};
const sim::Harness h3 = {"rig_loss", "C10,C11,C12,C13", gen_loss, run_loss};
const sim::Harness h4 = {"rig_latest", "C10,C11,C12,C14", gen_newest, run_newest};
sim::Registrar r1(&h1), r2(&h2), r3(&h3), r4(&h4);
}  // namespace
