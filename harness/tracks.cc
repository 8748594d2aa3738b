// Simulated workloads for feature tracks and their ids.
//   C21 track ids are unique and follow the matches
#include <aslam/cameras/camera-pinhole.h>
#include <aslam/frames/visual-frame.h>
#include <aslam/matcher/match.h>
#include <aslam/tracker/track-manager.h>

#include <memory>
#include <thread>
#include <unordered_map>
#include <vector>

#include "simrt.h"

namespace {
using sim::Op;
using sim::Plan;
using sim::Rng;

enum { kOwn = 4, kShared = 2, kMaxKeypoints = 8, kMaxIssued = 400 };
enum OpCode {
  kApply = 1,  // frame A, frame B, match seed, kind of mistake (0: none)
  kCreate,     // frame
  kCopy,       // own frame: goes on as a copy, while the original is changed
  kPreset,     // frame: track ids are set by hand
  kProvider,   // 0: new id, 1: reset, of an id provider of its own
  kSleep,
};
enum Mistake { kNoMistake = 0, kTwiceA, kTwiceB, kBeyondA, kBeyondB, kNegative, kConflict, kMistakes };
enum CfgIdx { kKeypoints = 0, kPhases, kInitialId };

// What a frame's track ids have to be.
struct Slot {
  aslam::VisualFrame::Ptr frame;
  bool exists = false;
  int n = 0;
  int id[kMaxKeypoints];
};
struct Call {
  bool reset;
  long value;
  uint64_t call, ret;
};
struct Ctx {
  Slot own[sim::kMaxThreads][kOwn], shared[kShared];
  bool issued[kMaxIssued];  // since the last reset
  int num_issued = 0;
  int preset = 100000;      // ids given by hand, never issued
  bool mistake[sim::kMaxSimThreads];
  std::unique_ptr<aslam::ThreadSafeIdProvider<long>> provider;
  long initial = 0;
  Call call[40];
  int calls = 0;
};
Ctx* C = nullptr;
const char* const kMistakeName[] = {"",          "a keypoint of A matched twice", "a keypoint of B matched twice",
                                    "an index beyond A", "an index beyond B", "a negative index",
                                    "two different existing tracks"};

void on_abort() {
  if (C->mistake[sim::tid()]) sim::set_abort_ok(true);
}

void init_slot(Slot* s, const aslam::Camera::ConstPtr& camera, int n, int64_t stamp) {
  s->frame = aslam::VisualFrame::createEmptyTestVisualFrame(camera, stamp);
  s->exists = false;
  s->n = n;
  Eigen::Matrix2Xd k(2, n);
  for (int i = 0; i < n; ++i) k.col(i) << 10 + i, 20 + i;
  s->frame->setKeypointMeasurements(k);
  for (int& x : s->id) x = -1;
}

void expect(const Slot& s, const char* what) {
  sim::Quiet q;
  if (s.frame->hasTrackIds() != s.exists)
    sim::fail("C21", "channel", "after %s the frame %s track ids", what, s.exists ? "has no" : "has");
  if (!s.exists) return;
  const Eigen::VectorXi& got = s.frame->getTrackIds();
  if (got.rows() != s.n) sim::fail("C21", "count", "after %s the frame has %d track ids for %d keypoints", what, (int)got.rows(), s.n);
  for (int i = 0; i < s.n; ++i)
    if (got(i) != s.id[i])
      sim::fail("C21", "wrong-id", "after %s keypoint %d has track id %d, expected %d", what, i, got(i), s.id[i]);
}

void fresh(int id) {
  sim::Quiet q;
  if (id < 0 || id >= kMaxIssued) sim::fail("C21", "wrong-id", "a new track got id %d", id);
  if (C->issued[id]) sim::fail("C21", "id-reused", "track id %d was given to two tracks", id);
  C->issued[id] = true;
  ++C->num_issued;
}

void create(Slot* s) {
  if (s->exists) return;
  s->exists = true;
  for (int i = 0; i < s->n; ++i) s->id[i] = -1;
}

void apply(Slot* a, Slot* b, Rng& r, int mistake) {
  aslam::FrameToFrameMatches m;
  int pa[kMaxKeypoints], pb[kMaxKeypoints];
  for (int i = 0; i < a->n; ++i) pa[i] = i;
  for (int i = 0; i < b->n; ++i) pb[i] = i;
  for (int i = a->n - 1; i > 0; --i) std::swap(pa[i], pa[r.below(i + 1)]);
  for (int i = b->n - 1; i > 0; --i) std::swap(pb[i], pb[r.below(i + 1)]);
  const int most = std::min(a->n, b->n);
  const int n = static_cast<int>(r.chance(0.1) ? 0 : r.range(1, most));
  auto id_of = [](const Slot* s, int i) { return s->exists ? s->id[i] : -1; };
  int n_ok = 0;
  bool conflict = false;
  for (int i = 0; i < n; ++i) {
    const int ia = id_of(a, pa[i]), ib = id_of(b, pb[i]);
    if (ia >= 0 && ib >= 0 && ia != ib) {
      if (mistake != kConflict || conflict) continue;  // leave such pairs out
      conflict = true;
    }
    m.emplace_back(pa[i], pb[i]);
    ++n_ok;
  }
  switch (mistake) {
    case kTwiceA: if (n_ok && n < b->n) m.emplace_back(m[0].first, pb[n]); else mistake = kNoMistake; break;
    case kTwiceB: if (n_ok && n < a->n) m.emplace_back(pa[n], m[0].second); else mistake = kNoMistake; break;
    case kBeyondA: if (n < b->n) m.emplace_back(a->n + static_cast<int>(r.below(2)), pb[n]); else mistake = kNoMistake; break;
    case kBeyondB: if (n < a->n) m.emplace_back(pa[n], b->n + static_cast<int>(r.below(2))); else mistake = kNoMistake; break;
    case kNegative: if (n < a->n) m.emplace_back(pa[n], -1 - static_cast<int>(r.below(2))); else mistake = kNoMistake; break;
    case kConflict: if (!conflict) mistake = kNoMistake; break;
    default: break;
  }
  aslam::SimpleTrackManager manager;
  C->mistake[sim::tid()] = mistake != kNoMistake;
  sim::label("applyMatchesToFrames");
  manager.applyMatchesToFrames(m, a->frame.get(), b->frame.get());
  sim::label("");
  if (mistake != kNoMistake) sim::fail("C21", "mistake-accepted", "matches with %s were accepted", kMistakeName[mistake]);
  create(a);
  create(b);
  for (const auto& x : m) {
    int& ia = a->id[x.first];
    int& ib = b->id[x.second];
    if (ia < 0 && ib < 0) {
      sim::Quiet q;
      const int id = a->frame->getTrackIds()(x.first);
      fresh(id);
      ia = ib = id;
      sim::probe("new_track");
    } else if (ia < 0) {
      ia = ib;
      sim::probe("copied_to_a");
    } else if (ib < 0) {
      ib = ia;
      sim::probe("copied_to_b");
    } else {
      sim::probe("kept");
    }
  }
  expect(*a, "matching (frame A)");
  expect(*b, "matching (frame B)");
}

void provider(bool reset) {
  const uint64_t c = sim::stamp();
  long v = 0;
  if (reset)
    C->provider->reset();
  else
    v = C->provider->getNewId();
  const uint64_t r = sim::stamp();
  sim::Quiet q;
  C->call[C->calls++] = {reset, v, c, r};
}

// Is there an order of the calls, respecting real time, that explains the
// returned ids?
bool explain(uint64_t left, long next, std::unordered_map<uint64_t, bool>* seen) {
  if (!left) return true;
  const uint64_t key = left * 1000003u + static_cast<uint64_t>(next);
  if (!seen->emplace(key, true).second) return false;
  uint64_t first_ret = ~0ull;
  for (int i = 0; i < C->calls; ++i)
    if (left >> i & 1) first_ret = std::min(first_ret, C->call[i].ret);
  for (int i = 0; i < C->calls; ++i) {
    if (!(left >> i & 1) || C->call[i].call > first_ret) continue;
    const Call& c = C->call[i];
    if (c.reset) {
      if (explain(left & ~(1ull << i), C->initial, seen)) return true;
    } else if (c.value == next) {
      if (explain(left & ~(1ull << i), next + 1, seen)) return true;
    }
  }
  return false;
}

Slot* slot(int me, int64_t which) {
  which %= kOwn + kShared;
  return which < kOwn ? &C->own[me][which] : &C->shared[which - kOwn];
}
bool is_shared(const Slot* s) { return s >= C->shared && s < C->shared + kShared; }

void body(int me, const sim::PlanThread& ops, int phase) {
  for (int i = 0; i < ops.n; ++i) {
    const Op& op = ops.ops[i];
    if (op.a[3] / 100 != phase) continue;
    Slot* a = slot(me, op.a[0]);
    Slot* b = op.code == kApply ? slot(me, op.a[1]) : nullptr;
    if (a == b) continue;
    if (op.code == kProvider) {
      if (C->calls < 20) provider(op.a[0] % 2 == 1);
      continue;
    }
    if (op.code == kSleep) {
      sim::advance_time(op.a[0]);
      continue;
    }
    Slot* first = b && is_shared(b) && (!is_shared(a) || b < a) ? b : a;
    Slot* second = first == a ? b : a;
    if (is_shared(first)) first->frame->lock();
    if (second && is_shared(second)) second->frame->lock();
    Rng r(static_cast<uint64_t>(op.a[2]));
    switch (op.code) {
      case kApply: apply(a, b, r, static_cast<int>(op.a[3] % 100)); break;
      case kCreate: {
        Eigen::VectorXi* ids = aslam::TrackManager::createAndGetTrackIdChannel(a->frame.get());
        create(a);
        if (ids != a->frame->getTrackIdsMutable()) sim::fail("C21", "channel", "the returned track ids are not the frame's");
        expect(*a, "creating the channel");
        break;
      }
      case kCopy: {
        if (is_shared(a)) break;
        aslam::VisualFrame::Ptr old = a->frame;
        a->frame.reset(new aslam::VisualFrame(*old));
        if (a->exists && a->n) (*old->getTrackIdsMutable())(0) += 7;
        expect(*a, "copying");
        break;
      }
      case kPreset: {
        Eigen::VectorXi ids(a->n);
        for (int k = 0; k < a->n; ++k) {
          sim::Quiet q;
          ids(k) = a->id[k] = r.chance(0.5) ? -1 - static_cast<int>(r.below(3)) : C->preset++;
        }
        a->frame->setTrackIds(ids);
        a->exists = true;
        break;
      }
    }
    if (second && is_shared(second)) second->frame->unlock();
    if (is_shared(first)) first->frame->unlock();
  }
}

void make_frames(const Plan& plan) {
  sim::Quiet q;
  aslam::Camera::Ptr camera = aslam::PinholeCamera::createTestCamera();
  aslam::CameraId id;
  aslam::generateId(&id);
  camera->setId(id);
  const int n = static_cast<int>(plan.cfg[kKeypoints]);
  for (int t = 0; t < plan.nthreads; ++t)
    for (int k = 0; k < kOwn; ++k) init_slot(&C->own[t][k], camera, 1 + (n + k) % kMaxKeypoints, 100 * t + k);
  for (int k = 0; k < kShared; ++k) init_slot(&C->shared[k], camera, 1 + (n + k + 3) % kMaxKeypoints, 5000 + k);
}

void run(const Plan& plan) {
  sim::set_default_props("C21");
  sim::set_stuck_props("C21");
  C = new Ctx;
  for (bool& x : C->issued) x = false;
  for (bool& x : C->mistake) x = false;
  sim::set_abort_callback(on_abort);
  {
    sim::Quiet q;
    make_frames(plan);
    C->initial = plan.cfg[kInitialId];
    C->provider.reset(new aslam::ThreadSafeIdProvider<long>(C->initial));
  }
  for (int phase = 0; phase < plan.cfg[kPhases]; ++phase) {
    std::vector<std::thread> threads;
    for (int t = 0; t < plan.nthreads; ++t)
      threads.emplace_back([t, phase, &plan] { body(t, plan.th[t], phase); });
    for (std::thread& t : threads) t.join();
    if (C->num_issued && !C->issued[0]) sim::fail("C21", "restart", "the first track after a reset did not get id 0");
    for (int t = 0; t < plan.nthreads; ++t)
      for (const Slot& s : C->own[t]) expect(s, "a phase");
    for (const Slot& s : C->shared) expect(s, "a phase");
    if (phase + 1 == plan.cfg[kPhases]) break;
    // A new recording: ids start again and the frames are new.
    aslam::TrackManager::resetIdProvider();
    for (bool& x : C->issued) x = false;
    C->num_issued = 0;
    make_frames(plan);
    sim::probe("reset");
  }
  sim::Quiet q;
  std::unordered_map<uint64_t, bool> seen;
  if (!explain((1ull << C->calls) - 1, C->initial, &seen)) {
    std::string h;
    for (int i = 0; i < C->calls; ++i)
      h += (i ? ", " : "") + (C->call[i].reset ? std::string("reset") : "id " + std::to_string(C->call[i].value)) + " [" +
           std::to_string(C->call[i].call) + "," + std::to_string(C->call[i].ret) + "]";
    sim::fail("C21", "provider-history", "no order of the calls of an id provider that starts at %ld explains: %s", C->initial, h.c_str());
  }
}

void gen(Rng& r, Plan* p, sim::Env*, bool thorough) {
  p->add_cfg(r.range(0, kMaxKeypoints - 1), 0);
  p->add_cfg(r.chance(0.3) ? 2 : 1, 1);
  p->add_cfg(r.chance(0.5) ? 0 : r.range(-3, 50), 0);
  p->nthreads = static_cast<int>(r.chance(0.15) ? 1 : r.range(2, thorough ? 4 : 3));
  const bool provider_run = r.chance(0.3), mistakes = r.chance(0.25);
  const double shared = r.chance(0.5) ? 0.4 : 0.0;
  for (int64_t phase = 0; phase < p->cfg[kPhases]; ++phase)
    for (int t = 0; t < p->nthreads; ++t) {
      const int n = static_cast<int>(r.range(1, thorough ? 8 : 5));
      auto frame = [&] { return r.chance(shared) ? kOwn + static_cast<int64_t>(r.below(kShared)) : static_cast<int64_t>(r.below(kOwn)); };
      for (int i = 0; i < n; ++i) {
        const uint64_t w = r.below(20);
        const int64_t seed = static_cast<int64_t>(r.next() >> 1);
        if (provider_run && w < 10) p->add(t, kProvider, r.chance(0.15), 0, 0, phase * 100);
        else if (w < 16)
          p->add(t, kApply, frame(), frame(), seed,
                 phase * 100 + (mistakes && r.chance(0.2) ? r.range(1, kMistakes - 1) : 0));
        else if (w < 17) p->add(t, kCreate, frame(), 0, seed, phase * 100);
        else if (w < 18) p->add(t, kCopy, frame(), 0, seed, phase * 100);
        else p->add(t, kPreset, frame(), 0, seed, phase * 100);
      }
    }
}
const sim::Harness h = {"track_ids", "C21", gen, run};
sim::Registrar reg(&h);
}  // namespace
