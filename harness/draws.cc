// Simulated workloads for random selections.
//   C23 a random selection is complete, distinct and independent of everything
//       but its entropy
#include <aslam/common/feature-descriptor-ref.h>
#include <aslam/common/memory.h>
#include <aslam/common/stl-helpers.h>

#include <cmath>
#include <memory>
#include <new>
#include <random>
#include <stdexcept>
#include <thread>
#include <vector>

#include "simrt.h"

namespace {
using sim::Op;
using sim::Plan;
using sim::Rng;

// ------------------------------------------------------------- entropy source
// std::random_device of every thread reads from here while a run is going on.
enum EntropyMode { kHonest = 0, kConstant, kCycle, kCounter, kFailing, kEntropyModes };
struct Entropy {
  int mode = kHonest;
  uint64_t seed = 0, n = 0;
};
Entropy* E = nullptr;
unsigned entropy() {
  sim::Quiet q;
  const uint64_t i = E->n++;
  switch (E->mode) {
    case kConstant: return static_cast<unsigned>(E->seed);
    case kCycle: return static_cast<unsigned>(Rng::mix(E->seed + i % 3));
    case kCounter: return static_cast<unsigned>(E->seed + i);
    default: return static_cast<unsigned>(Rng::mix(E->seed * 7919 + i));
  }
}
bool failing() { return E && E->mode == kFailing && sim::in_sim() && sim::fault("entropy_failure", 2, 0.4) != 0; }
}  // namespace

namespace std {
void random_device::_M_init(const std::string&) {
  if (failing()) throw std::runtime_error("random_device: simulated failure to open");
}
void random_device::_M_fini() {}
random_device::result_type random_device::_M_getval() {
  if (failing()) throw std::runtime_error("random_device: simulated failure to read");
  return E ? entropy() : 4u;
}
}  // namespace std

namespace {
enum OpCode {
  kDraw = 1,   // input size, n, seed, 0: plain 1: fixed seed
  kReuse,      // the same, into an output that holds something already
  kCover,      // input size, n: every element is drawn sooner or later
  kFlip,       // descriptor bytes, bits, seed
  kShared,     // n, fixed: from the input shared by all threads
  kTooMany,    // bits: more bits than there are
};
enum CfgIdx { kMode = 0, kSeed, kSharedSize, kAlloc };

struct Element {  // no default constructor
  explicit Element(int p, double v) : position(p), value(v) {}
  int position;
  double value;
};
typedef std::vector<Element> Elements;
typedef std::vector<Eigen::Vector4d, Eigen::aligned_allocator<Eigen::Vector4d>> Points;
struct Ctx {
  Elements shared;
  std::vector<int> fixed[8][40];  // what the fixed seed gave: size class, n
  bool mistake[sim::kMaxSimThreads];
};
Ctx* C = nullptr;
void on_abort() {
  if (C->mistake[sim::tid()]) sim::set_abort_ok(true);
}

Elements make_input(int n) {
  Elements e;
  e.reserve(n);
  for (int i = 0; i < n; ++i) e.emplace_back(i, 0.5 * i);
  return e;
}

void check(const Elements& in, const Elements& out, size_t n, bool copy_order) {
  sim::Quiet q;
  const size_t want = std::min(n, in.size());
  if (out.size() != want) sim::fail("C23", "count", "%zu elements drawn from %zu, asked for %zu", out.size(), in.size(), n);
  std::vector<bool> seen(in.size(), false);
  for (size_t i = 0; i < out.size(); ++i) {
    const int p = out[i].position;
    if (p < 0 || p >= static_cast<int>(in.size()) || out[i].value != in[p].value)
      sim::fail("C23", "foreign-element", "an element was drawn that is not in the input");
    if (seen[p]) sim::fail("C23", "drawn-twice", "the element at position %d was drawn twice", p);
    seen[p] = true;
    if (copy_order && p != static_cast<int>(i)) sim::fail("C23", "order", "drawing everything changed the order of the elements");
  }
}

// Returns false if the draw was given up because of a fault.
bool draw(const Elements& in, size_t n, bool fixed, bool two_argument, Elements* out) {
  try {
    sim::AllocFaultScope s;
    sim::label("drawNRandomElements");
    if (two_argument)
      aslam::common::drawNRandomElements(n, in, out);
    else
      aslam::common::drawNRandomElements(n, in, out, fixed);
    sim::label("");
    return true;
  } catch (const std::bad_alloc&) {
    sim::probe("allocation_failed");
  } catch (const std::runtime_error&) {
    if (fixed) sim::fail("C23", "entropy-used", "drawing with the fixed seed asked for entropy");
    sim::probe("entropy_failed");
  }
  sim::label("");
  return false;
}

void one_draw(const Elements& in, size_t n, bool fixed, Rng& r, bool reuse) {
  Elements out;
  if (reuse) out = make_input(static_cast<int>(r.range(0, 30)));
  if (!draw(in, n, fixed, !fixed && r.chance(0.5), &out)) return;
  check(in, out, n, n >= in.size());
  for (size_t i = 0; i < in.size(); ++i)
    if (in[i].position != static_cast<int>(i)) sim::fail("C23", "input-changed", "drawing changed the input");
  if (fixed && in.size() < 40) {
    // The fixed seed: a function of the input alone.
    sim::Quiet q;
    std::vector<int>& f = C->fixed[n % 8][in.size()];
    std::vector<int> now(1, static_cast<int>(n));
    for (const Element& e : out) now.push_back(e.position);
    if (!f.empty() && f[0] == now[0] && f != now)
      sim::fail("C23", "not-repeatable", "drawing %zu of %zu elements twice with the fixed seed gave different elements", n, in.size());
    f = now;
  }
  sim::probe(fixed ? "drawn_fixed" : "drawn");
}

void cover(int size, size_t n) {
  const Elements in = make_input(size);
  std::vector<bool> seen(size, false);
  int left = size;
  const double miss = std::log(1.0 - static_cast<double>(n) / size);
  const int draws = 4 + static_cast<int>(-60.0 / miss);  // e^-60 per element
  for (int i = 0; i < draws && left; ++i) {
    Elements out;
    if (!draw(in, n, false, false, &out)) return;
    check(in, out, n, false);
    sim::Quiet q;
    for (const Element& e : out)
      if (!seen[e.position]) {
        seen[e.position] = true;
        --left;
      }
  }
  if (left && E->mode == kHonest)
    for (int i = 0; i < size; ++i)
      if (!seen[i]) sim::fail("C23", "never-drawn", "position %d of %d was never drawn in %d draws of %zu elements", i, size, draws, n);
  sim::probe("covered");
}

void points_draw(int size, size_t n, Rng& r) {
  Points in, out;
  for (int i = 0; i < size; ++i) in.push_back(Eigen::Vector4d(i, 1, 2, 3));
  try {
    aslam::common::drawNRandomElements(n, in, &out, r.chance(0.3));
  } catch (const std::runtime_error&) {
    return;
  }
  sim::Quiet q;
  std::vector<bool> seen(size, false);
  if (out.size() != std::min<size_t>(n, size)) sim::fail("C23", "count", "%zu points drawn from %d, asked for %zu", out.size(), size, n);
  for (const auto& p : out) {
    const int i = static_cast<int>(p[0]);
    if (i < 0 || i >= size || p[3] != 3) sim::fail("C23", "foreign-element", "a point was drawn that is not in the input");
    if (seen[i]) sim::fail("C23", "drawn-twice", "the point at position %d was drawn twice", i);
    seen[i] = true;
  }
}

void flip(int bytes, int bits, Rng& r) {
  std::vector<unsigned char> d(bytes), before;
  for (unsigned char& x : d) x = static_cast<unsigned char>(r.next());
  before = d;
  aslam::common::FeatureDescriptorRef ref(&d[0], static_cast<uint32_t>(bytes), false);
  aslam::common::FlipNRandomBits(static_cast<size_t>(bits), &ref);
  sim::Quiet q;
  int n = 0;
  for (int i = 0; i < bytes; ++i) n += __builtin_popcount(d[i] ^ before[i]);
  if (n != bits) sim::fail("C23", "flipped-bits", "%d of %d bits differ after flipping %d", n, bytes * 8, bits);
  sim::probe("flipped");
}

void body(const sim::PlanThread& ops) {
  for (int i = 0; i < ops.n; ++i) {
    const Op& op = ops.ops[i];
    Rng r(static_cast<uint64_t>(op.a[2]));
    const int size = static_cast<int>(op.a[0]);
    const size_t n = static_cast<size_t>(op.a[1]);
    switch (op.code) {
      case kDraw: one_draw(make_input(size), n, op.a[3] != 0, r, false); break;
      case kReuse:
        if (r.chance(0.3))
          points_draw(size, n, r);
        else
          one_draw(make_input(size), n, op.a[3] != 0, r, true);
        break;
      case kCover: cover(std::max(size, static_cast<int>(n) + 1), n); break;
      case kShared: one_draw(C->shared, n, op.a[3] != 0, r, false); break;
      case kFlip: flip(size, std::min<int>(op.a[1], size * 8 - 1), r); break;
      case kTooMany:
        C->mistake[sim::tid()] = true;
        flip(size, size * 8 + static_cast<int>(op.a[1]), r);
        sim::fail("C23", "mistake-accepted", "flipping more bits than the descriptor has was accepted");
    }
  }
}

void run(const Plan& plan) {
  sim::set_default_props("C23");
  sim::set_stuck_props("C23");
  C = new Ctx;
  for (bool& x : C->mistake) x = false;
  sim::set_abort_callback(on_abort);
  {
    sim::Quiet q;
    E = new Entropy;
    E->mode = static_cast<int>(plan.cfg[kMode]);
    E->seed = static_cast<uint64_t>(plan.cfg[kSeed]);
    C->shared = make_input(static_cast<int>(plan.cfg[kSharedSize]));
  }
  std::vector<std::thread> threads;
  for (int t = 0; t < plan.nthreads; ++t) threads.emplace_back([t, &plan] { body(plan.th[t]); });
  for (std::thread& t : threads) t.join();
}

void gen(Rng& r, Plan* p, sim::Env* env, bool thorough) {
  p->add_cfg(r.chance(0.5) ? kHonest : static_cast<int64_t>(r.below(kEntropyModes)), 0);
  p->add_cfg(r.chance(0.2) ? static_cast<int64_t>(r.below(3)) : static_cast<int64_t>(r.next() & 0xffffffffu), 0);
  p->add_cfg(r.range(0, 30), 0);
  env->alloc_fail = r.chance(0.3);
  p->nthreads = static_cast<int>(r.chance(0.3) ? 1 : r.range(2, thorough ? 4 : 3));
  for (int t = 0; t < p->nthreads; ++t) {
    const int n = static_cast<int>(r.range(1, thorough ? 8 : 5));
    for (int i = 0; i < n; ++i) {
      const int64_t size = r.chance(0.1) ? 0 : r.chance(0.1) ? r.range(40, 200) : r.range(1, 25);
      const int64_t want = r.chance(0.3) ? size + r.range(-1, 2) : r.range(1, 12);
      const int64_t k = std::max<int64_t>(1, want), seed = static_cast<int64_t>(r.next() >> 1);
      switch (r.below(8)) {
        case 0: case 1: p->add(t, kDraw, size, k, seed, r.chance(0.4)); break;
        case 2: p->add(t, kReuse, size, k, seed, r.chance(0.4)); break;
        case 3: p->add(t, kCover, r.range(2, 12), r.range(1, 6), seed); break;
        case 4: case 5: p->add(t, kShared, 0, k, seed, r.chance(0.5)); break;
        case 6: p->add(t, kFlip, r.range(1, 48), r.range(0, 60), seed); break;
        default:
          if (r.chance(0.1)) p->add(t, kTooMany, r.range(1, 16), r.range(1, 3), seed);
          else p->add(t, kDraw, size, k, seed, 1);
      }
    }
  }
}
const sim::Harness h = {"random_selection", "C23", gen, run};
sim::Registrar reg(&h);
}  // namespace
