// Deterministic simulation runtime: public interface used by the harnesses.
//
// One simulated run executes inside one forked child.  All threads created by
// the code under test are real pthreads, but exactly one of them holds the
// token at any time; which one is decided by a seeded scheduler.  Every
// synchronisation call, clock read, allocation and file operation goes through
// the runtime, and every instrumented memory access is a preemption point.
#ifndef VERIF_SIMRT_H_
#define VERIF_SIMRT_H_

#include <cstddef>
#include <cstdint>

namespace sim {

// ---------------------------------------------------------------- randomness
struct Rng {
  uint64_t s[2];
  explicit Rng(uint64_t seed = 1) { reseed(seed); }
  static uint64_t mix(uint64_t z) {
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  void reseed(uint64_t seed) {
    s[0] = mix(seed);
    s[1] = mix(s[0] ^ 0xabcdef1234567ull);
    if (!s[0] && !s[1]) s[0] = 1;
  }
  uint64_t next() {
    uint64_t a = s[0];
    const uint64_t b = s[1];
    s[0] = b;
    a ^= a << 23;
    s[1] = a ^ b ^ (a >> 18) ^ (b >> 5);
    return s[1] + b;
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int64_t range(int64_t lo, int64_t hi) {
    return lo + static_cast<int64_t>(below(static_cast<uint64_t>(hi - lo + 1)));
  }
  bool chance(double p) {
    return (next() >> 11) * (1.0 / 9007199254740992.0) < p;
  }
};

// ---------------------------------------------------------------------- plan
struct Op {
  int32_t code;
  int64_t a[4];
};
enum { kMaxThreads = 16, kMaxOps = 96, kMaxCfg = 24, kMaxSimThreads = 64 };
struct PlanThread {
  int n;
  Op ops[kMaxOps];
};
// The generated workload: everything a run does that is not a scheduling or
// fault decision.  Plain data, so the shrinker can drop any part of it.
struct Plan {
  int ncfg;
  int64_t cfg[kMaxCfg];
  int64_t cfg_min[kMaxCfg];
  int nthreads;
  PlanThread th[kMaxThreads];

  void clear() {
    ncfg = 0;
    nthreads = 0;
    for (int i = 0; i < kMaxThreads; ++i) th[i].n = 0;
  }
  void add_cfg(int64_t v, int64_t min) {
    cfg[ncfg] = v;
    cfg_min[ncfg++] = min;
  }
  Op* add(int t, int code, int64_t a0 = 0, int64_t a1 = 0, int64_t a2 = 0,
          int64_t a3 = 0) {
    if (th[t].n >= kMaxOps) return nullptr;
    Op* o = &th[t].ops[th[t].n++];
    o->code = code;
    o->a[0] = a0;
    o->a[1] = a1;
    o->a[2] = a2;
    o->a[3] = a3;
    return o;
  }
};

// Environment switches a harness may turn on for a run (fault kinds the
// scheduler may inject).  The runtime draws rates from the seed.
struct Env {
  bool spurious = true;      // spurious condition variable wake-ups
  bool clock_jumps = false;  // wall clock jumps
  bool coarse_clock = false; // coarse or frozen clocks
  bool time_advance = true;  // timers fire while other threads are runnable
  bool alloc_fail = false;   // failing allocations inside AllocFaultScope
  bool io_faults = false;    // failing / short / torn I/O on simulated files
  bool stalls = true;        // a thread stops being scheduled for a while
  int fair_after = 30000;    // sync steps after which faults stop
  int max_extra = 400000;    // fair steps allowed afterwards
};

struct Harness {
  const char* name;
  const char* properties;  // comma separated
  void (*gen)(Rng& rng, Plan* plan, Env* env, bool thorough);
  void (*run)(const Plan& plan);
};
// Registered by the harness translation units.
void register_harness(const Harness* h);
struct Registrar {
  explicit Registrar(const Harness* h) { register_harness(h); }
};

// ------------------------------------------------------------------ reporting
// Reports a violation of the (comma separated) properties and ends the run.
// `kind` is the violation class that minimisation has to preserve.
[[noreturn]] void fail(const char* props, const char* kind, const char* fmt,
                       ...) __attribute__((format(printf, 3, 4)));
// Is one of these properties being decided by this run?  Oracles use it to let
// the run go on after a violation of another property.
bool deciding(const char* props);
// fail(), unless the run decides another property.
#define SIM_SOFT(props, ...)                                \
  do {                                                      \
    if (sim::deciding(props)) sim::fail(props, __VA_ARGS__); \
    sim::probe("other_property_violated");                  \
  } while (0)
// The run ends without a verdict (counted, never an alarm).
[[noreturn]] void inconclusive(const char* why);
// Properties that data races, memory errors, crashes violate in this harness.
void set_default_props(const char* props);
// Properties that a deadlock / livelock violates in this harness.
void set_stuck_props(const char* props);
// Called when no thread can make progress; may call fail().
void set_stuck_callback(void (*cb)());
// A clean abort (CHECK failure, uncaught exception) counts as success while on.
void set_abort_ok(bool ok);
void set_abort_callback(void (*cb)());
bool abort_ok();
// Off: a failed assert() never counts as a clean abort, because it is not there
// in a build without assertions.
void set_assert_ok(bool ok);
// Reach counter.
void probe(const char* name);
// Adds a line to the event log (visible in replay) and to the trace hash.
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

// ------------------------------------------------------------------ execution
// Global event sequence number (strictly increasing; stamps history events).
uint64_t stamp();
int64_t now_ns();     // simulated monotonic time
int64_t clock_resolution();
int64_t wall_ns();    // simulated wall clock, without side effects
int tid();
const char* thread_label(int tid);
void label(const char* text);        // what this thread is currently doing
int num_threads();
// Thread states as seen by the scheduler.
bool is_blocked(int tid);
bool is_finished(int tid);
// Explicit preemption point.
void yield();
// Blocks the caller until no other thread can run and no timer is pending.
void wait_quiescent();
// Blocks until no other thread is runnable (timers may be pending).
void advance_time(int64_t ns);       // sleeps in simulated time
// Seeded fault decision; returns 0 (no fault) .. n-1.
uint32_t fault(const char* kind, uint32_t n, double p);
// Seeded value that is not a fault.
bool in_sim();
bool faults_active();
void stop_faults();   // from here on: no faults, fair scheduling

// Inside this scope the calling thread runs atomically, invisible to the race
// detector.  For oracle code.  Must not block.
struct Quiet {
  Quiet();
  ~Quiet();
};
// Inside this scope allocations of the calling thread may fail.
struct AllocFaultScope {
  AllocFaultScope();
  ~AllocFaultScope();
};
// Inside this scope every allocation and release of memory by the calling thread is a
// scheduling point, so that code in libraries that are not instrumented can be
// interrupted, too.  Such code must not hold a lock that the simulator does not know.
struct AllocPointScope {
  AllocPointScope();
  ~AllocPointScope();
};
// Memory checks (out of bounds / use after free) on instrumented accesses only.
// Is this the start of a heap block that has not been freed?  Blocks are not
// used again within a run, so the answer stays meaningful afterwards.
bool heap_alive(const void* block);

// ------------------------------------------------------------- simulated disk
// Paths below kDiskRoot live on the simulated disk.
#define SIM_DISK_ROOT "/simdisk/"
namespace disk {
enum FaultMode {
  kNone = 0,
  kBenign = 1,    // short reads/writes, EINTR
  kErrors = 2,    // ENOSPC, EIO, failing open/close
};
void set_mode(int mode, int64_t capacity_bytes);
// Number of hard errors the disk has returned to the program so far.
int hard_errors();
int open_errors();
int write_errors();
int read_errors();
bool exists(const char* path);
int64_t size(const char* path);
const unsigned char* data(const char* path);
void put(const char* path, const void* data, size_t size);
void remove(const char* path);
void truncate(const char* path, size_t size);
// Crash: every file keeps an arbitrary prefix of what was written since the
// last sync / open.  keep_permille of unsynced bytes survive.
void crash(int keep_permille);
int open_files();
int count();
const char* name(int idx);
}  // namespace disk

}  // namespace sim

#endif  // VERIF_SIMRT_H_
