// Deterministic simulation runtime.  Compiled WITHOUT -fsanitize=thread; the
// code under test and the harnesses are compiled with it and call back into the
// __tsan_* functions defined here (libtsan is not linked).
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "simrt.h"

#include <dlfcn.h>
#include <elf.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <link.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#define likely(x) __builtin_expect(!!(x), 1)
#define unlikely(x) __builtin_expect(!!(x), 0)
#define RA() (reinterpret_cast<uintptr_t>(__builtin_return_address(0)))

namespace sim {

// =============================================================== raw syscalls
static long raw_syscall(long n, long a = 0, long b = 0, long c = 0, long d = 0,
                        long e = 0, long f = 0) {
  long ret;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall"
                   : "=a"(ret)
                   : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  return ret;
}
static void raw_futex_wait(int* addr, int val) {
  raw_syscall(SYS_futex, reinterpret_cast<long>(addr), FUTEX_WAIT_PRIVATE, val,
              0);
}
static void raw_futex_wake(int* addr) {
  raw_syscall(SYS_futex, reinterpret_cast<long>(addr), FUTEX_WAKE_PRIVATE, 1);
}
static int64_t real_now_ns() {
  struct timespec ts;
  raw_syscall(SYS_clock_gettime, CLOCK_MONOTONIC, reinterpret_cast<long>(&ts));
  return ts.tv_sec * 1000000000ll + ts.tv_nsec;
}

// ================================================================ small tools
static void copy_bytes(void* d, const void* s, size_t n) {
  __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
}
static void fill_bytes(void* d, int v, size_t n) {
  __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(v) : "memory");
}

enum { kMaxChoices = 1 << 17, kMaxProbes = 96, kNameLen = 40 };

enum ChoiceKind {
  C_SYNC = 0,    // preempt at a synchronisation point: value = tid + 1
  C_MEM = 1,     // preempt at a memory access: value = tid + 1
  C_NEXT = 2,    // who runs after the current thread blocked: tid + 1
  C_SIGNAL = 3,  // which waiter a signal wakes: index
  C_SPUR = 4,    // spurious wake-up of: tid + 1
  C_TIME = 5,    // let the next timer fire now
  C_CLOCK = 6,   // wall clock jump: index + 1
  C_STALL = 7,   // stall a thread: tid + 1 + (length << 8)
  C_FAULT = 8,   // harness / disk / allocation fault: value
  C_LOCKNEXT = 9,
  C_KINDS = 10
};
static const char* const kChoiceNames[C_KINDS] = {
    "sync", "mem", "next", "signal", "spurious",
    "time", "clock", "stall", "fault", "lock"};

struct Choice {
  uint8_t kind;
  uint8_t tid;
  uint16_t pad;
  uint32_t val;
  uint64_t ctr;
};

struct Counter {
  char name[kNameLen];
  uint64_t n;
};

enum Status {
  S_NONE = 0,
  S_OK = 1,
  S_VIOLATION = 2,
  S_INCONCLUSIVE = 3,
  S_INTERNAL = 4
};

struct Result {
  int status;
  char props[128];
  char kind[64];
  char msg[6000];
  uint64_t trace_hash;
  uint64_t switch_hash;
  uint64_t sync_steps;
  uint64_t mem_steps;
  uint64_t switches;
  uint64_t preemptions;
  int64_t sim_ns;
  int threads;
  int nprobes;
  Counter probes[kMaxProbes];
  int nfaults;
  Counter faults[kMaxProbes];
  int overflow;
  uint32_t nchoices;
  Choice choices[kMaxChoices];
};

// Scheduling parameters of one run, drawn from the seed (or read from a replay
// file).
enum Strategy { ST_RANDOM = 0, ST_PCT = 1, ST_ROUND = 2 };
struct Params {
  uint64_t seed;
  int strategy;
  int p_sync_ppm;     // preemption probability at a synchronisation point
  int mem_mean;       // mean distance of memory preemptions (0 = off)
  int mem_shared;     // only accesses to locations other threads touched
  int pct_depth;
  int pct_len;
  int p_spur_ppm;
  int p_time_ppm;
  int p_stall_ppm;
  int p_clock_ppm;
  int p_alloc_ppm;
  int p_fault_permille;  // scales harness fault probabilities
  int random_signal;
  int64_t tick_ns;
  int64_t clock_res_ns;
  int64_t wall_base_ns;
  int64_t mono_base_ns;
  int fair_after;
  int max_extra;
};
static const int kNumParams = 20;

struct ReplaySpec {
  bool on;
  uint32_t n;
  Choice* c;
};

// ==================================================================== regions
static const uintptr_t kHeapBase = 0x100000000000ull;
static const size_t kHeapSize = 256ull << 20;
static const size_t kStackSize = 512ull << 10;
static const uintptr_t kStackBase = kHeapBase + kHeapSize;
static const size_t kStacksSize = kStackSize * kMaxSimThreads;
static const size_t kRegionSize = kHeapSize + kStacksSize;
static const uintptr_t kLiveBase = 0x180000000000ull;   // heap liveness bytes
static const uintptr_t kSlotsBase = 0x200000000000ull;  // race detector slots
static const uintptr_t kGSlotsBase = 0x300000000000ull; // ... for globals
static const uintptr_t kArenaBase = 0x400000000000ull;
static const size_t kArenaSize = 512ull << 20;

extern "C" char __data_start;
extern "C" char _end;
static uintptr_t g_glob_lo, g_glob_hi;
static bool g_regions_ready = false;

static void* map_fixed(uintptr_t at, size_t size) {
  void* p = reinterpret_cast<void*>(raw_syscall(
      SYS_mmap, at, size, PROT_READ | PROT_WRITE,
      MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0));
  if (reinterpret_cast<uintptr_t>(p) != at) {
    static const char m[] = "simrt: cannot map region\n";
    raw_syscall(SYS_write, 2, reinterpret_cast<long>(m), sizeof(m) - 1);
    raw_syscall(SYS_exit_group, 70);
  }
  return p;
}
static void init_regions() {
  if (g_regions_ready) return;
  g_regions_ready = true;
  map_fixed(kHeapBase, kRegionSize);
  map_fixed(kLiveBase, kHeapSize / 8);
  map_fixed(kSlotsBase, kRegionSize * 8);
  g_glob_lo = reinterpret_cast<uintptr_t>(&__data_start) & ~7ull;
  g_glob_hi = (reinterpret_cast<uintptr_t>(&_end) + 7) & ~7ull;
  map_fixed(kGSlotsBase, ((g_glob_hi - g_glob_lo) * 8 + 4095) & ~4095ull);
  map_fixed(kArenaBase, kArenaSize);
}
static size_t g_arena_used = 0;
static void* arena_alloc(size_t n) {
  init_regions();
  n = (n + 63) & ~63ull;
  if (g_arena_used + n > kArenaSize) raw_syscall(SYS_exit_group, 71);
  void* p = reinterpret_cast<void*>(kArenaBase + g_arena_used);
  g_arena_used += n;
  return p;
}

// ==================================================================== threads
struct VC {
  uint32_t c[kMaxSimThreads];
};
static inline void vc_join(VC* a, const VC* b, int n) {
  for (int i = 0; i < n; ++i)
    if (b->c[i] > a->c[i]) a->c[i] = b->c[i];
}

enum TState {
  T_RUN = 0,
  T_MUTEX,
  T_COND,
  T_FUTEX,
  T_JOIN,
  T_SLEEP,
  T_RWLOCK,
  T_ONCE,
  T_SEM,
  T_BARRIER,
  T_QUIESCE,
  T_DONE
};
static const char* const kStateNames[] = {
    "runnable", "mutex",    "condition variable", "futex", "join",    "sleep",
    "rwlock",   "once",     "semaphore",          "barrier", "quiescence",
    "finished"};

enum { kShadowDepth = 128 };
struct Thr {
  int tid;
  int state;
  int token;  // futex word
  int quiet;
  int alloc_scope;
  int alloc_points;
  int in_rt;
  uintptr_t wait_obj;
  uint64_t wait_seq;
  int64_t deadline;  // -1: none
  bool timed_out;
  bool signalled;
  bool detached;
  bool joined;
  uint64_t stalled_until;
  int64_t prio;
  VC vc;
  uint64_t ctr[C_KINDS];
  pthread_t real;
  void* (*fn)(void*);
  void* arg;
  void* ret;
  struct {
    void (*f)(void*);
    void* obj;
  } tls[32];  // destructors of thread_local objects
  int ntls;
  int parked;
  char label[96];
  int depth;
  uintptr_t stack[kShadowDepth];
  uintptr_t last_pc;
  // Replay cursors.
  uint32_t rp_pos[C_KINDS];
  uint32_t rp_end[C_KINDS];
};

static __thread Thr* t_self __attribute__((tls_model("initial-exec"))) = nullptr;
static Thr* g_thr = nullptr;  // array[kMaxSimThreads]
static int g_nthr = 0;
static bool g_active = false;
static Params P;
static Env g_env;
static ReplaySpec g_replay;
static Result* R = nullptr;
static Rng g_rng(1);       // scheduling and faults
static uint64_t g_steps = 0;
static uint64_t g_memsteps = 0;
static uint64_t g_stamp = 0;
static int64_t g_sim_ns = 0;
static int64_t g_wall_off = 0;
static int64_t g_last_mono = 0;
static bool g_faults_on = true;
static bool g_fair = false;
static uint64_t g_fair_start = 0;
static uint64_t g_wait_seq = 0;
static int64_t g_mem_left = 0;
static int64_t g_low_prio = 0;
static uint64_t g_pct_points[16];
static int g_pct_n = 0;
static char g_default_props[128] = "";
static char g_stuck_props[128] = "";
static void (*g_stuck_cb)() = nullptr;
static void (*g_abort_cb)() = nullptr;
static bool g_abort_ok = false;
static bool g_in_fail = false;
static bool g_verbose = false;
static int g_exit_futex = 0;
static int g_stderr_fd = -1;
static uint64_t g_hash = 1469598103934665603ull;
static uint64_t g_shash = 1469598103934665603ull;
static const uint64_t kMaxMemSteps = 60000000ull;

static inline void hash_in(uint64_t* h, uint64_t v) {
  *h ^= v;
  *h *= 1099511628211ull;
  *h ^= *h >> 29;
}
static inline bool live() { return g_active && t_self != nullptr; }
static inline bool loud() {
  return g_active && t_self != nullptr && t_self->quiet == 0 &&
         t_self->in_rt == 0;
}

// ============================================================ caller ranges
struct Range {
  uintptr_t lo, hi;
};
static Range g_ranges[8];  // executable and libstdc++ text
static int g_nranges = 0;
static Range g_cxx_range = {0, 0};
static int phdr_cb(struct dl_phdr_info* info, size_t, void*) {
  const char* n = info->dlpi_name ? info->dlpi_name : "";
  const bool exe = n[0] == 0 && g_nranges == 0;
  const bool cxx = strstr(n, "libstdc++") != nullptr;
  if (!exe && !cxx) return 0;
  for (int i = 0; i < info->dlpi_phnum; ++i) {
    const ElfW(Phdr)& ph = info->dlpi_phdr[i];
    if (ph.p_type == PT_LOAD && (ph.p_flags & PF_X) && g_nranges < 8) {
      Range r = {info->dlpi_addr + ph.p_vaddr,
                 info->dlpi_addr + ph.p_vaddr + ph.p_memsz};
      g_ranges[g_nranges++] = r;
      if (cxx) g_cxx_range = r;
    }
  }
  return 0;
}
static inline bool ours(uintptr_t ra) {
  for (int i = 0; i < g_nranges; ++i)
    if (ra >= g_ranges[i].lo && ra < g_ranges[i].hi) return true;
  return false;
}

// Library addresses relative to the library, so that traces do not depend on
// where the loader put it.
static inline uintptr_t norm_pc(uintptr_t pc) {
  return pc >= g_cxx_range.lo && pc < g_cxx_range.hi ? pc - g_cxx_range.lo : pc;
}

// ================================================================= reporting
static void describe_pc(uintptr_t pc, char* out, size_t n) {
  Dl_info info;
  if (pc && dladdr(reinterpret_cast<void*>(pc), &info) && info.dli_sname) {
    snprintf(out, n, "%s+0x%lx [0x%lx]", info.dli_sname,
             static_cast<unsigned long>(
                 pc - reinterpret_cast<uintptr_t>(info.dli_saddr)),
             static_cast<unsigned long>(pc));
  } else {
    snprintf(out, n, "[0x%lx]", static_cast<unsigned long>(pc));
  }
}
static void copy_str(char* d, size_t n, const char* s) {
  size_t i = 0;
  for (; s[i] && i + 1 < n; ++i) d[i] = s[i];
  d[i] = 0;
}
static void append(char* d, size_t n, const char* s) {
  size_t i = strlen(d);
  if (i < n) copy_str(d + i, n - i, s);
}
static void thread_table(char* out, size_t n) {
  char line[700];
  for (int i = 0; i < g_nthr; ++i) {
    const Thr& t = g_thr[i];
    if (t.state == T_DONE) continue;
    snprintf(line, sizeof(line), "\n  T%d %s%s", t.tid, kStateNames[t.state],
             t.label[0] ? " while: " : "");
    append(out, n, line);
    append(out, n, t.label);
    const int top = t.depth < kShadowDepth ? t.depth : kShadowDepth;
    for (int k = top - 1, c = 0; k >= 0 && c < 3; --k, ++c) {
      char d[300];
      describe_pc(t.stack[k], d, sizeof(d));
      append(out, n, "\n      from ");
      append(out, n, d);
    }
  }
}
static void finish_result(int status) {
  R->status = status;
  R->trace_hash = g_hash;
  R->switch_hash = g_shash;
  R->sync_steps = g_steps;
  R->mem_steps = g_memsteps;
  R->sim_ns = g_sim_ns;
  R->threads = g_nthr;
}
[[noreturn]] static void end_run(int status) {
  g_active = false;
  finish_result(status);
  raw_syscall(SYS_exit_group, 0);
  __builtin_unreachable();
}
static void bump(Counter* c, int* n, const char* name) {
  for (int i = 0; i < *n; ++i)
    if (!strcmp(c[i].name, name)) {
      ++c[i].n;
      return;
    }
  if (*n < kMaxProbes) {
    copy_str(c[*n].name, kNameLen, name);
    c[*n].n = 1;
    ++*n;
  }
}
void probe(const char* name) {
  if (R) bump(R->probes, &R->nprobes, name);
}
static void count_fault(const char* name) {
  if (R) bump(R->faults, &R->nfaults, name);
}
static void vfail(const char* props, const char* kind, const char* fmt,
                  va_list ap) {
  g_in_fail = true;
  if (t_self) ++t_self->in_rt;
  copy_str(R->props, sizeof(R->props), props);
  copy_str(R->kind, sizeof(R->kind), kind);
  vsnprintf(R->msg, sizeof(R->msg), fmt, ap);
  char head[64];
  snprintf(head, sizeof(head), "\n  at event %lu, thread T%d",
           static_cast<unsigned long>(g_stamp), t_self ? t_self->tid : -1);
  append(R->msg, sizeof(R->msg), head);
  thread_table(R->msg, sizeof(R->msg));
}
void fail(const char* props, const char* kind, const char* fmt, ...) {
  if (!R) {
    fprintf(stderr, "sim::fail outside a run: %s\n", kind);
    _exit(70);
  }
  va_list ap;
  va_start(ap, fmt);
  vfail(props, kind, fmt, ap);
  va_end(ap);
  end_run(S_VIOLATION);
}
void inconclusive(const char* why) {
  copy_str(R->kind, sizeof(R->kind), why);
  end_run(S_INCONCLUSIVE);
}
[[noreturn]] static void internal_error(const char* why) {
  copy_str(R->kind, sizeof(R->kind), "internal");
  copy_str(R->msg, sizeof(R->msg), why);
  end_run(S_INTERNAL);
}
void set_default_props(const char* p) {
  copy_str(g_default_props, sizeof(g_default_props), p);
}
void set_stuck_props(const char* p) {
  copy_str(g_stuck_props, sizeof(g_stuck_props), p);
}
void set_stuck_callback(void (*cb)()) { g_stuck_cb = cb; }
void set_abort_callback(void (*cb)()) { g_abort_cb = cb; }
void set_abort_ok(bool ok) { g_abort_ok = ok; }
bool abort_ok() { return g_abort_ok; }
static bool g_assert_ok = true;
void set_assert_ok(bool ok) { g_assert_ok = ok; }
bool in_sim() { return live(); }

static void log_line(const char* fmt, ...) {
  char buf[1024];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(buf, sizeof(buf), fmt, ap);
  va_end(ap);
  if (n > static_cast<int>(sizeof(buf)) - 1) n = sizeof(buf) - 1;
  raw_syscall(SYS_write, 1, reinterpret_cast<long>(buf), n);
}
static void describe_here(char* out, size_t n) {
  Thr* t = t_self;
  out[0] = 0;
  if (!t) return;
  const int top = t->depth < kShadowDepth ? t->depth : kShadowDepth;
  // The innermost two named frames.
  for (int k = top - 1, c = 0; k >= 0 && c < 2; --k, ++c) {
    char d[200];
    describe_pc(t->stack[k], d, sizeof(d));
    append(out, n, c ? " < " : "");
    append(out, n, d);
  }
}
// Events of the run: hashed always, printed in replay.
static void event(const char* what, uint64_t obj, uint64_t val) {
  Thr* t = t_self;
  hash_in(&g_hash, (static_cast<uint64_t>(t ? t->tid : 63) << 56) ^ obj);
  uint64_t w = 0;
  for (const char* p = what; *p; ++p) w = w * 131 + static_cast<uint8_t>(*p);
  hash_in(&g_hash, w ^ (val << 32) ^ g_memsteps);
  if (unlikely(g_verbose)) {
    char here[512];
    if (t) ++t->in_rt;
    describe_here(here, sizeof(here));
    log_line("%8lu t=%ldns T%d %s 0x%lx %ld  in %s\n",
             static_cast<unsigned long>(g_stamp), static_cast<long>(g_sim_ns),
             t ? t->tid : -1, what, static_cast<unsigned long>(obj),
             static_cast<long>(val), here);
    if (t) --t->in_rt;
  }
}
void note(const char* fmt, ...) {
  if (!live()) return;
  char buf[512];
  Thr* t = t_self;
  ++t->in_rt;
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof(buf), fmt, ap);
  va_end(ap);
  uint64_t w = 7;
  for (const char* p = buf; *p; ++p) w = w * 131 + static_cast<uint8_t>(*p);
  hash_in(&g_hash, w ^ t->tid);
  ++g_stamp;
  if (unlikely(g_verbose))
    log_line("%8lu t=%ldns T%d NOTE %s\n", static_cast<unsigned long>(g_stamp),
             static_cast<long>(g_sim_ns), t->tid, buf);
  --t->in_rt;
}

// ==================================================================== choices
static inline bool can_draw() { return !g_replay.on; }
static void record(int kind, int tid, uint64_t ctr, uint32_t val) {
  if (R->nchoices >= kMaxChoices) {
    R->overflow = 1;
    return;
  }
  Choice& c = R->choices[R->nchoices++];
  c.kind = static_cast<uint8_t>(kind);
  c.tid = static_cast<uint8_t>(tid);
  c.pad = 0;
  c.val = val;
  c.ctr = ctr;
}
static uint32_t replay_lookup(Thr* t, int kind, uint64_t ctr) {
  uint32_t& pos = t->rp_pos[kind];
  while (pos < t->rp_end[kind] && g_replay.c[pos].ctr < ctr) ++pos;
  if (pos < t->rp_end[kind] && g_replay.c[pos].ctr == ctr)
    return g_replay.c[pos].val;
  return 0;
}
// One decision of thread t.  `draw` computes the value in search mode.
template <class F>
static inline uint32_t choose(Thr* t, int kind, F draw) {
  const uint64_t ctr = ++t->ctr[kind];
  uint32_t v = g_replay.on ? replay_lookup(t, kind, ctr) : draw();
  if (v) record(kind, t->tid, ctr, v);
  return v;
}

// ================================================================== scheduler
static void check_replay_index(Thr* t) {
  // Choices are sorted by (tid, kind, ctr).
  if (!g_replay.on) return;
  for (int k = 0; k < C_KINDS; ++k) {
    uint32_t lo = 0;
    while (lo < g_replay.n &&
           (g_replay.c[lo].tid < t->tid ||
            (g_replay.c[lo].tid == t->tid && g_replay.c[lo].kind < k)))
      ++lo;
    uint32_t hi = lo;
    while (hi < g_replay.n && g_replay.c[hi].tid == t->tid &&
           g_replay.c[hi].kind == k)
      ++hi;
    t->rp_pos[k] = lo;
    t->rp_end[k] = hi;
  }
}

static void transfer(Thr* me, Thr* to) {
  ++R->switches;
  hash_in(&g_shash, (static_cast<uint64_t>(me->tid) << 8 | to->tid));
  hash_in(&g_shash, static_cast<uint64_t>(me->state) ^
                        (norm_pc(me->last_pc) * 0x9e3779b97f4a7c15ull));
  hash_in(&g_hash, 0x51ull + to->tid);
  if (unlikely(g_verbose))
    log_line("%8lu ---- switch T%d -> T%d\n",
             static_cast<unsigned long>(g_stamp), me->tid, to->tid);
  __atomic_store_n(&to->token, 1, __ATOMIC_SEQ_CST);
  raw_futex_wake(&to->token);
  while (__atomic_load_n(&me->token, __ATOMIC_SEQ_CST) == 0)
    raw_futex_wait(&me->token, 0);
  __atomic_store_n(&me->token, 0, __ATOMIC_SEQ_CST);
}

static int wake_timers() {
  int n = 0;
  for (int i = 0; i < g_nthr; ++i) {
    Thr& t = g_thr[i];
    if (t.state != T_RUN && t.state != T_DONE && t.deadline >= 0 &&
        t.deadline <= g_sim_ns) {
      t.timed_out = true;
      t.deadline = -1;
      t.state = T_RUN;
      ++n;
    }
  }
  return n;
}
static int64_t next_deadline() {
  int64_t d = -1;
  for (int i = 0; i < g_nthr; ++i) {
    const Thr& t = g_thr[i];
    if (t.state != T_RUN && t.state != T_DONE && t.deadline >= 0 &&
        (d < 0 || t.deadline < d))
      d = t.deadline;
  }
  return d;
}

// Runnable threads into `out` (stalled ones only when nothing else can run).
static int runnable(int* out, const Thr* except) {
  int n = 0;
  for (int i = 0; i < g_nthr; ++i) {
    const Thr& t = g_thr[i];
    if (&t != except && t.state == T_RUN && t.stalled_until <= g_steps)
      out[n++] = i;
  }
  if (n == 0)
    for (int i = 0; i < g_nthr; ++i) {
      const Thr& t = g_thr[i];
      if (&t != except && t.state == T_RUN) out[n++] = i;
    }
  return n;
}

static uint32_t pick_random(const int* cand, int n) {
  return static_cast<uint32_t>(cand[g_rng.below(n)] + 1);
}
static uint32_t pick_pct(const int* cand, int n, const Thr* cur) {
  int best = cur ? cur->tid : cand[0];
  for (int i = 0; i < n; ++i)
    if (g_thr[cand[i]].prio > g_thr[best].prio) best = cand[i];
  return static_cast<uint32_t>(best + 1);
}

[[noreturn]] static void stuck(const char* kind) {
  g_in_fail = true;
  if (t_self) ++t_self->in_rt;
  if (g_stuck_cb) {
    void (*cb)() = g_stuck_cb;
    g_stuck_cb = nullptr;
    if (t_self) ++t_self->quiet;
    cb();
  }
  fail(g_stuck_props[0] ? g_stuck_props : g_default_props, kind,
       "no thread can make progress (%s)", kind);
}

static void enter_fair() {
  if (!g_fair) {
    g_fair = true;
    g_faults_on = false;
    g_fair_start = g_steps;
    for (int i = 0; i < g_nthr; ++i) g_thr[i].stalled_until = 0;
  }
}
void stop_faults() { enter_fair(); }
bool faults_active() { return g_faults_on; }

static void maybe_pct_change(Thr* me, uint64_t step) {
  for (int i = 0; i < g_pct_n; ++i)
    if (g_pct_points[i] == step) me->prio = --g_low_prio;
}

// Gives the token away because `me` cannot run; returns when me is runnable
// again and was given the token.
static void block(Thr* me) {
  while (true) {
    int cand[kMaxSimThreads];
    int n = runnable(cand, nullptr);
    if (n == 0) {
      const int64_t d = next_deadline();
      if (d >= 0) {
        if (d > g_sim_ns) g_sim_ns = d;
        wake_timers();
        continue;
      }
      // Nothing left to do: quiescence waiters resume.
      bool woke = false;
      for (int i = 0; i < g_nthr && !woke; ++i)
        if (g_thr[i].state == T_QUIESCE) {
          g_thr[i].state = T_RUN;
          woke = true;
        }
      if (woke) continue;
      stuck("deadlock");
    }
    uint32_t v = choose(me, C_NEXT, [&]() -> uint32_t {
      if (g_fair) return pick_random(cand, n);
      if (P.strategy == ST_PCT) return pick_pct(cand, n, nullptr);
      if (P.strategy == ST_ROUND) return 0;
      return pick_random(cand, n);
    });
    Thr* to = nullptr;
    if (v) {
      for (int i = 0; i < n; ++i)
        if (cand[i] == static_cast<int>(v) - 1) to = &g_thr[cand[i]];
    }
    if (!to) {
      // Default: the next runnable thread after me.
      for (int k = 1; k <= g_nthr && !to; ++k) {
        const int id = (me->tid + k) % g_nthr;
        for (int i = 0; i < n; ++i)
          if (cand[i] == id) to = &g_thr[id];
      }
    }
    if (to == me) return;
    transfer(me, to);
    if (me->state == T_RUN) return;
    // The token was handed over although we are still blocked: cannot happen.
    internal_error("blocked thread scheduled");
  }
}

static void maybe_spurious(Thr* me) {
  if (!g_env.spurious) return;
  uint32_t v = choose(me, C_SPUR, [&]() -> uint32_t {
    if (!g_faults_on || P.p_spur_ppm == 0) return 0;
    if (static_cast<int>(g_rng.below(1000000)) >= P.p_spur_ppm) return 0;
    int cand[kMaxSimThreads];
    int n = 0;
    for (int i = 0; i < g_nthr; ++i)
      if (g_thr[i].state == T_COND) cand[n++] = i;
    return n ? static_cast<uint32_t>(cand[g_rng.below(n)] + 1) : 0;
  });
  if (v) {
    Thr& t = g_thr[(v - 1) % kMaxSimThreads];
    if (static_cast<int>(v) <= g_nthr && t.state == T_COND) {
      t.state = T_RUN;
      t.deadline = -1;
      count_fault("spurious_wakeup");
      event("fault-spurious-wakeup", v - 1, 0);
    }
  }
}

// A synchronisation point: the scheduler may run somebody else.
static void sync_point(Thr* me, uintptr_t pc) {
  me->last_pc = pc;
  ++g_steps;
  ++g_stamp;
  g_sim_ns += P.tick_ns;
  if (!g_fair && g_steps > static_cast<uint64_t>(P.fair_after)) enter_fair();
  if (g_fair && g_steps - g_fair_start > static_cast<uint64_t>(P.max_extra))
    stuck("livelock");
  wake_timers();
  if (g_nthr == 1) return;
  if (g_env.time_advance) {
    uint32_t adv = choose(me, C_TIME, [&]() -> uint32_t {
      if (!g_faults_on || P.p_time_ppm == 0) return 0;
      if (static_cast<int>(g_rng.below(1000000)) >= P.p_time_ppm) return 0;
      return next_deadline() >= 0;
    });
    if (adv) {
      const int64_t d = next_deadline();
      if (d >= 0) {
        if (d > g_sim_ns) g_sim_ns = d;
        wake_timers();
        count_fault("timer_fires_early");
        event("fault-timer-advance", d, 0);
      }
    }
  }
  maybe_spurious(me);
  if (g_env.stalls) {
    uint32_t v = choose(me, C_STALL, [&]() -> uint32_t {
      if (!g_faults_on || P.p_stall_ppm == 0) return 0;
      if (static_cast<int>(g_rng.below(1000000)) >= P.p_stall_ppm) return 0;
      const uint32_t who = static_cast<uint32_t>(g_rng.below(g_nthr)) + 1;
      const uint32_t len = static_cast<uint32_t>(g_rng.range(10, 2000));
      return who | (len << 8);
    });
    if (v && static_cast<int>(v & 0xff) <= g_nthr) {
      g_thr[(v & 0xff) - 1].stalled_until = g_steps + (v >> 8);
      count_fault("thread_stall");
      event("fault-stall", (v & 0xff) - 1, v >> 8);
    }
  }
  uint32_t v = choose(me, C_SYNC, [&]() -> uint32_t {
    int cand[kMaxSimThreads];
    if (!g_fair && P.strategy == ST_PCT) maybe_pct_change(me, g_steps);
    const bool stalled = me->stalled_until > g_steps;
    if (!stalled) {
      if (g_fair) {
        if (g_rng.below(4)) return 0;
      } else if (P.strategy != ST_PCT) {
        if (static_cast<int>(g_rng.below(1000000)) >= P.p_sync_ppm) return 0;
      }
    }
    int n = runnable(cand, me);
    if (n == 0) return 0;
    if (!g_fair && P.strategy == ST_PCT) {
      uint32_t b = pick_pct(cand, n, stalled ? nullptr : me);
      return static_cast<int>(b) - 1 == me->tid ? 0 : b;
    }
    return pick_random(cand, n);
  });
  if (v) {
    const int id = static_cast<int>(v) - 1;
    if (id < g_nthr && id != me->tid && g_thr[id].state == T_RUN) {
      ++R->preemptions;
      transfer(me, &g_thr[id]);
    }
  }
}

// A memory access that may be a preemption point.
static void mem_preempt(Thr* me, uintptr_t pc) {
  me->last_pc = pc;
  int cand[kMaxSimThreads];
  uint32_t v = 0;
  const uint64_t ctr = me->ctr[C_MEM];
  if (g_replay.on) {
    v = replay_lookup(me, C_MEM, ctr);
  } else {
    const int n = runnable(cand, me);
    if (n) {
      if (P.strategy == ST_PCT) {
        me->prio = --g_low_prio;
        v = pick_pct(cand, n, me);
        if (static_cast<int>(v) - 1 == me->tid) v = 0;
      } else {
        v = pick_random(cand, n);
      }
    }
  }
  if (!v) return;
  const int id = static_cast<int>(v) - 1;
  if (id < g_nthr && id != me->tid && g_thr[id].state == T_RUN) {
    record(C_MEM, me->tid, ctr, v);
    ++R->preemptions;
    ++g_stamp;
    event("preempt-at-access", norm_pc(pc), 0);
    transfer(me, &g_thr[id]);
  }
}
static inline void draw_mem_left() {
  if (P.mem_mean <= 0) {
    g_mem_left = INT64_MAX;
    return;
  }
  // Uniform in [1, 2*mean]: cheap and close enough to geometric.
  g_mem_left = 1 + static_cast<int64_t>(g_rng.below(2ull * P.mem_mean));
}

// ======================================================================= heap
struct BlockHeader {
  uint64_t size;
  uint64_t magic;
};
static const uint64_t kMagic = 0x5117a110ca7e0001ull;
static const uint64_t kMagicFree = 0x5117a110ca7e0002ull;
static uintptr_t g_heap_next = kHeapBase + 4096;
static int g_heap_lock = 0;
static uint64_t g_live_bytes = 0;
static uint64_t g_blocks = 0;

static inline uint8_t* live_byte(uintptr_t a) {
  return reinterpret_cast<uint8_t*>(kLiveBase + ((a - kHeapBase) >> 3));
}
static inline bool in_heap(uintptr_t a) {
  return a >= kHeapBase && a < kHeapBase + kHeapSize;
}
enum { kLiveNone = 0, kLiveFreed = 0xfd };

static void* heap_alloc(size_t size, size_t align) {
  init_regions();
  while (__atomic_exchange_n(&g_heap_lock, 1, __ATOMIC_ACQUIRE))
    raw_syscall(SYS_sched_yield);
  if (align < 16) align = 16;
  uintptr_t p = g_heap_next + 32;  // header + leading redzone
  p = (p + align - 1) & ~(align - 1);
  void* ret = nullptr;
  if (size < kHeapSize && p + size + 64 < kHeapBase + kHeapSize) {
    BlockHeader* h = reinterpret_cast<BlockHeader*>(p - 16);
    h->size = size;
    h->magic = kMagic;
    uint8_t* l = live_byte(p);
    const size_t full = size / 8;
    fill_bytes(l, 8, full);
    if (size & 7) l[full] = size & 7;
    g_heap_next = (p + size + 16 + 15) & ~15ull;
    ret = reinterpret_cast<void*>(p);
    if (size <= 65536) fill_bytes(ret, 0xCD, size);
    g_live_bytes += size;
    ++g_blocks;
  }
  __atomic_store_n(&g_heap_lock, 0, __ATOMIC_RELEASE);
  return ret;
}
static void heap_free(void* ptr, uintptr_t pc) {
  if (!ptr) return;
  const uintptr_t p = reinterpret_cast<uintptr_t>(ptr);
  if (!in_heap(p)) return;  // e.g. from the dynamic loader's early allocator
  BlockHeader* h = reinterpret_cast<BlockHeader*>(p - 16);
  if (h->magic != kMagic) {
    if (loud() && !g_in_fail) {
      char d[300];
      describe_pc(pc, d, sizeof(d));
      fail(g_default_props, "bad-free",
           "%s of heap block 0x%lx at %s",
           h->magic == kMagicFree ? "double free" : "invalid free",
           static_cast<unsigned long>(p), d);
    }
    return;
  }
  h->magic = kMagicFree;
  uint8_t* l = live_byte(p);
  fill_bytes(l, kLiveFreed, (h->size + 7) / 8);
  if (h->size <= 16384) fill_bytes(ptr, 0xFB, h->size);
  g_live_bytes -= h->size;
}
static size_t heap_size(void* ptr) {
  return reinterpret_cast<BlockHeader*>(reinterpret_cast<uintptr_t>(ptr) - 16)
      ->size;
}

bool heap_alive(const void* block) {
  const uintptr_t p = reinterpret_cast<uintptr_t>(block);
  return in_heap(p) && reinterpret_cast<const BlockHeader*>(p - 16)->magic == kMagic;
}

static uint32_t fault_named(const char* kind, uint32_t n, double p) {
  Thr* t = t_self;
  if (!live() || n < 2) return 0;
  uint32_t v = choose(t, C_FAULT, [&]() -> uint32_t {
    if (!g_faults_on) return 0;
    if (!g_rng.chance(p)) return 0;
    return static_cast<uint32_t>(1 + g_rng.below(n - 1));
  });
  if (v >= n) v = 0;
  if (v) {
    count_fault(kind);
    event("fault-injected", v, 0);
    if (g_verbose) log_line("          (fault kind %s = %u)\n", kind, v);
  }
  return v;
}
uint32_t fault(const char* kind, uint32_t n, double p) {
  if (!live()) return 0;
  Thr* t = t_self;
  ++t->in_rt;
  const uint32_t v = fault_named(kind, n, p * P.p_fault_permille / 1000.0);
  --t->in_rt;
  return v;
}

// Libraries that are not instrumented can at least be interrupted here.
static void alloc_point() {
  if (t_self && t_self->alloc_points) yield();
}
static bool alloc_fails() {
  alloc_point();
  if (!loud() || t_self->alloc_scope == 0 || !g_env.alloc_fail) return false;
  Thr* t = t_self;
  ++t->in_rt;
  const uint32_t v =
      fault_named("alloc_failure", 2, P.p_alloc_ppm / 1000000.0);
  --t->in_rt;
  return v != 0;
}

// ============================================================== race detector
struct Slot {
  uint32_t clk;
  uint8_t tid;   // + 1, 0 = empty
  uint8_t mask;  // bytes of the 8 byte granule
  uint8_t flags; // 1 write, 2 atomic
  uint8_t rr;    // rotating replacement (slot 0 only)
  uint64_t pc;
};
static const int kSlotsPer = 4;

static inline Slot* slots_of(uintptr_t a) {
  if (a >= kHeapBase && a < kHeapBase + kRegionSize)
    return reinterpret_cast<Slot*>(kSlotsBase) + ((a - kHeapBase) >> 3) * kSlotsPer;
  if (a >= g_glob_lo && a < g_glob_hi)
    return reinterpret_cast<Slot*>(kGSlotsBase) + ((a - g_glob_lo) >> 3) * kSlotsPer;
  return nullptr;
}

static void name_of_addr(uintptr_t a, char* out, size_t n) {
  if (in_heap(a)) {
    snprintf(out, n, "heap 0x%lx", static_cast<unsigned long>(a));
  } else if (a >= kStackBase && a < kStackBase + kStacksSize) {
    snprintf(out, n, "stack of T%d 0x%lx",
             static_cast<int>((a - kStackBase) / kStackSize),
             static_cast<unsigned long>(a));
  } else {
    Dl_info info;
    if (dladdr(reinterpret_cast<void*>(a), &info) && info.dli_sname)
      snprintf(out, n, "global %s", info.dli_sname);
    else
      snprintf(out, n, "global 0x%lx", static_cast<unsigned long>(a));
  }
}
[[noreturn]] static void report_race(Thr* t, uintptr_t a, bool write, bool atomic,
                                     uintptr_t pc, const Slot& s) {
  g_in_fail = true;
  ++t->in_rt;
  char d1[400], d2[400], obj[200];
  describe_pc(pc, d1, sizeof(d1));
  describe_pc(s.pc, d2, sizeof(d2));
  name_of_addr(a, obj, sizeof(obj));
  fail(g_default_props, "data-race",
       "data race on %s: %s%s by T%d at %s, unordered with previous %s%s by T%d "
       "at %s",
       obj, atomic ? "atomic " : "", write ? "write" : "read", t->tid, d1,
       s.flags & 2 ? "atomic " : "", s.flags & 1 ? "write" : "read", s.tid - 1,
       d2);
}
static void check_heap_access(uintptr_t a, size_t size, bool write,
                              uintptr_t pc) {
  const uint8_t* l = live_byte(a);
  const size_t off = a & 7;
  const uint8_t v = *l;
  bool bad = false;
  bool freed = false;
  if (v == kLiveFreed) {
    bad = freed = true;
  } else if (v < 8 && off + (size < 8 - off ? size : 8 - off) > v) {
    bad = true;
  } else if (off + size > 8) {
    const uintptr_t last = a + size - 1;
    if (!in_heap(last)) {
      bad = true;
    } else {
      const uint8_t w = *live_byte(last);
      if (w == kLiveFreed)
        bad = freed = true;
      else if ((last & 7) + 1 > w)
        bad = true;
    }
  }
  if (likely(!bad)) return;
  if (g_in_fail) return;
  g_in_fail = true;
  ++t_self->in_rt;
  char d[400];
  describe_pc(pc, d, sizeof(d));
  fail(g_default_props, freed ? "use-after-free" : "out-of-bounds",
       "%s: %zu byte %s at heap 0x%lx by T%d at %s",
       freed ? "use after free" : "heap access out of bounds", size,
       write ? "write" : "read", static_cast<unsigned long>(a), t_self->tid, d);
}

// Returns true when another thread has touched the location before.
static inline bool race_granule(Thr* t, uintptr_t a, uint8_t mask, bool write,
                                bool atomic, uintptr_t pc) {
  Slot* s = slots_of(a);
  if (unlikely(!s)) return false;
  const uint8_t me = static_cast<uint8_t>(t->tid + 1);
  const uint8_t flags = (write ? 1 : 0) | (atomic ? 2 : 0);
  const uint32_t clk = t->vc.c[t->tid];
  bool shared = false;
  Slot* victim = nullptr;
  Slot* empty = nullptr;
  for (int i = 0; i < kSlotsPer; ++i) {
    Slot& o = s[i];
    if (o.tid == 0) {
      if (!empty) empty = &o;
      continue;
    }
    if (o.tid == me) {
      if (o.mask == mask && (o.flags & 2) == (flags & 2) &&
          ((o.flags & 1) <= (flags & 1)))
        victim = &o;
      continue;
    }
    shared = true;
    if (!(o.mask & mask)) continue;
    if (!((o.flags | flags) & 1)) continue;
    if ((o.flags & 2) && (flags & 2)) continue;
    if (t->vc.c[o.tid - 1] >= o.clk) continue;
    if (!g_in_fail) report_race(t, a, write, atomic, pc, o);
  }
  if (!victim) victim = empty;
  if (!victim) victim = &s[s[0].rr++ & (kSlotsPer - 1)];
  const uint8_t rr = victim->rr;
  victim->clk = clk;
  victim->tid = me;
  victim->mask = mask;
  victim->flags = flags;
  victim->pc = pc;
  victim->rr = rr;
  return shared;
}

static void mem_access(uintptr_t a, size_t size, bool write, bool atomic,
                       uintptr_t pc) {
  Thr* t = t_self;
  if (unlikely(!g_active) || unlikely(t == nullptr) || t->quiet || t->in_rt)
    return;
  if (unlikely(!slots_of(a))) return;
  if (unlikely(++g_memsteps > kMaxMemSteps)) stuck("livelock");
  ++t->ctr[C_MEM];
  if (in_heap(a)) check_heap_access(a, size, write, pc);
  bool shared = false;
  uintptr_t cur = a;
  size_t left = size;
  while (left) {
    const size_t off = cur & 7;
    const size_t n = left < 8 - off ? left : 8 - off;
    const uint8_t mask = static_cast<uint8_t>(((1u << n) - 1) << off);
    shared |= race_granule(t, cur & ~7ull, mask, write, atomic, pc);
    cur += n;
    left -= n;
  }
  if (g_replay.on) {
    uint32_t& pos = t->rp_pos[C_MEM];
    while (pos < t->rp_end[C_MEM] &&
           g_replay.c[pos].ctr < t->ctr[C_MEM])
      ++pos;
    if (pos < t->rp_end[C_MEM] && g_replay.c[pos].ctr == t->ctr[C_MEM])
      mem_preempt(t, pc);
    return;
  }
  if (g_fair || P.mem_mean == 0) return;
  if (!shared) {
    if (P.mem_shared) return;
    if (a >= kStackBase && a < kStackBase + kStacksSize) return;
  }
  if (--g_mem_left <= 0) {
    draw_mem_left();
    mem_preempt(t, pc);
  }
}

// ============================================================= sync var table
struct SyncVar {
  uintptr_t addr;
  VC vc;
  int owner;      // mutex owner tid or -1
  int count;      // recursion / semaphore / writers
  int readers;    // rwlock
  uint64_t rd_mask;
  int kind;
  bool once_done;
};
enum { kSyncTable = 1 << 17 };
static SyncVar* g_sync = nullptr;
static int g_nsync = 0;
static SyncVar* sync_find(uintptr_t a, bool create) {
  uint64_t h = (a >> 1) * 0x9e3779b97f4a7c15ull;
  size_t i = h >> (64 - 17);
  while (true) {
    SyncVar& s = g_sync[i];
    if (s.addr == a) return &s;
    if (s.addr == 0) {
      if (!create) return nullptr;
      if (++g_nsync > kSyncTable * 3 / 4) inconclusive("too many sync objects");
      s.addr = a;
      s.owner = -1;
      return &s;
    }
    i = (i + 1) & (kSyncTable - 1);
  }
}
static inline void acquire(Thr* t, const SyncVar* s) {
  vc_join(&t->vc, &s->vc, kMaxSimThreads);
}
static inline void release(Thr* t, SyncVar* s) {
  vc_join(&s->vc, &t->vc, kMaxSimThreads);
  ++t->vc.c[t->tid];
}
static inline void release_store(Thr* t, SyncVar* s) {
  copy_bytes(&s->vc, &t->vc, sizeof(s->vc));
  ++t->vc.c[t->tid];
}
static void check_sync_addr(uintptr_t a, size_t n, uintptr_t pc) {
  if (in_heap(a)) check_heap_access(a, n, true, pc);
}

static void wake_all_on(uintptr_t obj, int state) {
  for (int i = 0; i < g_nthr; ++i) {
    Thr& t = g_thr[i];
    if (t.state == state && t.wait_obj == obj) {
      t.state = T_RUN;
      t.deadline = -1;
    }
  }
}
// Wakes up to n waiters; returns how many.
static int wake_some(Thr* me, uintptr_t obj, int state, int n) {
  int woke = 0;
  while (woke < n) {
    int cand[kMaxSimThreads];
    int k = 0;
    for (int i = 0; i < g_nthr; ++i)
      if (g_thr[i].state == state && g_thr[i].wait_obj == obj) cand[k++] = i;
    if (!k) break;
    // FIFO by default.
    for (int i = 1; i < k; ++i)
      for (int j = i; j > 0 && g_thr[cand[j]].wait_seq <
                                   g_thr[cand[j - 1]].wait_seq;
           --j) {
        const int x = cand[j];
        cand[j] = cand[j - 1];
        cand[j - 1] = x;
      }
    uint32_t v = 0;
    if (k > 1 && n < k) {
      v = choose(me, C_SIGNAL, [&]() -> uint32_t {
        return P.random_signal ? static_cast<uint32_t>(g_rng.below(k)) : 0;
      });
      if (v >= static_cast<uint32_t>(k)) v = 0;
    }
    Thr& t = g_thr[cand[v]];
    t.state = T_RUN;
    t.deadline = -1;
    t.signalled = true;
    ++woke;
  }
  return woke;
}
static void block_on(Thr* me, int state, uintptr_t obj, int64_t deadline) {
  me->state = state;
  me->wait_obj = obj;
  me->wait_seq = ++g_wait_seq;
  me->deadline = deadline;
  me->timed_out = false;
  me->signalled = false;
  block(me);
  me->wait_obj = 0;
  me->deadline = -1;
}

// ====================================================================== clock
static int64_t quant(int64_t v) {
  return P.clock_res_ns > 1 ? v - v % P.clock_res_ns : v;
}
int64_t now_ns() { return P.mono_base_ns + g_sim_ns; }
int64_t wall_ns() { return P.wall_base_ns + g_sim_ns + g_wall_off; }
static const int64_t kJumps[] = {
    -1000000ll,        1000000ll,        -1000000000ll,     1000000000ll,
    -3600000000000ll,  3600000000000ll,  -86400000000000ll, 86400000000000ll,
    -50000ll,          50000ll};
static void maybe_jump() {
  Thr* t = t_self;
  if (loud()) {
    ++t->in_rt;
    if (g_env.clock_jumps) {
      const uint32_t nj = sizeof(kJumps) / sizeof(kJumps[0]);
      uint32_t v = choose(t, C_CLOCK, [&]() -> uint32_t {
        if (!g_faults_on || P.p_clock_ppm == 0) return 0;
        if (static_cast<int>(g_rng.below(1000000)) >= P.p_clock_ppm) return 0;
        return static_cast<uint32_t>(1 + g_rng.below(nj));
      });
      if (v && v <= nj) {
        g_wall_off += kJumps[v - 1];
        count_fault(kJumps[v - 1] < 0 ? "wall_clock_back" : "wall_clock_forward");
        event("fault-clock-jump", static_cast<uint64_t>(kJumps[v - 1]), 0);
      }
    }
    --t->in_rt;
  }
}
static int64_t read_wall() {
  maybe_jump();
  return quant(wall_ns());
}
static int64_t read_mono() {
  maybe_jump();
  int64_t v = quant(now_ns());
  if (v < g_last_mono) v = g_last_mono;
  g_last_mono = v;
  return v;
}
int64_t clock_resolution() { return P.clock_res_ns; }
static void to_ts(int64_t v, struct timespec* ts) {
  ts->tv_sec = v / 1000000000ll;
  ts->tv_nsec = v % 1000000000ll;
}
static int64_t from_ts(const struct timespec* ts) {
  return ts->tv_sec * 1000000000ll + ts->tv_nsec;
}
// Absolute deadline on the given clock -> simulated time.
static int64_t abs_deadline(clockid_t clock, const struct timespec* ts) {
  const int64_t v = from_ts(ts);
  int64_t d;
  if (clock == CLOCK_REALTIME)
    d = v - P.wall_base_ns - g_wall_off;
  else
    d = v - P.mono_base_ns;
  return d < 0 ? 0 : d;
}
static void sim_sleep(int64_t until, uintptr_t pc) {
  Thr* t = t_self;
  ++t->in_rt;
  sync_point(t, pc);
  event("sleep", 0, until);
  if (until > g_sim_ns) block_on(t, T_SLEEP, 0, until);
  if (P.strategy == ST_PCT) t->prio = --g_low_prio;
  --t->in_rt;
}
void advance_time(int64_t ns) {
  if (live()) sim_sleep(g_sim_ns + ns, RA());
}

// ============================================================== public helpers
uint64_t stamp() { return ++g_stamp; }
int tid() { return t_self ? t_self->tid : -1; }
int num_threads() { return g_nthr; }
const char* thread_label(int i) { return g_thr[i].label; }
void label(const char* text) {
  if (live()) copy_str(t_self->label, sizeof(t_self->label), text);
}
bool is_blocked(int i) {
  return g_thr[i].state != T_RUN && g_thr[i].state != T_DONE;
}
bool is_finished(int i) { return g_thr[i].state == T_DONE; }
void yield() {
  if (!loud()) return;
  Thr* t = t_self;
  ++t->in_rt;
  sync_point(t, RA());
  --t->in_rt;
}
void wait_quiescent() {
  if (!live()) return;
  Thr* t = t_self;
  ++t->in_rt;
  sync_point(t, RA());
  event("wait-quiescent", 0, 0);
  block_on(t, T_QUIESCE, 0, -1);
  --t->in_rt;
}
Quiet::Quiet() {
  if (t_self) ++t_self->quiet;
}
Quiet::~Quiet() {
  if (t_self) --t_self->quiet;
}
AllocPointScope::AllocPointScope() {
  if (t_self) ++t_self->alloc_points;
}
AllocPointScope::~AllocPointScope() {
  if (t_self) --t_self->alloc_points;
}
AllocFaultScope::AllocFaultScope() {
  if (t_self) ++t_self->alloc_scope;
}
AllocFaultScope::~AllocFaultScope() {
  if (t_self) --t_self->alloc_scope;
}

// ============================================================== real functions
static int (*real_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*),
                          void*);
static int (*real_join)(pthread_t, void**);
static int (*real_detach)(pthread_t);
static int (*real_mutex_lock)(pthread_mutex_t*);
static int (*real_mutex_trylock)(pthread_mutex_t*);
static int (*real_mutex_unlock)(pthread_mutex_t*);
static int (*real_cond_wait)(pthread_cond_t*, pthread_mutex_t*);
static int (*real_cond_signal)(pthread_cond_t*);
static int (*real_cond_broadcast)(pthread_cond_t*);
static int (*real_rw_rd)(pthread_rwlock_t*);
static int (*real_rw_wr)(pthread_rwlock_t*);
static int (*real_rw_un)(pthread_rwlock_t*);
static int (*real_once)(pthread_once_t*, void (*)());
static FILE* (*real_fopen)(const char*, const char*);
static int (*real_fclose)(FILE*);
static int (*real_open)(const char*, int, ...);
static int (*real_close)(int);
static ssize_t (*real_read)(int, void*, size_t);
static ssize_t (*real_write)(int, const void*, size_t);
static ssize_t (*real_writev)(int, const struct iovec*, int);
static int (*real_rename)(const char*, const char*);
static int (*real_unlink)(const char*);
static int (*real_remove)(const char*);
static int (*real_fsync)(int);
static int (*real_fdatasync)(int);
static int (*real_access)(const char*, int);
static int (*real_stat)(const char*, struct stat*);
static int (*real_lstat)(const char*, struct stat*);

template <class T>
static void load(T* f, const char* name) {
  *f = reinterpret_cast<T>(dlsym(RTLD_NEXT, name));
}
static bool g_loaded = false;
static void load_real() {
  if (g_loaded) return;
  g_loaded = true;
  load(&real_create, "pthread_create");
  load(&real_join, "pthread_join");
  load(&real_detach, "pthread_detach");
  load(&real_mutex_lock, "pthread_mutex_lock");
  load(&real_mutex_trylock, "pthread_mutex_trylock");
  load(&real_mutex_unlock, "pthread_mutex_unlock");
  load(&real_cond_wait, "pthread_cond_wait");
  load(&real_cond_signal, "pthread_cond_signal");
  load(&real_cond_broadcast, "pthread_cond_broadcast");
  load(&real_rw_rd, "pthread_rwlock_rdlock");
  load(&real_rw_wr, "pthread_rwlock_wrlock");
  load(&real_rw_un, "pthread_rwlock_unlock");
  load(&real_once, "pthread_once");
  load(&real_fopen, "fopen64");
  load(&real_fclose, "fclose");
  load(&real_open, "open64");
  load(&real_close, "close");
  load(&real_read, "read");
  load(&real_write, "write");
  load(&real_writev, "writev");
  load(&real_rename, "rename");
  load(&real_unlink, "unlink");
  load(&real_remove, "remove");
  load(&real_fsync, "fsync");
  load(&real_fdatasync, "fdatasync");
  load(&real_access, "access");
  load(&real_stat, "stat");
  load(&real_lstat, "lstat");
}

// =========================================================== thread life cycle
static void* thread_main(void* arg) {
  Thr* t = static_cast<Thr*>(arg);
  t_self = t;
  __atomic_store_n(&t->parked, 1, __ATOMIC_SEQ_CST);
  raw_futex_wake(&t->parked);
  while (__atomic_load_n(&t->token, __ATOMIC_SEQ_CST) == 0)
    raw_futex_wait(&t->token, 0);
  __atomic_store_n(&t->token, 0, __ATOMIC_SEQ_CST);
  t->ret = t->fn(t->arg);
  while (t->ntls > 0) {
    --t->ntls;
    t->tls[t->ntls].f(t->tls[t->ntls].obj);
  }
  // The thread is over: wake joiners, hand the token on, park for good.
  ++t->in_rt;
  sync_point(t, 0);
  event("thread-exit", 0, 0);
  t->state = T_DONE;
  wake_all_on(reinterpret_cast<uintptr_t>(t), T_JOIN);
  if (t->tid == 0) {
    for (int i = 0; i < g_nthr; ++i)
      if (g_thr[i].state != T_DONE) {
        // Detached threads are allowed to outlive the run.
        if (!g_thr[i].detached) {
          fail(g_default_props, "thread-leak",
               "run ended while thread T%d is still alive", i);
        }
      }
    end_run(S_OK);
  }
  block(t);
  for (;;) raw_futex_wait(&t->token, t->token);
}

static Thr* new_thread(void* (*fn)(void*), void* arg) {
  if (g_nthr >= kMaxSimThreads) inconclusive("too many threads");
  Thr* t = &g_thr[g_nthr];
  fill_bytes(t, 0, sizeof(*t));
  t->tid = g_nthr++;
  t->fn = fn;
  t->arg = arg;
  t->deadline = -1;
  t->state = T_RUN;
  t->vc.c[t->tid] = 1;
  check_replay_index(t);
  t->prio = P.strategy == ST_PCT && !g_replay.on
                ? static_cast<int64_t>(g_rng.below(1000000)) + 1
                : 0;
  return t;
}
static void start_real(Thr* t) {
  pthread_attr_t attr;
  pthread_attr_init(&attr);
  pthread_attr_setstack(
      &attr, reinterpret_cast<void*>(kStackBase + t->tid * kStackSize),
      kStackSize);
  const int rc = real_create(&t->real, &attr, thread_main, t);
  if (rc) internal_error("pthread_create failed");
  pthread_attr_destroy(&attr);
  while (__atomic_load_n(&t->parked, __ATOMIC_SEQ_CST) == 0)
    raw_futex_wait(&t->parked, 0);
}

}  // namespace sim

using namespace sim;

// ===================================================================== malloc
extern "C" {
void* malloc(size_t n) {
  if (alloc_fails()) {
    errno = ENOMEM;
    return nullptr;
  }
  void* p = heap_alloc(n, 16);
  if (!p) errno = ENOMEM;
  return p;
}
void free(void* p) {
  alloc_point();
  heap_free(p, RA());
}
void* calloc(size_t a, size_t b) {
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) return nullptr;
  void* p = malloc(n);
  if (p) fill_bytes(p, 0, n);
  return p;
}
void* realloc(void* p, size_t n) {
  if (!p) return malloc(n);
  if (n == 0) {
    free(p);
    return nullptr;
  }
  void* q = malloc(n);
  if (!q) return nullptr;
  const size_t o = heap_size(p);
  copy_bytes(q, p, o < n ? o : n);
  heap_free(p, RA());
  return q;
}
void* memalign(size_t a, size_t n) { return heap_alloc(n, a); }
void* aligned_alloc(size_t a, size_t n) {
  if (alloc_fails()) return nullptr;
  return heap_alloc(n, a);
}
int posix_memalign(void** out, size_t a, size_t n) {
  if (alloc_fails()) return ENOMEM;
  *out = heap_alloc(n, a);
  return *out ? 0 : ENOMEM;
}
void* valloc(size_t n) { return heap_alloc(n, 4096); }
void* pvalloc(size_t n) { return heap_alloc((n + 4095) & ~4095ull, 4096); }
size_t malloc_usable_size(void* p) { return p ? heap_size(p) : 0; }

// Bulk memory operations called by instrumented code.
void* memcpy(void* d, const void* s, size_t n) {
  const uintptr_t ra = RA();
  if (n && loud() && ours(ra)) {
    mem_access(reinterpret_cast<uintptr_t>(s), n, false, false, ra);
    mem_access(reinterpret_cast<uintptr_t>(d), n, true, false, ra);
  }
  copy_bytes(d, s, n);
  return d;
}
void* memmove(void* d, const void* s, size_t n) {
  const uintptr_t ra = RA();
  if (n && loud() && ours(ra)) {
    mem_access(reinterpret_cast<uintptr_t>(s), n, false, false, ra);
    mem_access(reinterpret_cast<uintptr_t>(d), n, true, false, ra);
  }
  if (d <= s || static_cast<char*>(d) >= static_cast<const char*>(s) + n) {
    copy_bytes(d, s, n);
  } else {
    char* dd = static_cast<char*>(d) + n - 1;
    const char* ss = static_cast<const char*>(s) + n - 1;
    size_t c = n;
    __asm__ volatile("std\n\trep movsb\n\tcld"
                     : "+D"(dd), "+S"(ss), "+c"(c)
                     :
                     : "memory");
  }
  return d;
}
void* memset(void* d, int v, size_t n) {
  const uintptr_t ra = RA();
  if (n && loud() && ours(ra))
    mem_access(reinterpret_cast<uintptr_t>(d), n, true, false, ra);
  fill_bytes(d, v, n);
  return d;
}
}

// ====================================================================== abort
static void read_stderr_tail(char* out, size_t n) {
  out[0] = 0;
  if (g_stderr_fd < 0) return;
  fflush(stderr);
  const off_t end = lseek(g_stderr_fd, 0, SEEK_END);
  off_t from = end > static_cast<off_t>(n) - 1 ? end - (n - 1) : 0;
  const ssize_t k = pread(g_stderr_fd, out, n - 1, from);
  out[k > 0 ? k : 0] = 0;
}
extern "C" void __assert_fail(const char* what, const char* file, unsigned line, const char* fn) {
  if (t_self) ++t_self->in_rt;
  fprintf(stderr, "%s:%u: %s: Assertion `%s' failed.\n", file, line, fn, what);
  if (t_self) --t_self->in_rt;
  if (R && g_active && !g_assert_ok) {
    if (t_self) ++t_self->in_rt;
    fail(g_default_props, "assertion", "%s:%u: %s: Assertion `%s' failed (and is not checked at all in a release build)", file, line, fn, what);
  }
  abort();
}
// Destructors of thread_local objects: simulated threads never leave for real.
extern "C" int __cxa_thread_atexit(void (*f)(void*), void* obj, void* dso) {
  typedef int (*Fn)(void (*)(void*), void*, void*);
  Thr* t = t_self;
  if (t && t->ntls < static_cast<int>(sizeof(t->tls) / sizeof(t->tls[0]))) {
    t->tls[t->ntls].f = f;
    t->tls[t->ntls].obj = obj;
    ++t->ntls;
    return 0;
  }
  static Fn real = nullptr;
  if (!real) load(&real, "__cxa_thread_atexit");
  if (t) ++t->in_rt;
  const int r = real ? real(f, obj, dso) : 0;
  if (t) --t->in_rt;
  return r;
}
extern "C" void abort() {
  if (R && g_active) {
    if (t_self) ++t_self->in_rt;
    if (g_abort_cb) {
      void (*cb)() = g_abort_cb;
      g_abort_cb = nullptr;
      if (t_self) ++t_self->quiet;
      cb();
    }
    if (g_abort_ok) {
      probe("clean_abort");
      end_run(S_OK);
    }
    char tail[1200];
    read_stderr_tail(tail, sizeof(tail));
    fail(g_default_props, "abort", "the program aborted: %s", tail);
  }
  signal(SIGABRT, SIG_DFL);
  raise(SIGABRT);
  _exit(134);
}
static void crash_handler(int sig, siginfo_t* si, void* uc) {
  if (!R || !g_active || g_in_fail) raw_syscall(SYS_exit_group, 72);
  g_in_fail = true;
  uintptr_t pc = 0;
#ifdef __x86_64__
  pc = static_cast<uintptr_t>(
      static_cast<ucontext_t*>(uc)->uc_mcontext.gregs[REG_RIP]);
#endif
  char d[300];
  if (t_self) ++t_self->in_rt;
  describe_pc(pc, d, sizeof(d));
  fail(g_default_props, "crash", "signal %d (address %p) at %s", sig,
       si->si_addr, d);
}

// =================================================================== pthreads
struct RtScope {
  Thr* t;
  explicit RtScope(Thr* x) : t(x) { ++t->in_rt; }
  ~RtScope() { --t->in_rt; }
};

static int64_t rel_or_abs(clockid_t c, const struct timespec* ts) {
  return abs_deadline(c, ts);
}

static int sim_mutex_lock(Thr* t, pthread_mutex_t* m, uintptr_t pc,
                          int64_t deadline, bool tryonly) {
  const uintptr_t a = reinterpret_cast<uintptr_t>(m);
  sync_point(t, pc);
  check_sync_addr(a, sizeof(*m), pc);
  SyncVar* s = sync_find(a, true);
  const int kind = m->__data.__kind & 3;
  if (s->owner == t->tid) {
    if (kind == PTHREAD_MUTEX_RECURSIVE_NP) {
      ++s->count;
      return 0;
    }
    if (tryonly) return EBUSY;
    if (kind == PTHREAD_MUTEX_ERRORCHECK_NP) return EDEADLK;
    if (deadline < 0) {
      event("mutex-self-deadlock", a, 0);
    }
  }
  while (s->owner >= 0) {
    if (tryonly) {
      event("mutex-trylock-busy", a, 0);
      return EBUSY;
    }
    event("mutex-block", a, s->owner);
    block_on(t, T_MUTEX, a, deadline);
    check_sync_addr(a, sizeof(*m), pc);
    if (t->timed_out && s->owner >= 0) return ETIMEDOUT;
  }
  s->owner = t->tid;
  s->count = 1;
  acquire(t, s);
  event("mutex-lock", a, 0);
  return 0;
}
static int sim_mutex_unlock(Thr* t, pthread_mutex_t* m, uintptr_t pc,
                            bool yield_after) {
  const uintptr_t a = reinterpret_cast<uintptr_t>(m);
  check_sync_addr(a, sizeof(*m), pc);
  SyncVar* s = sync_find(a, true);
  if (s->owner != t->tid) {
    char d[300];
    describe_pc(pc, d, sizeof(d));
    fail(g_default_props, "bad-unlock",
         "T%d unlocks a mutex it does not hold, at %s", t->tid, d);
  }
  if (--s->count > 0) return 0;
  s->owner = -1;
  release(t, s);
  wake_all_on(a, T_MUTEX);
  event("mutex-unlock", a, 0);
  if (yield_after) sync_point(t, pc);
  return 0;
}

static int sim_cond_wait(Thr* t, pthread_cond_t* c, pthread_mutex_t* m,
                         uintptr_t pc, int64_t deadline) {
  const uintptr_t a = reinterpret_cast<uintptr_t>(c);
  sync_point(t, pc);
  check_sync_addr(a, sizeof(*c), pc);
  SyncVar* s = sync_find(reinterpret_cast<uintptr_t>(m), true);
  if (s->owner != t->tid) {
    char d[300];
    describe_pc(pc, d, sizeof(d));
    fail(g_default_props, "bad-wait",
         "T%d waits on a condition variable without holding the mutex, at %s",
         t->tid, d);
  }
  const int saved = s->count;
  s->owner = -1;
  release(t, s);
  wake_all_on(reinterpret_cast<uintptr_t>(m), T_MUTEX);
  event("cond-wait", a, 0);
  block_on(t, T_COND, a, deadline);
  const bool to = t->timed_out;
  check_sync_addr(reinterpret_cast<uintptr_t>(m), sizeof(*m), pc);
  s = sync_find(reinterpret_cast<uintptr_t>(m), true);
  while (s->owner >= 0) block_on(t, T_MUTEX, reinterpret_cast<uintptr_t>(m), -1);
  s->owner = t->tid;
  s->count = saved;
  acquire(t, s);
  event("cond-woken", a, to);
  return to ? ETIMEDOUT : 0;
}

extern "C" {

int pthread_create(pthread_t* out, const pthread_attr_t* attr,
                   void* (*fn)(void*), void* arg) {
  load_real();
  if (!live()) return real_create(out, attr, fn, arg);
  Thr* me = t_self;
  RtScope rt(me);
  sync_point(me, RA());
  Thr* t = new_thread(fn, arg);
  int st = 0;
  if (attr && pthread_attr_getdetachstate(attr, &st) == 0 &&
      st == PTHREAD_CREATE_DETACHED)
    t->detached = true;
  vc_join(&t->vc, &me->vc, kMaxSimThreads);
  ++me->vc.c[me->tid];
  event("thread-create", t->tid, 0);
  start_real(t);
  *out = t->real;
  sync_point(me, RA());
  return 0;
}
static Thr* find_thread(pthread_t p) {
  for (int i = g_nthr - 1; i >= 0; --i)
    if (pthread_equal(g_thr[i].real, p)) return &g_thr[i];
  return nullptr;
}
int pthread_join(pthread_t p, void** ret) {
  load_real();
  if (!live()) return real_join(p, ret);
  Thr* me = t_self;
  RtScope rt(me);
  sync_point(me, RA());
  Thr* t = find_thread(p);
  if (!t) return ESRCH;
  event("join", t->tid, 0);
  while (t->state != T_DONE)
    block_on(me, T_JOIN, reinterpret_cast<uintptr_t>(t), -1);
  vc_join(&me->vc, &t->vc, kMaxSimThreads);
  t->joined = true;
  if (ret) *ret = t->ret;
  return 0;
}
int pthread_detach(pthread_t p) {
  load_real();
  if (!live()) return real_detach(p);
  Thr* t = find_thread(p);
  if (t) t->detached = true;
  return 0;
}

int pthread_mutex_lock(pthread_mutex_t* m) {
  const uintptr_t ra = RA();
  if (!live()) {
    load_real();
    return real_mutex_lock(m);
  }
  Thr* t = t_self;
  if (!ours(ra)) {
    ++t->quiet;
    return 0;
  }
  if (t->quiet || t->in_rt) return 0;
  RtScope rt(t);
  return sim_mutex_lock(t, m, ra, -1, false);
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  const uintptr_t ra = RA();
  if (!live()) {
    load_real();
    return real_mutex_trylock(m);
  }
  Thr* t = t_self;
  if (!ours(ra)) {
    ++t->quiet;
    return 0;
  }
  if (t->quiet || t->in_rt) return 0;
  RtScope rt(t);
  return sim_mutex_lock(t, m, ra, -1, true);
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) {
  if (!live() || t_self->quiet || t_self->in_rt) return 0;
  RtScope rt(t_self);
  return sim_mutex_lock(t_self, m, RA(), rel_or_abs(CLOCK_REALTIME, ts), false);
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c,
                            const struct timespec* ts) {
  if (!live() || t_self->quiet || t_self->in_rt) return 0;
  RtScope rt(t_self);
  return sim_mutex_lock(t_self, m, RA(), rel_or_abs(c, ts), false);
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  const uintptr_t ra = RA();
  if (!live()) {
    load_real();
    return real_mutex_unlock(m);
  }
  Thr* t = t_self;
  if (!ours(ra)) {
    --t->quiet;
    return 0;
  }
  if (t->quiet || t->in_rt) return 0;
  RtScope rt(t);
  sync_point(t, ra);
  return sim_mutex_unlock(t, m, ra, true);
}
int pthread_mutex_destroy(pthread_mutex_t* m) {
  if (live()) {
    SyncVar* s = sync_find(reinterpret_cast<uintptr_t>(m), false);
    if (s) {
      s->owner = -1;
      s->count = 0;
    }
  }
  return 0;
}

int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (!live()) {
    load_real();
    return real_cond_wait(c, m);
  }
  if (t_self->quiet || t_self->in_rt) return 0;
  RtScope rt(t_self);
  return sim_cond_wait(t_self, c, m, RA(), -1);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m,
                           const struct timespec* ts) {
  if (!live() || t_self->quiet || t_self->in_rt) return ETIMEDOUT;
  RtScope rt(t_self);
  return sim_cond_wait(t_self, c, m, RA(), rel_or_abs(CLOCK_REALTIME, ts));
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k,
                           const struct timespec* ts) {
  if (!live() || t_self->quiet || t_self->in_rt) return ETIMEDOUT;
  RtScope rt(t_self);
  return sim_cond_wait(t_self, c, m, RA(), rel_or_abs(k, ts));
}
int pthread_cond_signal(pthread_cond_t* c) {
  if (!live()) {
    load_real();
    return real_cond_signal(c);
  }
  Thr* t = t_self;
  if (t->quiet || t->in_rt) return 0;
  RtScope rt(t);
  sync_point(t, RA());
  check_sync_addr(reinterpret_cast<uintptr_t>(c), sizeof(*c), RA());
  const int n = wake_some(t, reinterpret_cast<uintptr_t>(c), T_COND, 1);
  event("cond-signal", reinterpret_cast<uintptr_t>(c), n);
  sync_point(t, RA());
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  if (!live()) {
    load_real();
    return real_cond_broadcast(c);
  }
  Thr* t = t_self;
  if (t->quiet || t->in_rt) return 0;
  RtScope rt(t);
  sync_point(t, RA());
  check_sync_addr(reinterpret_cast<uintptr_t>(c), sizeof(*c), RA());
  const int n =
      wake_some(t, reinterpret_cast<uintptr_t>(c), T_COND, kMaxSimThreads);
  event("cond-broadcast", reinterpret_cast<uintptr_t>(c), n);
  sync_point(t, RA());
  return 0;
}
int pthread_cond_destroy(pthread_cond_t*) { return 0; }

// ------------------------------------------------------------------- rwlocks
static int sim_rw(pthread_rwlock_t* l, uintptr_t ra, bool write, bool tryonly,
                  int64_t deadline) {
  Thr* t = t_self;
  if (!ours(ra)) {
    ++t->quiet;
    return 0;
  }
  if (t->quiet || t->in_rt) return 0;
  RtScope rt(t);
  const uintptr_t a = reinterpret_cast<uintptr_t>(l);
  sync_point(t, ra);
  check_sync_addr(a, sizeof(*l), ra);
  SyncVar* s = sync_find(a, true);
  while (s->owner >= 0 || (write && s->readers > 0)) {
    if (tryonly) return EBUSY;
    event("rwlock-block", a, write);
    block_on(t, T_RWLOCK, a, deadline);
    if (t->timed_out) return ETIMEDOUT;
  }
  if (write)
    s->owner = t->tid;
  else
    ++s->readers;
  acquire(t, s);
  event(write ? "rwlock-write" : "rwlock-read", a, 0);
  return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l) {
  if (!live()) {
    load_real();
    return real_rw_rd(l);
  }
  return sim_rw(l, RA(), false, false, -1);
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l) {
  if (!live()) {
    load_real();
    return real_rw_wr(l);
  }
  return sim_rw(l, RA(), true, false, -1);
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) {
  if (!live()) {
    load_real();
    return real_rw_rd(l);
  }
  return sim_rw(l, RA(), false, true, -1);
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) {
  if (!live()) {
    load_real();
    return real_rw_wr(l);
  }
  return sim_rw(l, RA(), true, true, -1);
}
int pthread_rwlock_timedrdlock(pthread_rwlock_t* l, const struct timespec* ts) {
  if (!live()) return 0;
  return sim_rw(l, RA(), false, false, rel_or_abs(CLOCK_REALTIME, ts));
}
int pthread_rwlock_timedwrlock(pthread_rwlock_t* l, const struct timespec* ts) {
  if (!live()) return 0;
  return sim_rw(l, RA(), true, false, rel_or_abs(CLOCK_REALTIME, ts));
}
int pthread_rwlock_clockrdlock(pthread_rwlock_t* l, clockid_t c,
                               const struct timespec* ts) {
  if (!live()) return 0;
  return sim_rw(l, RA(), false, false, rel_or_abs(c, ts));
}
int pthread_rwlock_clockwrlock(pthread_rwlock_t* l, clockid_t c,
                               const struct timespec* ts) {
  if (!live()) return 0;
  return sim_rw(l, RA(), true, false, rel_or_abs(c, ts));
}
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
  const uintptr_t ra = RA();
  if (!live()) {
    load_real();
    return real_rw_un(l);
  }
  Thr* t = t_self;
  if (!ours(ra)) {
    --t->quiet;
    return 0;
  }
  if (t->quiet || t->in_rt) return 0;
  RtScope rt(t);
  const uintptr_t a = reinterpret_cast<uintptr_t>(l);
  sync_point(t, ra);
  check_sync_addr(a, sizeof(*l), ra);
  SyncVar* s = sync_find(a, true);
  if (s->owner == t->tid) {
    s->owner = -1;
  } else if (s->readers > 0) {
    --s->readers;
  } else {
    fail(g_default_props, "bad-unlock", "rwlock unlocked while not held");
  }
  release(t, s);
  wake_all_on(a, T_RWLOCK);
  event("rwlock-unlock", a, 0);
  sync_point(t, ra);
  return 0;
}

// ---------------------------------------------------------------------- once
int pthread_once(pthread_once_t* o, void (*fn)()) {
  const uintptr_t ra = RA();
  if (!live()) {
    load_real();
    return real_once(o, fn);
  }
  Thr* t = t_self;
  if (!ours(ra) || t->quiet || t->in_rt) {
    if (*o == 2) return 0;
    load_real();
    return real_once(o, fn);
  }
  if (*o == 2) {  // completed before the simulation started
    return 0;
  }
  const uintptr_t a = reinterpret_cast<uintptr_t>(o);
  {
    RtScope rt(t);
    sync_point(t, ra);
    SyncVar* s = sync_find(a, true);
    while (!s->once_done && s->owner >= 0) block_on(t, T_ONCE, a, -1);
    if (s->once_done) {
      acquire(t, s);
      return 0;
    }
    s->owner = t->tid;
  }
  struct Cleanup {
    Thr* t;
    uintptr_t a;
    bool ok;
    ~Cleanup() {
      RtScope rt(t);
      SyncVar* s = sync_find(a, true);
      s->owner = -1;
      if (ok) s->once_done = true;
      release(t, s);
      wake_all_on(a, T_ONCE);
    }
  } cleanup = {t, a, false};
  fn();
  cleanup.ok = true;
  return 0;
}

// Function local statics.
int __cxa_guard_acquire(uint8_t* g) {
  if (__atomic_load_n(g, __ATOMIC_ACQUIRE)) return 0;
  if (!live() || t_self->quiet || t_self->in_rt || !ours(RA())) {
    if (g[1]) {
      // Code that does not give way needs an object that another thread is in
      // the middle of making: this run cannot go on, and says nothing.
      if (live()) inconclusive("quiet code waits for a static initialiser");
      return 1;
    }
    g[1] = 1;
    return 1;
  }
  Thr* t = t_self;
  RtScope rt(t);
  sync_point(t, RA());
  SyncVar* s = sync_find(reinterpret_cast<uintptr_t>(g), true);
  while (!g[0] && g[1]) block_on(t, T_ONCE, reinterpret_cast<uintptr_t>(g), -1);
  if (g[0]) {
    acquire(t, s);
    return 0;
  }
  g[1] = 1;
  event("static-init", reinterpret_cast<uintptr_t>(g), 0);
  return 1;
}
void __cxa_guard_release(uint8_t* g) {
  g[1] = 0;
  __atomic_store_n(g, 1, __ATOMIC_RELEASE);
  if (!live()) return;
  Thr* t = t_self;
  RtScope rt(t);
  release(t, sync_find(reinterpret_cast<uintptr_t>(g), true));
  wake_all_on(reinterpret_cast<uintptr_t>(g), T_ONCE);
}
void __cxa_guard_abort(uint8_t* g) {
  g[1] = 0;
  if (!live()) return;
  Thr* t = t_self;
  RtScope rt(t);
  wake_all_on(reinterpret_cast<uintptr_t>(g), T_ONCE);
}

// -------------------------------------------------------- spin, sem, barrier
int pthread_spin_init(pthread_spinlock_t* l, int) {
  *l = 0;
  return 0;
}
int pthread_spin_lock(pthread_spinlock_t* l) {
  const uintptr_t ra = RA();
  if (!loud()) return 0;
  Thr* t = t_self;
  RtScope rt(t);
  const uintptr_t a = reinterpret_cast<uintptr_t>(l);
  sync_point(t, ra);
  SyncVar* s = sync_find(a, true);
  while (s->owner >= 0) block_on(t, T_MUTEX, a, -1);
  s->owner = t->tid;
  acquire(t, s);
  event("spin-lock", a, 0);
  return 0;
}
int pthread_spin_trylock(pthread_spinlock_t* l) {
  if (!loud()) return 0;
  Thr* t = t_self;
  RtScope rt(t);
  sync_point(t, RA());
  SyncVar* s = sync_find(reinterpret_cast<uintptr_t>(l), true);
  if (s->owner >= 0) return EBUSY;
  s->owner = t->tid;
  acquire(t, s);
  return 0;
}
int pthread_spin_unlock(pthread_spinlock_t* l) {
  if (!loud()) return 0;
  Thr* t = t_self;
  RtScope rt(t);
  sync_point(t, RA());
  SyncVar* s = sync_find(reinterpret_cast<uintptr_t>(l), true);
  s->owner = -1;
  release(t, s);
  wake_all_on(reinterpret_cast<uintptr_t>(l), T_MUTEX);
  sync_point(t, RA());
  return 0;
}
int sem_init(sem_t* s, int, unsigned v) {
  *reinterpret_cast<unsigned*>(s) = v;
  if (live()) {
    SyncVar* x = sync_find(reinterpret_cast<uintptr_t>(s), true);
    x->count = static_cast<int>(v);
    x->kind = 1;
  }
  return 0;
}
int sem_destroy(sem_t*) { return 0; }
static int sim_sem_wait(sem_t* sm, uintptr_t ra, bool tryonly, int64_t deadline) {
  if (!loud()) return 0;
  Thr* t = t_self;
  RtScope rt(t);
  sync_point(t, ra);
  SyncVar* s = sync_find(reinterpret_cast<uintptr_t>(sm), true);
  if (!s->kind) {
    s->count = static_cast<int>(*reinterpret_cast<unsigned*>(sm));
    s->kind = 1;
  }
  while (s->count == 0) {
    if (tryonly) {
      errno = EAGAIN;
      return -1;
    }
    block_on(t, T_SEM, reinterpret_cast<uintptr_t>(sm), deadline);
    if (t->timed_out) {
      errno = ETIMEDOUT;
      return -1;
    }
  }
  --s->count;
  acquire(t, s);
  event("sem-wait", reinterpret_cast<uintptr_t>(sm), 0);
  return 0;
}
int sem_wait(sem_t* s) { return sim_sem_wait(s, RA(), false, -1); }
int sem_trywait(sem_t* s) { return sim_sem_wait(s, RA(), true, -1); }
int sem_timedwait(sem_t* s, const struct timespec* ts) {
  return sim_sem_wait(s, RA(), false,
                      live() ? rel_or_abs(CLOCK_REALTIME, ts) : -1);
}
int sem_post(sem_t* sm) {
  if (!loud()) return 0;
  Thr* t = t_self;
  RtScope rt(t);
  sync_point(t, RA());
  SyncVar* s = sync_find(reinterpret_cast<uintptr_t>(sm), true);
  if (!s->kind) {
    s->count = static_cast<int>(*reinterpret_cast<unsigned*>(sm));
    s->kind = 1;
  }
  ++s->count;
  release(t, s);
  wake_all_on(reinterpret_cast<uintptr_t>(sm), T_SEM);
  sync_point(t, RA());
  return 0;
}

// --------------------------------------------------------------------- futex
enum { kSimPid = 4000 };
pid_t getpid() { return kSimPid; }
pid_t getppid() { return 1; }
pid_t gettid() { return kSimPid + (t_self ? t_self->tid : 0); }
long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a[6];
  for (int i = 0; i < 6; ++i) a[i] = va_arg(ap, long);
  va_end(ap);
  // Process and thread numbers must not differ between executions of a run.
  if (n == SYS_getpid) return kSimPid;
  if (n == SYS_gettid) return kSimPid + (t_self ? t_self->tid : 0);
  if (n == SYS_futex && loud()) {
    Thr* t = t_self;
    RtScope rt(t);
    const uintptr_t ra = RA();
    int* addr = reinterpret_cast<int*>(a[0]);
    const int op = static_cast<int>(a[1]) & 127;
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      sync_point(t, ra);
      check_sync_addr(a[0], 4, ra);
      if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != static_cast<int>(a[2])) {
        errno = EAGAIN;
        return -1;
      }
      int64_t deadline = -1;
      const struct timespec* ts = reinterpret_cast<const struct timespec*>(a[3]);
      if (ts) {
        if (op == FUTEX_WAIT)
          deadline = g_sim_ns + from_ts(ts);
        else
          deadline = abs_deadline(
              (a[1] & FUTEX_CLOCK_REALTIME) ? CLOCK_REALTIME : CLOCK_MONOTONIC,
              ts);
      }
      event("futex-wait", a[0], a[2]);
      block_on(t, T_FUTEX, a[0], deadline);
      if (t->timed_out) {
        errno = ETIMEDOUT;
        return -1;
      }
      return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
      sync_point(t, ra);
      int cnt = static_cast<int>(a[2]);
      if (cnt > kMaxSimThreads || cnt < 0) cnt = kMaxSimThreads;
      const int w = wake_some(t, a[0], T_FUTEX, cnt);
      event("futex-wake", a[0], w);
      sync_point(t, ra);
      return w;
    }
    internal_error("unsupported futex operation");
  }
  const long r = raw_syscall(n, a[0], a[1], a[2], a[3], a[4], a[5]);
  if (r < 0 && r > -4096) {
    errno = static_cast<int>(-r);
    return -1;
  }
  return r;
}

// ---------------------------------------------------------------------- time
int sched_yield() {
  if (!loud()) return static_cast<int>(raw_syscall(SYS_sched_yield));
  Thr* t = t_self;
  RtScope rt(t);
  if (P.strategy == ST_PCT) t->prio = --g_low_prio;
  sync_point(t, RA());
  return 0;
}
int clock_gettime(clockid_t c, struct timespec* ts) {
  if (!live())
    return static_cast<int>(
        raw_syscall(SYS_clock_gettime, c, reinterpret_cast<long>(ts)));
  g_sim_ns += 1 + P.tick_ns / 4;
  if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)
    to_ts(read_wall(), ts);
  else
    to_ts(read_mono(), ts);
  if (loud()) event("clock", static_cast<uint64_t>(c), from_ts(ts));
  return 0;
}
int gettimeofday(struct timeval* tv, void*) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
time_t time(time_t* out) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (out) *out = ts.tv_sec;
  return ts.tv_sec;
}
int nanosleep(const struct timespec* ts, struct timespec* rem) {
  if (!loud())
    return static_cast<int>(raw_syscall(SYS_nanosleep, reinterpret_cast<long>(ts),
                                        reinterpret_cast<long>(rem)));
  sim_sleep(g_sim_ns + from_ts(ts), RA());
  return 0;
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec* ts,
                    struct timespec*) {
  if (!loud()) return 0;
  sim_sleep(flags & TIMER_ABSTIME ? abs_deadline(c, ts)
                                  : g_sim_ns + from_ts(ts),
            RA());
  return 0;
}
int usleep(useconds_t us) {
  if (!loud()) {
    struct timespec ts = {static_cast<time_t>(us / 1000000),
                          static_cast<long>(us % 1000000) * 1000};
    raw_syscall(SYS_nanosleep, reinterpret_cast<long>(&ts), 0);
    return 0;
  }
  sim_sleep(g_sim_ns + us * 1000ll, RA());
  return 0;
}
unsigned sleep(unsigned s) {
  usleep(s * 1000000u);
  return 0;
}
clock_t clock() {
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return static_cast<clock_t>(ts.tv_sec * 1000000 + ts.tv_nsec / 1000);
}
// Entropy.
ssize_t getrandom(void* buf, size_t n, unsigned) {
  static uint64_t ctr = 0;
  for (size_t i = 0; i < n; ++i)
    static_cast<uint8_t*>(buf)[i] =
        static_cast<uint8_t>(Rng::mix(P.seed * 31 + ++ctr));
  return static_cast<ssize_t>(n);
}
int getentropy(void* buf, size_t n) {
  getrandom(buf, n, 0);
  return 0;
}
// std::random_device::_M_getval()
unsigned _ZNSt13random_device9_M_getvalEv(void*) {
  unsigned v;
  getrandom(&v, sizeof(v), 0);
  return v;
}
}  // extern "C"

// ============================================================ instrumentation
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void* pc) {
  Thr* t = t_self;
  if (!g_active || !t || t->in_rt) return;
  if (t->depth < kShadowDepth) t->stack[t->depth] = reinterpret_cast<uintptr_t>(pc);
  ++t->depth;
}
void __tsan_func_exit(void*) {
  Thr* t = t_self;
  if (!g_active || !t || t->in_rt) return;
  if (t->depth > 0) --t->depth;
}
#define MEM(n)                                                               \
  void __tsan_read##n(void* a) {                                             \
    mem_access(reinterpret_cast<uintptr_t>(a), n, false, false, RA());       \
  }                                                                          \
  void __tsan_write##n(void* a) {                                            \
    mem_access(reinterpret_cast<uintptr_t>(a), n, true, false, RA());        \
  }                                                                          \
  void __tsan_unaligned_read##n(void* a) {                                   \
    mem_access(reinterpret_cast<uintptr_t>(a), n, false, false, RA());       \
  }                                                                          \
  void __tsan_unaligned_write##n(void* a) {                                  \
    mem_access(reinterpret_cast<uintptr_t>(a), n, true, false, RA());        \
  }                                                                          \
  void __tsan_volatile_read##n(void* a) {                                    \
    mem_access(reinterpret_cast<uintptr_t>(a), n, false, false, RA());       \
  }                                                                          \
  void __tsan_volatile_write##n(void* a) {                                   \
    mem_access(reinterpret_cast<uintptr_t>(a), n, true, false, RA());        \
  }                                                                          \
  void __tsan_unaligned_volatile_read##n(void* a) {                          \
    mem_access(reinterpret_cast<uintptr_t>(a), n, false, false, RA());       \
  }                                                                          \
  void __tsan_unaligned_volatile_write##n(void* a) {                         \
    mem_access(reinterpret_cast<uintptr_t>(a), n, true, false, RA());        \
  }
MEM(1)
MEM(2)
MEM(4)
MEM(8)
MEM(16)
void __tsan_read_range(void* a, long n) {
  if (n > 0) mem_access(reinterpret_cast<uintptr_t>(a), n, false, false, RA());
}
void __tsan_write_range(void* a, long n) {
  if (n > 0) mem_access(reinterpret_cast<uintptr_t>(a), n, true, false, RA());
}
void __tsan_vptr_update(void** p, void* v) {
  if (*p != v)
    mem_access(reinterpret_cast<uintptr_t>(p), 8, true, false, RA());
}
void __tsan_vptr_read(void** p) {
  mem_access(reinterpret_cast<uintptr_t>(p), 8, false, false, RA());
}

static inline bool mo_acq(int mo) {
  return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME ||
         mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
}
static inline bool mo_rel(int mo) {
  return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL ||
         mo == __ATOMIC_SEQ_CST;
}
static inline void atomic_pre(const volatile void* a, size_t n, bool write,
                              uintptr_t pc) {
  mem_access(reinterpret_cast<uintptr_t>(a), n, write, true, pc);
}
static inline void atomic_load_hb(const volatile void* a, int mo) {
  if (!loud() || !mo_acq(mo)) return;
  SyncVar* s = sync_find(reinterpret_cast<uintptr_t>(a), false);
  if (s) acquire(t_self, s);
}
static inline void atomic_store_hb(const volatile void* a, int mo) {
  if (!loud()) return;
  if (mo_rel(mo)) {
    release_store(t_self, sync_find(reinterpret_cast<uintptr_t>(a), true));
  } else {
    SyncVar* s = sync_find(reinterpret_cast<uintptr_t>(a), false);
    if (s) fill_bytes(&s->vc, 0, sizeof(s->vc));
  }
}
static inline void atomic_rmw_hb(const volatile void* a, int mo) {
  if (!loud()) return;
  SyncVar* s = sync_find(reinterpret_cast<uintptr_t>(a), mo_rel(mo));
  if (!s) return;
  if (mo_acq(mo)) acquire(t_self, s);
  if (mo_rel(mo)) release(t_self, s);
}

#define ATOMIC(T, n, bits)                                                     \
  T __tsan_atomic##bits##_load(const volatile T* a, int mo) {                  \
    atomic_pre(a, n, false, RA());                                             \
    atomic_load_hb(a, mo);                                                     \
    return __atomic_load_n(a, __ATOMIC_SEQ_CST);                               \
  }                                                                            \
  void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) {               \
    atomic_pre(a, n, true, RA());                                              \
    atomic_store_hb(a, mo);                                                    \
    __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                  \
  }                                                                            \
  T __tsan_atomic##bits##_exchange(volatile T* a, T v, int mo) {               \
    atomic_pre(a, n, true, RA());                                              \
    atomic_rmw_hb(a, mo);                                                      \
    return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                        \
  }                                                                            \
  T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int mo) {              \
    atomic_pre(a, n, true, RA());                                              \
    atomic_rmw_hb(a, mo);                                                      \
    return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST);                         \
  }                                                                            \
  T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int mo) {              \
    atomic_pre(a, n, true, RA());                                              \
    atomic_rmw_hb(a, mo);                                                      \
    return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST);                         \
  }                                                                            \
  T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int mo) {              \
    atomic_pre(a, n, true, RA());                                              \
    atomic_rmw_hb(a, mo);                                                      \
    return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST);                         \
  }                                                                            \
  T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int mo) {               \
    atomic_pre(a, n, true, RA());                                              \
    atomic_rmw_hb(a, mo);                                                      \
    return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST);                          \
  }                                                                            \
  T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int mo) {              \
    atomic_pre(a, n, true, RA());                                              \
    atomic_rmw_hb(a, mo);                                                      \
    return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST);                         \
  }                                                                            \
  T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int mo) {             \
    atomic_pre(a, n, true, RA());                                              \
    atomic_rmw_hb(a, mo);                                                      \
    return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST);                        \
  }                                                                            \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v,  \
                                                    int mo, int fmo) {         \
    atomic_pre(a, n, true, RA());                                              \
    if (__atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST,              \
                                    __ATOMIC_SEQ_CST)) {                       \
      atomic_rmw_hb(a, mo);                                                    \
      return 1;                                                                \
    }                                                                          \
    atomic_load_hb(a, fmo);                                                    \
    return 0;                                                                  \
  }                                                                            \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v,    \
                                                  int mo, int fmo) {           \
    atomic_pre(a, n, true, RA());                                              \
    if (__atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST,              \
                                    __ATOMIC_SEQ_CST)) {                       \
      atomic_rmw_hb(a, mo);                                                    \
      return 1;                                                                \
    }                                                                          \
    atomic_load_hb(a, fmo);                                                    \
    return 0;                                                                  \
  }                                                                            \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int mo, \
                                               int fmo) {                      \
    atomic_pre(a, n, true, RA());                                              \
    if (__atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST,             \
                                    __ATOMIC_SEQ_CST)) {                       \
      atomic_rmw_hb(a, mo);                                                    \
    } else {                                                                   \
      atomic_load_hb(a, fmo);                                                  \
    }                                                                          \
    return c;                                                                  \
  }
ATOMIC(uint8_t, 1, 8)
ATOMIC(uint16_t, 2, 16)
ATOMIC(uint32_t, 4, 32)
ATOMIC(uint64_t, 8, 64)
static uint64_t g_fence_obj;
void __tsan_atomic_thread_fence(int mo) {
  if (!loud()) return;
  // Conservative: every fence synchronises with every other fence.
  SyncVar* s = sync_find(reinterpret_cast<uintptr_t>(&g_fence_obj), true);
  if (mo_acq(mo)) acquire(t_self, s);
  if (mo_rel(mo)) release(t_self, s);
}
void __tsan_atomic_signal_fence(int) {}
}  // extern "C"

#include "simdisk.inc"
#include "simmain.inc"
