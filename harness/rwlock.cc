// Simulated workloads for the two reader/writer locks.
//   C06 mutual exclusion and visibility
//   C07 upgrade semantics
//   C08 progress and preference between readers and writers
//   C09 isInUse()
#include <aslam/common/reader-first-reader-writer-lock.h>
#include <aslam/common/reader-writer-lock.h>

#include <condition_variable>
#include <memory>
#include <mutex>
#include <thread>
#include <vector>

#include "simrt.h"

namespace {
using sim::Op;
using sim::Plan;
using sim::Rng;

enum OpCode {
  kRead = 1,    // a0: hold until phase (0: short), a1: scoped mode, a2: query isInUse
  kWrite,       // same
  kUpgrade,     // a0: hold (as reader) until phase, a2: query, a3: hold as writer until phase
  kInUse,
  kPhase,       // wait for phase a0
  kSleep,
};
enum CfgIdx { kFlavour = 0, kPhases };

enum State { kIdle = 0, kWantRead, kWantWrite, kWantUpgrade, kReader, kWriter, kReleasing };
struct ThreadRec {
  State state;
  uint64_t since;         // when `state` was entered
  bool confirmed;         // seen waiting (or holding) at a quiescent point
  uint64_t confirmed_at;
  uint64_t upgrade_call;  // stamp of the current upgrade call
};
struct UpgradeRec {
  uint64_t call, ret;
  bool ok;
};

struct Ctx {
  std::unique_ptr<aslam::ReaderWriterMutex> lock;
  bool reader_first = false;
  std::mutex m;
  std::condition_variable cv;
  int phase = 0;
  ThreadRec t[sim::kMaxThreads];
  int n = 0;
  UpgradeRec up[256];
  int nup = 0;
  uint64_t last_change = 0;  // stamp of the last change of any thread state
  uint64_t writes_done = 0;  // writers admitted so far
  // Protected by the lock under test, on purpose without other protection.
  long data[3] = {0, 0, 0};
  long expected = 0;
};
Ctx* C = nullptr;

void set_state(int me, State s) {
  C->t[me].state = s;
  C->t[me].since = sim::stamp();
  C->t[me].confirmed = false;
  C->last_change = C->t[me].since;
}
bool holds(State s) { return s == kReader || s == kWriter || s == kWantUpgrade; }
bool waits(State s) { return s == kWantRead || s == kWantWrite || s == kWantUpgrade; }

void wait_phase(int p) {
  std::unique_lock<std::mutex> lock(C->m);
  while (C->phase < p) C->cv.wait(lock);
}

void admitted_reader(int me) {
  sim::Quiet q;
  const uint64_t since = C->t[me].since;
  for (int i = 0; i < C->n; ++i) {
    if (i == me) continue;
    const ThreadRec& o = C->t[i];
    if (o.state == kWriter)
      SIM_SOFT("C06", "reader-with-writer",
                "thread %d got read access while thread %d has write access", me, i);
    if (!C->reader_first && o.confirmed && o.confirmed_at < since &&
        (o.state == kWantWrite || o.state == kWantUpgrade))
      SIM_SOFT("C08", "reader-overtakes",
                "thread %d asked for read access after thread %d had been waiting for %s, and was admitted first",
                me, i, o.state == kWantWrite ? "write access" : "an upgrade");
  }
  set_state(me, kReader);
  sim::note("thread %d reads", me);
}
void admitted_writer(int me, bool upgrade) {
  sim::Quiet q;
  for (int i = 0; i < C->n; ++i) {
    if (i == me) continue;
    const ThreadRec& o = C->t[i];
    // A reader whose upgrade was refused (or is going to be) no longer counts
    // as a holder, but it cannot be told apart while the call is in progress.
    if (o.state == kWriter || o.state == kReader)
      SIM_SOFT(upgrade ? "C06,C07" : "C06", "writer-not-alone",
                "thread %d got write access%s while thread %d has %s access", me,
                upgrade ? " by an upgrade" : "", i, o.state == kWriter ? "write" : "read");
  }
  ++C->writes_done;
  set_state(me, kWriter);
  sim::note("thread %d writes", me);
}

void read_data(int me) {
  const long a = C->data[0];
  const long b = C->data[1];
  const long c = C->data[2];
  sim::Quiet q;
  if (a != b || b != c)
    SIM_SOFT("C06", "torn-read", "thread %d reads %ld/%ld/%ld under read access", me, a, b, c);
  if (a != C->expected)
    SIM_SOFT("C06", "stale-read", "thread %d reads %ld instead of %ld", me, a, C->expected);
}
void write_data(int me) {
  for (int i = 0; i < 3; ++i) C->data[i] += 1;
  sim::Quiet q;
  ++C->expected;
  if (C->data[2] != C->expected)
    SIM_SOFT("C06", "lost-write", "thread %d: counter is %ld instead of %ld", me, C->data[2],
              C->expected);
}

// Compares isInUse() with what must be true during the whole call.
void query(int me) {
  bool must_true = false, must_false = true;
  uint64_t call;
  {
    sim::Quiet q;
    call = sim::stamp();
  }
  bool continuous[sim::kMaxThreads];
  {
    sim::Quiet q;
    for (int i = 0; i < C->n; ++i) {
      const ThreadRec& o = C->t[i];
      continuous[i] = o.state == kReader || o.state == kWriter ||
                      (o.confirmed && waits(o.state));
      if (o.state != kIdle) must_false = false;
    }
  }
  const bool r = C->lock->isInUse();
  sim::Quiet q;
  for (int i = 0; i < C->n; ++i) {
    const ThreadRec& o = C->t[i];
    if (continuous[i] && o.since < call) must_true = true;
    if (o.since > call || o.state != kIdle) must_false = false;
  }
  if (C->last_change > call) must_false = false;
  if (must_true && !r)
    SIM_SOFT("C09", "in-use-false",
              "isInUse() is false (asked by thread %d) while a thread holds or waits for the lock", me);
  if (must_false && r)
    SIM_SOFT("C09", "in-use-true",
              "isInUse() is true (asked by thread %d) while nobody holds or wants the lock", me);
  sim::probe(r ? "in_use_true" : "in_use_false");
}

void do_read(int me, const Op& op) {
  {
    sim::Quiet q;
    set_state(me, kWantRead);
    sim::label("acquireReadLock");
  }
  if (op.a[1] == 0) {
    C->lock->acquireReadLock();
    admitted_reader(me);
    read_data(me);
    if (op.a[2]) query(me);
    if (op.a[0]) wait_phase(static_cast<int>(op.a[0]));
    read_data(me);
    {
      sim::Quiet q;
      set_state(me, kReleasing);
      sim::label("releaseReadLock");
    }
    C->lock->releaseReadLock();
  } else {
    std::unique_ptr<aslam::ScopedReadLock> moved;
    {
      aslam::ScopedReadLock guard(C->lock.get());
      admitted_reader(me);
      read_data(me);
      if (op.a[1] == 2) moved.reset(new aslam::ScopedReadLock(std::move(guard)));
      if (op.a[2]) query(me);
      if (op.a[1] != 2) {
        if (op.a[0]) wait_phase(static_cast<int>(op.a[0]));
        read_data(me);
        sim::Quiet q;
        set_state(me, kReleasing);
      }
    }
    if (moved) {
      read_data(me);
      if (op.a[0]) wait_phase(static_cast<int>(op.a[0]));
      read_data(me);
      {
        sim::Quiet q;
        set_state(me, kReleasing);
      }
      moved.reset();
    }
  }
  sim::Quiet q;
  set_state(me, kIdle);
}

void hold_write(int me, int until, bool ask) {
  write_data(me);
  if (ask) query(me);
  if (until) wait_phase(until);
  write_data(me);
}
void do_write(int me, const Op& op) {
  {
    sim::Quiet q;
    set_state(me, kWantWrite);
    sim::label("acquireWriteLock");
  }
  if (op.a[1] == 0) {
    C->lock->acquireWriteLock();
    admitted_writer(me, false);
    hold_write(me, static_cast<int>(op.a[0]), op.a[2]);
    {
      sim::Quiet q;
      set_state(me, kReleasing);
      sim::label("releaseWriteLock");
    }
    C->lock->releaseWriteLock();
  } else {
    std::unique_ptr<aslam::ScopedWriteLock> moved;
    {
      aslam::ScopedWriteLock guard(C->lock.get());
      admitted_writer(me, false);
      if (op.a[1] == 2) {
        moved.reset(new aslam::ScopedWriteLock(std::move(guard)));
        write_data(me);
      } else {
        hold_write(me, static_cast<int>(op.a[0]), op.a[2]);
        sim::Quiet q;
        set_state(me, kReleasing);
      }
    }
    if (moved) {
      hold_write(me, static_cast<int>(op.a[0]), op.a[2]);
      {
        sim::Quiet q;
        set_state(me, kReleasing);
      }
      moved.reset();
    }
  }
  sim::Quiet q;
  set_state(me, kIdle);
}

void do_upgrade(int me, const Op& op) {
  {
    sim::Quiet q;
    set_state(me, kWantRead);
    sim::label("acquireReadLock");
  }
  C->lock->acquireReadLock();
  admitted_reader(me);
  uint64_t seen;
  {
    sim::Quiet q;
    seen = C->writes_done;
  }
  read_data(me);
  const long before = C->data[0];
  if (op.a[0]) wait_phase(static_cast<int>(op.a[0]));
  uint64_t call;
  int mine;
  {
    sim::Quiet q;
    set_state(me, kWantUpgrade);
    sim::label("upgradeToWriteLock");
    call = sim::stamp();
    if (C->nup >= 256) sim::inconclusive("too many upgrades");
    mine = C->nup++;
    C->up[mine] = UpgradeRec{call, 0, false};
  }
  const bool ok = C->lock->upgradeToWriteLock();
  {
    sim::Quiet q;
    C->up[mine].ret = sim::stamp();
    C->up[mine].ok = ok;
    sim::note("upgrade of thread %d %s", me, ok ? "succeeds" : "is refused");
    sim::probe(ok ? "upgrade_granted" : "upgrade_refused");
    if (!ok) {
      bool rival = false;
      for (int i = 0; i < C->nup; ++i)
        rival |= i != mine && (C->up[i].ret == 0 || C->up[i].ret > call);
      set_state(me, kIdle);
      sim::label("");
      if (!rival)
        SIM_SOFT("C07", "upgrade-refused",
                  "the upgrade of thread %d was refused although no other thread was upgrading", me);
      return;
    }
    if (C->writes_done != seen)
      SIM_SOFT("C07,C06", "write-before-upgrade",
                "%lu writers had access between the read access of thread %d and its upgrade",
                static_cast<unsigned long>(C->writes_done - seen), me);
    for (int i = 0; i < C->nup; ++i)
      if (i != mine && C->up[i].ok && C->up[i].ret > call && C->up[i].call < C->up[mine].ret)
        SIM_SOFT("C07", "two-upgrades", "two concurrent upgrades of the same readers succeeded");
  }
  admitted_writer(me, true);
  {
    const long after = C->data[0];
    sim::Quiet q;
    if (after != before)
      SIM_SOFT("C07,C06", "changed-before-upgrade",
                "data read by thread %d changed before its upgrade was granted", me);
  }
  hold_write(me, static_cast<int>(op.a[3]), op.a[2]);
  {
    sim::Quiet q;
    set_state(me, kReleasing);
    sim::label("releaseWriteLock");
  }
  C->lock->releaseWriteLock();
  sim::Quiet q;
  set_state(me, kIdle);
}

void body(int me, const sim::PlanThread& ops) {
  for (int i = 0; i < ops.n; ++i) {
    const Op& op = ops.ops[i];
    switch (op.code) {
      case kRead: do_read(me, op); break;
      case kWrite: do_write(me, op); break;
      case kUpgrade: do_upgrade(me, op); break;
      case kInUse: query(me); break;
      case kPhase: wait_phase(static_cast<int>(op.a[0])); break;
      case kSleep: sim::advance_time(op.a[0]); break;
    }
    sim::Quiet q;
    sim::label("");
  }
}

// Nothing can happen any more until the next phase: is everybody who waits
// entitled to?
void check_quiescent() {
  sim::Quiet q;
  int readers = 0, writers = 0, want_write = 0, upgrades = 0;
  int other_readers = 0;
  for (int i = 0; i < C->n; ++i) {
    readers += C->t[i].state == kReader;
    writers += C->t[i].state == kWriter;
    want_write += C->t[i].state == kWantWrite;
    upgrades += C->t[i].state == kWantUpgrade;
    other_readers += C->t[i].state == kReader;
  }
  for (int i = 0; i < C->n; ++i) {
    ThreadRec& r = C->t[i];
    if (r.state == kReleasing)
      sim::fail("C08", "release-blocks", "thread %d is stuck releasing the lock", i);
    if (r.state == kWantRead && !writers &&
        (C->reader_first || (!want_write && !upgrades)))
      SIM_SOFT("C08", "reader-not-admitted",
                "thread %d waits for read access although no writer holds%s the lock", i,
                C->reader_first ? "" : " or wants");
    if (r.state == kWantWrite && !readers && !writers && !upgrades)
      SIM_SOFT("C08", "writer-not-admitted",
                "thread %d waits for write access although nobody holds the lock", i);
    if (r.state == kWantUpgrade) {
      if (upgrades > 1)
        SIM_SOFT("C07,C08", "upgrades-wait", "two upgrades wait for each other");
      if (!other_readers)
        SIM_SOFT("C08,C07", "upgrade-not-granted",
                  "the upgrade of thread %d is not granted although it is the only reader", i);
    }
    if (waits(r.state)) {
      r.confirmed = true;
      r.confirmed_at = sim::stamp();
      sim::probe(r.state == kWantRead ? "reader_waits"
                 : r.state == kWantWrite ? "writer_waits" : "upgrade_waits");
    }
  }
}
void on_stuck() {
  bool up = false;
  for (int i = 0; i < C->n; ++i) up |= C->t[i].state == kWantUpgrade;
  for (int i = 0; i < C->n; ++i)
    if (waits(C->t[i].state))
      sim::fail(up ? "C08,C07" : "C08", "stuck", "thread %d waits for ever in %s", i,
                sim::thread_label(i + 1));
  sim::fail("C08", "stuck", "the lock operations do not terminate");
}

void run(const Plan& plan) {
  sim::set_default_props("C06,C07,C08,C09");
  sim::set_stuck_props("C08");
  sim::set_stuck_callback(on_stuck);
  C = new Ctx;
  memset(C->t, 0, sizeof(C->t));
  C->n = plan.nthreads;
  C->reader_first = plan.cfg[kFlavour] != 0;
  if (C->reader_first)
    C->lock.reset(new aslam::ReaderFirstReaderWriterMutex);
  else
    C->lock.reset(new aslam::ReaderWriterMutex);
  const int phases = static_cast<int>(plan.cfg[kPhases]);
  std::vector<std::thread> threads;
  for (int t = 0; t < plan.nthreads; ++t)
    threads.emplace_back([t, &plan]() { body(t, plan.th[t]); });
  for (int p = 1; p <= phases; ++p) {
    sim::wait_quiescent();
    check_quiescent();
    query(-1);
    std::lock_guard<std::mutex> lock(C->m);
    C->phase = p;
    C->cv.notify_all();
  }
  for (std::thread& t : threads) t.join();
  query(-1);
  // The lock must still work: write, read, upgrade.
  {
    sim::Quiet q;
    C->n = 1;
    memset(C->t, 0, sizeof(C->t));
    C->nup = 0;
  }
  Op op = {kWrite, {0, 0, 0, 0}};
  do_write(0, op);
  do_read(0, op);
  do_upgrade(0, op);
  C->lock.reset();
}

struct Mix {
  int read, write, upgrade, inuse, phase, sleep;
};
void gen(Rng& r, Plan* p, sim::Env* env, bool thorough, const Mix& m) {
  (void)env;
  const int phases = static_cast<int>(r.range(1, 4));
  p->add_cfg(static_cast<int64_t>(r.below(2)), 0);
  p->add_cfg(phases, 4);
  p->cfg[kPhases] = 4;
  p->nthreads = static_cast<int>(r.range(2, thorough ? 6 : 5));
  const int total = m.read + m.write + m.upgrade + m.inuse + m.phase + m.sleep;
  const int hold_pct = static_cast<int>(r.below(80));
  for (int t = 0; t < p->nthreads; ++t) {
    const int n = static_cast<int>(r.range(1, thorough ? 8 : 5));
    int phase = 0;
    for (int i = 0; i < n; ++i) {
      int w = static_cast<int>(r.below(total));
      int hold = 0;
      if (static_cast<int>(r.below(100)) < hold_pct && phase < 4) {
        hold = static_cast<int>(r.range(phase + 1, 4));
      }
      const int64_t scoped = r.chance(0.3) ? r.range(1, 2) : 0;
      const int64_t ask = r.chance(0.3);
      if ((w -= m.read) < 0) {
        p->add(t, kRead, hold, scoped, ask);
      } else if ((w -= m.write) < 0) {
        p->add(t, kWrite, hold, scoped, ask);
      } else if ((w -= m.upgrade) < 0) {
        int hold2 = 0;
        if (r.chance(0.3) && std::max(hold, phase) < 4)
          hold2 = static_cast<int>(r.range(std::max(hold, phase) + 1, 4));
        p->add(t, kUpgrade, hold, 0, ask, hold2);
        if (hold2) hold = hold2;
      } else if ((w -= m.inuse) < 0) {
        p->add(t, kInUse);
        hold = 0;
      } else if ((w -= m.phase) < 0) {
        if (phase < 4) {
          hold = static_cast<int>(r.range(phase + 1, 4));
          p->add(t, kPhase, hold);
        }
      } else {
        p->add(t, kSleep, static_cast<int64_t>(r.below(30000)));
        hold = 0;
      }
      if (hold > phase) phase = hold;
    }
  }
}
void gen_mutex(Rng& r, Plan* p, sim::Env* e, bool th) { gen(r, p, e, th, Mix{5, 5, 1, 1, 1, 1}); }
void gen_upgrade(Rng& r, Plan* p, sim::Env* e, bool th) { gen(r, p, e, th, Mix{3, 2, 6, 1, 2, 1}); }
void gen_progress(Rng& r, Plan* p, sim::Env* e, bool th) { gen(r, p, e, th, Mix{5, 5, static_cast<int>(r.below(3)), 0, 4, 1}); }
void gen_inuse(Rng& r, Plan* p, sim::Env* e, bool th) { gen(r, p, e, th, Mix{4, 4, 1, 6, 3, 1}); }

#define ALL "C06,C07,C08,C09"
const sim::Harness h1 = {"rw_mutex", ALL, gen_mutex, run};
const sim::Harness h2 = {"rw_upgrade", ALL, gen_upgrade, run};
const sim::Harness h3 = {"rw_progress", ALL, gen_progress, run};
const sim::Harness h4 = {"rw_inuse", ALL, gen_inuse, run};
sim::Registrar r1(&h1), r2(&h2), r3(&h3), r4(&h4);
}  // namespace
