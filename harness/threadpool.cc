// Simulated workloads for aslam::ThreadPool.
//   C01 exactly-once execution and result delivery
//   C02 exclusivity groups: mutual exclusion, order, visibility
//   C03 waitForEmptyQueue
//   C04 progress: no idle worker while a task could start; FIFO starts
//   C05 stop and destruction
#include <aslam/common/thread-pool.h>

#include <condition_variable>
#include <functional>
#include <future>
#include <memory>
#include <mutex>
#include <new>
#include <string>
#include <thread>
#include <vector>

#include "simrt.h"

namespace {
using sim::Op;
using sim::Plan;
using sim::Rng;

enum OpCode {
  kEnq = 1,    // group (-1 none), kind, arg
  kGet,        // index of an earlier enqueue of the same thread
  kWait,       // waitForEmptyQueue
  kStop,       // stop()
  kActive,     // numActiveThreads
  kSleep,      // simulated ns
  kQuiesce,    // main only: let everything settle and check work conservation
  kOpenGate,   // main only
};
enum TaskKind {
  kValue = 0,
  kThrow,
  kVoid,
  kGate,    // blocks until the gate is opened
  kNested,  // enqueues another task from inside the pool
  kNap,     // sleeps in simulated time
  kMoveOnly,
  kNumKinds
};
enum CfgIdx { kWorkers = 0, kGroups, kEnd, kAlloc, kNumCfg };
enum EndMode { kEndWait = 0, kEndDestroy, kEndStopDestroy, kEndStopWait };

struct Boom {
  int id;
};

const int kMaxTasks = 256;
struct TaskRec {
  int group;
  int kind;
  uint64_t call, ret;    // enqueue invoked / returned
  bool accepted;         // valid future
  bool rejected;         // invalid future
  bool threw;            // enqueue threw bad_alloc
  uint64_t start, end;
  int runs;
  bool from_worker;
  int gate;
};

struct Ctx {
  int workers = 1;
  std::mutex gate_mutex;
  std::condition_variable gate_cv;
  bool gate_open = false;
  // Oracle state (only touched in quiet scopes).
  TaskRec t[kMaxTasks];
  int nt = 0;
  int group_busy[8];
  uint64_t stop_ret = 0;
  bool stop_called = false;
  bool pool_gone = false;
  int gates_waiting = 0;
  bool destroying = false;
  // Plain data written by tasks without further synchronisation.
  long cell[kMaxTasks];
  long group_cell[8];
  aslam::ThreadPool* pool = nullptr;
};
Ctx* C = nullptr;

int new_task(int group, int kind) {
  if (C->nt >= kMaxTasks) sim::inconclusive("too many tasks");
  TaskRec& r = C->t[C->nt];
  r = TaskRec();
  r.group = group;
  r.kind = kind;
  return C->nt++;
}

void task_begin(int id) {
  sim::Quiet q;
  TaskRec& r = C->t[id];
  r.start = sim::stamp();
  ++r.runs;
  sim::note("task %d (group %d kind %d) starts", id, r.group, r.kind);
  if (C->pool_gone)
    SIM_SOFT("C05", "task-after-destruction", "task %d starts after the pool was destroyed", id);
  if (r.runs > 1)
    sim::fail("C01", "executed-twice", "task %d executed %d times", id, r.runs);
  if (r.rejected)
    SIM_SOFT("C05,C01", "rejected-task-ran",
              "task %d ran although enqueue returned an invalid future", id);
  if (C->stop_ret && r.call > C->stop_ret)
    SIM_SOFT("C05", "ran-after-stop",
              "task %d, enqueued after stop() returned, was executed", id);
  int running = 0;
  for (int i = 0; i < C->nt; ++i)
    running += C->t[i].start && !C->t[i].end && !C->t[i].rejected;
  if (running > C->workers)
    SIM_SOFT("C01", "too-many-running", "%d tasks run on %d workers", running,
              C->workers);
  if (r.group >= 0) {
    if (C->group_busy[r.group])
      SIM_SOFT("C02", "group-overlap",
                "task %d of group %d starts while task %d of the same group is running",
                id, r.group, C->group_busy[r.group] - 1);
    C->group_busy[r.group] = id + 1;
    for (int i = 0; i < C->nt; ++i) {
      const TaskRec& o = C->t[i];
      if (i == id || o.group != r.group) continue;
      if (o.start == 0 && o.accepted && o.ret && o.ret < r.call)
        SIM_SOFT("C02", "group-order",
                  "task %d of group %d starts before task %d, which was enqueued earlier",
                  id, r.group, i);
    }
  }
  if (C->workers == 1) {
    for (int i = 0; i < C->nt; ++i) {
      const TaskRec& o = C->t[i];
      if (i != id && o.start == 0 && o.accepted && o.ret && o.ret < r.call)
        SIM_SOFT(o.group >= 0 && o.group == r.group ? "C02,C04" : "C04",
                  "start-order",
                  "single worker starts task %d before task %d, which was enqueued earlier",
                  id, i);
    }
  }
}
void task_end(int id) {
  sim::Quiet q;
  TaskRec& r = C->t[id];
  r.end = sim::stamp();
  if (r.group >= 0) C->group_busy[r.group] = 0;
}

void enqueue(int group, int kind, int arg, int thread_slot,
             std::vector<std::future<int>>* ints, std::vector<int>* ids);

int body(int id, int payload) {
  task_begin(id);
  int group, kind;
  {
    sim::Quiet q;
    group = C->t[id].group;
    kind = C->t[id].kind;
  }
  // Unsynchronised on purpose: the pool has to order these accesses.
  if (group >= 0) C->group_cell[group] += 1;
  if (kind == kGate) {
    {
      sim::Quiet q;
      ++C->gates_waiting;
    }
    std::unique_lock<std::mutex> lock(C->gate_mutex);
    while (!C->gate_open) C->gate_cv.wait(lock);
    lock.unlock();
    sim::Quiet q;
    --C->gates_waiting;
  } else if (kind == kNap) {
    sim::advance_time(1000 * (1 + payload % 50));
  } else if (kind == kNested) {
    enqueue(-1, kValue, payload, -1, nullptr, nullptr);
  }
  C->cell[id] = payload * 3 + id;
  if (group >= 0) C->group_cell[group] += 1;
  task_end(id);
  if (kind == kThrow) throw Boom{id};
  return payload * 7 + id;
}

struct IntTask {
  int id;
  int operator()(int payload) const { return body(id, payload); }
};
struct VoidTask {
  int id;
  void operator()(int payload, const std::string& text) const {
    {
      sim::Quiet q;
      if (text != "argument-" + std::to_string(payload))
        SIM_SOFT("C01", "wrong-argument", "task %d received the argument '%s'",
                  id, text.c_str());
    }
    body(id, payload);
  }
};

void after_enqueue(int id, bool valid, uint64_t call_stop_ret) {
  sim::Quiet q;
  TaskRec& r = C->t[id];
  r.ret = sim::stamp();
  (valid ? r.accepted : r.rejected) = true;
  if (valid && call_stop_ret)
    SIM_SOFT("C05", "accepted-after-stop",
              "enqueue of task %d was accepted although stop() had returned before",
              id);
  if (!valid && !C->stop_called && !C->destroying)
    SIM_SOFT("C01,C05", "spurious-reject",
              "enqueue of task %d was rejected although nobody stopped the pool",
              id);
  if (!valid && r.runs)
    SIM_SOFT("C05,C01", "rejected-task-ran",
              "task %d ran although enqueue returned an invalid future", id);
  if (!valid) sim::probe("enqueue_rejected");
}

// One enqueue; futures are appended to `ints` (index aligned with ids).
void enqueue(int group, int kind, int arg, int /*thread_slot*/,
             std::vector<std::future<int>>* ints, std::vector<int>* ids) {
  int id;
  uint64_t stopped;
  {
    sim::Quiet q;
    id = new_task(group, kind);
    C->t[id].call = sim::stamp();
    stopped = C->stop_ret;
    C->t[id].from_worker = ints == nullptr;
    sim::note("enqueue task %d group %d kind %d", id, group, kind);
  }
  std::future<int> f;
  bool valid = false;
  bool threw = false;
  try {
    if (kind == kVoid) {
      VoidTask fn{id};
      const std::string text = "argument-" + std::to_string(arg);
      std::future<void> v;
      {
        sim::AllocFaultScope faults;
        v = group < 0 ? C->pool->enqueue(fn, arg, text)
                      : C->pool->enqueueOrdered(static_cast<size_t>(group), fn,
                                                arg, text);
      }
      valid = v.valid();
    } else {
      IntTask fn{id};
      {
        sim::AllocFaultScope faults;
        f = group < 0 ? C->pool->enqueue(fn, arg)
                      : C->pool->enqueueOrdered(static_cast<size_t>(group), fn,
                                                arg);
      }
      valid = f.valid();
    }
  } catch (const std::bad_alloc&) {
    threw = true;
  }
  if (threw) {
    sim::Quiet q;
    C->t[id].threw = true;
    C->t[id].ret = 0;
    sim::probe("enqueue_threw");
  } else {
    after_enqueue(id, valid, stopped);
  }
  if (ints) {
    ints->push_back(std::move(f));
    ids->push_back(id);
  }
}

void check_get(std::future<int>* f, int id, int arg) {
  if (!f->valid()) return;
  {
    sim::Quiet q;
    char l[64];
    snprintf(l, sizeof(l), "future.get() of task %d", id);
    sim::label(l);
  }
  int kind;
  {
    sim::Quiet q;
    kind = C->t[id].kind;
  }
  bool threw = false;
  int value = 0;
  int thrown = -1;
  try {
    value = f->get();
  } catch (const Boom& b) {
    threw = true;
    thrown = b.id;
  } catch (const std::future_error&) {
    sim::fail("C01", "broken-promise",
              "the future of accepted task %d was abandoned", id);
  }
  const long cell = C->cell[id];  // must be visible once the future is ready
  sim::Quiet q;
  sim::label("");
  const TaskRec& r = C->t[id];
  if (r.runs != 1 || !r.end)
    SIM_SOFT("C01", "future-before-completion",
              "future of task %d is ready but the task ran %d times", id, r.runs);
  if (threw != (kind == kThrow) || (threw && thrown != id))
    SIM_SOFT("C01", "wrong-outcome", "task %d: wrong exception outcome", id);
  if (!threw && value != arg * 7 + id)
    SIM_SOFT("C01", "wrong-result", "task %d delivered %d instead of %d", id,
              value, arg * 7 + id);
  if (cell != static_cast<long>(arg) * 3 + id)
    SIM_SOFT("C01", "lost-effect", "effects of task %d are not visible", id);
}

void wait_empty(const char* who) {
  uint64_t call;
  {
    sim::Quiet q;
    call = sim::stamp();
    sim::label("waitForEmptyQueue");
    sim::note("waitForEmptyQueue called");
  }
  C->pool->waitForEmptyQueue();
  int must[kMaxTasks];
  int n = 0;
  {
    sim::Quiet q;
    sim::label("");
    sim::note("waitForEmptyQueue returned");
    sim::probe("wait_for_empty_returned");
    for (int i = 0; i < C->nt; ++i) {
      const TaskRec& r = C->t[i];
      if (!r.accepted || r.ret == 0 || r.ret > call) continue;
      if (!r.end)
        SIM_SOFT("C03", "returned-early",
                  "waitForEmptyQueue returned to %s while task %d, enqueued before the call, %s",
                  who, i, r.start ? "is still running" : "has not run");
      must[n++] = i;
    }
  }
  // The effects of those tasks must be visible (race detector).
  long sum = 0;
  for (int i = 0; i < n; ++i) sum += C->cell[must[i]];
  if (sum == -1) sim::probe("impossible");
}

// At quiescence (every thread blocked): is a worker idle although an accepted
// task could start?
void check_conservation(const char* when) {
  sim::Quiet q;
  int running = 0;
  for (int i = 0; i < C->nt; ++i)
    running += C->t[i].start && !C->t[i].end;
  // First task that may start.
  for (int i = 0; i < C->nt; ++i) {
    const TaskRec& r = C->t[i];
    if (!r.accepted || r.start) continue;
    bool eligible = true;
    if (r.group >= 0) {
      if (C->group_busy[r.group]) eligible = false;
      // An enqueue that failed half way may still occupy the group's head.
    }
    if (eligible && running < C->workers)
      SIM_SOFT("C04", "idle-worker",
                "%s: task %d (group %d) is queued and may start, only %d of %d workers are busy, yet nothing happens",
                when, i, r.group, running, C->workers);
    // Non-exclusive tasks start in order.
    if (r.group < 0)
      for (int j = 0; j < C->nt; ++j)
        if (C->t[j].group < 0 && C->t[j].start && C->t[j].call > r.ret && r.ret)
          SIM_SOFT("C04", "start-order",
                    "%s: task %d was started although task %d, enqueued earlier, is still queued",
                    when, j, i);
  }
  // A task nobody can wake up, while nothing blocks: covered by the stuck
  // callback.
}

void on_stuck() {
  // Every thread is blocked for good.  Which promise is broken?
  if (C->gates_waiting && !C->gate_open) return;
  bool pending = false;
  int which = -1;
  for (int i = 0; i < C->nt; ++i)
    if (C->t[i].accepted && !C->t[i].end) {
      pending = true;
      which = i;
    }
  bool waiter = false;
  for (int i = 0; i < sim::num_threads(); ++i)
    if (sim::is_blocked(i) && !strcmp(sim::thread_label(i), "waitForEmptyQueue"))
      waiter = true;
  char props[32];
  props[0] = 0;
  if (pending) strcat(props, C->stop_called ? "C01,C04,C05" : "C01,C04");
  if (waiter) strcat(props, props[0] ? ",C03" : "C03");
  if (C->destroying) strcat(props, props[0] ? ",C05" : "C05");
  if (!props[0]) strcpy(props, "C01,C04");
  // Also the destructor and stop() promise that accepted work is finished.
  if (C->destroying && !pending)
    sim::fail(props, "stuck", "the destructor never returns");
  if (pending)
    sim::fail(props, "stuck", "accepted task %d never %s%s", which,
              C->t[which].start ? "finishes" : "runs",
              waiter ? "; a waitForEmptyQueue call never returns" : "");
  sim::fail(props, "stuck", "%s",
            waiter ? "waitForEmptyQueue never returns although all tasks are done"
                   : "a thread is blocked although all tasks are done");
}

void run_ops(const sim::PlanThread& ops, bool is_main) {
  std::vector<std::future<int>> futures;
  std::vector<int> ids;
  std::vector<int> args;
  for (int i = 0; i < ops.n; ++i) {
    const Op& op = ops.ops[i];
    switch (op.code) {
      case kEnq:
        enqueue(static_cast<int>(op.a[0]), static_cast<int>(op.a[1]),
                static_cast<int>(op.a[2]), 0, &futures, &ids);
        args.push_back(static_cast<int>(op.a[2]));
        break;
      case kGet: {
        if (futures.empty()) break;
        const size_t k = static_cast<size_t>(op.a[0]) % futures.size();
        // Main opens the gates, so it must not wait for gated work.
        if (is_main) break;
        if (futures[k].valid()) check_get(&futures[k], ids[k], args[k]);
        break;
      }
      case kWait:
        if (!is_main) wait_empty("a producer");
        break;
      case kStop: {
        {
          sim::Quiet q;
          C->stop_called = true;
          sim::label("stop");
        }
        C->pool->stop();
        sim::Quiet q;
        sim::label("");
        if (!C->stop_ret) C->stop_ret = sim::stamp();
        sim::note("stop() returned");
        sim::probe("stopped");
        break;
      }
      case kActive: {
        const size_t n = C->pool->numActiveThreads();
        if (n > static_cast<size_t>(C->workers))
          SIM_SOFT("C04", "active-count", "numActiveThreads() = %zu with %d workers",
                    n, C->workers);
        break;
      }
      case kSleep:
        sim::advance_time(op.a[0]);
        break;
      case kQuiesce:
        if (is_main) {
          sim::wait_quiescent();
          check_conservation("at rest");
          {
            sim::Quiet q;
            for (int k = 0; k < sim::num_threads(); ++k)
              if (sim::is_blocked(k) && !strcmp(sim::thread_label(k), "stop"))
                SIM_SOFT("C05", "stop-blocks", "stop() blocks");
          }
          sim::probe("quiescent_check");
        }
        break;
      case kOpenGate:
        if (is_main) {
          std::lock_guard<std::mutex> lock(C->gate_mutex);
          C->gate_open = true;
          C->gate_cv.notify_all();
        }
        break;
    }
  }
  if (is_main) return;
  for (size_t i = 0; i < futures.size(); ++i)
    if (futures[i].valid()) check_get(&futures[i], ids[i], args[i]);
}

void run(const Plan& plan) {
  sim::set_default_props("C01,C02,C03,C04,C05");
  sim::set_stuck_props("C01,C04");
  sim::set_stuck_callback(on_stuck);
  C = new Ctx;
  memset(C->t, 0, sizeof(C->t));
  memset(C->group_busy, 0, sizeof(C->group_busy));
  memset(C->cell, 0, sizeof(C->cell));
  memset(C->group_cell, 0, sizeof(C->group_cell));
  C->workers = static_cast<int>(plan.cfg[kWorkers]);
  const int end = static_cast<int>(plan.cfg[kEnd]);
  C->pool = new aslam::ThreadPool(static_cast<size_t>(C->workers));
  std::vector<std::thread> producers;
  for (int t = 1; t < plan.nthreads; ++t)
    producers.emplace_back([t, &plan]() { run_ops(plan.th[t], false); });
  run_ops(plan.th[0], true);
  // Let everything settle with the gates as they are, check that no worker is
  // idle without reason, then open the gates.
  sim::wait_quiescent();
  check_conservation("before the gates open");
  {
    std::lock_guard<std::mutex> lock(C->gate_mutex);
    C->gate_open = true;
    C->gate_cv.notify_all();
  }
  if (end == kEndStopDestroy || end == kEndStopWait) {
    {
      sim::Quiet q;
      C->stop_called = true;
    }
    C->pool->stop();
    sim::Quiet q;
    if (!C->stop_ret) C->stop_ret = sim::stamp();
  }
  for (std::thread& p : producers) p.join();
  if (end == kEndWait || end == kEndStopWait) {
    wait_empty("main");
    sim::Quiet q;
    for (int i = 0; i < C->nt; ++i)
      if (C->t[i].accepted && !C->t[i].end)
        SIM_SOFT("C01,C03", "not-executed",
                  "task %d was accepted but not executed when the queue became empty", i);
  }
  {
    sim::Quiet q;
    C->destroying = true;
    sim::label("~ThreadPool");
  }
  delete C->pool;
  sim::Quiet q;
  C->pool_gone = true;
  for (int i = 0; i < C->nt; ++i) {
    const TaskRec& r = C->t[i];
    if (r.accepted && r.runs != 1)
      SIM_SOFT("C01,C05", "not-executed",
                "accepted task %d (group %d) was executed %d times by the time the pool was destroyed",
                i, r.group, r.runs);
    if (r.accepted && !r.end)
      SIM_SOFT("C05", "unfinished-at-destruction",
                "task %d is still running after the destructor returned", i);
    if (r.threw && r.runs > 1)
      sim::fail("C01", "executed-twice", "task %d ran %d times", i, r.runs);
  }
  int per_group[8] = {0};
  for (int i = 0; i < C->nt; ++i)
    if (C->t[i].group >= 0) per_group[C->t[i].group] += C->t[i].runs;
  for (int g = 0; g < 8; ++g)
    if (C->group_cell[g] != 2 * per_group[g])
      SIM_SOFT("C02", "lost-update",
                "group %d counted %ld updates instead of %d", g,
                C->group_cell[g], 2 * per_group[g]);
}

struct Mix {
  int enq, get, wait, stop, active, sleep, nested, gate;
};
void gen_common(Rng& r, Plan* p, sim::Env* env, bool thorough, const Mix& m,
                int group_pct, int end_mode) {
  const int workers = static_cast<int>(r.range(1, r.chance(0.15) ? 6 : 3));
  const int groups = static_cast<int>(r.range(1, 3));
  p->add_cfg(workers, 1);
  p->add_cfg(groups, 1);
  p->add_cfg(end_mode >= 0 ? end_mode : static_cast<int>(r.below(4)), 0);
  env->alloc_fail = r.chance(0.12);
  p->add_cfg(env->alloc_fail, 0);
  const int nprod = static_cast<int>(r.range(1, 3));
  p->nthreads = 1 + nprod;
  const int ops_max = thorough ? 16 : 9;
  int gates_left = r.chance(0.5) ? workers - (r.chance(0.7) ? 1 : 0) : 0;
  if (!m.gate) gates_left = 0;
  const int gp = r.chance(0.3) ? static_cast<int>(r.below(101)) : group_pct;
  const int total = m.enq + m.get + m.wait + m.stop + m.active + m.sleep;
  for (int t = 0; t <= nprod; ++t) {
    const int n = static_cast<int>(r.range(t == 0 ? 0 : 1, t == 0 ? 3 : ops_max));
    for (int i = 0; i < n; ++i) {
      int64_t w = static_cast<int64_t>(r.below(total));
      if ((w -= m.enq) < 0) {
        const int group = static_cast<int>(r.below(100)) < gp
                              ? static_cast<int>(r.below(groups)) : -1;
        int kind = kValue;
        const uint64_t k = r.below(100);
        if (k < 8) kind = kThrow;
        else if (k < 18) kind = kVoid;
        else if (k < 30 && m.nested) kind = kNested;
        else if (k < 36) kind = kNap;
        else if (k < 60 && gates_left > 0) { kind = kGate; --gates_left; }
        p->add(t, kEnq, group, kind, static_cast<int64_t>(r.below(1000)));
      } else if ((w -= m.get) < 0) {
        p->add(t, kGet, static_cast<int64_t>(r.below(8)));
      } else if ((w -= m.wait) < 0) {
        p->add(t, kWait);
      } else if ((w -= m.stop) < 0) {
        p->add(t, kStop);
      } else if ((w -= m.active) < 0) {
        p->add(t, kActive);
      } else {
        p->add(t, kSleep, static_cast<int64_t>(r.below(60000)));
      }
    }
  }
  if (r.chance(0.5)) p->add(0, kQuiesce);
  if (r.chance(0.3)) p->add(0, kOpenGate);
}

void gen_once(Rng& r, Plan* p, sim::Env* e, bool th) {
  gen_common(r, p, e, th, Mix{10, 3, 2, static_cast<int>(r.chance(0.2)), 1, 1, 1, 1}, 40, -1);
}
void gen_group(Rng& r, Plan* p, sim::Env* e, bool th) {
  gen_common(r, p, e, th, Mix{12, 1, 1, 0, 1, 1, 1, static_cast<int>(r.chance(0.4))}, 85, -1);
}
void gen_wait(Rng& r, Plan* p, sim::Env* e, bool th) {
  gen_common(r, p, e, th, Mix{6, 1, 6, static_cast<int>(r.chance(0.2)), 1, 1, 1, static_cast<int>(r.chance(0.4))}, 40, r.chance(0.7) ? 0 : -1);
}
void gen_progress(Rng& r, Plan* p, sim::Env* e, bool th) {
  gen_common(r, p, e, th, Mix{9, 1, 4, 0, 1, 1, 1, 1}, 40, -1);
}
void gen_stop(Rng& r, Plan* p, sim::Env* e, bool th) {
  gen_common(r, p, e, th, Mix{8, 2, 1, 3, 1, 1, 1, static_cast<int>(r.chance(0.5))}, 40, -1);
}

const sim::Harness h1 = {"pool_once", "C01,C02,C03,C04,C05", gen_once, run};
const sim::Harness h2 = {"pool_group", "C01,C02,C03,C04,C05", gen_group, run};
const sim::Harness h3 = {"pool_wait", "C01,C02,C03,C04,C05", gen_wait, run};
const sim::Harness h4 = {"pool_progress", "C01,C02,C03,C04,C05", gen_progress, run};
const sim::Harness h5 = {"pool_stop", "C01,C02,C03,C04,C05", gen_stop, run};
sim::Registrar r1(&h1), r2(&h2), r3(&h3), r4(&h4), r5(&h5);
}  // namespace
