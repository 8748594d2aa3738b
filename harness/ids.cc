// Simulated workloads for identifier generation.
//   C17 identifiers are never repeated, whatever threads, clocks and restarts do
#include <aslam/common/hash-id.h>
#include <aslam/common/sensor.h>
#include <aslam/common/unique-id.h>

#include <algorithm>
#include <string>
#include <thread>
#include <vector>

#include "simrt.h"

namespace {
using sim::Op;
using sim::Plan;
using sim::Rng;

#define AGENTS(X) X(1) X(2) X(3)
#define DECL(n)                                  \
  extern "C" void agent_unique_##n(uint64_t*);   \
  extern "C" void agent_random_##n(uint64_t*);
AGENTS(DECL)
typedef void (*Generator)(uint64_t*);
const Generator kUnique[] = {agent_unique_1, agent_unique_2, agent_unique_3};
const Generator kRandom[] = {agent_random_1, agent_random_2, agent_random_3};
const int kNumAgents = 3;

class TestSensor : public aslam::Sensor {
 public:
  aslam::Sensor::Ptr cloneAsSensor() const override {
    return aslam::Sensor::Ptr(new TestSensor(*this));
  }
  uint8_t getSensorType() const override { return aslam::SensorType::kUnknown; }
  std::string getSensorTypeString() const override { return "TEST"; }

 private:
  bool isValidImpl() const override { return true; }
  void setRandomImpl() override {}
  bool isEqualImpl(const aslam::Sensor&, const bool) const override { return true; }
  bool loadFromYamlNodeImpl(const YAML::Node&) override { return true; }
  void saveToYamlNodeImpl(YAML::Node*) const override {}
};

enum OpCode { kGenerate = 1, kSleep, kSwitch, kMany };  // kGenerate: a0 kind, a1 count
enum Kind { kIdUnique = 0, kIdRandom, kIdSensor, kIdSensorRandom, kIdSensorYaml, kIdFrame, kNumKinds };
enum CfgIdx { kMultiAgent = 0 };

struct Gen {
  uint64_t id[2];
  int agent;  // 0: this process, shared by all threads
  int kind;
  int thread;
  int64_t wall_lo, wall_hi;    // wall clock window of the call
  int64_t first_lo, first_hi;  // wall clock window of the agent's first random id
};
const int kMaxGen = 4096;
struct Ctx {
  Gen g[kMaxGen];
  int n = 0;
  std::vector<std::pair<uint64_t, uint64_t>> many;  // of this process, too
  bool multi = false;
  bool check_agents = false;
  int64_t seeded_lo[8], seeded_hi[8];
  bool seeded[8] = {false};
};
Ctx* C = nullptr;

int begin(int agent, int kind, int thread) {
  sim::Quiet q;
  if (C->n >= kMaxGen) sim::inconclusive("too many ids");
  Gen& g = C->g[C->n];
  g.agent = agent;
  g.kind = kind;
  g.thread = thread;
  g.id[0] = g.id[1] = 0;
  g.wall_lo = sim::wall_ns();
  return C->n++;
}
void end(int i, const uint64_t id[2]) {
  sim::Quiet q;
  Gen& g = C->g[i];
  g.id[0] = id[0];
  g.id[1] = id[1];
  g.wall_hi = sim::wall_ns();
  if (!id[0] && !id[1]) sim::fail("C17", "invalid-id", "a generated identifier is the invalid one");
  if (g.kind == kIdRandom && !C->seeded[g.agent]) {
    C->seeded[g.agent] = true;
    C->seeded_lo[g.agent] = g.wall_lo;
    C->seeded_hi[g.agent] = g.wall_hi;
  }
}
void hash_of(const aslam::SensorId& id, uint64_t out[2]) {
  aslam::HashId h;
  id.toHashId(&h);
  h.toUint64(out);
}
void hash_of(const aslam::FrameId& id, uint64_t out[2]) {
  aslam::HashId h;
  id.toHashId(&h);
  h.toUint64(out);
}

void generate(int thread, int agent, int kind) {
  uint64_t id[2] = {0, 0};
  if (agent > 0) {
    kind = kind == kIdRandom ? kIdRandom : kIdUnique;
    const int i = begin(agent, kind, thread);
    (kind == kIdRandom ? kRandom : kUnique)[agent - 1](id);
    end(i, id);
    sim::probe("generated_by_other_process");
    return;
  }
  const int i = begin(0, kind, thread);
  switch (kind) {
    case kIdUnique: aslam::internal::generateUnique128BitHash(id); break;
    case kIdRandom: aslam::HashId::random().toUint64(id); break;
    case kIdSensor: {
      TestSensor s;
      hash_of(s.getId(), id);
      break;
    }
    case kIdSensorRandom: {
      TestSensor s;
      s.setRandom();
      hash_of(s.getId(), id);
      break;
    }
    case kIdSensorYaml: {
      TestSensor s;
      YAML::Node node;
      node["topic"] = "t";
      node["description"] = "d";
      if (!s.deserialize(node)) sim::fail("C17", "no-id", "a sensor without an id field is refused");
      hash_of(s.getId(), id);
      break;
    }
    case kIdFrame: hash_of(aslam::createRandomId<aslam::FrameId>(), id); break;
  }
  end(i, id);
}

void body(int me, const sim::PlanThread& ops) {
  int agent = C->multi ? me % (kNumAgents + 1) : 0;
  for (int i = 0; i < ops.n; ++i) {
    const Op& op = ops.ops[i];
    if (op.code == kSleep) {
      sim::advance_time(op.a[0]);
    } else if (op.code == kMany) {
      std::vector<std::pair<uint64_t, uint64_t>> ids(static_cast<size_t>(op.a[0]));
      for (auto& id : ids) {
        uint64_t v[2];
        aslam::internal::generateUnique128BitHash(v);
        id = {v[0], v[1]};
      }
      sim::Quiet q;
      C->many.insert(C->many.end(), ids.begin(), ids.end());
    } else if (op.code == kSwitch) {
      // This thread's process ends; the thread now stands for a later one.
      if (C->multi) agent = static_cast<int>(op.a[0]) % (kNumAgents + 1);
    } else {
      for (int k = 0; k < op.a[1]; ++k) generate(me, agent, static_cast<int>(op.a[0]) % kNumKinds);
    }
  }
}

bool disjoint(int64_t alo, int64_t ahi, int64_t blo, int64_t bhi) { return ahi < blo || bhi < alo; }

void run(const Plan& plan) {
  sim::set_default_props("C17");
  sim::set_stuck_props("C17");
  C = new Ctx;
  C->multi = plan.cfg[kMultiAgent] != 0;
  std::vector<std::thread> threads;
  for (int t = 0; t < plan.nthreads; ++t)
    threads.emplace_back([t, &plan]() { body(t, plan.th[t]); });
  for (std::thread& t : threads) t.join();
  sim::Quiet q;
  // Open addressing table of all ids.
  static int table[16384];
  for (int& t : table) t = -1;
  int cross = 0;
  for (int i = 0; i < C->n; ++i) {
    const Gen& a = C->g[i];
    uint64_t h = Rng::mix(a.id[0] * 31 + a.id[1]) % 16384;
    for (; table[h] >= 0; h = (h + 1) % 16384) {
      const Gen& b = C->g[table[h]];
      if (a.id[0] != b.id[0] || a.id[1] != b.id[1]) continue;
      if (a.agent == b.agent)
        sim::fail("C17", "repeated-id", "threads %d and %d of one process got the same identifier %016llx%016llx",
                  b.thread, a.thread, (unsigned long long)a.id[0], (unsigned long long)a.id[1]);
      // Different processes: only if both may have read the same clock value.
      bool excused;
      if (a.kind == kIdRandom || b.kind == kIdRandom)
        excused = a.kind == b.kind && !disjoint(C->seeded_lo[a.agent], C->seeded_hi[a.agent],
                                                C->seeded_lo[b.agent], C->seeded_hi[b.agent]);
      else
        excused = !disjoint(a.wall_lo, a.wall_hi, b.wall_lo, b.wall_hi);
      if (!excused)
        sim::fail("C17", "repeated-across-processes",
                  "two processes, or one before and after a restart, generated the same identifier %016llx%016llx at different times",
                  (unsigned long long)a.id[0], (unsigned long long)a.id[1]);
      ++cross;
    }
    table[h] = i;
  }
  if (!C->many.empty()) {
    for (int i = 0; i < C->n; ++i)
      if (C->g[i].agent == 0) C->many.push_back({C->g[i].id[0], C->g[i].id[1]});
    std::sort(C->many.begin(), C->many.end());
    for (size_t i = 1; i < C->many.size(); ++i)
      if (C->many[i] == C->many[i - 1])
        sim::fail("C17", "repeated-id", "one process generated the identifier %016llx%016llx twice among %zu",
                  (unsigned long long)C->many[i].first, (unsigned long long)C->many[i].second, C->many.size());
    sim::probe("many_ids_checked");
  }
  if (cross) sim::probe("same_clock_value_collision");
  sim::probe(C->multi ? "processes_checked" : "threads_checked");
}

void gen_threads(Rng& r, Plan* p, sim::Env* env, bool thorough) {
  env->clock_jumps = r.chance(0.5);
  env->coarse_clock = r.chance(0.6);
  p->add_cfg(0, 0);
  p->nthreads = static_cast<int>(r.range(2, thorough ? 6 : 4));
  for (int t = 0; t < p->nthreads; ++t) {
    const int n = static_cast<int>(r.range(1, thorough ? 12 : 6));
    for (int i = 0; i < n; ++i) {
      if (r.chance(0.1)) p->add(t, kSleep, static_cast<int64_t>(r.below(2000)));
      p->add(t, kGenerate, r.below(kNumKinds), r.range(1, 3));
      if (i == 0 && t < 2 && r.chance(0.03)) p->add(t, kMany, r.chance(0.05) ? 70000 : r.range(250, 600));
    }
  }
}
void gen_processes(Rng& r, Plan* p, sim::Env* env, bool thorough) {
  // Wall clock windows are only comparable while the clock runs forward.
  env->clock_jumps = false;
  env->coarse_clock = false;
  p->add_cfg(1, 0);
  p->nthreads = static_cast<int>(r.range(1, 4));
  for (int t = 0; t < p->nthreads; ++t) {
    const int n = static_cast<int>(r.range(1, thorough ? 16 : 8));
    for (int i = 0; i < n; ++i) {
      if (r.chance(0.5)) p->add(t, kSleep, 1 + static_cast<int64_t>(r.below(r.chance(0.5) ? 10 : 5000000)));
      if (r.chance(0.4)) p->add(t, kSwitch, r.below(kNumAgents + 1));
      p->add(t, kGenerate, r.below(2), r.range(1, 3));
    }
  }
}

const sim::Harness h1 = {"id_threads", "C17", gen_threads, run};
const sim::Harness h2 = {"id_processes", "C17", gen_processes, run};
sim::Registrar r1(&h1), r2(&h2);
}  // namespace
