// Simulated workloads for channel groups shared by threads.
//   C18 operations on channel groups are atomic, independent and never hang
#include <aslam/common/channel-declaration.h>
#include <aslam/common/channel.h>

#include <cstdlib>
#include <memory>
#include <sstream>
#include <string>
#include <thread>
#include <unordered_set>
#include <vector>

#include "simrt.h"

DECLARE_CHANNEL(SIM_P0, int)
DECLARE_CHANNEL(SIM_P1, int)
DECLARE_CHANNEL(SIM_O0, int)
DECLARE_CHANNEL(SIM_O1, int)
DECLARE_CHANNEL(SIM_O2, int)
DECLARE_CHANNEL(SIM_O3, int)
DECLARE_CHANNEL(SIM_CONTEST, int)

namespace {
using aslam::channels::ChannelGroup;
using sim::Op;
using sim::Plan;
using sim::Rng;

// Names 0 and 1 exist from the start and are never removed: everybody may
// read and write them.  The others are added and removed by one thread each.
const int kPermanent = 2, kNames = 6, kMaxGroups = 3;
const char* const kName[kNames] = {"SIM_P0", "SIM_P1", "SIM_O0", "SIM_O1", "SIM_O2", "SIM_O3"};
const int kAbsent = -1, kAny = -2;

#define FOR_NAME(n, WHAT)                      \
  switch (n) {                                 \
    case 0: WHAT(SIM_P0); break;               \
    case 1: WHAT(SIM_P1); break;               \
    case 2: WHAT(SIM_O0); break;               \
    case 3: WHAT(SIM_O1); break;               \
    case 4: WHAT(SIM_O2); break;               \
    default: WHAT(SIM_O3); break;              \
  }

enum OpCode {
  kAdd = 1,  // group, own index
  kRemove,   // group, own index
  kSet,      // group, name
  kGet,      // group, name
  kHas,      // group, name
  kClone,    // group
  kEqual,    // group, group
  kList,     // group
  kCopy,     // group, how
  kAddress,  // group, permanent name
  kSleep,
  kContest,  // group: several threads may add the same channel; one may
  kAssign,   // which, from: one of two groups is assigned to another
  kValues,   // 0, seed: compare and clone groups that hold values of all kinds
};
enum CfgIdx { kGroups = 0 };

struct State {
  int v[kMaxGroups][kNames];
};
struct Event {
  int code, g, g2, n, value;
  int snap[kNames];
  bool flag;
  int thread;
  uint64_t call, ret;
};
const int kMaxEvents = 60;
struct Ctx {
  std::unique_ptr<ChannelGroup> group[kMaxGroups];
  ChannelGroup assigned[2];  // always one of two contents
  int groups = 1;
  State init;
  Event e[kMaxEvents];
  int n = 0;
  int next_value = 100;
  const void* address[kMaxGroups][kPermanent];
  int contest_started[kMaxGroups], contest_won[kMaxGroups];
  int contesting[sim::kMaxSimThreads];  // group + 1
};
Ctx* C = nullptr;

int begin(int thread, int code, int g, int g2, int n, int value) {
  sim::Quiet q;
  if (C->n >= kMaxEvents) return -1;
  Event& e = C->e[C->n];
  e = Event();
  e.code = code;
  e.g = g;
  e.g2 = g2;
  e.n = n;
  e.value = value;
  e.thread = thread;
  e.call = sim::stamp();
  return C->n++;
}
template <typename F>
void end(int i, F fill) {
  sim::Quiet q;
  fill(&C->e[i]);
  C->e[i].ret = sim::stamp();
}

int parse(const std::string& s) {
  char* rest = nullptr;
  const long v = strtol(s.c_str(), &rest, 10);
  if (s.empty() || *rest)
    sim::fail("C18", "torn-value", "a channel was serialised as '%s'", s.c_str());
  return static_cast<int>(v);
}
void set_value(const ChannelGroup& g, int n, int v) {
  const std::string s = std::to_string(v);
#define SET(NAME) aslam::channels::deserialize_##NAME##_Channel(g, s)
  FOR_NAME(n, SET)
}
int get_value(const ChannelGroup& g, int n) {
  std::string s;
#define GET(NAME) aslam::channels::serialize_##NAME##_Channel(g, &s)
  FOR_NAME(n, GET)
  return parse(s);
}
bool has(const ChannelGroup& g, int n, bool generic) {
  if (generic) return aslam::channels::hasChannel(kName[n], g);
#define HAS(NAME) return aslam::channels::has_##NAME##_Channel(g)
  FOR_NAME(n, HAS)
}
void add(ChannelGroup* g, int n, bool generic) {
  if (generic) {
    aslam::channels::addChannel<int>(kName[n], g);
    return;
  }
#define ADD(NAME) aslam::channels::add_##NAME##_Channel(g)
  FOR_NAME(n, ADD)
}
void remove(ChannelGroup* g, int n) {
#define REMOVE(NAME) aslam::channels::remove_##NAME##_Channel(g)
  FOR_NAME(n, REMOVE)
}

// ------------------------------------------------------ values of all kinds
// A value is described by its kind, its size and a number for its content.
struct Value {
  int kind, rows, cols, content;
  bool operator==(const Value& o) const {
    if (kind != o.kind) return false;
    if (kind == 0) return content == o.content;
    if (kind == 3 && cols == 0 && o.cols == 0) return true;  // an empty list
    if (rows != o.rows || cols != o.cols) return false;
    return content == o.content || rows * cols == 0;
  }
};
enum { kScalar = 0, kDoubles, kInts, kMatrices, kImage8, kImage3, kImageFloat, kValueKinds };
typedef Eigen::Matrix<unsigned char, Eigen::Dynamic, Eigen::Dynamic> Bytes;
// `content` changes one element only, the last one.
template <typename M>
M matrix(const Value& v) {
  M m(v.rows, v.cols);
  for (int j = 0; j < v.cols; ++j)
    for (int i = 0; i < v.rows; ++i) m(i, j) = static_cast<typename M::Scalar>(3 + i + 5 * j);
  if (v.rows * v.cols) m(v.rows - 1, v.cols - 1) = static_cast<typename M::Scalar>(100 + v.content);
  return m;
}
template <typename T>
cv::Mat picture(const Value& v, int type) {
  if (v.rows * v.cols == 0) return cv::Mat();
  // Often part of a larger image.
  cv::Mat all(v.rows + 2, v.cols + 2, type, cv::Scalar::all(9));
  cv::Mat m = v.content & 1 ? all(cv::Rect(1, 1, v.cols, v.rows)) : cv::Mat(v.rows, v.cols, type, cv::Scalar::all(9));
  const int n = CV_MAT_CN(type);
  for (int i = 0; i < v.rows; ++i)
    for (int j = 0; j < v.cols * n; ++j) m.ptr<T>(i)[j] = static_cast<T>(1 + i * 7 + j);
  m.ptr<T>(v.rows - 1)[v.cols * n - 1] = static_cast<T>(100 + v.content / 2);
  return m;
}
void put(ChannelGroup* g, const char* name, const Value& v) {
  switch (v.kind) {
    case kScalar: aslam::channels::addChannel<double>(name, g) = v.content / 8.0; break;
    case kDoubles: aslam::channels::addChannel<Eigen::MatrixXd>(name, g) = matrix<Eigen::MatrixXd>(v); break;
    case kInts: aslam::channels::addChannel<Eigen::VectorXi>(name, g) = v.rows * v.cols ? Eigen::VectorXi(matrix<Eigen::VectorXi>(v)) : Eigen::VectorXi(); break;
    case kMatrices: {
      auto& l = aslam::channels::addChannel<std::vector<Bytes>>(name, g);
      for (int i = 0; i < v.cols; ++i) l.push_back(matrix<Bytes>(Value{v.kind, v.rows, i + 1, i + 1 == v.cols ? v.content : 0}));
      break;
    }
    case kImage8: aslam::channels::addChannel<cv::Mat>(name, g) = picture<unsigned char>(v, CV_8UC1); break;
    case kImage3: aslam::channels::addChannel<cv::Mat>(name, g) = picture<unsigned char>(v, CV_8UC3); break;
    default: aslam::channels::addChannel<cv::Mat>(name, g) = picture<float>(v, CV_32FC1); break;
  }
}
void values(int64_t seed) {
  Rng r(static_cast<uint64_t>(seed));
  const int n = 1 + static_cast<int>(r.below(3));
  static const char* const kNames3[] = {"first", "second", "third"};
  ChannelGroup a, b;
  bool same = true;
  int differing = r.chance(0.5) ? -1 : static_cast<int>(r.below(n));
  Value va[3], vb[3];
  for (int i = 0; i < n; ++i) {
    Value v = {static_cast<int>(r.below(kValueKinds)), static_cast<int>(r.below(4)), static_cast<int>(r.below(4)), 2 * static_cast<int>(r.below(20))};
    if (v.kind == kInts) v.cols = v.rows ? 1 : 0;
    if (v.kind != kMatrices && v.rows * v.cols == 0) v.rows = v.cols = 0;
    Value w = v;
    if (i == differing) {
      switch (r.below(4)) {
        case 0: w.content += 2; break;
        case 1: w.rows = static_cast<int>(r.below(4)); break;
        case 2: if (w.kind != kInts) w.cols = static_cast<int>(r.below(4)); break;
        default: std::swap(w.rows, w.cols); break;
      }
      if (w.kind >= kImage8 && r.chance(0.3)) w.kind = kImage8 + static_cast<int>(r.below(3));
      if (w.kind == kInts) w.cols = w.rows ? 1 : 0;
      if (w.kind != kMatrices && w.rows * w.cols == 0) w.rows = w.cols = 0;
    }
    va[i] = v;
    vb[i] = w;
    same = same && (v == w || (v.kind >= kImage8 && w.kind >= kImage8 && v.rows * v.cols == 0 && w.rows * w.cols == 0));
    if (w.kind >= kImage8 && r.chance(0.5)) vb[i].content += 1;  // the same pixels, stored in a larger image
    put(&a, kNames3[i], va[i]);
  }
  for (int i = n - 1; i >= 0; --i) put(&b, kNames3[i], vb[i]);
  const bool got = aslam::channels::isChannelGroupEqual(a, b), reverse = aslam::channels::isChannelGroupEqual(b, a);
  if (got != same || reverse != same)
    sim::fail("C18", "wrong-comparison", "two groups with %s values compare as %s, in the opposite order as %s (first channel: kind %d, %d x %d and kind %d, %d x %d)",
              same ? "equal" : "different", got ? "equal" : "different", reverse ? "equal" : "different", va[0].kind, va[0].rows, va[0].cols, vb[0].kind, vb[0].rows, vb[0].cols);
  ChannelGroup copy = aslam::channels::cloneChannelGroup(a);
  if (!aslam::channels::isChannelGroupEqual(copy, a)) sim::fail("C18", "clone-differs", "a clone differs from its original");
  for (int i = 0; i < n; ++i) {
    if (va[i].kind >= kImage8) continue;  // images are shared with the clone
    switch (va[i].kind) {
      case kScalar: aslam::channels::getChannelData<double>(kNames3[i], copy) += 1; break;
      case kDoubles: aslam::channels::getChannelData<Eigen::MatrixXd>(kNames3[i], copy).array() += 1; break;
      case kInts: aslam::channels::getChannelData<Eigen::VectorXi>(kNames3[i], copy).array() += 1; break;
      default: for (Bytes& m : aslam::channels::getChannelData<std::vector<Bytes>>(kNames3[i], copy)) m.array() += 1;
    }
  }
  ChannelGroup again;
  for (int i = 0; i < n; ++i) put(&again, kNames3[i], va[i]);
  if (!aslam::channels::isChannelGroupEqual(again, a)) sim::fail("C18", "clone-shared", "changing a clone changed its original");
  sim::probe(same ? "values_equal" : "values_different");
}

// Adding a channel that is there already aborts.
void on_abort() {
  const int g = C->contesting[sim::tid()] - 1;
  if (g >= 0 && C->contest_started[g] > 1) sim::set_abort_ok(true);
}

void body(int me, const sim::PlanThread& ops) {
  bool mine[kMaxGroups] = {false};  // this thread's own channel is present
  bool set[kMaxGroups] = {false};
  const int own = kPermanent + me % (kNames - kPermanent);
  const bool owner = me < kNames - kPermanent;
  for (int i = 0; i < ops.n; ++i) {
    const Op& op = ops.ops[i];
    const int g = static_cast<int>(op.a[0]) % C->groups;
    ChannelGroup* group = C->group[g].get();
    switch (op.code) {
      case kAdd: {
        if (!owner || mine[g]) break;
        const int e = begin(me, kAdd, g, 0, own, kAny);
        if (e < 0) return;
        add(group, own, op.a[1] & 1);
        end(e, [](Event*) {});
        mine[g] = true;
        set[g] = false;
        break;
      }
      case kRemove: {
        if (!owner || !mine[g]) break;
        const int e = begin(me, kRemove, g, 0, own, 0);
        if (e < 0) return;
        remove(group, own);
        end(e, [](Event*) {});
        mine[g] = false;
        break;
      }
      case kSet: {
        int n = static_cast<int>(op.a[1]) % kPermanent;
        if (op.a[2] && mine[g]) n = own;
        int v;
        {
          sim::Quiet q;
          // Few different values, so that comparisons can succeed.
          v = op.a[3] % 3 ? static_cast<int>(op.a[3] % 3) : C->next_value++;
        }
        const int e = begin(me, kSet, g, 0, n, v);
        if (e < 0) return;
        set_value(*group, n, v);
        end(e, [](Event*) {});
        if (n == own) set[g] = true;
        break;
      }
      case kGet: {
        int n = static_cast<int>(op.a[1]) % kPermanent;
        if (op.a[2] && mine[g] && set[g]) n = own;
        const int e = begin(me, kGet, g, 0, n, 0);
        if (e < 0) return;
        const int v = get_value(*group, n);
        end(e, [v](Event* e) { e->value = v; });
        break;
      }
      case kHas: {
        const int n = static_cast<int>(op.a[1]) % kNames;
        const int e = begin(me, kHas, g, 0, n, 0);
        if (e < 0) return;
        const bool r = has(*group, n, op.a[2] & 1);
        end(e, [r](Event* e) { e->flag = r; });
        break;
      }
      case kClone: {
        const int e = begin(me, kClone, g, 0, 0, 0);
        if (e < 0) return;
        ChannelGroup c;
        c = aslam::channels::cloneChannelGroup(*group);
        end(e, [&c](Event* e) {
          for (int n = 0; n < kNames; ++n) {
            auto it = c.channels_.find(kName[n]);
            e->snap[n] = kAbsent;
            if (it == c.channels_.end()) continue;
            auto ch = std::dynamic_pointer_cast<aslam::channels::Channel<int>>(it->second);
            if (!ch) sim::fail("C18", "clone-type", "the clone of channel %s has another type", kName[n]);
            e->snap[n] = ch->value_;
          }
          size_t present = 0;
          for (int n = 0; n < kNames; ++n) present += e->snap[n] != kAbsent;
          present += c.channels_.count("SIM_CONTEST");
          if (present != c.channels_.size())
            sim::fail("C18", "clone-extra", "a clone has channels that never existed");
        });
        // Changes of the clone must not reach the original.
        for (int n = 0; n < kPermanent; ++n) set_value(c, n, 77000 + n);
        aslam::channels::addChannel<int>("only_in_clone", &c);
        remove(&c, 0);
        sim::probe("cloned");
        break;
      }
      case kEqual: {
        const int g2 = static_cast<int>(op.a[1]) % C->groups;
        const int e = begin(me, kEqual, g, g2, 0, 0);
        if (e < 0) return;
        sim::label("compare");
        const bool r = aslam::channels::isChannelGroupEqual(*group, *C->group[g2]);
        sim::label("");
        end(e, [r](Event* e) { e->flag = r; });
        if (g != g2) sim::probe(r ? "compared_equal" : "compared_unequal");
        break;
      }
      case kList: {
        const int e = begin(me, kList, g, 0, 0, 0);
        if (e < 0) return;
        std::ostringstream out;
        group->printParameters(out);
        const std::string text = out.str();
        end(e, [&text](Event* e) {
          for (int n = 0; n < kNames; ++n)
            e->snap[n] = text.find(kName[n]) == std::string::npos ? kAbsent : kAny;
        });
        break;
      }
      case kCopy: {
        const int e = begin(me, kList, g, 0, 0, 0);
        if (e < 0) return;
        std::unique_ptr<ChannelGroup> copy;
        if (op.a[1] & 1) {
          copy.reset(new ChannelGroup(*group));
        } else {
          copy.reset(new ChannelGroup);
          aslam::channels::addChannel<int>("replaced_by_copy", copy.get());
          *copy = *group;
        }
        end(e, [&copy](Event* e) {
          size_t present = 0;
          for (int n = 0; n < kNames; ++n) {
            e->snap[n] = copy->channels_.count(kName[n]) ? kAny : kAbsent;
            present += e->snap[n] != kAbsent;
          }
          present += copy->channels_.count("SIM_CONTEST");
          if (present != copy->channels_.size())
            sim::fail("C18", "copy-extra", "a copied group has channels that the original never had");
        });
        sim::probe("copied");
        break;
      }
      case kAddress: {
        const int n = static_cast<int>(op.a[1]) % kPermanent;
        const void* p = &aslam::channels::getChannelData<int>(kName[n], *group);
        sim::Quiet q;
        if (p != C->address[g][n])
          sim::fail("C18", "value-moved", "the value of channel %s moved while the group was used", kName[n]);
        break;
      }
      case kContest: {
        {
          sim::Quiet q;
          C->contesting[sim::tid()] = g + 1;
          ++C->contest_started[g];
        }
        if (op.a[1] & 1) aslam::channels::add_SIM_CONTEST_Channel(group);
        else aslam::channels::addChannel<int>("SIM_CONTEST", group);
        sim::Quiet q;
        C->contesting[sim::tid()] = 0;
        if (++C->contest_won[g] > 1)
          sim::fail("C18", "added-twice", "two threads added the same channel to a group and neither was refused");
        sim::probe("contest_won");
        break;
      }
      case kAssign: {
        ChannelGroup& to = C->assigned[op.a[0] & 1];
        ChannelGroup& from = C->assigned[op.a[1] & 1];
        sim::label("assign");
        if (op.a[2] & 1) to = from;
        ChannelGroup c;
        c = (op.a[2] & 2) ? aslam::channels::cloneChannelGroup(to) : ChannelGroup(to);
        sim::label("");
        std::string v[2];
        for (int n = 0; n < 2; ++n)
          if (has(c, n, true)) v[n] = std::to_string(get_value(c, n));
        sim::Quiet q;
        if (!(c.channels_.size() == 1 && v[0] == "111" && v[1] == "") &&
            !(c.channels_.size() == 2 && v[0] == "222" && v[1] == "333"))
          sim::fail("C18", "assignment-mixed", "a group that is only assigned whole groups has %zu channels with '%s' and '%s'",
                    c.channels_.size(), v[0].c_str(), v[1].c_str());
        sim::probe("assigned");
        break;
      }
      case kValues: values(op.a[1]); break;
      case kSleep: sim::advance_time(op.a[0]); break;
    }
  }
}

// ------------------------------------------------------- linearisability
// Does the event agree with `s`?  Applies its effect.
bool apply(const Event& e, State* s) {
  int* v = s->v[e.g];
  switch (e.code) {
    case kAdd:
      if (v[e.n] != kAbsent) return false;
      v[e.n] = kAny;
      return true;
    case kRemove:
      if (v[e.n] == kAbsent) return false;
      v[e.n] = kAbsent;
      return true;
    case kSet:
      if (v[e.n] == kAbsent) return false;
      v[e.n] = e.value;
      return true;
    case kGet: return v[e.n] == kAny || v[e.n] == e.value;
    case kHas: return (v[e.n] != kAbsent) == e.flag;
    case kClone:
      for (int n = 0; n < kNames; ++n)
        if (v[n] == kAny ? e.snap[n] == kAbsent : e.snap[n] != v[n]) return false;
      return true;
    case kList:
      for (int n = 0; n < kNames; ++n)
        if ((v[n] != kAbsent) != (e.snap[n] != kAbsent)) return false;
      return true;
    case kEqual: {
      if (e.g == e.g2) return e.flag;
      const int* w = s->v[e.g2];
      bool any = false, same = true;
      for (int n = 0; n < kNames; ++n) {
        if ((v[n] == kAbsent) != (w[n] == kAbsent)) same = false;
        else if (v[n] == kAny || w[n] == kAny) any = true;
        else if (v[n] != w[n]) same = false;
      }
      if (same && any) return true;
      return e.flag == same;
    }
  }
  return true;
}
struct Checker {
  std::unordered_set<std::string> seen;
  int steps = 0;
  uint64_t all = 0;
  bool gave_up = false;
  bool search(uint64_t done, const State& s) {
    if (done == all) return true;
    if (++steps > 200000) {
      gave_up = true;
      return true;
    }
    std::string key(reinterpret_cast<const char*>(&done), sizeof(done));
    key.append(reinterpret_cast<const char*>(&s), sizeof(s));
    if (!seen.insert(key).second) return false;
    uint64_t first_ret = ~0ull;
    for (int i = 0; i < C->n; ++i)
      if (!(done >> i & 1)) first_ret = std::min(first_ret, C->e[i].ret);
    for (int i = 0; i < C->n; ++i) {
      if ((done >> i & 1) || C->e[i].call > first_ret) continue;
      State t = s;
      if (apply(C->e[i], &t) && search(done | 1ull << i, t)) return true;
    }
    return false;
  }
};
const char* describe(const Event& e, char* buf, size_t n) {
  static const char* const kCode[] = {"?", "add", "remove", "set", "get", "has", "clone", "equal", "list"};
  int k = snprintf(buf, n, "T%d [%llu,%llu] %s group %d", e.thread, (unsigned long long)e.call,
                   (unsigned long long)e.ret, kCode[e.code], e.g);
  if (e.code <= kHas) k += snprintf(buf + k, n - k, " %s", kName[e.n]);
  if (e.code == kSet || e.code == kGet) k += snprintf(buf + k, n - k, " = %d", e.value);
  if (e.code == kHas) k += snprintf(buf + k, n - k, " -> %d", e.flag);
  if (e.code == kEqual) k += snprintf(buf + k, n - k, " with %d -> %d", e.g2, e.flag);
  if (e.code == kClone || e.code == kList)
    for (int i = 0; i < kNames; ++i) k += snprintf(buf + k, n - k, " %d", e.snap[i]);
  return buf;
}

void run(const Plan& plan) {
  sim::set_default_props("C18");
  sim::set_stuck_props("C18");
  C = new Ctx;
  for (int g = 0; g < kMaxGroups; ++g) C->contest_started[g] = C->contest_won[g] = 0;
  for (int& c : C->contesting) c = 0;
  sim::set_abort_callback(on_abort);
  C->groups = static_cast<int>(plan.cfg[kGroups]);
  add(&C->assigned[0], 0, true);
  set_value(C->assigned[0], 0, 111);
  for (int n = 0; n < 2; ++n) {
    add(&C->assigned[1], n, true);
    set_value(C->assigned[1], n, 222 + 111 * n);
  }
  for (int g = 0; g < C->groups; ++g) {
    C->group[g].reset(new ChannelGroup);
    for (int n = 0; n < kNames; ++n) C->init.v[g][n] = kAbsent;
    for (int n = 0; n < kPermanent; ++n) {
      add(C->group[g].get(), n, n & 1);
      set_value(*C->group[g], n, n + 1);
      C->init.v[g][n] = n + 1;
      C->address[g][n] = &aslam::channels::getChannelData<int>(kName[n], *C->group[g]);
    }
  }
  for (int g = C->groups; g < kMaxGroups; ++g)
    for (int n = 0; n < kNames; ++n) C->init.v[g][n] = kAbsent;
  std::vector<std::thread> threads;
  for (int t = 0; t < plan.nthreads; ++t)
    threads.emplace_back([t, &plan]() { body(t, plan.th[t]); });
  for (std::thread& t : threads) t.join();
  sim::Quiet q;
  Checker c;
  c.all = C->n == 64 ? ~0ull : (1ull << C->n) - 1;
  const bool ok = c.search(0, C->init);
  if (c.gave_up) sim::inconclusive("history too large to check");
  if (!ok) {
    static char text[8192];
    int k = 0;
    char line[256];
    for (int i = 0; i < C->n && k < 7800; ++i)
      k += snprintf(text + k, sizeof(text) - k, "\n    %s", describe(C->e[i], line, sizeof(line)));
    sim::fail("C18", "not-atomic", "no order of the operations explains their results:%s", text);
  }
  sim::probe("history_checked");
}

void gen(Rng& r, Plan* p, bool thorough, bool compare) {
  p->add_cfg(compare ? r.range(2, 3) : r.range(1, 2), 1);
  p->nthreads = static_cast<int>(r.range(2, thorough ? 5 : 4));
  for (int t = 0; t < p->nthreads; ++t) {
    const int n = static_cast<int>(r.range(1, thorough ? 10 : 7));
    for (int i = 0; i < n; ++i) {
      const int64_t g = static_cast<int64_t>(r.below(kMaxGroups));
      const int64_t name = static_cast<int64_t>(r.below(kNames));
      const uint64_t w = r.below(24);
      if (compare && w < 2) p->add(t, kValues, 0, static_cast<int64_t>(r.next() >> 1));
      else if (compare && w < 10) p->add(t, kEqual, g, r.below(kMaxGroups));
      else if (w < 5) p->add(t, kAdd, g, r.below(2));
      else if (w < 8) p->add(t, kRemove, g);
      else if (w < 11) p->add(t, kSet, g, name, r.below(2), r.below(6));
      else if (w < 13) p->add(t, kGet, g, name, r.below(2));
      else if (w < 15) p->add(t, kHas, g, name, r.below(2));
      else if (w < 18) p->add(t, kClone, g);
      else if (w < 19) p->add(t, kEqual, g, r.below(kMaxGroups));
      else if (w < 20) p->add(t, kList, g);
      else if (w < 21) p->add(t, kCopy, g, r.below(2));
      else if (w < 22) {
        for (int k = static_cast<int>(r.range(1, 3)); k-- > 0;) p->add(t, kAssign, r.below(2), r.below(2), r.below(4));
      }
      else if (w < 23) p->add(t, kAddress, g, name);
      else p->add(t, kSleep, static_cast<int64_t>(r.below(20000)));
    }
  }
}
void gen_contest(Rng& r, Plan* p, bool th) {
  // Equality is not compared: the contested channel is not part of the model.
  for (int t = 0; t < p->nthreads; ++t)
    for (int i = 0; i < p->th[t].n; ++i)
      if (p->th[t].ops[i].code == kEqual) p->th[t].ops[i].code = kClone;
  const int64_t g = static_cast<int64_t>(r.below(kMaxGroups));
  for (int t = 0; t < p->nthreads; ++t)
    if (r.chance(0.8)) {
      p->add(t, kContest, r.chance(0.8) ? g : r.below(kMaxGroups), r.below(2));
      // Often right at the start, where the threads are together.
      if (r.chance(0.7)) std::swap(p->th[t].ops[0], p->th[t].ops[p->th[t].n - 1]);
    }
}
void gen_mixed(Rng& r, Plan* p, sim::Env*, bool th) {
  gen(r, p, th, false);
  if (r.chance(0.25)) gen_contest(r, p, th);
}
void gen_compare(Rng& r, Plan* p, sim::Env*, bool th) { gen(r, p, th, true); }

const sim::Harness h1 = {"channel_ops", "C18", gen_mixed, run};
const sim::Harness h2 = {"channel_compare", "C18", gen_compare, run};
sim::Registrar r1(&h1), r2(&h2);
}  // namespace
