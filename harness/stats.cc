// Simulated workloads for the statistics and timing registries.
//   C15 no sample is lost or misattributed; consistent concurrent reports
//   C16 durations, intervals and rates under wall clock jumps
#include <aslam/common/statistics/statistics.h>
#include <aslam/common/timer.h>

#include <cmath>
#include <cstdio>
#include <cstring>
#include <memory>
#include <sstream>
#include <string>
#include <thread>
#include <vector>

#include "simrt.h"

namespace {
using sim::Op;
using sim::Plan;
using sim::Rng;
using statistics::Statistics;
using timing::Timing;

enum OpCode {
  kAdd = 1,   // tag, times, by (0: collector of this thread, 1: fresh from tag, 2: from handle)
  kQuery,     // tag, what
  kPrint,
  kYaml,
  kLookup,    // tag
  kTime,      // tag, simulated ns, mode
  kReset,
  kSleep,
  kBulk,      // tag, times, simulated ns: more timings than the window of 100 holds
};
enum CfgIdx { kSubject = 0, kTags, kHasReset, kDisk, kValues, kNumCfg };
const size_t kWindow = 100;
const char* const kTagNames[] = {"alpha", "b:eta#1", "x", "gamma_long_tag_name", "two words", "de/lta", "epsilon.x"};
const int kMaxTags = 7;
const int kMaxAdds = 1024;

struct Add {
  int tag;
  size_t handle;
  double value;
  uint64_t call, ret;
  int64_t call_ns, ret_ns;
};
struct Ctx {
  int tags = 1;
  bool timing = false;
  bool has_reset = false;
  Add adds[kMaxAdds];
  int n = 0;
  uint64_t registered[kMaxTags] = {0};  // stamp of the first completed registration
  uint64_t mentioned[kMaxTags] = {0};   // stamp of the first registration attempt
  size_t handle[kMaxTags];
  bool reset_done = false;
  size_t max_handle = 0;
  double next_value = 1;
  int values = 0;
  int threads = 0;
  int64_t start_ns = 0;
};
Ctx* C = nullptr;

void mention(int tag) {
  sim::Quiet q;
  if (!C->mentioned[tag]) C->mentioned[tag] = sim::stamp();
}
void registered(int tag, size_t h) {
  sim::Quiet q;
  if (!C->has_reset) {
    if (C->registered[tag] && C->handle[tag] != h)
      sim::fail("C15", "handle-changed", "tag '%s' has the handles %zu and %zu", kTagNames[tag],
                C->handle[tag], h);
    for (int i = 0; i < C->tags; ++i)
      if (i != tag && C->registered[i] && C->handle[i] == h)
        sim::fail("C15", "handle-shared", "tags '%s' and '%s' share the handle %zu", kTagNames[tag],
                  kTagNames[i], h);
    C->handle[tag] = h;
  }
  if (!C->registered[tag]) C->registered[tag] = sim::stamp();
  if (h > C->max_handle) C->max_handle = h;
}
int begin_add(int tag, double v) {
  sim::Quiet q;
  if (C->n >= kMaxAdds) sim::inconclusive("too many samples");
  C->adds[C->n] = Add{tag, 0, v, sim::stamp(), 0, sim::now_ns(), 0};
  return C->n++;
}
void end_add(int i, size_t handle) {
  sim::Quiet q;
  C->adds[i].handle = handle;
  C->adds[i].ret = sim::stamp();
  C->adds[i].ret_ns = sim::now_ns();
}

// ------------------------------------------------- uniform access
size_t get_handle(int tag) {
  mention(tag);
  const size_t h = C->timing ? Timing::GetHandle(kTagNames[tag]) : Statistics::GetHandle(kTagNames[tag]);
  registered(tag, h);
  return h;
}
size_t num_samples(size_t h) {
  return C->timing ? Timing::GetNumSamples(h) : Statistics::GetNumSamples(h);
}
double total(size_t h) {
  return C->timing ? Timing::GetTotalSeconds(h) : Statistics::GetTotal(h);
}
double mean(size_t h) { return C->timing ? Timing::GetMeanSeconds(h) : Statistics::GetMean(h); }
double minimum(size_t h) { return C->timing ? Timing::GetMinSeconds(h) : Statistics::GetMin(h); }
double maximum(size_t h) { return C->timing ? Timing::GetMaxSeconds(h) : Statistics::GetMax(h); }
double variance(size_t h) {
  return C->timing ? Timing::GetVarianceSeconds(h) : Statistics::GetVariance(h);
}
std::string tag_of(size_t h) { return C->timing ? Timing::GetTag(h) : Statistics::GetTag(h); }

bool close(double a, double b) {
  return std::fabs(a - b) <= 1e-9 * (1.0 + std::fabs(a) + std::fabs(b));
}

struct Bounds {
  size_t lo = 0, hi = 0;
  double lo_sum = 0, hi_sum = 0;
};
// Adds completed before `call` count for sure, adds invoked before now may.
Bounds bounds(int tag, uint64_t call) {
  Bounds b;
  for (int i = 0; i < C->n; ++i) {
    if (C->adds[i].tag != tag) continue;
    ++b.hi;
    const double v = C->adds[i].value;
    const bool sure = C->adds[i].ret && C->adds[i].ret < call;
    if (sure) ++b.lo;
    if (sure || v > 0) b.hi_sum += v;
    if (sure || v < 0) b.lo_sum += v;
  }
  return b;
}

void query(int tag, int what) {
  const size_t h = get_handle(tag);
  uint64_t call;
  {
    sim::Quiet q;
    call = sim::stamp();
  }
  switch (what % 6) {
    case 0: {
      const size_t n = num_samples(h);
      sim::Quiet q;
      if (C->has_reset) return;
      const Bounds b = bounds(tag, call);
      if (n < b.lo || n > b.hi)
        sim::fail("C15", "wrong-count", "tag '%s' reports %zu samples, expected %zu to %zu",
                  kTagNames[tag], n, b.lo, b.hi);
      break;
    }
    case 1: {
      const double s = total(h);
      sim::Quiet q;
      if (C->has_reset || C->timing) return;
      const Bounds b = bounds(tag, call);
      if (s < b.lo_sum - 1e-6 || s > b.hi_sum + 1e-6)
        sim::fail("C15", "wrong-sum", "tag '%s' reports the sum %f, expected %f to %f",
                  kTagNames[tag], s, b.lo_sum, b.hi_sum);
      break;
    }
    case 2: {
      if (C->timing) return;
      const double v = Statistics::GetLastValue(h);
      sim::Quiet q;
      if (C->has_reset) return;
      const Bounds b = bounds(tag, call);
      if (v == 0 && b.lo == 0) return;
      for (int i = 0; i < C->n; ++i) {
        const Add& a = C->adds[i];
        if (a.tag != tag || a.value != v) continue;
        bool superseded = false;
        for (int j = 0; j < C->n; ++j) {
          const Add& o = C->adds[j];
          superseded |= o.tag == tag && a.ret && o.call > a.ret && o.ret && o.ret < call;
        }
        if (superseded)
          sim::fail("C15", "stale-last", "the last value of '%s' is %f, which was superseded",
                    kTagNames[tag], v);
        return;
      }
      sim::fail("C15", "wrong-last", "the last value of '%s' is %f, which was never added",
                kTagNames[tag], v);
    }
    case 3: {
      const double mn = minimum(h), mx = maximum(h);
      sim::Quiet q;
      if (C->has_reset || C->timing) return;
      double lo_min = 1e300, hi_min = 1e300, hi_max = -1e300, lo_max = -1e300;
      for (int i = 0; i < C->n; ++i) {
        const Add& a = C->adds[i];
        if (a.tag != tag) continue;
        lo_min = std::min(lo_min, a.value);
        hi_max = std::max(hi_max, a.value);
        if (a.ret && a.ret < call) {
          hi_min = std::min(hi_min, a.value);
          lo_max = std::max(lo_max, a.value);
        }
      }
      if (lo_max > -1e299 && (mn < lo_min || mn > hi_min || mx > hi_max || mx < lo_max))
        sim::fail("C15", "wrong-extremes", "tag '%s' reports [%f, %f]", kTagNames[tag], mn, mx);
      break;
    }
    case 4: {
      const double m = mean(h);
      sim::Quiet q;
      if (std::isnan(m)) sim::fail("C15", "nan-mean", "the mean of '%s' is NaN", kTagNames[tag]);
      break;
    }
    case 5: {
      const std::string t = tag_of(h);
      sim::Quiet q;
      if (!C->has_reset && t != kTagNames[tag])
        sim::fail("C15", "wrong-tag", "handle %zu of '%s' maps to '%s'", h, kTagNames[tag], t.c_str());
      break;
    }
  }
}

// First integer behind `label` at the start of a line.
bool line_count(const std::string& text, const std::string& label, size_t* n, std::string* rest) {
  size_t at = 0;
  while (at < text.size()) {
    size_t e = text.find('\n', at);
    if (e == std::string::npos) e = text.size();
    const std::string line = text.substr(at, e - at);
    at = e + 1;
    if (line.compare(0, label.size(), label) != 0) continue;
    if (line.size() > label.size() && line[label.size()] != ' ' && line[label.size()] != '\t') continue;
    const char* p = line.c_str() + label.size();
    while (*p == ' ' || *p == '\t') ++p;
    if (*p < '0' || *p > '9') return false;
    *n = strtoul(p, nullptr, 10);
    *rest = p;
    return true;
  }
  return false;
}
void print_report() {
  uint64_t call;
  {
    sim::Quiet q;
    call = sim::stamp();
  }
  const std::string text = C->timing ? Timing::Print() : Statistics::Print();
  sim::Quiet q;
  sim::probe("report_printed");
  if (C->has_reset) return;
  for (int t = 0; t < C->tags; ++t) {
    if (!C->registered[t] || C->registered[t] > call) continue;
    size_t n = 0;
    std::string rest;
    if (!line_count(text, kTagNames[t], &n, &rest))
      sim::fail("C15", "report-incomplete", "the report does not list '%s':\n%s", kTagNames[t],
                text.c_str());
    const Bounds b = bounds(t, call);
    if (n < b.lo || n > b.hi)
      sim::fail("C15", "report-count", "the report lists %zu samples of '%s', expected %zu to %zu", n,
                kTagNames[t], b.lo, b.hi);
  }
}
void yaml_report(const char* path) {
  sim::probe("yaml_written");
  if (C->timing)
    Timing::WriteToYamlFile(path);
  else
    Statistics::WriteToYamlFile(path);
}

bool about(double a, double b, double abs) { return std::fabs(a - b) <= abs + 2e-5 * std::fabs(b); }
// Reads a number or a time of the form hours:minutes:seconds.
bool number(const char** p, double* v) {
  while (**p && !strchr("0123456789-+.", **p)) ++*p;
  while (**p == '+' && (*p)[1] == '-') *p += 2;
  while (**p == ' ') ++*p;
  char* e = nullptr;
  *v = strtod(*p, &e);
  if (e == *p) return false;
  while (*e == ':') {
    const char* from = e + 1;
    *v = *v * 60 + strtod(from, &e);
    if (e == from) return false;
  }
  *p = e;
  return true;
}
// The values that a report and a report file give when nobody records.
void check_values(const char* where, const std::string& text, int t, size_t n, const double* expect, const double* abs, int count) {
  const char* p = text.c_str();
  double got = 0;
  if (!number(&p, &got) || got != static_cast<double>(n))
    sim::fail("C15", "report-count", "the %s gives %g samples of '%s' instead of %zu", where, got, kTagNames[t], n);
  for (int i = 0; i < count; ++i) {
    if (!number(&p, &got)) sim::fail("C15", "report-values", "the %s lacks values of '%s': %s", where, kTagNames[t], text.c_str());
    if (std::isnan(expect[i])) continue;
    if (!about(got, expect[i], abs[i]))
      sim::fail("C15", "report-values", "value %d that the %s gives for '%s' is %g instead of %g: %s", i, where, kTagNames[t], got, expect[i],
                text.c_str());
  }
}

void time_something(int tag, int64_t ns, int mode) {
  const int add = mode == 3 ? -1 : begin_add(tag, 0);
  mention(tag);
  double d = 0;
  int64_t t0, t1, t2, t3;
  size_t handle;
  double before = 0;
  // Only a single thread can tell what the destructor of a timer recorded.
  const bool by_destructor = mode == 4 && C->threads == 1;
  if (mode == 4) before = Timing::GetTotalSeconds(get_handle(tag));
  auto now = []() {
    sim::Quiet q;
    return sim::now_ns();
  };
  t0 = now();
  std::unique_ptr<timing::TimerImpl> owner(new timing::TimerImpl(kTagNames[tag], mode == 1 || mode == 2));
  timing::TimerImpl& timer = *owner;
  if (mode != 1 && mode != 2 && !timer.IsTiming())
    sim::fail("C16", "timer-not-started", "a timer constructed running is not running");
  handle = timer.GetHandle();
  registered(tag, handle);
  if (mode == 1 || mode == 2) {
    if (timer.IsTiming()) sim::fail("C16", "timer-started", "a timer constructed stopped is running");
    sim::advance_time(ns / 2);
    t0 = now();
    timer.Start();
  }
  t1 = now();
  if (ns) sim::advance_time(ns);
  if (mode == 2) {  // restarting discards what ran so far
    t0 = now();
    timer.Start();
    t1 = now();
    sim::advance_time(ns / 3);
  }
  if (mode == 3) {
    timer.Discard();
    sim::probe("timer_discarded");
    if (timer.IsTiming()) sim::fail("C16", "timer-running", "a discarded timer is running");
    const double r = timer.Stop();
    if (r != 0) sim::fail("C16", "discarded-duration", "a discarded timer reports %f s", r);
    return;
  }
  t2 = now();
  if (by_destructor) {
    owner.reset();
    t3 = now();
    d = Timing::GetTotalSeconds(handle) - before;
    sim::probe("timer_destroyed_running");
  } else {
    d = timer.Stop();
    t3 = now();
  }
  {
    sim::Quiet q;
    C->adds[add].value = d;
    sim::note("timer %s: %g s", kTagNames[tag], d);
    const double slack = (1 + 2 * (sim::clock_resolution() - 1)) * 1e-9 + 1e-9 * static_cast<double>(t3 - t0) * 1e-9 +
                         1e-14 * before;
    if (d < -1e-14 * before)
      sim::fail("C16", "negative-duration",
                "a timer reports %.9f s; between %.9f and %.9f s elapsed", d, (t2 - t1) * 1e-9,
                (t3 - t0) * 1e-9);
    if (d < (t2 - t1) * 1e-9 - slack || d > (t3 - t0) * 1e-9 + slack)
      sim::fail("C16", "wrong-duration",
                "a timer reports %.9f s; between %.9f and %.9f s elapsed", d, (t2 - t1) * 1e-9,
                (t3 - t0) * 1e-9);
    sim::probe("timer_stopped");
  }
  end_add(add, handle);
  if (by_destructor) return;
  if (timer.IsTiming()) sim::fail("C16", "timer-running", "a stopped timer is running");
  if (timer.Stop() != 0) sim::fail("C16", "stopped-twice", "a second Stop() reports a duration");
}

void body(int me, const sim::PlanThread& ops) {
  std::vector<statistics::StatsCollectorImpl> mine;
  std::vector<int> mine_tag;
  for (int i = 0; i < ops.n; ++i) {
    const Op& op = ops.ops[i];
    const int tag = static_cast<int>(op.a[0]) % C->tags;
    switch (op.code) {
      case kAdd: {
        if (C->timing) {
          time_something(tag, op.a[1] * 100, 0);
          break;
        }
        for (int k = 0; k < op.a[1]; ++k) {
          double v;
          {
            sim::Quiet q;
            v = C->next_value++;
            if (C->values == 1 || (C->values == 2 && static_cast<int64_t>(v) % 3 == 0)) v = -v;
            if (C->values == 3) v = 1e6 - 0.25 * v;
          }
          const int add = begin_add(tag, v);
          mention(tag);
          size_t h = 0;
          if (op.a[2] == 0) {
            size_t j = 0;
            while (j < mine.size() && mine_tag[j] != tag) ++j;
            if (j == mine.size()) {
              mine.emplace_back(std::string(kTagNames[tag]));
              mine_tag.push_back(tag);
            }
            h = mine[j].GetHandle();
            mine[j].AddSample(v);
          } else if (op.a[2] == 1) {
            statistics::StatsCollectorImpl c{std::string(kTagNames[tag])};
            h = c.GetHandle();
            c.AddSample(v);
          } else {
            h = Statistics::GetHandle(kTagNames[tag]);
            statistics::StatsCollectorImpl c{h};
            c.AddSample(v);
          }
          end_add(add, h);
          registered(tag, h);
        }
        break;
      }
      case kQuery: query(tag, static_cast<int>(op.a[1])); break;
      case kPrint: print_report(); break;
      case kYaml: {
        const std::string path = std::string(SIM_DISK_ROOT "report") + std::to_string(me) + ".yaml";
        yaml_report(path.c_str());
        break;
      }
      case kLookup: {
        if (C->timing) {
          get_handle(tag);
          break;
        }
        uint64_t call, known;
        {
          sim::Quiet q;
          call = sim::stamp();
          known = C->registered[tag];
        }
        const bool has = Statistics::HasHandle(kTagNames[tag]);
        sim::Quiet q;
        if (!C->has_reset && known && known < call && !has)
          sim::fail("C15", "tag-lost", "tag '%s' is not known any more", kTagNames[tag]);
        if (has && !C->mentioned[tag])
          sim::fail("C15", "tag-invented", "tag '%s' is known but was never registered", kTagNames[tag]);
        break;
      }
      case kTime: if (C->timing) time_something(tag, op.a[1], static_cast<int>(op.a[2])); break;
      case kBulk:
        for (int k = 0; k < op.a[1]; ++k) time_something(tag, op.a[2] * (1 + k / 50), 0);
        break;
      case kReset:
        if (!C->has_reset) break;
        if (C->timing) Timing::Reset(); else Statistics::Reset();
        sim::probe("reset");
        break;
      case kSleep: sim::advance_time(op.a[0]); break;
    }
  }
}

void check_intervals() {
  if (C->timing) return;
  for (int t = 0; t < C->tags; ++t) {
    if (!C->registered[t] || C->has_reset) continue;
    const size_t h = C->handle[t];
    const double v[5] = {Statistics::GetLastDeltaTime(h), Statistics::GetMeanDeltaTime(h),
                         Statistics::GetMinDeltaTime(h), Statistics::GetMaxDeltaTime(h),
                         Statistics::GetVarianceDeltaTime(h)};
    const double hz = Statistics::GetHz(h);
    const size_t n = Statistics::GetNumSamples(h);
    sim::Quiet q;
    if (n < 2) continue;
    const double life = (sim::now_ns() - C->start_ns + 2 * sim::clock_resolution()) * 1e-9;
    for (int i = 0; i < 4; ++i)
      if (!(v[i] >= 0) || v[i] > life)
        sim::fail("C16", "wrong-interval",
                  "time between two samples of '%s' is reported as %.9f s", kTagNames[t], v[i]);
    if (v[1] != 0 ? !(hz > 0) || !close(hz * v[1], 1.0) : hz != -1.0)
      sim::fail("C16", "wrong-rate", "sample rate of '%s' is %f with a mean interval of %f s",
                kTagNames[t], hz, v[1]);
    if (v[2] > v[1] + 1e-9 || v[1] > v[3] + 1e-9 || v[0] > v[3] + 1e-9 || v[0] < v[2] - 1e-9)
      sim::fail("C16", "inconsistent-intervals", "intervals of '%s': last %f mean %f min %f max %f",
                kTagNames[t], v[0], v[1], v[2], v[3]);
    // All intervals together span the time from the first to the last sample.
    int64_t min_call = INT64_MAX, min_ret = INT64_MAX, max_call = INT64_MIN, max_ret = INT64_MIN;
    size_t count = 0;
    for (int i = 0; i < C->n; ++i) {
      const Add& a = C->adds[i];
      if (a.tag != t) continue;
      ++count;
      min_call = std::min(min_call, a.call_ns);
      max_call = std::max(max_call, a.call_ns);
      min_ret = std::min(min_ret, a.ret_ns);
      max_ret = std::max(max_ret, a.ret_ns);
    }
    if (count == n) {
      const double span = v[1] * static_cast<double>(n - 1);
      const double slack = 2e-9 * static_cast<double>(n + sim::clock_resolution()) + 1e-9 * life;
      if (span < (max_call - min_ret) * 1e-9 - slack || span > (max_ret - min_call) * 1e-9 + slack)
        sim::fail("C16", "wrong-span",
                  "the %zu intervals of '%s' add up to %.9f s; between %.9f and %.9f s passed from "
                  "the first to the last sample", n - 1, kTagNames[t], span,
                  (max_call - min_ret) * 1e-9, (max_ret - min_call) * 1e-9);
      sim::probe("span_checked");
    }
    sim::probe("intervals_checked");
  }
}

void check_final(const Plan& plan) {
  // Per handle: nothing lost, nothing attributed to somebody else.
  std::vector<size_t> handles;
  {
    sim::Quiet q;
    for (int i = 0; i < C->n; ++i) {
      bool seen = false;
      for (size_t h : handles) seen |= h == C->adds[i].handle;
      if (!seen && C->adds[i].ret) handles.push_back(C->adds[i].handle);
    }
  }
  for (size_t h : handles) {
    size_t n = 0;
    double sum = 0, mn = 1e300, mx = -1e300;
    std::vector<double> all;
    bool ordered = true;
    uint64_t last_ret = 0;
    {
      sim::Quiet q;
      for (int i = 0; i < C->n; ++i) {
        if (C->adds[i].handle != h || !C->adds[i].ret) continue;
        ++n;
        sum += C->adds[i].value;
        mn = std::min(mn, C->adds[i].value);
        mx = std::max(mx, C->adds[i].value);
        all.push_back(C->adds[i].value);
        ordered &= C->adds[i].call > last_ret;
        last_ret = C->adds[i].ret;
      }
    }
    const size_t rn = num_samples(h);
    const double rs = total(h), rm = mean(h), rmin = minimum(h), rmax = maximum(h), rv = variance(h);
    const double hz = C->timing ? Timing::GetHz(h) : 0;
    sim::Quiet q;
    if (rn != n)
      sim::fail("C15", "lost-samples", "handle %zu has %zu samples instead of %zu", h, rn, n);
    if (!close(rs, sum) || !close(rm, sum / n) || !close(rmin, mn) || !close(rmax, mx))
      sim::fail("C15", "wrong-aggregate",
                "handle %zu: sum %f mean %f min %f max %f, expected %f %f %f %f", h, rs, rm, rmin, rmax,
                sum, sum / n, mn, mx);
    // Deviations and rates are those of the last 100 samples.
    if (n <= kWindow || ordered) {
      if (n > kWindow) {
        all.erase(all.begin(), all.end() - kWindow);
        sim::probe("window_checked");
      }
      double m = 0, var = 0;
      for (double v : all) m += v;
      m /= all.size();
      for (double v : all) var += (v - m) * (v - m);
      var = n < 2 ? 0 : var / (all.size() - 1);
      if (!(std::fabs(var - rv) <= 1e-6 * (1 + var)))
        sim::fail("C15", "wrong-variance", "handle %zu: variance %f instead of %f", h, rv, var);
      // The sum is kept incrementally.
      const double noise = 1e-13 * (sum + 1);
      if (C->timing && (m * hz < 1 - noise / m || m * hz > 1 + noise / m))
        sim::fail("C16", "wrong-timer-rate", "handle %zu: rate %f per s with a mean duration of %.12f s", h, hz, m);
    } else if (!(rv >= 0)) {
      sim::fail("C15", "wrong-variance", "handle %zu: variance %f", h, rv);
    }
    sim::probe("totals_checked");
  }
  check_intervals();
  if (!C->has_reset) {
    print_report();
    const char* path = SIM_DISK_ROOT "final.yaml";
    // Over what an earlier report left there.
    yaml_report(path);
    const int before = sim::disk::hard_errors();
    yaml_report(path);
    const std::string printed = C->timing ? Timing::Print() : Statistics::Print();
    for (int t = 0; t < C->tags; ++t) {
      size_t n = 0, h;
      double sum = 0, mn = 1e300, mx = -1e300;
      {
        sim::Quiet q;
        if (!C->registered[t]) continue;
        h = C->handle[t];
        for (int i = 0; i < C->n; ++i) {
          const double v = C->adds[i].value;
          if (C->adds[i].tag != t) continue;
          ++n;
          sum += v;
          mn = std::min(mn, v);
          mx = std::max(mx, v);
        }
      }
      if (!n) continue;
      // The variance was checked above.
      const double dev = std::sqrt(variance(h));
      const double hz = C->timing ? 0 : Statistics::GetHz(h);
      sim::Quiet q;
      const double nan = std::numeric_limits<double>::quiet_NaN();
      const double mean = sum / n;
      const double noise = 1e-9 * (std::fabs(mn) + std::fabs(mx));
      size_t k = 0;
      std::string rest;
      if (!line_count(printed, kTagNames[t], &k, &rest))
        sim::fail("C15", "report-incomplete", "the report does not list '%s':\n%s", kTagNames[t], printed.c_str());
      if (C->timing) {
        const double expect[] = {sum, mean, dev, mn, mx};
        const double abs[] = {2e-6, 2e-6, 2e-6, 2e-6, 2e-6};
        check_values("report", rest, t, n, expect, abs, 5);
      } else {
        const double expect[] = {std::isfinite(hz) ? hz : nan, mean, dev, mn, mx};
        const double abs[] = {1e-9, noise, noise, 0, 0};
        check_values("report", rest, t, n, expect, abs, 5);
      }
      if (sim::disk::hard_errors() != before) continue;
      if (!sim::disk::exists(path)) sim::fail("C15", "no-report", "no report file was written");
      const std::string text(reinterpret_cast<const char*>(sim::disk::data(path)),
                             static_cast<size_t>(sim::disk::size(path)));
      std::string label = kTagNames[t];
      for (char& c : label)
        if (c == ':' || c == '#') c = '_';
      label = "\n" + label + ":\n";
      const std::string all = "\n" + text;
      const size_t at = all.find(label);
      if (at == std::string::npos || all.find(label, at + 1) != std::string::npos)
        sim::fail("C15", "report-file", "the report file does not list '%s' once:\n%s", kTagNames[t], text.c_str());
      const std::string entry = all.substr(at + label.size());
      if (C->timing) {
        const double expect[] = {sum, mean, dev, mn, mx};
        // What a destroyed timer recorded is known as a difference of sums only.
        const double fuzz = noise + 1e-13 * sum;
        const double abs[] = {fuzz, fuzz, fuzz, fuzz, fuzz};
        check_values("report file", entry, t, n, expect, abs, 5);
      } else {
        const double expect[] = {mean, dev, mn, mx};
        const double abs[] = {noise, noise, 0, 0};
        check_values("report file", entry, t, n, expect, abs, 4);
      }
      sim::probe("report_file_checked");
    }
  }
  // A reset forgets all tags; new registrations start from nothing.
  if (C->timing) Timing::Reset(); else Statistics::Reset();
  const std::string empty = C->timing ? Timing::Print() : Statistics::Print();
  if (!empty.empty()) sim::fail("C15", "reset-incomplete", "a report after a reset is not empty");
  const size_t h = C->timing ? Timing::GetHandle(kTagNames[0]) : Statistics::GetHandle(kTagNames[0]);
  if (num_samples(h) != 0)
    sim::fail("C15", "reset-incomplete", "a tag registered after a reset has %zu samples", num_samples(h));
}

void run(const Plan& plan) {
  sim::set_default_props("C15");
  sim::set_stuck_props("C15");
  C = new Ctx;
  C->timing = plan.cfg[kSubject] != 0;
  C->start_ns = sim::now_ns();
  C->threads = plan.nthreads;
  C->tags = static_cast<int>(plan.cfg[kTags]);
  C->has_reset = plan.cfg[kHasReset] != 0;
  C->values = static_cast<int>(plan.cfg[kValues]);
  sim::disk::set_mode(static_cast<int>(plan.cfg[kDisk]), 1 << 20);
  std::vector<std::thread> threads;
  for (int t = 0; t < plan.nthreads; ++t)
    threads.emplace_back([t, &plan]() { body(t, plan.th[t]); });
  for (std::thread& t : threads) t.join();
  check_final(plan);
}

void gen_registry(Rng& r, Plan* p, sim::Env* env, bool thorough) {
  env->io_faults = r.chance(0.3);
  env->clock_jumps = r.chance(0.2);
  env->coarse_clock = r.chance(0.2);
  const bool timing = r.chance(0.4);
  p->add_cfg(timing, 0);
  p->add_cfg(r.range(1, kMaxTags), 1);
  p->add_cfg(r.chance(0.15), 0);
  p->add_cfg(env->io_faults ? r.range(1, 2) : 0, 0);
  p->add_cfg(r.range(0, 3), 0);
  p->nthreads = static_cast<int>(r.range(1, thorough ? 5 : 4));
  const bool many = r.chance(0.15);
  for (int t = 0; t < p->nthreads; ++t) {
    const int n = static_cast<int>(r.range(1, thorough ? 14 : 8));
    for (int i = 0; i < n; ++i) {
      const int64_t tag = static_cast<int64_t>(r.below(kMaxTags));
      const uint64_t w = r.below(20);
      if (w < 8)
        p->add(t, kAdd, tag, timing ? r.range(0, 100) : (many && r.chance(0.3) ? r.range(60, 130) : r.range(1, 3)), r.below(3));
      else if (w < 12) p->add(t, kQuery, tag, r.below(6));
      else if (w < 14) p->add(t, kPrint);
      else if (w < 15) p->add(t, kYaml);
      else if (w < 17) p->add(t, kLookup, tag);
      else if (w < 18) p->add(t, kReset);
      else p->add(t, kSleep, static_cast<int64_t>(r.below(20000)));
    }
  }
}
void gen_clock(Rng& r, Plan* p, sim::Env* env, bool thorough) {
  env->clock_jumps = r.chance(0.85);
  env->coarse_clock = r.chance(0.1);
  const bool timing = r.chance(0.6);
  p->add_cfg(timing, 0);
  p->add_cfg(r.range(1, 3), 1);
  p->add_cfg(0, 0);
  p->add_cfg(0, 0);
  p->add_cfg(r.range(0, 3), 0);
  p->nthreads = static_cast<int>(r.range(1, 3));
  for (int t = 0; t < p->nthreads; ++t) {
    const int n = static_cast<int>(r.range(1, thorough ? 14 : 7));
    for (int i = 0; i < n; ++i) {
      const int64_t tag = static_cast<int64_t>(r.below(3));
      const uint64_t w = r.below(10);
      static const int64_t kNs[] = {0, 1, 1000, 50000, 1000000, 1000000000, 60000000000ll, 86400000000000ll};
      if (timing && r.chance(0.03))
        p->add(t, kBulk, tag, r.range(95, 160), r.range(1, 100000));
      else if (timing && w < 7)
        p->add(t, kTime, tag, kNs[r.below(8)], r.below(5));
      else if (w < (timing ? 8 : 6))
        p->add(t, kAdd, tag, 1, r.below(3));
      else
        p->add(t, kSleep, kNs[r.below(8)]);
    }
  }
}

void run_clock(const Plan& plan) {
  run(plan);
}

const sim::Harness h1 = {"stats_registry", "C15,C16", gen_registry, run};
const sim::Harness h2 = {"stats_clock", "C15,C16", gen_clock, run_clock};
sim::Registrar r1(&h1), r2(&h2);
}  // namespace
