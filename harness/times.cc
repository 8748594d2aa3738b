// Simulated workloads for time stamps.
//   C38 a time stamp names the same instant in every form
#include <algorithm>
#include <cinttypes>
#include <cmath>
#include <cstdlib>
#include <limits>
#include <memory>
#include <new>
#include <string>
#include <thread>
#include <vector>

#include <aslam/common/time.h>  // needs <string> and <limits>

#include "simrt.h"

namespace {
namespace at = aslam::time;
using sim::Op;
using sim::Plan;
using sim::Rng;
typedef long double Real;

enum OpCode {
  kNow = 1,   // reads the clock
  kSleep,     // ns
  kConvert,   // seed
  kText,      // seed
  kOrder,     // seed: conversions of two times
};
enum CfgIdx { kAlloc = 0 };
const Real kUnit[] = {1e9L, 1e6L, 1e3L};
const char* const kUnitNames[] = {"seconds", "milliseconds", "microseconds"};
double to(int u, int64_t v) { return u == 0 ? at::to_seconds(v) : u == 1 ? at::to_milliseconds(v) : at::to_microseconds(v); }
int64_t from(int u, double v) { return u == 0 ? at::from_seconds(v) : u == 1 ? at::from_milliseconds(v) : at::from_microseconds(v); }

// Times of any size and sign, often near a power of ten.
int64_t random_time(Rng& r) {
  int64_t v;
  switch (r.below(4)) {
    case 0: v = static_cast<int64_t>(r.next() >> (1 + r.below(62))); break;
    case 1: {
      v = 1;
      for (uint64_t i = r.below(19); i > 0; --i) v *= 10;
      v += static_cast<int64_t>(r.below(5)) - 2;
      break;
    }
    case 2: v = sim::wall_ns() + static_cast<int64_t>(r.below(2000000000)) - 1000000000; break;
    default: v = static_cast<int64_t>(r.below(1000)) * 1000000000 + static_cast<int64_t>(r.below(2) ? r.below(20) : r.below(1000000000)); break;
  }
  return r.chance(0.3) ? -v : v;
}
void now(int64_t* last_end, int64_t* last_mono) {
  const int64_t mono = sim::now_ns();
  const int64_t v = at::nanoSecondsSinceEpoch();
  const int64_t after = sim::wall_ns(), passed = sim::now_ns() - mono;
  if (v > after || v < after - passed - 2 * sim::clock_resolution())
    sim::fail("C38", "now", "the time is %" PRId64 " ns although the clock says %" PRId64, v, after);
  if (!at::isValidTime(v)) sim::fail("C38", "valid", "the current time is invalid");
  if (*last_mono >= 0 && after != *last_end + (sim::now_ns() - *last_mono)) sim::probe("after_jump");
  *last_end = after;
  *last_mono = sim::now_ns();
  sim::probe("now");
}
void convert(Rng& r) {
  const int64_t v = random_time(r);
  for (int u = 0; u < 3; ++u) {
    const double d = to(u, v);
    const Real exact = static_cast<Real>(v) / kUnit[u];
    if (!(std::fabs(static_cast<Real>(d) - exact) <= 4e-16L * std::fabs(exact))) sim::fail("C38", "to", "%" PRId64 " ns are %.17g %s", v, d, kUnitNames[u]);
    if (std::fabs(static_cast<Real>(v)) < 9.2e18L) {
      const int64_t back = from(u, d);
      if (!(std::fabs(static_cast<Real>(back) - static_cast<Real>(v)) <= 1 + 8e-16L * std::fabs(static_cast<Real>(v))))
        sim::fail("C38", "back", "%" PRId64 " ns are %.17g %s, which are %" PRId64 " ns", v, d, kUnitNames[u], back);
    }
  }
  if (at::nanoSecondsToSeconds(v) != to(0, v)) sim::fail("C38", "alias", "two ways to get seconds differ");
  // Any number of units.
  const double x = (static_cast<double>(r.next() >> 11) / 9007199254740992.0 - 0.5) * std::pow(10, static_cast<double>(r.below(20)) - 9);
  for (int u = 0; u < 3; ++u) {
    const Real exact = static_cast<Real>(x) * kUnit[u];
    if (std::fabs(exact) > 9e18L) continue;
    const int64_t n = from(u, x);
    if (!(std::fabs(static_cast<Real>(n) - exact) <= 1 + 4e-16L * std::fabs(exact))) sim::fail("C38", "from", "%.17g %s are %" PRId64 " ns", x, kUnitNames[u], n);
    if (u == 0 && at::secondsToNanoSeconds(x) != n) sim::fail("C38", "alias", "two ways to convert seconds differ");
  }
  // Whole units are exact.
  const int64_t whole = static_cast<int64_t>(r.below(9000000000ull)) * (r.chance(0.5) ? 1 : -1);
  if (at::seconds(whole) != whole * 1000000000 || at::milliseconds(whole) != whole * 1000000 || at::microseconds(whole) != whole * 1000 || at::nanoseconds(v) != v)
    sim::fail("C38", "whole", "%" PRId64 " whole units are converted wrongly", whole);
  if (from(2, static_cast<double>(whole)) != whole * 1000) sim::fail("C38", "whole", "%" PRId64 " microseconds are %" PRId64 " ns", whole, from(2, static_cast<double>(whole)));
  if (at::isValidTime(v) != (v != std::numeric_limits<int64_t>::min()) || at::isValidTime(at::getInvalidTime())) sim::fail("C38", "valid", "a time is confused with an invalid one");
  sim::probe("converted");
}
void order(Rng& r) {
  int64_t a = random_time(r), b = r.chance(0.5) ? random_time(r) : a + static_cast<int64_t>(r.below(3000));
  if (b < a) std::swap(a, b);
  for (int u = 0; u < 3; ++u)
    if (to(u, a) > to(u, b)) sim::fail("C38", "order", "%" PRId64 " ns come after %" PRId64 " ns in %s", a, b, kUnitNames[u]);
  sim::probe("order");
}
// What a text says, or false.
bool parse(const std::string& s, __int128* out) {
  size_t i = 0;
  const bool negative = i < s.size() && s[i] == '-';
  if (negative) ++i;
  const auto digits = [&](__int128* v) {
    const size_t begin = i;
    *v = 0;
    while (i < s.size() && s[i] >= '0' && s[i] <= '9') *v = *v * 10 + (s[i++] - '0');
    return i - begin;
  };
  __int128 first = 0, second = 0;
  if (!digits(&first)) return false;
  if (s.compare(i, 2, "s ") == 0) {
    i += 2;
    if (digits(&second) != 9) return false;
    second += first * 1000000000;
  } else {
    second = first;
  }
  if (s.compare(i, std::string::npos, "ns") != 0) return false;
  *out = negative ? -second : second;
  return true;
}
void text(Rng& r, bool faults) {
  const int64_t v = r.chance(0.02) ? std::numeric_limits<int64_t>::min() : random_time(r);
  std::string s;
  for (int attempt = 0;; ++attempt) {
    try {
      std::unique_ptr<sim::AllocFaultScope> scope;
      if (attempt == 0 && faults) scope.reset(new sim::AllocFaultScope);
      s = at::timeNanosecondsToString(v);
      break;
    } catch (const std::bad_alloc&) {
      if (attempt) sim::fail("C38", "no-memory", "a time cannot be written although there is memory");
      sim::probe("failed");
    }
  }
  __int128 said = 0;
  if (!parse(s, &said)) sim::fail("C38", "text", "%" PRId64 " ns are written as %s", v, s.c_str());
  if (said != v) sim::fail("C38", "text", "%" PRId64 " ns are written as %s, another time", v, s.c_str());
  const bool has_seconds = s.find("s ") != std::string::npos, whole = v >= 1000000000 || v <= -1000000000;
  if (has_seconds != whole) sim::fail("C38", "text", "%" PRId64 " ns are written as %s", v, s.c_str());
  sim::probe("text");
}
void run(const Plan& plan) {
  sim::set_default_props("C38");
  sim::set_stuck_props("C38");
  const bool faults = plan.cfg[kAlloc] != 0;
  std::vector<std::thread> threads;
  for (int t = 0; t < plan.nthreads; ++t)
    threads.emplace_back([t, faults, &plan] {
      int64_t last_end = 0, last_mono = -1;
      for (int i = 0; i < plan.th[t].n; ++i) {
        const Op& op = plan.th[t].ops[i];
        Rng r(static_cast<uint64_t>(op.a[0]));
        switch (op.code) {
          case kNow: now(&last_end, &last_mono); break;
          case kSleep: std::this_thread::sleep_for(std::chrono::nanoseconds(op.a[0])); break;
          case kConvert: convert(r); break;
          case kText: text(r, faults); break;
          case kOrder: order(r); break;
          default: break;
        }
      }
    });
  for (std::thread& t : threads) t.join();
}
void gen(Rng& r, Plan* p, sim::Env* env, bool thorough) {
  p->add_cfg(r.chance(0.3), 0);
  env->alloc_fail = p->cfg[kAlloc] != 0;
  env->clock_jumps = r.chance(0.7);
  env->coarse_clock = r.chance(0.3);
  p->nthreads = static_cast<int>(r.range(1, 3));
  for (int t = 0; t < p->nthreads; ++t) {
    const int n = static_cast<int>(r.range(2, thorough ? 40 : 16));
    for (int i = 0; i < n; ++i) {
      const int64_t seed = static_cast<int64_t>(r.next() >> 1);
      const uint64_t w = r.below(10);
      if (w < 3) p->add(t, kNow);
      else if (w < 4) p->add(t, kSleep, static_cast<int64_t>(r.next() >> (24 + r.below(38))));
      else if (w < 7) p->add(t, kConvert, seed);
      else if (w < 9) p->add(t, kText, seed);
      else p->add(t, kOrder, seed);
    }
  }
}
const sim::Harness h = {"time_stamps", "C38", gen, run};
sim::Registrar reg(&h);
}  // namespace
