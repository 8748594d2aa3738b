// Simulated workloads for selecting and erasing elements by index or rank.
//   C27 exactly the named elements go, or nothing changes
#include <aslam/common/memory.h>
#include <aslam/common/stl-helpers.h>

#include <memory>
#include <mutex>
#include <new>
#include <thread>
#include <vector>

#include "simrt.h"

namespace {
using sim::Op;
using sim::Plan;
using sim::Rng;

enum OpCode {
  kVector = 1,  // seed, size: eraseIndicesFromVector
  kContainer,   // seed, size, kind of container
  kKeep,        // seed, size, how many stay
  kConvert,     // seed, size
  kShared,      // seed: erases from the list that all threads read
  kMistake,     // seed, size, kind
};
enum CfgIdx { kAlloc = 0 };
enum Container { kColumns2 = 0, kColumns3, kColumnVector, kIntVector, kAdapterColumns, kAdapterRows, kStlVector, kAligned, kContainers };

struct Element {  // neither default constructible nor cheap to copy
  Element(int i, int k) : id(i), key(k), payload(new int(i * 3)) {}
  Element(const Element& o) : id(o.id), key(o.key), payload(o.payload ? new int(*o.payload) : nullptr) {}
  Element& operator=(const Element& o) {
    if (this != &o) {
      std::unique_ptr<int> p(o.payload ? new int(*o.payload) : nullptr);
      payload.swap(p);
      id = o.id;
      key = o.key;
    }
    return *this;
  }
  Element(Element&&) = default;
  Element& operator=(Element&&) = default;
  int id, key;
  std::unique_ptr<int> payload;
};
typedef std::vector<Element> Elements;
struct Ctx {
  Elements shared;
  bool mistake[sim::kMaxSimThreads];
};
Ctx* C = nullptr;
void on_abort() {
  if (C->mistake[sim::tid()]) sim::set_abort_ok(true);
}

Elements make(int n, Rng& r) {
  sim::Quiet q;
  Elements e;
  for (int i = 0; i < n; ++i) e.emplace_back(i, static_cast<int>(r.below(8)));
  return e;
}
std::vector<size_t> choose(int n, Rng& r, bool ordered) {
  sim::Quiet q;
  std::vector<size_t> idx;
  const double p = r.chance(0.15) ? 1.0 : r.chance(0.1) ? 0.0 : 0.1 + 0.8 * (r.below(100) / 100.0);
  for (int i = 0; i < n; ++i)
    if (r.chance(p)) idx.push_back(i);
  if (!ordered)
    for (int i = static_cast<int>(idx.size()) - 1; i > 0; --i) std::swap(idx[i], idx[r.below(i + 1)]);
  return idx;
}
std::vector<int> remaining(int n, const std::vector<size_t>& gone) {
  std::vector<char> g(n + 1, 0);
  for (size_t i : gone) g[i] = 1;
  std::vector<int> left;
  for (int i = 0; i < n; ++i)
    if (!g[i]) left.push_back(i);
  return left;
}
void check_elements(const Elements& e, const std::vector<int>& want, const char* what) {
  sim::Quiet q;
  if (e.size() != want.size()) sim::fail("C27", "count", "%s left %zu elements instead of %zu", what, e.size(), want.size());
  for (size_t i = 0; i < want.size(); ++i)
    if (e[i].id != want[i] || !e[i].payload || *e[i].payload != 3 * want[i])
      sim::fail("C27", "wrong-element", "%s left element %d at position %zu instead of element %d", what, e[i].id, i, want[i]);
}
std::vector<int> all(int n) { return remaining(n, {}); }

void erase_vector(const Elements& in, const std::vector<size_t>& idx, const char* what) {
  const std::vector<size_t> idx_before = idx;
  try {
    Elements out;
    {
      sim::AllocFaultScope s;
      sim::label(what);
      out = aslam::common::eraseIndicesFromVector(in, idx);
      sim::label("");
    }
    check_elements(out, remaining(static_cast<int>(in.size()), idx_before), what);
    sim::probe(idx.empty() ? "erased_nothing" : out.empty() ? "erased_all" : "erased");
  } catch (const std::bad_alloc&) {
    sim::label("");
    sim::probe("allocation_failed");
  }
  if (idx != idx_before) sim::fail("C27", "input-changed", "%s changed the list of indices", what);
  check_elements(in, all(static_cast<int>(in.size())), "reading the input again");
}

template <typename M>
M numbered(int rows, int cols) {
  M m(rows, cols);
  for (int j = 0; j < cols; ++j)
    for (int i = 0; i < rows; ++i) m(i, j) = static_cast<typename M::Scalar>((i * 41 + j * 7) % 251);
  return m;
}
template <typename M>
void check_matrix(const M& m, int rows, int cols, const std::vector<int>& want, bool by_columns, const char* what) {
  sim::Quiet q;
  const int r = by_columns ? rows : static_cast<int>(want.size()), c = by_columns ? static_cast<int>(want.size()) : cols;
  if (m.rows() != r || m.cols() != c) sim::fail("C27", "count", "%s left a matrix of %d x %d instead of %d x %d", what, (int)m.rows(), (int)m.cols(), r, c);
  for (int j = 0; j < c; ++j)
    for (int i = 0; i < r; ++i) {
      const int si = by_columns ? i : want[i], sj = by_columns ? want[j] : j;
      if (m(i, j) != static_cast<typename M::Scalar>((si * 41 + sj * 7) % 251))
        sim::fail("C27", "wrong-element", "%s left the wrong value in row %d, column %d", what, i, j);
    }
}
// Returns false if memory ran out.
template <typename T>
bool erase_container(const std::vector<size_t>& idx, size_t n, T* container) {
  try {
    sim::AllocFaultScope s;
    sim::label("eraseIndicesFromContainer");
    aslam::common::stl_helpers::eraseIndicesFromContainer(idx, n, container);
    sim::label("");
    return true;
  } catch (const std::bad_alloc&) {
    sim::label("");
    sim::probe("allocation_failed");
    return false;
  }
}
template <typename M>
bool matrix_case(const std::vector<size_t>& idx, size_t n, int rows, int cols, bool by_columns, int adapter, int size) {
  sim::Quiet* q = new sim::Quiet;
  M m = numbered<M>(rows, cols);
  delete q;
  const char* what = "erasing from a matrix";
  bool ok;
  ok = erase_container(idx, n, &m);
  (void)adapter;
  check_matrix(m, rows, cols, ok ? remaining(size, idx) : all(size), by_columns, what);
  return ok;
}

void container(Rng& r, int n, int kind, int mistake) {
  std::vector<size_t> idx = choose(n, r, true);
  size_t count = n;
  if (mistake == 1) { if (idx.empty()) return; count = n + 1; }
  if (mistake == 2) { if (idx.empty()) return; idx.back() = n; }
  C->mistake[sim::tid()] = mistake != 0;
  typedef Eigen::Matrix<unsigned char, Eigen::Dynamic, Eigen::Dynamic> Bytes;
  bool ok = false;
  switch (kind) {
    case kColumns2: ok = matrix_case<Eigen::Matrix2Xd>(idx, count, 2, n, true, 0, n); break;
    case kColumns3: ok = matrix_case<Eigen::Matrix3Xd>(idx, count, 3, n, true, 0, n); break;
    case kColumnVector: ok = matrix_case<Eigen::VectorXd>(idx, count, n, 1, false, 0, n); break;
    case kIntVector: ok = matrix_case<Eigen::VectorXi>(idx, count, n, 1, false, 0, n); break;
    case kAdapterColumns: {
      const int rows = 1 + static_cast<int>(r.below(9));
      Bytes m = numbered<Bytes>(rows, n);
      aslam::common::stl_helpers::OneDimensionAdapter<unsigned char, aslam::common::stl_helpers::kColumns> a(&m);
      ok = erase_container(idx, count, &a);
      check_matrix(m, rows, n, ok ? remaining(n, idx) : all(n), true, "erasing columns");
      break;
    }
    case kAdapterRows: {
      const int cols = 1 + static_cast<int>(r.below(9));
      Bytes m = numbered<Bytes>(n, cols);
      aslam::common::stl_helpers::OneDimensionAdapter<unsigned char, aslam::common::stl_helpers::kRows> a(&m);
      ok = erase_container(idx, count, &a);
      check_matrix(m, n, cols, ok ? remaining(n, idx) : all(n), false, "erasing rows");
      break;
    }
    case kStlVector: {
      Elements e = make(n, r);
      ok = erase_container(idx, count, &e);
      check_elements(e, ok ? remaining(n, idx) : all(n), "erasing from a vector");
      break;
    }
    default: {
      Aligned<std::vector, Eigen::Vector4d> e;
      for (int i = 0; i < n; ++i) e.push_back(Eigen::Vector4d(i, 2 * i, 3 * i, 4));
      ok = erase_container(idx, count, &e);
      const std::vector<int> want = ok ? remaining(n, idx) : all(n);
      if (e.size() != want.size()) sim::fail("C27", "count", "erasing left %zu elements instead of %zu", e.size(), want.size());
      for (size_t i = 0; i < want.size(); ++i)
        if (e[i] != Eigen::Vector4d(want[i], 2 * want[i], 3 * want[i], 4)) sim::fail("C27", "wrong-element", "erasing left a wrong element at position %zu", i);
    }
  }
  if (!ok) return;  // memory ran out first
  if (mistake) sim::fail("C27", "mistake-accepted", "erasing accepted %s", mistake == 1 ? "a wrong number of elements" : "an index behind the end");
  sim::probe(idx.empty() ? "container_unchanged" : "container_erased");
}

struct Removed {
  std::vector<int>* ids;
  void operator()(const Element& e) const {
    sim::Quiet q;
    ids->push_back(e.id);
  }
};
void keep(Rng& r, int n, size_t most) {
  Elements e = make(n, r);
  std::vector<int> key(n);
  for (int i = 0; i < n; ++i) key[i] = e[i].key;
  const bool greatest = r.chance(0.7), action = r.chance(0.7);
  auto more = [](const Element& a, const Element& b) { return a.key > b.key; };
  auto less = [](const Element& a, const Element& b) { return a.key < b.key; };
  std::vector<int> removed;
  removed.reserve(64);
  size_t got;
  sim::label("keepOnlyNSortedElements");
  if (greatest)
    got = action ? aslam::common::keepOnlyNSortedElements(most, more, &e, Removed{&removed}) : aslam::common::keepOnlyNSortedElements(most, more, &e);
  else
    got = action ? aslam::common::keepOnlyNSortedElements(most, less, &e, Removed{&removed}) : aslam::common::keepOnlyNSortedElements(most, less, &e);
  sim::label("");
  sim::Quiet q;
  const size_t want = std::min<size_t>(n, most);
  if (e.size() != want || got != want) sim::fail("C27", "count", "keeping %zu of %d elements left %zu and returned %zu", most, n, e.size(), got);
  std::vector<char> here(n, 0);
  int worst = -1;
  for (const Element& x : e) {
    if (x.id < 0 || x.id >= n || here[x.id] || !x.payload || *x.payload != 3 * x.id || x.key != key[x.id]) sim::fail("C27", "wrong-element", "keeping the best elements changed or doubled an element");
    here[x.id] = 1;
    const int rank = greatest ? -x.key : x.key;
    if (worst == -1 || rank > worst - 100) worst = rank + 100;
  }
  for (int i = 0; i < n; ++i)
    if (!here[i] && !e.empty() && (greatest ? -key[i] : key[i]) < worst - 100)
      sim::fail("C27", "not-the-best", "an element with key %d was removed although one with key %d stayed", key[i], greatest ? -(worst - 100) : worst - 100);
  if (action) {
    std::vector<char> told(n, 0);
    for (int id : removed) {
      if (here[id] || told[id]) sim::fail("C27", "action", "the action ran %s element %d", here[id] ? "for the kept" : "twice for", id);
      told[id] = 1;
    }
    if (removed.size() + e.size() != static_cast<size_t>(n)) sim::fail("C27", "action", "the action ran for %zu of %zu removed elements", removed.size(), n - e.size());
  }
  sim::probe(want < static_cast<size_t>(n) ? "kept_some" : "kept_all");
}

void convert(Rng& r, int n) {
  const Eigen::Matrix3Xd m = numbered<Eigen::Matrix3Xd>(3, n);
  Aligned<std::vector, Eigen::Vector3d> out;
  for (int i = 0; i < static_cast<int>(r.below(4)); ++i) out.push_back(Eigen::Vector3d(-1, -1, -1));
  try {
    sim::AllocFaultScope s;
    aslam::common::convertEigenToStlVector<3>(m, &out);
  } catch (const std::bad_alloc&) {
    sim::probe("allocation_failed");
    return;
  }
  if (out.size() != static_cast<size_t>(n)) sim::fail("C27", "count", "converting %d columns gave %zu elements", n, out.size());
  for (int i = 0; i < n; ++i)
    if (out[i] != m.col(i)) sim::fail("C27", "wrong-element", "converting gave a wrong element %d", i);
  sim::probe("converted");
}

void body(const sim::PlanThread& ops) {
  for (int i = 0; i < ops.n; ++i) {
    const Op& op = ops.ops[i];
    Rng r(static_cast<uint64_t>(op.a[0]));
    const int n = static_cast<int>(op.a[1]);
    switch (op.code) {
      case kVector: {
        const Elements in = make(n, r);
        erase_vector(in, choose(n, r, r.chance(0.3)), "eraseIndicesFromVector");
        break;
      }
      case kContainer: container(r, n, static_cast<int>(op.a[2]), 0); break;
      case kKeep: keep(r, n, static_cast<size_t>(op.a[2])); break;
      case kConvert: convert(r, n); break;
      case kShared: erase_vector(C->shared, choose(static_cast<int>(C->shared.size()), r, false), "erasing from a shared list"); break;
      case kMistake: {
        const int kind = static_cast<int>(op.a[2]);
        if (kind == 0) {
          const Elements in = make(n, r);
          std::vector<size_t> idx = choose(n, r, false);
          idx.push_back(n + r.below(2));
          C->mistake[sim::tid()] = true;
          aslam::common::eraseIndicesFromVector(in, idx);
          sim::fail("C27", "mistake-accepted", "erasing accepted an index behind the end");
        }
        container(r, n, static_cast<int>(r.below(kContainers)), kind);
        break;
      }
    }
  }
}

void run(const Plan& plan) {
  sim::set_default_props("C27");
  sim::set_stuck_props("C27");
  C = new Ctx;
  for (bool& x : C->mistake) x = false;
  sim::set_abort_callback(on_abort);
  sim::set_assert_ok(false);
  Rng r(static_cast<uint64_t>(plan.cfg[1]));
  C->shared = make(static_cast<int>(r.range(0, 12)), r);
  std::vector<std::thread> threads;
  for (int t = 0; t < plan.nthreads; ++t) threads.emplace_back([t, &plan] { body(plan.th[t]); });
  for (std::thread& t : threads) t.join();
  check_elements(C->shared, all(static_cast<int>(C->shared.size())), "everything");
}

void gen(Rng& r, Plan* p, sim::Env* env, bool thorough) {
  p->add_cfg(r.chance(0.4), 0);
  p->add_cfg(static_cast<int64_t>(r.next() >> 1), 0);
  env->alloc_fail = p->cfg[kAlloc] != 0;
  p->nthreads = static_cast<int>(r.chance(0.4) ? 1 : r.range(2, 3));
  const bool mistakes = r.chance(0.25);
  for (int t = 0; t < p->nthreads; ++t) {
    const int n = static_cast<int>(r.range(1, thorough ? 20 : 10));
    for (int i = 0; i < n; ++i) {
      const int64_t seed = static_cast<int64_t>(r.next() >> 1), size = r.chance(0.1) ? 0 : r.range(1, thorough ? 40 : 16);
      const uint64_t w = r.below(20);
      if (w < 4) p->add(t, kVector, seed, size);
      else if (w < 11) p->add(t, kContainer, seed, size, r.range(0, kContainers - 1));
      else if (w < 15) p->add(t, kKeep, seed, size, r.range(0, size + 1));
      else if (w < 16) p->add(t, kConvert, seed, size);
      else if (w < 19) p->add(t, kShared, seed);
      else if (mistakes) p->add(t, kMistake, seed, size, r.range(0, 2));
    }
  }
}
const sim::Harness h = {"index_erase", "C27", gen, run};
sim::Registrar reg(&h);
}  // namespace
