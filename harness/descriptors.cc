// Simulated workloads for binary descriptors.
//   C33 descriptors own their memory as declared and bits are counted exactly
#include <aslam/common/descriptor-utils.h>
#include <aslam/common/feature-descriptor-ref.h>
#include <aslam/common/hamming.h>

#include <algorithm>
#include <cmath>
#include <cstring>
#include <memory>
#include <new>
#include <thread>
#include <vector>

#include "simrt.h"

namespace {
using aslam::common::FeatureDescriptorConstRef;
using aslam::common::FeatureDescriptorRef;
using sim::Op;
using sim::Plan;
using sim::Rng;
typedef std::vector<unsigned char> Bytes;

enum OpCode {
  kMake = 1,  // slot, seed, how
  kCopy,      // slot, other slot
  kAssign,    // slot, other slot
  kWithin,    // slot, seed: assignment of a part of its own memory
  kAllocate,  // slot, size
  kRelease,   // slot
  kEdit,      // slot, seed: bits and bytes
  kPoint,     // slot, seed: set_data on a reference
  kDistance,  // slot, seed
  kMean,      // seed
  kStatistics,// seed
  kConst,     // slot, seed: read-only references
  kShared,    // slot, seed
  kMistake,   // slot, seed, kind
};
enum CfgIdx { kAlloc = 0, kBig, kSharedSeed };
enum { kSlots = 4 };

struct Ctx {
  bool mistake[sim::kMaxSimThreads];
  std::unique_ptr<FeatureDescriptorRef> owner, view;  // of all threads, only read
  Bytes owner_bytes, view_bytes;
  std::unique_ptr<unsigned char[]> view_memory;
};
Ctx* C;
void on_abort() {
  if (C->mistake[sim::tid()]) sim::set_abort_ok(true);
}

size_t count_different(const unsigned char* a, const unsigned char* b, size_t n) {
  size_t sum = 0;
  for (size_t i = 0; i < n; ++i)
    for (int k = 0; k < 8; ++k) sum += ((a[i] ^ b[i]) >> k) & 1;
  return sum;
}
size_t random_size(Rng& r, bool big) {
  static const size_t kUsual[] = {16, 32, 48, 48, 64};
  if (big && r.chance(0.15)) return r.chance(0.5) ? static_cast<size_t>(r.range(490, 530)) : static_cast<size_t>(r.range(1000, 1100));
  if (r.chance(0.5)) return kUsual[r.below(5)];
  return static_cast<size_t>(r.range(r.chance(0.1) ? 0 : 1, 70));
}
Bytes random_bytes(Rng& r, size_t n) {
  Bytes b(n);
  const uint64_t style = r.below(4);
  for (unsigned char& x : b) x = static_cast<unsigned char>(style == 0 ? 0 : style == 1 ? 255 : r.next());
  return b;
}

struct Slot {
  std::unique_ptr<FeatureDescriptorRef> d;
  // Model.
  bool owned = false;
  unsigned char* memory = nullptr;  // what a reference that does not own points to
  size_t size = 0;
  Bytes content;                    // of an owner
};

struct Thread {
  Slot slot[kSlots];
  bool faults = false, big = false;
  std::vector<unsigned char*> known;                      // memory that owners had
  std::vector<std::unique_ptr<unsigned char[]>> blocks;   // memory of nobody

  void* pick(Rng& r, size_t n, size_t* offset) {
    *offset = r.below(20);
    blocks.emplace_back(new unsigned char[n + *offset]);
    unsigned char* p = blocks.back().get() + *offset;
    const Bytes b = random_bytes(r, n);
    if (n) memcpy(p, b.data(), n);
    return p;
  }
  Bytes expected(const Slot& s) {
    sim::Quiet q;
    if (s.owned) return s.content;
    return s.memory ? Bytes(s.memory, s.memory + s.size) : Bytes();
  }
  // A descriptor is what the model says; memory without owner is gone.
  void check(const char* what) {
    for (int i = 0; i < kSlots; ++i) {
      Slot& s = slot[i];
      if (!s.d) continue;
      FeatureDescriptorRef& d = *s.d;
      const FeatureDescriptorRef& cd = d;
      if (d.size() != s.size) sim::fail("C33", "size", "after %s descriptor %d has %u bytes instead of %zu", what, i, d.size(), s.size);
      if (d.data() != cd.data()) sim::fail("C33", "data", "after %s the two ways to get the data of a descriptor disagree", what);
      if (!s.owned && d.data() != s.memory)
        sim::fail("C33", "reference", "after %s descriptor %d does not refer to the memory it was given", what, i);
      const Bytes b = expected(s);
      if (s.owned && s.size && !d.data()) sim::fail("C33", "reference", "after %s descriptor %d has no memory", what, i);
      for (size_t k = 0; k < b.size(); ++k)
        if (d.data()[k] != b[k]) sim::fail("C33", "content", "after %s byte %zu of descriptor %d is %d instead of %d", what, k, i, d.data()[k], b[k]);
      sim::Quiet q;
      if (s.owned && d.data()) {
        if (!sim::heap_alive(d.data())) sim::fail("C33", "freed", "after %s descriptor %d uses memory that was freed", what, i);
        bool found = false;
        for (unsigned char* p : known) found = found || p == d.data();
        if (!found) known.push_back(d.data());
        for (int j = 0; j < i; ++j)
          if (slot[j].d && slot[j].owned && slot[j].d->data() == d.data())
            sim::fail("C33", "two-owners", "after %s descriptors %d and %d own the same memory", what, j, i);
      }
    }
    sim::Quiet q;
    for (unsigned char* p : known) {
      bool owner = false;
      for (const Slot& s : slot) owner = owner || (s.d && s.owned && s.d->data() == p);
      if (!owner && sim::heap_alive(p)) sim::fail("C33", "leak", "after %s the memory of a former descriptor is not freed", what);
    }
  }
  // An owner forgets what others refer to.
  void lose(const Slot& gone) {
    if (!gone.owned || !gone.d) return;
    for (Slot& s : slot)
      if (s.d && !s.owned && s.memory && s.memory >= gone.d->data() && s.memory <= gone.d->data() + gone.size) {
        s.d.reset(new FeatureDescriptorRef);
        s.memory = nullptr;
        s.size = 0;
      }
  }
  template <typename F>
  bool attempt(F f) {
    if (faults) {
      try {
        sim::AllocFaultScope scope;
        f();
        return true;
      } catch (const std::bad_alloc&) {
        sim::probe("failed");
        return false;
      }
    }
    f();
    return true;
  }

  void make(Rng& r, Slot* s, int how) {
    lose(*s);
    s->d.reset();
    s->owned = false;
    s->memory = nullptr;
    s->size = 0;
    s->content.clear();
    size_t offset;
    switch (how % 4) {
      case 0:
        s->d.reset(new FeatureDescriptorRef);
        break;
      case 1: {
        const size_t n = random_size(r, big);
        const bool ok = attempt([&] { s->d.reset(new FeatureDescriptorRef(static_cast<uint32_t>(n))); });
        if (!ok) {
          s->d.reset(new FeatureDescriptorRef);
          break;
        }
        s->owned = true;
        s->size = n;
        s->content = random_bytes(r, n);
        for (size_t i = 0; i < n; ++i) (*s->d)[i] = s->content[i];
        break;
      }
      case 2: {  // somebody else's memory
        s->size = random_size(r, big);
        s->memory = static_cast<unsigned char*>(pick(r, s->size, &offset));
        s->d.reset(new FeatureDescriptorRef(s->memory, s->size, false));
        break;
      }
      default: {  // memory that is handed over
        s->size = random_size(r, big);
        s->content = random_bytes(r, s->size);
        unsigned char* p = new unsigned char[s->size];
        if (s->size) memcpy(p, s->content.data(), s->size);
        s->d.reset(new FeatureDescriptorRef(p, s->size, true));
        s->owned = true;
      }
    }
  }
  void copy(Slot* to, const Slot& from) {
    if (to == &from || !from.d) return;
    if (!from.owned && !from.memory) return;
    std::unique_ptr<FeatureDescriptorRef> n;
    if (!attempt([&] { n.reset(new FeatureDescriptorRef(*from.d)); })) return;
    const Slot old = {nullptr, from.owned, from.memory, from.size, from.content};
    lose(*to);
    to->d = std::move(n);
    // A reference into the memory of the slot that is replaced is gone.
    if (!from.d || from.size != old.size || from.memory != old.memory) {
      to->d.reset(new FeatureDescriptorRef);
      to->owned = false;
      to->memory = nullptr;
      to->size = 0;
      return;
    }
    to->owned = old.owned;
    to->memory = old.memory;
    to->size = old.size;
    to->content = old.content;
  }
  void assign(Slot* to, Slot* from) {
    if (!from->d || (!from->owned && !from->memory)) return;
    if (!to->d) to->d.reset(new FeatureDescriptorRef);
    const Bytes b = expected(*from);
    unsigned char* before = to->d->data();
    FeatureDescriptorRef* result = nullptr;
    const bool deep = to->owned || from->owned, self = to == from;
    if (!attempt([&] { result = &(*to->d = *from->d); })) return;
    if (result != to->d.get()) sim::fail("C33", "assignment", "an assignment does not return its left side");
    if (self) return;
    if (!deep) {
      to->memory = from->memory;
      to->size = from->size;
      return;
    }
    to->owned = true;
    to->size = b.size();
    to->content = b;
    to->memory = nullptr;
    moved(to, before);
  }
  // References into memory that an owner gave up are not used any more.
  void moved(Slot* s, const unsigned char* before) {
    if (!before) return;
    if (s->d->data() == before) {
      // Still there, with other contents: references into it keep their meaning.
      return;
    }
    for (Slot& x : slot)
      if (x.d && !x.owned && x.memory && !alive(x.memory)) {
        x.d.reset(new FeatureDescriptorRef);
        x.memory = nullptr;
        x.size = 0;
      }
  }
  bool alive(const unsigned char* p) {
    for (const auto& b : blocks)
      if (p >= b.get() && p < b.get() + 4096 && b.get() && inside(b.get(), p)) return true;
    for (const Slot& s : slot)
      if (s.d && s.owned && s.d->data() && p >= s.d->data() && p <= s.d->data() + s.size) return true;
    return false;
  }
  // The blocks are in the order of their allocation and never used again.
  bool inside(const unsigned char* block, const unsigned char* p) {
    const unsigned char* next = nullptr;
    for (const auto& b : blocks)
      if (b.get() > block && (!next || b.get() < next)) next = b.get();
    return !next || p < next;
  }
  void within(Rng& r, Slot* s) {
    if (!s->d || !s->owned || !s->size) return;
    const size_t from = r.chance(0.4) ? 0 : r.below(s->size), n = r.chance(0.3) && from == 0 ? s->size : 1 + r.below(s->size - from);
    const Bytes b(s->content.begin() + static_cast<long>(from), s->content.begin() + static_cast<long>(from + n));
    unsigned char* before = s->d->data();
    const FeatureDescriptorRef part(before + from, n, false);
    if (!attempt([&] { *s->d = part; })) return;
    s->size = n;
    s->content = b;
    moved(s, before);
    sim::probe("assigned_within");
  }
  void allocate(Slot* s, size_t n) {
    if (!s->d) return;
    unsigned char* before = s->d->data();
    const bool was_owned = s->owned;
    if (!attempt([&] { s->d->Allocate(n); })) return;
    if (!was_owned || n != s->size) {
      s->owned = true;
      s->memory = nullptr;
      s->size = n;
      s->content.assign(n, 0);
      s->d->SetZero();
      moved(s, before);
    }
  }
  void release(Slot* s) {
    if (!s->d) return;
    unsigned char* before = s->d->data();
    s->d->Release();
    if (s->owned) {
      if (s->d->data()) sim::fail("C33", "release", "a released descriptor still has memory");
      s->owned = false;
      s->memory = nullptr;
      s->size = 0;
      s->content.clear();
      moved(s, before);
    }
  }
  unsigned char* model(Slot* s, size_t i) { return s->owned ? &s->content[i] : nullptr; }
  void edit(Rng& r, Slot* s) {
    if (!s->d || !s->size || (!s->owned && !s->memory)) return;
    FeatureDescriptorRef& d = *s->d;
    const size_t bit = r.below(s->size * 8), byte = bit / 8;
    const unsigned char mask = static_cast<unsigned char>(1u << (bit % 8));
    const Bytes before = expected(*s);
    Bytes want = before;
    switch (r.below(8)) {
      case 0:
        aslam::common::SetBit(bit, &d);
        want[byte] |= mask;
        break;
      case 1:
        aslam::common::FlipBit(bit, &d);
        want[byte] ^= mask;
        break;
      case 2:
        if (aslam::common::GetBit(bit, d.ToConstRef()) != ((want[byte] & mask) != 0)) sim::fail("C33", "bit", "bit %zu of a descriptor is wrong", bit);
        break;
      case 3:
        d.SetZero();
        want.assign(want.size(), 0);
        break;
      case 4: {
        const int seed = static_cast<int>(r.below(5));
        d.SetRandom(seed);
        want.assign(d.data(), d.data() + s->size);
        std::unique_ptr<FeatureDescriptorRef> twin(new FeatureDescriptorRef(static_cast<uint32_t>(s->size)));
        twin->SetRandom(seed);
        if (!(*twin == d)) sim::fail("C33", "random", "a seed gives two descriptors");
        break;
      }
      case 5: {
        const size_t n = r.below(s->size * 8);
        aslam::common::FlipNRandomBits(n, &d);
        const size_t flipped = count_different(d.data(), before.data(), s->size);
        if (flipped != n) sim::fail("C33", "flipped", "%zu bits are flipped instead of %zu", flipped, n);
        want.assign(d.data(), d.data() + s->size);
        break;
      }
      case 6:
        want[byte] = static_cast<unsigned char>(r.next());
        d[byte] = want[byte];
        break;
      default: {
        const FeatureDescriptorRef& c = d;
        if (c[byte] != want[byte] || c.ToConstRef()[byte] != want[byte]) sim::fail("C33", "byte", "byte %zu of a descriptor is wrong", byte);
      }
    }
    sim::Quiet q;
    if (s->owned) s->content = want;
    else
      for (size_t i = 0; i < want.size(); ++i)
        if (s->memory[i] != want[i]) sim::fail("C33", "content", "byte %zu of a descriptor is %d instead of %d after a change", i, s->memory[i], want[i]);
    // Others may refer to the same memory.
    for (Slot& x : slot)
      if (&x != s && x.d && x.owned && x.d->data() && s->memory >= x.d->data() && s->memory < x.d->data() + x.size)
        x.content.assign(x.d->data(), x.d->data() + x.size);
  }
  void point(Rng& r, Slot* s) {
    if (!s->d) return;
    size_t offset;
    if (s->owned) {
      // Takes the memory away from the descriptor.
      unsigned char* p = s->d->data();
      if (!p || r.chance(0.5)) return;
      s->d->set_data(p, false);
      blocks.emplace_back(p);
      known.erase(std::remove(known.begin(), known.end(), p), known.end());
      s->owned = false;
      s->memory = p;
      return;
    }
    if (!s->size) return;
    unsigned char* p = static_cast<unsigned char*>(pick(r, s->size, &offset));
    s->d->set_data(p, false);
    s->memory = p;
  }
  // A copy of the content at some place in memory.
  std::unique_ptr<unsigned char[]> elsewhere(Rng& r, const Bytes& b, unsigned char** at) {
    const size_t offset = r.below(17);
    std::unique_ptr<unsigned char[]> m(new unsigned char[b.size() + offset]);
    *at = m.get() + offset;
    if (!b.empty()) memcpy(*at, b.data(), b.size());
    return m;
  }
  void distance(Rng& r, Slot* s) {
    if (!s->d || (!s->owned && !s->memory) || (!s->d->data())) return;
    const Bytes a = expected(*s);
    Bytes b = r.chance(0.3) ? random_bytes(r, a.size()) : a;
    if (!b.empty())
      for (uint64_t i = r.below(4); i > 0; --i) b[r.below(b.size())] ^= static_cast<unsigned char>(r.next());
    if (r.chance(0.2))
      for (size_t i = 0; i < b.size(); ++i) b[i] = static_cast<unsigned char>(~a[i]);
    unsigned char* at;
    const std::unique_ptr<unsigned char[]> m = elsewhere(r, b, &at);
    const FeatureDescriptorRef other(at, b.size(), false);
    const size_t want = count_different(a.data(), b.data(), a.size());
    size_t got;
    switch (r.below(3)) {
      case 0: got = aslam::common::GetNumBitsDifferent(*s->d, other); break;
      case 1: got = aslam::common::GetNumBitsDifferent(other.ToConstRef(), s->d->ToConstRef()); break;
      default: got = static_cast<size_t>(aslam::common::Hamming()(s->d->data(), at, static_cast<int>(b.size())));
    }
    if (got != want) sim::fail("C33", "distance", "two descriptors of %zu bytes differ in %zu bits, not in %zu", b.size(), want, got);
    const bool equal = a == b;
    if ((*s->d == other) != equal || (other.ToConstRef() == s->d->ToConstRef()) != equal)
      sim::fail("C33", "equality", "equality of two descriptors of %zu bytes that differ in %zu bits", b.size(), want);
    sim::probe("distances");
  }
  void mean(Rng& r) {
    const bool many = r.chance(0.03);
    const size_t n = many ? static_cast<size_t>(r.range(250, 270)) : r.below(7);
    const size_t size = many ? static_cast<size_t>(r.range(1, 3)) : std::max<size_t>(1, random_size(r, false));
    std::vector<std::unique_ptr<unsigned char[]>> m;
    std::vector<std::unique_ptr<FeatureDescriptorRef>> d;
    std::vector<FeatureDescriptorRef*> list;
    std::vector<Bytes> all;
    for (size_t i = 0; i < n; ++i) {
      all.push_back(many && i && r.chance(0.97) ? all[0] : i && r.chance(0.4) ? all[r.below(i)] : random_bytes(r, size));
      unsigned char* at;
      m.push_back(elsewhere(r, all.back(), &at));
      d.emplace_back(new FeatureDescriptorRef(at, size, false));
      list.push_back(d.back().get());
    }
    FeatureDescriptorRef out(static_cast<uint32_t>(size));
    out.SetRandom(3);
    const Bytes before(out.data(), out.data() + size);
    aslam::common::DescriptorMean(list, &out);
    for (size_t bit = 0; bit < size * 8; ++bit) {
      size_t sum = 0;
      for (const Bytes& b : all) sum += (b[bit / 8] >> (bit % 8)) & 1;
      const bool want = n ? 2 * sum > n : (before[bit / 8] >> (bit % 8)) & 1;
      if (aslam::common::GetBit(bit, out.ToConstRef()) != want)
        sim::fail("C33", "mean", "bit %zu of the mean of %zu descriptors is wrong (%zu set)", bit, n, sum);
    }
    for (size_t i = 0; i < n; ++i)
      if (memcmp(list[i]->data(), all[i].data(), size)) sim::fail("C33", "mean", "the mean changes its input");
    sim::probe("means");
  }
  void statistics(Rng& r) {
    namespace du = aslam::common::descriptor_utils;
    // Many descriptors only now and then: they take long.
    const bool many = r.chance(0.03);
    const size_t n = many ? static_cast<size_t>(r.range(250, 270)) : 1 + r.below(6);
    const size_t size = many ? static_cast<size_t>(r.range(1, 3)) : std::max<size_t>(1, random_size(r, false));
    du::DescriptorsType all(static_cast<int>(size), static_cast<int>(n));
    std::vector<Bytes> cols;
    for (size_t i = 0; i < n; ++i) {
      cols.push_back(many && i && r.chance(0.97) ? cols[0] : i && r.chance(0.4) ? cols[r.below(i)] : random_bytes(r, size));
      if (i && r.chance(many ? 0.02 : 0.3)) cols.back()[r.below(size)] ^= 5;
      for (size_t k = 0; k < size; ++k) all(static_cast<int>(k), static_cast<int>(i)) = cols.back()[k];
    }
    std::vector<size_t> sums(size * 8, 0);
    for (const Bytes& b : cols)
      for (size_t bit = 0; bit < size * 8; ++bit) sums[bit] += (b[bit / 8] >> (bit % 8)) & 1;
    Bytes mean(size, 0);
    for (size_t bit = 0; bit < size * 8; ++bit)
      if (2 * sums[bit] > n) mean[bit / 8] |= static_cast<unsigned char>(1u << (bit % 8));
    switch (many ? (r.below(2) ? 0 : 2 + r.below(3)) : r.below(6)) {
      case 0: {
        du::DescriptorType got = du::DescriptorType::Constant(static_cast<int>(r.below(80)), 255);
        du::descriptorMeanRoundedToBinaryValue(all, &got);
        if (got.rows() != static_cast<int>(size)) sim::fail("C33", "mean", "the mean has %d bytes instead of %zu", (int)got.rows(), size);
        for (size_t k = 0; k < size; ++k)
          if (got(static_cast<int>(k)) != mean[k]) sim::fail("C33", "mean", "byte %zu of the rounded mean of %zu descriptors is wrong", k, n);
        break;
      }
      case 1: {
        size_t got = 77;
        du::getIndexOfDescriptorClosestToMedian(all, &got);
        if (got >= n) sim::fail("C33", "median", "the median of %zu descriptors is number %zu", n, got);
        std::vector<size_t> d(n, 0);
        for (size_t i = 0; i < n; ++i)
          for (size_t j = 0; j < n; ++j) d[i] += count_different(cols[i].data(), cols[j].data(), size);
        for (size_t i = 0; i < n; ++i)
          if (d[i] < d[got]) sim::fail("C33", "median", "descriptor %zu is closer to all others than the median", i);
        break;
      }
      case 2: {
        double want = 0;
        for (const Bytes& b : cols) want += static_cast<double>(count_different(b.data(), mean.data(), size));
        want = n < 2 ? 0 : want / static_cast<double>(n);
        const double got = du::descriptorMeanAbsoluteDeviation(all);
        if (!(std::fabs(got - want) < 1e-9 * (1 + want))) sim::fail("C33", "deviation", "the mean absolute deviation is %g instead of %g", got, want);
        break;
      }
      case 3: {
        Eigen::VectorXd got = Eigen::VectorXd::Constant(static_cast<int>(r.below(100)), 3.0);
        du::floatDescriptorMean(all, &got);
        if (got.rows() != static_cast<int>(size * 8)) sim::fail("C33", "mean", "the mean has another number of bits");
        for (size_t bit = 0; bit < size * 8; ++bit)
          if (!(std::fabs(got(static_cast<int>(bit)) - static_cast<double>(sums[bit]) / static_cast<double>(n)) < 1e-12)) sim::fail("C33", "mean", "bit %zu of the mean is wrong", bit);
        break;
      }
      case 4: {
        double want = 0;
        for (size_t bit = 0; bit < size * 8; ++bit) {
          const double p = static_cast<double>(sums[bit]) / static_cast<double>(n);
          want += p * (1 - p);
        }
        want = n < 2 ? 0 : std::sqrt(want);
        const double got = du::descriptorMeanStandardDeviation(all);
        if (!(std::fabs(got - want) < 1e-6 * (1 + want))) sim::fail("C33", "deviation", "the standard deviation is %g instead of %g", got, want);
        break;
      }
      default: {
        du::DescriptorType one = all.col(0);
        const unsigned bit = static_cast<unsigned>(r.below(size * 8));
        const bool was = (cols[0][bit / 8] >> (bit % 8)) & 1;
        if (du::getBit(bit, one) != was) sim::fail("C33", "bit", "bit %u of a descriptor is wrong", bit);
        du::setBit(bit, &one);
        cols[0][bit / 8] |= static_cast<unsigned char>(1u << (bit % 8));
        for (size_t k = 0; k < size; ++k)
          if (one(static_cast<int>(k)) != cols[0][k]) sim::fail("C33", "bit", "setting bit %u changes byte %zu", bit, k);
      }
    }
    sim::probe("statistics");
  }
  void constant(Rng& r, Slot* s) {
    if (!s->d || !s->d->data() || !s->size) return;
    const Bytes b = expected(*s);
    FeatureDescriptorConstRef a = s->d->ToConstRef(), c(a), e(nullptr, 0);
    e = r.chance(0.5) ? a : c;
    e = e;
    if (e.data() != s->d->data() || e.size() != s->size || c.data() != a.data()) sim::fail("C33", "reference", "a copy of a read-only reference refers to something else");
    if (!(e == a)) sim::fail("C33", "equality", "a read-only reference is not equal to its copy");
    const size_t n = 1 + r.below(s->size);
    e.set_size_bytes(static_cast<uint32_t>(n));
    const size_t i = r.below(n);
    if (e.size() != n || e[i] != b[i]) sim::fail("C33", "byte", "byte %zu of a read-only reference is wrong", i);
    if (n != s->size && e == a) sim::fail("C33", "equality", "descriptors of other sizes are equal");
    e.set_data(b.data());
    e.set_size_bytes(static_cast<uint32_t>(b.size()));
    if (!(e == a)) sim::fail("C33", "equality", "the same content in other memory is not equal");
    if (FeatureDescriptorConstRef(nullptr, static_cast<uint32_t>(n)) == e) sim::fail("C33", "equality", "a reference to nothing is equal to a descriptor");
  }
  void shared(Rng& r) {
    // Read and copied by all threads at the same time.
    const FeatureDescriptorRef& o = r.chance(0.5) ? *C->owner : *C->view;
    const Bytes& b = &o == C->owner.get() ? C->owner_bytes : C->view_bytes;
    std::unique_ptr<FeatureDescriptorRef> c;
    if (!attempt([&] { c.reset(new FeatureDescriptorRef(o)); })) return;
    const bool own = &o == C->owner.get();
    if ((c->data() == o.data()) == own) sim::fail("C33", "reference", "a copy of %s", own ? "an owner shares its memory" : "a reference refers to something else");
    if (aslam::common::GetNumBitsDifferent(*c, o) != 0 || !(*c == o)) sim::fail("C33", "content", "a copy differs from its original");
    if (own) {
      for (size_t i = 0; i < b.size(); ++i) (*c)[i] = static_cast<unsigned char>(~b[i]);
      if (aslam::common::GetNumBitsDifferent(c->ToConstRef(), o.ToConstRef()) != 8 * b.size()) sim::fail("C33", "distance", "the complement of a descriptor is too close to it");
    }
    if (memcmp(o.data(), b.data(), b.size())) sim::fail("C33", "content", "a shared descriptor changed");
    unsigned char* p = c->data();
    c.reset();
    sim::Quiet q;
    if (own && sim::heap_alive(p)) sim::fail("C33", "leak", "the memory of a copy is not freed");
    sim::probe("shared");
  }
  void mistake(Rng& r, Slot* s, int kind) {
    if (!s->d || !s->d->data()) return;
    bool& on = C->mistake[sim::tid()];
    on = true;
    const size_t n = s->size, far = r.chance(0.5) ? 0 : r.below(1000);
    volatile int sink = 0;
    switch (kind % 8) {
      case 0: aslam::common::SetBit(n * 8 + far, s->d.get()); break;
      case 1: sink = aslam::common::GetBit(n * 8 + far, s->d->ToConstRef()); break;
      case 2: aslam::common::FlipBit(n * 8 + far, s->d.get()); break;
      case 3: sink = (*s->d)[n + far]; break;
      case 4: sink = s->d->ToConstRef()[n + far]; break;
      case 5: aslam::common::FlipNRandomBits(n * 8 + 1 + far, s->d.get()); break;
      case 6: {
        FeatureDescriptorRef other(static_cast<uint32_t>(n + 1 + far));
        other.SetZero();
        sink = static_cast<int>(aslam::common::GetNumBitsDifferent(*s->d, other));
        break;
      }
      default: {
        FeatureDescriptorRef other(static_cast<uint32_t>(n + 1 + far));
        std::vector<FeatureDescriptorRef*> list(1, s->d.get());
        aslam::common::DescriptorMean(list, &other);
      }
    }
    (void)sink;
    on = false;
    sim::fail("C33", "mistake-accepted", "an impossible request (%d) is not refused", kind % 8);
  }

  void run_op(const Op& op) {
    Slot& s = slot[op.a[0] % kSlots];
    Rng r(static_cast<uint64_t>(op.a[1]));
    Slot& o = slot[static_cast<size_t>(op.a[2]) % kSlots];
    switch (op.code) {
      case kMake: make(r, &s, static_cast<int>(op.a[2])); check("making a descriptor"); break;
      case kCopy: copy(&s, o); check("copying a descriptor"); break;
      case kAssign: assign(&s, &o); check("an assignment"); break;
      case kWithin: within(r, &s); check("an assignment of a part"); break;
      case kAllocate: allocate(&s, static_cast<size_t>(op.a[2])); check("an allocation"); break;
      case kRelease: release(&s); check("a release"); break;
      case kEdit: edit(r, &s); check("a change"); break;
      case kPoint: point(r, &s); check("pointing elsewhere"); break;
      case kDistance: distance(r, &s); break;
      case kMean: mean(r); break;
      case kStatistics: statistics(r); break;
      case kConst: constant(r, &s); break;
      case kShared: shared(r); break;
      case kMistake: mistake(r, &s, static_cast<int>(op.a[2])); break;
      default: break;
    }
  }
  void finish() {
    for (Slot& s : slot) {
      lose(s);
      s.d.reset();
      check("the end of a descriptor");
    }
  }
};

void run(const Plan& plan) {
  sim::set_default_props("C33");
  sim::set_stuck_props("C33");
  C = new Ctx;
  for (bool& x : C->mistake) x = false;
  sim::set_abort_callback(on_abort);
  {
    Rng r(static_cast<uint64_t>(plan.cfg[kSharedSeed]));
    C->owner_bytes = random_bytes(r, 1 + r.below(64));
    C->owner.reset(new FeatureDescriptorRef(static_cast<uint32_t>(C->owner_bytes.size())));
    for (size_t i = 0; i < C->owner_bytes.size(); ++i) (*C->owner)[i] = C->owner_bytes[i];
    C->view_bytes = random_bytes(r, 1 + r.below(64));
    C->view_memory.reset(new unsigned char[C->view_bytes.size()]);
    memcpy(C->view_memory.get(), C->view_bytes.data(), C->view_bytes.size());
    C->view.reset(new FeatureDescriptorRef(C->view_memory.get(), C->view_bytes.size(), false));
  }
  std::vector<std::thread> threads;
  for (int t = 0; t < plan.nthreads; ++t)
    threads.emplace_back([t, &plan] {
      std::unique_ptr<Thread> me(new Thread);
      me->faults = plan.cfg[kAlloc] != 0;
      me->big = plan.cfg[kBig] != 0;
      for (int i = 0; i < plan.th[t].n; ++i) me->run_op(plan.th[t].ops[i]);
      me->finish();
    });
  for (std::thread& t : threads) t.join();
  unsigned char* p = C->owner->data();
  C->owner.reset();
  C->view.reset();
  sim::Quiet q;
  if (sim::heap_alive(p)) sim::fail("C33", "leak", "the memory of the shared descriptor is not freed");
  if (!sim::heap_alive(C->view_memory.get())) sim::fail("C33", "freed", "a reference freed memory that it does not own");
}

void gen(Rng& r, Plan* p, sim::Env* env, bool thorough) {
  p->add_cfg(r.chance(0.4), 0);
  env->alloc_fail = p->cfg[kAlloc] != 0;
  p->add_cfg(r.chance(0.3), 0);
  p->add_cfg(static_cast<int64_t>(r.next() >> 1), 0);
  p->nthreads = static_cast<int>(r.chance(0.5) ? 1 : r.range(2, 3));
  const bool mistakes = r.chance(0.15);
  for (int t = 0; t < p->nthreads; ++t) {
    const int n = static_cast<int>(r.range(3, thorough ? 60 : 30));
    for (int i = 0; i < n; ++i) {
      const int64_t slot = r.range(0, kSlots - 1), seed = static_cast<int64_t>(r.next() >> 1), other = r.range(0, kSlots - 1);
      const uint64_t w = r.below(30);
      if (w < 5) p->add(t, kMake, slot, seed, r.range(0, 3));
      else if (w < 7) p->add(t, kCopy, slot, seed, other);
      else if (w < 11) p->add(t, kAssign, slot, seed, other);
      else if (w < 12) p->add(t, kWithin, slot, seed);
      else if (w < 14) p->add(t, kAllocate, slot, seed, r.chance(0.5) ? 48 : r.range(0, 64));
      else if (w < 15) p->add(t, kRelease, slot, seed);
      else if (w < 19) p->add(t, kEdit, slot, seed);
      else if (w < 20) p->add(t, kPoint, slot, seed);
      else if (w < 23) p->add(t, kDistance, slot, seed);
      else if (w < 24) p->add(t, kMean, slot, seed);
      else if (w < 26) p->add(t, kStatistics, slot, seed);
      else if (w < 27) p->add(t, kConst, slot, seed);
      else if (w < 28) { if (mistakes) p->add(t, kMistake, slot, seed, r.range(0, 7)); }
      else p->add(t, kShared, slot, seed);
    }
  }
}
const sim::Harness h = {"descriptor_memory", "C33", gen, run};
sim::Registrar reg(&h);
}  // namespace
