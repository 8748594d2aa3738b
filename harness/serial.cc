// Simulated workloads for serialised channels kept on failing storage.
//   C19 intact bytes give back the value; damaged bytes are never misread
#include <aslam/common/channel-declaration.h>
#include <aslam/common/channel.h>

#include <cstdio>
#include <cstring>
#include <limits>
#include <locale>
#include <memory>
#include <string>
#include <vector>

#include "simrt.h"

namespace {
using aslam::channels::Channel;
using sim::Op;
using sim::Plan;
using sim::Rng;

enum OpCode { kStore = 1 };  // type, value seed, form, damage seed
enum CfgIdx { kDamage = 0, kLocale };
const int kTypes = 19;

// ----------------------------------------------------------- random values
const double kDoubles[] = {0.0, -0.0, 1e-9, 1.0 / 3, -1e-300, 1e300, 4.9e-324,
                           std::numeric_limits<double>::max(), std::numeric_limits<double>::infinity(),
                           2.2250738585072014e-308, 123456.789012345};
void fill(Rng& r, double* v) {
  *v = r.chance(0.5) ? kDoubles[r.below(sizeof(kDoubles) / sizeof(double))]
                     : (r.range(-1000000, 1000000) / 3.0) * (r.chance(0.5) ? 1e-7 : 1e5);
}
void fill(Rng& r, float* v) {
  *v = r.chance(0.3) ? 1e-9f : static_cast<float>(r.range(-1000000, 1000000)) / 3.f;
}
template <typename T>
void fill(Rng& r, T* v) {  // integers
  switch (r.below(5)) {
    case 0: *v = std::numeric_limits<T>::max(); break;
    case 1: *v = std::numeric_limits<T>::min(); break;
    case 2: *v = 0; break;
    default: *v = static_cast<T>(r.next());
  }
}
void fill(Rng& r, bool* v) { *v = r.chance(0.5); }
template <typename S, int R, int C>
void fill(Rng& r, Eigen::Matrix<S, R, C>* m) {
  const int rows = R == Eigen::Dynamic ? static_cast<int>(r.below(6)) : R;
  const int cols = C == Eigen::Dynamic ? static_cast<int>(r.below(6)) : C;
  m->resize(rows, cols);
  for (int i = 0; i < m->size(); ++i) fill(r, m->data() + i);
}
template <typename S, int R, int C>
void fill(Rng& r, std::vector<Eigen::Matrix<S, R, C>>* v) {
  v->resize(r.below(5));
  for (auto& m : *v) fill(r, &m);
}
void fill(Rng& r, cv::Mat* m) {
  static const int kDepths[] = {CV_8U, CV_8S, CV_16U, CV_16S, CV_32S, CV_32F, CV_64F};
  const int type = CV_MAKETYPE(kDepths[r.below(7)], static_cast<int>(r.range(1, 4)));
  m->create(static_cast<int>(r.below(7)), static_cast<int>(r.below(7)), type);
  const size_t bytes = m->total() * m->elemSize();
  for (size_t i = 0; i < bytes; ++i) m->data[i] = static_cast<unsigned char>(r.next());
}

// ---------------------------------------------------------- exact equality
template <typename T>
bool same(const T& a, const T& b) {
  return memcmp(&a, &b, sizeof(T)) == 0;
}
template <typename S, int R, int C>
bool same(const Eigen::Matrix<S, R, C>& a, const Eigen::Matrix<S, R, C>& b) {
  return a.rows() == b.rows() && a.cols() == b.cols() &&
         (a.size() == 0 || memcmp(a.data(), b.data(), sizeof(S) * a.size()) == 0);
}
template <typename S, int R, int C>
bool same(const std::vector<Eigen::Matrix<S, R, C>>& a, const std::vector<Eigen::Matrix<S, R, C>>& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i)
    if (!same(a[i], b[i])) return false;
  return true;
}
bool same(const cv::Mat& a, const cv::Mat& b) {
  return a.rows == b.rows && a.cols == b.cols && a.type() == b.type() &&
         (a.total() == 0 || memcmp(a.data, b.data, a.total() * a.elemSize()) == 0);
}
template <typename T>
struct IsScalar {
  static const bool value = std::is_arithmetic<T>::value;
};

// ------------------------------------------------------------------ storage
void write_file(const char* path, const std::string& bytes) {
  FILE* f = fopen(path, "wb");
  if (!f) sim::inconclusive("could not open the file");
  size_t k = 0;
  while (k < bytes.size()) {
    const size_t n = fwrite(bytes.data() + k, 1, bytes.size() - k, f);
    if (!n && !ferror(f)) break;
    clearerr(f);
    k += n;
  }
  fclose(f);
}
void read_file(const char* path, std::string* bytes) {
  const int64_t n = sim::disk::size(path);
  bytes->clear();
  if (n > 0) bytes->assign(reinterpret_cast<const char*>(sim::disk::data(path)), static_cast<size_t>(n));
}
void put32(std::string* b, size_t at, uint32_t v) {
  if (at + 4 <= b->size()) memcpy(&(*b)[at], &v, 4);
}
// What a bad disk does to the bytes.
bool damage(Rng& r, std::string* b, const std::string& stale) {
  static const uint32_t kWords[] = {0, 1, 2, 3, 5, 6, 7, 511, 512, 513, 1024, 65536, 0x40000000, 0x7fffffff, 0x80000000, 0xffffffff};
  const std::string before = *b;
  switch (sim::fault("storage_damage", 9, 0.85)) {
    case 0: return false;
    case 1:  // bit rot
      if (b->empty()) return false;
      for (uint64_t i = r.range(1, 3); i-- > 0;) (*b)[r.below(b->size())] ^= static_cast<char>(1u << r.below(8));
      break;
    case 2:  // lost tail (torn write)
      b->resize(r.chance(0.4) ? r.below(b->size() + 1) : b->size() - std::min<size_t>(b->size(), r.range(1, 24)));
      break;
    case 3:  // bytes of something else behind the record
      for (uint64_t i = r.range(1, 40); i-- > 0;) b->push_back(static_cast<char>(r.chance(0.5) ? 0 : r.next()));
      break;
    case 4:  // header words
      for (uint64_t i = r.range(1, 2); i-- > 0;)
        put32(b, 4 * r.below(std::min<size_t>(b->size() / 4 + 1, r.chance(0.8) ? 6 : 64)),
              r.chance(0.8) ? kWords[r.below(sizeof(kWords) / 4)] : static_cast<uint32_t>(r.next()));
      break;
    case 5: {  // a zeroed block
      if (b->empty()) return false;
      const size_t from = r.below(b->size()), n = std::min<size_t>(b->size() - from, r.range(1, 32));
      memset(&(*b)[from], 0, n);
      break;
    }
    case 6: {  // the head of this record, the tail of an older one
      const size_t cut = std::min<size_t>(stale.size(), r.below(b->size() + 1));
      *b = b->substr(0, cut) + stale.substr(cut);
      break;
    }
    case 7:  // header of an empty value with odd fields
      b->resize(std::min<size_t>(b->size(), r.chance(0.5) ? 16 : 24));
      put32(b, 4 * r.below(6), kWords[r.below(sizeof(kWords) / 4)]);
      break;
    case 8: {  // sizes whose product exceeds every memory, the body may be gone
      if (b->size() < 16) return false;
      const int rows = static_cast<int>(r.range(20, 31)), cols = static_cast<int>(r.range(20, 31));
      put32(b, 0, 1u << rows);
      put32(b, 4, r.chance(0.8) ? 1u << cols : static_cast<uint32_t>(r.range(1, 7)) << (cols - 3));
      const int left = std::max(0, 64 - rows - cols - static_cast<int>(r.below(4)));
      if (r.chance(0.8)) put32(b, 12, 1u << std::min(left, 9));
      if (r.chance(0.7)) b->resize(16);
      break;
    }
  }
  return *b != before;
}

template <typename T>
void serialize(const Channel<T>& c, int form, std::string* out) {
  if (form == 0) {
    if (!c.serializeToString(out)) sim::fail("C19", "serialize-refused", "serializing a valid value failed");
    return;
  }
  char* buffer = nullptr;
  size_t size = 0;
  if (!c.serializeToBuffer(&buffer, &size)) sim::fail("C19", "serialize-refused", "serializing a valid value failed");
  out->assign(buffer, size);
  delete[] buffer;
}
template <typename T>
bool deserialize(Channel<T>* c, int form, const std::string& bytes) {
  if (form == 0) return c->deSerializeFromString(bytes);
  // Exactly the bytes, so that a read behind them is seen.
  std::unique_ptr<char[]> exact(new char[bytes.size()]);
  memcpy(exact.get(), bytes.data(), bytes.size());
  return c->deSerializeFromBuffer(exact.get(), bytes.size());
}

// The number of bytes that a restored value claims to describe.
typedef unsigned __int128 Wide;
template <typename M>
Wide claimed(const M& m, decltype(m.rows(), m.cols())* = nullptr) {
  return 16 + static_cast<Wide>(m.rows()) * static_cast<Wide>(m.cols()) * sizeof(typename M::Scalar);
}
template <typename M>
Wide claimed(const std::vector<M>& v) {
  Wide n = sizeof(size_t);
  for (const M& m : v) n += claimed(m);
  return n;
}
Wide claimed(const cv::Mat& m) {
  return 16 + static_cast<Wide>(m.rows) * static_cast<Wide>(m.cols) * m.elemSize();
}
template <typename T>
typename std::enable_if<IsScalar<T>::value, Wide>::type claimed(const T&) { return 0; }

std::string* g_stale = nullptr;

template <typename T>
void store(const Op& op, bool may_damage) {
  Rng values(static_cast<uint64_t>(op.a[1]));
  Rng r(static_cast<uint64_t>(op.a[3]));
  const int form = static_cast<int>(op.a[2]) & 1;
  Channel<T> original, restored;
  fill(values, &original.value_);
  // The channel it is read into may hold another value.
  if (op.a[2] & 2) fill(r, &restored.value_);
  std::string bytes, read;
  serialize(original, form, &bytes);
  write_file(SIM_DISK_ROOT "channel", bytes);
  read_file(SIM_DISK_ROOT "channel", &read);
  if (read != bytes) sim::inconclusive("the simulated disk lost data");
  const std::string stale = *g_stale;
  *g_stale = bytes;
  // Scalars carry no redundancy; damage cannot be noticed.
  if (!may_damage || IsScalar<T>::value || !damage(r, &read, stale)) {
    sim::label("deserialize");
    const bool ok = deserialize(&restored, form, bytes);
    sim::label("");
    if (!ok || !same(original.value_, restored.value_))
      sim::fail("C19", "round-trip", "a value of type %d stored as %s came back %s", static_cast<int>(op.a[0]),
                form ? "a buffer" : "a string", ok ? "changed" : "as an error");
    if (!may_damage && !IsScalar<T>::value) {
      // The value does not depend on the bytes any more.
      const T copy = restored.value_;
      std::string twice;
      serialize(restored, form, &twice);
      if (twice != bytes) sim::fail("C19", "not-stable", "serializing the restored value gives other bytes");
      (void)copy;
    }
    sim::probe("intact");
    return;
  }
  sim::note("damaged record of %zu bytes, %zu read", bytes.size(), read.size());
  sim::set_abort_ok(true);
  bool ok = false;
  try {
    ok = deserialize(&restored, form, read);
  } catch (const std::exception&) {
    ok = false;
  }
  if (!ok) {
    sim::set_abort_ok(false);
    sim::probe("rejected");
    return;
  }
  if (!IsScalar<T>::value && claimed(restored.value_) != read.size())
    sim::fail("C19", "misread",
              "damaged bytes of a value of type %d (%zu bytes) were accepted as a value of another size",
              static_cast<int>(op.a[0]), read.size());
  // Still allowed to abort: an empty matrix of more than 2^31 rows cannot be
  // serialized.
  std::string again;
  serialize(restored, form, &again);
  sim::set_abort_ok(false);
  if (again != read)
    sim::fail("C19", "misread",
              "damaged bytes of a value of type %d were accepted as a value they do not describe (%zu bytes read, "
              "the accepted value has %zu)",
              static_cast<int>(op.a[0]), read.size(), again.size());
  sim::probe("accepted_equivalent");
}

typedef Eigen::Matrix<double, 3, 1> V3;
typedef Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic> MX;
typedef Eigen::Matrix<unsigned char, Eigen::Dynamic, Eigen::Dynamic> MB;
typedef Eigen::Matrix<double, 2, Eigen::Dynamic> M2X;
typedef Eigen::Matrix<float, Eigen::Dynamic, 3> MX3;
typedef Eigen::Matrix<int, Eigen::Dynamic, 1> VI;
typedef Eigen::Matrix<short, 2, 4> M24;

void run(const Plan& plan) {
  sim::set_default_props("C19");
  sim::set_stuck_props("C19");
  g_stale = new std::string;
  struct Comma : std::numpunct<char> {
    char do_decimal_point() const override { return ','; }
    char do_thousands_sep() const override { return '.'; }
    std::string do_grouping() const override { return "\3"; }
  };
  if (plan.cfg[kLocale]) std::locale::global(std::locale(std::locale::classic(), new Comma));
  sim::disk::set_mode(sim::disk::kBenign, -1);
  for (int i = 0; i < plan.th[0].n; ++i) {
    const Op& op = plan.th[0].ops[i];
    // The record that is damaged is the last one: reading it may abort.
    const bool d = plan.cfg[kDamage] && i + 1 == plan.th[0].n;
    switch (op.a[0]) {
      case 0: store<double>(op, d); break;
      case 1: store<float>(op, d); break;
      case 2: store<int>(op, d); break;
      case 3: store<uint32_t>(op, d); break;
      case 4: store<int64_t>(op, d); break;
      case 5: store<uint64_t>(op, d); break;
      case 6: store<bool>(op, d); break;
      case 7: store<V3>(op, d); break;
      case 8: store<MX>(op, d); break;
      case 9: store<MB>(op, d); break;
      case 10: store<M2X>(op, d); break;
      case 11: store<MX3>(op, d); break;
      case 12: store<VI>(op, d); break;
      case 13: store<M24>(op, d); break;
      case 14: store<std::vector<MX>>(op, d); break;
      case 15: store<std::vector<V3>>(op, d); break;
      case 16: store<std::vector<MB>>(op, d); break;
      case 17: store<std::vector<M2X>>(op, d); break;
      default: store<cv::Mat>(op, d); break;
    }
  }
}
void gen(Rng& r, Plan* p, sim::Env*, bool thorough) {
  p->add_cfg(r.chance(0.8), 0);
  p->add_cfg(r.chance(0.15), 0);  // of a country that writes 1.000,5
  p->nthreads = 1;
  const int n = static_cast<int>(r.range(1, thorough ? 6 : 4));
  for (int i = 0; i < n; ++i) {
    int64_t type = static_cast<int64_t>(r.below(kTypes));
    if (i + 1 == n && p->cfg[kDamage] && type < 7) type = r.range(7, kTypes - 1);
    if (i && r.chance(0.4)) type = p->th[0].ops[i - 1].a[0];
    if (r.chance(0.2)) type = 18;
    p->add(0, kStore, type, static_cast<int64_t>(r.next() >> 1), r.below(4), static_cast<int64_t>(r.next() >> 1));
  }
}
const sim::Harness h = {"channel_storage", "C19", gen, run};
sim::Registrar reg(&h);
}  // namespace
