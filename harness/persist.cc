// Simulated workloads for configuration files on a failing disk.
//   C20 a saved file is complete or the failure is reported; a load never
//       returns anything but what was saved
#include <aslam/common/sensor.h>
#include <aslam/common/yaml-serialization.h>

#include <cstring>
#include <limits>
#include <memory>
#include <sstream>
#include <string>
#include <thread>
#include <vector>

#include "simrt.h"

namespace {
using sim::Op;
using sim::Plan;
using sim::Rng;

typedef Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic> MX;
typedef Eigen::Matrix<double, 3, 1> V3;
typedef Eigen::Matrix<double, 4, 4> M4;
typedef Eigen::Matrix<double, Eigen::Dynamic, 1> VX;
typedef Eigen::Matrix<double, 1, Eigen::Dynamic> RX;
typedef Eigen::Matrix<float, Eigen::Dynamic, 3> F3;
typedef Eigen::Matrix<int, 2, Eigen::Dynamic> I2;

double value(Rng& r) {
  static const double k[] = {0.0, 1.0, -1.0, 1e-9, 1.0 / 3, -1e-300, 1e300, 0.1, 458.654, 123456.789012345, 5e-324};
  return r.chance(0.4) ? k[r.below(sizeof(k) / sizeof(double))] : r.range(-100000000, 100000000) / 7.0 * 1e-3;
}
void set(Rng& r, double* v) { *v = value(r); }
void set(Rng& r, float* v) { *v = static_cast<float>(r.range(-1000000, 1000000) / 3.0); }
void set(Rng& r, int* v) { *v = r.chance(0.2) ? std::numeric_limits<int>::min() : static_cast<int>(r.next()); }
template <typename S, int R, int C>
void randomize(Rng& r, int64_t max, Eigen::Matrix<S, R, C>* m) {
  m->resize(R == Eigen::Dynamic ? r.range(1, max) : R, C == Eigen::Dynamic ? r.range(1, max) : C);
  for (int i = 0; i < m->size(); ++i) set(r, m->data() + i);
}
template <typename S, int R, int C>
bool same(const Eigen::Matrix<S, R, C>& a, const Eigen::Matrix<S, R, C>& b) {
  if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
  for (int i = 0; i < a.size(); ++i)
    if (!(a.data()[i] == b.data()[i])) return false;
  return true;
}
std::string text(Rng& r) {
  static const char* const k[] = {"",    "/cam0/image_raw", "left: \"camera\"", "# no comment", "- dash", "two\nlines",
                                  "  ",  "true",            "0x1f",             "{a: b}",       "caf\xc3\xa9", "'"};
  std::string s = k[r.below(sizeof(k) / sizeof(*k))];
  // Some are longer than any stream buffer.
  if (r.chance(0.2)) s += std::string(static_cast<size_t>(r.chance(0.2) ? r.range(5000, 12000) : r.range(1, 900)), 'x');
  return s;
}

class SimSensor : public aslam::Sensor {
 public:
  SimSensor() : number(0) {}
  void randomizeAll(Rng& r) {
    aslam::SensorId id;
    aslam::generateId(&id);
    setId(id);
    setTopic(text(r));
    setDescription(text(r));
    set(r, &number);
    randomize(r, 4, &position);
    randomize(r, r.chance(0.05) ? 20 : 4, &table);
  }
  aslam::Sensor::Ptr cloneAsSensor() const override { return aslam::Sensor::Ptr(new SimSensor(*this)); }
  uint8_t getSensorType() const override { return aslam::SensorType::kUnknown; }
  std::string getSensorTypeString() const override { return "SIM"; }

  double number;
  V3 position;
  MX table;

 private:
  bool isValidImpl() const override { return true; }
  void setRandomImpl() override {}
  bool isEqualImpl(const aslam::Sensor& other, const bool) const override {
    const SimSensor* o = dynamic_cast<const SimSensor*>(&other);
    return o && number == o->number && same(position, o->position) && same(table, o->table);
  }
  bool loadFromYamlNodeImpl(const YAML::Node& n) override {
    return YAML::safeGet(n, "number", &number) && YAML::safeGet(n, "position", &position) &&
           YAML::safeGet(n, "table", &table);
  }
  void saveToYamlNodeImpl(YAML::Node* n) const override {
    (*n)["number"] = number;
    (*n)["position"] = position;
    (*n)["table"] = table;
  }
};

enum OpCode {
  kSave = 1,  // file, value seed
  kLoad,      // file
  kDelete,    // file
  kSleep,
  kLoadAs,    // file, type: read as a value of another shape
  kPut,       // file, value seed, type: a hand-written file
};
enum CfgIdx { kMode = 0, kDisk = 1 };
enum { kTypes = 8, kFilesPerThread = 2 };

struct Ctx {
  bool saving[sim::kMaxSimThreads];
  bool loading_partial[sim::kMaxSimThreads];  // what a failed save left behind
};
Ctx* C = nullptr;

void on_abort() {
  // Saving reports failure by aborting; only when the disk failed.
  if (C->loading_partial[sim::tid()]) sim::set_abort_ok(true);
  if (C->saving[sim::tid()] && sim::disk::open_errors() + sim::disk::write_errors() > 0) sim::set_abort_ok(true);
}
std::string content(const std::string& path) {
  sim::Quiet q;
  std::string s;
  const int64_t n = sim::disk::size(path.c_str());
  if (n > 0) s.assign(reinterpret_cast<const char*>(sim::disk::data(path.c_str())), static_cast<size_t>(n));
  return s;
}
const char* const kNames[] = {"sensor", "dynamic matrix", "3-vector", "4x4 matrix", "vector", "row vector",
                              "float matrix", "integer matrix"};

// One file that keeps values of one type.
struct File {
  virtual ~File() {}
  virtual void save(Rng& r) = 0;
  virtual void load(Rng& r) = 0;
  virtual void load_as(int) {}
  virtual void put(Rng&) {}
  std::string path;
  int type = 0;
  bool exists = false;  // some version is there
  bool known = false;   // and it is the value last saved
  bool malformed = false;  // the stated size and the values do not agree

 protected:
  void saved(bool ok, int errors_before, bool equal) {
    const bool failed = sim::disk::open_errors() + sim::disk::write_errors() > errors_before;
    exists = sim::disk::exists(path.c_str());
    if (ok && !equal)
      sim::fail("C20", "incomplete-save",
                "saving a %s reported success, but the file does not hold the value (%lld bytes, the disk reported "
                "%d errors)",
                kNames[type], (long long)sim::disk::size(path.c_str()),
                sim::disk::open_errors() + sim::disk::write_errors() - errors_before);
    if (!ok && !failed) sim::fail("C20", "save-refused", "saving a %s failed on a disk without errors", kNames[type]);
    known = ok;
    malformed = false;
    sim::probe(ok ? "saved" : "save_failed");
  }
  void loaded(bool ok, int errors_before, bool equal) {
    const bool failed = sim::disk::open_errors() + sim::disk::read_errors() > errors_before;
    if (ok && !exists) sim::fail("C20", "phantom", "loading a %s from a missing file reported success", kNames[type]);
    if (ok && malformed)
      sim::fail("C20", "wrong-load", "loading a %s whose values do not fit its stated size reported success", kNames[type]);
    if (ok && known && !equal)
      sim::fail("C20", "wrong-load", "loading a %s reported success but gave another value than the one saved%s",
                kNames[type], failed ? " (the disk reported a read error)" : "");
    if (!ok && known && !failed)
      sim::fail("C20", "load-refused", "loading a completely saved %s failed on a disk without errors", kNames[type]);
    sim::probe(ok ? "loaded" : "load_failed");
  }
};

struct SensorFile : File {
  SimSensor value;
  void save(Rng& r) override {
    value.randomizeAll(r);
    const int e = sim::disk::open_errors() + sim::disk::write_errors();
    C->saving[sim::tid()] = true;
    value.serializeToFile(path);
    C->saving[sim::tid()] = false;
    bool equal = false;
    try {
      SimSensor back;
      equal = back.deserialize(YAML::Load(content(path))) && back.isEqual(value, false);
    } catch (const std::exception&) {
    }
    saved(true, e, equal);
  }
  void load(Rng& r) override {
    SimSensor back;
    if (r.chance(0.5)) back.randomizeAll(r);  // what it held before does not matter
    const int e = sim::disk::open_errors() + sim::disk::read_errors();
    const bool ok = back.deserializeFromFile(path);
    loaded(ok, e, ok && back.isEqual(value, false));
  }
};
template <typename T>
struct MatrixFile : File {
  T value;
  void save(Rng& r) override {
    randomize(r, r.chance(0.1) ? 30 : 4, &value);
    const int e = sim::disk::open_errors() + sim::disk::write_errors();
    C->saving[sim::tid()] = true;
    const bool ok = YAML::Save(value, path);
    C->saving[sim::tid()] = false;
    bool equal = false;
    try {
      if (ok) {
        T back = YAML::Load(content(path)).as<T>();
        equal = same(back, value);
      }
    } catch (const std::exception&) {
    }
    saved(ok, e, equal);
  }
  void load(Rng& r) override {
    T back;
    if (r.chance(0.5)) randomize(r, 4, &back);
    const int e = sim::disk::open_errors() + sim::disk::read_errors();
    const bool ok = YAML::Load(path, &back);
    loaded(ok, e, ok && same(back, value));
  }
  // A file as a person writes it, sometimes with a mistake.
  void put(Rng& r) override {
    randomize(r, 4, &value);
    const int rows = static_cast<int>(value.rows()), cols = static_cast<int>(value.cols());
    YAML::Node n;
    n["rows"] = rows;
    n["cols"] = cols;
    YAML::Node data(YAML::NodeType::Sequence);
    const uint64_t mistake = r.below(6);  // 0: a value too much, 1: one missing, 2: a row too much, 3: a row missing
    bool wrong = false;
    if (r.chance(0.4)) {
      for (int i = 0; i < rows; ++i)
        for (int j = 0; j < cols; ++j) data.push_back(number(value(i, j)));
      if (mistake < 2) {
        const bool more = mistake == 0;
        if (more) data.push_back(number(value(0, 0)));
        else data.remove(data.size() - 1);
        wrong = true;
      }
    } else {
      const int bad_row = static_cast<int>(r.below(rows));
      for (int i = 0; i < rows; ++i) {
        YAML::Node row(YAML::NodeType::Sequence);
        for (int j = 0; j < cols; ++j) row.push_back(number(value(i, j)));
        if (mistake == 0 && i == bad_row) {
          row.push_back(number(value(i, 0)));
          wrong = true;
        }
        if (mistake == 1 && i == bad_row && cols > 1) {
          row.remove(cols - 1);
          wrong = true;
        }
        data.push_back(row);
        if (mistake == 2 && i == bad_row) {
          for (uint64_t k = r.range(1, 3); k; --k) data.push_back(YAML::Clone(row));
          wrong = true;
        }
      }
      if (mistake == 3) {
        data.remove(data.size() - 1);
        wrong = true;
      }
    }
    n["data"] = data;
    const std::string s = YAML::Dump(n);
    {
      sim::Quiet q;
      sim::disk::put(path.c_str(), s.data(), s.size());
    }
    exists = true;
    known = !wrong;
    malformed = wrong;
    sim::probe(wrong ? "hand_written_with_mistake" : "hand_written");
  }
  template <typename S>
  static std::string number(const S& v) {
    std::ostringstream o;
    o.precision(17);
    o << v;
    return o.str();
  }
  template <typename U>
  void load_other() {
    U other;
    if (!YAML::Load(path, &other) || !known) return;
    if (other.rows() != value.rows() || other.cols() != value.cols())
      sim::fail("C20", "wrong-shape", "a saved %s of %d x %d was loaded as one of %d x %d", kNames[type],
                (int)value.rows(), (int)value.cols(), (int)other.rows(), (int)other.cols());
    sim::probe("loaded_as_other_type");
  }
  void load_as(int t) override {
    switch (t) {
      case 1: load_other<MX>(); break;
      case 2: load_other<V3>(); break;
      case 3: load_other<M4>(); break;
      case 4: load_other<VX>(); break;
      case 5: load_other<RX>(); break;
    }
  }
};
File* make(int type) {
  switch (type) {
    case 0: return new SensorFile;
    case 1: return new MatrixFile<MX>;
    case 2: return new MatrixFile<V3>;
    case 3: return new MatrixFile<M4>;
    case 4: return new MatrixFile<VX>;
    case 5: return new MatrixFile<RX>;
    case 6: return new MatrixFile<F3>;
    default: return new MatrixFile<I2>;
  }
}

void body(int me, const sim::PlanThread& ops) {
  std::unique_ptr<File> file[kFilesPerThread];
  for (int i = 0; i < ops.n; ++i) {
    const Op& op = ops.ops[i];
    const int f = static_cast<int>(op.a[0]) % kFilesPerThread;
    if (op.code != kSleep && !file[f]) {
      // The type of a file is decided by its first operation.
      const int type = static_cast<int>(op.a[2]) % kTypes;
      file[f].reset(make(type));
      file[f]->type = type;
      file[f]->path = SIM_DISK_ROOT "t" + std::to_string(me) + "_" + std::to_string(f) + ".yaml";
    }
    switch (op.code) {
      case kSave: {
        Rng r(static_cast<uint64_t>(op.a[1]));
        file[f]->save(r);
        break;
      }
      case kLoad:
        C->loading_partial[sim::tid()] = file[f]->exists && !file[f]->known;
        {
          Rng r(static_cast<uint64_t>(op.a[1]));
          file[f]->load(r);
        }
        C->loading_partial[sim::tid()] = false;
        break;
      case kLoadAs:
        C->loading_partial[sim::tid()] = file[f]->exists && !file[f]->known;
        file[f]->load_as(static_cast<int>(op.a[3]));
        C->loading_partial[sim::tid()] = false;
        break;
      case kDelete:
        sim::disk::remove(file[f]->path.c_str());
        file[f]->exists = file[f]->known = file[f]->malformed = false;
        break;
      case kPut: {
        Rng r(static_cast<uint64_t>(op.a[1]));
        file[f]->put(r);
        break;
      }
      case kSleep: sim::advance_time(op.a[0]); break;
    }
  }
}

void run(const Plan& plan) {
  sim::set_default_props("C20");
  sim::set_stuck_props("C20");
  C = new Ctx;
  for (bool& s : C->saving) s = false;
  for (bool& s : C->loading_partial) s = false;
  sim::set_abort_callback(on_abort);
  sim::disk::set_mode(static_cast<int>(plan.cfg[kMode]), plan.cfg[kDisk]);
  std::vector<std::thread> threads;
  for (int t = 0; t < plan.nthreads; ++t)
    threads.emplace_back([t, &plan]() { body(t, plan.th[t]); });
  for (std::thread& t : threads) t.join();
  if (sim::disk::open_files()) sim::fail("C20", "file-left-open", "a file is still open after all saves and loads");
}
void gen(Rng& r, Plan* p, sim::Env* env, bool thorough) {
  env->io_faults = true;
  const int64_t mode = r.chance(0.25) ? sim::disk::kBenign : r.chance(0.1) ? sim::disk::kNone : sim::disk::kErrors;
  p->add_cfg(mode, 0);
  p->add_cfg(mode == sim::disk::kErrors && r.chance(0.3) ? r.range(0, 20000) : -1, -1);
  p->nthreads = static_cast<int>(r.chance(0.5) ? 1 : r.range(2, 3));
  for (int t = 0; t < p->nthreads; ++t) {
    const int n = static_cast<int>(r.range(1, thorough ? 10 : 6));
    const int64_t type[kFilesPerThread] = {static_cast<int64_t>(r.chance(0.4) ? 0 : r.below(kTypes)),
                                           static_cast<int64_t>(r.chance(0.4) ? 0 : r.below(kTypes))};
    for (int i = 0; i < n; ++i) {
      const int64_t f = static_cast<int64_t>(r.chance(0.3));
      const uint64_t w = i == 0 && r.chance(0.9) ? 0 : r.below(12);
      if (w < 6 && type[f] && r.chance(0.3)) p->add(t, kPut, f, static_cast<int64_t>(r.next() >> 1), type[f]);
      else if (w < 6) p->add(t, kSave, f, static_cast<int64_t>(r.next() >> 1), type[f]);
      else if (w < 8 && type[f]) p->add(t, kLoadAs, f, 0, type[f], r.range(1, 5));
      else if (w < 11) p->add(t, kLoad, f, static_cast<int64_t>(r.next() >> 1), type[f]);
      else if (w < 12) p->add(t, kDelete, f, 0, type[f]);
    }
  }
}
const sim::Harness h = {"persist_files", "C20", gen, run};
sim::Registrar reg(&h);
}  // namespace
