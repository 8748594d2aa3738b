// Simulated workloads for the content of visual frames.
//   C26 a frame keeps what was put into it, feature by feature
#include <aslam/cameras/camera-pinhole.h>
#include <aslam/frames/visual-frame.h>
#include <aslam/tracker/tracking-helpers.h>

#include <memory>
#include <string>
#include <thread>
#include <vector>

#include "simrt.h"

namespace {
using sim::Op;
using sim::Plan;
using sim::Rng;

enum { kOwn = 3, kShared = 2, kMaxFeatures = 24 };
enum Channel { kMeas = 0, kUnc, kOri, kScore, kScale, kPos3, kOffset, kTrack, kChannels };
const char* const kChannelName[] = {"keypoint measurements", "measurement uncertainties", "orientations", "scores",
                                    "scales",                "3D positions",              "time offsets", "track ids"};
const int kChannelRows[] = {2, 1, 1, 1, 1, 3, 1, 1};
enum OpCode {
  kExtend = 1,  // frame, seed, channels, number of features and descriptor type
  kSetAll,      // frame, seed, channels, number of features
  kSwap,        // frame, seed, channel
  kClear,       // frame
  kDiscard,     // frame, seed
  kCopy,        // frame, other frame, assign?
  kEdit,        // frame, seed: through a mutable reference
  kStore,       // frame, seed: descriptors as bytes to another frame
  kImage,       // frame, seed: raw image set, released
  kHeader,      // frame, seed: time stamp, validity
  kCompare,     // frame, frame
  kBearings,    // frame, seed
  kMistake,     // frame, seed, kind
  kChannelOnly, // shared frame 1: every thread fills a channel of its own
  kInsert,      // frame, seed, keypoints: as a feature detector delivers them
};
enum CfgIdx { kCfgFeatures = 0 };

struct Block {
  int type = 0, rows = 0, cols = 0;
  std::vector<unsigned char> bytes;
};
struct Model {
  bool has[kChannels];
  std::vector<double> data[kChannels];  // column by column
  bool has_descriptors = false;
  std::vector<Block> blocks;
  int image = 0;  // 0: none
  int64_t stamp = 0;
  bool valid = true;
  Model() { for (bool& h : has) h = false; }
  int size(int c) const { return static_cast<int>(data[c].size()) / kChannelRows[c]; }
  int features() const { return has[kMeas] ? size(kMeas) : 0; }
  int descriptors() const {
    int n = 0;
    for (const Block& b : blocks) n += b.cols;
    return n;
  }
  // All present channels describe the same features.
  bool complete() const {
    for (int c = 0; c < kChannels; ++c)
      if (has[c] && size(c) != features()) return false;
    return !has_descriptors || descriptors() == features();
  }
};
struct Slot {
  std::unique_ptr<aslam::VisualFrame> frame;
  Model m;
};
struct Ctx {
  aslam::Camera::Ptr camera, other_camera;
  Slot own[sim::kMaxThreads][kOwn], shared[kShared];
  bool mistake[sim::kMaxSimThreads];
  int value = 0;  // every value put into a frame is another one
};
Ctx* C = nullptr;
void on_abort() {
  if (C->mistake[sim::tid()]) sim::set_abort_ok(true);
}
int next_value() {
  sim::Quiet q;
  return ++C->value;
}

// --------------------------------------------------------- access by channel
bool has(const aslam::VisualFrame& f, int c) {
  switch (c) {
    case kMeas: return f.hasKeypointMeasurements();
    case kUnc: return f.hasKeypointMeasurementUncertainties();
    case kOri: return f.hasKeypointOrientations();
    case kScore: return f.hasKeypointScores();
    case kScale: return f.hasKeypointScales();
    case kPos3: return f.hasKeypoint3DPositions();
    case kOffset: return f.hasKeypointTimeOffsets();
    default: return f.hasTrackIds();
  }
}
template <typename M>
std::vector<double> columns(const M& m) {
  std::vector<double> v;
  for (int j = 0; j < m.cols(); ++j)
    for (int i = 0; i < m.rows(); ++i) v.push_back(static_cast<double>(m(i, j)));
  return v;
}
std::vector<double> read(const aslam::VisualFrame& f, int c) {
  switch (c) {
    case kMeas: return columns(f.getKeypointMeasurements());
    case kUnc: return columns(f.getKeypointMeasurementUncertainties());
    case kOri: return columns(f.getKeypointOrientations());
    case kScore: return columns(f.getKeypointScores());
    case kScale: return columns(f.getKeypointScales());
    case kPos3: return columns(f.getKeypoint3DPositions());
    case kOffset: return columns(f.getKeypointTimeOffsets());
    default: return columns(f.getTrackIds());
  }
}
std::vector<double> read_type(const aslam::VisualFrame& f, int c, int type) {
  switch (c) {
    case kMeas: return columns(f.getKeypointMeasurementsOfType(type));
    case kUnc: return columns(f.getKeypointMeasurementUncertaintiesOfType(type));
    case kOri: return columns(f.getKeypointOrientationsOfType(type));
    case kScore: return columns(f.getKeypointScoresOfType(type));
    case kScale: return columns(f.getKeypointScalesOfType(type));
    case kPos3: return columns(f.getKeypoint3DPositionsOfType(type));
    case kOffset: return columns(f.getKeypointTimeOffsetsOfType(type));
    default: return columns(f.getTrackIdsOfType(type));
  }
}
std::vector<double> read_one(const aslam::VisualFrame& f, int c, size_t i) {
  switch (c) {
    case kMeas: return columns(f.getKeypointMeasurement(i));
    case kUnc: return {f.getKeypointMeasurementUncertainty(i)};
    case kOri: return {f.getKeypointOrientation(i)};
    case kScore: return {f.getKeypointScore(i)};
    case kScale: return {f.getKeypointScale(i)};
    case kPos3: return columns(f.getKeypoint3DPosition(i));
    case kOffset: return {static_cast<double>(f.getKeypointTimeOffset(i))};
    default: return {static_cast<double>(f.getTrackId(i))};
  }
}
std::vector<double> read_one_type(const aslam::VisualFrame& f, int c, size_t i, int type) {
  switch (c) {
    case kMeas: return columns(f.getKeypointMeasurementOfType(i, type));
    case kUnc: return {f.getKeypointMeasurementUncertaintyOfType(i, type)};
    case kOri: return {f.getKeypointOrientationOfType(i, type)};
    case kScore: return {f.getKeypointScoreOfType(i, type)};
    case kScale: return {f.getKeypointScaleOfType(i, type)};
    case kPos3: return columns(f.getKeypoint3DPositionOfType(i, type));
    case kOffset: return {static_cast<double>(f.getKeypointTimeOffsetOfType(i, type))};
    default: return {static_cast<double>(f.getTrackIdOfType(i, type))};
  }
}
template <typename M>
M matrix(const std::vector<double>& v, int rows) {
  M m(rows, static_cast<int>(v.size()) / rows);
  for (size_t i = 0; i < v.size(); ++i) m(i % rows, i / rows) = static_cast<typename M::Scalar>(v[i]);
  return m;
}
template <typename V>
V vec(const std::vector<double>& v) {
  V x(v.size());
  for (size_t i = 0; i < v.size(); ++i) x(i) = static_cast<typename V::Scalar>(v[i]);
  return x;
}
typedef Eigen::VectorXd D;
typedef Eigen::VectorXi I;
typedef Eigen::Matrix2Xd M2;
typedef Eigen::Matrix3Xd M3;
void set(aslam::VisualFrame* f, int c, const std::vector<double>& v) {
  switch (c) {
    case kMeas: f->setKeypointMeasurements(matrix<M2>(v, 2)); break;
    case kUnc: f->setKeypointMeasurementUncertainties(vec<D>(v)); break;
    case kOri: f->setKeypointOrientations(vec<D>(v)); break;
    case kScore: f->setKeypointScores(vec<D>(v)); break;
    case kScale: f->setKeypointScales(vec<D>(v)); break;
    case kPos3: f->setKeypoint3DPositions(matrix<M3>(v, 3)); break;
    case kOffset: f->setKeypointTimeOffsets(vec<I>(v)); break;
    default: f->setTrackIds(vec<I>(v)); break;
  }
}
// Returns what was swapped out.
std::vector<double> swap_in(aslam::VisualFrame* f, int c, const std::vector<double>& v) {
  switch (c) {
    case kMeas: { M2 m = matrix<M2>(v, 2); f->swapKeypointMeasurements(&m); return columns(m); }
    case kPos3: { M3 m = matrix<M3>(v, 3); f->swapKeypoint3DPositions(&m); return columns(m); }
    case kOffset: { I m = vec<I>(v); f->swapKeypointTimeOffsets(&m); return columns(m); }
    case kTrack: { I m = vec<I>(v); f->swapTrackIds(&m); return columns(m); }
    default: break;
  }
  D m = vec<D>(v);
  switch (c) {
    case kUnc: f->swapKeypointMeasurementUncertainties(&m); break;
    case kOri: f->swapKeypointOrientations(&m); break;
    case kScore: f->swapKeypointScores(&m); break;
    default: f->swapKeypointScales(&m); break;
  }
  return columns(m);
}
void extend(aslam::VisualFrame* f, int c, const std::vector<double>& v, bool with_default, int def) {
  switch (c) {
    case kMeas: f->extendKeypointMeasurements(matrix<M2>(v, 2)); break;
    case kUnc: with_default ? f->extendKeypointMeasurementUncertainties(vec<D>(v), def) : f->extendKeypointMeasurementUncertainties(vec<D>(v)); break;
    case kOri: with_default ? f->extendKeypointOrientations(vec<D>(v), def) : f->extendKeypointOrientations(vec<D>(v)); break;
    case kScore: with_default ? f->extendKeypointScores(vec<D>(v), def) : f->extendKeypointScores(vec<D>(v)); break;
    case kScale: with_default ? f->extendKeypointScales(vec<D>(v), def) : f->extendKeypointScales(vec<D>(v)); break;
    case kPos3: with_default ? f->extendKeypoint3DPositions(matrix<M3>(v, 3), def) : f->extendKeypoint3DPositions(matrix<M3>(v, 3)); break;
    case kOffset: with_default ? f->extendKeypointTimeOffsets(vec<I>(v), def) : f->extendKeypointTimeOffsets(vec<I>(v)); break;
    default: with_default ? f->extendTrackIds(vec<I>(v), def) : f->extendTrackIds(vec<I>(v)); break;
  }
}
void edit(aslam::VisualFrame* f, int c, int i, double v) {
  switch (c) {
    case kMeas: (*f->getKeypointMeasurementsMutable())(0, i) = v; break;
    case kUnc: (*f->getKeypointMeasurementUncertaintiesMutable())(i) = v; break;
    case kOri: (*f->getKeypointOrientationsMutable())(i) = v; break;
    case kScore: (*f->getKeypointScoresMutable())(i) = v; break;
    case kScale: (*f->getKeypointScalesMutable())(i) = v; break;
    case kPos3: (*f->getKeypoint3DPositionsMutable())(0, i) = v; break;
    case kOffset: (*f->getKeypointTimeOffsetsMutable())(i) = static_cast<int>(v); break;
    default: (*f->getTrackIdsMutable())(i) = static_cast<int>(v); break;
  }
}

std::vector<double> values(Rng& r, int c, int n) {
  std::vector<double> v;
  for (int i = 0; i < n * kChannelRows[c]; ++i) {
    const int x = next_value();
    v.push_back(c == kTrack && r.chance(0.4) ? -1 - static_cast<int>(r.below(2)) : c == kTrack && r.chance(0.1) ? 0 : x);
  }
  return v;
}
aslam::VisualFrame::DescriptorsT descriptors(int rows, int cols) {
  aslam::VisualFrame::DescriptorsT d(rows, cols);
  for (int j = 0; j < cols; ++j) {
    const int x = next_value();
    for (int i = 0; i < rows; ++i) d(i, j) = static_cast<unsigned char>(x * 7 + i * 31);
  }
  return d;
}
Block block(const aslam::VisualFrame::DescriptorsT& d, int type) {
  Block b;
  b.type = type;
  b.rows = static_cast<int>(d.rows());
  b.cols = static_cast<int>(d.cols());
  b.bytes.assign(d.data(), d.data() + d.size());
  return b;
}
cv::Mat image(int id) {
  const int type = id % 3 == 0 ? CV_8UC3 : CV_8UC1;
  cv::Mat m(2 + id % 4, 3 + id % 5, type);
  for (int y = 0; y < m.rows; ++y)
    for (size_t x = 0; x < m.cols * m.elemSize(); ++x) m.ptr(y)[x] = static_cast<unsigned char>(id * 13 + y * 5 + x);
  return m;
}
bool image_is(const cv::Mat& m, int id) {
  const cv::Mat want = image(id);
  if (m.rows != want.rows || m.cols != want.cols || m.type() != want.type()) return false;
  for (int y = 0; y < m.rows; ++y)
    if (memcmp(m.ptr(y), want.ptr(y), m.cols * m.elemSize())) return false;
  return true;
}

std::string text(const std::vector<double>& v) {
  std::string s;
  for (size_t i = 0; i < v.size() && i < 12; ++i) s += (i ? " " : "") + std::to_string(static_cast<long>(v[i]));
  return "(" + s + ")";
}

// Compares the whole frame with the model, through all its getters.
void expect(const Slot& s, const char* what) {
  sim::Quiet q;
  const aslam::VisualFrame& f = *s.frame;
  const Model& m = s.m;
  if (f.getNumKeypointMeasurements() != static_cast<size_t>(m.features()))
    sim::fail("C26", "count", "after %s the frame reports %zu features instead of %d", what, f.getNumKeypointMeasurements(), m.features());
  for (int c = 0; c < kChannels; ++c) {
    if (has(f, c) != m.has[c]) sim::fail("C26", "channel", "after %s the frame %s %s", what, m.has[c] ? "has no" : "has", kChannelName[c]);
    if (!m.has[c]) continue;
    const std::vector<double> got = read(f, c);
    if (got != m.data[c])
      sim::fail("C26", "content", "after %s the %s are %s, expected %s", what, kChannelName[c], text(got).c_str(), text(m.data[c]).c_str());
    const int rows = kChannelRows[c];
    for (int i = 0; i < m.size(c); ++i)
      if (read_one(f, c, i) != std::vector<double>(m.data[c].begin() + i * rows, m.data[c].begin() + (i + 1) * rows))
        sim::fail("C26", "content", "after %s the getter of feature %d returns wrong %s", what, i, kChannelName[c]);
  }
  if (f.hasDescriptors() != m.has_descriptors) sim::fail("C26", "channel", "after %s the frame %s descriptors", what, m.has_descriptors ? "has no" : "has");
  if (f.getNumDescriptors() != static_cast<size_t>(m.descriptors()))
    sim::fail("C26", "count", "after %s the frame reports %zu descriptors instead of %d", what, f.getNumDescriptors(), m.descriptors());
  if (m.has_descriptors) {
    const Eigen::VectorXi& types = f.getDescriptorTypes();
    if (types.size() != static_cast<int>(m.blocks.size())) sim::fail("C26", "blocks", "after %s there are %d descriptor types for %zu blocks", what, (int)types.size(), m.blocks.size());
    int start = 0;
    for (size_t b = 0; b < m.blocks.size(); ++b) {
      const Block& want = m.blocks[b];
      const Block got = block(f.getDescriptors(b), types(b));
      if (got.type != want.type || got.cols != want.cols || got.bytes != want.bytes || (want.cols && got.rows != want.rows))
        sim::fail("C26", "descriptors", "after %s descriptor block %zu (%d descriptors of type %d) has %d of type %d or other bytes", what, b, want.cols, want.type, got.cols, got.type);
      if (f.getDescriptorBlockType(b) != want.type || f.getDescriptorSizeBytes(b) != static_cast<size_t>(got.rows))
        sim::fail("C26", "descriptors", "after %s type or size of descriptor block %zu are wrong", what, b);
      for (int i = 0; i < want.cols; ++i) {
        if (want.rows && memcmp(f.getDescriptor(start + i), &want.bytes[i * want.rows], want.rows))
          sim::fail("C26", "descriptors", "after %s the descriptor of feature %d is wrong", what, start + i);
        if (f.getDescriptorType(start + i) != want.type)
          sim::fail("C26", "descriptors", "after %s the descriptor of feature %d has type %d instead of %d", what, start + i, f.getDescriptorType(start + i), want.type);
      }
      start += want.cols;
    }
    for (int type = -1; type < 4; ++type) {
      int b = -1, at = 0;
      for (int i = 0; i < static_cast<int>(m.blocks.size()) && b < 0; ++i) {
        if (m.blocks[i].type == type) b = i;
        else at += m.blocks[i].cols;
      }
      if (f.hasDescriptorType(type) != (b >= 0)) sim::fail("C26", "types", "after %s the frame %s descriptors of type %d", what, b >= 0 ? "has no" : "has", type);
      const int n = b >= 0 ? m.blocks[b].cols : 0;
      if (f.getNumKeypointMeasurementsOfType(type) != static_cast<size_t>(m.has[kMeas] ? n : 0))
        sim::fail("C26", "types", "after %s the frame reports %zu features of type %d instead of %d", what, f.getNumKeypointMeasurementsOfType(type), type, n);
      if (b < 0) continue;
      size_t s0 = 77, s1 = 77;
      f.getDescriptorBlockTypeStartAndSize(type, &s0, &s1);
      if (s0 != static_cast<size_t>(at) || s1 != static_cast<size_t>(n) || f.getDescriptorTypeBlock(type) != static_cast<size_t>(b))
        sim::fail("C26", "types", "after %s the features of type %d start at %zu (%zu of them) instead of %d (%d)", what, type, s0, s1, at, n);
      if (block(f.getDescriptorsOfType(type), type).bytes != m.blocks[b].bytes || (n && f.getDescriptorTypeSizeBytes(type) != static_cast<size_t>(m.blocks[b].rows)))
        sim::fail("C26", "types", "after %s the descriptors of type %d are wrong", what, type);
      for (int c = 0; c < kChannels; ++c) {
        if (!m.has[c] || m.size(c) < at + n) continue;
        const int rows = kChannelRows[c];
        const std::vector<double> want(m.data[c].begin() + at * rows, m.data[c].begin() + (at + n) * rows);
        if (read_type(f, c, type) != want)
          sim::fail("C26", "types", "after %s the %s of type %d are %s, expected %s", what, kChannelName[c], type, text(read_type(f, c, type)).c_str(), text(want).c_str());
        for (int i = 0; i < n; ++i)
          if (read_one_type(f, c, i, type) != std::vector<double>(want.begin() + i * rows, want.begin() + (i + 1) * rows))
            sim::fail("C26", "types", "after %s the getter of feature %d of type %d returns wrong %s", what, i, type, kChannelName[c]);
      }
    }
  }
  if (f.hasRawImage() != (m.image != 0)) sim::fail("C26", "image", "after %s the frame %s a raw image", what, m.image ? "has no" : "has");
  if (m.image && !image_is(f.getRawImage(), m.image)) sim::fail("C26", "image", "after %s the raw image is another one", what);
  if (f.getTimestampNanoseconds() != m.stamp || f.isValid() != m.valid) sim::fail("C26", "header", "after %s time stamp or validity are wrong", what);
  if (f.getCameraGeometry() != C->camera) sim::fail("C26", "header", "after %s the camera is another one", what);
}

bool same(const Model& a, const Model& b) {
  for (int c = 0; c < kChannels; ++c)
    if (a.has[c] != b.has[c] || a.data[c] != b.data[c]) return false;
  if (a.has_descriptors != b.has_descriptors || a.blocks.size() != b.blocks.size()) return false;
  for (size_t i = 0; i < a.blocks.size(); ++i)
    if (a.blocks[i].type != b.blocks[i].type || a.blocks[i].cols != b.blocks[i].cols || a.blocks[i].rows != b.blocks[i].rows || a.blocks[i].bytes != b.blocks[i].bytes) return false;
  return a.image == b.image && a.stamp == b.stamp && a.valid == b.valid;
}

void extend_all(Slot* s, Rng& r, uint64_t channels, int n, int type) {
  Model& m = s->m;
  if (m.features() + n > kMaxFeatures) return;
  // Features may lack descriptors only if they come last.
  if (m.has_descriptors ? m.descriptors() != m.features() : m.features() != 0) channels &= ~256ull;
  if (m.has_descriptors && m.descriptors() == m.features()) channels |= 256;
  for (int c = 0; c < kChannels; ++c) {
    if (c != kMeas && !(channels >> c & 1)) continue;
    if (c != kMeas && m.has[c] && m.size(c) + n > m.features()) continue;
    const std::vector<double> v = values(r, c, n);
    const bool with_default = r.chance(0.5);
    const int def = with_default ? -20 - static_cast<int>(r.below(10)) : c == kOffset || c == kTrack ? -1 : 0;
    extend(s->frame.get(), c, v, with_default, def);
    m.has[c] = true;
    if (c != kMeas)
      while (m.size(c) + n < m.features()) {
        for (int k = 0; k < kChannelRows[c]; ++k) m.data[c].push_back(def);
        sim::probe("padded");
      }
    m.data[c].insert(m.data[c].end(), v.begin(), v.end());
  }
  if (channels & 256) {
    const aslam::VisualFrame::DescriptorsT d = descriptors(2 + type * 3, n);
    s->frame->extendDescriptors(d, type);
    m.has_descriptors = true;
    m.blocks.push_back(block(d, type));
    if (m.blocks.size() > 1) sim::probe("several_blocks");
  }
}

void discard(Slot* s, Rng& r) {
  Model& m = s->m;
  if (!m.complete()) return;
  if (!m.has[kTrack]) {
    const std::vector<double> v = values(r, kTrack, m.features());
    set(s->frame.get(), kTrack, v);
    m.has[kTrack] = true;
    m.data[kTrack] = v;
  }
  if (!m.has[kMeas]) return;
  std::vector<size_t> got, want;
  got.push_back(99);
  for (int i = 0; i < m.features(); ++i)
    if (m.data[kTrack][i] < 0) want.push_back(i);
  s->frame->discardUntrackedObservations(&got);
  sim::Quiet q;
  if (got != want) sim::fail("C26", "discarded", "discarding reported %zu features, %zu are not tracked", got.size(), want.size());
  if (!want.empty()) sim::probe(m.blocks.size() > 1 ? "discarded_from_several_blocks" : "discarded");
  std::vector<char> gone(m.features() + 1, 0);
  for (size_t i : want) gone[i] = 1;
  for (int c = 0; c < kChannels; ++c) {
    if (!m.has[c]) continue;
    std::vector<double> left;
    for (size_t i = 0; i < m.data[c].size(); ++i)
      if (!gone[i / kChannelRows[c]]) left.push_back(m.data[c][i]);
    m.data[c] = left;
  }
  int at = 0;
  for (Block& b : m.blocks) {
    Block left = b;
    left.bytes.clear();
    left.cols = 0;
    for (int i = 0; i < b.cols; ++i)
      if (!gone[at + i]) {
        left.bytes.insert(left.bytes.end(), b.bytes.begin() + i * b.rows, b.bytes.begin() + (i + 1) * b.rows);
        ++left.cols;
      }
    at += b.cols;
    b = left;
  }
}

void clear(Slot* s) {
  Model& m = s->m;
  s->frame->clearKeypointChannels();
  sim::Quiet q;
  for (int c = 0; c < kChannels; ++c) {
    if (c != kPos3 && c != kOffset) m.has[c] = true;
    m.data[c].clear();
  }
  if (!s->frame->hasDescriptors() || s->frame->getNumDescriptors()) sim::fail("C26", "content", "after clearing the frame has %zu descriptors", s->frame->getNumDescriptors());
  m.has_descriptors = true;
  const size_t blocks = s->frame->getDescriptorTypes().size();
  if (blocks > 1) sim::fail("C26", "blocks", "after clearing the frame has %zu descriptor blocks", blocks);
  m.blocks.clear();
  for (size_t i = 0; i < blocks; ++i) m.blocks.push_back(block(s->frame->getDescriptors(i), s->frame->getDescriptorTypes()(i)));
}

// OpenCV keypoints and descriptors, into an empty frame or after its features.
bool insert(Slot* s, Rng& r, int n) {
  Model& m = s->m;
  const bool empty = m.features() == 0;
  if (empty ? m.blocks.size() > 1 : m.blocks.size() != 1 || !m.complete()) return false;
  for (int c = 0; c < kChannels; ++c)
    if (empty ? m.size(c) != 0 : m.has[c] != (c != kPos3 && c != kOffset)) return false;
  if (empty && m.descriptors()) return false;
  if (m.features() + n > kMaxFeatures) return false;
  const int rows = empty ? static_cast<int>(r.range(1, 8)) : m.blocks[0].rows, uncertainty = static_cast<int>(r.range(1, 9));
  std::vector<cv::KeyPoint> k(n);
  cv::Mat d(n, rows, CV_8UC1);
  const int type = empty ? 0 : m.blocks[0].type;
  Block b;
  b.type = type;
  b.rows = rows;
  b.cols = n;
  {
    sim::Quiet q;
    if (!empty) b = m.blocks[0];
    b.cols = m.features() + n;
    for (int i = 0; i < n; ++i) {
      const int x = next_value(), y = next_value(), response = next_value(), size = next_value(), angle = next_value();
      k[i].pt = cv::Point2f(static_cast<float>(x), static_cast<float>(y));
      k[i].response = static_cast<float>(response);
      k[i].size = static_cast<float>(size);
      k[i].angle = static_cast<float>(angle);
      k[i].octave = next_value();
      k[i].class_id = next_value();
      m.data[kMeas].push_back(x);
      m.data[kMeas].push_back(y);
      m.data[kScore].push_back(response);
      m.data[kScale].push_back(size);
      m.data[kOri].push_back(angle);
      m.data[kUnc].push_back(uncertainty);
      m.data[kTrack].push_back(-1);
      for (int j = 0; j < rows; ++j) {
        d.at<unsigned char>(i, j) = static_cast<unsigned char>(x * 3 + j * 29);
        b.bytes.push_back(d.at<unsigned char>(i, j));
      }
    }
    for (int c = 0; c < kChannels; ++c)
      if (c != kPos3 && c != kOffset) m.has[c] = true;
    m.has_descriptors = true;
    m.blocks.assign(1, b);
  }
  if (empty) aslam::insertCvKeypointsAndDescriptorsIntoEmptyVisualFrame(k, d, uncertainty, s->frame.get());
  else aslam::insertAdditionalCvKeypointsAndDescriptorsToVisualFrame(k, d, uncertainty, s->frame.get());
  sim::probe(empty ? "detected" : "detected_more");
  return true;
}

void mistake(Slot* s, Rng& r, int kind) {
  const aslam::VisualFrame& f = *s->frame;
  const Model& m = s->m;
  const int c = static_cast<int>(r.below(kChannels));
  const size_t beyond = m.size(c) + r.below(2);
  C->mistake[sim::tid()] = true;
  switch (kind) {
    case 0:
      sim::label("feature beyond the end");
      read_one(f, c, beyond);
      break;
    case 1: {
      if (m.blocks.empty()) { C->mistake[sim::tid()] = false; return; }
      const Block& b = m.blocks[r.below(m.blocks.size())];
      int n = 0;
      for (const Block& x : m.blocks)
        if (x.type == b.type) { n = x.cols; break; }
      sim::label("feature of a type beyond the end");
      read_one_type(f, c, n + r.below(2), b.type);
      break;
    }
    case 2: f.getDescriptor(m.descriptors() + r.below(2)); break;
    case 3: f.getDescriptors(m.blocks.size()); break;
    case 4: f.getDescriptorTypeBlock(17); break;
    case 5: {
      if (m.blocks.empty() || !m.has[kMeas] || !m.complete()) { C->mistake[sim::tid()] = false; return; }
      std::vector<size_t> list;
      const int n = m.blocks[0].cols;
      if (n) list.push_back(r.below(n));
      list.push_back(n + r.below(2));
      std::vector<unsigned char> ok;
      sim::label("bearing vector beyond the end");
      f.getNormalizedBearingVectors(list, m.blocks[0].type, &ok);
      break;
    }
    case 6: {
      // More values than features.
      std::vector<double> v = values(r, kScore, (m.has[kMeas] ? m.features() : 0) + 1);
      extend(s->frame.get(), kScore, v, false, 0);
      break;
    }
    default: {
      if (m.has[kTrack] || m.features() == 0) { C->mistake[sim::tid()] = false; return; }
      std::vector<size_t> d;
      s->frame->discardUntrackedObservations(&d);
    }
  }
  sim::fail("C26", "mistake-accepted", "a call with invalid arguments was accepted (kind %d, %s)", kind, kChannelName[c]);
}

Slot* slot(int me, int64_t which) {
  which %= kOwn + kShared;
  return which < kOwn ? &C->own[me][which] : &C->shared[which - kOwn];
}
bool is_shared(const Slot* s) { return s >= C->shared && s < C->shared + kShared; }

void body(int me, const sim::PlanThread& ops) {
  for (int i = 0; i < ops.n; ++i) {
    const Op& op = ops.ops[i];
    if (op.code == kChannelOnly) continue;
    Slot* s = slot(me, op.a[0]);
    Slot* other = op.code == kCopy || op.code == kCompare || op.code == kStore ? slot(me, op.a[1]) : nullptr;
    if (s == other && op.code != kCompare) continue;
    Slot* first = other && is_shared(other) && (!is_shared(s) || other < s) ? other : s;
    Slot* second = first == s ? other : s;
    if (first == second) second = nullptr;
    if (is_shared(first)) first->frame->lock();
    if (second && is_shared(second)) second->frame->lock();
    Rng r(static_cast<uint64_t>(op.a[op.code == kCopy || op.code == kCompare || op.code == kStore ? 2 : 1]));
    Model& m = s->m;
    aslam::VisualFrame* f = s->frame.get();
    const char* what = "";
    switch (op.code) {
      case kExtend:
        extend_all(s, r, static_cast<uint64_t>(op.a[2]), static_cast<int>(op.a[3] % 100), static_cast<int>(op.a[3] / 100));
        what = "adding features";
        break;
      case kSetAll: {
        if (m.blocks.size() > 1) break;
        const int n = static_cast<int>(op.a[3]);
        for (int c = 0; c < kChannels; ++c) {
          if (c != kMeas && !m.has[c] && !(op.a[2] >> c & 1)) continue;
          const std::vector<double> v = values(r, c, n);
          set(f, c, v);
          m.has[c] = true;
          m.data[c] = v;
        }
        if (m.has_descriptors || (op.a[2] & 256)) {
          const int type = static_cast<int>(r.below(3));
          const aslam::VisualFrame::DescriptorsT d = descriptors(2 + type * 3, n);
          if (r.chance(0.5)) {
            f->setDescriptors(d, 0, type);
          } else {
            aslam::VisualFrame::DescriptorsT x = d;
            const int old = f->swapDescriptors(&x, 0, type);
            sim::Quiet q;
            if (!m.blocks.empty() && (old != m.blocks[0].type || block(x, old).bytes != m.blocks[0].bytes))
              sim::fail("C26", "swapped", "swapping descriptors returned other descriptors than the frame had");
          }
          m.has_descriptors = true;
          m.blocks.assign(1, block(d, type));
        }
        what = "setting all channels";
        break;
      }
      case kSwap: {
        const int c = static_cast<int>(op.a[2]);
        const std::vector<double> v = values(r, c, m.features());
        const std::vector<double> old = swap_in(f, c, v);
        sim::Quiet q;
        if (old != m.data[c]) sim::fail("C26", "swapped", "swapping the %s returned %s, the frame had %s", kChannelName[c], text(old).c_str(), text(m.data[c]).c_str());
        m.has[c] = true;
        m.data[c] = v;
        what = "swapping a channel";
        break;
      }
      case kClear: clear(s); what = "clearing"; break;
      case kInsert: if (insert(s, r, static_cast<int>(op.a[2]))) what = "inserting detected keypoints"; break;
      case kDiscard: discard(s, r); what = "discarding untracked features"; break;
      case kCopy: {
        if (is_shared(s)) break;  // its lock is held
        if (r.chance(0.5) || is_shared(other)) {
          *s->frame = *other->frame;
        } else {
          s->frame.reset(new aslam::VisualFrame(*other->frame));
        }
        m = other->m;
        if (!(*s->frame == *other->frame) || !s->frame->compareWithoutCameraGeometry(*other->frame))
          sim::fail("C26", "copy", "a copy differs from its original");
        expect(*other, "copying it");
        what = "copying";
        sim::probe("copied");
        break;
      }
      case kEdit: {
        const int c = static_cast<int>(r.below(kChannels));
        if (m.has[c] && m.size(c)) {
          const int k = static_cast<int>(r.below(m.size(c)));
          const int v = next_value();
          edit(f, c, k, v);
          m.data[c][k * kChannelRows[c]] = v;
        }
        if (!m.blocks.empty() && m.blocks.back().cols && m.blocks.back().rows) {
          const size_t b = m.blocks.size() - 1;
          (*f->getDescriptorsMutable(b))(0, 0) ^= 0x55;
          m.blocks[b].bytes[0] ^= 0x55;
          if (m.has[kTrack] && m.complete()) {
            // Through the block of one type.
            const int type = m.blocks[r.below(m.blocks.size())].type;
            int at = 0;
            for (const Block& x : m.blocks) {
              if (x.type == type) {
                if (x.cols) {
                  const int k = static_cast<int>(r.below(x.cols)), v = next_value();
                  f->getTrackIdsOfTypeMutable(type)(k) = v;
                  m.data[kTrack][at + k] = v;
                }
                break;
              }
              at += x.cols;
            }
          }
        }
        what = "changing single values";
        break;
      }
      case kStore: {
        if (!other->m.has_descriptors) break;
        std::string bytes;
        other->frame->serializeDescriptorsToString(&bytes);
        f->deserializeDescriptorsFromString(bytes);
        f->setDescriptorTypes(other->frame->getDescriptorTypes());
        m.has_descriptors = true;
        m.blocks = other->m.blocks;
        what = "restoring descriptors";
        expect(*other, "storing its descriptors");
        sim::probe("descriptors_restored");
        // The other channels describe other features now.
        for (int c = 0; c < kChannels; ++c) {
          if (!m.has[c] && c != kMeas) continue;
          const std::vector<double> v = values(r, c, m.descriptors());
          set(f, c, v);
          m.has[c] = true;
          m.data[c] = v;
        }
        break;
      }
      case kImage:
        if (m.image && r.chance(0.4)) {
          f->releaseRawImage();
          m.image = 0;
        } else {
          m.image = static_cast<int>(r.range(1, 12));
          const cv::Mat x = image(m.image);
          f->setRawImage(x);
          if (r.chance(0.3)) {
            m.image = static_cast<int>(r.range(1, 12));
            *f->getRawImageMutable() = image(m.image);
          }
        }
        what = "setting the raw image";
        break;
      case kHeader:
        m.stamp = static_cast<int64_t>(r.next() >> 2);
        m.valid = r.chance(0.5);
        f->setTimestampNanoseconds(m.stamp);
        if (r.chance(0.5)) f->setValid(m.valid);
        else if (m.valid) f->validate();
        else f->invalidate();
        what = "setting the header";
        break;
      case kCompare: {
        const bool want = same(m, other->m), got = *f == *other->frame;
        sim::Quiet q;
        if (got != want) sim::fail("C26", "compare", "two frames with %s content compare as %s", want ? "equal" : "different", got ? "equal" : "different");
        if (f->compareWithoutCameraGeometry(*other->frame) != want) sim::fail("C26", "compare", "two frames with %s content compare as %s without their cameras", want ? "equal" : "different", want ? "different" : "equal");
        sim::probe(want ? "compared_equal" : "compared_different");
        what = "comparing";
        break;
      }
      case kBearings: {
        if (!m.complete() || m.blocks.empty() || !m.has[kMeas]) break;
        const Block& b = m.blocks[r.below(m.blocks.size())];
        int at = 0, n = 0;
        for (const Block& x : m.blocks) {
          if (x.type == b.type) { n = x.cols; break; }
          at += x.cols;
        }
        std::vector<size_t> list;
        for (int k = 0; k < n && n; ++k) list.push_back(r.below(n));
        std::vector<unsigned char> ok(3, 9);
        const Eigen::Matrix3Xd got = f->getNormalizedBearingVectors(list, b.type, &ok);
        sim::Quiet q;
        if (got.cols() != static_cast<int>(list.size()) || ok.size() != list.size()) sim::fail("C26", "bearings", "%d bearing vectors for %zu features", (int)got.cols(), list.size());
        for (size_t k = 0; k < list.size(); ++k) {
          Eigen::Vector3d want;
          const bool good = C->camera->backProject3(Eigen::Vector2d(m.data[kMeas][2 * (at + list[k])], m.data[kMeas][2 * (at + list[k]) + 1]), &want);
          if (good != (ok[k] != 0) || (good && (got.col(k) - want.normalized()).norm() > 1e-9))
            sim::fail("C26", "bearings", "the bearing vector of feature %zu of type %d is wrong", list[k], b.type);
        }
        sim::probe("bearings");
        what = "computing bearing vectors";
        break;
      }
      case kMistake: mistake(s, r, static_cast<int>(op.a[2])); break;
    }
    if (*what) expect(*s, what);
    if (second && is_shared(second)) second->frame->unlock();
    if (is_shared(first)) first->frame->unlock();
  }
}

// Every thread fills a channel of its own of one frame, without any lock.
void fill(Slot* s, int c, Rng& r) {
  const std::vector<double> v = values(r, c, 3 + c % 3);
  if (r.chance(0.5)) set(s->frame.get(), c, v);
  else swap_in(s->frame.get(), c, v);
  if (!has(*s->frame, c)) sim::fail("C26", "channel", "the %s are missing right after they were set", kChannelName[c]);
  if (read(*s->frame, c) != v) sim::fail("C26", "content", "the %s are not those that were just set", kChannelName[c]);
  s->m.has[c] = true;
  s->m.data[c] = v;
}

std::unique_ptr<aslam::VisualFrame> make_frame() {
  std::unique_ptr<aslam::VisualFrame> f(new aslam::VisualFrame);
  f->setCameraGeometry(C->camera);
  f->setTimestampNanoseconds(0);
  return f;
}

void run(const Plan& plan) {
  sim::set_default_props("C26");
  sim::set_stuck_props("C26");
  C = new Ctx;
  for (bool& x : C->mistake) x = false;
  sim::set_abort_callback(on_abort);
  sim::set_assert_ok(false);
  Slot filled;
  {
    sim::Quiet q;
    C->camera = aslam::PinholeCamera::createTestCamera();
    aslam::CameraId id;
    aslam::generateId(&id);
    C->camera->setId(id);
    for (int t = 0; t < plan.nthreads; ++t)
      for (Slot& s : C->own[t]) s.frame = make_frame();
    for (Slot& s : C->shared) s.frame = make_frame();
    filled.frame = make_frame();
  }
  std::vector<std::thread> threads;
  for (int t = 0; t < plan.nthreads; ++t) threads.emplace_back([t, &plan] { body(t, plan.th[t]); });
  for (std::thread& t : threads) t.join();
  threads.clear();
  for (int t = 0; t < plan.nthreads; ++t)
    for (const Slot& s : C->own[t]) expect(s, "everything");
  for (const Slot& s : C->shared) expect(s, "everything");
  bool any = false;
  for (int t = 0; t < plan.nthreads; ++t)
    for (int i = 0; i < plan.th[t].n; ++i) {
      const Op& op = plan.th[t].ops[i];
      if (op.code != kChannelOnly) continue;
      any = true;
      threads.emplace_back([t, op, &filled, &plan] {
        Rng r(static_cast<uint64_t>(op.a[1]));
        fill(&filled, t % kChannels, r);
        if (t + plan.nthreads < kChannels) fill(&filled, t + plan.nthreads, r);
      });
      break;
    }
  for (std::thread& t : threads) t.join();
  if (any) expect(filled, "filling its channels from several threads");
}

void gen(Rng& r, Plan* p, sim::Env*, bool thorough) {
  p->add_cfg(0, 0);
  p->nthreads = static_cast<int>(r.chance(0.4) ? 1 : r.range(2, thorough ? 4 : 3));
  const bool mistakes = r.chance(0.2), fill_run = r.chance(0.3);
  const double shared = r.chance(0.5) ? 0.4 : 0.0;
  const bool several_types = r.chance(0.6);
  for (int t = 0; t < p->nthreads; ++t) {
    const int n = static_cast<int>(r.range(3, thorough ? 24 : 14));
    auto frame = [&] { return r.chance(shared) ? kOwn + static_cast<int64_t>(r.below(kShared)) : static_cast<int64_t>(r.below(kOwn)); };
    if (fill_run) p->add(t, kChannelOnly, 0, static_cast<int64_t>(r.next() >> 1));
    const int64_t favourite = static_cast<int64_t>(r.below(512)) | (r.chance(0.7) ? 256 : 0);
    for (int i = 0; i < n; ++i) {
      const int64_t seed = static_cast<int64_t>(r.next() >> 1);
      const int64_t mask = r.chance(0.6) ? favourite : static_cast<int64_t>(r.below(512));
      const uint64_t w = r.below(25);
      if (w == 24) {
        const int64_t at = frame();
        if (r.chance(0.5)) p->add(t, kClear, at);
        p->add(t, kInsert, at, seed, r.range(0, 5));
        if (r.chance(0.5)) p->add(t, kInsert, at, seed + 1, r.range(0, 5));
      } else if (w < 7) p->add(t, kExtend, frame(), seed, mask, r.range(0, 5) + 100 * (several_types ? r.range(0, 2) : 0));
      else if (w < 9) p->add(t, kSetAll, frame(), seed, mask, r.range(0, 8));
      else if (w < 11) p->add(t, kSwap, frame(), seed, r.range(0, kChannels - 1));
      else if (w < 12) { if (r.chance(0.5)) p->add(t, kClear, frame()); }
      else if (w < 15) p->add(t, kDiscard, frame(), seed);
      else if (w < 17) p->add(t, kCopy, frame(), frame(), seed);
      else if (w < 18) p->add(t, kEdit, frame(), seed);
      else if (w < 19) p->add(t, kStore, frame(), frame(), seed);
      else if (w < 20) p->add(t, kImage, frame(), seed);
      else if (w < 21) p->add(t, kHeader, frame(), seed);
      else if (w < 22) p->add(t, kCompare, frame(), frame(), seed);
      else if (w < 23) p->add(t, kBearings, frame(), seed);
      else if (mistakes) p->add(t, kMistake, frame(), seed, r.range(0, 7));
    }
  }
}
const sim::Harness h = {"frame_content", "C26", gen, run};
sim::Registrar reg(&h);
}  // namespace
