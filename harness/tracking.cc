// Simulated workloads for following keypoints from one frame to the next.
//   C30 frame-to-frame matches are exclusive, local and independent of history
//
// Every thread matches its own pairs of frames and pairs that all threads
// share, with descriptors of several sizes, and follows its own simulated
// camera with a gyro tracker.  The results are compared with a small reference
// matcher and a reference model of the tracker's candidate selection.
#include <aslam/cameras/camera-pinhole.h>
#include <aslam/frames/visual-frame.h>
#include <aslam/matcher/gyro-two-frame-matcher.h>
#include <aslam/matcher/match-helpers.h>
#include <aslam/tracker/feature-tracker-gyro.h>
#include <aslam/tracker/track-manager.h>
#include <gflags/gflags.h>
#include <opencv2/imgproc.hpp>
#include <opencv2/video/tracking.hpp>

#include <algorithm>
#include <cmath>
#include <memory>
#include <set>
#include <thread>
#include <vector>

#include "simrt.h"

DECLARE_int32(gyro_matcher_small_search_distance_px);
DECLARE_int32(gyro_matcher_large_search_distance_px);
DECLARE_double(gyro_lk_candidate_ratio);
DECLARE_uint64(gyro_lk_max_status_track_length);

namespace {
using sim::Op;
using sim::Plan;
using sim::Rng;

enum { kW = 160, kH = 120, kShared = 2, kTypes = 2, kBorder = 12, kPool = 26, kLkBytes = 48 };
enum OpCode {
  kMatchOwn = 1,  // -, -, seed, allocations fail
  kMatchShared,   // pair, type, seed
  kPredict,       // -, -, seed
  kTrack,         // -, -, seed: the next image of this thread's camera
  kSleep,
};
enum CfgIdx { kSmall = 0, kLarge, kRatio, kMaxLength, kSharedSeed };
const int kSizes[] = {16, 32, 48, 64};

typedef std::vector<std::pair<int, int>> Pairs;

struct Block {
  int type, bytes;
  Eigen::Matrix2Xd predicted;
  std::vector<unsigned char> ok;
  Pairs expected;
};
struct Pair {
  aslam::VisualFrame::Ptr k, kp1;
  std::vector<Block> blocks;
};
// A camera that is followed by a tracker.
struct Follow {
  std::unique_ptr<aslam::GyroTracker> tracker;
  cv::Mat texture;
  int ox = 40, oy = 40;
  int64_t stamp = 1000;
  Eigen::Matrix2Xd world;
  aslam::VisualFrame::DescriptorsT descriptors;
  aslam::VisualFrame::Ptr last;
  bool first = true;
  // The model: of frame k and of frame k-1.
  std::vector<bool> lk_k, lk_km1;
  std::vector<size_t> len_km1;
  Eigen::VectorXi ids_km1;
};
struct Ctx {
  aslam::Camera::Ptr camera;
  Pair shared[kShared];
  Follow follow[sim::kMaxThreads];
};
Ctx* C = nullptr;

double uniform(Rng& r, double lo, double hi) { return lo + (hi - lo) * static_cast<double>(r.next() >> 11) * 0x1p-53; }

int bits(const unsigned char* a, const unsigned char* b, int bytes) {
  int n = 0;
  for (int i = 0; i < bytes; ++i) n += __builtin_popcount(a[i] ^ b[i]);
  return n;
}

// ------------------------------------------------------------ the reference
// The documented greedy matching, written from its description.
Pairs reference(const aslam::VisualFrame& kp1, const aslam::VisualFrame& k, const Block& b) {
  const auto& d1 = kp1.getDescriptorsOfType(b.type);
  const auto& d0 = k.getDescriptorsOfType(b.type);
  const Eigen::Matrix2Xd p1 = kp1.getKeypointMeasurementsOfType(b.type);
  const int n1 = static_cast<int>(d1.cols()), n0 = static_cast<int>(d0.cols()), size = 8 * b.bytes;
  const int small = FLAGS_gyro_matcher_small_search_distance_px, large = FLAGS_gyro_matcher_large_search_distance_px;
  std::vector<int> order(n1);
  for (int i = 0; i < n1; ++i) order[i] = i;
  std::sort(order.begin(), order.end(), [&](int x, int y) { return p1(1, x) < p1(1, y); });
  std::vector<std::vector<int>> candidates(n0);
  std::vector<int> owner(n1, -1), score(n1, 0);
  std::vector<int> inferior;
  auto similarity = [&](int i, int j) { return size - bits(d0.col(i).data(), d1.col(j).data(), b.bytes); };
  for (int i = 0; i < n0; ++i) {
    if (!b.ok[i]) continue;
    int best = -1;
    std::vector<int> seen, distances;
    for (int window : {small, large}) {
      if (best >= 0) break;
      for (int j : order) {
        if (std::abs(p1(0, j) - b.predicted(0, i)) > window || std::abs(p1(1, j) - b.predicted(1, i)) > window) continue;
        if (std::count(seen.begin(), seen.end(), j)) continue;
        seen.push_back(j);
        distances.push_back(size - similarity(i, j));
        if (10 * similarity(i, j) > 8 * size && (best < 0 || similarity(i, j) > similarity(i, best))) best = j;
      }
    }
    if (best < 0) continue;
    std::sort(distances.begin(), distances.end());
    if (distances.size() > 1 && distances[1] != 0 && 5 * distances[0] >= 4 * distances[1]) {
      sim::probe("ambiguous");
      continue;
    }
    candidates[i] = seen;
    if (owner[best] < 0) {
      owner[best] = i;
      score[best] = similarity(i, best);
    } else if (similarity(i, best) > score[best]) {
      inferior.push_back(owner[best]);
      owner[best] = i;
      score[best] = similarity(i, best);
      sim::probe("displaced");
    } else {
      inferior.push_back(i);
      sim::probe("inferior");
    }
  }
  std::vector<bool> taken(n1);
  for (int j = 0; j < n1; ++j) taken[j] = owner[j] >= 0;
  for (int round = 0; round < 3; ++round) {
    bool found = false;
    std::set<int> done;
    for (int i : inferior) {
      int best = -1;
      for (int j : candidates[i])
        if (!taken[j] && similarity(i, j) * 20 > 17 * size && (best < 0 || similarity(i, j) > similarity(i, best))) best = j;
      if (best < 0) continue;
      found = true;
      if (owner[best] < 0) {
        sim::probe("second_choice");
      } else if (similarity(i, best) > score[best]) {
        done.erase(owner[best]);
        sim::probe("second_choice_displaced");
      } else {
        continue;
      }
      owner[best] = i;
      score[best] = similarity(i, best);
      done.insert(i);
    }
    inferior.erase(std::remove_if(inferior.begin(), inferior.end(), [&](int i) { return done.count(i) > 0; }), inferior.end());
    for (int j = 0; j < n1; ++j) taken[j] = owner[j] >= 0;
    if (!found) break;
  }
  Pairs out;
  for (int j = 0; j < n1; ++j)
    if (owner[j] >= 0) out.emplace_back(j, owner[j]);
  std::sort(out.begin(), out.end());
  return out;
}

// --------------------------------------------------------------------- pairs
void fill_block(Rng& r, Block* b, int n0, int n1, Eigen::Matrix2Xd* k0, Eigen::Matrix2Xd* k1,
                aslam::VisualFrame::DescriptorsT* d0, aslam::VisualFrame::DescriptorsT* d1) {
  const int small = FLAGS_gyro_matcher_small_search_distance_px, large = FLAGS_gyro_matcher_large_search_distance_px;
  k0->resize(2, n0);
  b->predicted.resize(2, n0);
  b->ok.assign(n0, 1);
  const int clusters = static_cast<int>(r.range(1, 3));
  Eigen::Matrix2Xd center(2, clusters);
  for (int c = 0; c < clusters; ++c) center.col(c) << uniform(r, 10, kW - 10), uniform(r, 10, kH - 10);
  auto near = [&](double spread) {
    const int c = static_cast<int>(r.below(clusters));
    return Eigen::Vector2d(std::min(kW - 1.5, std::max(0.5, center(0, c) + uniform(r, -spread, spread))),
                           std::min(kH - 3.5, std::max(0.5, center(1, c) + uniform(r, -spread, spread))));
  };
  for (int i = 0; i < n0; ++i) {
    k0->col(i) << uniform(r, 1, kW - 2), uniform(r, 1, kH - 2);
    b->predicted.col(i) = near(6);
    if (r.chance(0.08)) b->ok[i] = 0;
  }
  std::vector<Eigen::Vector2d> kept;
  for (int j = 0; j < n1; ++j)
    for (int attempt = 0; attempt < 20; ++attempt) {
      const Eigen::Vector2d p = r.chance(0.8) ? near(8) : near(30);
      bool border = false;
      for (int i = 0; i < n0 && !border; ++i)
        for (int w : {small, large})
          for (int d = 0; d < 2; ++d)
            if (std::abs(std::abs(p(d) - b->predicted(d, i)) - w) < 1.6) border = true;
      for (const auto& q : kept)
        if (std::abs(q(1) - p(1)) < 1e-3) border = true;
      if (border) continue;
      kept.push_back(p);
      break;
    }
  n1 = static_cast<int>(kept.size());
  k1->resize(2, n1);
  for (int j = 0; j < n1; ++j) k1->col(j) = kept[j];
  // Descriptors near the thresholds: variations of a few prototypes.
  const int protos = static_cast<int>(r.range(1, 4)), size = 8 * b->bytes;
  aslam::VisualFrame::DescriptorsT proto(b->bytes, protos);
  for (int c = 0; c < protos; ++c)
    for (int y = 0; y < b->bytes; ++y) proto(y, c) = static_cast<unsigned char>(r.next());
  auto fill = [&](aslam::VisualFrame::DescriptorsT* d, int n) {
    d->resize(b->bytes, n);
    for (int i = 0; i < n; ++i) {
      d->col(i) = proto.col(r.below(protos));
      int flips = 0;
      if (r.chance(0.7)) flips = static_cast<int>(r.below(size / 8));
      if (r.chance(0.1)) flips = static_cast<int>(r.below(size / 3));
      for (int f = 0; f < flips; ++f) {
        const int at = static_cast<int>(r.below(size));
        (*d)(at / 8, i) ^= static_cast<unsigned char>(1 << at % 8);
      }
      if (r.chance(0.05))
        for (int y = 0; y < b->bytes; ++y) (*d)(y, i) = static_cast<unsigned char>(~(*d)(y, i));
    }
  };
  fill(d0, n0);
  fill(d1, n1);
}

void make_pair(Rng& r, Pair* p) {
  p->blocks.resize(r.chance(0.4) ? 2 : 1);
  p->k = aslam::VisualFrame::createEmptyTestVisualFrame(C->camera, 1000);
  p->kp1 = aslam::VisualFrame::createEmptyTestVisualFrame(C->camera, r.chance(0.5) ? 1001 : 50000000);
  Eigen::Matrix2Xd all0(2, 0), all1(2, 0);
  for (size_t t = 0; t < p->blocks.size(); ++t) {
    Block& b = p->blocks[t];
    b.type = static_cast<int>(t);
    b.bytes = kSizes[r.below(4)];
    const int n0 = static_cast<int>(r.chance(0.05) ? 0 : r.range(1, 9)), n1 = static_cast<int>(r.chance(0.05) ? 0 : r.range(1, 10));
    Eigen::Matrix2Xd k0, k1;
    aslam::VisualFrame::DescriptorsT d0, d1;
    fill_block(r, &b, n0, n1, &k0, &k1, &d0, &d1);
    if (t == 0) {
      p->k->setDescriptors(d0, 0, b.type);
      p->kp1->setDescriptors(d1, 0, b.type);
    } else {
      p->k->extendDescriptors(d0, b.type);
      p->kp1->extendDescriptors(d1, b.type);
    }
    auto append = [](Eigen::Matrix2Xd* all, const Eigen::Matrix2Xd& k) {
      Eigen::Matrix2Xd m(2, all->cols() + k.cols());
      m << *all, k;
      *all = m;
    };
    append(&all0, k0);
    append(&all1, k1);
  }
  p->k->setKeypointMeasurements(all0);
  p->kp1->setKeypointMeasurements(all1);
  for (Block& b : p->blocks) b.expected = reference(*p->kp1, *p->k, b);
}

Pairs sorted(const aslam::FrameToFrameMatches& m) {
  Pairs out;
  for (const auto& x : m) out.emplace_back(x.getKeypointIndexInFrameA(), x.getKeypointIndexInFrameB());
  std::sort(out.begin(), out.end());
  return out;
}
std::string show(const Pairs& p) {
  std::string s;
  for (const auto& x : p) s += (s.empty() ? "" : " ") + std::to_string(x.second) + "->" + std::to_string(x.first);
  return s.empty() ? "nothing" : s;
}

void check_matches(const aslam::VisualFrame& kp1, const aslam::VisualFrame& k, const Block& b, const aslam::FrameToFrameMatches& m) {
  sim::Quiet q;
  const auto& d1 = kp1.getDescriptorsOfType(b.type);
  const auto& d0 = k.getDescriptorsOfType(b.type);
  const Eigen::Matrix2Xd p1 = kp1.getKeypointMeasurementsOfType(b.type);
  std::set<int> used0, used1;
  for (const auto& x : m) {
    const int j = x.getKeypointIndexInFrameA(), i = x.getKeypointIndexInFrameB();
    if (j < 0 || j >= d1.cols() || i < 0 || i >= d0.cols())
      sim::fail("C30", "range", "a match of keypoints %d and %d of frames with %d and %d keypoints", i, j, (int)d0.cols(), (int)d1.cols());
    if (!used1.insert(j).second) sim::fail("C30", "exclusive", "keypoint %d of the later frame is matched twice", j);
    if (!used0.insert(i).second) sim::fail("C30", "exclusive", "keypoint %d of the earlier frame is matched twice", i);
    if (!b.ok[i]) sim::fail("C30", "unpredicted", "keypoint %d was matched although its position could not be predicted", i);
    const Eigen::Vector2d d = p1.col(j) - b.predicted.col(i);
    if (d.cwiseAbs().maxCoeff() > FLAGS_gyro_matcher_large_search_distance_px + 1.6)
      sim::fail("C30", "window", "keypoint %d was matched %g px from where it was predicted", i, d.cwiseAbs().maxCoeff());
    const int differ = bits(d0.col(i).data(), d1.col(j).data(), b.bytes);
    if (5 * differ >= 8 * b.bytes)
      sim::fail("C30", "threshold", "matched descriptors of %d bits that differ in %d bits", 8 * b.bytes, differ);
  }
}

// The bearing vectors of both sides of the matches.
void bearings(const Pair& p, const Block& b, Rng& r, const aslam::FrameToFrameMatches& m) {
  Aligned<std::vector, Eigen::Vector3d> kp1(r.below(3)), k(r.below(3));
  aslam::getBearingVectorsFromMatches(*p.kp1, *p.k, m, b.type, &kp1, &k);
  sim::Quiet quiet;
  if (kp1.size() != m.size() || k.size() != m.size())
    sim::fail("C30", "bearings", "%d and %d bearing vectors for %d matches", (int)kp1.size(), (int)k.size(), (int)m.size());
  for (size_t i = 0; i < m.size(); ++i) {
    Eigen::Vector3d a, c;
    C->camera->backProject3(p.kp1->getKeypointMeasurementsOfType(b.type).col(m[i].getKeypointIndexInFrameA()), &a);
    C->camera->backProject3(p.k->getKeypointMeasurementsOfType(b.type).col(m[i].getKeypointIndexInFrameB()), &c);
    if (!((kp1[i] - a.normalized()).norm() < 1e-9) || !((k[i] - c.normalized()).norm() < 1e-9))
      sim::fail("C30", "bearings", "the bearing vectors of match %d are not those of its keypoints", (int)i);
  }
  if (!m.empty()) sim::probe("bearings");
}

void match(const Pair& p, const Block& b, Rng& r, bool allocations_fail) {
  aslam::Quaternion q;
  q.setIdentity();
  aslam::FrameToFrameMatches m;
  if (r.chance(0.3)) m.emplace_back(3, 4);  // left over from an earlier call
  if (allocations_fail) {
    try {
      sim::AllocFaultScope fail;
      aslam::GyroTwoFrameMatcher matcher(q, *p.kp1, *p.k, b.type, kH, b.predicted, b.ok, &m);
      matcher.match();
    } catch (const std::bad_alloc&) {
      sim::probe("matching_failed");
      allocations_fail = false;
      m.clear();
      m.emplace_back(0, 0);
    }
  }
  if (!allocations_fail || m.empty()) {
    aslam::GyroTwoFrameMatcher matcher(q, *p.kp1, *p.k, b.type, kH, b.predicted, b.ok, &m);
    sim::label("match");
    matcher.match();
    sim::label("");
  }
  check_matches(*p.kp1, *p.k, b, m);
  if (r.chance(0.4)) bearings(p, b, r, m);
  sim::Quiet quiet;
  const Pairs got = sorted(m);
  if (got != b.expected)
    sim::fail("C30", "matches", "descriptors of %d bits: matched %s, expected %s", 8 * b.bytes, show(got).c_str(), show(b.expected).c_str());
  sim::probe(got.empty() ? "no_match" : "matched");
}

// ---------------------------------------------------------------- prediction
void predict(Rng& r) {
  aslam::VisualFrame::Ptr f;
  aslam::Quaternion q;
  Eigen::Matrix2Xd out(2, r.below(4));
  std::vector<unsigned char> ok(r.below(6), 1);
  std::vector<int> types;
  {
    sim::Quiet quiet;
    f = aslam::VisualFrame::createEmptyTestVisualFrame(C->camera, 5);
    const int n = static_cast<int>(r.chance(0.15) ? 0 : r.range(1, 6)), n2 = static_cast<int>(r.chance(0.5) ? 0 : r.range(1, 4));
    Eigen::Matrix2Xd k(2, n + n2);
    for (int i = 0; i < n + n2; ++i) k.col(i) << uniform(r, 0, kW - 1), uniform(r, 0, kH - 1);
    f->setKeypointMeasurements(k);
    aslam::VisualFrame::DescriptorsT d(16, n), d2(32, n2);
    d.setZero();
    d2.setZero();
    f->setDescriptors(d, 0, 0);
    f->extendDescriptors(d2, 1);
    const double angle = r.chance(0.3) ? 0.0 : r.chance(0.7) ? uniform(r, -0.2, 0.2) : uniform(r, -3, 3);
    Eigen::Vector3d axis(uniform(r, -1, 1), uniform(r, -1, 1), uniform(r, -1, 1));
    axis.normalize();
    q = aslam::Quaternion(std::cos(angle / 2), axis(0) * std::sin(angle / 2), axis(1) * std::sin(angle / 2), axis(2) * std::sin(angle / 2));
  }
  const int type = static_cast<int>(r.below(2));
  aslam::predictKeypointsByRotation(*f, q, &out, &ok, type);
  sim::Quiet quiet;
  const Eigen::Matrix2Xd k = f->getKeypointMeasurementsOfType(type);
  if (out.cols() != k.cols() || ok.size() != static_cast<size_t>(k.cols()))
    sim::fail("C30", "prediction-count", "%d predictions and %d flags for %d keypoints", (int)out.cols(), (int)ok.size(), (int)k.cols());
  for (int i = 0; i < k.cols(); ++i) {
    Eigen::Vector3d bearing;
    Eigen::Vector2d p = k.col(i);
    bool visible = false, sure = true;
    if (C->camera->backProject3(k.col(i), &bearing)) {
      Eigen::Vector2d moved;
      const Eigen::Vector3d rotated = q.rotate(bearing);
      visible = C->camera->project3(rotated, &moved).isKeypointVisible();
      sure = std::abs(moved(0)) > 1e-6 && std::abs(moved(0) - kW) > 1e-6 && std::abs(moved(1)) > 1e-6 && std::abs(moved(1) - kH) > 1e-6;
      if (visible) p = moved;
    }
    if (!sure) continue;
    if (static_cast<bool>(ok[i]) != visible)
      sim::fail("C30", "prediction", "the prediction of a keypoint %s, but it %s visible", ok[i] ? "succeeded" : "failed", visible ? "is" : "is not");
    if (!((out.col(i) - p).norm() < 1e-6))
      sim::fail("C30", "prediction", "a keypoint was predicted at (%g, %g), expected (%g, %g)", out(0, i), out(1, i), p(0), p(1));
    sim::probe(visible ? "predicted" : "prediction_failed");
  }
}

// ------------------------------------------------------------------ tracking
uint64_t hash_of(double x, double y) {
  return Rng::mix(static_cast<uint64_t>(static_cast<int64_t>(std::floor(x))) * 1000003u + static_cast<uint64_t>(static_cast<int64_t>(std::floor(y))));
}
// Keeps the keypoints in order and drops a few, as the real extractors do.
class StubExtractor : public cv::Feature2D {
 public:
  static bool keeps(float x, float y) { return hash_of(x, y) % 6 != 0; }
  static unsigned char byte(float x, float y, int i) { return static_cast<unsigned char>(Rng::mix(hash_of(x, y) + i)); }
  void compute(cv::InputArray, std::vector<cv::KeyPoint>& k, cv::OutputArray out) override {
    sim::Quiet q;
    k.erase(std::remove_if(k.begin(), k.end(), [](const cv::KeyPoint& p) { return !keeps(p.pt.x, p.pt.y); }), k.end());
    out.create(static_cast<int>(k.size()), kLkBytes, CV_8UC1);
    if (k.empty()) return;
    cv::Mat m = out.getMat();
    for (size_t i = 0; i < k.size(); ++i)
      for (int b = 0; b < kLkBytes; ++b) m.at<unsigned char>(static_cast<int>(i), b) = byte(k[i].pt.x, k[i].pt.y, b);
  }
};

aslam::VisualFrame::Ptr next_frame(Follow* w, Rng& r) {
  sim::Quiet q;
  if (!w->tracker) {
    cv::Mat noise(240, 280, CV_8UC1);
    for (int y = 0; y < noise.rows; ++y)
      for (int x = 0; x < noise.cols; x += 8) {
        const uint64_t v = r.next();
        for (int b = 0; b < 8; ++b) noise.at<unsigned char>(y, x + b) = static_cast<unsigned char>(v >> 8 * b);
      }
    cv::blur(noise, w->texture, cv::Size(5, 5));
    w->world.resize(2, kPool);
    w->descriptors.resize(kLkBytes, kPool);
    for (int i = 0; i < kPool; ++i) {
      w->world.col(i) << uniform(r, 40, 230), uniform(r, 40, 180);
      for (int b = 0; b < kLkBytes; ++b) w->descriptors(b, i) = static_cast<unsigned char>(r.next());
    }
    w->tracker.reset(new aslam::GyroTracker(*C->camera, kBorder, cv::Ptr<cv::DescriptorExtractor>(new StubExtractor), 0));
  }
  w->ox = static_cast<int>(std::min<int64_t>(100, std::max<int64_t>(10, w->ox + r.range(-3, 3))));
  w->oy = static_cast<int>(std::min<int64_t>(100, std::max<int64_t>(10, w->oy + r.range(-3, 3))));
  w->stamp += r.range(1, 50000000);
  aslam::VisualFrame::Ptr f = aslam::VisualFrame::createEmptyTestVisualFrame(C->camera, w->stamp);
  std::vector<int> seen;
  const double rate = r.chance(0.1) ? 0.0 : uniform(r, 0.5, 1.0);
  for (int i = 0; i < kPool; ++i) {
    const double x = w->world(0, i) - w->ox, y = w->world(1, i) - w->oy;
    if (x < 2 || y < 2 || x > kW - 3 || y > kH - 3) continue;
    if (r.chance(rate)) seen.push_back(i);
  }
  for (size_t i = seen.size(); i > 1; --i) std::swap(seen[i - 1], seen[r.below(i)]);
  const int n = static_cast<int>(seen.size());
  Eigen::Matrix2Xd k(2, n);
  Eigen::VectorXd orientation(n), score(n), scale(n), uncertainty(n);
  Eigen::VectorXi ids(n);
  aslam::VisualFrame::DescriptorsT d(kLkBytes, n);
  for (int i = 0; i < n; ++i) {
    k.col(i) << w->world(0, seen[i]) - w->ox, w->world(1, seen[i]) - w->oy;
    orientation(i) = static_cast<double>(r.below(360));
    score(i) = static_cast<double>(1 + r.below(100));
    scale(i) = static_cast<double>(1 + r.below(12));
    uncertainty(i) = 1.5;
    ids(i) = -1;
    d.col(i) = w->descriptors.col(seen[i]);
    for (int f2 = static_cast<int>(r.below(20)); f2 > 0; --f2) {
      const int at = static_cast<int>(r.below(8 * kLkBytes));
      d(at / 8, i) ^= static_cast<unsigned char>(1 << at % 8);
    }
    // Looks very different this time: the matcher will not find it.
    if (r.chance(0.2))
      for (int b = 0; b < kLkBytes; ++b) d(b, i) = static_cast<unsigned char>(r.next());
  }
  f->setKeypointMeasurements(k);
  f->setKeypointOrientations(orientation);
  f->setKeypointScores(score);
  f->setKeypointScales(scale);
  f->setKeypointMeasurementUncertainties(uncertainty);
  f->setTrackIds(ids);
  f->setDescriptors(d);
  f->setRawImage(w->texture(cv::Rect(w->ox, w->oy, kW, kH)).clone());
  return f;
}

struct Candidate {
  int index;
  size_t length;
  bool lk;
};
struct Expected {  // what the frame must look like besides the added keypoints
  Eigen::Matrix2Xd k;
  Eigen::VectorXd orientation, score, scale;
  aslam::VisualFrame::DescriptorsT d;
};

void track(Follow* w, Rng& r) {
  aslam::VisualFrame::Ptr f = next_frame(w, r);
  if (!w->last) {
    w->last = f;
    return;
  }
  aslam::VisualFrame::Ptr k = w->last;
  aslam::Quaternion q;
  Block b;
  Pairs plain;
  const int n0 = static_cast<int>(k->getTrackIds().size()), n1 = static_cast<int>(f->getTrackIds().size());
  Eigen::VectorXi ids_k;
  Expected before, old;
  {
    sim::Quiet quiet;
    q.setIdentity();
    ids_k = k->getTrackIds();
    b.type = 0;
    b.bytes = kLkBytes;
    aslam::predictKeypointsByRotation(*k, q, &b.predicted, &b.ok, 0);
    aslam::FrameToFrameMatches m;
    if (n0 == 0) b.predicted.resize(2, 0);
    aslam::GyroTwoFrameMatcher matcher(q, *f, *k, 0, kH, b.predicted, b.ok, &m);
    matcher.match();
    plain = sorted(m);
    before = {f->getKeypointMeasurements(), f->getKeypointOrientations(), f->getKeypointScores(), f->getKeypointScales(), f->getDescriptors()};
    old = {k->getKeypointMeasurements(), k->getKeypointOrientations(), k->getKeypointScores(), k->getKeypointScales(), k->getDescriptors()};
  }
  aslam::FrameToFrameMatches m;
  if (r.chance(0.3)) m.emplace_back(1, 1);
  sim::label("track");
  w->tracker->track(q, *k, f.get(), &m);
  sim::label("");
  {
    sim::Quiet quiet;
    // ------------------------------------------------ the matches of before
    aslam::FrameToFrameMatches detected, added;
    for (const auto& x : m) (x.getKeypointIndexInFrameA() < n1 ? detected : added).push_back(x);
    if (sorted(detected) != plain)
      sim::fail("C30", "tracker-matches", "the tracker matched %s, its matcher %s", show(sorted(detected)).c_str(), show(plain).c_str());
    // --------------------------------------------------- the model's choice
    if (w->first) w->lk_k.assign(n0, false);
    if (static_cast<int>(w->lk_k.size()) != n0) sim::fail("C30", "count", "the frame has %d keypoints, expected %d", n0, (int)w->lk_k.size());
    std::vector<size_t> len(n0, 0);
    if (!w->first)
      for (int i = 0; i < n0; ++i) {
        if (ids_k(i) == -1) continue;
        for (int j = 0; j < w->ids_km1.size(); ++j)
          if (w->ids_km1(j) == ids_k(i)) {
            len[i] = w->lk_km1[j] != w->lk_k[i] ? 1 : w->len_km1[j] + 1;
            break;
          }
      }
    std::vector<bool> matched(n0, false);
    for (const auto& x : plain) matched[x.second] = true;
    std::vector<Candidate> candidates;
    for (int i = 0; i < n0; ++i) {
      if (matched[i]) continue;
      if (!w->lk_k[i] && len[i] >= 1) candidates.push_back({i, len[i], false});
      if (w->lk_k[i] && len[i] < FLAGS_gyro_lk_max_status_track_length) candidates.push_back({i, len[i], true});
    }
    const bool on = FLAGS_gyro_lk_candidate_ratio > 0.0;
    const size_t limit = on ? static_cast<size_t>(n1 * FLAGS_gyro_lk_candidate_ratio) : 0;
    if (added.size() > limit) sim::fail("C30", "lk-limit", "%d keypoints were added by optical flow, at most %d may be", (int)added.size(), (int)limit);
    if (candidates.size() > limit) sim::probe("lk_cut_off");
    const int n2 = static_cast<int>(f->getTrackIds().size());
    if (n2 != n1 + static_cast<int>(added.size()))
      sim::fail("C30", "count", "a frame of %d keypoints and %d added ones has %d", n1, (int)added.size(), n2);
    if (f->getKeypointMeasurements().cols() != n2 || f->getDescriptors().cols() != n2 || f->getKeypointScores().size() != n2 ||
        f->getKeypointScales().size() != n2 || f->getKeypointOrientations().size() != n2 || f->getKeypointMeasurementUncertainties().size() != n2)
      sim::fail("C30", "count", "the channels of a tracked frame have different sizes");
    if (f->getKeypointMeasurements().leftCols(n1) != before.k || f->getDescriptors().leftCols(n1) != before.d ||
        f->getKeypointScores().head(n1) != before.score || f->getKeypointScales().head(n1) != before.scale ||
        f->getKeypointOrientations().head(n1) != before.orientation)
      sim::fail("C30", "detected-changed", "tracking changed the detected keypoints");
    if (k->getKeypointMeasurements() != old.k || k->getDescriptors() != old.d || k->getTrackIds() != ids_k)
      sim::fail("C30", "detected-changed", "tracking changed the earlier frame");
    // -------------------------------------------------- every added keypoint
    std::set<int> got;
    for (size_t a = 0; a < added.size(); ++a) {
      const int j = added[a].getKeypointIndexInFrameA(), i = added[a].getKeypointIndexInFrameB();
      if (j != n1 + static_cast<int>(a)) sim::fail("C30", "lk-index", "the %d-th added keypoint is matched as keypoint %d of %d", (int)a, j, n2);
      if (!got.insert(i).second) sim::fail("C30", "exclusive", "keypoint %d of the earlier frame was tracked twice", i);
      size_t better = 0;
      const Candidate* c = nullptr;
      for (const Candidate& x : candidates)
        if (x.index == i) c = &x;
      if (!c)
        sim::fail("C30", "lk-candidate", "keypoint %d was followed by optical flow, but it is no candidate (%s, %s, %d frames)", i,
                  i < n0 && matched[i] ? "matched" : "not matched", i < n0 && w->lk_k[i] ? "tracked" : "detected", i < n0 ? (int)len[i] : -1);
      for (const Candidate& x : candidates)
        if (c->lk ? !x.lk || x.length < c->length : !x.lk && x.length > c->length) ++better;
      if (better >= limit)
        sim::fail("C30", "lk-priority", "keypoint %d was followed by optical flow, but %d candidates go before it and the limit is %d", i, (int)better, (int)limit);
      const double x = f->getKeypointMeasurements()(0, j), y = f->getKeypointMeasurements()(1, j);
      if (x < kBorder || y < kBorder || x >= kW - kBorder || y >= kH - kBorder)
        sim::fail("C30", "lk-border", "a keypoint was added at (%g, %g), too close to the border", x, y);
      if (f->getKeypointScores()(j) != static_cast<double>(static_cast<float>(old.score(i))) ||
          f->getKeypointScales()(j) != static_cast<double>(static_cast<float>(old.scale(i))) ||
          f->getKeypointOrientations()(j) != static_cast<double>(static_cast<float>(old.orientation(i))) ||
          f->getKeypointMeasurementUncertainties()(j) != 0.8 || f->getTrackIds()(j) != -1)
        sim::fail("C30", "lk-channels", "an added keypoint does not have the scale, score and orientation of the keypoint it follows");
      for (int y2 = 0; y2 < kLkBytes; ++y2)
        if (f->getDescriptors()(y2, j) != StubExtractor::byte(static_cast<float>(x), static_cast<float>(y), y2))
          sim::fail("C30", "lk-descriptor", "an added keypoint has the descriptor of another place");
    }
    // ------------------------------------------ nothing was forgotten either
    for (const Candidate& c : candidates) {
      size_t as_good = 0;
      for (const Candidate& x : candidates)
        if (c.lk ? !x.lk || x.length <= c.length : !x.lk && x.length >= c.length) ++as_good;
      if (!b.ok[c.index]) continue;
      std::vector<cv::Point2f> from(1, cv::Point2f(static_cast<float>(old.k(0, c.index)), static_cast<float>(old.k(1, c.index))));
      std::vector<cv::Point2f> to(1, cv::Point2f(static_cast<float>(b.predicted(0, c.index)), static_cast<float>(b.predicted(1, c.index))));
      std::vector<unsigned char> ok;
      std::vector<float> error;
      cv::calcOpticalFlowPyrLK(k->getRawImage(), f->getRawImage(), from, to, ok, error, cv::Size(21, 21), 1,
                               cv::TermCriteria(cv::TermCriteria::COUNT | cv::TermCriteria::EPS, 50, 0.005), cv::OPTFLOW_USE_INITIAL_FLOW, 0.001);
      const bool there = got.count(c.index) > 0;
      if (there) {
        for (const auto& x : added)
          if (x.getKeypointIndexInFrameB() == c.index) {
            const Eigen::Vector2d at = f->getKeypointMeasurements().col(x.getKeypointIndexInFrameA());
            if (!(std::abs(at(0) - to[0].x) < 0.02 && std::abs(at(1) - to[0].y) < 0.02))
              sim::fail("C30", "lk-position", "keypoint %d was followed to (%g, %g), optical flow finds it at (%g, %g)", c.index, at(0), at(1), to[0].x, to[0].y);
          }
        continue;
      }
      if (as_good > limit || !ok[0]) continue;
      if (to[0].x < kBorder + 0.02 || to[0].y < kBorder + 0.02 || to[0].x > kW - kBorder - 0.02 || to[0].y > kH - kBorder - 0.02) continue;
      if (!StubExtractor::keeps(to[0].x, to[0].y)) continue;
      const double fx = to[0].x - std::floor(to[0].x), fy = to[0].y - std::floor(to[0].y);
      if (fx < 0.02 || fx > 0.98 || fy < 0.02 || fy > 0.98) continue;
      sim::fail("C30", "lk-lost", "keypoint %d (%s, %d frames) can be followed by optical flow, but was not", c.index, c.lk ? "tracked" : "detected", (int)c.length);
    }
    if (!added.empty()) sim::probe("followed");
    for (int i : got)
      if (w->lk_k[i]) sim::probe(len[i] >= 2 ? "followed_for_long" : "followed_again");
    // ------------------------------------------------------ the next frame
    w->first = !on && w->first;
    w->lk_km1 = w->lk_k;
    w->len_km1 = len;
    w->ids_km1 = ids_k;
    w->lk_k.assign(n2, false);
    for (int j = n1; j < n2; ++j) w->lk_k[j] = true;
    // Some matches are rejected before the track ids are handed out.
    aslam::FrameToFrameMatches accepted;
    const double reject = r.chance(0.5) ? 0.0 : 0.2;
    for (const auto& x : m)
      if (!r.chance(reject)) accepted.push_back(x);
    aslam::SimpleTrackManager manager;
    manager.applyMatchesToFrames(accepted, f.get(), k.get());
  }
  w->last = f;
}

// ----------------------------------------------------------------------- run
void body(int me, const sim::PlanThread& ops) {
  for (int i = 0; i < ops.n; ++i) {
    const Op& op = ops.ops[i];
    Rng r(static_cast<uint64_t>(op.a[2]));
    switch (op.code) {
      case kMatchOwn: {
        Pair p;
        {
          sim::Quiet q;
          make_pair(r, &p);
        }
        for (const Block& b : p.blocks) match(p, b, r, op.a[3] != 0);
        break;
      }
      case kMatchShared: {
        const Pair& p = C->shared[op.a[0] % kShared];
        match(p, p.blocks[op.a[1] % p.blocks.size()], r, false);
        break;
      }
      case kPredict: predict(r); break;
      case kTrack: track(&C->follow[me], r); break;
      case kSleep: sim::advance_time(op.a[0]); break;
    }
  }
}

void run(const Plan& plan) {
  sim::set_default_props("C30");
  sim::set_stuck_props("C30");
  FLAGS_gyro_matcher_small_search_distance_px = static_cast<int>(plan.cfg[kSmall]);
  FLAGS_gyro_matcher_large_search_distance_px = static_cast<int>(plan.cfg[kSmall] + plan.cfg[kLarge]);
  FLAGS_gyro_lk_candidate_ratio = static_cast<double>(plan.cfg[kRatio]) / 100.0;
  FLAGS_gyro_lk_max_status_track_length = static_cast<uint64_t>(plan.cfg[kMaxLength]);
  C = new Ctx;
  {
    sim::Quiet q;
    cv::setNumThreads(0);
    aslam::Distortion::UniquePtr none(new aslam::NullDistortion());
    C->camera.reset(new aslam::PinholeCamera(100, 100, kW / 2, kH / 2, kW, kH, none));
    aslam::CameraId id;
    aslam::generateId(&id);
    C->camera->setId(id);
    Rng r(static_cast<uint64_t>(plan.cfg[kSharedSeed]));
    for (Pair& p : C->shared) make_pair(r, &p);
  }
  std::vector<std::thread> threads;
  for (int t = 0; t < plan.nthreads; ++t) threads.emplace_back([t, &plan] { body(t, plan.th[t]); });
  for (std::thread& t : threads) t.join();
}

void gen(Rng& r, Plan* p, sim::Env* env, bool thorough) {
  p->add_cfg(r.chance(0.6) ? 10 : r.range(4, 15), 4);
  p->add_cfg(r.chance(0.6) ? 10 : r.range(4, 20), 4);
  p->add_cfg(r.chance(0.15) ? 0 : r.chance(0.5) ? 40 : r.range(10, 100), 0);
  p->add_cfg(r.chance(0.5) ? 10 : r.range(1, 4), 1);
  p->add_cfg(static_cast<int64_t>(r.next() >> 1), 0);
  p->nthreads = static_cast<int>(r.chance(0.25) ? 1 : r.range(2, thorough ? 4 : 3));
  const bool camera = r.chance(0.4), failures = r.chance(0.15);
  env->alloc_fail = failures;
  for (int t = 0; t < p->nthreads; ++t) {
    const int n = static_cast<int>(camera ? r.range(3, thorough ? 14 : 9) : r.range(1, thorough ? 8 : 5));
    for (int i = 0; i < n; ++i) {
      const uint64_t w = r.below(20);
      const int64_t seed = static_cast<int64_t>(r.next() >> 1);
      if (camera && w < 15) p->add(t, kTrack, 0, 0, seed);
      else if (w < 11) p->add(t, kMatchOwn, 0, 0, seed, failures && r.chance(0.5));
      else if (w < 16) p->add(t, kMatchShared, r.below(kShared), r.below(kTypes), seed);
      else if (w < 19) p->add(t, kPredict, 0, 0, seed);
      else p->add(t, kSleep, r.range(1, 5000));
    }
  }
}
const sim::Harness h = {"frame_tracking", "C30", gen, run};
sim::Registrar reg(&h);
}  // namespace
