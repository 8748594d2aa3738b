// Stand-ins for feature detectors and extractors that are not installed here
// (brisk, opencv contrib): pure functions of the image and of their options
// that find some keypoints and keep only some of them.
#ifndef STUB_FEATURE_STANDIN_H_
#define STUB_FEATURE_STANDIN_H_

#include <cstdint>
#include <cstring>
#include <initializer_list>
#include <vector>

#include <opencv2/core/core.hpp>
#include <opencv2/features2d.hpp>

namespace feature_standin {
inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  return h ^ (h >> 32);
}
inline uint64_t bits(double d) {
  uint64_t u;
  std::memcpy(&u, &d, sizeof(u));
  return u;
}
inline uint64_t hash(std::initializer_list<double> options) {
  uint64_t h = 77;
  for (double d : options) h = mix(h, bits(d));
  return h;
}
__attribute__((no_sanitize("thread"))) inline uint64_t hash(const cv::Mat& image) {
  uint64_t h = mix(mix(5, static_cast<uint64_t>(image.rows)), mix(static_cast<uint64_t>(image.cols), static_cast<uint64_t>(image.type())));
  const size_t n = static_cast<size_t>(image.cols) * image.elemSize();
  for (int y = 0; y < image.rows; ++y) {
    const unsigned char* p = image.ptr<unsigned char>(y);
    for (size_t i = 0; i + 8 <= n; i += 8) {
      uint64_t u;
      std::memcpy(&u, p + i, 8);
      h = mix(h, u);
    }
    for (size_t i = n / 8 * 8; i < n; ++i) h = mix(h, p[i]);
  }
  return h;
}
__attribute__((no_sanitize("thread"))) inline void detect(uint64_t options, const cv::Mat& image, std::vector<cv::KeyPoint>* keypoints) {
  uint64_t h = mix(options, hash(image));
  keypoints->clear();
  const uint64_t kind = h % 16;
  const size_t n = kind == 0 ? 0 : kind == 1 ? 1 : 2 + (h >> 8) % 20;
  for (size_t i = 0; i < n; ++i) {
    cv::KeyPoint k;
    h = mix(h, i);
    k.pt.x = static_cast<float>((h >> 3) % 100000) / 100000.f * static_cast<float>(image.cols - 1);
    k.pt.y = static_cast<float>((h >> 23) % 100000) / 100000.f * static_cast<float>(image.rows - 1);
    k.size = 1 + static_cast<float>((h >> 40) % 1000) / 37.f;
    k.angle = static_cast<float>((h >> 11) % 3600) / 10.f;
    k.response = static_cast<float>((h >> 17) % 10000) / 7.f;
    k.octave = static_cast<int>((h >> 50) % 4);
    k.class_id = static_cast<int>(i);
    keypoints->push_back(k);
  }
}
// May drop keypoints, all of them for some images; turns the others.
__attribute__((no_sanitize("thread"))) inline void compute(uint64_t options, size_t bytes, const cv::Mat& image, std::vector<cv::KeyPoint>* keypoints, cv::Mat* descriptors) {
  const uint64_t g = mix(options, hash(image));
  const bool none = g % 13 == 0, all = g % 13 < 4;
  size_t n = 0;
  for (const cv::KeyPoint& k : *keypoints) {
    const uint64_t h = mix(g, bits(k.pt.x) ^ bits(k.response));
    if (none || (!all && h % 4 == 0)) continue;
    cv::KeyPoint kept = k;
    kept.angle = static_cast<float>((h >> 9) % 3600) / 10.f;
    (*keypoints)[n++] = kept;
  }
  keypoints->resize(n);
  descriptors->create(static_cast<int>(n), static_cast<int>(bytes), CV_8UC1);
  for (size_t i = 0; i < n; ++i) {
    uint64_t h = mix(mix(g, bits((*keypoints)[i].pt.x)), bits((*keypoints)[i].pt.y));
    for (size_t b = 0; b < bytes; ++b) {
      if (b % 8 == 0) h = mix(h, b);
      descriptors->ptr<unsigned char>(static_cast<int>(i))[b] = static_cast<unsigned char>(h >> (8 * (b % 8)));
    }
  }
}

class Detector : public cv::Feature2D {
 public:
  explicit Detector(uint64_t options) : options_(options) {}
  void detect(cv::InputArray image, std::vector<cv::KeyPoint>& keypoints, cv::InputArray = cv::noArray()) override {
    feature_standin::detect(options_, image.getMat(), &keypoints);
  }

 private:
  const uint64_t options_;
};
class Extractor : public cv::Feature2D {
 public:
  Extractor(uint64_t options, size_t bytes) : options_(options), bytes_(bytes) {}
  int descriptorSize() const override { return static_cast<int>(bytes_); }
  int descriptorType() const override { return CV_8UC1; }
  void compute(cv::InputArray image, std::vector<cv::KeyPoint>& keypoints, cv::OutputArray descriptors) override {
    cv::Mat d;
    feature_standin::compute(options_, bytes_, image.getMat(), &keypoints, &d);
    descriptors.assign(d);
  }

 private:
  const uint64_t options_;
  const size_t bytes_;
};
// What the stand-ins depend on.
inline uint64_t brisk_detector(double octaves, double radius, double threshold, double max_keypoints) { return hash({1, octaves, radius, threshold, max_keypoints}); }
inline uint64_t brisk_extractor(bool rotation, bool scale) { return hash({2, rotation ? 1. : 0., scale ? 1. : 0.}); }
inline uint64_t surf_detector(double threshold, double octaves, double layers) { return hash({3, threshold, octaves, layers}); }
inline uint64_t freak_extractor(bool rotation, bool scale, double pattern, double octaves) { return hash({4, rotation ? 1. : 0., scale ? 1. : 0., pattern, octaves}); }
enum { kBriskBytes = 48, kFreakBytes = 64 };
}  // namespace feature_standin
#endif
