// Stand-in for the brisk library, see feature-standin.h.
#ifndef STUB_BRISK_BRISK_H_
#define STUB_BRISK_BRISK_H_
#include "feature-standin.h"

namespace brisk {
class HarrisScoreCalculator;
template <class ScoreCalculator>
class ScaleSpaceFeatureDetector : public feature_standin::Detector {
 public:
  ScaleSpaceFeatureDetector(size_t octaves, double uniformity_radius, double absolute_threshold = 0, size_t max_number_of_keypoints = ~size_t(0))
      : feature_standin::Detector(feature_standin::brisk_detector(static_cast<double>(octaves), uniformity_radius, absolute_threshold, static_cast<double>(max_number_of_keypoints))) {}
};
class BriskDescriptorExtractor : public feature_standin::Extractor {
 public:
  explicit BriskDescriptorExtractor(bool rotation_invariant = true, bool scale_invariant = true)
      : feature_standin::Extractor(feature_standin::brisk_extractor(rotation_invariant, scale_invariant), feature_standin::kBriskBytes) {}
};
}  // namespace brisk
#endif
