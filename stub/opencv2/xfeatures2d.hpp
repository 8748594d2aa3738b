// Stand-in for the features of opencv contrib, see feature-standin.h.
#ifndef STUB_OPENCV2_XFEATURES2D_HPP_
#define STUB_OPENCV2_XFEATURES2D_HPP_
#include "feature-standin.h"

namespace cv {
namespace xfeatures2d {
class SURF : public feature_standin::Detector {
 public:
  explicit SURF(uint64_t options) : feature_standin::Detector(options) {}
  static Ptr<SURF> create(double hessianThreshold = 100, int nOctaves = 4, int nOctaveLayers = 3, bool = false, bool = false) {
    return Ptr<SURF>(new SURF(feature_standin::surf_detector(hessianThreshold, nOctaves, nOctaveLayers)));
  }
};
typedef SURF SurfFeatureDetector;
typedef SURF SurfDescriptorExtractor;
class FREAK : public feature_standin::Extractor {
 public:
  explicit FREAK(uint64_t options) : feature_standin::Extractor(options, feature_standin::kFreakBytes) {}
  static Ptr<FREAK> create(bool orientationNormalized = true, bool scaleNormalized = true, float patternScale = 22.0f, int nOctaves = 4,
                           const std::vector<int>& = std::vector<int>()) {
    return Ptr<FREAK>(new FREAK(feature_standin::freak_extractor(orientationNormalized, scaleNormalized, patternScale, nOctaves)));
  }
};
}  // namespace xfeatures2d
}  // namespace cv
#endif
