// Stand-in for the AprilTag library, which is not installed here: the tags
// "found" in an image are the ones the harness (or a demonstration) put there.
#ifndef STUB_APRILTAGS_TAG_DETECTOR_H_
#define STUB_APRILTAGS_TAG_DETECTOR_H_

#include <cstddef>
#include <utility>
#include <vector>

#include <opencv2/core/core.hpp>

#include "Tag36h11.h"

namespace AprilTags {
struct TagDetection {
  bool good = false;
  int id = -1;
  std::pair<float, float> p[4];
  void draw(cv::Mat& image) const;
  static bool sortByIdCompare(const TagDetection& a, const TagDetection& b) { return a.id < b.id; }
};
class TagDetector {
 public:
  TagDetector(const TagCodes& codes, size_t black_border);
  std::vector<TagDetection> extractTags(const cv::Mat& image) const;

 private:
  size_t black_border_;
};
}  // namespace AprilTags
#endif
