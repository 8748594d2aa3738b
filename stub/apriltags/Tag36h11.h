#ifndef STUB_APRILTAGS_TAG36H11_H_
#define STUB_APRILTAGS_TAG36H11_H_
namespace AprilTags {
struct TagCodes {
  int bits = 36;
};
static const TagCodes tagCodes36h11 = TagCodes();
}  // namespace AprilTags
#endif
