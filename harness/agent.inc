// One "process": a separate copy of the id generation code and of its static
// state, made by compiling it with the namespace renamed (-Daslam=aslam_aN).
#include <aslam/common/hash-id.h>
#include <aslam/common/internal/unique-id.h>

#define AGENT_CAT2(a, b) a##b
#define AGENT_CAT(a, b) AGENT_CAT2(a, b)
extern "C" void AGENT_CAT(agent_unique_, AGENT)(uint64_t* out) {
  aslam::internal::generateUnique128BitHash(out);
}
extern "C" void AGENT_CAT(agent_random_, AGENT)(uint64_t* out) {
  aslam::HashId::random().toUint64(out);
}
