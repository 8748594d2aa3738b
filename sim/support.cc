// Zygote set-up shared by all harness executables.
#include <gflags/gflags.h>
#include <glog/logging.h>

#include "simrt.h"

namespace sim {
__attribute__((weak)) void extra_zygote_setup() {}
void zygote_setup() {
  FLAGS_logtostderr = true;
  FLAGS_minloglevel = 3;  // only fatal messages
  FLAGS_v = 0;
  // Touch lazily initialised state once, before any simulated run.
  LOG(INFO) << "warm-up";
  VLOG(1) << "warm-up";
  extra_zygote_setup();
}
}  // namespace sim
