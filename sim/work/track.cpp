#include "track.h"
#include <vector>
namespace sim {
static int64_t live = 0, arm = -1;
static bool fired = false;
static int running = 0;
static std::vector<int> touched;
void track_live(int d) { live += d; }
int64_t track_live_count() { return live; }
void track_arm(int64_t after) {
  arm = after;
  fired = false;
}
bool track_fired() { return fired; }
void track_copy() {
  if (arm < 0 || arm-- != 0)
    return;
  fired = true;
  count(FaultCopyThrow);
  throw Injected("copy");
}
void touch_reset(int64_t n) { touched.assign(n, 0); }
void touch_index(int64_t i) {
  if (i < 0 || i >= static_cast<int64_t>(touched.size()))
    violation("index-range", "index %ld outside of 0..%zu", long(i),
              touched.size());
  ++touched[i];
}
int touch_count(int64_t i) { return touched[i]; }
int body_enter(int d) { return running += d; }
int body_running() { return running; }
} // namespace sim
