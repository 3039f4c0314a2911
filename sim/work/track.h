// Element type that counts its live instances and can be told to throw.
#pragma once
#include "../rt/simrt.h"
#include <stdexcept>

namespace sim {
struct Injected : std::runtime_error {
  using std::runtime_error::runtime_error;
};
// Uninstrumented bookkeeping (track.cpp).
void track_live(int d);
int64_t track_live_count();
void track_arm(int64_t after); // throw at the n-th copy from now, -1 = never
bool track_fired();
void track_copy();
void touch_index(int64_t i); // counts executions per index
void touch_reset(int64_t n);
int touch_count(int64_t i);
int body_enter(int d);       // bodies in progress
int body_running();

struct Tracked {
  int64_t v = 0;
  Tracked() { track_live(1); }
  // NOLINTNEXTLINE: implicit like a number
  Tracked(int64_t x) : v(x) { track_live(1); }
  Tracked(const Tracked &o) : v(o.v) {
    track_copy();
    track_live(1);
  }
  Tracked &operator=(const Tracked &o) {
    track_copy();
    v = o.v;
    return *this;
  }
  ~Tracked() {
    v = -77;
    track_live(-1);
  }
  bool operator==(const Tracked &o) const { return v == o.v; }
  bool operator<(const Tracked &o) const { return v < o.v; }
};
} // namespace sim
