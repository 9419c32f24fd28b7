// Stand-ins for the glib primitives used by the threaded signing plugin, on top of pthreads, so that the thread sanitizer sees
// all synchronisation and delays, spurious wake-ups and failures can be injected; and a wrapper of the signing operation.
#pragma once
#include <atomic>
#include "common.hpp"

namespace thr {
// Settings of the running case.
extern std::atomic<int> jitter;  // Percentage of synchronisation operations which are delayed.
extern std::atomic<int> sign_us;  // Maximal duration of a signing operation.
extern std::atomic<int> fail_pct;  // Percentage of hashes that cannot be signed, see fails().
extern std::atomic<bool> blocked;  // No signing operation ends.
extern std::atomic<uint64_t> seq;  // Global order of events (relaxed, so no happens-before is added).
void begin(uint64_t seed);
// Whether signing |hash| fails in this case.
bool fails(const uint8_t *hash, size_t size);
// A random pause of the calling thread.
void pause(int percent);

struct Signed {
  uint64_t seq;
  Bytes hash;
  bool ok;
};
struct Thread {  // A thread started by the plugin.
  std::vector<Signed> log;
};
// The logs of all plugin threads of the case. Only to be called when they have ended.
std::vector<Signed> signed_log();
uint64_t live_threads();
uint64_t spurious_wakeups();
}  // namespace thr
