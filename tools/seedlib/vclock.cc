// Virtual time: when switched on, every clock of the process reads vclock_ns.
#include <cstdint>
#include <ctime>
#include <dlfcn.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>

bool vclock_on = false;
int64_t vclock_ns = 0;

extern "C" int clock_gettime(clockid_t id, struct timespec* ts) {
  if (vclock_on && (id == CLOCK_REALTIME || id == CLOCK_MONOTONIC)) {
    ts->tv_sec = vclock_ns / 1000000000;
    ts->tv_nsec = vclock_ns % 1000000000;
    return 0;
  }
  return static_cast<int>(syscall(SYS_clock_gettime, id, ts));
}
extern "C" int gettimeofday(struct timeval* tv, void*) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
extern "C" time_t time(time_t* t) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (t) *t = ts.tv_sec;
  return ts.tv_sec;
}

// absl interpolates between readings of the clock; under virtual time it must not
#include "absl/time/clock.h"
namespace absl {
ABSL_NAMESPACE_BEGIN
int64_t GetCurrentTimeNanos() {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  return static_cast<int64_t>(ts.tv_sec) * 1000000000 + ts.tv_nsec;
}
Time Now() { return FromUnixNanos(GetCurrentTimeNanos()); }
ABSL_NAMESPACE_END
}  // namespace absl
