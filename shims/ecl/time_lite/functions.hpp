// Stand-in for ecl_time_lite: the clocks can be virtualised by the harness (verif_clock).
#ifndef VERIF_SHIM_TIME_LITE_FUNCTIONS_HPP_
#define VERIF_SHIM_TIME_LITE_FUNCTIONS_HPP_
#include <cerrno>
#include "types.hpp"
#include "errors.hpp"
namespace verif_clock {
// when on, epoch_time() reads and sleep_until() advances this virtual clock
struct State { bool on; long long ns; long long sleeps; long long last_target; long long real_ahead; long long cpu_ns; };
inline State& state() { static State s = { false, 0, 0, 0, 0, 0 }; return s; }
}
namespace ecl {
inline TimeError epoch_time(TimeStructure& t) {
  verif_clock::State& s = verif_clock::state();
  if (s.on) { t.tv_sec = s.ns / 1000000000LL; t.tv_nsec = s.ns % 1000000000LL; return TimeError(NoError); }
  if (clock_gettime(CLOCK_MONOTONIC, &t) != 0) return TimeError(UnknownError);
  return TimeError(NoError);
}
inline TimeError realtime_epoch_time(TimeStructure& t) {
  verif_clock::State& s = verif_clock::state();
  if (s.on) { long long n = s.ns + s.real_ahead; t.tv_sec = n / 1000000000LL; t.tv_nsec = n % 1000000000LL; return TimeError(NoError); }
  if (clock_gettime(CLOCK_REALTIME, &t) != 0) return TimeError(UnknownError);
  return TimeError(NoError);
}
inline TimeError cpu_time(TimeStructure& t) {
  verif_clock::State& s = verif_clock::state();
  if (s.on) { t.tv_sec = s.cpu_ns / 1000000000LL; t.tv_nsec = s.cpu_ns % 1000000000LL; return TimeError(NoError); }
  if (clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t) != 0) return TimeError(UnknownError);
  return TimeError(NoError);
}
inline TimeError sleep_until(const TimeStructure& t) {
  verif_clock::State& s = verif_clock::state();
  if (s.on) {
    if (t.tv_nsec < 0 || t.tv_nsec >= 1000000000L) return TimeError(InvalidInputError);
    long long target = t.tv_sec * 1000000000LL + t.tv_nsec;
    s.sleeps++; s.last_target = target;
    if (target > s.ns) s.ns = target;
    return TimeError(NoError);
  }
  int r = clock_nanosleep(CLOCK_MONOTONIC, TIMER_ABSTIME, &t, 0);
  if (r == 0) return TimeError(NoError);
  if (r == EINTR) return TimeError(InterruptedError);
  return TimeError(InvalidInputError);
}
}
#endif
