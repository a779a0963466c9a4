// Model of dispatch semaphores and dispatch_time (as libdispatch implements them: monotonic times count up,
// wall clock times are negative, DISPATCH_TIME_FOREVER is ~0).
#pragma once
#include "mc.h"
#include <cstdlib>
#include <cstdint>
#include <stdlib.h>
#include <time.h>
#ifndef NSH
#define NSH __attribute__((no_sanitize_thread)) inline
#endif
typedef uint64_t dispatch_time_t; typedef long dispatch_once_t; typedef intptr_t dispatch_int;
#define DISPATCH_TIME_NOW (0ull)
#define DISPATCH_TIME_FOREVER (~0ull)
#define DISPATCH_WALLTIME_NOW (~1ull)
#define NSEC_PER_SEC 1000000000ull
#define NSEC_PER_MSEC 1000000ull
#define USEC_PER_SEC 1000000ull
#define NSEC_PER_USEC 1000ull
#define KERN_SUCCESS 0
#define KERN_OPERATION_TIMED_OUT 49
struct dispatch_semaphore_s { long value, orig; };
typedef struct dispatch_semaphore_s* dispatch_semaphore_t; typedef dispatch_semaphore_t dispatch_object_t;
namespace gcdshim {
inline bool (*&fault_fn())(const char*) { static bool (*f)(const char*); return f; }
NSH bool fault(const char* what) { return fault_fn() && fault_fn()(what); }
NSH bool avail(void* p) { return ((dispatch_semaphore_t)p)->value > 0; }
static const int64_t REAL0 = 0;
}
NSH dispatch_time_t dispatch_time(dispatch_time_t when, int64_t delta) {
  if (when == DISPATCH_TIME_FOREVER) return when;
  if (when == DISPATCH_TIME_NOW || when == DISPATCH_WALLTIME_NOW) mc_yield("dispatch_time reads the clock");
  if ((int64_t)when < 0) {                      // wall clock
    int64_t w = when == DISPATCH_WALLTIME_NOW ? mc_clock_now(CLOCK_REALTIME) : -(int64_t)when, r;
    if (__builtin_add_overflow(w, delta, &r)) return delta >= 0 ? DISPATCH_TIME_FOREVER : (dispatch_time_t)-2ll;
    if (r <= 1) return delta >= 0 ? DISPATCH_TIME_FOREVER : (dispatch_time_t)-2ll;
    return (dispatch_time_t)-r;
  }
  int64_t b = when ? (int64_t)when : mc_clock_now(CLOCK_MONOTONIC), r;
  if (__builtin_add_overflow(b, delta, &r)) return delta >= 0 ? DISPATCH_TIME_FOREVER : 1;
  return r < 1 ? 1 : (dispatch_time_t)r;
}
NSH dispatch_time_t dispatch_walltime(const struct timespec* ts, int64_t delta) {
  if (!ts) mc_yield("dispatch_walltime reads the clock");
  int64_t ns = ts ? (int64_t)ts->tv_sec * 1000000000ll + ts->tv_nsec : mc_clock_now(CLOCK_REALTIME);
  ns = (int64_t)((uint64_t)ns + (uint64_t)delta);
  if (ns <= 1) return delta >= 0 ? DISPATCH_TIME_FOREVER : (dispatch_time_t)-2ll;
  return (dispatch_time_t)-ns;
}
NSH dispatch_semaphore_t dispatch_semaphore_create(intptr_t v) {
  if (v < 0 || gcdshim::fault("dispatch_semaphore_create")) return nullptr;
  dispatch_semaphore_t s = (dispatch_semaphore_t)malloc(sizeof *s); s->value = s->orig = v; return s; }
NSH intptr_t dispatch_semaphore_signal(dispatch_semaphore_t s) { if (!s) mc_fail("native-misuse", "dispatch_semaphore_signal(NULL)"); mc_yield("dispatch_semaphore_signal"); mc_hb_release(s); s->value++; return s->value <= 0; }
NSH intptr_t dispatch_semaphore_wait(dispatch_semaphore_t s, dispatch_time_t t) {
  if (!s) mc_fail("native-misuse", "dispatch_semaphore_wait(NULL)");
  if (gcdshim::fault("dispatch_semaphore_wait")) { mc_yield("dispatch_semaphore_wait fails"); return 14; }
  bool ok;
  if (t == DISPATCH_TIME_FOREVER) ok = mc_await_until(gcdshim::avail, s, -1, "dispatch_semaphore_wait");
  else if (t == DISPATCH_TIME_NOW) { mc_yield("dispatch_semaphore_wait(now)"); ok = gcdshim::avail(s); }
  else if ((int64_t)t < 0) ok = mc_await_clock(gcdshim::avail, s, CLOCK_REALTIME, -(int64_t)t, "dispatch_semaphore_wait(wall)");
  else ok = mc_await_clock(gcdshim::avail, s, CLOCK_MONOTONIC, (int64_t)t, "dispatch_semaphore_wait(time)");
  if (!ok) return KERN_OPERATION_TIMED_OUT;
  mc_hb_acquire(s); s->value--; return 0;
}
NSH void dispatch_release(dispatch_object_t s) { if (!s) mc_fail("native-misuse", "dispatch_release(NULL)"); if (s->value < s->orig) mc_fail("native-misuse", "semaphore released while in use (value below the initial one)"); free(s); }
NSH void dispatch_retain(dispatch_object_t) {}
