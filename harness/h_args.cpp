// Timeout arguments: every timed operation with durations and time points of many types, magnitudes and
// clocks, against a resource that is free, held in the other mode, or held throughout.
#include "client.h"
#include <ratio>
#if defined G_FAIR
#include "fair_mutex.hpp"
#elif defined G_ALT
#include "alternate_mutex.hpp"
#elif defined G_CHECKED
#include "checked_mutex.hpp"
#elif defined G_POSIX
#include <errno.h>
#include "posix_native_mutex.hpp"
#include "posix_semaphore.hpp"
#elif defined G_FAIRS
#include <cassert>
#include "fair_shared_mutex.hpp"
#elif defined G_ALTS
#include "alternate_shared_mutex.hpp"
#elif defined G_CHECKEDS
#include "checked_shared_mutex.hpp"
#elif defined G_GENERIC
#include "yamc_semaphore.hpp"
#elif defined G_WIN
#include "win_native_mutex.hpp"
#include "win_semaphore.hpp"
#elif defined G_GCD
#include "gcd_semaphore.hpp"
#endif
using namespace client; using namespace std::chrono;
static bool thorough; static std::vector<mc_program>* out;
#if defined G_WIN
static const int64_t SLACK = 2000000;
#else
static const int64_t SLACK = 3;
#endif
#if defined G_WIN || defined G_GCD || defined G_POSIX
static const bool SHIMS = true;      // a wait of the platform may last although the object is signaled: time passes before it is scheduled
#else
static const bool SHIMS = false;
#endif
static void* box; static bool done_, held_;
static int64_t REAL() { return mc_clock_now(0); }
static int64_t MONO() { return mc_clock_now(1); }
static const char* what_; static int cur_;

// what the call has to wait for: deadline on CLOCK_REALTIME/MONOTONIC in ns (long double: no overflow)
struct Expect { int clk; long double at; };
static void judge(bool r, bool avail, Expect e, int64_t t0, const char* name) {
  int64_t el = mc_now() - t0;
  if (avail) {
    if (!r) mc_fail("timeout-false", "%s: false although it was available at once", name);
    if (SHIMS ? el > 0 && mc_now() > e.at - (e.clk ? MONO() : REAL()) + mc_now() + SLACK : el != 0) mc_fail("timed-blocks", "%s: waited %lld ns although it was available at once", name, (long long)el);
    return;
  }
  if (r) mc_fail("exclusion", "%s: true although it was never available", name);
  long double now = e.clk ? MONO() : REAL();
  if (now < e.at) mc_fail("early-timeout", "%s: false %.0Lf ns before the deadline", name, e.at - now);
  long double start = now - el, end = e.at > start ? e.at : start;
  if (now > end + SLACK + (e.at > start ? (e.at - start) * 1e-9L : -(long double)SLACK)) mc_fail("timed-blocks", "%s: returned %.0Lf ns after its deadline", name, now - end);
}
template <class D> long double ns(D d) { return (long double)d.count() * D::period::num / D::period::den * 1e9L; }

// A: adapter { static void make(), destroy(), hold(int mode), drop(int mode); static const bool anyclk, flt; static const int nkinds, forclk;
//              template <class D> static bool f(int kind, D); template <class TP> static bool u(int kind, TP); static bool avail(int kind, int mode); static void give(int kind); }
template <class A> struct Run {
  static int kind, mode;
  template <class D> static void f(D d, const char* nm) {
    bool av = A::avail(kind, mode); int64_t t0 = mc_now(); Expect e{A::forclk, (long double)(A::forclk ? MONO() : REAL()) + ns(d)};
    if (std::is_floating_point<typename D::rep>::value) e.at -= A::forclk ? 1 : 512;     // resolution of a double
    mc_trace("      _for(%s) kind %d mode %d", nm, kind, mode);
    bool r = A::f(kind, d); judge(r, av, e, t0, nm); if (r) A::give(kind);
  }
  template <class Clock, class D> static void u(time_point<Clock, D> tp, Expect e, const char* nm) {
    bool av = A::avail(kind, mode); int64_t t0 = mc_now();
    mc_trace("      _until(%s) kind %d mode %d", nm, kind, mode);
    bool r = A::u(kind, tp); judge(r, av, e, t0, nm); if (r) A::give(kind);
  }
  template <class D> static void sysu(int64_t off, const char* nm) { auto tp = time_point_cast<D>(system_clock::time_point(nanoseconds(REAL() + off))); u(tp, Expect{0, ns(tp.time_since_epoch())}, nm); }
  template <class D> static void styu(int64_t off, const char* nm, std::true_type) { auto tp = time_point_cast<D>(steady_clock::time_point(nanoseconds(MONO() + off))); u(tp, Expect{1, ns(tp.time_since_epoch())}, nm); }
  template <class D> static void cusu(int64_t off, const char* nm, std::true_type) { auto tp = time_point_cast<D>(half_clock::time_point(nanoseconds(MONO() / 2 + 12345 + off))); u(tp, Expect{1, (ns(tp.time_since_epoch()) - 12345.0L) * 2}, nm); }
  template <class D> static void styu(int64_t, const char*, std::false_type) {}
  template <class D> static void cusu(int64_t, const char*, std::false_type) {}
  template <class D> static void fl(D d, const char* nm, std::true_type) { f(d, nm); }
  template <class D> static void fl(D, const char*, std::false_type) {}
  typedef std::integral_constant<bool, A::anyclk> AC; typedef std::integral_constant<bool, A::flt> FL;
  typedef duration<int, std::ratio<31556952>> yrs; typedef duration<double, std::milli> dms;
  template <class D> static void epoch(int i) {
    switch (i) { case 0: u(system_clock::time_point(system_clock::duration(0)), Expect{0, 0}, "the epoch of system_clock"); break; case 1: u(system_clock::time_point(system_clock::duration(1)), Expect{0, 1}, "1 ns after the epoch"); break;
      case 2: u(system_clock::time_point(system_clock::duration(-1)), Expect{0, -1}, "1 ns before the epoch"); break; default: u(time_point<system_clock, seconds>(seconds(-5000000000ll)), Expect{0, -5e18L}, "160 years before the epoch"); }
  }
  static const int NFOR = 27, NUNT = 3 * 11, NEP = 4;
  static void one(int i) {
    if (i < NFOR) switch (i) {
      case 0: f(nanoseconds(-3), "-3 ns"); break; case 1: f(nanoseconds(0), "0 ns"); break; case 2: f(nanoseconds(1), "1 ns"); break; case 3: f(nanoseconds(999999), "999999 ns"); break;
      case 4: f(nanoseconds(1000001), "1000001 ns"); break; case 5: f(microseconds(1500), "1500 us"); break; case 6: f(milliseconds(-1), "-1 ms"); break; case 7: f(milliseconds(0), "0 ms"); break;
      case 8: f(milliseconds(1), "1 ms"); break; case 9: f(milliseconds(-2000), "-2000 ms"); break; case 10: f(seconds(0), "0 s"); break; case 11: f(seconds(1), "1 s"); break;
      case 12: f(minutes(1), "1 min"); break; case 13: f(hours(1), "1 h"); break; case 14: f(hours(1193), "1193 h (just over 2^32 ms)"); break; case 15: f(hours(1200), "50 days"); break;
      case 16: f(hours(-1), "-1 h"); break; case 17: f(yrs(20), "20 years"); break; case 18: f(yrs(-20), "-20 years"); break; case 19: f(duration<short, std::deci>(3), "short 3 ds"); break;
      case 20: f(duration<unsigned, std::milli>(7), "unsigned 7 ms"); break; case 21: f(nanoseconds(1999999999), "1.999999999 s"); break; case 22: fl(duration<double>(0.0015), "double 1.5 ms", FL()); break;
      case 23: fl(duration<double>(-0.5), "double -0.5 s", FL()); break; case 24: fl(dms(0.25), "double 0.25 ms", FL()); break; case 25: fl(duration<double>(86400.5), "double 1 day", FL()); break; case 26: f(milliseconds(4294967295ll), "2^32-1 ms"); break;
    } else if (i < NFOR + NUNT) {
      int c = (i - NFOR) / 11;
#define U(D, off, nm) (c == 0 ? sysu<D>(off, "system: " nm) : c == 1 ? styu<D>(off, "steady: " nm, AC()) : cusu<D>(off, "custom: " nm, AC()))
      switch ((i - NFOR) % 11) {
        case 0: U(nanoseconds, -5, "-5 ns"); break; case 1: U(nanoseconds, 0, "now"); break; case 2: U(nanoseconds, 1, "+1 ns"); break; case 3: U(microseconds, 1999, "us"); break; case 4: U(milliseconds, 1500000, "ms"); break;
        case 5: U(seconds, 2500000000ll, "s"); break; case 6: U(minutes, 90000000000ll, "min"); break; case 7: U(hours, -7200000000000ll, "-2 h"); break; case 8: U(nanoseconds, 4320000000000000ll, "+50 days"); break;
        case 9: U(nanoseconds, 1999999999ll, "+1.999999999 s"); break; case 10: U(nanoseconds, 600000000000000000ll, "+19 years"); break;
      }
    } else epoch<int>(i - NFOR - NUNT);
  }
  static void setup() { kind = (int)mc_param(1); mode = (int)mc_param(2); A::make(); done_ = held_ = false; }
  static void teardown() { A::destroy(); }
  static bool is_held(void*) { return held_; } static bool is_done(void*) { return done_; }
  static void body(int tid) {
    if (tid == 1) { A::hold(mode); held_ = true; mc_await(is_done, nullptr, "hold"); A::drop(mode); return; }
    mc_await(is_held, nullptr, "until held"); A::pre(mode);
    one(mc_choose(NFOR + NUNT + NEP, "timeout"));
    A::post(mode); done_ = true;
  }
  static void put(const char* name) {
    for (int k = 0; k < A::nkinds; ++k) for (int m = 0; m < A::nmodes; ++m) {
      mc_program p; memset((void*)&p, 0, sizeof p); p.name = nm(std::string(name) + "/args.k" + std::to_string(k) + "m" + std::to_string(m));
      p.nthreads = 2; p.flags = MC_TICK | MC_TIMEOUT_NORMAL; p.setup = setup; p.teardown = teardown; p.body = body; p.param[1] = k; p.param[2] = m; out->push_back(p);
    }
  }
};
template <class A> int Run<A>::kind; template <class A> int Run<A>::mode;

// modes: 0 held exclusively, 1 free, 2 held shared.  kinds: 0 exclusive, 1 shared
template <class M, bool ANY, bool REC = false> struct Mtx {
  static const bool anyclk = ANY, flt = ANY; static const int nkinds = 1, nmodes = REC ? 3 : 2, forclk = ANY;      // REC mode 2: the caller owns it
  static void pre(int md) { if (REC && md == 2) m().lock(); } static void post(int md) { if (REC && md == 2) m().unlock(); }
  static M& m() { return *(M*)box; }
  static void make() { box = new M(); } static void destroy() { delete (M*)box; }
  static void hold(int md) { if (md == 0) m().lock(); } static void drop(int md) { if (md == 0) m().unlock(); }
  static bool avail(int, int md) { return md != 0; } static void give(int) { m().unlock(); }
  template <class D> static bool f(int, D d) { return m().try_lock_for(d); } template <class TP> static bool u(int, TP t) { return m().try_lock_until(t); }
};
template <class M, bool ANY> struct SMtx : Mtx<M, ANY> {
  typedef Mtx<M, ANY> B; static const int nkinds = 2, nmodes = 3;
  static void hold(int md) { if (md == 2) B::m().lock_shared(); else B::hold(md); } static void drop(int md) { if (md == 2) B::m().unlock_shared(); else B::drop(md); }
  static bool avail(int k, int md) { return md == 1 || (md == 2 && k == 1); } static void give(int k) { if (k) B::m().unlock_shared(); else B::m().unlock(); }
  template <class D> static bool f(int k, D d) { return k ? B::m().try_lock_shared_for(d) : B::m().try_lock_for(d); } template <class TP> static bool u(int k, TP t) { return k ? B::m().try_lock_shared_until(t) : B::m().try_lock_until(t); }
};
template <class M, bool ANY, bool FLT, int FC> struct Sema {
  static const bool anyclk = ANY, flt = FLT; static const int nkinds = 1, nmodes = 2, forclk = FC;
  static M& m() { return *(M*)box; }
  static void make() { box = new M(mc_param(2) == 1); } static void destroy() { delete (M*)box; }
  static void hold(int) {} static void drop(int) {} static void pre(int) {} static void post(int) {} static bool avail(int, int md) { return md == 1; } static void give(int) { m().release(); }
  template <class D> static bool f(int, D d) { return m().try_acquire_for(d); } template <class TP> static bool u(int, TP t) { return m().try_acquire_until(t); }
};
static void all() {
#if defined G_FAIR
  Run<Mtx<yamc::fair::timed_mutex, true>>::put("fair.timed_mutex"); Run<Mtx<yamc::fair::recursive_timed_mutex, true, true>>::put("fair.recursive_timed_mutex");
#elif defined G_ALT
  Run<Mtx<yamc::alternate::timed_mutex, true>>::put("alternate.timed_mutex"); Run<Mtx<yamc::alternate::recursive_timed_mutex, true, true>>::put("alternate.recursive_timed_mutex");
#elif defined G_CHECKED
  Run<Mtx<yamc::checked::timed_mutex, true>>::put("checked.timed_mutex"); Run<Mtx<yamc::checked::recursive_timed_mutex, true, true>>::put("checked.recursive_timed_mutex");
#elif defined G_POSIX
  Run<Mtx<yamc::posix::native_mutex, false>>::put("posix.native_mutex"); Run<Mtx<yamc::posix::native_recursive_mutex, false, true>>::put("posix.native_recursive_mutex"); Run<SMtx<yamc::posix::rwlock, false>>::put("posix.rwlock");
  Run<Sema<yamc::posix::counting_semaphore<>, true, false, 0>>::put("posix.semaphore");
#elif defined G_FAIRS
  Run<SMtx<yamc::fair::basic_shared_timed_mutex<yamc::rwlock::TaskFairness>, true>>::put("fair.shared_timed_mutex.task"); Run<SMtx<yamc::fair::basic_shared_timed_mutex<yamc::rwlock::PhaseFairness>, true>>::put("fair.shared_timed_mutex.phase");
#elif defined G_ALTS
  Run<SMtx<yamc::alternate::basic_shared_timed_mutex<yamc::rwlock::ReaderPrefer>, true>>::put("alternate.shared_timed_mutex.reader"); Run<SMtx<yamc::alternate::basic_shared_timed_mutex<yamc::rwlock::WriterPrefer>, true>>::put("alternate.shared_timed_mutex.writer");
#elif defined G_CHECKEDS
  Run<SMtx<yamc::checked::basic_shared_timed_mutex<yamc::rwlock::ReaderPrefer>, true>>::put("checked.shared_timed_mutex.reader"); Run<SMtx<yamc::checked::basic_shared_timed_mutex<yamc::rwlock::WriterPrefer>, true>>::put("checked.shared_timed_mutex.writer");
#elif defined G_GENERIC
  Run<Sema<yamc::counting_semaphore<>, true, true, 1>>::put("semaphore");
#elif defined G_WIN
  Run<Mtx<yamc::win::native_mutex, true, true>>::put("win.native_mutex"); Run<Sema<yamc::win::counting_semaphore<>, true, true, 1>>::put("win.semaphore");
#elif defined G_GCD
  Run<Sema<yamc::gcd::counting_semaphore<>, true, true, 1>>::put("gcd.semaphore");
#endif
}
extern "C" void mc_programs(std::vector<mc_program>& o, const char* tier) { std::cout.rdbuf(nullptr); thorough = !strcmp(tier, "thorough"); out = &o; all(); }
