// Long histories and large numbers: every state of an object on a long sequential history, where one fiber
// plays any number of threads one after the other (mc_as).  Counts of holds, readers, permits, arrivals and
// phases are driven past 2^16 one by one, and past 2^32 where an argument can do it.
#include "client.h"
#include <cassert>
#if defined G_SPIN
#include "naive_spin_mutex.hpp"
#include "ttas_spin_mutex.hpp"
#elif defined G_FAIR
#include "fair_mutex.hpp"
#elif defined G_ALT
#include "alternate_mutex.hpp"
#elif defined G_CHECKED
#include "checked_mutex.hpp"
#elif defined G_FAIRS
#include "fair_shared_mutex.hpp"
#elif defined G_ALTS
#include "alternate_shared_mutex.hpp"
#elif defined G_CHECKEDS
#include "checked_shared_mutex.hpp"
#elif defined G_POSIX
#include <errno.h>
#include "posix_native_mutex.hpp"
#include "posix_semaphore.hpp"
#elif defined G_SEM
#include "yamc_semaphore.hpp"
#elif defined G_LB
#include "yamc_latch.hpp"
#include "yamc_barrier.hpp"
#endif
using namespace client; using namespace std::chrono;
static bool thorough; static std::vector<mc_program>* out;
static void* box;
static void is(bool got, bool exp, const char* kindf, const char* kindt, const char* what, long n) { if (got != exp) mc_fail(got ? kindt : kindf, "%s is %s at step %ld of the history", what, got ? "true" : "false", n); }
static void none() {}
static void put(const std::string& name, int n, void (*setup)(), void (*body)(int)) {
  mc_program p; memset((void*)&p, 0, sizeof p); p.name = nm(name); p.nthreads = 1; p.setup = setup; p.body = body; p.teardown = none; p.param[1] = n; p.flags = MC_TICK | MC_TIMEOUT_NORMAL; out->push_back(p);
}
template <class M, bool TIMED, bool SHARED, bool REC, bool AS = true> struct Mx {
  static M& m() { return *(M*)box; }
  static void setup() { box = new M(); }
  typedef std::integral_constant<bool, TIMED> TT; typedef std::integral_constant<bool, SHARED> SS;
  typedef typename std::conditional<AS, steady_clock, system_clock>::type C;
  static bool tx(int k, std::true_type) { switch (k) { case 0: return m().try_lock_for(nanoseconds(-1)); case 1: return m().try_lock_until(C::now() - seconds(1)); default: return m().try_lock_for(nanoseconds(0)); } }
  static bool tx(int, std::false_type) { return m().try_lock(); }
  static bool ts(int k, std::true_type) { switch (k) { case 0: return m().try_lock_shared_for(nanoseconds(-1)); case 1: return m().try_lock_shared_until(C::now() - seconds(1)); default: return m().try_lock_shared_for(nanoseconds(0)); } }
  template <class MM> static bool s_try(MM& mm, std::true_type) { return mm.try_lock_shared(); }
  static bool ts(int, std::false_type) { return false; }
  static bool acq(int k) { switch (k % 3) { case 0: m().lock(); return true; case 1: return m().try_lock(); default: return tx(k / 3 % 3, TT()); } }
  static void me(int id) { if (AS) mc_as(id); }
  // exclusive acquisitions of all kinds, with failing attempts of another thread in between
  static void age(int) {
    int n = (int)mc_param(1);
    for (int i = 0; i < n; ++i) {
      me(1); is(acq(i), true, "try-false", "exclusion", "acquisition of a free mutex", i);
      if (AS) { me(2); is(m().try_lock(), false, "exclusion", "exclusion", "try_lock of an owned mutex", i); is(tx(i % 3, TT()), false, "exclusion", "exclusion", "timed attempt at an owned mutex", i); shtry(i, SS()); }
      me(1); m().unlock(); mc_recycle();
    }
    end();
  }
  static void shtry(int i, std::true_type) { is(m().try_lock_shared(), false, "exclusion", "exclusion", "try_lock_shared of an owned mutex", i); is(ts(i % 3, TT()), false, "exclusion", "exclusion", "timed shared attempt at an owned mutex", i); }
  static void shtry(int, std::false_type) {}
  static void end() { me(0); is(m().try_lock(), true, "left-locked", "left-locked", "final try_lock", 0); m().unlock(); delete (M*)box; }
  // shared acquisitions of all kinds by two threads
  static bool sacq(int k) { switch (k % 3) { case 0: m().lock_shared(); return true; case 1: return m().try_lock_shared(); default: return TIMED ? ts(k / 3 % 3, TT()) : m().try_lock_shared(); } }
  static void sage(int) {
    int n = (int)mc_param(1);
    for (int i = 0; i < n; ++i) {
      mc_as(1); is(sacq(i), true, "try-false", "try-true", "shared acquisition of a free mutex", i); mc_as(2); is(sacq(i + 1), true, "try-false", "try-true", "second shared acquisition", i);
      mc_as(3); is(m().try_lock(), false, "exclusion", "exclusion", "try_lock with readers", i); is(tx(i % 3, TT()), false, "exclusion", "exclusion", "timed attempt with readers", i);
      mc_as(1); m().unlock_shared(); mc_as(3); is(m().try_lock(), false, "exclusion", "exclusion", "try_lock with a reader", i); mc_as(2); m().unlock_shared(); mc_recycle();
    }
    end();
  }
  // n readers at the same time
  static void readers(int) {
    int n = (int)mc_param(1);
    for (int i = 0; i < n; ++i) { mc_as(10 + i); is(sacq(i), true, "try-false", "try-true", "shared acquisition with readers", i); mc_as(5); is(m().try_lock(), false, "exclusion", "exclusion", "try_lock with readers", i); }
    for (int i = 0; i < n; ++i) { mc_as(5); is(m().try_lock(), false, "exclusion", "exclusion", "try_lock with readers left", i); mc_as(10 + i); m().unlock_shared(); mc_recycle(); }
    end();
  }
  // recursion depth n
  static void depth(int) {
    int n = (int)mc_param(1);
    for (int i = 0; i < n; ++i) { me(1); is(acq(i), true, "recursive-false", "exclusion", "acquisition by the owner", i); if (AS) { me(2); is(m().try_lock(), false, "exclusion", "exclusion", "try_lock of an owned mutex", i); } }
    for (int i = n; i > 0; --i) { if (AS) { me(2); is(m().try_lock(), false, "exclusion", "exclusion", "try_lock of a mutex that is still owned", i); } me(1); m().unlock(); }
    end();
  }
    static void exclusive(const char* name, int big = 66000) { put(std::string(name) + "/age", big, setup, age); deep(name, big, std::integral_constant<bool, REC>()); }
  static void deep(const char* name, int big, std::true_type) { put(std::string(name) + "/depth", big, setup, depth); }
  static void deep(const char*, int, std::false_type) {}
  static void shared(const char* name, int big = 66000, int rd = 66000) { exclusive(name, big); put(std::string(name) + "/sage", big, setup, sage); put(std::string(name) + "/readers", rd, setup, readers); }
};
#if defined G_SEM || defined G_POSIX
#if defined G_SEM
namespace ns = yamc;
#else
namespace ns = yamc::posix;
#endif
template <class S> struct Sm {
  static S& s() { return *(S*)box; }
  static bool ta(int k) { switch (k % 4) { case 0: s().acquire(); return true; case 1: return s().try_acquire(); case 2: return s().try_acquire_for(nanoseconds(0)); default: return s().try_acquire_until(system_clock::now() - seconds(1)); } }
  static void setup0() { box = new S(0); }
  static void count(int) {
    int n = (int)mc_param(1);
    for (int r = 0; r < 2; ++r) {
      for (int i = 0; i < n; ++i) s().release(1);
      for (int i = 0; i < n; ++i) is(ta(i), true, "try-false", "permits", "acquisition with permits left", i);
      is(s().try_acquire(), false, "permits", "permits", "try_acquire without permits", r); is(s().try_acquire_for(nanoseconds(-1)), false, "permits", "permits", "try_acquire_for without permits", r);
      s().release(n);
      for (int i = 0; i < n; ++i) is(ta(i + 2), true, "try-false", "permits", "acquisition with permits left", i);
      is(s().try_acquire(), false, "permits", "permits", "try_acquire without permits", r);
    }
    delete (S*)box;
  }
  static void age(int) {      // permits go to and fro, failed attempts in between
    int n = (int)mc_param(1);
    for (int i = 0; i < n; ++i) { is(s().try_acquire(), false, "permits", "permits", "try_acquire without permits", i); is(s().try_acquire_for(nanoseconds(-1)), false, "permits", "permits", "timed acquire without permits", i); s().release(); is(ta(i), true, "try-false", "permits", "acquisition", i); }
    delete (S*)box;
  }
  static void big(int) {
    const std::ptrdiff_t v[] = {127, 128, 255, 256, 32767, 32768, 65535, 65536, 0x7ffffffe, 0x7fffffff, 0x80000000ll, 0xffffffffll, 0x100000000ll, 0x7fffffffffffll};
    std::ptrdiff_t x = v[mc_choose(14, "how many")]; if (x > S::max()) return;
    { S t(x); is(t.try_acquire(), true, "try-false", "permits", "try_acquire of a big semaphore", x); t.release(); is(t.try_acquire_for(nanoseconds(0)), true, "try-false", "permits", "try_acquire_for of a big semaphore", x); }
#if defined G_SEM
    { S t(0); t.release(x); is(t.try_acquire(), true, "try-false", "permits", "try_acquire after a big release", x); if (x > 1) { is(t.try_acquire(), true, "try-false", "permits", "second try_acquire after a big release", x); } }
    if (x < S::max()) { S t(1); t.release(x); is(t.try_acquire(), true, "try-false", "permits", "try_acquire after a big release", x); is(t.try_acquire(), true, "try-false", "permits", "second try_acquire after a big release", x); }
#endif
  }
  static void all() { put("sem/count", 66000, setup0, count); put("sem/age", 66000, setup0, age); put("sem/big", 0, none, big); }
};
#endif
#if defined G_LB
struct L {
  static void count(int) { int n = (int)mc_param(1); yamc::latch l(n); for (int i = 0; i < n; ++i) { is(l.try_wait(), false, "early-release", "early-release", "try_wait of a latch", i); l.count_down(); } is(l.try_wait(), true, "try-false", "early-release", "try_wait of a completed latch", n); l.wait(); l.arrive_and_wait(0); l.count_down(0); l.wait(); }
  static void big(int) {
    const std::ptrdiff_t v[] = {128, 255, 256, 257, 32768, 65535, 65536, 0x7fffffff, 0x80000000ll, 0xffffffffll, 0x100000000ll, 0x100000001ll, 0x7fffffffffffffffll - 1};
    std::ptrdiff_t x = v[mc_choose(13, "how many")];
    yamc::latch l(x); is(l.try_wait(), false, "early-release", "early-release", "try_wait of a big latch", x); l.count_down(x - 1); is(l.try_wait(), false, "early-release", "early-release", "try_wait of a big latch before the last count", x);
    if (mc_choose(2, "how")) l.arrive_and_wait(1); else { l.count_down(1); l.wait(); } is(l.try_wait(), true, "try-false", "early-release", "try_wait of a completed latch", x);
  }
};
static int gen;
struct Comp { void operator()() { gen++; } };
struct B {
  typedef yamc::barrier<Comp> BAR; typedef BAR::arrival_token tok;
  static void expect(int g, long i) { if (gen != g) mc_fail("completion", "the completion function has run %d times, expected %d, at step %ld", gen, g, i); }
  static void setup() { gen = 0; }
  static void expected(int) {        // many arrivals in one phase, two phases
    int n = (int)mc_param(1); BAR b(n);
    for (int ph = 0; ph < 2; ++ph) { tok t{}; for (int i = 0; i < n - 1; ++i) { t = b.arrive(); expect(ph, i); } b.arrive_and_wait(); expect(ph + 1, n); if (n > 1) b.wait(std::move(t)); }
  }
  static void phases(int) {          // many phases
    int n = (int)mc_param(1); BAR b(2);
    for (int i = 0; i < n; ++i) { tok t = b.arrive(); expect(i, i); if (i & 1) b.arrive_and_wait(); else { tok u = b.arrive(1); b.wait(std::move(u)); } expect(i + 1, i); b.wait(std::move(t)); }
  }
  static void drops(int) {           // the number expected shrinks one by one
    int n = (int)mc_param(1), ph = 0; BAR b(n);
    for (int e = n; e > 1; --e) { if (e > 1) { tok t = b.arrive(e - 1); expect(ph, e); (void)t; } b.arrive_and_drop(); expect(++ph, e); }
    (void)b.arrive(); expect(++ph, 1);
  }
  static void big(int) {
    const std::ptrdiff_t v[] = {128, 255, 256, 257, 32768, 65535, 65536, 0x7fffffff, 0x80000000ll, 0xffffffffll, 0x100000000ll, 0x100000001ll, 0x7fffffffffffffffll - 1};
    std::ptrdiff_t x = v[mc_choose(13, "how many")]; BAR b(x);
    tok t = b.arrive(x - 1); expect(0, x); if (mc_choose(2, "how")) { b.arrive_and_wait(); b.wait(std::move(t)); expect(1, x); (void)b.arrive(x - 1); expect(1, x); (void)b.arrive(1); expect(2, x); }
    else { b.arrive_and_drop(); expect(1, x); b.wait(std::move(t)); if (x > 2) { (void)b.arrive(x - 2); expect(1, x); } (void)b.arrive(1); expect(2, x); }
  }
};
#endif
static void all() {
#if defined G_SPIN
  Mx<yamc::spin::mutex, false, false, false>::exclusive("spin.mutex"); Mx<yamc::spin_weak::mutex, false, false, false>::exclusive("spin_weak.mutex"); Mx<yamc::spin_ttas::mutex, false, false, false>::exclusive("spin_ttas.mutex");
#elif defined G_FAIR
  Mx<yamc::fair::mutex, false, false, false>::exclusive("fair.mutex"); Mx<yamc::fair::timed_mutex, true, false, false>::exclusive("fair.timed_mutex"); Mx<yamc::fair::recursive_mutex, false, false, true>::exclusive("fair.recursive_mutex"); Mx<yamc::fair::recursive_timed_mutex, true, false, true>::exclusive("fair.recursive_timed_mutex");
#elif defined G_ALT
  Mx<yamc::alternate::mutex, false, false, false, false>::exclusive("alternate.mutex"); Mx<yamc::alternate::timed_mutex, true, false, false>::exclusive("alternate.timed_mutex"); Mx<yamc::alternate::recursive_mutex, false, false, true, false>::exclusive("alternate.recursive_mutex"); Mx<yamc::alternate::recursive_timed_mutex, true, false, true>::exclusive("alternate.recursive_timed_mutex");
#elif defined G_CHECKED
  Mx<yamc::checked::mutex, false, false, false>::exclusive("checked.mutex", 5000); Mx<yamc::checked::timed_mutex, true, false, false>::exclusive("checked.timed_mutex", 5000); Mx<yamc::checked::recursive_mutex, false, false, true>::exclusive("checked.recursive_mutex", 66000); Mx<yamc::checked::recursive_timed_mutex, true, false, true>::exclusive("checked.recursive_timed_mutex", 66000);
#elif defined G_FAIRS
  Mx<yamc::fair::basic_shared_mutex<yamc::rwlock::TaskFairness>, false, true, false>::shared("fair.shared_mutex.task"); Mx<yamc::fair::basic_shared_mutex<yamc::rwlock::PhaseFairness>, false, true, false>::shared("fair.shared_mutex.phase");
  Mx<yamc::fair::basic_shared_timed_mutex<yamc::rwlock::TaskFairness>, true, true, false>::shared("fair.shared_timed_mutex.task"); Mx<yamc::fair::basic_shared_timed_mutex<yamc::rwlock::PhaseFairness>, true, true, false>::shared("fair.shared_timed_mutex.phase");
#elif defined G_ALTS
  Mx<yamc::alternate::basic_shared_mutex<yamc::rwlock::ReaderPrefer>, false, true, false>::shared("alternate.shared_mutex.reader"); Mx<yamc::alternate::basic_shared_mutex<yamc::rwlock::WriterPrefer>, false, true, false>::shared("alternate.shared_mutex.writer");
  Mx<yamc::alternate::basic_shared_timed_mutex<yamc::rwlock::ReaderPrefer>, true, true, false>::shared("alternate.shared_timed_mutex.reader"); Mx<yamc::alternate::basic_shared_timed_mutex<yamc::rwlock::WriterPrefer>, true, true, false>::shared("alternate.shared_timed_mutex.writer");
#elif defined G_CHECKEDS
  Mx<yamc::checked::basic_shared_mutex<yamc::rwlock::ReaderPrefer>, false, true, false>::shared("checked.shared_mutex.reader", 5000, 300); Mx<yamc::checked::basic_shared_mutex<yamc::rwlock::WriterPrefer>, false, true, false>::shared("checked.shared_mutex.writer", 5000, 300);
  Mx<yamc::checked::basic_shared_timed_mutex<yamc::rwlock::ReaderPrefer>, true, true, false>::shared("checked.shared_timed_mutex.reader", 5000, 300); Mx<yamc::checked::basic_shared_timed_mutex<yamc::rwlock::WriterPrefer>, true, true, false>::shared("checked.shared_timed_mutex.writer", 5000, 300);
#elif defined G_POSIX
  Mx<yamc::posix::native_recursive_mutex, true, false, true, false>::exclusive("posix.native_recursive_mutex"); Sm<ns::counting_semaphore<>>::all();
#elif defined G_SEM
  Sm<ns::counting_semaphore<>>::all();
#elif defined G_LB
  put("latch/count", 66000, none, L::count); put("latch/big", 0, none, L::big);
  put("barrier/expected", 66000, B::setup, B::expected); put("barrier/phases", 66000, B::setup, B::phases); put("barrier/drops", 66000, B::setup, B::drops); put("barrier/big", 0, B::setup, B::big);
#endif
}
extern "C" void mc_programs(std::vector<mc_program>& o, const char* tier) { std::cout.rdbuf(nullptr); thorough = !strcmp(tier, "thorough"); out = &o; all(); }
