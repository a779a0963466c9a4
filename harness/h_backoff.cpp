// Backoff policies: the state machine of every policy is unrolled until it is periodic; and the spin
// mutexes start every acquisition from a fresh state.
#include "client.h"
#ifdef MACROS          // the documented configuration macros
namespace user { struct Policy; }
#define YAMC_BACKOFF_SPIN_DEFAULT user::Policy
#define YAMC_BACKOFF_EXPONENTIAL_INITCOUNT 7
#endif
#include "naive_spin_mutex.hpp"
#include "ttas_spin_mutex.hpp"
static bool thorough;
struct G { uint32_t yields, waits, first_bad, acq; };
static G* g() { return (G*)mc_aux(); }
static void on_yield() { g()->yields++; }
static void base_setup() { mc_set_yield_hook(on_yield); }
static void base_teardown() { mc_set_yield_hook(nullptr); }

template <class P> struct Runner {
  static void body(int) {
    const uint64_t N = mc_param(0); int64_t d; uint64_t total = 0;
    typename P::state st;
    unsigned char snap[sizeof st]; memset(snap, 0xee, sizeof snap);
    auto until_yield = [&](uint64_t limit) -> uint64_t {       // waits up to and including the one that yields; 0: too many
      uint64_t k = 0; g()->yields = 0;
      mc_ghost_enter();
      while (!g()->yields) { if (k >= limit) { mc_ghost_leave(); return 0; } ++k; P::wait(st); }
      mc_ghost_leave();
      mc_yield("policy yielded");
      if (g()->yields != 1) mc_fail("yields", "one wait yields %u times", g()->yields);
      return k;
    };
    uint64_t f = until_yield(N + 1);
    if (!f) mc_fail("interval", "initial count %llu: no yield within %llu waits", (unsigned long long)N, (unsigned long long)N + 1);
    if (f < N) mc_fail("interval", "initial count %llu: yields at wait %llu already", (unsigned long long)N, (unsigned long long)f);
    uint64_t prev = N > 1 ? N : 1; int n = 0;
    for (;; ++n) {
      uint64_t hi = prev / 2 + 1; if (hi >= prev && prev > 1) hi = prev - 1; if (prev <= 1) hi = 1;
      uint64_t lo = prev / 2 ? prev / 2 : 1;
      uint64_t k = until_yield(hi);
      if (!k) mc_fail("interval", "initial count %llu: interval %llu is followed by one longer than %llu", (unsigned long long)N, (unsigned long long)prev, (unsigned long long)hi);
      if (k < lo) mc_fail("interval", "initial count %llu: interval %llu is followed by %llu, less than half", (unsigned long long)N, (unsigned long long)prev, (unsigned long long)k);
      if (k == 1 && prev == 1 && !memcmp(snap, &st, sizeof st)) break;        // same state after a yield: periodic from here on
      memcpy(snap, &st, sizeof st); prev = k;
      if (n > 200) mc_fail("interval", "initial count %llu: not periodic after %d yields", (unsigned long long)N, n);
    }
    mc_outcome((uint64_t)n); mc_cover("periodic");
  }
};
template <class P, int EACH> struct Plain { static void body(int) {
  typename P::state st;
  for (int k = 0; k < 64; ++k) { g()->yields = 0; P::wait(st); if (g()->yields != EACH) mc_fail("yields", "wait number %d yields %u times instead of %d", k, g()->yields, EACH); }
} };

// ---- fresh state per acquisition, alias types ----
namespace user {
struct Policy {
  struct state { uint32_t count = 0; uint32_t magic = 0x5a5a; };
  static void wait(state& s) {
    if (s.magic != 0x5a5a) mc_fail("stale-state", "wait is called with something that is not a state");
    if (s.count == 0) { if (g()->first_bad) mc_fail("stale-state", "two fresh states within one acquisition"); g()->first_bad = 1; }
    else if (!g()->first_bad) mc_fail("stale-state", "the first wait of an acquisition sees the state of an earlier one");
    if (s.count < 2) s.count++;
    g()->waits = 1;
  }
};
}
struct Hold { int64_t phase; };
static bool waited(void*) { return g()->waits != 0; }
static bool released(void*) { return g()->acq != 0; }
template <class M> struct Fresh {
  static M*& m() { static M* p; return p; }
  static void setup() { base_setup(); m() = new M(); }
  static void teardown() { if (!m()->try_lock()) mc_fail("left-locked", "locked in the end"); m()->unlock(); delete m(); base_teardown(); }
  // thread 1 holds the lock until thread 2 has waited at least once, twice over; thread 2 acquires twice
  static void body(int tid) {
    if (tid == 1) for (int k = 0; k < 2; ++k) {
      m()->lock(); mc_ghost_enter(); g()->waits = 0; g()->acq = 1; mc_ghost_leave();
      mc_await(waited, nullptr, "contender waits"); m()->unlock();
      if (k == 0) { mc_park("between"); }
    }
    else for (int k = 0; k < 2; ++k) {
      mc_await(released, nullptr, "holder holds"); g()->acq = 0; g()->first_bad = 0;
      m()->lock(); m()->unlock(); g()->first_bad = 0;
    }
  }
};
static void alias_body(int) {
#ifndef MACROS
  typedef yamc::backoff::exponential<> E;
  if (!std::is_same<E, yamc::backoff::exponential<4000>>::value) mc_fail("default", "the default initial count is not 4000");
  if (!std::is_same<yamc::spin::mutex, yamc::spin::basic_mutex<E>>::value || !std::is_same<yamc::spin_weak::mutex, yamc::spin_weak::basic_mutex<E>>::value || !std::is_same<yamc::spin_ttas::mutex, yamc::spin_ttas::basic_mutex<E>>::value)
    mc_fail("default", "the default policy is not exponential<>");
#endif
}
static std::vector<mc_program>* out;
static void put(const std::string& n, int th, void (*s)(), void (*b)(int), void (*t)(), uint64_t p0 = 0, unsigned fl = 0) {
  mc_program p; memset((void*)&p, 0, sizeof p); p.name = client::nm(n); p.nthreads = th; p.flags = fl; p.setup = s; p.body = b; p.teardown = t; p.param[0] = p0; out->push_back(p);
}
template <unsigned N> void exp1() { put("exp/" + std::to_string(N), 1, base_setup, Runner<yamc::backoff::exponential<N>>::body, base_teardown, N); }
template <unsigned N> struct Upto { static void go() { exp1<N>(); Upto<N - 1>::go(); } };
template <> struct Upto<0> { static void go() { exp1<0>(); } };
template <unsigned K> struct Pow { static void go() { exp1<(1u << K) - 1>(); exp1<1u << K>(); exp1<(1u << K) + 1>(); Pow<K - 1>::go(); } };
template <> struct Pow<6> { static void go() {} };
template <class M> void fresh(const std::string& n) { put("fresh/" + n, 2, Fresh<M>::setup, Fresh<M>::body, Fresh<M>::teardown); }
extern "C" void mc_programs(std::vector<mc_program>& o, const char* tier) {
  std::cout.rdbuf(nullptr); thorough = !strcmp(tier, "thorough"); out = &o;
#ifdef MACROS
  put("exp/default7", 1, base_setup, Runner<yamc::backoff::exponential<>>::body, base_teardown, 7);
  fresh<yamc::spin::mutex>("spin.alias"); fresh<yamc::spin_weak::mutex>("spin_weak.alias"); fresh<yamc::spin_ttas::mutex>("spin_ttas.alias");
#else
  Upto<66>::go(); Pow<16>::go(); exp1<1000>(); exp1<1500>(); exp1<3999>(); exp1<1000000>(); exp1<0x1000000>();
  put("exp/default", 1, base_setup, Runner<yamc::backoff::exponential<>>::body, base_teardown, 4000);
  put("exp/alias", 1, base_setup, alias_body, base_teardown);
  put("plain/yield", 1, base_setup, Plain<yamc::backoff::yield, 1>::body, base_teardown);
  put("plain/busy", 1, base_setup, Plain<yamc::backoff::busy, 0>::body, base_teardown);
  fresh<yamc::spin::basic_mutex<user::Policy>>("spin"); fresh<yamc::spin_weak::basic_mutex<user::Policy>>("spin_weak"); fresh<yamc::spin_ttas::basic_mutex<user::Policy>>("spin_ttas");
  if (thorough) { Upto<500>::go(); Pow<24>::go(); exp1<0x7fffffff>(); exp1<0x80000000u>(); exp1<0xffffffffu>(); }
#endif
}
