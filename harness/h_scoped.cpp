// yamc::scoped_lock over mock mutexes (blocking, failing, throwing) and over the library's own mutexes.
#include "client.h"
#include <mutex>
#include <system_error>
#include "yamc_scoped_lock.hpp"
#include "posix_native_mutex.hpp"
#include "alternate_mutex.hpp"
#include "ttas_spin_mutex.hpp"
static bool thorough;
enum { NM = 4 };
// ghost state: owner and nesting of every mutex, calls made by each thread since the last reset, faults left
struct G { uint8_t owner[NM], depth[NM], locks[5], unlocks[5], faults[5], phase[5]; };   // phase 1: calls are counted, 2: no faults
static G* g() { return (G*)mc_aux(); }
static_assert(sizeof(G) <= 64, "ghost");
enum : uint64_t { FAIL = 1, THROW = 2 };
static bool is_free(void* p) { return g()->owner[(long)(intptr_t)p] == 0; }

template <int ID, bool REC> struct Mock {
  int64_t dummy = 0; 
  void take() { int t = mc_tid(); mc_hb_acquire(this); g()->owner[ID] = (uint8_t)t; g()->depth[ID]++; }
  void maybe_throw() { int t = mc_tid(); if ((mc_param(5) & THROW) && g()->phase[t] != 2 && g()->faults[t] && mc_choose(2, "throw?")) { g()->faults[t]--; if (mc_choose(2, "what")) throw 42; throw std::system_error(std::make_error_code(std::errc::resource_unavailable_try_again)); } }
  void lock() {
    int t = mc_tid(); if (g()->phase[t] == 1) g()->locks[t]++; maybe_throw();
    if (g()->owner[ID] == t) { if (!REC) mc_fail("relock", "mutex %d is locked again by its owner", ID); take(); return; }
    mc_await(is_free, (void*)(intptr_t)ID, "mock lock"); take();
  }
  bool try_lock() {
    int t = mc_tid(); if (g()->phase[t] == 1) g()->locks[t]++; maybe_throw();
    mc_yield("mock try_lock");
    if (g()->owner[ID] == t) { if (!REC) mc_fail("relock", "mutex %d is tried again by its owner", ID); take(); return true; }
    if (g()->owner[ID]) return false;
    if ((mc_param(5) & FAIL) && g()->phase[t] != 2 && g()->faults[t] && mc_choose(2, "fail?")) { g()->faults[t]--; return false; }
    take(); return true;
  }
  void unlock() {
    int t = mc_tid(); mc_yield("mock unlock"); if (g()->phase[t] == 1) g()->unlocks[t]++;
    if (g()->owner[ID] != t) mc_fail("extra-unlock", "mutex %d is unlocked by thread %d which does not hold it", ID, t);
    mc_hb_release(this); if (--g()->depth[ID] == 0) g()->owner[ID] = 0;
  }
};
// a real mutex with an ownership check around it
template <int ID, class L> struct Real {
  L m;
  void own() { g()->owner[ID] = (uint8_t)mc_tid(); g()->depth[ID]++; }
  void lock() { if (g()->owner[ID] == mc_tid() && ID != 3) mc_fail("relock", "mutex %d is locked again by its owner", ID); if (g()->phase[mc_tid()] == 1) g()->locks[mc_tid()]++; m.lock(); own(); }
  bool try_lock() { if (g()->phase[mc_tid()] == 1) g()->locks[mc_tid()]++; if (!m.try_lock()) return false; own(); return true; }
  void unlock() { int t = mc_tid(); if (g()->phase[t] == 1) g()->unlocks[t]++; if (g()->owner[ID] != t) mc_fail("extra-unlock", "mutex %d is unlocked by thread %d which does not hold it", ID, t);
    if (--g()->depth[ID] == 0) g()->owner[ID] = 0; m.unlock(); }
};
struct SetMock { typedef Mock<0, false> A; typedef Mock<1, false> B; typedef Mock<2, false> C; typedef Mock<3, true> D; };
// (fair mutexes count their tickets: endless retries of std::lock have no finite state space there)
struct SetReal { typedef Real<0, yamc::alternate::mutex> A; typedef Real<1, yamc::posix::mutex> B; typedef Real<2, yamc::spin_ttas::basic_mutex<yamc::backoff::yield>> C; typedef Real<3, yamc::alternate::recursive_mutex> D; };

template <class S> struct Cl {
  struct Wd { typename S::A a; typename S::B b; typename S::C c; typename S::D d; int64_t data[NM]; };
  static Wd*& w() { static Wd* p; return p; }
  static void setup() { w() = new Wd(); for (auto& x : w()->data) x = 0; for (int t = 1; t < 5; ++t) g()->faults[t] = (uint8_t)mc_param(6); }
  static int held(int m) { return g()->owner[m] == mc_tid() ? g()->depth[m] : 0; }
  static void inside(unsigned set, unsigned before) {
    int t = mc_tid();
    for (int m = 0; m < NM; ++m) {
      int want = (set >> m & 1) + (before >> m & 1);
      if (held(m) != want) mc_fail("not-held", "inside the scope mutex %d is held %d times by thread %d instead of %d", m, held(m), t, want);
      if (set >> m & 1) w()->data[m]++;
    }
  }
  static void outside(unsigned before, const char* when) {
    for (int m = 0; m < NM; ++m) if (held(m) != (int)(before >> m & 1)) mc_fail(held(m) ? "left-locked" : "extra-unlock", "%s mutex %d is held %d times", when, m, held(m));
  }
  template <class... M> static bool scope(unsigned set, unsigned before, M&... m) {
    int t = mc_tid(); g()->locks[t] = g()->unlocks[t] = g()->phase[t] = 0;
    const int n = sizeof...(M); bool adopt = (mc_param(7) & 1) && mc_choose(2, "adopt?");
    try {
      if (adopt) {
        g()->phase[t] = 2; int dummy[] = {0, (m.lock(), 0)...}; (void)dummy; g()->phase[t] = 1;
        { yamc::scoped_lock<M...> l(std::adopt_lock, m...); if (g()->locks[t] || g()->unlocks[t]) mc_fail("extra-call", "the adopting constructor locks or unlocks"); inside(set, before); g()->unlocks[t] = 0; }
      } else {
        yamc::scoped_lock<M...> l(m...); inside(set, before); g()->phase[t] = 1;
      }
    } catch (const std::system_error&) { outside(before, "after an exception"); return false; } catch (int) { outside(before, "after an exception"); return false; }
    if (g()->unlocks[t] != n) mc_fail("missing-unlock", "destruction unlocks %d times instead of %d", g()->unlocks[t], n);
    g()->unlocks[t] = g()->phase[t] = 0; outside(before, "after destruction");
    return true;
  }
  static void one(int which, unsigned before) {
    Wd* p = w();
    switch (which) {
      case 0: scope(0, before); break;
      case 1: scope(1, before, p->a); break;
      case 2: scope(3, before, p->a, p->b); break;
      case 3: scope(3, before, p->b, p->a); break;
      case 4: scope(7, before, p->a, p->b, p->c); break;
      case 5: scope(7, before, p->c, p->b, p->a); break;
      case 6: scope(7, before, p->b, p->c, p->a); break;
      case 7: scope(6, before, p->c, p->b); break;
      case 8: scope(5, before, p->c, p->a); break;
      case 9: scope(15, before, p->d, p->c, p->b, p->a); break;
      case 10: scope(15, before, p->a, p->d, p->b, p->c); break;
      case 11: scope(8, before, p->d); break;
      case 12: scope(9, before, p->d, p->a); break;
      case 13: scope(9, before, p->a, p->d); break;
      case 14: scope(7, before, p->a, p->c, p->b); break;
      case 15: scope(7, before, p->b, p->a, p->c); break;
      case 16: scope(7, before, p->c, p->a, p->b); break;
    }
  }
  static int pick(uint64_t mask) { int ops[20], n = 0; for (int b = 0; b < 17; ++b) if (mask >> b & 1) ops[n++] = b; return ops[n > 1 ? mc_choose(n, "operation") : 0]; }
  static void body(int tid) {
    for (int k = 0; k < (int)mc_param(0); ++k) {
      int o = pick(mc_param(tid));
      if ((mc_param(7) & 2) && mc_choose(2, "nested?")) {       // inside a scope on the recursive mutex
        g()->phase[tid] = 2; yamc::scoped_lock<typename S::D> l(w()->d); one(o, 8); g()->phase[tid] = 0;
      } else one(o, 0);
    }
  }
  static void teardown() {
    for (int m = 0; m < NM; ++m) if (g()->owner[m]) mc_fail("left-locked", "mutex %d is still locked in the end", m);
    uint64_t x = 0; for (auto d : w()->data) x = x * 16 + (uint64_t)d; mc_outcome(x);
    delete w();
  }
  static void put(std::vector<mc_program>& o, const std::string& name, int rounds, std::initializer_list<uint64_t> masks, uint64_t fl = 0, int faults = 0, int form = 0, unsigned flags = 0) {
    mc_program p; memset((void*)&p, 0, sizeof p); p.name = client::nm(name); p.nthreads = (int)masks.size(); p.flags = flags; p.setup = setup; p.body = body; p.teardown = teardown;
    p.param[0] = rounds; int i = 1; for (uint64_t m : masks) p.param[i++] = m; p.param[5] = fl; p.param[6] = faults; p.param[7] = form; o.push_back(p);
  }
};
#define B(n) (1ull << (n))
extern "C" void mc_programs(std::vector<mc_program>& o, const char* tier) {
  std::cout.rdbuf(nullptr); thorough = !strcmp(tier, "thorough");
  typedef Cl<SetMock> M; typedef Cl<SetReal> R;
  const uint64_t ALL = (1 << 17) - 1, AB = B(2) | B(3), ABC = B(4) | B(5) | B(6) | B(14) | B(15) | B(16);
  M::put(o, "mock/one", 2, {ALL}, FAIL | THROW, 2, 1);
  M::put(o, "mock/one3", 1, {ALL}, FAIL | THROW, 3, 3);
  M::put(o, "mock/two", 1, {ALL, ALL}, 0, 0, 0);
  M::put(o, "mock/twoadopt", 1, {B(1) | B(2) | B(4), B(1) | B(2) | B(14) | B(11)}, 0, 0, 1);   // adopted mutexes are locked in a common order
  M::put(o, "mock/twofail", 1, {AB | ABC | B(1), AB | ABC | B(0)}, FAIL, 1, 0);
  M::put(o, "mock/twothrow", 1, {AB | ABC | B(1), AB | B(4) | B(5)}, THROW, 1, 0);
  M::put(o, "mock/two2", 2, {AB | ABC, AB | ABC}, 0, 0, 0);
  M::put(o, "mock/three", 1, {AB | B(4), B(3) | B(7) | B(6), B(8) | B(5)}, 0, 0, 0);
  M::put(o, "mock/four", 1, {B(9) | B(10) | B(1), B(9) | B(10) | B(11)}, FAIL, 1, 2);
  M::put(o, "mock/nested", 1, {B(9) | B(1) | B(11) | B(12) | B(13), B(11) | B(12) | B(13)}, 0, 0, 2);
  R::put(o, "real/two", 1, {ALL, ALL & ~(B(9) | B(10))}, 0, 0, 0);
  R::put(o, "real/twoadopt", 1, {B(1) | B(2) | B(4), B(1) | B(2) | B(11)}, 0, 0, 1);
  R::put(o, "real/three", 1, {B(2), B(3) | B(7), B(8) | B(1)}, 0, 0, 0);
  R::put(o, "real/three3", 1, {B(4), B(5), B(1) | B(2)}, 0, 0, 0);
  if (thorough) {
    M::put(o, "mock/one3r", 3, {ALL}, FAIL | THROW, 3, 1);
    M::put(o, "mock/three2", 2, {AB, B(3) | B(7), B(8) | B(5)}, 0, 0, 0);
    M::put(o, "mock/threefail", 1, {AB | B(4), B(3) | B(7), B(8)}, FAIL | THROW, 1, 0);
    M::put(o, "mock/fourthr", 1, {ABC, ABC, AB, B(7) | B(8)}, 0, 0, 0);
    R::put(o, "real/two2", 2, {AB | B(4) | B(5), AB | ABC}, 0, 0, 0);
    R::put(o, "real/threeall", 1, {ABC, ABC, AB | B(7)}, 0, 0, 0);
  }
}
