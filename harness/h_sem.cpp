// Semaphores.  -DG_GENERIC: yamc::counting_semaphore, -DG_POSIX: yamc::posix::counting_semaphore,
// -DG_WIN / -DG_GCD: the platform wrappers over the shims.
#include "client.h"
#include "obj.h"
#if defined G_GENERIC
#include "yamc_semaphore.hpp"
namespace ns = yamc;
enum { STEPS = 0, FORCLK = 1 };
#elif defined G_POSIX
#include <errno.h>
#include "posix_semaphore.hpp"
namespace ns = yamc::posix;
enum { STEPS = 1, FORCLK = 0 };
#elif defined G_GCD
#include "gcd_semaphore.hpp"
namespace ns = yamc::gcd;
enum { STEPS = 1, FORCLK = 1 };
#elif defined G_WIN
#include "win_semaphore.hpp"
namespace ns = yamc::win;
enum { STEPS = 0, FORCLK = 1 };
#endif
using namespace client;
using namespace std::chrono;
static bool thorough;
static std::vector<mc_program>* out;

enum : uint64_t { A = 1, T = 2, U = 4, UX = 8, F = 16, FN = 32, R1 = 64, R2 = 128, R0 = 256, UFAR = 512, UPRE = 1024, NOP = 2048 };
static const int NB = 12;
struct Box2 { alignas(16) unsigned char raw[256]; void* p; int data, data2; };
static Box2* B;
static uint64_t pick(uint64_t mask) { uint64_t ops[16]; int n = 0; for (int b = 0; b < NB; ++b) if (mask >> b & 1) ops[n++] = 1ull << b; return ops[n > 1 ? mc_choose(n, "operation") : 0]; }

template <class SEM> struct Sem {
  static SEM& s() { return *(SEM*)B->p; }
  static bool until(int clk, int64_t at) {
    if (clk == SYSTEM) return s().try_acquire_until(system_clock::time_point(duration_cast<system_clock::duration>(nanoseconds(at))));
    if (clk == CUSTOM) return s().try_acquire_until(half_clock::time_point(half_clock::duration(at / 2 + 12345)));
    return s().try_acquire_until(steady_clock::time_point(nanoseconds(at)));
  }
  static bool op(uint64_t o) {
    int clk = (int)mc_param(7), ck = clk == SYSTEM ? 0 : 1; int64_t at; bool r = true;
    auto tp = [&](int64_t off) { at = mc_clock_now(ck) + off; if (clk == CUSTOM) at &= ~1ll; obj::invoke(obj::TIMED, 1, 0, at, ck); };
    try {
    switch (o) {
      case A: obj::invoke(obj::ACQ); s().acquire(); break;
      case T: obj::invoke(obj::TRY); r = s().try_acquire(); break;
      case U: tp(DELAY); r = until(clk, at); break;
      case UX: tp(-4); r = until(clk, at); break;
      case UPRE: at = clk == SYSTEM ? -1500000000ll : 12346; obj::invoke(obj::TIMED, 1, 0, at, ck); r = until(clk, at); break;   // before the epoch
      case F: obj::invoke(obj::TIMED, 1, 0, DELAY, FORCLK, true); r = s().try_acquire_for(nanoseconds(DELAY)); break;
      case FN: obj::invoke(obj::TIMED, 1, 0, -3, FORCLK, true); r = s().try_acquire_for(nanoseconds(-3)); break;
      case R0: obj::invoke(obj::REL, 0); s().release(0); break;
      case R1: obj::invoke(obj::REL, 1); if (mc_param(9)) s().release(); else s().release(1); break;
      case R2: obj::invoke(obj::REL, 2); s().release(2); break;
      default: mc_fail("harness", "bad op");
    }
    } catch (const std::system_error& e) { mc_fail("spurious-error", "system_error %d (%s) out of a correct call", e.code().value(), e.what()); }
    obj::response(r);
    return r;
  }
  static void setup() {
    obj::init(STEPS ? obj::SEM_STEPS : obj::SEM, (int)mc_param(11), (int)mc_param(8), (unsigned)mc_param(10));
    B = new Box2; memset((void*)B, 0, sizeof *B); static_assert(sizeof(SEM) <= sizeof B->raw, "box"); B->p = new (B->raw) SEM((std::ptrdiff_t)mc_param(8));
  }
  static void teardown() { s().~SEM(); delete B; }
  // threads 1..n-1 run op sequences, the last one feeds permits whenever everybody is stuck
  static void body(int tid) {
    uint64_t fl = mc_param(5);
    if (tid == (int)mc_param(11)) { while (obj::finished() < tid - 1) { mc_park("feeder"); if (obj::any_waiting()) op(R1); } return; }
    for (int k = 0; k < (int)mc_param(0); ++k) {
      uint64_t o = pick(mc_param(tid)); if (o == NOP) continue;
      if ((fl & F_PARK_BEFORE) && mc_choose(2, "wait before?")) mc_park("before");
      op(o);
    }
    obj::done();
  }
  // the semaphore (initially 1) as a lock: acquire ... release, plain data inside
  static void lockbody(int tid) {
    for (int k = 0; k < (int)mc_param(0); ++k) {
      uint64_t o = pick(mc_param(tid));
      if ((mc_param(5) & F_PARK_BEFORE) && mc_choose(2, "wait before?")) mc_park("before");
      if (!op(o)) continue;
      if (B->data != B->data2) mc_fail("visibility", "half-finished update");
      B->data++; 
      if ((mc_param(5) & F_PARK_IN) && mc_choose(2, "wait inside?")) mc_park("inside");
      B->data2++;
      op(R1);
    }
  }
  static void lockteardown() { if (B->data != B->data2) mc_fail("visibility", "final state"); mc_outcome((uint64_t)B->data); if (!s().try_acquire()) mc_fail("permits", "a permit got lost"); if (s().try_acquire()) mc_fail("permits", "a permit too many"); teardown(); }
  // hand-over: thread 1 publishes data with release(n), the others take it
  static void handbody(int tid) {
    int n = (int)mc_param(11) - 1;
    if (tid == 1) { for (int k = 0; k < (int)mc_param(0); ++k) { B->data = 42; B->data2 = 43; } uint64_t o = pick(mc_param(1)); if (o == R2 && n == 2) op(R2); else for (int k = 0; k < n; ++k) op(R1); return; }
    uint64_t o = pick(mc_param(tid));
    if (op(o)) { if (B->data != 42 || B->data2 != 43) mc_fail("visibility", "an acquirer does not see what happened before the release"); mc_outcome(1); }
    else mc_outcome(2);
  }
  static void put(const std::string& name, int mode, int initial, int rounds, std::initializer_list<uint64_t> masks, unsigned flags, uint64_t cf = 0, int clk = STEADY) {
    mc_program p; memset((void*)&p, 0, sizeof p);
    p.name = nm(name); p.nthreads = (int)masks.size() + (mode == 0); p.flags = flags; p.setup = setup; p.teardown = mode == 1 ? lockteardown : teardown;
    p.body = mode == 0 ? body : mode == 1 ? lockbody : handbody; p.on_quiescent = obj::on_quiescent; p.on_tick = obj::on_tick;
    p.param[0] = rounds; int i = 1; for (uint64_t m : masks) p.param[i++] = m;
    p.param[5] = cf; p.param[7] = clk; p.param[8] = initial; p.param[9] = rounds & 1; p.param[10] = (flags & MC_TIMEOUT_NORMAL) ? obj::TIMEDMUST : 0; p.param[11] = p.nthreads;
    out->push_back(p);
  }
};
#ifdef CROWD
// Many acquirers come one after another; then thread 1 releases permits, step by step, while they wake up in any order.
struct Turn { uint8_t turn, got; };
static Turn* tn() { return (Turn*)mc_aux(); }
static int turn() { mc_ghost_enter(); int t = tn()->turn; mc_ghost_leave(); return t; }
static void next() { mc_ghost_enter(); tn()->turn++; mc_ghost_leave(); }
static void got(int d) { mc_ghost_enter(); tn()->got = (uint8_t)(tn()->got + d); mc_ghost_leave(); }
static bool my_turn(void* p) { return tn()->turn >= (int)(uintptr_t)p; }
static uint64_t masks_[64][16]; static int steps_[64][16]; static int nprog;
template <class SEM> struct CrowdSem : Sem<SEM> {
  typedef Sem<SEM> P;
  static void rel(int n) { obj::invoke(obj::REL, n); got(-n); P::s().release(n); obj::response(true); }
  static void body(int tid) {
    int me = (int)mc_param(3); uint64_t m = masks_[me][tid]; int n = (int)mc_param(11), free_ = (int)mc_param(2);
    if (tid == 1) {
      mc_await(my_turn, (void*)(uintptr_t)(n - free_), "all"); mc_park("all"); next();
      for (int k = 0; steps_[me][k]; ++k) { if ((mc_param(5) & F_PARK_IN) && k) mc_park("between"); rel(steps_[me][k]); }
      while (obj::finished() < n - 1) { mc_park("feeder"); if (obj::any_waiting()) rel(1); }
      return;
    }
    if (!(m & NOP)) { mc_await(my_turn, (void*)(uintptr_t)(tid - 1), "turn"); mc_park("turn"); next(); }
    else { int q = n - free_, at[4] = {q + 1, q, 1, q / 2 + 1}; mc_await(my_turn, (void*)(uintptr_t)at[mc_choose(4, "comes when")], "barge"); }
    uint64_t o = pick(m & (A | T | U | F));
    if (P::op(o)) { got(1); if (m & R1) rel(1); }
    if (m & R2) rel(2);
    obj::done();
  }
  static void setup() { P::setup(); mc_ghost_enter(); tn()->turn = 1; tn()->got = (uint8_t)-(int)mc_param(8); mc_ghost_leave(); }
  static void teardown() {
    int left = 0; while (P::s().try_acquire()) ++left;
    mc_ghost_enter(); int want = -(int8_t)tn()->got; mc_ghost_leave();
    if (left != want) mc_fail("permits", "%d permits are left instead of %d", left, want);
    P::teardown();
  }
  static void put(const std::string& name, int initial, std::vector<uint64_t> masks, std::vector<int> steps, unsigned flags, uint64_t cf) {
    P::put(name, 0, initial, 1, {}, flags | MC_NORACE, cf, STEADY); mc_program& p = out->back();
    p.nthreads = (int)masks.size() + 1; p.body = body; p.setup = setup; p.teardown = teardown; p.param[11] = p.nthreads; p.param[3] = nprog; p.param[2] = 0;
    int i = 2; for (uint64_t m : masks) { masks_[nprog][i++] = m; if (m & NOP) p.param[2]++; } i = 0; for (int k : steps) steps_[nprog][i++] = k; ++nprog;
  }
};
static std::vector<uint64_t> rep(int n, uint64_t m) { return std::vector<uint64_t>(n, m); }
static void all() {
  typedef CrowdSem<ns::counting_semaphore<>> C; const int N = thorough ? 9 : 8;
  const int NA = STEPS ? 6 : N; C::put("count/crowd.all", 0, rep(NA, A), {NA}, 0, 0);
  C::put("count/crowd.ones", 0, rep(N, A), {1, 1, 1, 1, 1, 1, 1, 1, 1}, 0, F_PARK_IN);
  C::put("count/crowd.fast", 0, rep(N - 1, A), {1, 1, 1, 1, 1, 1, 1, 1}, 0, 0);
  C::put("count/crowd.parts", 0, rep(N, A), {2, 4, 1}, 0, F_PARK_IN);
  C::put("count/crowd.partsfast", 0, rep(N - 1, A), {2, 3, 1}, 0, 0);
  C::put("count/crowd.init", 3, rep(N + 2, A), {2, 3}, 0, F_PARK_IN);
  C::put("count/crowd.chain", 0, rep(N, A | R1), {2}, 0, 0);
  { auto m = rep(N - 2, A); m.push_back(A | T | NOP); C::put("count/crowd.barge", 0, m, {2, 3}, 0, 0); }
  { auto m = rep(N - 2, A); m.push_back(A | T | NOP); m.push_back(A | U | NOP); C::put("count/crowd.twobarge", 0, m, {1, 3}, MC_TICK, 0); }
  { auto m = rep(N - 2, A); m.push_back(T | R2 | NOP); C::put("count/crowd.tworel", 0, m, {1, 2}, 0, 0); }
  { auto m = rep(N - 2, A); m[1] = U; m[3] = F; C::put("count/crowd.timed", 0, m, {2, 2}, MC_TICK, F_PARK_IN); }
  { auto m = rep(N - 2, A); m[0] = U; m[1] = U; m[4] = U; m.pop_back(); C::put("count/crowd.timedfast", 0, m, {3, 1}, MC_TICK, 0); }
}
#else
template <std::ptrdiff_t N> static void max_is() {
  typedef ns::counting_semaphore<N> S; if (S::max() < N) mc_fail("permits", "counting_semaphore<%lld>::max() is %lld", (long long)N, (long long)S::max());
  S s(N < 9 ? N : 9); for (int i = 0; i < (N < 9 ? N : 9); ++i) if (!s.try_acquire()) mc_fail("try-false", "counting_semaphore<%lld> holds %d permits only", (long long)N, i);
  if (s.try_acquire()) mc_fail("permits", "counting_semaphore<%lld> gives away more permits than it has", (long long)N);
}
static void max_body(int) {
  max_is<1>(); max_is<2>(); max_is<3>(); max_is<5>(); max_is<127>(); max_is<32767>(); max_is<65536>(); max_is<2147483647>();
  if (ns::binary_semaphore::max() < 1) mc_fail("permits", "binary_semaphore::max() is below 1"); if (ns::counting_semaphore<>::max() < 32767) mc_fail("permits", "the default counting_semaphore::max() is tiny");
}
static void none() {}
static void all() {
  { mc_program p; memset((void*)&p, 0, sizeof p); p.name = client::nm("max"); p.nthreads = 1; p.setup = none; p.body = max_body; p.teardown = none; out->push_back(p); }
  typedef Sem<ns::counting_semaphore<>> C; typedef Sem<ns::binary_semaphore> Bn; typedef Sem<ns::counting_semaphore<5>> C5;
  const char* cn[] = {"steady", "system", "custom"};
  const uint64_t R = R1 | R2; const unsigned SP =
#ifdef G_POSIX
    MC_EINTR;
#else
    MC_SPUR;
#endif
  for (int init = 0; init <= 2; ++init) {
    std::string i = ".init" + std::to_string(init);
    C::put("count/mix2x2" + i, 0, init, 2, {A | T | U | UX | R, A | T | F | FN | R | R0}, MC_TICK, F_PARK_BEFORE);
    C::put("count/mix3x1" + i, 0, init, 1, {A | T | U | R, A | T | F | R, A | T | U | R}, MC_TICK, F_PARK_BEFORE);
    C::put("count/acq3x2" + i, 0, init, 2, {A | T, A | R1, A | R2}, 0, 0);
    C::put("count/sp2x2" + i, 0, init, 2, {A | T | U | UX | R, A | T | U | F | R}, MC_TICK | SP, 0);
    C::put("count/acq4x1" + i, 0, init, 1, {A, A, A | T, R2 | A}, 0, F_PARK_BEFORE);
    C5::put("count5/acq3x1" + i, 0, init, 1, {A | T, A | R1, A | R2}, SP, F_PARK_BEFORE);
  }
  const uint64_t ACQ = A | T | U | UX | F | FN;
  Bn::put("binary/lock2x2", 1, 1, 2, {ACQ, ACQ}, MC_TICK, F_PARK_BEFORE | F_PARK_IN);
  Bn::put("binary/lock3x1", 1, 1, 1, {ACQ, ACQ, ACQ}, MC_TICK, F_PARK_IN);
  Bn::put("binary/lock3x2", 1, 1, 2, {A | T, A | T, A}, 0, F_PARK_IN);
  Bn::put("binary/sp2x2", 1, 1, 2, {ACQ, ACQ}, MC_TICK | SP, F_PARK_IN);
  Bn::put("binary/hand1", 2, 0, 1, {R1, ACQ}, MC_TICK, 0);
  C::put("count/hand2", 2, 0, 1, {R1 | R2, ACQ, ACQ}, MC_TICK, 0);
  C::put("count/hand3", 2, 0, 1, {R1, A | U, A | T, A}, MC_TICK, 0);
  for (int c = 0; c < 3; ++c) {
    std::string n = std::string(".") + cn[c];
    const uint64_t TM = U | UX | F | FN | UPRE;
    C::put("count/clk2x2" + n, 0, 0, 2, {R1 | A, TM}, MC_TICK, F_PARK_BEFORE, c);
    C::put("count/clk3x1" + n, 0, 1, 1, {TM | R1, TM, TM | R1}, MC_TICK, F_PARK_BEFORE, c);
    C::put("count/clkspur" + n, 0, 0, 1, {R1 | A, TM, TM}, MC_TICK | SP, 0, c);
    C::put("count/jump" + n, 0, 0, 1, {R1, TM, TM}, MC_TICK | MC_JUMP, 0, c);
    C::put("count/must" + n, 0, 0, 1, {TM, TM}, MC_TICK | MC_TIMEOUT_NORMAL, 0, c);
  }
  if (thorough) {
    for (int init = 0; init <= 3; ++init) {
      std::string i = ".init" + std::to_string(init);
      C::put("count/mix3x2" + i, 0, init, 2, {A | T | U | R, A | T | F | R, A | U | R1}, MC_TICK, F_PARK_BEFORE);
      C::put("count/acq3x3" + i, 0, init, 3, {A | T, A | R1, A | R2}, 0, 0);
      C::put("count/acq4x2" + i, 0, init, 2, {A, A, A | T, R2 | A}, 0, 0);
    }
    Bn::put("binary/lock3x3", 1, 1, 3, {A | T, A | T, A}, 0, F_PARK_IN);
    Bn::put("binary/lock4x2", 1, 1, 2, {A | T, A | U, A, A}, MC_TICK, F_PARK_IN);
    C::put("count/lock4x1", 1, 1, 1, {ACQ, ACQ, ACQ, ACQ}, MC_TICK | SP, F_PARK_IN);
  }
}
#endif
extern "C" void mc_programs(std::vector<mc_program>& o, const char* tier) {
  std::cout.rdbuf(nullptr); thorough = !strcmp(tier, "thorough"); out = &o; all();
}
