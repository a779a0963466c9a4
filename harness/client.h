// Most general clients of mutex-like types: every thread performs every sequence of allowed
// operations up to a depth, the engine explores every interleaving.
#pragma once
#include "mc.h"
#include "spec.h"
#include <cassert>
#include <chrono>
#include <new>
#include <iostream>
#include <type_traits>
#include <string>

namespace client {
using spec::X; using spec::S;

// operations a thread may choose from
enum : uint64_t {
  O_LOCK = 1, O_TRY = 2, O_UNTIL_EXP = 4, O_UNTIL = 8, O_FOR = 16, O_FOR_NEG = 32,
  O_SLOCK = 64, O_STRY = 128, O_SUNTIL_EXP = 256, O_SUNTIL = 512, O_SFOR = 1024, O_SFOR_NEG = 2048,
  O_NONE = 4096,                      // skip this round
  O_UNTIL_PRE = 8192, O_SUNTIL_PRE = 16384,   // deadline before the clock's epoch
  O_ALLX = 63 | O_UNTIL_PRE, O_ALLS = 63 * 64 | O_SUNTIL_PRE,
};
// program parameters: param[0] rounds, param[1..4] op mask of thread i (thread 5: param[11]), param[5] flags, param[6] recursion depth, param[7] clock selector
enum : uint64_t { F_PARK_BEFORE = 1, F_PARK_IN = 2, F_DESTROY = 4, F_NODATA = 8, F_LAST_PARK = 16 };

static const int64_t DELAY = 10;      // virtual ns

// a clock that runs at half the speed of steady_clock and has its own epoch
struct half_clock {
  typedef std::chrono::duration<int64_t, std::ratio<1, 1000000000>> duration; typedef duration::rep rep; typedef duration::period period;
  typedef std::chrono::time_point<half_clock> time_point; static const bool is_steady = true;
  static time_point now() { return time_point(duration((std::chrono::steady_clock::now().time_since_epoch().count()) / 2 + 12345)); }
  static int64_t to_mono(int64_t t) { return (t - 12345) * 2; }
};

template <class L> struct Box { alignas(16) unsigned char raw[sizeof(L)]; L* p; int data; int pad; int data2; };

enum Clk { STEADY = 0, SYSTEM = 1, CUSTOM = 2 };

// ---- generic timed calls; FORCLK: the clock behind the _for functions ----
template <class L> bool until_x(L& l, int clk, int64_t at_mono_or_real) {
  using namespace std::chrono;
  if (clk == STEADY) return l.try_lock_until(steady_clock::time_point(nanoseconds(at_mono_or_real)));
  if (clk == SYSTEM) return l.try_lock_until(system_clock::time_point(nanoseconds(at_mono_or_real)));
  return l.try_lock_until(half_clock::time_point(half_clock::duration(at_mono_or_real / 2 + 12345)));
}
template <class L> bool until_s(L& l, int clk, int64_t at) {
  using namespace std::chrono;
  if (clk == STEADY) return l.try_lock_shared_until(steady_clock::time_point(nanoseconds(at)));
  if (clk == SYSTEM) return l.try_lock_shared_until(system_clock::time_point(nanoseconds(at)));
  return l.try_lock_shared_until(half_clock::time_point(half_clock::duration(at / 2 + 12345)));
}
}

namespace client {
template <bool B> using tag = std::integral_constant<bool, B>;

// T: struct traits { typedef ... lock; static const bool timed, shared, rec; static const int policy, forclk, untilclk; }
template <class T> struct Client {
  typedef typename T::lock L;
  typedef Box<L> B;
  static B*& box() { static B* b; return b; }

  static bool timed_for(L& l, int64_t d, bool sh, tag<true>, tag<true>) { return sh ? l.try_lock_shared_for(std::chrono::nanoseconds(d)) : l.try_lock_for(std::chrono::nanoseconds(d)); }
  static bool timed_for(L& l, int64_t d, bool, tag<true>, tag<false>) { return l.try_lock_for(std::chrono::nanoseconds(d)); }
  static bool timed_for(L&, int64_t, bool, tag<false>, ...) { return false; }
  template <class TP> static bool timed_until(L& l, TP tp, bool sh, tag<true>, tag<true>) { return sh ? l.try_lock_shared_until(tp) : l.try_lock_until(tp); }
  template <class TP> static bool timed_until(L& l, TP tp, bool, tag<true>, tag<false>) { return l.try_lock_until(tp); }
  template <class TP> static bool timed_until(L&, TP, bool, tag<false>, ...) { return false; }
  static bool until_any(L& l, int clk, int64_t at, bool sh, tag<true>) {     // every clock
    using namespace std::chrono;
    if (clk == SYSTEM) return timed_until(l, system_clock::time_point(duration_cast<system_clock::duration>(nanoseconds(at))), sh, tag<T::timed>(), tag<T::shared>());
    if (clk == CUSTOM) return timed_until(l, half_clock::time_point(half_clock::duration(at / 2 + 12345)), sh, tag<T::timed>(), tag<T::shared>());
    return timed_until(l, steady_clock::time_point(nanoseconds(at)), sh, tag<T::timed>(), tag<T::shared>());
  }
  static bool until_any(L& l, int, int64_t at, bool sh, tag<false>) {        // system_clock only
    using namespace std::chrono;
    return timed_until(l, system_clock::time_point(duration_cast<system_clock::duration>(nanoseconds(at))), sh, tag<T::timed>(), tag<T::shared>());
  }
  static void lock_s(L& l, tag<true>) { l.lock_shared(); }
  static void lock_s(L&, tag<false>) {}
  static bool try_s(L& l, tag<true>) { return l.try_lock_shared(); }
  static bool try_s(L&, tag<false>) { return false; }
  static void unlock_s(L& l, tag<true>) { l.unlock_shared(); }
  static void unlock_s(L&, tag<false>) {}

  static void invoke_until(int64_t off, bool owned, spec::Mode m, int clk, int64_t& at) {
    int ck = clk == SYSTEM || !T::anyclk ? 0 : 1;     // CLOCK_REALTIME : CLOCK_MONOTONIC
    at = mc_clock_now(ck) + off;
    if (clk == CUSTOM && T::anyclk) at &= ~1ll;
    if (owned) spec::invoke(spec::RECACQ, m); else spec::invoke(spec::TIMED, m, at, ck);
  }
  // performs one acquisition; owned: the thread owns the lock already (recursive types)
  static bool acquire(L& l, uint64_t op, bool owned, int clk) {
    using namespace spec;
    bool r = true; int64_t at;
    switch (op) {
      case O_LOCK: invoke(owned ? RECACQ : LOCK, X); l.lock(); break;
      case O_TRY: invoke(owned ? RECACQ : TRY, X); r = l.try_lock(); break;
      case O_UNTIL_EXP: invoke_until(-4, owned, X, clk, at); r = until_any(l, clk, at, false, tag<T::anyclk>()); break;
      case O_UNTIL: invoke_until(DELAY, owned, X, clk, at); r = until_any(l, clk, at, false, tag<T::anyclk>()); break;
      case O_UNTIL_PRE: case O_SUNTIL_PRE: {
        bool sh = op == O_SUNTIL_PRE; int ck = clk == SYSTEM || !T::anyclk ? 0 : 1; at = clk == CUSTOM && T::anyclk ? 24688 : -1500000000ll;
        if (owned) invoke(RECACQ, X); else invoke(TIMED, sh ? S : X, at, ck); r = until_any(l, clk, at, sh, tag<T::anyclk>()); break; }
      case O_FOR: if (owned) invoke(RECACQ, X); else invoke(TIMED, X, DELAY, T::forclk, true); r = timed_for(l, DELAY, false, tag<T::timed>(), tag<T::shared>()); break;
      case O_FOR_NEG: if (owned) invoke(RECACQ, X); else invoke(TIMED, X, -3, T::forclk, true); r = timed_for(l, -3, false, tag<T::timed>(), tag<T::shared>()); break;
      case O_SLOCK: invoke(LOCK, S); lock_s(l, tag<T::shared>()); break;
      case O_STRY: invoke(TRY, S); r = try_s(l, tag<T::shared>()); break;
      case O_SUNTIL_EXP: invoke_until(-4, owned, S, clk, at); r = until_any(l, clk, at, true, tag<T::anyclk>()); break;
      case O_SUNTIL: invoke_until(DELAY, owned, S, clk, at); r = until_any(l, clk, at, true, tag<T::anyclk>()); break;
      case O_SFOR: invoke(TIMED, S, DELAY, T::forclk, true); r = timed_for(l, DELAY, true, tag<T::timed>(), tag<T::shared>()); break;
      case O_SFOR_NEG: invoke(TIMED, S, -3, T::forclk, true); r = timed_for(l, -3, true, tag<T::timed>(), tag<T::shared>()); break;
      default: mc_fail("harness", "bad op");
    }
    spec::response(r);
    return r;
  }
  static bool is_s(uint64_t op) { return (op & O_ALLS) != 0; }
  static uint64_t pick(uint64_t mask) {
    uint64_t ops[16]; int n = 0;
    for (int b = 0; b < 15; ++b) if (mask >> b & 1) ops[n++] = 1ull << b;
    return ops[n > 1 ? mc_choose(n, "operation") : 0];
  }
  static void critical(B* b, bool sh) {
    if (mc_param(5) & F_NODATA) return;
    if (sh) { if (b->data != b->data2) mc_fail("visibility", "a reader sees a half-finished update"); }
    else { if (b->data != b->data2) mc_fail("visibility", "a writer sees a half-finished update"); b->data++; b->data2++; }
  }
  static uint64_t opmask(int tid) { return mc_param(tid == 5 ? 11 : tid); }
  static void body(int tid) {
    B* b = box(); L& l = *b->p; uint64_t mask = opmask(tid), fl = mc_param(5); int rounds = (int)mc_param(0), maxdepth = (int)mc_param(6), clk = (int)mc_param(7);
    for (int k = 0; k < rounds; ++k) {
      uint64_t op = pick(mask);
      if (op == O_NONE) continue;
      if ((fl & F_PARK_BEFORE) && mc_choose(2, "wait before?")) mc_park("before");
      if (!acquire(l, op, false, clk)) continue;
      bool sh = is_s(op);
      critical(b, sh);
      if ((fl & F_PARK_IN) && mc_choose(2, "wait inside?")) { mc_park("inside"); critical(b, sh); }
      int depth = 1, extra = 0;
      if (T::rec) while (depth) {
        uint64_t m2 = (mask & (O_LOCK | O_TRY | O_UNTIL_EXP | O_FOR));
        if (extra < maxdepth && mc_choose(2, "recurse?")) { ++extra; uint64_t o2 = pick(m2 ? m2 : (uint64_t)O_LOCK); if (acquire(l, o2, true, clk)) ++depth; critical(b, false); continue; }
        if (depth == 1) break;
        spec::invoke(spec::RECREL, X); l.unlock(); spec::response(true); --depth;
        critical(b, false);
      }
      spec::invoke(spec::REL, sh ? S : X);
      if (sh) unlock_s(l, tag<T::shared>()); else l.unlock();
      spec::response(true);
    }
  }
  static void setup() {
    int n = 0; for (int i = 1; i <= 5; ++i) if (opmask(i)) n = i;
    spec::init(T::policy, n, (unsigned)mc_param(8));
    B* b = new B; memset((void*)b, 0, sizeof *b); b->p = new (b->raw) L(); box() = b;
    for (uint64_t i = mc_param(9); i; --i) {      // a history of many acquisitions
      L& l = *b->p; mc_recycle();
      if (i % 2) l.lock(); else if (!l.try_lock()) mc_fail("try-false", "try_lock of a free mutex fails after a long history");
      if (T::rec && i % 3 == 0) { l.lock(); l.unlock(); }
      l.unlock();
      if (T::shared) { lock_s(l, tag<T::shared>()); if (i % 3 == 0) { mc_as(20); if (!try_s(l, tag<T::shared>())) mc_fail("try-false", "try_lock_shared with one reader fails after a long history"); unlock_s(l, tag<T::shared>()); mc_as(0); } unlock_s(l, tag<T::shared>()); }
    }
    mc_recycle();
    if (mc_param(10)) forward((uint32_t)mc_param(10));
  }
  // skips many identical rounds: the words of the object that count them (their value grows by the same amount in every round) are advanced to 'to'
  static void forward(uint32_t to) {
    enum { NW = sizeof(L) / 4 }; uint32_t v[4][NW + 1]; B* b = box(); L& l = *b->p;
    for (int r = 0; r < 4; ++r) { for (size_t i = 0; i < NW; ++i) memcpy(&v[r][i], b->raw + 4 * i, 4); if (r < 3) { l.lock(); l.unlock(); } }
    uint32_t k = 0; bool any = false;
    for (size_t i = 0; i < NW; ++i) { uint32_t d = v[1][i] - v[0][i]; if (d && v[2][i] - v[1][i] == d && v[3][i] - v[2][i] == d && d < 16) { uint32_t n = (to - v[3][i]) / d; if (!any || n < k) k = n; any = true; } }
    if (!any) return;
    for (size_t i = 0; i < NW; ++i) { uint32_t d = v[1][i] - v[0][i]; if (d && v[2][i] - v[1][i] == d && v[3][i] - v[2][i] == d && d < 16) { uint32_t x = v[3][i] + d * k; memcpy(b->raw + 4 * i, &x, 4); } }
    mc_cover("fast-forward");
  }
  static void teardown() {
    spec::all_free();
    B* b = box(); 
    if (b->data != b->data2) mc_fail("visibility", "final state");
    mc_outcome((uint64_t)b->data);
    // the lock must be usable afterwards, by anybody
    if (!b->p->try_lock()) mc_fail("left-locked", "after every owner released the lock, try_lock fails");
    b->p->unlock();
    b->p->~L(); delete b;
  }
  static mc_program prog(const char* name, int rounds, std::initializer_list<uint64_t> masks, unsigned flags, uint64_t cf = 0, int depth = 0, int clk = 0) {
    mc_program p; memset((void*)&p, 0, sizeof p);
    p.name = name; p.nthreads = (int)masks.size(); p.flags = flags | T::flags; p.setup = setup; p.body = body; p.teardown = teardown;
    p.on_quiescent = spec::on_quiescent; p.on_tick = spec::on_tick;
    p.param[0] = rounds; int i = 1; for (uint64_t m : masks) { p.param[i == 5 ? 11 : i] = m; ++i; }
    p.param[5] = cf; p.param[6] = depth; p.param[7] = clk;
    p.param[8] = (T::weaktry && (p.flags & MC_WEAK) ? spec::LAXTRY : 0) | (p.flags & MC_TIMEOUT_NORMAL ? spec::TIMEDMUST : 0);
    return p;
  }
};
inline const char* nm(const std::string& s) { return strdup(s.c_str()); }
}
