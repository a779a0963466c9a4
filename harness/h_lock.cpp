// Mutex-like types of the library under most general clients. -DG_SPIN, -DG_FAIR, -DG_ALT, -DG_CHECKED,
// -DG_POSIX, -DG_FAIRS, -DG_ALTS, -DG_CHECKEDS choose the family.
#include "client.h"
#ifdef YAMC_DEBUG_TRACING    // the trace is formatted and thrown away
#include <cstdarg>
#include <cstdio>
namespace std { __attribute__((format(printf, 1, 2))) static inline int mc_sink(const char* f, ...) { char b[256]; va_list a; va_start(a, f); int r = vsnprintf(b, sizeof b, f, a); va_end(a); return r; } }
#define printf mc_sink
#endif
#ifdef MACROS
#define YAMC_RWLOCK_SCHED_DEFAULT yamc::rwlock::WriterPrefer
#define YAMC_RWLOCK_FAIRNESS_DEFAULT yamc::rwlock::TaskFairness
#endif
#if defined G_SPIN
#include "naive_spin_mutex.hpp"
#include "ttas_spin_mutex.hpp"
#elif defined G_FAIR
#include "fair_mutex.hpp"
#elif defined G_ALT
#include "alternate_mutex.hpp"
#elif defined G_CHECKED
#include "checked_mutex.hpp"
#elif defined G_POSIX
#include <pthread.h>
#ifdef NOINIT      // a platform without a static initialiser for recursive mutexes
#undef PTHREAD_RECURSIVE_MUTEX_INITIALIZER
#undef PTHREAD_RECURSIVE_MUTEX_INITIALIZER_NP
#endif
#include "posix_native_mutex.hpp"
#elif defined G_FAIRS
#include "fair_shared_mutex.hpp"
#elif defined G_ALTS
#include "alternate_shared_mutex.hpp"
#elif defined G_CHECKEDS
#include "checked_shared_mutex.hpp"
#elif defined G_WIN
#include "win_native_mutex.hpp"
#elif defined G_APPLE
#include "apple_native_mutex.hpp"
#endif
using namespace client;

#define TRAITS(NAME, TIMED, SHARED, REC, POL, ANYCLK, WEAKT, FLAGS, ...) \
  struct NAME { typedef __VA_ARGS__ lock; static const bool timed = TIMED, shared = SHARED, rec = REC, anyclk = ANYCLK, weaktry = WEAKT; \
    static const int policy = POL, forclk = ANYCLK ? 1 : 0; static const unsigned flags = FLAGS; }

static bool thorough;
static std::vector<mc_program>* out;

template <class T> void put(const std::string& name, int rounds, std::initializer_list<uint64_t> masks, unsigned flags, uint64_t cf = 0, int depth = 0, int clk = 0) {
  out->push_back(Client<T>::prog(nm(name), rounds, masks, flags, cf, depth, clk));
}
template <class T> void old(const std::string& name, int rounds, std::initializer_list<uint64_t> masks, unsigned flags, uint64_t cf, uint64_t age, uint64_t fwd = 0) {
  put<T>(name, rounds, masks, flags, cf); out->back().param[9] = age; out->back().param[10] = fwd;
}
enum : uint64_t { PARK = F_PARK_BEFORE | F_PARK_IN };

#ifdef CROWD
// Many threads queue up one after the other behind an owner and are then served; every order of waking is explored.
#if defined G_CHECKED || defined G_CHECKEDS
enum { CHK = 1 };
#else
enum { CHK = 0 };
#endif
template <class T> struct Crowd : Client<T> {
  typedef Client<T> P; typedef typename P::B B; typedef typename P::L L;
  struct A { uint8_t turn; };
  static A* a() { return (A*)mc_aux(); }
  static int turn() { mc_ghost_enter(); int t = a()->turn; mc_ghost_leave(); return t; }
  static void next() { mc_ghost_enter(); a()->turn++; mc_ghost_leave(); }
  static bool my_turn(void* p) { return a()->turn >= (int)(uintptr_t)p; }
  static uint64_t masks_[64][16]; static int nmasks;
  static uint64_t mask(int tid) { return masks_[mc_param(9)][tid]; }
  static void body(int tid) {
    B* b = P::box(); L& l = *b->p; int n = (int)mc_param(0), clk = 0;
    bool barge = mask(tid) & O_NONE;      // comes at one of several moments
    int q = n - (int)mc_param(12);        // the last of those in the line
    if (!barge) { mc_await(my_turn, (void*)(uintptr_t)tid, "turn"); if (tid > 1) mc_park("turn"); }
    else { int at[4] = {q + 2, q + 1, 1, q / 2 + 1}; mc_await(my_turn, (void*)(uintptr_t)at[mc_choose(4, "comes when")], "barge"); }   // together with the release / when all wait / ...
    uint64_t op = P::pick(mask(tid) & ~(uint64_t)O_NONE);
    if (tid > 1 && !barge) next();
    if (!P::acquire(l, op, false, clk)) return;
    bool sh = P::is_s(op); P::critical(b, sh);
    if (tid == 1) { next(); mc_await(my_turn, (void*)(uintptr_t)(q + 1), "all"); mc_park("all"); next(); }
    else if (mc_param(5) & F_PARK_IN) mc_park("inside");
    P::critical(b, sh);
    spec::invoke(spec::REL, sh ? spec::S : spec::X); if (sh) P::unlock_s(l, tag<T::shared>()); else l.unlock(); spec::response(true);
  }
  static void setup() {
    spec::init(T::policy, (int)mc_param(0), (unsigned)mc_param(8)); mc_ghost_enter(); a()->turn = 1; mc_ghost_leave();
    B* b = new B; memset((void*)b, 0, sizeof *b); b->p = new (b->raw) L(); P::box() = b; mc_recycle();
  }
  static void put(const std::string& name, std::vector<uint64_t> masks, unsigned flags, uint64_t cf) {
    mc_program p = P::prog(nm(name), (int)masks.size(), {}, flags | MC_NORACE, cf); p.nthreads = (int)masks.size(); p.body = body; p.setup = setup;
    p.param[9] = nmasks; p.param[12] = 0; int i = 1; for (uint64_t m : masks) { masks_[nmasks][i++] = m; if (m & O_NONE) p.param[12]++; } ++nmasks;
    out->push_back(p);
  }
  static void line(const std::string& name, int n, std::vector<uint64_t> masks, unsigned flags, uint64_t cf) { masks.resize(n); put(name + std::to_string(n), masks, flags, cf); }
  static void all(const std::string& n) {
    const uint64_t X1 = O_LOCK, S1 = T::shared ? O_SLOCK : O_LOCK, U = T::timed ? O_UNTIL : O_LOCK, V = T::timed ? T::shared ? O_SUNTIL : O_UNTIL : S1; const unsigned tk = T::timed ? MC_TICK : 0;
    // long contended histories, without race tracking
    const uint64_t TR = O_LOCK | O_TRY, SH = T::shared ? O_SLOCK : 0, EX = T::timed ? O_UNTIL : 0, SX = T::timed && T::shared ? O_SUNTIL : 0;
    auto deep = [&](const std::string& nn, int rounds, std::initializer_list<uint64_t> m, unsigned f, uint64_t cf) { ::put<T>(nn, rounds, m, f | MC_NORACE, cf); };
    const bool small = !T::shared && !CHK;
    if (thorough || small || (!T::timed && !CHK) || (!T::timed && !T::shared)) deep(n + "/deep3x2", 2, {TR | SH | EX | SX, TR | SH | EX | SX, TR | SH}, tk, F_PARK_IN);
    if (thorough || small) deep(n + "/deep3x3", 3, {TR | SH, O_LOCK | SH, O_LOCK | SH}, 0, F_PARK_IN);
    if (thorough || small) deep(n + "/deep4x2", 2, {TR | SH, O_LOCK | SH, O_LOCK | SH, O_LOCK}, 0, 0);
    if (T::shared && !CHK && (!T::timed || thorough)) { deep(n + "/deep4x2s", 2, {O_LOCK, O_SLOCK, O_SLOCK, O_LOCK | O_SLOCK}, 0, 0); deep(n + "/deep3x3s", 3, {O_LOCK, O_SLOCK, O_SLOCK | O_STRY}, 0, 0); }
    if (T::timed && (thorough || small)) deep(n + "/deep3x3u", 3, {O_LOCK, EX | SX, O_LOCK | SH}, tk, 0);
    if (T::timed && T::shared && !CHK) deep(n + "/deep3x2u", 2, {O_LOCK, EX | SX, O_SLOCK}, tk, F_PARK_IN);
    const bool fifo = T::policy >= spec::FIFO;
    const int N = CHK ? 6 : fifo ? 12 : T::shared ? 8 : 10;
    const uint64_t XS = X1 | S1, LT = X1 | O_TRY;
    line(n + "/crowd", N, {X1, X1, X1, X1, X1, X1, X1, X1, X1, X1, X1, X1}, 0, F_PARK_IN);
    line(n + "/crowdt", N - 2, {X1, X1, LT, X1, LT, X1, X1, X1, X1, X1}, 0, 0);
    if (T::timed) line(n + "/crowdu", N > 8 ? 8 : N, {X1, X1, U, X1, X1, U, X1, X1}, tk, F_PARK_IN);
    if (N > 6) { put(n + "/barge7", {X1, X1, X1, X1, X1, X1, LT | O_NONE}, 0, 0); if (T::timed) put(n + "/barge6u", {X1, X1, U, X1, U, O_UNTIL_EXP | O_FOR | O_NONE}, tk, 0); }
    if (N > 6) { put(n + "/barge7two", {X1, X1, X1, X1, X1, LT | O_NONE, LT | U | O_NONE}, tk, 0); if (T::shared) put(n + "/barge7twoxs", {XS, S1, X1, S1, X1, S1 | O_STRY | O_NONE, XS | V | O_NONE}, tk, 0); }
    else put(n + "/barge5", {X1, X1, X1, X1, LT | O_NONE}, 0, 0);
    if (T::shared) {
      line(n + "/crowdxs", N > 8 ? 8 : N == 6 && !thorough ? 5 : N, {XS, XS, XS, XS, XS, XS, XS, XS}, 0, F_PARK_IN);
      line(n + "/crowdr", N, {X1, S1, S1, S1, S1, S1, S1, S1, S1, S1, S1, S1}, 0, F_PARK_IN);
      line(n + "/crowdm", N > 10 ? 10 : N, {XS, S1, S1, X1, S1, S1, X1, S1, S1, S1}, 0, 0);
      if (N > 6) put(n + "/barge7xs", {XS, S1, X1, S1, X1, S1, XS | O_TRY | O_STRY | O_NONE}, 0, 0); else put(n + "/barge5xs", {XS, S1, X1, S1, XS | O_TRY | O_STRY | O_NONE}, 0, 0);
      if (T::timed) { line(n + "/crowdru", N > 8 ? 8 : N, {X1, S1, U, S1, V, X1, S1, S1}, tk, F_PARK_IN); line(n + "/crowdsu", N > 8 ? 8 : N, {S1, S1, U, S1, V, U, S1, X1}, tk, F_PARK_IN);
        if (N > 6) put(n + "/barge6su", {XS, S1, U, S1, V, XS | O_NONE}, tk, 0); else put(n + "/barge5su", {XS, S1, U, V, XS | O_NONE}, tk, 0); }
    }
  }
};
template <class T> uint64_t Crowd<T>::masks_[64][16]; template <class T> int Crowd<T>::nmasks;
#endif

// exclusive, blocking types
template <class T> void excl(const std::string& n) {
#ifdef CROWD
  Crowd<T>::all(n); return;
#endif
  const uint64_t L = O_LOCK, LT = O_LOCK | O_TRY, TM = T::timed ? O_UNTIL | O_UNTIL_EXP | O_FOR : 0, ALL = LT | TM, U = T::timed ? (uint64_t)O_UNTIL : 0;
  const unsigned tk = T::timed ? MC_TICK : 0;
  put<T>(n + "/mix3x1", 1, {ALL, ALL, ALL}, tk, PARK);
  put<T>(n + "/mix2x2", 2, {ALL, ALL}, tk, PARK);
  put<T>(n + "/lt3x2", 2, {LT, LT, LT}, 0, F_PARK_IN);
  put<T>(n + "/lock4x1", 1, {L, L, L, LT}, 0, PARK);
  put<T>(n + "/spur3x1", 1, {LT | U, LT | U, LT | U}, tk | MC_SPUR, F_PARK_IN);
  if (T::timed) {
    put<T>(n + "/timed4x1", 1, {L, U | L, U | L, LT | U}, tk, PARK);
    put<T>(n + "/timed3x2", 2, {L | U, L | U, L}, tk, F_PARK_IN);
  }
  // the counters of the implementation are about to wrap if they have 8 or 16 bits
  old<T>(n + "/aged2x2", 2, {LT, L | TM}, tk, F_PARK_IN, 65534); old<T>(n + "/aged3x1", 1, {LT, LT, L}, 0, PARK, 65534);
  if (T::policy == spec::FIFO) { old<T>(n + "/ages2x2", 2, {LT, L | TM}, tk, F_PARK_IN, 0, 0x7ffffffe); old<T>(n + "/agew2x2", 2, {LT, L | TM}, tk, F_PARK_IN, 0, 0xfffffffe); old<T>(n + "/agew3x1", 1, {LT, LT, L}, 0, PARK, 0, 0xfffffffe); }
  if (thorough) {
    old<T>(n + "/aged3x2", 2, {LT, LT, L}, 0, F_PARK_IN, 65533);
    put<T>(n + "/mix3x2", 2, {ALL, ALL, ALL}, tk, PARK);
    put<T>(n + "/lt3x3", 3, {LT, LT, LT}, 0, F_PARK_IN);
    put<T>(n + "/mix4x1", 1, {ALL, ALL, ALL, ALL}, tk, PARK);
    put<T>(n + "/lt4x2", 2, {L, L, LT, LT}, 0, F_PARK_IN);
    put<T>(n + "/mix2x4", 4, {ALL, ALL}, tk, PARK);
  }
  put<T>(n + "/lock5x1", 1, {L, L, L, L, LT}, 0, F_PARK_IN); put<T>(n + "/lt5x1", 1, {LT, LT, LT, LT, LT}, 0, 0);
  if (T::timed) put<T>(n + "/timed5x1", 1, {L, U, U | L, L, L}, tk, F_PARK_IN);
}
template <class T> void rec(const std::string& n) {
#ifdef CROWD
  return;
#endif
  const uint64_t L = O_LOCK, LT = O_LOCK | O_TRY, TM = T::timed ? O_UNTIL_EXP | O_FOR : 0, ALL = LT | TM;
  const unsigned tk = T::timed ? MC_TICK : 0;
  put<T>(n + "/rec2x1d3", 1, {ALL, ALL}, tk, PARK, 3);
  put<T>(n + "/rec3x1d1", 1, {ALL, ALL, LT}, tk, PARK, 1);
  put<T>(n + "/rec3x1d2", 1, {LT, LT, L}, 0, PARK, 2);
  put<T>(n + "/rec2x2d2", 2, {LT, LT}, 0, PARK, 2);
  put<T>(n + "/rec4x1d1", 1, {L, L, L, LT}, 0, F_PARK_IN, 1);
  if (T::timed) put<T>(n + "/rectimed3x1d1", 1, {L, O_UNTIL | L, O_UNTIL | O_FOR}, tk, F_PARK_IN, 1);
  if (thorough) {
    put<T>(n + "/rec3x2d2", 2, {LT, LT, L}, 0, PARK, 2);
    put<T>(n + "/rec3x1d3", 1, {ALL, ALL, ALL}, tk, PARK, 3);
    put<T>(n + "/rec2x2d3", 2, {ALL, ALL}, tk, PARK, 3);
    put<T>(n + "/rec4x1d2", 1, {LT, LT, LT, LT}, 0, PARK, 2);
  }
}
// timeouts and clocks
template <class T> void clocks(const std::string& n) {
#ifdef CROWD
  return;
#endif
  const uint64_t TM = O_UNTIL | O_UNTIL_EXP | O_FOR | O_FOR_NEG, PRE = T::shared ? O_UNTIL_PRE | O_SUNTIL_PRE : O_UNTIL_PRE, LS = T::shared ? O_LOCK | O_SLOCK : O_LOCK,
    STM = T::shared ? TM | O_SUNTIL | O_SUNTIL_EXP | O_SFOR | O_SFOR_NEG : TM;
  const char* cn[] = {"steady", "system", "custom"};
  for (int c = 0; c < 3; ++c) {
    if (!T::anyclk && c != SYSTEM) continue;
    put<T>(n + "/clk2x2." + cn[c], 2, {LS, STM}, MC_TICK, PARK, 0, c);
    put<T>(n + "/pre2x2." + cn[c], 2, {LS | PRE, PRE}, MC_TICK, PARK, 0, c);
    put<T>(n + "/clk3x1." + cn[c], 1, {LS, STM, STM}, MC_TICK, F_PARK_IN, 0, c);
    put<T>(n + "/jump2x1." + cn[c], 1, {LS, STM}, MC_TICK | MC_JUMP, PARK, 0, c);
    put<T>(n + "/spur2x1." + cn[c], 1, {LS, STM}, MC_TICK | MC_SPUR, PARK, 0, c);
    // the owner leaves only when nothing moves even though time passes: timed calls must have returned
    put<T>(n + "/must2x1." + cn[c], 1, {LS, STM}, MC_TICK | MC_TIMEOUT_NORMAL, F_PARK_IN, 0, c);
    put<T>(n + "/must3x1." + cn[c], 1, {LS, STM, STM}, MC_TICK | MC_TIMEOUT_NORMAL, F_PARK_IN, 0, c);
    if (thorough) {
      put<T>(n + "/clk3x2." + cn[c], 2, {LS, STM, LS}, MC_TICK, F_PARK_IN, 0, c);
      put<T>(n + "/jump3x1." + cn[c], 1, {LS, STM, STM}, MC_TICK | MC_JUMP | MC_SPUR, F_PARK_IN, 0, c);
      put<T>(n + "/must3x2." + cn[c], 2, {LS, STM, LS}, MC_TICK | MC_TIMEOUT_NORMAL, F_PARK_IN, 0, c);
    }
  }
}
// spinning types
template <class T> void spin(const std::string& n, bool full) {
  const uint64_t L = O_LOCK, LT = O_LOCK | O_TRY;
  put<T>(n + "/lt2x2", 2, {LT, LT}, 0);
  put<T>(n + "/weak2x2", 2, {LT, LT}, MC_WEAK);
  if (full) {
    old<T>(n + "/aged2x2", 2, {LT, LT}, 0, 0, 65534);
    put<T>(n + "/lt2x3", 3, {LT, LT}, 0);
    put<T>(n + "/lt3x2", 2, {LT, LT, LT}, 0);
    put<T>(n + "/weak3x2", 2, {LT, LT, L}, MC_WEAK);
    put<T>(n + "/lock4x1", 1, {L, L, L, LT}, 0);
  }
  if (thorough) { put<T>(n + "/lt3x3", 3, {LT, LT, LT}, 0); put<T>(n + "/lt4x2", 2, {LT, LT, LT, LT}, 0); put<T>(n + "/weak4x1", 1, {LT, LT, LT, LT}, MC_WEAK); }
}
// shared types
template <class T> void shared(const std::string& n) {
#ifdef CROWD
  Crowd<T>::all(n); return;
#endif
  const uint64_t X1 = O_LOCK, S1 = O_SLOCK, XS = O_LOCK | O_SLOCK, TR = O_TRY | O_STRY, TM = T::timed ? O_UNTIL | O_SUNTIL : 0, EX = T::timed ? O_UNTIL_EXP | O_SUNTIL_EXP : 0, FR = T::timed ? O_FOR | O_SFOR : 0;
  const unsigned tk = T::timed ? MC_TICK : 0;
  put<T>(n + "/mix3x1", 1, {XS | TR | TM, XS | TR | TM, XS | TR | TM}, tk, PARK);
  put<T>(n + "/mix2x2", 2, {XS | TR | TM | EX, XS | TR | FR}, tk, PARK);
  put<T>(n + "/rw4x1", 1, {XS, XS, XS, XS | TR}, 0, PARK);
  put<T>(n + "/rw3x2", 2, {X1 | S1, XS, XS}, 0, F_PARK_IN);
  put<T>(n + "/spur3x1", 1, {XS, XS | TM, XS}, tk | MC_SPUR, F_PARK_IN);
  put<T>(n + "/rw5x1r", 1, {X1, S1, S1, S1, S1}, 0, F_PARK_IN);
  put<T>(n + "/rw5x1w", 1, {X1, S1, X1, S1, X1}, 0, F_PARK_IN);
  if (thorough && T::policy != spec::WRITERPREF) put<T>(n + "/rw5x1m", 1, {XS, XS, XS, XS, XS}, 0, 0);
  if (T::timed) put<T>(n + "/timed5x1", 1, {XS, O_UNTIL, S1, X1, O_SUNTIL}, tk, F_PARK_IN);
  if (T::timed) {
    put<T>(n + "/timedx4x1", 1, {XS, O_UNTIL, XS, S1 | O_STRY}, tk, PARK);
    put<T>(n + "/timeds4x1", 1, {XS, O_SUNTIL, XS, X1 | O_TRY}, tk, PARK);
    put<T>(n + "/timed2w4x1", 1, {S1, O_UNTIL, O_UNTIL | O_SUNTIL, S1}, tk, F_PARK_IN);
    put<T>(n + "/timed3x2", 2, {S1, O_UNTIL, S1}, tk, F_PARK_IN);
  }
  old<T>(n + "/aged2x2", 2, {XS | TR, XS | TM}, tk, F_PARK_IN, 65534); old<T>(n + "/aged3x1", 1, {XS, XS, XS | TR}, 0, PARK, 65534);
  if (thorough) {
    old<T>(n + "/aged3x2", 2, {XS, XS, XS | TR}, 0, F_PARK_IN, 65533);
    put<T>(n + "/mix3x2", 2, {XS | TR, XS | TM, XS | TM}, tk, F_PARK_IN);
    put<T>(n + "/rw4x2", 2, {X1, XS, S1, XS}, 0, F_PARK_IN);
    put<T>(n + "/mix4x1", 1, {XS | TM, XS | TM, XS | TM, XS | TR | TM}, tk, PARK);
    put<T>(n + "/mixall3x1", 1, {XS | TR | TM | EX | FR, XS | TR | TM | EX | FR, XS | TR | TM | EX | FR}, tk | MC_SPUR, PARK);
  }
}

// the names users normally write: the type behind each must be what the name promises
template <class T> void aliasx(const std::string& n) {
#ifdef CROWD
  return;
#endif
  const uint64_t LT = O_LOCK | O_TRY, TM = T::timed ? O_UNTIL | O_UNTIL_EXP | O_FOR : 0; const unsigned tk = T::timed ? MC_TICK : 0;
  put<T>(n + "/mix2x2", 2, {LT | TM, LT | TM}, tk, PARK); put<T>(n + "/mix3x1", 1, {LT, O_LOCK | TM, O_LOCK}, tk, PARK);
  if (T::rec) put<T>(n + "/rec2x1d2", 1, {LT | TM, LT | TM}, tk, PARK, 2);
}
template <class T> void aliass(const std::string& n) {
#ifdef CROWD
  return;
#endif
  const uint64_t XS = O_LOCK | O_SLOCK, TR = O_TRY | O_STRY, TM = T::timed ? O_UNTIL | O_SUNTIL : 0; const unsigned tk = T::timed ? MC_TICK : 0;
  put<T>(n + "/mix2x2", 2, {XS | TR | TM, XS | TR}, tk, PARK); put<T>(n + "/mix3x1", 1, {XS, XS | TM, XS | TR}, tk, PARK);
#if !defined G_CHECKEDS
  put<T>(n + "/rw4x1", 1, {XS, XS, XS, XS | TR}, 0, PARK);
#endif
}
template <class L, bool TIMED, bool SHARED, bool REC, int POL, bool ANY, unsigned FLAGS, bool WEAKT = false> struct AT {
  typedef L lock; static const bool timed = TIMED, shared = SHARED, rec = REC, anyclk = ANY, weaktry = WEAKT; static const int policy = POL, forclk = ANY ? 1 : 0; static const unsigned flags = FLAGS; };
#define AX(NAME, TIMED, REC, POL, ANY, FLAGS, ...) aliasx<AT<__VA_ARGS__, TIMED, false, REC, POL, ANY, FLAGS>>(NAME);
#define AS(NAME, TIMED, POL, ANY, ...) aliass<AT<__VA_ARGS__, TIMED, true, false, POL, ANY, 0>>(NAME);
#ifdef MACROS      // the customizable macros of README.md, set to the other value
enum { DEFPOL = spec::WRITERPREF, DEFFAIR = spec::TASKFAIR };
#define DEFP "default-writer"
#define DEFF "default-task"
#else
enum { DEFPOL = spec::PLAIN, DEFFAIR = spec::PHASEFAIR };
#define DEFP "default-reader"
#define DEFF "default-phase"
#endif
#if defined G_SPIN
typedef yamc::backoff::yield BY; typedef yamc::backoff::busy BB; typedef yamc::backoff::exponential<1> B1; typedef yamc::backoff::exponential<3> B3; typedef yamc::backoff::exponential<0> B0;
// a user-defined policy with a state of its own: every acquisition must start from a fresh one
struct UserPolicy {
  struct state { unsigned n = 0; state() = default; state(const state&) = delete; ~state() { n = 99; } };
  static void wait(state& s) { if (s.n > 3) mc_fail("stale-state", "the policy's state is not that of this acquisition"); if (s.n < 3) ++s.n; }
};
#define SPINT(NS) \
  TRAITS(NS##_y, false, false, false, spec::PLAIN, true, true, 0, yamc::NS::basic_mutex<BY>); TRAITS(NS##_b, false, false, false, spec::PLAIN, true, true, 0, yamc::NS::basic_mutex<BB>); \
  TRAITS(NS##_1, false, false, false, spec::PLAIN, true, true, 0, yamc::NS::basic_mutex<B1>); TRAITS(NS##_3, false, false, false, spec::PLAIN, true, true, 0, yamc::NS::basic_mutex<B3>); \
  TRAITS(NS##_0, false, false, false, spec::PLAIN, true, true, 0, yamc::NS::basic_mutex<B0>); TRAITS(NS##_u, false, false, false, spec::PLAIN, true, true, 0, yamc::NS::basic_mutex<UserPolicy>);
SPINT(spin) SPINT(spin_weak) SPINT(spin_ttas)
#define SPINP(NS) spin<NS##_b>(#NS ".busy", true); spin<NS##_y>(#NS ".yield", false); spin<NS##_1>(#NS ".exp1", false); spin<NS##_3>(#NS ".exp3", false); spin<NS##_0>(#NS ".exp0", false); spin<NS##_u>(#NS ".user", false);
static void all() { SPINP(spin) SPINP(spin_weak) SPINP(spin_ttas)

  put<AT<yamc::spin::mutex, false, false, false, spec::PLAIN, true, 0, true>>("spin.default/lt2x1", 1, {O_LOCK | O_TRY, O_LOCK | O_TRY}, 0);
  put<AT<yamc::spin_weak::mutex, false, false, false, spec::PLAIN, true, 0, true>>("spin_weak.default/lt2x1", 1, {O_LOCK | O_TRY, O_LOCK | O_TRY}, 0);
  put<AT<yamc::spin_ttas::mutex, false, false, false, spec::PLAIN, true, 0, true>>("spin_ttas.default/lt2x1", 1, {O_LOCK | O_TRY, O_LOCK | O_TRY}, 0);
}
#elif defined G_FAIR
TRAITS(M, false, false, false, spec::FIFO, true, false, 0, yamc::fair::mutex);
TRAITS(TM, true, false, false, spec::FIFO, true, false, 0, yamc::fair::timed_mutex);
TRAITS(RM, false, false, true, spec::FIFO, true, false, 0, yamc::fair::recursive_mutex);
TRAITS(RTM, true, false, true, spec::FIFO, true, false, 0, yamc::fair::recursive_timed_mutex);
static void all() {
  excl<M>("fair.mutex"); excl<TM>("fair.timed_mutex"); excl<RM>("fair.recursive_mutex"); excl<RTM>("fair.recursive_timed_mutex");
  rec<RM>("fair.recursive_mutex"); rec<RTM>("fair.recursive_timed_mutex"); clocks<TM>("fair.timed_mutex"); clocks<RTM>("fair.recursive_timed_mutex");
}
#elif defined G_ALT
TRAITS(RM, false, false, true, spec::PLAIN, true, false, MC_MUNLOCK, yamc::alternate::recursive_mutex);
TRAITS(TM, true, false, false, spec::PLAIN, true, false, 0, yamc::alternate::timed_mutex);
TRAITS(RTM, true, false, true, spec::PLAIN, true, false, 0, yamc::alternate::recursive_timed_mutex);
static void all() {
  excl<RM>("alternate.recursive_mutex"); excl<TM>("alternate.timed_mutex"); excl<RTM>("alternate.recursive_timed_mutex");
  rec<RM>("alternate.recursive_mutex"); rec<RTM>("alternate.recursive_timed_mutex"); clocks<TM>("alternate.timed_mutex"); clocks<RTM>("alternate.recursive_timed_mutex");
}
#elif defined G_CHECKED
TRAITS(M, false, false, false, spec::PLAIN, true, false, 0, yamc::checked::mutex);
TRAITS(TM, true, false, false, spec::PLAIN, true, false, 0, yamc::checked::timed_mutex);
TRAITS(RM, false, false, true, spec::PLAIN, true, false, 0, yamc::checked::recursive_mutex);
TRAITS(RTM, true, false, true, spec::PLAIN, true, false, 0, yamc::checked::recursive_timed_mutex);
static void all() {
  excl<M>("checked.mutex"); excl<TM>("checked.timed_mutex"); excl<RM>("checked.recursive_mutex"); excl<RTM>("checked.recursive_timed_mutex");
  rec<RM>("checked.recursive_mutex"); rec<RTM>("checked.recursive_timed_mutex"); clocks<TM>("checked.timed_mutex"); clocks<RTM>("checked.recursive_timed_mutex");
}
#elif defined G_POSIX
TRAITS(M, true, false, false, spec::PLAIN, false, false, MC_MUNLOCK, yamc::posix::native_mutex);
TRAITS(RM, true, false, true, spec::PLAIN, false, false, MC_MUNLOCK, yamc::posix::native_recursive_mutex);
TRAITS(SL, false, false, false, spec::PLAIN, false, false, 0, yamc::posix::spinlock);
TRAITS(RW, true, true, false, spec::PLAIN, false, false, 0, yamc::posix::rwlock);
static void all() {
  excl<M>("posix.native_mutex"); excl<RM>("posix.native_recursive_mutex"); excl<SL>("posix.spinlock"); rec<RM>("posix.native_recursive_mutex");
  clocks<M>("posix.native_mutex"); clocks<RM>("posix.native_recursive_mutex");
  shared<RW>("posix.rwlock"); clocks<RW>("posix.rwlock");
  AX("posix.mutex", false, false, spec::PLAIN, false, MC_MUNLOCK, yamc::posix::mutex) AX("posix.timed_mutex", true, false, spec::PLAIN, false, MC_MUNLOCK, yamc::posix::timed_mutex)
  AX("posix.recursive_mutex", false, true, spec::PLAIN, false, MC_MUNLOCK, yamc::posix::recursive_mutex) AX("posix.recursive_timed_mutex", true, true, spec::PLAIN, false, MC_MUNLOCK, yamc::posix::recursive_timed_mutex)
  AS("posix.shared_mutex", false, spec::PLAIN, false, yamc::posix::shared_mutex) AS("posix.shared_timed_mutex", true, spec::PLAIN, false, yamc::posix::shared_timed_mutex)
}
#elif defined G_FAIRS
TRAITS(TF, false, true, false, spec::TASKFAIR, true, false, 0, yamc::fair::basic_shared_mutex<yamc::rwlock::TaskFairness>);
TRAITS(PF, false, true, false, spec::PHASEFAIR, true, false, 0, yamc::fair::basic_shared_mutex<yamc::rwlock::PhaseFairness>);
TRAITS(TTF, true, true, false, spec::TASKFAIR, true, false, 0, yamc::fair::basic_shared_timed_mutex<yamc::rwlock::TaskFairness>);
TRAITS(TPF, true, true, false, spec::PHASEFAIR, true, false, 0, yamc::fair::basic_shared_timed_mutex<yamc::rwlock::PhaseFairness>);
static void all() { shared<TF>("fair.shared_mutex.task"); shared<PF>("fair.shared_mutex.phase"); shared<TTF>("fair.shared_timed_mutex.task"); shared<TPF>("fair.shared_timed_mutex.phase"); clocks<TTF>("fair.shared_timed_mutex.task"); clocks<TPF>("fair.shared_timed_mutex.phase");
  AS("fair.shared_mutex." DEFF, false, DEFFAIR, true, yamc::fair::shared_mutex) AS("fair.shared_timed_mutex." DEFF, true, DEFFAIR, true, yamc::fair::shared_timed_mutex) }
#elif defined G_ALTS
TRAITS(RP, false, true, false, spec::PLAIN, true, false, 0, yamc::alternate::basic_shared_mutex<yamc::rwlock::ReaderPrefer>);
TRAITS(WP, false, true, false, spec::WRITERPREF, true, false, 0, yamc::alternate::basic_shared_mutex<yamc::rwlock::WriterPrefer>);
TRAITS(TRP, true, true, false, spec::PLAIN, true, false, 0, yamc::alternate::basic_shared_timed_mutex<yamc::rwlock::ReaderPrefer>);
TRAITS(TWP, true, true, false, spec::WRITERPREF, true, false, 0, yamc::alternate::basic_shared_timed_mutex<yamc::rwlock::WriterPrefer>);
static void all() { shared<RP>("alternate.shared_mutex.reader"); shared<WP>("alternate.shared_mutex.writer"); shared<TRP>("alternate.shared_timed_mutex.reader"); shared<TWP>("alternate.shared_timed_mutex.writer"); clocks<TRP>("alternate.shared_timed_mutex.reader"); clocks<TWP>("alternate.shared_timed_mutex.writer");
  AS("alternate.shared_mutex." DEFP, false, DEFPOL, true, yamc::alternate::shared_mutex) AS("alternate.shared_timed_mutex." DEFP, true, DEFPOL, true, yamc::alternate::shared_timed_mutex) }
#elif defined G_CHECKEDS
TRAITS(RP, false, true, false, spec::PLAIN, true, false, 0, yamc::checked::basic_shared_mutex<yamc::rwlock::ReaderPrefer>);
TRAITS(WP, false, true, false, spec::WRITERPREF, true, false, 0, yamc::checked::basic_shared_mutex<yamc::rwlock::WriterPrefer>);
TRAITS(TRP, true, true, false, spec::PLAIN, true, false, 0, yamc::checked::basic_shared_timed_mutex<yamc::rwlock::ReaderPrefer>);
TRAITS(TWP, true, true, false, spec::WRITERPREF, true, false, 0, yamc::checked::basic_shared_timed_mutex<yamc::rwlock::WriterPrefer>);
static void all() { shared<RP>("checked.shared_mutex.reader"); shared<WP>("checked.shared_mutex.writer"); shared<TRP>("checked.shared_timed_mutex.reader"); shared<TWP>("checked.shared_timed_mutex.writer"); clocks<TRP>("checked.shared_timed_mutex.reader"); clocks<TWP>("checked.shared_timed_mutex.writer");
  AS("checked.shared_mutex." DEFP, false, DEFPOL, true, yamc::checked::shared_mutex) AS("checked.shared_timed_mutex." DEFP, true, DEFPOL, true, yamc::checked::shared_timed_mutex) }
#elif defined G_WIN
TRAITS(NM, true, false, true, spec::PLAIN, true, false, 0, yamc::win::native_mutex);
TRAITS(CS, false, false, true, spec::PLAIN, true, false, 0, yamc::win::critical_section);
TRAITS(SR, false, true, false, spec::PLAIN, true, false, 0, yamc::win::slim_rwlock);
static void all() {
  excl<NM>("win.native_mutex"); rec<NM>("win.native_mutex"); clocks<NM>("win.native_mutex"); excl<CS>("win.critical_section"); rec<CS>("win.critical_section"); excl<SR>("win.slim_rwlock"); shared<SR>("win.slim_rwlock");
  AX("win.mutex", false, false, spec::PLAIN, true, 0, yamc::win::mutex) AX("win.recursive_mutex", false, true, spec::PLAIN, true, 0, yamc::win::recursive_mutex)
  AX("win.timed_mutex", true, false, spec::PLAIN, true, 0, yamc::win::timed_mutex) AX("win.recursive_timed_mutex", true, true, spec::PLAIN, true, 0, yamc::win::recursive_timed_mutex)
  AS("win.shared_mutex", false, spec::PLAIN, true, yamc::win::shared_mutex)
}
#elif defined G_APPLE
TRAITS(UL, false, false, false, spec::PLAIN, true, false, 0, yamc::apple::unfair_lock);
static void all() { excl<UL>("apple.unfair_lock"); }
#endif

extern "C" void mc_programs(std::vector<mc_program>& o, const char* tier) {
  std::cout.rdbuf(nullptr);
  thorough = !strcmp(tier, "thorough"); out = &o;
  all();
#ifdef MACROS
  std::vector<mc_program> k; for (auto& p : o) if (strstr(p.name, "default")) k.push_back(p); o = k;
#endif
}
