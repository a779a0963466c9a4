// Checked mutexes: misuse, deadlock detection, abort mode, detection-off mode.
// -DA_THROW (default configuration), -DA_ABORT (YAMC_CHECKED_CALL_ABORT=1), -DA_OFF (YAMC_CHECKED_DETECT_DEADLOCK=0)
#include <cassert>
#include <chrono>
#include <cstdlib>
#include <iostream>
#include <new>
#include <string>
#include <system_error>
#ifdef A_ABORT
#define YAMC_CHECKED_CALL_ABORT 1
#endif
#ifdef A_OFF
#define YAMC_CHECKED_DETECT_DEADLOCK 0
#endif
#include "checked_mutex.hpp"
#include "checked_shared_mutex.hpp"
#include "mc.h"
#include "own.h"
#ifdef A_OFF
enum { DETECTS = 0 };
#else
enum { DETECTS = own::DETECT };
#endif
using own::X; using own::S;
static bool thorough;
static std::vector<mc_program>* out;
enum { DELAY = 10, SLOT = 256 };
static std::chrono::steady_clock::time_point at(int64_t t) { return std::chrono::steady_clock::time_point(std::chrono::nanoseconds(t)); }

// ---- one interface for all types ----
struct Ty { const char* name; bool timed, shared; own::Kind kind; void (*ctor)(void*); void (*dtor)(void*); void (*lock)(void*, bool); bool (*try_)(void*, bool); bool (*until)(void*, bool, int64_t); bool (*for_)(void*, bool, int64_t); void (*unlock)(void*, bool); };
template <bool> struct Sh {
  template <class L> static void lock(L& l) { l.lock_shared(); } template <class L> static bool try_(L& l) { return l.try_lock_shared(); } template <class L> static void unlock(L& l) { l.unlock_shared(); } };
template <> struct Sh<false> { template <class L> static void lock(L&) {} template <class L> static bool try_(L&) { return false; } template <class L> static void unlock(L&) {} };
template <bool TM, bool SH> struct Ti {
  template <class L> static bool until(L& l, bool, int64_t t) { return l.try_lock_until(at(t)); }
  template <class L> static bool for_(L& l, bool, int64_t t) { return l.try_lock_for(std::chrono::nanoseconds(t)); } };
template <> struct Ti<true, true> {
  template <class L> static bool until(L& l, bool s, int64_t t) { return s ? l.try_lock_shared_until(at(t)) : l.try_lock_until(at(t)); }
  template <class L> static bool for_(L& l, bool s, int64_t t) { return s ? l.try_lock_shared_for(std::chrono::nanoseconds(t)) : l.try_lock_for(std::chrono::nanoseconds(t)); } };
template <bool SH> struct Ti<false, SH> { template <class L> static bool until(L&, bool, int64_t) { return false; } template <class L> static bool for_(L&, bool, int64_t) { return false; } };
template <class L, bool TM, bool SH> struct Impl {
  static void ctor(void* p) { static_assert(sizeof(L) <= SLOT, "slot"); new (p) L(); }
  static void dtor(void* p) { ((L*)p)->~L(); }
  static void lock(void* p, bool s) { if (s) Sh<SH>::lock(*(L*)p); else ((L*)p)->lock(); }
  static bool try_(void* p, bool s) { return s ? Sh<SH>::try_(*(L*)p) : ((L*)p)->try_lock(); }
  static bool until(void* p, bool s, int64_t t) { return Ti<TM, SH>::until(*(L*)p, s, t); }
  static bool for_(void* p, bool s, int64_t t) { return Ti<TM, SH>::for_(*(L*)p, s, t); }
  static void unlock(void* p, bool s) { if (s) Sh<SH>::unlock(*(L*)p); else ((L*)p)->unlock(); }
};
template <class L, bool TM, bool SH> static Ty ty(const char* n, bool rec, bool wp) {
  typedef Impl<L, TM, SH> I; Ty t = {n, TM, SH, {(uint8_t)rec, (uint8_t)wp}, I::ctor, I::dtor, I::lock, I::try_, I::until, I::for_, I::unlock}; return t;
}
namespace yc = yamc::checked; namespace rw = yamc::rwlock;
static const Ty types[] = {
  ty<yc::mutex, false, false>("mutex", false, false), ty<yc::timed_mutex, true, false>("timed_mutex", false, false),
  ty<yc::recursive_mutex, false, false>("recursive_mutex", true, false), ty<yc::recursive_timed_mutex, true, false>("recursive_timed_mutex", true, false),
  ty<yc::basic_shared_mutex<rw::ReaderPrefer>, false, true>("shared_mutex.reader", false, false), ty<yc::basic_shared_mutex<rw::WriterPrefer>, false, true>("shared_mutex.writer", false, true),
  ty<yc::basic_shared_timed_mutex<rw::ReaderPrefer>, true, true>("shared_timed_mutex.reader", false, false), ty<yc::basic_shared_timed_mutex<rw::WriterPrefer>, true, true>("shared_timed_mutex.writer", false, true) };
enum { MTX, TMTX, RMTX, RTMTX, SHR, SHW, STR, STW };

struct Box { alignas(16) unsigned char raw[5][SLOT]; int64_t data[5][2]; };
static Box* B;
// param: 0 steps, 1..4 operations of the thread, 5 flags, 6 type of each mutex (4 bits), 7 number of mutexes, 8 mutexes of each thread (4 bits)
enum : uint64_t { LK = 1, TR = 2, UN = 4, UX = 8, FO = 16, SLK = 32, STR_ = 64, SUN = 128, SUX = 256, SFO = 512, REL = 1024, SREL = 2048, EVERYX = LK | TR | UN | UX | FO, EVERYS = SLK | STR_ | SUN | SUX | SFO, STOP = 4096 };
enum : uint64_t { MIS = 1 /* wrong calls too */, PARK = 2, LEAVE = 4 /* may end without releasing */, WATCH = 8 /* the last thread ends hung programs */, ORDER = 16 /* acquires in increasing order only */, BACKOFF = 32 /* releases everything after a report */, LIFO = 64 /* no explicit releases */, REUSE = 256 /* thread 1 first destroys mutex 0 while owning it and creates another one in its place */, SYM = 128 /* all mutexes alike: thread 1 starts with mutex 0 */ };
static const Ty& T(int m) { return types[mc_param(6) >> (4 * m) & 15]; }
static int NMX() { return (int)mc_param(7); }

static void use(int tid, int m) {      // the guarded data, as far as the thread may touch it
  int a = own::actual(tid, m);
  if (!a) return;
  if (B->data[m][0] != B->data[m][1]) mc_fail("visibility", "half-finished update");
  if (a == X) { B->data[m][0]++; B->data[m][1]++; }
}
static own::Res call(uint64_t o, int m) {
  void* p = B->raw[m]; bool sh = o & (EVERYS | SREL), r = true; own::Mode md = sh ? S : X; int64_t now;
  try {
    switch (o) {
      case LK: case SLK: own::invoke(own::LOCK, m, md); T(m).lock(p, sh); break;
      case TR: case STR_: own::invoke(own::TRY, m, md); r = T(m).try_(p, sh); break;
      case UN: case SUN: now = mc_clock_now(1) + DELAY; own::invoke(own::TIMED, m, md, now, 1); r = T(m).until(p, sh, now); break;
      case UX: case SUX: now = mc_clock_now(1) - 4; own::invoke(own::TIMED, m, md, now, 1); r = T(m).until(p, sh, now); break;
      case FO: case SFO: own::invoke(own::TIMED, m, md, DELAY, 1, true); r = T(m).for_(p, sh, DELAY); break;
      case REL: case SREL: own::invoke(own::REL, m, md); T(m).unlock(p, sh); break;
    }
  } catch (const std::system_error& e) {
#ifdef A_ABORT
    mc_fail("wrong-reaction", "an exception in abort mode");
#endif
    if (e.code() == std::errc::operation_not_permitted) { own::response(own::PERM); return own::PERM; }
    if (e.code() == std::errc::resource_deadlock_would_occur) { own::response(own::DEADLK); return own::DEADLK; }
    mc_fail("wrong-error", "unexpected error code %d", e.code().value());
  }
  own::response(r ? own::OKAY : own::NO);
  return r ? own::OKAY : own::NO;
}
static void release_all(int tid) {
  for (int m = NMX() - 1; m >= 0; --m) while (own::depth(tid, m)) {
    use(tid, m);
    if (call(own::actual(tid, m) == S ? SREL : REL, m) != own::OKAY) return;
  }
}
static int ended() { mc_ghost_enter(); int v = ((unsigned char*)mc_aux())[0]; mc_ghost_leave(); return v; }
static void end() { mc_ghost_enter(); ((unsigned char*)mc_aux())[0]++; mc_ghost_leave(); }
static bool going(void*) { return ((unsigned char*)mc_aux())[1]; }
static void reuse(int tid) {
  if (tid == 1) {
    bool sh = T(0).shared && mc_choose(2, "mode"), threw = false;
    if (call(sh ? SLK : LK, 0) != own::OKAY) mc_fail("wrong-error", "the first lock fails");
    if (T(0).kind.rec && mc_choose(2, "again?")) call(LK, 0);
    try { T(0).dtor(B->raw[0]); } catch (const std::system_error& e) { threw = true; if (e.code() != std::errc::resource_deadlock_would_occur) mc_fail("wrong-error", "destruction reports %d", e.code().value()); }
    if (!threw) mc_fail("missed-misuse", "destruction of an owned mutex is not reported");
    own::forget(0); T(0).ctor(B->raw[0]);
    mc_ghost_enter(); ((unsigned char*)mc_aux())[1] = 1; mc_ghost_leave(); mc_hb_release(B);
  } else { mc_await(going, nullptr, "a new mutex"); mc_hb_acquire(B); }
}
static void body(int tid) {
  if (mc_param(5) & REUSE) reuse(tid);
  uint64_t mask = mc_param(tid), fl = mc_param(5), mine = mc_param(8) >> (4 * tid) & 15; int n = NMX(), steps = (int)mc_param(0);
  if (mask == STOP) {      // watcher: ends executions that hang for good, if they may
    while (ended() < (int)mc_param(9) - 1) { mc_park("watch"); if (ended() < (int)mc_param(9) - 1 && own::hung()) abort(); }
    return;
  }
  for (int k = 0; k < steps; ++k) {
    struct { uint64_t o; int m; } op[64]; int c = 0;
    for (int m = 0; m < ((fl & SYM) && tid == 1 && k == 0 ? 1 : n); ++m) if (mine >> m & 1) for (int b = 0; b < 12; ++b) if (mask >> b & 1) {
      uint64_t o = 1ull << b; int a = own::actual(tid, m);
      if ((o & (EVERYS | SREL)) && !T(m).shared) continue;
      if ((o & (UN | UX | FO | SUN | SUX | SFO)) && !T(m).timed) continue;
      if (!(fl & MIS)) {
        if (o == REL ? a != X || (fl & LIFO) : o == SREL ? a != S || (fl & LIFO) : a && !(T(m).kind.rec && own::depth(tid, m) < 2)) continue;
        if ((fl & ORDER) && o < REL) { bool later = false; for (int q = m; q < n; ++q) later = later || (own::actual(tid, q) && q != m); if (later) continue; }
      } else if (a && T(m).kind.rec && o < REL && own::depth(tid, m) >= 2) continue;
      op[c].o = o; op[c++].m = m;
    }
    if (!c) break;
    if ((fl & PARK) && mc_choose(2, "wait?")) mc_park("between");
    int x = c > 1 ? mc_choose(c, "operation") : 0;
    own::Res r = call(op[x].o, op[x].m);
    mc_outcome(op[x].o * 64 + op[x].m * 16 + r);
    use(tid, op[x].m);
    if (r == own::DEADLK && (fl & BACKOFF)) release_all(tid);
  }
  if ((fl & PARK) && mc_choose(2, "wait?")) mc_park("at the end");
  if (!((fl & LEAVE) && ended() == (int)mc_param(11) - 1 && mc_choose(2, "leave?"))) release_all(tid);     // the last one may leave the mutex locked
  end();
}
static void setup() {
  own::Kind k[3]; for (int m = 0; m < NMX(); ++m) k[m] = T(m).kind;
  own::init(NMX(), k, (int)mc_param(9), DETECTS | (mc_param(10) ? own::MUST : 0));
  B = new Box; memset((void*)B, 0, sizeof *B);
  for (int m = 0; m < NMX(); ++m) T(m).ctor(B->raw[m]);
}
static int dying = -1;
static void teardown() {
  for (int m = 0; m < NMX(); ++m) {
    bool held = own::owned(m), threw = false;
    if (!held) {     // usable, in every way, by a thread that never touched it
      try {
        if (!T(m).try_(B->raw[m], false)) mc_fail("left-locked", "after all releases mutex %d cannot be locked", m);
        T(m).unlock(B->raw[m], false);
        if (T(m).shared) { if (!T(m).try_(B->raw[m], true)) mc_fail("left-locked", "after all releases mutex %d cannot be locked shared", m); T(m).unlock(B->raw[m], true); }
      } catch (const std::system_error& e) { mc_fail("false-misuse", "error %d from a correct call at the end", e.code().value()); }
    }
    dying = m;
    try { T(m).dtor(B->raw[m]); } catch (const std::system_error& e) { threw = true; if (e.code() != std::errc::resource_deadlock_would_occur) mc_fail("wrong-error", "destruction reports %d", e.code().value()); }
    if (held && !threw) mc_fail("missed-misuse", "destruction of owned mutex %d is not reported", m);
    if (!held && threw) mc_fail("false-misuse", "destruction of free mutex %d reports an error", m);
    dying = -1;
  }
  if (mc_param(5) & LEAVE) {      // a new object in the same place starts from scratch
    for (int m = 0; m < NMX(); ++m) T(m).ctor(B->raw[m]);
    try { for (int m = 0; m < NMX(); ++m) { T(m).lock(B->raw[m], false); T(m).unlock(B->raw[m], false); T(m).dtor(B->raw[m]); } }
    catch (const std::system_error& e) { mc_fail("false-misuse", "error %d from a new mutex at an address used before", e.code().value()); }
  }
  delete B;
}
static bool on_abort(int tid) {
  if (tid == 0) return dying >= 0 && own::owned(dying);
#ifndef A_ABORT
  return mc_param(tid) == STOP;
#else
  return mc_param(tid) == STOP || own::abort_ok(tid);
#endif
}
static void put(const std::string& name, int steps, std::initializer_list<int> tys, std::initializer_list<uint64_t> masks, uint64_t fl, unsigned flags = 0, uint64_t mine = ~0ull) {
  mc_program p; memset((void*)&p, 0, sizeof p);
#ifdef A_OFF
  std::vector<uint64_t> ms(masks); bool can = tys.size() > 1 && !(fl & ORDER);      // a hang is possible
  if (can) { if (ms.size() >= 4) return; ms.push_back(STOP); }
#else
  std::vector<uint64_t> ms(masks);
#endif
  p.name = strdup(name.c_str()); p.nthreads = (int)ms.size(); p.flags = flags; p.setup = setup; p.teardown = teardown; p.body = body; p.on_quiescent = own::on_quiescent; p.on_tick = own::on_tick; p.on_abort = on_abort;
  p.param[0] = steps; int i = 1; for (uint64_t m : ms) p.param[i++] = m; 
  p.param[5] = fl; i = 0; for (int t : tys) p.param[6] |= (uint64_t)t << (4 * i++); p.param[7] = i; p.param[8] = mine; p.param[9] = p.nthreads; p.param[11] = masks.size(); p.param[10] = !!(flags & MC_TIMEOUT_NORMAL);
  out->push_back(p);
}
// ---- rings: thread i holds mutex i and asks for mutex i+1.  param 0 threads, 1 type, 2 mutexes, 3 number of first acquisitions to choose from
struct Ring { unsigned char phase[6], reports; };     // 1 holds the first, 2 asks for the second, 3 through or refused
static Ring* ring() { return (Ring*)mc_aux(); }
static const Ty& R() { return types[mc_param(1)]; }
static void ring_setup() { B = new Box; memset((void*)B, 0, sizeof *B); for (int m = 0; m < (int)mc_param(2); ++m) R().ctor(B->raw[m]); }
static void ring_teardown() {
  try { for (int m = 0; m < (int)mc_param(2); ++m) { if (!R().try_(B->raw[m], false)) mc_fail("left-locked", "after all releases mutex %d cannot be locked", m); R().unlock(B->raw[m], false); R().dtor(B->raw[m]); } }
  catch (const std::system_error& e) { mc_fail("false-misuse", "error %d from a correct call at the end", e.code().value()); }
  delete B;
}
static void phase(int tid, int v) { mc_ghost_enter(); ring()->phase[tid] = v; mc_ghost_leave(); }
static void ring_body(int tid) {
  mc_await([](void* p) { return ring()->phase[(intptr_t)p] != 0 || (intptr_t)p == 0; }, (void*)(intptr_t)(tid - 1), "turn");      // the first acquisitions come one by one,
  int n = (int)mc_param(0), k = (int)mc_param(2), a = (tid - 1) % k, b = (a + 1) % k; bool by = tid > k;      // the bystander only holds mutex 0 for a while, shared
  int how = by ? 3 : mc_param(3) > 1 && tid == 1 ? mc_choose((int)mc_param(3), "first acquisition") : 0; bool sh = R().shared && (how == 3 || (k < n && tid == 1));
  try {
    bool r = true;
    if (how == 1) r = R().try_(B->raw[a], sh); else if (how == 2 && R().timed) r = R().for_(B->raw[a], sh, DELAY); else R().lock(B->raw[a], sh);
    if (!r) { phase(tid, 3); return; }      // the predecessor was there first
  } catch (const std::system_error& e) { mc_fail(e.code() == std::errc::resource_deadlock_would_occur ? "false-deadlock" : "wrong-error", "first acquisition of thread %d reports %d", tid, e.code().value()); }
  phase(tid, 1);
  if (!by) {
    mc_await([](void*) { for (int i = 1; i <= (int)mc_param(0); ++i) if (!ring()->phase[i]) return false; return true; }, nullptr, "all hold");      // the second ones in every order
    bool got = true; phase(tid, 2);
    try { R().lock(B->raw[b], false); }
    catch (const std::system_error& e) {
      if (e.code() != std::errc::resource_deadlock_would_occur) mc_fail("wrong-error", "lock reports %d", e.code().value());
      got = false;
      mc_ghost_enter(); for (int i = 1; i <= k; ++i) if (ring()->phase[i] != 2) mc_fail("false-deadlock", "lock of thread %d reports a deadlock although thread %d does not wait", tid, i);
      if (ring()->reports++) mc_fail("false-deadlock", "a second report in a ring");
      mc_ghost_leave();
    }
    phase(tid, 3);
    if (got) { B->data[b][0]++; R().unlock(B->raw[b], false); }
    mc_outcome(got);
  }
  R().unlock(B->raw[a], sh);
}
static void ringp(const std::string& name, int t, int n, int k, int hows, unsigned flags = 0) {
#if !defined A_ABORT && !defined A_OFF
  mc_program p; memset((void*)&p, 0, sizeof p); p.name = strdup(name.c_str()); p.nthreads = n; p.flags = flags; p.setup = ring_setup; p.teardown = ring_teardown; p.body = ring_body;
  p.param[0] = n; p.param[1] = t; p.param[2] = k; p.param[3] = hows; out->push_back(p);
#endif
}
static void all() {
  for (int t = 0; t < 8; ++t) {
    std::string rn = std::string("dead/") + types[t].name;
    ringp(rn + "/ring4", t, 4, 4, types[t].timed ? 3 : 2); ringp(rn + "/ring5", t, 5, 5, 1);
    if (types[t].shared) ringp(rn + "/ring4by", t, 4, 3, 1), ringp(rn + "/ring5by", t, 5, 4, 1);
    std::string n = types[t].name; bool sh = types[t].shared, tm = types[t].timed; unsigned tk = tm ? MC_TICK : 0;
    const uint64_t LX = LK | TR, TX = tm ? UN | UX | FO : 0, LS = sh ? SLK | STR_ : 0, TS = sh && tm ? SUN | SUX | SFO : 0, RX = REL, RS = sh ? SREL : 0;
    // misuse of one mutex
    put("mis/" + n + "/one", 4, {t}, {LX | LS | TX | TS | RX | RS}, MIS | LEAVE, tk);
    put("mis/" + n + "/two3", 3, {t}, {LX | LS | RX | RS, LX | LS | RX | RS}, MIS | PARK, 0);
    put("mis/" + n + "/two2t", 2, {t}, {LX | LS | TX | TS | RX | RS, LX | LS | TX | TS | RX | RS}, MIS | PARK | LEAVE, tk);
    put("mis/" + n + "/two2sp", 2, {t}, {LK | (sh ? SLK : 0) | RX | RS, LX | LS | TX | TS | RX | RS}, MIS, tk | MC_SPUR);
    put("mis/" + n + "/three2", 2, {t}, {LK | (sh ? SLK : 0) | RX | RS, LK | (sh ? SLK : 0) | RX | RS, (sh ? SLK | SREL : TR) | RX}, MIS, 0);
    if (thorough) {
      put("mis/" + n + "/two4", 4, {t}, {LX | LS | RX | RS, LX | LS | RX | RS}, MIS | PARK | LEAVE, 0);
      put("mis/" + n + "/three3", 3, {t}, {LK | (sh ? SLK : 0) | RX | RS, LK | (sh ? SLK : 0) | RX | RS, LX | LS | RX | RS}, MIS | PARK, 0);
      put("mis/" + n + "/two3t", 3, {t}, {LX | LS | TX | TS | RX | RS, LX | LS | TX | TS | RX | RS}, MIS | PARK | LEAVE, tk | MC_SPUR);
    }
    // deadlocks among mutexes of one type
    const uint64_t A = LK | (sh ? SLK : 0), AR = A | RX | RS;
    bool base = t == MTX || t == RMTX || t == SHR || t == SHW, ex = t == MTX; const uint64_t SY = SYM;
    put("dead/" + n + "/2t2m3", 3, {t, t}, {AR, AR}, SY | (base ? PARK : 0));
    put("dead/" + n + "/2t2m3sp", 3, {t, t}, {AR, AR}, SY, MC_SPUR);
    put("dead/" + n + "/3t2m2", 2, {t, t}, {A, A, sh ? SLK : LK}, LIFO | SY | (base && !sh ? PARK : 0));
    const uint64_t RING = 0x5 << 12 | 0x6 << 8 | 0x3 << 4, PAIRS = 0x6 << 12 | 0x5 << 8 | 0x7 << 4;      // mutexes of threads 1, 2, 3
    if (base) {
      put("dead/" + n + "/3t3m2r", 2, {t, t, t}, {A, sh ? SLK : LK, LK}, LIFO, 0, RING);
      put("dead/" + n + "/3t2m2p", 2, {t, t}, {A, LK, A}, LIFO | SY | PARK);
      put("dead/" + n + "/2t2m4b", 4, {t, t}, {A, A}, LIFO | SY | BACKOFF);
      put("dead/" + n + "/2t3m3l", 3, {t, t, t}, {A, A}, LIFO | SY);
      put("dead/" + n + "/order3t3m", 3, {t, t, t}, {sh ? SLK : LK, A, LK}, LIFO | ORDER, 0, PAIRS);
      put("dead/" + n + "/try3t2m2", 2, {t, t}, {sh ? SLK | TR : LX, sh ? SLK : LK, sh ? LK : LX}, LIFO);
    }
    if (ex) {
      put("dead/" + n + "/2t2m5", 5, {t, t}, {AR, AR}, SY | PARK); put("dead/" + n + "/3t2m3b", 3, {t, t}, {A, A, A}, LIFO | BACKOFF | SY);
      put("dead/" + n + "/2t3m3", 3, {t, t, t}, {AR, AR}, SY); put("dead/" + n + "/3t3m2", 2, {t, t, t}, {A, A, A}, LIFO | SY); put("dead/" + n + "/order3t3mp", 3, {t, t, t}, {LK, LK, LK}, LIFO | ORDER | PARK);
    }
    if (types[t].kind.rec) put("dead/" + n + "/nest2t2m4", 4, {t, t}, {LK | TR | REL, LK}, SY);
    put("dead/" + n + "/try2t2m3", 3, {t, t}, {sh ? SLK | STR_ | TR | REL | SREL : LK | TR | REL, sh ? LK | SLK | SREL : LK | REL}, SY);
#if !defined A_ABORT
    put("dead/" + n + "/new2t2m2", 2, {t, t}, {A, A}, LIFO | REUSE | PARK);
    put("dead/" + n + "/new2t1m3", 3, {t}, {AR, AR}, REUSE | PARK);
#endif
    if (tm) put("dead/" + n + "/timed2t2m3", 3, {t, t}, {A | UN | (sh ? SUN : 0), AR}, 0, MC_TICK | MC_TIMEOUT_NORMAL);
    if (tm) put("dead/" + n + "/timed3t2m2", 2, {t, t}, {sh ? SLK : LK, sh ? SLK : LK, UN}, LIFO, MC_TICK | MC_TIMEOUT_NORMAL);
    if (thorough) {
      put("dead/" + n + "/3t2m2f", 2, {t, t}, {A, A, A}, LIFO | PARK);
      put("dead/" + n + "/3t3m2", 2, {t, t, t}, {A, A, A}, LIFO | SY);
      put("dead/" + n + "/2t3m3", 3, {t, t, t}, {AR, AR}, SY);
      put("dead/" + n + "/3t2m3", 3, {t, t}, {AR, AR, AR}, SY);
      put("dead/" + n + "/order3t3mp", 3, {t, t, t}, {A, A, LK}, LIFO | ORDER | PARK);
      put("dead/" + n + "/try3t2m2f", 2, {t, t}, {LX | LS, A, LX}, LIFO);
      if (tm) put("dead/" + n + "/timed3t2m2f", 2, {t, t}, {A, sh ? SLK : LK, UN | A}, LIFO, MC_TICK | MC_TIMEOUT_NORMAL);
      put("dead/" + n + "/2t2m6", 6, {t, t}, {AR, AR}, PARK);
      put("dead/" + n + "/2t3m5", 5, {t, t, t}, {AR, AR}, 0, MC_SPUR);
      put("dead/" + n + "/3t3m3", 3, {t, t, t}, {A, A, A}, LIFO | PARK);
      put("dead/" + n + "/3t2m4", 4, {t, t}, {AR, AR, AR}, 0);
      put("dead/" + n + "/4t3m2", 2, {t, t, t}, {A, A, A, A}, LIFO);
      put("dead/" + n + "/4t2m2", 2, {t, t}, {A, A, A, A}, LIFO | PARK);
      put("dead/" + n + "/3t3m3b", 3, {t, t, t}, {A, A, A}, LIFO | BACKOFF);
      if (tm) put("dead/" + n + "/timed3t2m3", 3, {t, t}, {A, A, UN | A | (sh ? SUN : 0)}, LIFO, MC_TICK | MC_TIMEOUT_NORMAL);
    }
  }
  // different types together
  const uint64_t A = LK | SLK, AR = A | REL | SREL;
  put("dead/mixed/mtx+shr.2t2m4", 4, {MTX, SHR}, {AR, AR}, PARK);
  const uint64_t RING = 0x5 << 12 | 0x6 << 8 | 0x3 << 4;
  put("dead/mixed/mtx+shr.3t2m2", 2, {MTX, SHR}, {A, A, A}, LIFO);
  put("dead/mixed/rec+shw.3t2m2", 2, {RMTX, SHW}, {A, A, LK}, LIFO | PARK);
  put("dead/mixed/mtx+rec+shw.3t3m2", 2, {MTX, RMTX, SHW}, {A, A, A}, LIFO, 0, RING);
  put("dead/mixed/shr+shw+tmtx.3t3m2", 2, {SHR, SHW, TMTX}, {A, SLK, LK}, LIFO, 0, RING);
  put("dead/mixed/stw+rtm.timed3t2m2", 2, {STW, RTMTX}, {SLK, A, UN}, LIFO, MC_TICK | MC_TIMEOUT_NORMAL);
  if (thorough) {
    put("dead/mixed/mtx+rec+shw.3t3m2f", 2, {MTX, RMTX, SHW}, {A, A, A}, LIFO);
    put("dead/mixed/shr+shw+tmtx.3t3m2f", 2, {SHR, SHW, TMTX}, {A, A, A}, LIFO);
    put("dead/mixed/stw+rtm.timed3t2m2f", 2, {STW, RTMTX}, {A, A, A | UN | SUN}, LIFO, MC_TICK | MC_TIMEOUT_NORMAL);
    put("dead/mixed/mtx+shr.3t2m3", 3, {MTX, SHR}, {AR, AR, AR}, 0);
  }
}
extern "C" void mc_programs(std::vector<mc_program>& o, const char* tier) {
  std::cout.rdbuf(nullptr); thorough = !strcmp(tier, "thorough"); out = &o; all();
}
