// Latch and barrier.  -DG_LATCH, -DG_BARRIER
#include <cassert>
#include <cstddef>
#include <cstdint>
#include <algorithm>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <functional>
#include <limits>
#include <memory>
#include <mutex>
#include <thread>
#include <utility>
#include <vector>
#include "client.h"
#include "obj.h"
#if defined G_LATCH
#include "yamc_latch.hpp"
#else
#include "yamc_barrier.hpp"
#endif
using namespace client;
static bool thorough;
static std::vector<mc_program>* out;
struct G { int budget; int spare[7]; };
static G& g() { return *(G*)mc_aux(); }     // hashed ghost data

#ifdef CROWD
// Many threads come one after another and wait; they wake up in any order.
struct Turn { uint8_t turn, late; };
static Turn* tn() { return (Turn*)((char*)mc_aux() + 64); }
static int turn() { mc_ghost_enter(); int t = tn()->turn; mc_ghost_leave(); return t; }
static void next() { mc_ghost_enter(); tn()->turn++; mc_ghost_leave(); }
static bool my_turn(void* p) { return tn()->turn >= (int)(uintptr_t)p; }
static uint64_t masks_[64][16]; static int nprog;
static const uint64_t FREE = 1u << 20, LOOSE = 1u << 21;     // comes at one of several moments / the next one comes while this one is arriving
static std::vector<uint64_t> rep(int n, uint64_t m) { return std::vector<uint64_t>(n, m); }
static uint64_t pick_of(uint64_t mask) { uint64_t ops[20]; int n = 0; for (int b = 0; b < 20; ++b) if (mask >> b & 1) ops[n++] = 1ull << b; return ops[n > 1 ? mc_choose(n, "operation") : 0]; }
static void enter(int tid, int n, uint64_t m, int nfree) {
  int q = n - nfree;
  if (m & FREE) { int at[4] = {q, q - 1, 1, q / 2}; mc_await(my_turn, (void*)(uintptr_t)at[mc_choose(4, "comes when")], "free"); return; }
  mc_await(my_turn, (void*)(uintptr_t)tid, "turn"); if (!(m & LOOSE)) mc_park("turn"); next();
}
#endif
#if defined G_LATCH && defined CROWD
enum : uint64_t { W = 1, TW = 2, D1 = 4, D2 = 8, D3 = 16, A1 = 32, A2 = 64 };
struct Box3 { alignas(16) unsigned char raw[sizeof(yamc::latch)]; yamc::latch* p; };
static Box3* B;
static int wt(uint64_t o) { return o == D1 || o == A1 ? 1 : o == D2 || o == A2 ? 2 : o == D3 ? 3 : 0; }
static void body(int tid) {
  yamc::latch& l = *B->p; uint64_t m = masks_[mc_param(0)][tid]; bool r = true;
  enter(tid, (int)mc_param(11), m, (int)mc_param(1));
  uint64_t o = pick_of(m & ~(FREE | LOOSE)); int k = wt(o);
  switch (o) {
    case W: obj::invoke(obj::LWAIT); l.wait(); break;
    case TW: obj::invoke(obj::LTRY); r = l.try_wait(); break;
    case D1: case D2: case D3: obj::invoke(obj::LDOWN, k); l.count_down(k); break;
    default: obj::invoke(obj::LARRIVE, k); l.arrive_and_wait(k); break;
  }
  obj::response(r); obj::done();
}
static void setup() { obj::init(obj::LATCH, (int)mc_param(11), (int)mc_param(8)); mc_ghost_enter(); tn()->turn = 1; mc_ghost_leave(); B = new Box3; memset((void*)B, 0, sizeof *B); B->p = new (B->raw) yamc::latch(mc_param(8)); }
static void teardown() { if (!B->p->try_wait()) mc_fail("try-false", "try_wait is false after the counter reached zero"); B->p->~latch(); delete B; }
// every choice of a thread counts down by the same amount
static void put(const std::string& name, std::vector<uint64_t> masks, unsigned flags) {
  mc_program p; memset((void*)&p, 0, sizeof p);
  p.name = nm(name); p.nthreads = (int)masks.size(); p.flags = flags | MC_NORACE; p.setup = setup; p.teardown = teardown; p.body = body; p.on_quiescent = obj::on_quiescent; p.on_tick = obj::on_tick;
  p.param[0] = nprog; int i = 1, c = 0; for (uint64_t m : masks) { masks_[nprog][i++] = m; if (m & FREE) p.param[1]++; uint64_t one = m & ~(FREE | LOOSE); c += wt(one & -one); } ++nprog;
  p.param[8] = c; p.param[11] = p.nthreads; out->push_back(p);
}
static void all() {
  const int N = thorough ? 11 : 9;
  { auto m = rep(N, W); m.push_back(D1); put("latch/crowd.one", m, 0); m.back() = D3; put("latch/crowd.three", m, 0); }
  put("latch/crowd.arrive", rep(N, A1), 0);
  put("latch/crowd.arrive2", rep(N, A2), 0);
  { auto m = rep(N, W | TW); m.push_back(D1); m.push_back(D2); put("latch/crowd.try", m, 0); }
  { auto m = rep(N, A1); m[1] = D1 | A1; m[3] = D2 | A2; m[4] = W; m[6] = D1; put("latch/crowd.mixed", m, 0); }
  { auto m = rep(N - 3, W); m.push_back(D1 | LOOSE); m.push_back(D2 | LOOSE); m.push_back(A1); put("latch/crowd.loose", m, 0); }
  { auto m = rep(N - 3, W); m.push_back(A1 | LOOSE); m.push_back(A1 | LOOSE); m.push_back(D1); put("latch/crowd.loosearrive", m, 0); }
  { auto m = rep(N - 4, W); m.push_back(A1); m.push_back(D1); m.push_back(W | TW | FREE); put("latch/crowd.free", m, 0); }
  { auto m = rep(N - 4, W); m.push_back(D1 | LOOSE); m.push_back(D1); m.push_back(A1 | FREE); put("latch/crowd.freearrive", m, 0); }
  { auto m = rep(4, W | TW | LOOSE); m.push_back(D1); put("latch/crowd.loose5", m, MC_SPUR); }
  { auto m = rep(5, A1 | LOOSE); put("latch/crowd.loosearrive5", m, 0); }
}
#elif defined G_LATCH
enum : uint64_t { W = 1, TW = 2, D1 = 4, D2 = 8, D0 = 16, A1 = 32, A2 = 64, A0 = 128, NOP = 256 };
struct Box3 { alignas(16) unsigned char raw[sizeof(yamc::latch)]; yamc::latch* p; int slot[6]; int total; };
static Box3* B;
static int wt(uint64_t o) { return o == D1 || o == A1 ? 1 : o == D2 || o == A2 ? 2 : 0; }
static uint64_t pick(uint64_t mask) {
  uint64_t ops[16]; int n = 0;
  int budget; { mc_ghost_enter(); budget = g().budget; mc_ghost_leave(); }
  for (int b = 0; b < 9; ++b) if ((mask >> b & 1) && wt(1ull << b) <= budget) ops[n++] = 1ull << b;
  if (!n) return NOP;
  uint64_t o = ops[n > 1 ? mc_choose(n, "operation") : 0];
  mc_ghost_enter(); g().budget -= wt(o); mc_ghost_leave();
  return o;
}
static void released() { int s = 0; for (int i = 0; i < 6; ++i) s += B->slot[i]; if (s != B->total) mc_fail("visibility", "a released waiter does not see all arrivals: %d of %d", s, B->total); }
static void op(int tid, uint64_t o) {
  yamc::latch& l = *B->p; bool r = true; int k = wt(o);
  if (k) B->slot[tid] += k;
  switch (o) {
    case W: obj::invoke(obj::LWAIT); l.wait(); break;
    case TW: obj::invoke(obj::LTRY); r = l.try_wait(); break;
    case D0: case D1: case D2: obj::invoke(obj::LDOWN, k); if (k == 1) l.count_down(); else l.count_down(k); break;
    case A0: case A1: case A2: obj::invoke(obj::LARRIVE, k); if (k == 1) l.arrive_and_wait(); else l.arrive_and_wait(k); break;
  }
  obj::response(r);
  if (o == W || o == A0 || o == A1 || o == A2 || (o == TW && r)) { released(); mc_outcome(1); } else mc_outcome(r ? 2 : 3);
}
static void body(int tid) {
  int n = (int)mc_param(11);
  if (tid == n) {
    while (obj::finished() < n - 1) { mc_park("feeder"); int b; { mc_ghost_enter(); b = g().budget; if (b) g().budget--; mc_ghost_leave(); } if (b) op(tid, D1); }
    return;
  }
  for (int k = 0; k < (int)mc_param(0); ++k) {
    if ((mc_param(5) & F_PARK_BEFORE) && mc_choose(2, "wait before?")) mc_park("before");
    uint64_t o = pick(mc_param(tid)); if (o != NOP) op(tid, o);
  }
  obj::done();
}
static void setup() { obj::init(obj::LATCH, (int)mc_param(11), (int)mc_param(8)); mc_ghost_enter(); g().budget = (int)mc_param(8); mc_ghost_leave(); B = new Box3; memset((void*)B, 0, sizeof *B); B->total = (int)mc_param(8); B->p = new (B->raw) yamc::latch(mc_param(8)); }
static void teardown() { int s = 0; for (int i = 0; i < 6; ++i) s += B->slot[i]; if (s == B->total && !B->p->try_wait()) mc_fail("try-false", "try_wait is false after the counter reached zero"); B->p->~latch(); delete B; }
static void put(const std::string& name, int count, int rounds, std::initializer_list<uint64_t> masks, unsigned flags, uint64_t cf = 0) {
  mc_program p; memset((void*)&p, 0, sizeof p);
  p.name = nm(name); p.nthreads = (int)masks.size() + 1; p.flags = flags; p.setup = setup; p.teardown = teardown; p.body = body; p.on_quiescent = obj::on_quiescent; p.on_tick = obj::on_tick;
  p.param[0] = rounds; int i = 1; for (uint64_t m : masks) p.param[i++] = m;
  p.param[5] = cf; p.param[8] = count; p.param[11] = p.nthreads; out->push_back(p);
}
static void all() {
  const uint64_t ALL = W | TW | D1 | D2 | D0 | A1 | A2 | A0;
  for (int c = 0; c <= 4; ++c) {
    std::string s = ".count" + std::to_string(c);
    put("latch/all2x2" + s, c, 2, {ALL, ALL}, c < 3 ? MC_SPUR : 0, F_PARK_BEFORE);
    put("latch/all3x1" + s, c, 1, {ALL, W | TW | D1 | A1, D1 | D2 | A2}, 0, F_PARK_BEFORE); if (c < 3) put("latch/spur3x1" + s, c, 1, {W | TW | D1, W | A1, D2 | A1}, MC_SPUR, 0);
    put("latch/wait3x2" + s, c, 2, {W | A1, W | D1 | TW, A1 | D2}, 0, 0);
    put("latch/wait4x1" + s, c, 1, {W | A1, W | D1, W | A2, A1 | TW}, 0, F_PARK_BEFORE);
    if (thorough) { put("latch/all3x2" + s, c, 2, {ALL, ALL, ALL}, 0, F_PARK_BEFORE); put("latch/all4x1" + s, c, 1, {ALL, ALL, ALL, ALL}, MC_SPUR, F_PARK_BEFORE); put("latch/wait4x2" + s, c, 2, {W | A1, W | D1, W | A2, A1 | TW}, 0, 0); }
  }
}
#else
struct Cf { void operator()() noexcept; };
template <class BAR> struct Box3 { alignas(16) unsigned char raw[sizeof(BAR)]; BAR* p; };
struct Data { int64_t gen; int64_t copy[6]; int64_t slot[6][2]; int64_t last[6]; int n; };   // last: phase in which the thread drops out, +1
static Data* D;
static bool muted;
void Cf::operator()() noexcept {
  if (muted) return;
  obj::completion_begin();
  if (mc_param(14)) { D->gen++; mc_yield("inside completion"); obj::completion_end(); return; }
  for (int t = 1; t <= D->n; ++t) {
    int64_t s = D->slot[t][D->gen & 1];
    if ((!D->last[t] || D->gen < D->last[t]) && s != D->gen + 1) mc_fail("completion", "completion of phase %d runs before thread %d arrived", (int)D->gen, t);
    D->copy[t] = s;
  }
  D->gen++;
  mc_yield("inside completion");
  obj::completion_end();
}
enum : uint64_t { M_AW = 1, M_ARR_WAIT = 2, M_DROP = 4, M_SPLIT = 8 /* two tokens */, M_BULK = 16 /* arrive(2) */, M_ARR = 64 /* arrive, nobody waits with the token */, M_KEEP = 128 /* wait with this token in the end */, M_BULK2 = 256 /* arrive(2) if the phase surely has room */, M_OLD = 32 /* wait for the second token one phase late */ };
template <class BAR, bool COMP> struct Bar {
  static Box3<BAR>*& box() { static Box3<BAR>* b; return b; }
  static void seen(int tid, int phase) {      // after a wait of `phase` returned
    if (COMP) { if (D->gen != phase + 1) mc_fail("completion", "a wait of phase %d returned but the completion ran %d times", phase, (int)D->gen); }
    else for (int t = 1; t <= D->n; ++t) if (!(mc_param(t) & M_DROP) && D->slot[t][phase & 1] != phase + 1 ) mc_fail("early-release", "a wait of phase %d returned before thread %d arrived", phase, t);
  }
  static void body(int tid) {
    BAR& b = *box()->p; uint64_t mask = mc_param(tid); int phases = (int)mc_param(0), w = (int)(mc_param(12) >> (4 * tid) & 15); bool pk = mc_param(5) & F_PARK_BEFORE;
    typedef typename BAR::arrival_token tok; bool old = false; tok oldt = tok();
    for (int ph = 0; ph < phases; ++ph) {
      uint64_t ms[8]; int n = 0; for (int i = 0; i < 6; ++i) if (mask >> i & 1) ms[n++] = 1ull << i;
      uint64_t m = ms[n > 1 ? mc_choose(n, "how to arrive") : 0];
      if (pk && mc_choose(2, "wait before?")) mc_park("before");
      D->slot[tid][ph & 1] = ph + 1;
      if (m == M_DROP) { 
        D->last[tid] = ph + 1;
        obj::invoke(obj::BDROP); b.arrive_and_drop(); obj::response(); mc_outcome(100 + ph);
        return; }
      if (w == 2 && m != M_SPLIT && m != M_OLD) m = M_BULK;
      switch (m) {
        case M_AW: obj::invoke(obj::BARRWAIT); b.arrive_and_wait(); obj::response(); break;
        case M_ARR_WAIT: case M_BULK: {
          int k = m == M_BULK ? 2 : 1;
          obj::invoke(obj::BARRIVE, k, 0); tok t = k == 2 ? b.arrive(2) : b.arrive(); obj::response();
          if (pk && mc_choose(2, "wait between?")) mc_park("between");
          obj::invoke(obj::BWAIT, 1, 0); b.wait(std::move(t)); obj::response(); break; }
        case M_SPLIT: case M_OLD: {
          obj::invoke(obj::BARRIVE, 1, 0); tok t = b.arrive(); obj::response();
          if (old) { obj::invoke(obj::BWAIT, 1, 1); b.wait(std::move(oldt)); obj::response(); old = false; }
          obj::invoke(obj::BARRIVE, 1, 1); tok u = b.arrive(1); obj::response();
          obj::invoke(obj::BWAIT, 1, 0); b.wait(std::move(t)); obj::response();
          if (m == M_OLD) { old = true; oldt = u; } else { obj::invoke(obj::BWAIT, 1, 1); b.wait(std::move(u)); obj::response(); }
          break; }
      }
      seen(tid, ph);
      mc_outcome(ph);
    }
    if (old) { obj::invoke(obj::BWAIT, 1, 1); b.wait(std::move(oldt)); obj::response(); }
  }
  // any number of arrivals by any thread, with or without waiting; the last thread adds arrivals as long as somebody waits
  static void body_free(int tid) {
    BAR& b = *box()->p; uint64_t mask = mc_param(tid); int n = (int)mc_param(11); bool pk = mc_param(5) & F_PARK_BEFORE;
    typedef typename BAR::arrival_token tok; bool kept = false; tok kt = tok();
    if (tid == n) {
      while (obj::finished() < n - 1) { mc_park("feeder"); if (obj::any_waiting()) { obj::invoke(obj::BARRIVE, 1, 0); (void)b.arrive(); obj::response(); } }
      return;
    }
    for (int k = 0; k < (int)mc_param(0); ++k) {
      uint64_t ms[10]; int c = 0; for (int i = 0; i < 9; ++i) if (mask >> i & 1) ms[c++] = 1ull << i;
      uint64_t m = ms[c > 1 ? mc_choose(c, "how to arrive") : 0];
      if (pk && mc_choose(2, "wait before?")) mc_park("before");
      switch (m) {
        case M_AW: obj::invoke(obj::BARRWAIT); b.arrive_and_wait(); obj::response(); break;
        case M_ARR: obj::invoke(obj::BARRIVE, 1, 0); (void)b.arrive(); obj::response(); break;
        case M_ARR_WAIT: { obj::invoke(obj::BARRIVE, 1, 0); tok t = b.arrive(); obj::response(); obj::invoke(obj::BWAIT, 1, 0); b.wait(std::move(t)); obj::response(); break; }
        case M_KEEP: obj::invoke(obj::BARRIVE, 1, 1); kt = b.arrive(); obj::response(); kept = true; break;
      }
      mc_outcome(k * 16 + m);
    }
    if (kept) { obj::invoke(obj::BWAIT, 1, 1); b.wait(std::move(kt)); obj::response(); }
    obj::done();
  }
  static void putf(const std::string& name, int expected, int rounds, std::initializer_list<uint64_t> masks, unsigned flags, uint64_t cf = 0) {
    put(name, rounds, masks, flags, cf); mc_program& p = out->back();
    p.body = body_free; p.nthreads++; p.param[8] = expected; p.param[11] = p.nthreads; p.param[14] = 1;
  }
  static void setup() {
    obj::init(obj::BARRIER, (int)mc_param(11), (int)mc_param(8), COMP ? 0 : obj::AUTOCOMP);
    D = new Data; memset((void*)D, 0, sizeof *D); D->n = (int)mc_param(11);
    auto b = new Box3<BAR>; memset((void*)b, 0, sizeof *b); b->p = new (b->raw) BAR(mc_param(8)); box() = b;
    if (mc_param(13)) near_wrap(b);
  }
  // Puts the barrier into the state it has after 2^32-4 phases: every 32-bit word that
  // counts phases is found by observing a second barrier and is advanced.  Nothing happens if no word counts phases.
  static void near_wrap(Box3<BAR>* b) {
    enum { K = 5, NW = sizeof(BAR) / 4 }; uint32_t snap[K][NW];
    obj::init(obj::BARRIER, 1, 1, obj::AUTOCOMP); int n = D->n; D->n = 0; muted = true;
    auto probe = new Box3<BAR>; memset((void*)probe, 0, sizeof *probe); probe->p = new (probe->raw) BAR(1);
    for (int k = 0; k < K; ++k) { mc_ghost_enter(); memcpy(snap[k], probe->raw, sizeof snap[k]); mc_ghost_leave(); if (k < K - 1) (void)probe->p->arrive(); }
    probe->p->~BAR(); delete probe; muted = false; D->n = n; D->gen = 0; obj::init(obj::BARRIER, (int)mc_param(11), (int)mc_param(8), COMP ? 0 : obj::AUTOCOMP);
    mc_ghost_enter();
    for (int w = 0; w < NW; ++w) {
      bool cnt = true; for (int k = 0; k < K; ++k) cnt = cnt && snap[k][w] == (uint32_t)k;
      uint32_t v; memcpy(&v, b->raw + 4 * w, 4);
      if (!cnt || v) continue;
      v = 0xfffffffcu; memcpy(b->raw + 4 * w, &v, 4); mc_cover("phase counter near its wrap-around");
    }
    mc_ghost_leave();
  }
  static void teardown() { box()->p->~BAR(); delete box(); delete D; }
  // bit i of wmask: thread i+1 arrives with weight 2
  static void put(const std::string& name, int phases, std::initializer_list<uint64_t> masks, unsigned flags, uint64_t cf = 0, int wmask = 0, int wrap = 0) {
    mc_program p; memset((void*)&p, 0, sizeof p);
    p.name = nm(name); p.nthreads = (int)masks.size(); p.flags = flags; p.setup = setup; p.teardown = teardown; p.body = body; p.on_quiescent = obj::on_quiescent; p.on_tick = obj::on_tick;
    p.param[0] = phases; int i = 1, total = 0; uint64_t ws = 0; for (uint64_t m : masks) { int w = wmask >> (i - 1) & 1 ? 2 : 1; ws |= (uint64_t)w << (4 * i); total += w; p.param[i++] = m; }
    p.param[5] = cf; p.param[8] = total; p.param[11] = p.nthreads; p.param[12] = ws; p.param[13] = wrap; out->push_back(p);
  }
};
#endif
#if defined G_BARRIER && defined CROWD
template <class BAR, bool COMP> struct CrowdBar : Bar<BAR, COMP> {
  typedef Bar<BAR, COMP> P;
  static void body(int tid) {
    BAR& b = *P::box()->p; uint64_t m = masks_[mc_param(1)][tid]; int phases = (int)mc_param(0), n = (int)mc_param(11); bool dropped = false;
    typedef typename BAR::arrival_token tok;
    for (int ph = 0; ph < phases; ++ph) {
      mc_await(my_turn, (void*)(uintptr_t)(ph * n + tid), "turn"); if (!(m & LOOSE)) mc_park("turn"); next();
      if (dropped) continue;
      uint64_t o = ph && (m & M_DROP) ? M_DROP : pick_of(m & ~(FREE | LOOSE | M_DROP)), w = o == M_SPLIT ? 2 : o == M_BULK ? 2 : 1;
      D->slot[0][0] = 0;
      switch (o) {
        case M_DROP: obj::invoke(obj::BDROP); b.arrive_and_drop(); obj::response(); dropped = true; break;
        case M_AW: obj::invoke(obj::BARRWAIT); b.arrive_and_wait(); obj::response(); break;
        default: { obj::invoke(obj::BARRIVE, (int)w, 0); tok t = w == 2 ? b.arrive(2) : b.arrive(); obj::response(); obj::invoke(obj::BWAIT, 1, 0); b.wait(std::move(t)); obj::response(); }
      }
      if (COMP && D->gen < ph + 1) mc_fail("completion", "a wait of phase %d returned but the completion ran %d times", ph, (int)D->gen);
    }
  }
  static void setup() { P::setup(); mc_ghost_enter(); tn()->turn = 1; mc_ghost_leave(); }
  static void put(const std::string& name, int phases, std::vector<uint64_t> masks, unsigned flags) {
    P::put(name, phases, {}, flags | MC_NORACE); mc_program& p = out->back(); p.nthreads = (int)masks.size(); p.body = body; p.setup = setup; p.param[14] = 1;
    int i = 1, c = 0; for (uint64_t m : masks) { masks_[nprog][i++] = m; c += (m & M_BULK) ? 2 : 1; } p.param[1] = nprog++; p.param[8] = c; p.param[11] = p.nthreads;
  }
};
static void all() {
  typedef CrowdBar<yamc::barrier<Cf>, true> C; typedef CrowdBar<yamc::barrier<>, false> N; const int K = thorough ? 10 : 8;
  const uint64_t AM = M_AW | M_ARR_WAIT;
  C::put("barrier.comp/crowd2", 2, rep(K, M_AW), 0);
  N::put("barrier.plain/crowd3", 3, rep(K, M_ARR_WAIT), 0);
  C::put("barrier.comp/crowdmix", 2, rep(K - 2, AM), 0);
  { auto m = rep(K, M_AW); m[1] = m[4] = M_BULK; m[2] = M_ARR_WAIT; N::put("barrier.plain/crowdbulk", 2, m, 0); }
  { auto m = rep(K, M_AW); m[1] = m[4] = m[K - 1] = M_AW | M_DROP; C::put("barrier.drop/crowd", 3, m, 0); }
  { auto m = rep(K, M_ARR_WAIT | M_DROP); m[0] = M_AW; N::put("barrier.drop/crowdall", 3, m, 0); }
  { auto m = rep(K, M_AW); m[1] = M_BULK; m[3] = m[K - 1] = M_AW | M_DROP; C::put("barrier.drop/crowdbulk", 3, m, 0); }
  C::put("barrier.comp/loose5", 2, rep(5, M_AW | LOOSE), 0);
  N::put("barrier.plain/loose5", 2, rep(5, AM | LOOSE), 0);
  { auto m = rep(5, M_AW | LOOSE); m[2] |= M_DROP; m[4] |= M_DROP; C::put("barrier.drop/loose5", 3, m, 0); }
}
#elif defined G_BARRIER
static void all() {
  typedef Bar<yamc::barrier<Cf>, true> C; typedef Bar<yamc::barrier<>, false> N;
  const uint64_t AM = M_AW | M_ARR_WAIT, DR = M_DROP;
  C::put("barrier.comp/any2x3", 3, {AM, AM}, MC_SPUR, F_PARK_BEFORE);
  C::put("barrier.comp/any3x2", 2, {AM, AM, AM}, MC_SPUR, F_PARK_BEFORE);
  C::put("barrier.comp/any3x3", 3, {AM, AM, M_AW}, 0, 0);
  C::put("barrier.comp/any4x2", 2, {M_AW, M_AW, AM, M_ARR_WAIT}, 0, 0);
  C::put("barrier.comp/weight2x3", 3, {AM, M_SPLIT | M_BULK | M_OLD}, MC_SPUR, F_PARK_BEFORE, 2);
  C::put("barrier.comp/weight3x2", 2, {AM, M_SPLIT | M_BULK | M_OLD, AM}, 0, F_PARK_BEFORE, 2);
  C::put("barrier.comp/weight22x3", 3, {M_SPLIT | M_BULK | M_OLD, M_SPLIT | M_OLD}, 0, 0, 3);
  C::put("barrier.comp/one", 5, {AM}, 0, 0);
  C::put("barrier.comp/long2", 300, {M_AW, M_AW}, 0, 0);
  N::put("barrier.plain/any2x4", 4, {AM, AM}, MC_SPUR, F_PARK_BEFORE);
  N::put("barrier.plain/any3x2", 2, {AM, AM, AM}, 0, F_PARK_BEFORE);
  N::put("barrier.plain/any4x2", 2, {M_AW, AM, M_AW, M_ARR_WAIT}, 0, 0);
  N::put("barrier.plain/weight2x3", 3, {AM, M_SPLIT | M_BULK | M_OLD}, 0, F_PARK_BEFORE, 2);
  C::put("barrier.drop/comp2x4", 4, {AM | DR, AM}, MC_SPUR, F_PARK_BEFORE);
  C::put("barrier.drop/comp3x3", 3, {AM | DR, AM | DR, M_AW}, 0, F_PARK_BEFORE);
  C::put("barrier.drop/all3x2", 2, {AM | DR, AM | DR, AM | DR}, MC_SPUR, 0);
  C::put("barrier.drop/weight2x3", 3, {AM | DR, M_SPLIT | M_BULK}, 0, F_PARK_BEFORE, 2);
  C::put("barrier.drop/four4x2", 2, {M_AW | DR, M_AW | DR, M_AW | DR, M_ARR_WAIT}, 0, 0);
  N::put("barrier.drop/plain3x3", 3, {AM | DR, AM | DR, AM}, 0, F_PARK_BEFORE);
  C::put("barrier.drop/one", 3, {AM | DR}, 0, F_PARK_BEFORE);
  C::put("barrier.comp/wrap2x6", 6, {AM, AM}, 0, 0, 0, 1);
  C::put("barrier.comp/wrap3x5", 5, {AM, M_AW, M_ARR_WAIT}, 0, 0, 0, 1);
  N::put("barrier.plain/wrap2x6", 6, {AM, AM}, MC_SPUR, 0, 0, 1);
  C::put("barrier.comp/wrapweight2x6", 6, {M_AW, M_SPLIT | M_BULK | M_OLD}, 0, 0, 2, 1);
  C::put("barrier.drop/wrap2x6", 6, {M_AW | DR, AM}, 0, 0, 0, 1);
  const uint64_t FR = M_AW | M_ARR | M_ARR_WAIT | M_KEEP;
  for (int e = 1; e <= 3; ++e) {
    std::string x = ".expect" + std::to_string(e);
    C::putf("barrier.comp/free2x3" + x, e, 3, {FR, FR}, e < 3 ? MC_SPUR : 0, F_PARK_BEFORE);
    C::putf("barrier.comp/free3x2" + x, e, 2, {FR, M_AW | M_ARR, M_ARR | M_KEEP}, 0, F_PARK_BEFORE);
    N::putf("barrier.plain/free2x3" + x, e, 3, {FR, FR}, 0, F_PARK_BEFORE);
    if (thorough) { C::putf("barrier.comp/free2x5" + x, e, 5, {FR, FR}, 0, F_PARK_BEFORE); C::putf("barrier.comp/free3x3" + x, e, 3, {FR, FR, FR}, MC_SPUR, 0); C::putf("barrier.comp/free4x2" + x, e, 2, {FR, M_AW, FR, M_ARR}, 0, 0); }
  }
  if (thorough) {
    C::put("barrier.comp/any3x4", 4, {AM, AM, AM}, MC_SPUR, F_PARK_BEFORE);
    C::put("barrier.comp/any4x3", 3, {AM, AM, AM, AM}, 0, F_PARK_BEFORE);
    C::put("barrier.comp/weight3x3", 3, {AM, M_SPLIT | M_BULK | M_OLD, AM}, MC_SPUR, F_PARK_BEFORE, 2);
    C::put("barrier.drop/all4x2", 2, {AM | DR, AM | DR, AM | DR, AM | DR}, 0, F_PARK_BEFORE);
    C::put("barrier.drop/all3x4", 4, {AM | DR, AM | DR, AM | DR}, MC_SPUR, F_PARK_BEFORE);
    C::put("barrier.comp/long3", 280, {M_AW, M_AW, M_AW}, 0, 0);
  }
}
#endif
extern "C" void mc_programs(std::vector<mc_program>& o, const char* tier) {
  std::cout.rdbuf(nullptr); thorough = !strcmp(tier, "thorough"); out = &o; all();
}
