// yamc::shared_lock.  "model/..." drives yamc::shared_lock and std::shared_lock side by side over two mock
// mutexes through every reachable state (no depth bound); every answer of a mutex is explored.
// "real/...": threads using shared_lock over a real shared mutex of the library.
#include "client.h"
#include <mutex>
#include <shared_mutex>
#include <system_error>
#include "yamc_shared_lock.hpp"
#include "alternate_shared_mutex.hpp"
using namespace std::chrono;
static bool thorough;

struct Call { int fn, id, arg, ans; };
enum Fn { LOCK_SHARED = 1, TRY_SHARED, FOR_SHARED, UNTIL_SHARED, UNLOCK_SHARED, LOCK, TRY, FOR, UNTIL, UNLOCK };
static const char* const fnname[] = {"-", "lock_shared", "try_lock_shared", "try_lock_shared_for", "try_lock_shared_until", "unlock_shared", "lock", "try_lock", "try_lock_for", "try_lock_until", "unlock"};
enum { OKAY, NO, THROW_SYS, THROW_INT };

struct World;
static World*& W() { static World* w; return w; }
struct Log { Call c[4]; int n; };
static Log* logS();  static Log* logY();
static bool& replaying();

// YAMC: the calls must be those recorded from the reference
template <bool YAMC> struct Mock {
  int id, held;
  int call(int fn, int arg, int answers) {
    Call c = {fn, id, arg, OKAY};
    if (YAMC) {
      Log* y = logY(); Log* s = logS();
      if (y->n >= s->n) mc_fail("extra-call", "mutex call %s(%d) on mutex %d that std::shared_lock does not make", fnname[fn], arg, id);
      Call& r = s->c[y->n++];
      if (r.fn != fn || r.id != id || r.arg != arg) mc_fail("wrong-call", "mutex call %s(%d) on mutex %d where std::shared_lock makes %s(%d) on mutex %d", fnname[fn], arg, id, fnname[r.fn], r.arg, r.id);
      c.ans = r.ans;
    } else {
      Log* s = logS();
      static const int a1[] = {OKAY, THROW_SYS, THROW_INT}, a2[] = {OKAY, NO, THROW_SYS, THROW_INT};
      c.ans = answers == 1 ? OKAY : answers == 3 ? a1[mc_choose(3, "answer of the mutex")] : a2[mc_choose(4, "answer of the mutex")];
      if (s->n >= 4) mc_fail("harness", "too many calls");
      s->c[s->n++] = c;
    }
    if (fn == UNLOCK_SHARED) { if (held <= 0) mc_fail("extra-unlock", "unlock_shared of a mutex that is not held"); --held; }
    else if (c.ans == OKAY) ++held;
    if (c.ans == THROW_SYS) throw std::system_error(std::make_error_code(std::errc::resource_unavailable_try_again));
    if (c.ans == THROW_INT) throw 42;
    return c.ans == OKAY;
  }
  void lock_shared() { call(LOCK_SHARED, 0, 3); }
  bool try_lock_shared() { return call(TRY_SHARED, 0, 4); }
  template <class R, class P> bool try_lock_shared_for(const duration<R, P>& d) { return call(FOR_SHARED, (int)duration_cast<nanoseconds>(d).count(), 4); }
  template <class C, class D> bool try_lock_shared_until(const time_point<C, D>& t) { return call(UNTIL_SHARED, (int)duration_cast<nanoseconds>(t.time_since_epoch()).count() * 2 + std::is_same<C, steady_clock>::value, 4); }
  void unlock_shared() { call(UNLOCK_SHARED, 0, 1); }
  void lock() { call(LOCK, 0, 3); }
  bool try_lock() { return call(TRY, 0, 4); }
  template <class R, class P> bool try_lock_for(const duration<R, P>&) { return call(FOR, 0, 4); }
  template <class C, class D> bool try_lock_until(const time_point<C, D>&) { return call(UNTIL, 0, 4); }
  void unlock() { call(UNLOCK, 0, 1); }
};
typedef Mock<false> MS; typedef Mock<true> MY;
typedef std::shared_lock<MS> SL; typedef yamc::shared_lock<MY> YL;
enum { NS = 3 };
struct World {
  MS ms[2]; MY my[2]; int orphan[2];
  bool present[NS];
  alignas(8) unsigned char s[NS][sizeof(SL)], y[NS][sizeof(YL)];
  Log ls, ly;
};
static Log* logS() { return &W()->ls; }
static Log* logY() { return &W()->ly; }

struct Result { int kind; int64_t v; };     // kind 0 value, 1 system_error, 2 int
template <class F> Result guard(F f) {
  Result r = {0, 0};
  try { r.v = f(); }
  catch (const std::system_error& e) { r.kind = 1; r.v = e.code() == std::errc::operation_not_permitted ? EPERM : e.code() == std::errc::resource_deadlock_would_occur ? EDEADLK : e.code() == std::errc::resource_unavailable_try_again ? EAGAIN : 9999; }
  catch (int i) { r.kind = 2; r.v = i; }
  return r;
}
enum Op { C_DEF, C_LOCK, C_DEFER, C_TRY, C_ADOPT, C_UNTIL, C_UNTIL2, C_FOR, C_MOVE, DESTROY, O_L, O_T, O_F, O_FN, O_U, O_U2, O_UN, O_REL, O_ASSIGN, O_SWAP, O_SSWAP, O_ASSIGNTMP, NOPS };
static const char* const opname[] = {"shared_lock()", "shared_lock(m)", "shared_lock(m,defer)", "shared_lock(m,try)", "shared_lock(m,adopt)", "shared_lock(m,steady time)", "shared_lock(m,system time)", "shared_lock(m,duration)",
  "move construction", "destruction", "lock", "try_lock", "try_lock_for", "try_lock_for(<0)", "try_lock_until(steady)", "try_lock_until(system)", "unlock", "release", "move assignment", "member swap", "std::swap", "move assignment of a temporary"};

template <class LK, class M> Result apply(int op, unsigned char (*raw)[sizeof(LK)], M* m, int i, int j, int mu) {
  LK* a = (LK*)raw[i]; LK* b = (LK*)raw[j];
  return guard([&]() -> int64_t {
    switch (op) {
      case C_DEF: new (a) LK(); return 0;
      case C_LOCK: new (a) LK(m[mu]); return 0;
      case C_DEFER: new (a) LK(m[mu], std::defer_lock); return 0;
      case C_TRY: new (a) LK(m[mu], std::try_to_lock); return 0;
      case C_ADOPT: new (a) LK(m[mu], std::adopt_lock); return 0;
      case C_UNTIL: new (a) LK(m[mu], steady_clock::time_point(nanoseconds(77))); return 0;
      case C_UNTIL2: new (a) LK(m[mu], system_clock::time_point(nanoseconds(78))); return 0;
      case C_FOR: new (a) LK(m[mu], microseconds(3)); return 0;
      case C_MOVE: new (a) LK(std::move(*b)); return 0;
      case DESTROY: a->~LK(); return 0;
      case O_L: a->lock(); return 0;
      case O_T: return a->try_lock();
      case O_F: return a->try_lock_for(milliseconds(2));
      case O_FN: return a->try_lock_for(nanoseconds(-5));
      case O_U: return a->try_lock_until(steady_clock::time_point(nanoseconds(91)));
      case O_U2: return a->try_lock_until(system_clock::time_point(nanoseconds(92)));
      case O_UN: a->unlock(); return 0;
      case O_REL: { M* p = a->release(); return p ? 1 + (p - m) : 0; }
      case O_ASSIGN: return &(*a = std::move(*b)) == a;
      case O_ASSIGNTMP: *a = LK(m[mu], std::defer_lock); return 0;
      case O_SWAP: a->swap(*b); return 0;
      case O_SSWAP: std::swap(*a, *b); return 0;
    }
    return 0;
  });
}
static void compare(int op) {
  World* w = W();
  for (int i = 0; i < NS; ++i) if (w->present[i]) {
    SL* s = (SL*)w->s[i]; YL* y = (YL*)w->y[i];
    int sm = s->mutex() ? 1 + (int)(s->mutex() - w->ms) : 0, ym = y->mutex() ? 1 + (int)(y->mutex() - w->my) : 0;
    if (sm != ym) mc_fail("wrong-state", "after %s mutex() of object %d says %d, std::shared_lock %d (0: none)", opname[op], i, ym, sm);
    if (s->owns_lock() != y->owns_lock() || (bool)*s != (bool)*y) mc_fail("wrong-state", "after %s owns_lock() of object %d differs from std::shared_lock", opname[op], i);
  }
  for (int m = 0; m < 2; ++m) if (w->ms[m].held != w->my[m].held) mc_fail("wrong-state", "after %s mutex %d is held %d times instead of %d", opname[op], m, w->my[m].held, w->ms[m].held);
}
static void model_setup() {
  World* w = W() = new World; memset((void*)w, 0, sizeof *w);
  for (int m = 0; m < 2; ++m) w->ms[m].id = w->my[m].id = m;
  struct { const char* n; bool s, y, exact; } tr[] = {
    {"nothrow default construction", std::is_nothrow_default_constructible<SL>::value, std::is_nothrow_default_constructible<YL>::value, false},
    {"nothrow move construction", std::is_nothrow_move_constructible<SL>::value, std::is_nothrow_move_constructible<YL>::value, false},
    {"nothrow move assignment", std::is_nothrow_move_assignable<SL>::value, std::is_nothrow_move_assignable<YL>::value, false},
    {"nothrow defer construction", std::is_nothrow_constructible<SL, MS&, std::defer_lock_t>::value, std::is_nothrow_constructible<YL, MY&, std::defer_lock_t>::value, false},
    {"copy construction", std::is_copy_constructible<SL>::value, std::is_copy_constructible<YL>::value, true},
    {"copy assignment", std::is_copy_assignable<SL>::value, std::is_copy_assignable<YL>::value, true},
    {"implicit bool", std::is_convertible<SL, bool>::value, std::is_convertible<YL, bool>::value, true},
    {"implicit construction from a mutex", std::is_convertible<MS&, SL>::value, std::is_convertible<MY&, YL>::value, true},
  };
  for (auto& t : tr) if (t.exact ? t.s != t.y : t.s && !t.y) mc_fail("wrong-state", "%s differs from std::shared_lock", t.n);
}
static bool model_step(int ns, bool stop_ok) {      // false: stopped
  World* w = W();
  int i = mc_choose(ns + (stop_ok ? 1 : 0), "object"); if (i == ns) return false;
  static const int absent[] = {C_DEF, C_LOCK, C_DEFER, C_TRY, C_ADOPT, C_UNTIL, C_UNTIL2, C_FOR, C_MOVE},
                   there[] = {DESTROY, O_L, O_T, O_F, O_FN, O_U, O_U2, O_UN, O_REL, O_ASSIGN, O_ASSIGNTMP, O_SWAP, O_SSWAP};
  int op = w->present[i] ? there[mc_choose(13, "operation")] : absent[mc_choose(9, "constructor")], j = i, mu = 0;
  if (op == C_MOVE || op == O_ASSIGN || op == O_SWAP || op == O_SSWAP) {
    j = mc_choose(ns, "other object"); if (!w->present[j] || (j == i && op != O_SWAP)) return true;
  }
  if ((op >= C_LOCK && op <= C_FOR) || op == O_ASSIGNTMP) mu = mc_choose(2, "mutex");
  if (op == C_ADOPT && !w->orphan[mu]) return true;         // adopting needs a lock held
  SL* s = (SL*)w->s[i];
  if (op == O_REL && w->present[i] && s->owns_lock() && w->orphan[0] + w->orphan[1] >= 2) return true;
  int relm = op == O_REL && s->owns_lock() ? (int)(s->mutex() - w->ms) : -1;
  w->ls.n = w->ly.n = 0;
  Result r = apply<SL, MS>(op, w->s, w->ms, i, j, mu);
  Result q = apply<YL, MY>(op, w->y, w->my, i, j, mu);
  if (r.kind != q.kind) mc_fail("wrong-error", "%s: %s instead of %s", opname[op], q.kind ? q.kind == 1 ? "system_error" : "the mutex's exception" : "no exception", r.kind ? r.kind == 1 ? "system_error" : "the mutex's exception" : "no exception");
  if (r.v != q.v) mc_fail(r.kind ? "wrong-error" : "wrong-result", "%s: %s %d instead of %d", opname[op], r.kind ? "error" : "result", (int)q.v, (int)r.v);
  if (w->ly.n != w->ls.n) mc_fail("missing-call", "%s: %d mutex calls instead of %d (missing: %s on mutex %d)", opname[op], w->ly.n, w->ls.n, fnname[w->ls.c[w->ly.n].fn], w->ls.c[w->ly.n].id);
  if (op <= C_MOVE && r.kind == 0) w->present[i] = true;
  if (op == DESTROY) { w->present[i] = false; memset((void*)w->s[i], 0, sizeof w->s[i]); memset((void*)w->y[i], 0, sizeof w->y[i]); }
  if (op == C_ADOPT) --w->orphan[mu];
  if (relm >= 0) ++w->orphan[relm];
  compare(op); mc_recycle();
  w->ls.n = w->ly.n = 0; memset((void*)&w->ls, 0, sizeof w->ls);
  return true;
}
static void model_body(int) { while (model_step((int)mc_param(0), true)); mc_cover("stopped"); }
// assignment to itself: contradictory postconditions in C++14; the lock may be kept or given up, but the object must be consistent
static void self_body(int) {
  World* w = W(); int ctor = mc_choose(4, "constructor"), a = 0; 
  w->ls.n = w->ly.n = 0; static const int c[] = {C_DEF, C_LOCK, C_DEFER, C_TRY};
  Result r = apply<SL, MS>(c[ctor], w->s, w->ms, 0, 0, 0), q = apply<YL, MY>(c[ctor], w->y, w->my, 0, 0, 0);
  if (r.kind || q.kind) return;
  YL* y = (YL*)w->y[0]; w->ls.n = 4; w->ly.n = 0; for (auto& x : w->ls.c) x = Call{UNLOCK_SHARED, 0, 0, OKAY};
  YL& ref = *y; *y = std::move(ref);
  a = w->my[0].held; if (y->owns_lock() != (a == 1) || (y->owns_lock() && y->mutex() != &w->my[0])) mc_fail("wrong-state", "self move assignment: owns_lock() %d, mutex held %d times", y->owns_lock(), a);
  w->ly.n = 0; y->~YL();
  if (w->my[0].held) mc_fail("missing-call", "self move assignment: the lock is never released");
}
static void model_teardown() { delete W(); }

// ---- real mutex ----
typedef yamc::alternate::shared_timed_mutex RM;
struct Real { RM m; int64_t data, data2; };
static Real*& R() { static Real* r; return r; }
static void real_setup() { R() = new Real(); R()->data = R()->data2 = 0; }
static void check() { if (R()->data != R()->data2) mc_fail("visibility", "a reader under shared_lock sees a half-finished update"); }
static void reader(bool more) {
  typedef yamc::shared_lock<RM> K; Real* r = R();
  K k, k2;
  switch (mc_choose(7, "acquire")) {
    case 0: k = K(r->m); break;
    case 1: k = K(r->m, std::defer_lock); k.lock(); break;
    case 2: k = K(r->m, std::try_to_lock); break;
    case 3: k = K(r->m, steady_clock::now() + nanoseconds(10)); break;
    case 4: k = K(r->m, nanoseconds(10)); break;
    case 5: r->m.lock_shared(); k = K(r->m, std::adopt_lock); break;
    case 6: k = K(r->m, std::defer_lock); if (!k.try_lock_for(nanoseconds(10))) if (!k.try_lock()) k.try_lock_until(system_clock::now() + nanoseconds(10)); break;
  }
  if (!k) return;
  check();
  switch (mc_choose(more ? 5 : 4, "pass on")) {
    case 0: break;
    case 1: k2 = std::move(k); check(); break;
    case 2: k2.swap(k); check(); k2.unlock(); break;
    case 3: { RM* p = k.release(); check(); p->unlock_shared(); } break;
    case 4: k.unlock(); k.lock(); check(); std::swap(k, k2); break;
  }
}
static void real_body(int tid) {
  Real* r = R();
  for (int k = 0; k < (int)mc_param(0); ++k) {
    if (mc_param(tid) == 1) reader(mc_param(0) == 1);
    else { r->m.lock(); r->data++; r->data2++; r->m.unlock(); }
  }
}
static void real_teardown() { if (!R()->m.try_lock()) mc_fail("left-locked", "the mutex is still locked in the end"); R()->m.unlock(); delete R(); }

extern "C" void mc_programs(std::vector<mc_program>& o, const char* tier) {
  std::cout.rdbuf(nullptr); thorough = !strcmp(tier, "thorough");
  auto put = [&](const char* name, int n, unsigned flags, void (*s)(), void (*b)(int), void (*t)(), std::initializer_list<uint64_t> par) {
    mc_program p; memset((void*)&p, 0, sizeof p); p.name = name; p.nthreads = n; p.flags = flags; p.setup = s; p.body = b; p.teardown = t;
    int i = 0; for (uint64_t v : par) p.param[i++] = v; o.push_back(p); };
  put("model/objects1", 1, MC_NORACE, model_setup, model_body, model_teardown, {1});
  put("model/objects2", 1, MC_NORACE, model_setup, model_body, model_teardown, {2});
  if (thorough) put("model/objects3", 1, MC_NORACE, model_setup, model_body, model_teardown, {3});
  put("model/self", 1, 0, model_setup, self_body, model_teardown, {1});
  put("real/rw2", 2, MC_TICK, real_setup, real_body, real_teardown, {1, 1, 2});
  put("real/rw2x2", 2, MC_TICK, real_setup, real_body, real_teardown, {2, 1, 2});
  put("real/rw3", 3, MC_TICK, real_setup, real_body, real_teardown, {1, 1, 2, 1});
}
