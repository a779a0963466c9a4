// compiled without instrumentation
#include "own.h"
#include <stdio.h>
namespace own {
typedef uint8_t u8; typedef uint64_t u64;
enum St { IDLE = 0, INV, QUEUED, GRANTED, DFALSE, RELD, RMIS, RPERM, RDL };
enum { NT = 4, NM = 3, MAXCFG = 2000 };
// configuration: 2 bits per (mutex, thread) ownership, then 4 bits per thread status
struct T { u8 op, mode, m, clk, rel; u8 actual[NM]; u8 depth[NM]; u8 past, pad[4]; int64_t deadline; };
struct Mon { u8 nm, nt, inited, flags; int ncfg; Kind k[NM]; u8 pad[2]; T t[NT]; u64 c[MAXCFG]; };
static_assert(sizeof(Mon) <= 0x10000, "layout");
static Mon& M() { return *(Mon*)mc_ghost(); }
static void len() { mc_ghost_len(offsetof(Mon, c) + sizeof(u64) * M().ncfg); }
static int hold(u64 c, int m, int i) { return (int)(c >> (m * NT + i) * 2 & 3); }
static u64 sethold(u64 c, int m, int i, int v) { int s = (m * NT + i) * 2; return (c & ~(3ull << s)) | (u64)v << s; }
static int st(u64 c, int i) { return (int)(c >> (24 + 4 * i) & 15); }
static u64 setst(u64 c, int i, int v) { int s = 24 + 4 * i; return (c & ~(15ull << s)) | (u64)v << s; }
static const char* opn(const T& t) { static const char* n[] = {"none", "lock", "try_lock", "timed lock", "unlock", "none", "lock_shared", "try_lock_shared", "timed lock_shared", "unlock_shared"}; return n[t.op + (t.mode == S ? 5 : 0)]; }

static bool add(u64* s, int& n, u64 c) {
  int lo = 0, hi = n;
  while (lo < hi) { int m = (lo + hi) / 2; if (s[m] == c) return false; if (s[m] < c) lo = m + 1; else hi = m; }
  if (n == MAXCFG) mc_fail("monitor-overflow", "too many monitor configurations");
  memmove(s + lo + 1, s + lo, 8 * (n - lo)); s[lo] = c; ++n; return true;
}
static bool writer_waits(const Mon& m, u64 c, int mx, bool untimed) {
  for (int i = 0; i < m.nt; ++i) if (st(c, i) == QUEUED && m.t[i].m == mx && m.t[i].mode == X && (!untimed || m.t[i].op == LOCK)) return true;
  return false;
}
static bool avail(const Mon& m, u64 c, int mx, int mode) {
  for (int i = 0; i < m.nt; ++i) { int h = hold(c, mx, i); if (h == X || (h && mode == X)) return false; }
  return !(mode == S && m.k[mx].writerpref && writer_waits(m, c, mx, false));
}
// does i wait for j?  must: for ever, if j never moves
static bool edge(const Mon& m, u64 c, int i, int j, bool must) {
  const T& t = m.t[i];
  if (i == j || st(c, i) != QUEUED || t.op != LOCK) return false;
  int h = hold(c, t.m, j);
  if (!h) return false;
  if (t.mode == X || h == X) return true;
  return m.k[t.m].writerpref && writer_waits(m, c, t.m, must);
}
static bool cycle(const Mon& m, u64 c, int i, bool must) {
  unsigned seen = 0, todo = 1u << i;
  while (todo) {
    int a = __builtin_ctz(todo); todo &= todo - 1; 
    for (int b = 0; b < m.nt; ++b) if (edge(m, c, a, b, must)) { if (b == i) return true; if (!(seen >> b & 1)) { seen |= 1u << b; todo |= 1u << b; } }
  }
  return false;
}
static bool anycycle(const Mon& m, u64 c) { for (int i = 0; i < m.nt; ++i) if (cycle(m, c, i, true)) return true; return false; }
static bool past(const Mon& m, int i) { return m.t[i].past || mc_clock_now(m.t[i].clk) >= m.t[i].deadline; }   // past: also if the clock was set back since
static void note_past(Mon& m) { for (int i = 0; i < NT; ++i) if (m.t[i].op == TIMED && past(m, i)) m.t[i].past = 1; }
static void close_() {
  note_past(M());
  Mon& m = M(); int n = m.ncfg;
  u64* work = (u64*)((u8*)mc_ghost() + 0x10000); int wn = 0;
  for (int k = 0; k < n; ++k) work[wn++] = m.c[k];
  auto put = [&](u64 c) { if (add(m.c, n, c)) work[wn++] = c; };
  while (wn) {
    u64 c = work[--wn];
    for (int i = 0; i < m.nt; ++i) {
      const T& t = m.t[i];
      if (st(c, i) == INV) {
        int own = hold(c, t.m, i);
        if (t.op == REL) {
          if (own != t.mode) put(setst(c, i, RPERM));
          else put(setst(t.depth[t.m] > 1 ? c : sethold(c, t.m, i, 0), i, RELD));
        } else if (own) put(setst(c, i, m.k[t.m].rec ? GRANTED : RMIS));
        else if (avail(m, c, t.m, t.mode)) put(setst(sethold(c, t.m, i, t.mode), i, GRANTED));
        else put(setst(c, i, t.op == TRY ? DFALSE : QUEUED));
      } else if (st(c, i) == QUEUED) {
        if (avail(m, c, t.m, t.mode)) put(setst(sethold(c, t.m, i, t.mode), i, GRANTED));
        else if (t.op == TIMED) { if (past(m, i)) put(setst(c, i, DFALSE)); }
        else if ((m.flags & DETECT) && cycle(m, c, i, false)) put(setst(c, i, RDL));
      }
    }
  }
  m.ncfg = n; len();
}
template <class F> static void filter(F f) {
  Mon& m = M(); int k = 0; u64* out = (u64*)((u8*)mc_ghost() + 0x20000);
  for (int i = 0; i < m.ncfg; ++i) { u64 c = m.c[i]; if (f(c)) add(out, k, c); }
  memset(m.c, 0, 8 * m.ncfg); memcpy(m.c, out, 8 * k); m.ncfg = k; len();
}
void init(int nm, const Kind* k, int nt, unsigned flags) {
  Mon& m = M(); memset((void*)&m, 0, sizeof m); m.nm = (u8)nm; m.nt = (u8)nt; m.inited = 1; m.flags = (u8)flags; m.ncfg = 1; for (int i = 0; i < nm; ++i) m.k[i] = k[i]; len();
}
static void do_invoke(int tid, uint64_t a, uint64_t b) {
  Mon& m = M(); int i = tid - 1; T& t = m.t[i];
  t.op = a & 255; t.mode = (a >> 8) & 255; t.clk = (a >> 16) & 255; t.rel = (a >> 24) & 1; t.m = (a >> 32) & 255;
  t.past = 0; t.deadline = t.op == TIMED ? (t.rel ? mc_clock_now(t.clk) + (int64_t)b : (int64_t)b) : 0;
  filter([&](u64& c) { c = setst(c, i, INV); return true; });
  close_();
}
void invoke(Op op, int m, Mode mode, int64_t deadline, int clk, bool relative) {
  static const char* n[] = {"", "lock", "try_lock", "timed lock", "unlock"};
  mc_trace("      call %s%s on mutex %d", n[op], mode == S ? " (shared)" : "", m);
  mc_defer(do_invoke, (uint64_t)op | (uint64_t)mode << 8 | (uint64_t)(clk & 255) << 16 | (uint64_t)relative << 24 | (uint64_t)m << 32, (uint64_t)deadline);
}
void response(Res r) {
  static const char* rn[] = {"ok", "false", "resource_deadlock_would_occur", "operation_not_permitted"};
  mc_defer_flush();
  Mon& m = M(); int tid = mc_tid(), i = tid - 1; T& t = m.t[i]; int mx = t.m; bool mine = t.actual[mx] != 0;
  mc_trace("      return from %s on mutex %d: %s", opn(t), mx, rn[r]);
  if (r == OKAY && t.op != REL && !mine)
    for (int j = 0; j < m.nt; ++j) if (j != i && m.t[j].actual[mx] && (m.t[j].actual[mx] == X || t.mode == X)) mc_fail("exclusion", "thread %d acquired mutex %d by %s while thread %d owns it", tid, mx, opn(t), j + 1);
  if (r == NO) mc_mark(MC_MARK_FAILED);
  if (r == DEADLK || r == PERM) mc_mark(MC_MARK_REPORT);
  bool mis = t.op == REL ? t.actual[mx] != t.mode : mine && !m.k[mx].rec;
  if (mis && r != (t.op == REL ? PERM : DEADLK)) mc_fail("missed-misuse", "%s of thread %d on mutex %d is misuse, but the result is %s", opn(t), tid, mx, rn[r]);
  if (!mis && r == PERM) mc_fail("false-misuse", "correct %s of thread %d on mutex %d reports operation_not_permitted", opn(t), tid, mx);
  if (!mis && r == DEADLK && t.op != LOCK) mc_fail("false-misuse", "correct %s of thread %d on mutex %d reports resource_deadlock_would_occur", opn(t), tid, mx);
  filter([&](u64& c) {
    int s = st(c, i); c = setst(c, i, IDLE);
    return r == OKAY ? s == GRANTED || s == RELD : r == NO ? s == DFALSE : r == PERM ? s == RPERM : s == RMIS || s == RDL; });
  if (m.ncfg == 0) {
    if (r == DEADLK && (m.flags & DETECT)) mc_fail("false-deadlock", "%s of thread %d on mutex %d reports a deadlock although no cycle of waiting threads existed during the call", opn(t), tid, mx);
    if (r == DEADLK) mc_fail("false-deadlock", "%s of thread %d on mutex %d reports a deadlock although detection is off", opn(t), tid, mx);
    if (mine && r == NO) mc_fail("recursive-false", "the owner thread %d failed to acquire mutex %d again", tid, mx);
    if (t.op == TRY && r == NO) mc_fail("try-false", "%s of thread %d on mutex %d failed although it was available throughout the call", opn(t), tid, mx);
    if (t.op == TRY) mc_fail("try-true", "%s of thread %d on mutex %d succeeded although it was unavailable throughout the call", opn(t), tid, mx);
    if (t.op == TIMED && r == NO) mc_fail(mc_clock_now(t.clk) < t.deadline ? "early-timeout" : "timeout-false", "%s of thread %d on mutex %d failed", opn(t), tid, mx);
    mc_fail("order", "%s of thread %d on mutex %d returned %s in an impossible state", opn(t), tid, mx, rn[r]);
  }
  if (r == OKAY) {
    if (t.op == REL) { if (--t.depth[mx] == 0) t.actual[mx] = 0; }
    else { t.actual[mx] = mine ? t.actual[mx] : t.mode; t.depth[mx]++; }
  }
  t.op = t.mode = t.m = t.clk = t.rel = t.past = 0; t.deadline = 0;
  close_();
}
int actual(int tid, int m) { return M().t[tid - 1].actual[m]; }
int depth(int tid, int m) { return M().t[tid - 1].depth[m]; }
bool owned(int mx) { Mon& m = M(); for (int i = 0; i < m.nt; ++i) if (m.t[i].actual[mx]) return true; return false; }
bool abort_ok(int tid) {
  mc_defer_flush(); Mon& m = M();
  for (int k = 0; k < m.ncfg; ++k) { int s = st(m.c[k], tid - 1); if (s == RMIS || s == RPERM || s == RDL) return true; }
  return false;
}
bool hung() { Mon& m = M(); for (int k = 0; k < m.ncfg; ++k) if (!anycycle(m, m.c[k])) return false; return true; }
void forget(int mx) {
  Mon& m = M();
  for (int i = 0; i < m.nt; ++i) m.t[i].actual[mx] = m.t[i].depth[mx] = 0;
  filter([&](u64& c) { for (int i = 0; i < m.nt; ++i) c = sethold(c, mx, i, 0); return true; });
  close_();
}
void on_tick() { if (M().inited) close_(); }
void on_quiescent() {
  Mon& m = M(); if (!m.inited) return;
  for (int i = 0; i < m.nt; ++i) {
    const T& t = m.t[i];
    if (t.op == TRY) mc_fail("try-blocks", "%s of thread %d blocks", opn(t), i + 1);
    if (t.op == REL) mc_fail("unlock-blocks", "%s of thread %d blocks", opn(t), i + 1);
    if (t.op && t.actual[t.m] && m.k[t.m].rec) mc_fail("recursive-blocks", "recursive %s of owner thread %d blocks", opn(t), i + 1);
    if (t.op && t.actual[t.m]) mc_fail("missed-misuse", "%s of thread %d on mutex %d is misuse, but the call blocks", opn(t), i + 1, t.m);
    if (t.op == TIMED && (m.flags & MUST)) mc_fail("timed-blocks", "%s of thread %d never returns although time passes", opn(t), i + 1);
  }
  bool waiting = false;
  filter([&](u64& c) {
    for (int i = 0; i < m.nt; ++i) { if (!m.t[i].op) continue; if (st(c, i) != QUEUED || avail(m, c, m.t[i].m, m.t[i].mode)) return false; }
    waiting = true;
    return !(m.flags & DETECT) || !anycycle(m, c); });
  if (m.ncfg == 0) {
    char b[200]; int o = 0; b[0] = 0;
    for (int i = 0; i < m.nt; ++i) if (m.t[i].op) o += snprintf(b + o, sizeof b - o, " T%d in %s of mutex %d;", i + 1, opn(m.t[i]), m.t[i].m);
    if (waiting) mc_fail("missed-deadlock", "threads wait for each other in a cycle, but nothing was reported:%s", b);
    mc_fail("stuck-waiter", "a waiting thread stays blocked although the mutex must be granted to it:%s", b);
  }
  close_();
}
}
