// compiled without instrumentation
#include "spec.h"
#include <time.h>
#include <stdio.h>
namespace spec {
typedef uint8_t u8;
enum St : u8 { IDLE = 0, INV = 1, QUEUED = 2, GRANTED = 3, DFALSE = 4, RELD = 5 };
#ifndef WIDE
#define WIDE 5
#endif
enum { NT = WIDE, MAXCFG = NT > 5 ? 1500 : 2000 };
struct Cfg { u8 st[NT]; u8 hold[NT]; u8 qn; u8 q[NT]; };          // 16 bytes; index = tid-1
struct T { u8 op, mode, actual, clk, rel, past, pad[2]; int64_t deadline; };
struct Mon { u8 policy, n; uint16_t ncfg; uint16_t inited, flags; T t[NT]; Cfg c[MAXCFG]; };
static_assert(sizeof(Cfg) == 3 * NT + 1 && sizeof(Mon) <= 0x10000, "monitor layout");
static Mon& M() { return *(Mon*)mc_ghost(); }
static void len() { mc_ghost_len(offsetof(Mon, c) + sizeof(Cfg) * M().ncfg); }
static const char* opname[] = {"none", "lock", "try", "timed", "unlock", "recursive lock", "recursive unlock"};

static int ccmp(const Cfg& a, const Cfg& b) { return memcmp(&a, &b, sizeof(Cfg)); }
// sorted insertion; returns true when new
static bool add(Cfg* s, int& n, const Cfg& c) {
  int lo = 0, hi = n;
  while (lo < hi) { int m = (lo + hi) / 2; int r = ccmp(s[m], c); if (r == 0) return false; if (r < 0) lo = m + 1; else hi = m; }
  if (n == MAXCFG) mc_fail("monitor-overflow", "too many monitor configurations");
  memmove(s + lo + 1, s + lo, sizeof(Cfg) * (n - lo)); s[lo] = c; ++n; return true;
}
static bool anyX(const Cfg& c, int n) { for (int i = 0; i < n; ++i) if (c.hold[i] == X) return true; return false; }
static bool any(const Cfg& c, int n) { for (int i = 0; i < n; ++i) if (c.hold[i]) return true; return false; }
static bool avail(const Mon& m, const Cfg& c, u8 mode) {
  bool compat = mode == X ? !any(c, m.n) : !anyX(c, m.n);
  if (!compat) return false;
  if (m.policy >= FIFO) return c.qn == 0;
  if (m.policy == WRITERPREF && mode == S) return c.qn == 0;     // only exclusive requests are queued there
  return true;
}
static void qdel(Cfg& c, int i) { for (int k = 0; k < c.qn; ++k) if (c.q[k] == i + 1) { for (int j = k; j + 1 < c.qn; ++j) c.q[j] = c.q[j + 1]; c.q[--c.qn] = 0; return; } }
static void grant(const Mon& m, Cfg& c, int i) { c.st[i] = GRANTED; c.hold[i] = m.t[i].mode; qdel(c, i); }
static void eager(const Mon& m, Cfg& c, bool relX) {
  if (m.policy < FIFO) return;
  if (m.policy == PHASEFAIR && relX && c.qn && m.t[c.q[0] - 1].mode == S) {
    for (int k = 0; k < c.qn;) { int i = c.q[k] - 1; if (m.t[i].mode == S) grant(m, c, i); else ++k; }
    return;
  }
  while (c.qn) {
    int i = c.q[0] - 1; u8 md = m.t[i].mode;
    if (md == X) { if (!any(c, m.n)) grant(m, c, i); return; }
    if (anyX(c, m.n)) return;
    grant(m, c, i);
  }
}
static int64_t dl(const Mon& m, int i) { return m.t[i].deadline; }
static bool past(const Mon& m, int i) { return m.t[i].past || mc_clock_now(m.t[i].clk) >= dl(m, i); }   // past: also if the clock was set back since
static void note_past(Mon& m) { for (int i = 0; i < m.n; ++i) if (m.t[i].op == TIMED && past(m, i)) m.t[i].past = 1; }

// all configurations reachable by internal steps
static void close_() {
  note_past(M());
  Mon& m = M(); int n = m.ncfg;
  Cfg* work = (Cfg*)((u8*)mc_ghost() + 0x10000); int wn = 0;      // scratch: not part of the state
  for (int k = 0; k < n; ++k) work[wn++] = m.c[k];
  auto put = [&](const Cfg& c) { if (add(m.c, n, c)) { work[wn++] = c; } };
  while (wn) {
    Cfg c = work[--wn];
    for (int i = 0; i < m.n; ++i) {
      const T& t = m.t[i];
      if (c.st[i] == INV) switch (t.op) {
        case LOCK: case TIMED:
          if (avail(m, c, t.mode)) { Cfg d = c; grant(m, d, i); put(d); }
          else {
            bool q = m.policy >= FIFO || (m.policy == WRITERPREF && t.mode == X);
            if (q) { Cfg d = c; d.st[i] = QUEUED; d.q[d.qn++] = i + 1; put(d); }
            if (t.op == TIMED && past(m, i)) { Cfg d = c; d.st[i] = DFALSE; put(d); }
          }
          break;
        case TRY:
          if (avail(m, c, t.mode)) { Cfg d = c; grant(m, d, i); put(d); }
          if (!avail(m, c, t.mode) || (m.flags & LAXTRY)) { Cfg d = c; d.st[i] = DFALSE; put(d); }
          break;
        case REL: { Cfg d = c; d.st[i] = RELD; u8 h = d.hold[i]; d.hold[i] = 0; eager(m, d, h == X); put(d); break; }
        case RECACQ: case RECREL: { Cfg d = c; d.st[i] = t.op == RECACQ ? GRANTED : RELD; put(d); break; }
      } else if (c.st[i] == QUEUED) {
        if (m.policy < FIFO && avail(m, c, t.mode)) { Cfg d = c; grant(m, d, i); put(d); }
        if (t.op == TIMED && past(m, i) && !(m.policy < FIFO && avail(m, c, t.mode))) { Cfg d = c; d.st[i] = DFALSE; qdel(d, i); eager(m, d, false); put(d); }
      }
    }
  }
  m.ncfg = n; len();
}
template <class F> static void filter(F f) {
  Mon& m = M(); int k = 0;
  Cfg* out = (Cfg*)((u8*)mc_ghost() + 0x20000);
  for (int i = 0; i < m.ncfg; ++i) { Cfg c = m.c[i]; if (f(c)) add(out, k, c); }
  memset(m.c, 0, sizeof(Cfg) * m.ncfg);
  memcpy(m.c, out, sizeof(Cfg) * k); m.ncfg = k; len();
}
void init(int policy, int nthreads, unsigned flags) { Mon& m = M(); memset(&m, 0, sizeof m); m.policy = policy; m.n = nthreads; m.inited = 1; m.ncfg = 1; m.flags = (uint16_t)flags; len(); }

static void do_invoke(int tid, uint64_t a, uint64_t b) {
  Mon& m = M(); int i = tid - 1; T& t = m.t[i];
  t.op = a & 255; t.mode = (a >> 8) & 255; t.clk = (a >> 16) & 255; t.rel = (a >> 24) & 1;
  t.past = 0; t.deadline = t.op == TIMED ? (t.rel ? mc_clock_now(t.clk) + (int64_t)b : (int64_t)b) : 0;
  if (t.op == REL) t.actual = 0;
  filter([&](Cfg& c) { c.st[i] = INV; return true; });
  close_();
}
void invoke(OpKind op, Mode md, int64_t deadline, int clk, bool relative) {
  mc_trace("      call %s%s", opname[op], md == S ? " (shared)" : "");
  mc_defer(do_invoke, (uint64_t)op | (uint64_t)md << 8 | (uint64_t)(clk & 255) << 16 | (uint64_t)relative << 24, (uint64_t)deadline);
}
void response(bool ok) {
  mc_defer_flush();
  Mon& m = M(); int tid = mc_tid(), i = tid - 1; T& t = m.t[i];
  mc_trace("      return from %s%s: %s", opname[t.op], t.mode == S ? " (shared)" : "", ok ? "ok" : "false");
  u8 op = t.op, mode = t.mode;
  if (!ok) mc_mark(MC_MARK_FAILED);
  if (ok && (op == LOCK || op == TRY || op == TIMED))
    for (int j = 0; j < m.n; ++j) if (j != i && m.t[j].actual && (m.t[j].actual == X || mode == X))
      mc_fail("exclusion", "thread %d acquired %s ownership by %s while thread %d owns it %s", tid, mode == X ? "exclusive" : "shared", opname[op], j + 1, m.t[j].actual == X ? "exclusively" : "shared");
  filter([&](Cfg& c) {
    bool good = (op == REL || op == RECREL) ? c.st[i] == RELD : ok ? c.st[i] == GRANTED : c.st[i] == DFALSE;
    c.st[i] = IDLE; return good; });
  if (m.ncfg == 0) {
    if (op == TRY && !ok) mc_fail("try-false", "try_lock%s of thread %d returned false although the lock was available throughout the call", mode == S ? "_shared" : "", tid);
    if (op == TRY) mc_fail("try-true", "try_lock%s of thread %d succeeded although the lock was unavailable throughout the call", mode == S ? "_shared" : "", tid);
    if (op == RECACQ) mc_fail("recursive-false", "the owner thread %d failed to acquire recursively", tid);
    if (op == TIMED && !ok) {
      if (mc_clock_now(t.clk) < t.deadline) mc_fail("early-timeout", "timed acquisition of thread %d failed %lld ns before its deadline", tid, (long long)(t.deadline - mc_clock_now(t.clk)));
      mc_fail("timeout-false", "timed acquisition of thread %d returned false although the lock could be granted to it", tid);
    }
    mc_fail("order", "%s%s of thread %d returned in an order the locking policy does not allow", opname[op], mode == S ? " (shared)" : "", tid);
  }
  if (ok && (op == LOCK || op == TRY || op == TIMED)) t.actual = mode;
  t.op = NONE; t.mode = 0; t.deadline = 0; t.clk = 0; t.rel = 0; t.past = 0;
  close_();      // clears nothing, but keeps the closure canonical
}
void cancel() {
  mc_defer_flush();
  Mon& m = M(); int i = mc_tid() - 1; T& t = m.t[i];
  filter([&](Cfg& c) { if (c.st[i] == GRANTED) return false; if (c.st[i] == QUEUED) { qdel(c, i); } c.st[i] = IDLE; eager(m, c, false); return true; });
  t.op = NONE; t.mode = 0; t.deadline = 0; t.clk = 0; t.rel = 0; t.past = 0;
  if (m.ncfg == 0) mc_fail("order", "a call that threw took effect");
  close_();
}
void on_tick() { if (M().inited) close_(); }
void on_quiescent() {
  Mon& m = M(); if (!m.inited) return;
  for (int i = 0; i < m.n; ++i) {
    if (m.t[i].op == TRY) mc_fail("try-blocks", "try_lock of thread %d blocks", i + 1);
    if (m.t[i].op == REL || m.t[i].op == RECREL) mc_fail("unlock-blocks", "unlock of thread %d blocks", i + 1);
    if (m.t[i].op == RECACQ) mc_fail("recursive-blocks", "recursive acquisition of owner thread %d blocks", i + 1);
  }
  if (m.flags & TIMEDMUST) for (int i = 0; i < m.n; ++i) if (m.t[i].op == TIMED) mc_fail("timed-blocks", "timed acquisition of thread %d never returns although time passes", i + 1);
  filter([&](Cfg& c) {
    for (int i = 0; i < m.n; ++i) {
      const T& t = m.t[i];
      if (c.st[i] == GRANTED || c.st[i] == DFALSE) return false;
      if (c.st[i] == INV && (m.policy >= FIFO || (m.policy == WRITERPREF && t.mode == X))) return false;
      if ((c.st[i] == INV || c.st[i] == QUEUED) && m.policy < FIFO && avail(m, c, t.mode)) return false;
    }
    return true; });
  if (m.ncfg == 0) {
    char b[200]; int o = 0; b[0] = 0;
    for (int i = 0; i < m.n; ++i) if (m.t[i].op) o += snprintf(b + o, sizeof b - o, " T%d in %s%s;", i + 1, opname[m.t[i].op], m.t[i].mode == S ? " (shared)" : "");
    mc_fail("stuck-waiter", "a waiting thread stays blocked although the lock must be granted to it; nobody else can move:%s", b);
  }
  close_();
}
int actual(int tid) { return M().t[tid - 1].actual; }
bool waiting(int tid) { return M().t[tid - 1].op != NONE; }
bool available(Mode md) { Mon& m = M(); for (int k = 0; k < m.ncfg; ++k) if (avail(m, m.c[k], md)) return true; return false; }
void all_free() { Mon& m = M(); for (int i = 0; i < m.n; ++i) if (m.t[i].op || m.t[i].actual) mc_fail("harness", "thread %d still busy", i + 1); }
}
