// compiled without instrumentation
#include "obj.h"
#include <stdio.h>
namespace obj {
typedef uint8_t u8;
enum St : u8 { IDLE = 0, INV = 1, MID = 2, OK = 3, NO = 4 };
#ifndef WIDE
#define WIDE 5
#endif
enum { NT = WIDE, MAXCFG = NT > 5 ? 900 : 2000 };
struct Cfg { int16_t c, e; u8 comp, comper; u8 st[NT]; u8 left[NT]; u8 tok[NT][3]; u8 pad[NT % 2 ? 1 : 2]; };   // tok: 0 none, 1 this phase, 2 completed
static_assert(sizeof(Cfg) == 6 + 5 * NT + (NT % 2 ? 1 : 2), "layout");
struct T { u8 op, slot, clk, rel; int16_t arg; u8 past, pad; int64_t deadline; };
struct Mon { u8 kind, n, inited, flags; u8 compdepth, done, pad[2]; int ncfg; int pad2; T t[NT]; Cfg c[MAXCFG]; };
static_assert(sizeof(Mon) <= 0x10000, "layout");
static Mon& M() { return *(Mon*)mc_ghost(); }
static void len() { mc_ghost_len(offsetof(Mon, c) + sizeof(Cfg) * M().ncfg); }
static const char* opname[] = {"none", "acquire", "try_acquire", "try_acquire (timed)", "release", "wait", "try_wait", "count_down", "arrive_and_wait", "arrive", "wait", "arrive_and_wait", "arrive_and_drop"};
static int ccmp(const Cfg& a, const Cfg& b) { return memcmp(&a, &b, sizeof(Cfg)); }
static bool add(Cfg* s, int& n, const Cfg& c) {
  int lo = 0, hi = n;
  while (lo < hi) { int m = (lo + hi) / 2; int r = ccmp(s[m], c); if (r == 0) return false; if (r < 0) lo = m + 1; else hi = m; }
  if (n == MAXCFG) mc_fail("monitor-overflow", "too many monitor configurations");
  memmove(s + lo + 1, s + lo, sizeof(Cfg) * (n - lo)); s[lo] = c; ++n; return true;
}
static bool past(const Mon& m, int i) { return m.t[i].past || mc_clock_now(m.t[i].clk) >= m.t[i].deadline; }   // past: also if the clock was set back since
static void note_past(Mon& m) { for (int i = 0; i < m.n; ++i) if (m.t[i].op == TIMED && past(m, i)) m.t[i].past = 1; }
static void advance(const Mon& m, Cfg& c) {
  c.comp = 0; c.c = c.e;
  for (int i = 0; i < m.n; ++i) for (int s = 0; s < 3; ++s) if (c.tok[i][s] == 1) c.tok[i][s] = 2;
}
// a call that may return from now on for ever has done so: no other call can tell the difference
static void norm(const Mon& m, Cfg& c) {
  for (int i = 0; i < m.n; ++i) {
    const T& t = m.t[i];
    if (c.st[i] == INV && t.op == LWAIT && c.c == 0) c.st[i] = OK;
    else if (c.st[i] == MID && t.op == LARRIVE && c.c == 0) c.st[i] = OK;
    else if (c.st[i] == INV && t.op == BWAIT && c.tok[i][t.slot] == 2) { c.tok[i][t.slot] = 0; c.st[i] = OK; }
    else if (c.st[i] == MID && t.op == BARRWAIT && c.tok[i][2] == 2) { c.tok[i][2] = 0; c.st[i] = OK; }
  }
}
template <class F> static void filter(F f);
static void close_() {
  note_past(M());
  filter([&](Cfg& c) { norm(M(), c); return true; });
  Mon& m = M(); int n = m.ncfg;
  Cfg* work = (Cfg*)((u8*)mc_ghost() + 0x10000); int wn = 0;
  for (int k = 0; k < n; ++k) work[wn++] = m.c[k];
  auto put = [&](const Cfg& c0) { Cfg c = c0; norm(m, c); if (add(m.c, n, c)) work[wn++] = c; };
  while (wn) {
    Cfg c = work[--wn];
    if (c.comp == 1 && (m.flags & AUTOCOMP)) { Cfg d = c; advance(m, d); put(d); }
    for (int i = 0; i < m.n; ++i) {
      const T& t = m.t[i]; Cfg d = c;
      if (c.st[i] == INV) switch (t.op) {
        case ACQ: if (c.c > 0) { d.c--; d.st[i] = OK; put(d); } break;
        case TRY: if (c.c > 0) { d.c--; d.st[i] = OK; } else d.st[i] = NO; put(d); break;
        case TIMED: if (c.c > 0) { d.c--; d.st[i] = OK; put(d); } else if (past(m, i)) { d.st[i] = NO; put(d); } break;
        case REL:
          if (m.kind == SEM_STEPS && t.arg > 0) { d.left[i] = (u8)t.arg; d.st[i] = MID; }
          else { d.c = (int16_t)(d.c + t.arg); d.st[i] = OK; }
          put(d); break;
        case LTRY: d.st[i] = c.c == 0 ? OK : NO; put(d); break;
        case LDOWN: d.c = (int16_t)(d.c - t.arg); d.st[i] = OK; put(d); break;
        case LARRIVE: d.c = (int16_t)(d.c - t.arg); d.st[i] = MID; put(d); break;
        case BARRIVE: case BARRWAIT: case BDROP:
          if (c.comp == 0 && c.c >= t.arg) {
            d.c = (int16_t)(d.c - t.arg); if (t.op == BDROP) d.e--;
            d.tok[i][t.op == BARRIVE ? t.slot : 2] = 1;
            d.st[i] = t.op == BARRWAIT ? MID : OK;
            if (d.c == 0) { d.comp = 1; }
            put(d);
          }
          break;
        default: break;       // LWAIT, BWAIT: norm()
      } else if (c.st[i] == MID) switch (t.op) {
        case REL: d.c++; if (--d.left[i] == 0) d.st[i] = OK; put(d); break;
        default: break;       // LARRIVE, BARRWAIT: norm()
      }
    }
  }
  m.ncfg = n; len();
}
template <class F> static void filter(F f) {
  Mon& m = M(); int k = 0; Cfg* out = (Cfg*)((u8*)mc_ghost() + 0x20000);
  for (int i = 0; i < m.ncfg; ++i) { Cfg c = m.c[i]; if (f(c)) add(out, k, c); }
  memset((void*)m.c, 0, sizeof(Cfg) * m.ncfg); memcpy((void*)m.c, out, sizeof(Cfg) * k); m.ncfg = k; len();
}
void init(int kind, int n, int count, unsigned flags) {
  Mon& m = M(); memset((void*)&m, 0, sizeof m); m.kind = (u8)kind; m.n = (u8)n; m.inited = 1; m.flags = (u8)flags; m.ncfg = 1; m.c[0].c = m.c[0].e = (int16_t)count; len();
}
static void do_invoke(int tid, uint64_t a, uint64_t b) {
  Mon& m = M(); int i = tid - 1; T& t = m.t[i];
  t.op = a & 255; t.slot = (a >> 8) & 255; t.clk = (a >> 16) & 255; t.rel = (a >> 24) & 1; t.arg = (int16_t)((a >> 32) & 0xffff);
  t.past = 0; t.deadline = t.op == TIMED ? (t.rel ? mc_clock_now(t.clk) + (int64_t)b : (int64_t)b) : 0;
  filter([&](Cfg& c) { c.st[i] = INV; return true; });
  close_();
}
void invoke(Op op, int arg, int slot, int64_t deadline, int clk, bool relative) {
  mc_trace("      call %s(%d)", opname[op], arg);
  mc_defer(do_invoke, (uint64_t)op | (uint64_t)(slot & 255) << 8 | (uint64_t)(clk & 255) << 16 | (uint64_t)relative << 24 | (uint64_t)(uint16_t)arg << 32, (uint64_t)deadline);
}
void response(bool ok) {
  mc_defer_flush();
  Mon& m = M(); int tid = mc_tid(), i = tid - 1; T& t = m.t[i]; u8 op = t.op;
  mc_trace("      return from %s: %s", opname[op], ok ? "ok" : "false");
  filter([&](Cfg& c) {
    bool good = c.st[i] == (ok ? OK : NO);
    if (op == BDROP && c.tok[i][2]) c.tok[i][2] = 0;
    c.st[i] = IDLE; c.left[i] = 0; return good; });
  if (m.ncfg == 0) switch (op) {
    case ACQ: mc_fail("permits", "acquire of thread %d returned although no permit was available to it", tid);
    case TRY: if (ok) mc_fail("permits", "try_acquire of thread %d succeeded although no permit was available to it", tid); mc_fail("try-false", "try_acquire of thread %d failed although a permit was available throughout the call", tid);
    case TIMED: if (ok) mc_fail("permits", "timed acquire of thread %d succeeded although no permit was available to it", tid);
      if (mc_clock_now(t.clk) < t.deadline) mc_fail("early-timeout", "timed acquire of thread %d failed %lld ns before its deadline", tid, (long long)(t.deadline - mc_clock_now(t.clk)));
      mc_fail("timeout-false", "timed acquire of thread %d failed although a permit was available", tid);
    case LTRY: if (ok) mc_fail("early-release", "try_wait of thread %d is true although the counter is not zero", tid); mc_fail("try-false", "try_wait of thread %d is false although the counter is zero", tid);
    case REL: case LDOWN: case BARRIVE: case BDROP: mc_fail("order", "%s of thread %d returned in an impossible state (a completion missing?)", opname[op], tid);
    default: mc_fail("early-release", "%s of thread %d returned too early", opname[op], tid);
  }
  memset(&t, 0, sizeof t);
  close_();
}
void completion_begin() {
  for (int i = 0; i < 1; ++i) mc_defer_flush();
  Mon& m = M(); mc_trace("      completion begins");
  if (m.compdepth) mc_fail("completion", "the completion function runs twice at the same time");
  m.compdepth = 1;
  filter([&](Cfg& c) { if (c.comp != 1) return false; c.comp = 2; return true; });
  if (m.ncfg == 0) mc_fail("completion", "the completion function runs although the phase is not complete (or a second time)");
  close_();
}
void completion_end() {
  Mon& m = M(); mc_trace("      completion ends");
  m.compdepth = 0;
  filter([&](Cfg& c) {
    if (c.comp != 2) return false;
    advance(m, c);
    return true; });
  if (m.ncfg == 0) mc_fail("completion", "completion");
  close_();
}
void on_tick() { if (M().inited) close_(); }
static bool stuck(const Mon& m, const Cfg& c, int i) {      // may the call legitimately stay blocked in this configuration?
  const T& t = m.t[i];
  if (t.op == BDROP && c.st[i] == OK) return c.tok[i][2] == 1;        // yamc's arrive_and_drop also waits for the end of the phase
  switch (t.op) {
    case ACQ: case TIMED: return c.st[i] == INV && c.c == 0;
    case LWAIT: return c.st[i] == INV && c.c != 0;
    case LARRIVE: return c.st[i] == MID && c.c != 0;
    case BWAIT: return c.st[i] == INV && c.tok[i][t.slot] == 1;
    case BARRWAIT: return c.st[i] == MID && c.tok[i][2] == 1;
  }
  return false;
}
void on_quiescent() {
  Mon& m = M(); if (!m.inited) return;
  for (int i = 0; i < m.n; ++i) {
    u8 op = m.t[i].op;
    if (op == TRY || op == LTRY) mc_fail("try-blocks", "%s of thread %d blocks", opname[op], i + 1);
    if (op == REL || op == LDOWN || op == BARRIVE) mc_fail("stuck-waiter", "%s of thread %d blocks", opname[op], i + 1);
    if (op == TIMED && (m.flags & TIMEDMUST)) mc_fail("timed-blocks", "timed acquire of thread %d never returns although time passes", i + 1);
  }
  filter([&](Cfg& c) {
    if (c.comp) return false;
    for (int i = 0; i < m.n; ++i) if (m.t[i].op && !stuck(m, c, i)) return false;
    return true; });
  if (m.ncfg == 0) {
    char b[200]; int o = 0; b[0] = 0;
    for (int i = 0; i < m.n; ++i) if (m.t[i].op) o += snprintf(b + o, sizeof b - o, " T%d in %s;", i + 1, opname[m.t[i].op]);
    mc_fail("stuck-waiter", "a call stays blocked although it must return; nobody else can move:%s", b);
  }
  close_();
}
bool any_waiting() { Mon& m = M(); for (int i = 0; i < m.n; ++i) if (m.t[i].op) return true; return false; }
void done() { M().done++; }
int finished() { return M().done; }
int remaining() { Mon& m = M(); int r = 0; for (int k = 0; k < m.ncfg; ++k) if (m.c[k].c > r) r = m.c[k].c; return r; }
}
