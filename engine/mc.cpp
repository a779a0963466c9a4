// Explicit-state model checker for real, compiled C++ code.
//
// The code under test is compiled from /repo/include into a shared library with -fsanitize=thread
// (instrumentation only); this executable supplies the __tsan_* runtime and the pthread / semaphore /
// clock / allocation functions.  Threads are fibers; every synchronisation operation is a scheduling
// point; the complete memory of the program (heap, globals, live stacks, model objects) is a state
// that is snapshotted, hashed and restored.  All states within the bounds of a program are visited.
#include "mc.h"
#include <atomic>
#include <cerrno>
#include <climits>
#include <csetjmp>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <algorithm>
#include <exception>
#include <map>
#include <set>
#include <string>
#include <fstream>
#include <cxxabi.h>
#include <dlfcn.h>
#include <elf.h>
#include <fcntl.h>
#include <link.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/single_threaded.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <unistd.h>
extern "C" void* __tls_get_addr(void*);

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64; typedef int64_t i64;

// ------------------------------------------------------------------------------------------------
// memory layout
// ------------------------------------------------------------------------------------------------
#ifndef MC_MAXT
#define MC_MAXT 6
#endif
enum { MAXT = MC_MAXT };
static const u64 REGION = 0x200000000000ull;
static const u64 GHOST_SZ = 0x60000, GHOST_AUX = 256, GHOST_MAX = 0x10000;
static const u64 ARENA_OFF = 0x100000, ARENA_SZ = 0x20000;            // per fiber
static const u64 STACK_OFF = 0x400000, STACK_STRIDE = 0x40000, STACK_SZ = 0x30000; // per fiber
static const u64 REGION_SZ = STACK_OFF + MAXT * STACK_STRIDE;
static const u64 PREFILL = 6144;

static inline u8* ghost_p() { return (u8*)REGION; }
static inline u8* arena_p(int t) { return (u8*)(REGION + ARENA_OFF + t * ARENA_SZ); }
static inline u8* stack_top(int t) { return (u8*)(REGION + STACK_OFF + t * STACK_STRIDE + STACK_STRIDE); }
static inline u8* stack_bot(int t) { return stack_top(t) - STACK_SZ; }

// ------------------------------------------------------------------------------------------------
// model state
// ------------------------------------------------------------------------------------------------
enum OpKind : u8 {
  K_NONE, K_START, K_CHOOSE, K_JOIN, K_PARK, K_YIELD, K_AWAIT, K_MLOCK, K_MTRY, K_MTIMED, K_MUNLOCK,
  K_CWAIT, K_CBLOCK, K_CSIG, K_CBCAST, K_RDLOCK, K_WRLOCK, K_RDTRY, K_WRTRY, K_RDTIMED, K_WRTIMED,
  K_SEMWAIT, K_SEMTRY, K_SEMTIMED, K_SEMPOST, K_SEMGET, K_LOAD, K_STORE, K_RMW, K_CAS, K_CASW, K_FENCE,
  K_CLOCK, K_SLEEP, K_GUARD, K_SPIN, K_MAX
};
static const char* kind_name[K_MAX] = {
  "none", "start", "choose", "join", "park", "yield", "await", "mutex_lock", "mutex_trylock", "mutex_timedlock",
  "mutex_unlock", "cond_wait_enter", "cond_wait", "cond_signal", "cond_broadcast", "rdlock", "wrlock", "tryrdlock",
  "trywrlock", "timedrdlock", "timedwrlock", "sem_wait", "sem_trywait", "sem_timedwait", "sem_post", "sem_getvalue",
  "atomic_load", "atomic_store", "atomic_rmw", "atomic_cas", "atomic_cas_weak", "fence", "clock", "sleep", "static_guard",
  "spinlock"
};

enum { V_TIMEOUT = 0xfff0, V_EINTR, V_WEAK };
static const i64 NEVER = INT64_MAX;

struct VC { u32 c[MAXT]; };

struct Op {
  u8 kind; u8 clk; u16 nvar;
  u32 pad;
  void* obj; void* obj2;
  i64 deadline;              // in clk's own ns time base (absolute); NEVER if none
  bool (*pred)(void*);
  const char* label;
};

enum { ST_NONE, ST_READY, ST_DONE };

struct Fiber {
  u8 st, sig, has_relf, has_acqf;
  u16 variant; u16 pad1;
  int err; u32 ghost;
  u64 alias;
  void* sp;
  Op op;
  void* eh[2];
  i64 interest;
  void (*dfn)(int, u64, u64); u64 da, db;
  u32 arena_used; u32 blocks;
  VC vc, relf, acqf;          // hashed canonically
};

struct SyncVar { u64 addr; VC vc; };
struct Held { void* m; int owner; int kind; };

struct Entry { u32 clk; u8 tid, mask, flags, pad; };   // flags: 1 write, 2 atomic
enum { MAXENT = 10 };
struct Cell { u64 key; u32 n; u32 pad; Entry e[MAXENT]; };

enum { MAXSYNC = 96, MAXHELD = 64, NCELL = 4096, MAXUSED = 2800 };

struct World {
  int nthreads;               // without main
  int aborted;                // legit abort by thread+1
  i64 now; i64 jump; int jumps; int joined;
  u32 glen;
  int blocks, natives;        // live heap blocks; native objects initialised and not destroyed
  u32 marks;                  // mc_mark: what happened on this path; not part of the state
  Fiber f[MAXT];
  int nheld; Held held[MAXHELD];
  int nsync; SyncVar sync[MAXSYNC];
};
static World W;
static Cell cells[NCELL];
static u16 used[MAXUSED]; static int nused;
static u8 live[MAXT][ARENA_SZ / 8];     // 0 untouched, 1 live, 2 freed

static int cur = -1;          // running fiber
static u32 ghost_depth;       // of the running fiber
static void* sched_sp;
static u64 step_ctr;          // tracked accesses in this step
static bool race_on = true;
static const mc_program* P;

// shared library data segments
struct Seg { u8* p; size_t n; };
static std::vector<Seg> segs;
static u8* tls_p; static size_t tls_n; static std::vector<u8> tls_init;
static u8* tls_store[MAXT];
static u64 so_lo, so_hi, so_base;

static u64 ops_hist[K_MAX];
static bool tracing; static std::vector<std::string>* trace_out;
static std::map<std::string, u64> coverage;
static std::set<u64> outcomes;

// ------------------------------------------------------------------------------------------------
// fiber switch
// ------------------------------------------------------------------------------------------------
extern "C" void mc_switch(void** save, void* to);
asm(R"(
.text
.globl mc_switch
.type mc_switch,@function
mc_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size mc_switch,.-mc_switch
)");

// ------------------------------------------------------------------------------------------------
// violations
// ------------------------------------------------------------------------------------------------
struct Viol { bool set; char kind[48]; char msg[1200]; int tid; u64 pc; };
static Viol viol;
static u64 last_pc;

static void violation_v(const char* kind, const char* fmt, va_list ap) {
  if (!viol.set) {
    viol.set = true;
    snprintf(viol.kind, sizeof viol.kind, "%s", kind);
    vsnprintf(viol.msg, sizeof viol.msg, fmt, ap);
    viol.tid = cur; viol.pc = last_pc;
  }
}
static void fiber_die() {     // leave the running fiber for good
  void* dummy;
  mc_switch(&dummy, sched_sp);
  __builtin_unreachable();
}
__attribute__((noreturn, format(printf, 2, 3)))
static void violation(const char* kind, const char* fmt, ...) {
  va_list ap; va_start(ap, fmt); violation_v(kind, fmt, ap); va_end(ap);
  if (cur >= 0) fiber_die();
  // engine context: caller checks viol.set, only reached through callbacks
  extern sigjmp_buf engine_jmp; extern bool engine_jmp_set;
  if (engine_jmp_set) siglongjmp(engine_jmp, 1);
  fprintf(stderr, "ENGINE-ERROR: violation outside exploration: %s: %s\n", viol.kind, viol.msg);
  _exit(3);
}
sigjmp_buf engine_jmp; bool engine_jmp_set;
__attribute__((noreturn, format(printf, 1, 2)))
static void engine_error(const char* fmt, ...) {
  va_list ap; va_start(ap, fmt); fprintf(stderr, "ENGINE-ERROR: "); vfprintf(stderr, fmt, ap); fprintf(stderr, "\n"); va_end(ap);
  _exit(3);
}

static inline bool in_fiber() { return cur >= 0; }
static inline bool tracked() { return cur >= 0 && ghost_depth == 0; }

static void tr(const char* fmt, ...) {
  if (!tracing || !trace_out) return;
  char b[1400]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  int c = cur; cur = -1; trace_out->push_back(b); cur = c;
}

// ------------------------------------------------------------------------------------------------
// addresses
// ------------------------------------------------------------------------------------------------
static inline bool in_region(u64 a) { return a - REGION < REGION_SZ; }
static inline int arena_of(u64 a) { u64 o = a - (REGION + ARENA_OFF); return o < MAXT * ARENA_SZ ? (int)(o / ARENA_SZ) : -1; }
static inline int stack_of(u64 a) { u64 o = a - (REGION + STACK_OFF); return o < MAXT * STACK_STRIDE ? (int)(o / STACK_STRIDE) : -1; }
static inline bool in_so(u64 a) { return a - so_lo < so_hi - so_lo; }

const char* mc_addr_name(const void* p) {
  static char b[4][48]; static int i; char* s = b[i++ & 3];
  u64 a = (u64)p; int t;
  if ((t = arena_of(a)) >= 0) snprintf(s, 48, "heap%d+0x%llx", t, (unsigned long long)(a - (u64)arena_p(t)));
  else if ((t = stack_of(a)) >= 0) snprintf(s, 48, "stack%d-0x%llx", t, (unsigned long long)((u64)stack_top(t) - a));
  else if (in_so(a)) snprintf(s, 48, "global+0x%llx", (unsigned long long)(a - so_base));
  else snprintf(s, 48, "%p", p);
  return s;
}

// is the memory of a synchronisation object still alive?
static void check_alive(const void* p, size_t n, const char* what) {
  u64 a = (u64)p; int t;
  if ((t = arena_of(a)) >= 0) {
    u64 o = a - (u64)arena_p(t);
    for (u64 g = o >> 3; g <= (o + n - 1) >> 3; ++g)
      if (live[t][g] != 1) violation("use-after-free", "%s on %s heap memory %s", what, live[t][g] == 2 ? "freed" : "unallocated", mc_addr_name(p));
  } else if ((t = stack_of(a)) >= 0) {
    if (t != cur && (W.f[t].st != ST_READY || a < (u64)W.f[t].sp))
      violation("dangling-stack", "%s on a dead stack frame of thread %d (%s)", what, t, mc_addr_name(p));
  }
}

// ------------------------------------------------------------------------------------------------
// happens-before
// ------------------------------------------------------------------------------------------------
static inline void vc_join(VC& a, const VC& b) { for (int i = 0; i < MAXT; ++i) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }
static SyncVar* sync_find(u64 a, bool create) {
  int lo = 0, hi = W.nsync;
  while (lo < hi) { int m = (lo + hi) / 2; if (W.sync[m].addr < a) lo = m + 1; else hi = m; }
  if (lo < W.nsync && W.sync[lo].addr == a) return &W.sync[lo];
  if (!create) return nullptr;
  if (W.nsync == MAXSYNC) engine_error("sync table overflow");
  memmove(&W.sync[lo + 1], &W.sync[lo], sizeof(SyncVar) * (W.nsync - lo));
  ++W.nsync; W.sync[lo].addr = a; memset(&W.sync[lo].vc, 0, sizeof(VC));
  return &W.sync[lo];
}
static void sync_erase(int i) {
  memmove(&W.sync[i], &W.sync[i + 1], sizeof(SyncVar) * (W.nsync - i - 1)); --W.nsync;
}
static inline void hb_acquire_t(int t, const void* o) { if (!race_on) return; if (SyncVar* s = sync_find((u64)o, false)) vc_join(W.f[t].vc, s->vc); }
static inline void hb_release_t(int t, const void* o) { if (!race_on) return; SyncVar* s = sync_find((u64)o, true); vc_join(s->vc, W.f[t].vc); ++W.f[t].vc.c[t]; }
static inline void hb_store_release_t(int t, const void* o) { if (!race_on) return; SyncVar* s = sync_find((u64)o, true); s->vc = W.f[t].vc; ++W.f[t].vc.c[t]; }

static inline u32 cell_slot(u64 key) { return (u32)((key * 0x9E3779B97F4A7C15ull) >> 52); }   // 12 bits = NCELL
static Cell* cell_find(u64 key) {
  u32 i = cell_slot(key);
  while (cells[i].key) { if (cells[i].key == key) return &cells[i]; i = (i + 1) & (NCELL - 1); }
  return nullptr;
}
static Cell* cell_get(u64 key) {
  u32 i = cell_slot(key);
  while (cells[i].key) { if (cells[i].key == key) return &cells[i]; i = (i + 1) & (NCELL - 1); }
  if (nused == MAXUSED) engine_error("shadow table overflow");
  cells[i].key = key; cells[i].n = 0; used[nused++] = (u16)i;
  return &cells[i];
}
static void cells_clear() { for (int i = 0; i < nused; ++i) cells[used[i]].key = 0; nused = 0; }

static void race_check(u64 a, u32 size, u8 flags, bool erase_after = false) {
  VC& vc = W.f[cur].vc;
  u64 end = a + size;
  for (u64 g = a >> 3; g <= (end - 1) >> 3; ++g) {
    u64 lo = g << 3; u8 mask = 0;
    for (int b = 0; b < 8; ++b) if (lo + b >= a && lo + b < end) mask |= 1 << b;
    Cell* c = erase_after ? cell_find(g) : cell_get(g);
    if (!c) continue;
    u32 k = 0;
    for (u32 i = 0; i < c->n; ++i) {
      Entry& e = c->e[i];
      if (e.mask & mask) {
        if (e.tid != cur && ((e.flags | flags) & 1) && !((e.flags & flags) & 2) && vc.c[e.tid] < e.clk)
          violation("race", "data race on %s: %s%s of %u bytes by thread %d is not ordered after %s%s by thread %d",
            mc_addr_name((void*)a), flags & 2 ? "atomic " : "", flags & 1 ? "write" : "read", size, cur,
            e.flags & 2 ? "atomic " : "", e.flags & 1 ? "write" : "read", e.tid);
        bool sub = (e.mask & ~mask) == 0;
        if (sub && !(flags & 2) && ((flags & 1) || (e.tid == cur && !(e.flags & 1)))) continue;      // subsumed
        if (sub && (flags & 2) && e.tid == cur && (e.flags & 2) && ((flags & 1) || !(e.flags & 1))) continue;
      }
      if (k != i) c->e[k] = e;
      ++k;
    }
    c->n = k;
    if (erase_after) continue;
    // already covered by an own entry of the same epoch?
    bool have = false;
    for (u32 i = 0; i < c->n; ++i) { Entry& e = c->e[i];
      if (e.tid == cur && e.flags == flags && (e.mask & mask) == mask) { e.clk = vc.c[cur] > e.clk ? ((e.mask == mask) ? vc.c[cur] : e.clk) : e.clk; if (e.clk == vc.c[cur]) { have = true; break; } } }
    if (have) continue;
    if (c->n == MAXENT) {       // merge: drop an entry that every entry's thread set already knows about
      u32 k2 = 0;
      for (u32 i = 0; i < c->n; ++i) { Entry& e = c->e[i]; bool known = true;
        for (int v = 1; v <= W.nthreads; ++v) if (v != e.tid && W.f[v].st != ST_DONE && W.f[v].vc.c[e.tid] < e.clk) known = false;
        if (!known) c->e[k2++] = e; }
      c->n = k2;
      if (c->n == MAXENT) engine_error("shadow cell overflow");
    }
    c->e[c->n++] = Entry{vc.c[cur], (u8)cur, mask, flags, 0};
  }
}

static const u64 STEP_LIMIT = 4000000;
static inline __attribute__((always_inline)) void access(u64 a, u32 size, u8 flags, void* pc) {
  if (!tracked()) return;
  last_pc = (u64)pc;
  if (++step_ctr > STEP_LIMIT) violation("endless-loop", "a single step performs more than %llu memory accesses", (unsigned long long)STEP_LIMIT);
  if (a - REGION < GHOST_SZ) return;
  int t;
  if ((t = arena_of(a)) >= 0) {
    u64 o = a - (u64)arena_p(t);
    for (u64 g = o >> 3; g <= (o + size - 1) >> 3; ++g)
      if (__builtin_expect(live[t][g] != 1, 0))
        violation("use-after-free", "%s of %s heap memory %s", flags & 1 ? "write" : "read", live[t][g] == 2 ? "freed" : "unallocated", mc_addr_name((void*)a));
  } else if ((t = stack_of(a)) >= 0) {
    if (t != cur && (W.f[t].st != ST_READY || a < (u64)W.f[t].sp))
      violation("dangling-stack", "%s of a dead stack frame of thread %d (%s)", flags & 1 ? "write" : "read", t, mc_addr_name((void*)a));
  } else if (a < 4096) {
    violation("crash", "null pointer access (address 0x%llx)", (unsigned long long)a);
  } else if (!in_so(a)) return;
  else if (tls_n && a - (u64)tls_p < tls_n) return;
  if (race_on && cur > 0) {
    if (nused > MAXUSED - 300 && stack_of(a) == cur) return;      // deep recursion: let it run into the guard page
    race_check(a, size, flags);
  }
}

// ------------------------------------------------------------------------------------------------
// scheduling points
// ------------------------------------------------------------------------------------------------
static void gc_and_drop(int t);

static int visible(const Op& op) {
  Fiber& f = W.f[cur];
  f.op = op; f.st = ST_READY;
  mc_switch(&f.sp, sched_sp);
  return W.f[cur].variant;
}
static inline Op mkop(u8 kind, const void* obj = nullptr, const void* obj2 = nullptr) {
  Op o; memset(&o, 0, sizeof o); o.kind = kind; o.nvar = 1; o.obj = (void*)obj; o.obj2 = (void*)obj2; o.deadline = NEVER; return o;
}

// clocks -----------------------------------------------------------------------------------------
static const i64 REAL_BASE = 1700000000ll * 1000000000ll, MONO_BASE = 1000000ll * 1000000000ll;
static inline bool is_real(int clk) { return clk == CLOCK_REALTIME || clk == CLOCK_REALTIME_COARSE; }
static inline i64 clk_now(int clk) { return is_real(clk) ? REAL_BASE + W.now + W.jump : MONO_BASE + W.now; }
static i64 ts_ns(const struct timespec* ts) {
  __int128 v = (__int128)ts->tv_sec * 1000000000 + ts->tv_nsec;
  if (v > (__int128)(NEVER - 1)) return NEVER - 1;
  if (v < (__int128)(INT64_MIN / 2)) return INT64_MIN / 2;
  return (i64)v;
}
static inline bool ts_ok(const struct timespec* ts) { return ts->tv_nsec >= 0 && ts->tv_nsec < 1000000000; }

// ------------------------------------------------------------------------------------------------
// arena
// ------------------------------------------------------------------------------------------------
struct Blk { u32 size; u32 state; u64 magic; };   // header; state 1 live 2 freed
extern "C" void* __libc_malloc(size_t); extern "C" void __libc_free(void*); extern "C" void* __libc_calloc(size_t, size_t);
extern "C" void* __libc_realloc(void*, size_t); extern "C" void* __libc_memalign(size_t, size_t);

static void* arena_alloc(size_t n, size_t align) {
  int t = cur; Fiber& f = W.f[t];
  if (align < 16) align = 16;
  if (n <= ARENA_SZ && f.arena_used > ARENA_SZ / 2 && !(P->flags & MC_FRESH)) {       // once half full, a freed block of exactly this size is used again (loops that allocate come back to the same state)
    u32 want = (u32)((n + 15) & ~15ull); if (want == 0) want = 16;
    u8* base = arena_p(t); u8* p = base; u8* e = base + f.arena_used;
    while (p < e) {
      Blk* b = (Blk*)p; u8* d = p + sizeof(Blk); p = d + b->size;
      if (b->state != 2 || b->size != want || b->magic == 0 || ((u64)d & (align - 1))) continue;
      u64 o = (u64)(d - base);
      b->state = 1; b->magic = n ? n : 1; memset(d, 0xCD, want); memset(&live[t][o >> 3], 2, want >> 3); memset(&live[t][o >> 3], 1, (n + 7) >> 3);
      ++f.blocks; ++W.blocks; return d;
    }
  }
  u64 off = f.arena_used + sizeof(Blk);
  off = (off + align - 1) & ~(u64)(align - 1);
  u64 sz = (n + 15) & ~15ull; if (sz == 0) sz = 16;
  if (n > ARENA_SZ || off + sz > ARENA_SZ) {
    if (n > (1ull << 40)) return nullptr;
    engine_error("arena table overflow: thread %d allocates more than %llu bytes in this program", t, (unsigned long long)ARENA_SZ);
  }
  u8* base = arena_p(t);
  // alignment gap (if any) belongs to the previous region: keep headers walkable
  u64 hdr = off - sizeof(Blk);
  if (hdr > f.arena_used) { // filler block
    if (hdr - f.arena_used >= sizeof(Blk)) { Blk* fb = (Blk*)(base + f.arena_used); fb->size = (u32)(hdr - f.arena_used - sizeof(Blk)); fb->state = 2; fb->magic = 0; }
    else { hdr += 0; }
  }
  Blk* b = (Blk*)(base + hdr);
  b->size = (u32)sz; b->state = 1; b->magic = n ? n : 1;
  memset(base + off, 0xCD, sz);
  // exact liveness: granules wholly beyond n are out of bounds
  u64 g0 = off >> 3, ng = (n + 7) >> 3;
  memset(&live[t][g0], 1, ng);
  f.arena_used = (u32)(off + sz); ++f.blocks; ++W.blocks;
  return base + off;
}
static void range_dead(u64 a, u64 n) {         // sync objects in [a,a+n) disappear
  for (int i = 0; i < W.nsync;) if (W.sync[i].addr >= a && W.sync[i].addr < a + n) sync_erase(i); else ++i;
}
static void check_in_use(u64 a, u64 n, const char* what) {
  for (int v = 1; v <= W.nthreads; ++v) if (v != cur && W.f[v].st == ST_READY) {
    u64 o = (u64)W.f[v].op.obj, o2 = (u64)W.f[v].op.obj2; u8 k = W.f[v].op.kind;
    if (k == K_AWAIT || k == K_PARK || k == K_CHOOSE || k == K_YIELD || k == K_CLOCK) continue;
    if (o - a < n || (k == K_CBLOCK && o2 - a < n) || (k == K_CWAIT && o2 - a < n))
      violation("destroyed-in-use", "%s while thread %d is in %s on it", what, v, kind_name[k]);
  }
  for (int i = 0; i < W.nheld; ++i) if ((u64)W.held[i].m - a < n)
    violation("destroyed-in-use", "%s while a lock in it is held by thread %d", what, W.held[i].owner);
}
// the heap space behind the thread's last live block may be used again
static void arena_trim(int t) {
  Fiber& f = W.f[t]; u8* p = arena_p(t); u8* e = p + f.arena_used; u8* last = p;
  while (p + sizeof(Blk) <= e) { Blk* b = (Blk*)p; p += sizeof(Blk) + b->size; if (b->state == 1) last = p; }
  u32 used = (u32)(last - arena_p(t));
  memset(&live[t][(used + 7) / 8], 0, (f.arena_used - used + 7) / 8); memset(last, 0, e - last); f.arena_used = used;
}
static void arena_free(void* p) {
  u64 a = (u64)p; int t = arena_of(a);
  Blk* b = (Blk*)(a - sizeof(Blk)); u64 o = a - (u64)arena_p(t);
  if (b->state == 2 && live[t][o >> 3] == 2) violation("double-free", "double free of %s", mc_addr_name(p));
  if (b->state != 1 || live[t][o >> 3] > 1) violation("bad-free", "free of a pointer that was not allocated: %s", mc_addr_name(p));
  u64 n = b->size;
  check_in_use(a, n, "memory freed");
  if (race_on && cur > 0 && ghost_depth == 0) race_check(a, (u32)n, 1, true);
  // drop shadow
  for (u64 g = a >> 3; g <= (a + n - 1) >> 3; ++g) if (Cell* c = cell_find(g)) c->n = 0;
  range_dead(a, n); --W.blocks;
  b->state = 2;
  memset(&live[t][o >> 3], 2, n >> 3);
  memset(p, 0xDD, n);
  if (!(P->flags & MC_FRESH)) arena_trim(t);
}

extern "C" {
void* malloc(size_t n) { return in_fiber() ? arena_alloc(n, 16) : __libc_malloc(n); }
void free(void* p) {
  if (!p) return;
  if (in_region((u64)p)) { if (in_fiber()) arena_free(p); return; }
  if (in_fiber()) return;          // allocated before the model was entered: leave it
  __libc_free(p);
}
void* calloc(size_t a, size_t b) { if (!in_fiber()) return __libc_calloc(a, b); size_t n; if (__builtin_mul_overflow(a, b, &n)) return nullptr; void* p = arena_alloc(n, 16); if (p) memset(p, 0, n); return p; }
void* realloc(void* p, size_t n) {
  if (!in_fiber()) return __libc_realloc(p, n);
  if (!p) return malloc(n);
  void* q = malloc(n);
  if (in_region((u64)p)) { size_t o = ((Blk*)((u64)p - sizeof(Blk)))->size; memcpy(q, p, o < n ? o : n); arena_free(p); }
  else memcpy(q, p, n);
  return q;
}
void* memalign(size_t al, size_t n) { return in_fiber() ? arena_alloc(n, al) : __libc_memalign(al, n); }
void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
int posix_memalign(void** r, size_t al, size_t n) { void* p = memalign(al, n); if (!p) return ENOMEM; *r = p; return 0; }
}

// ------------------------------------------------------------------------------------------------
// pthread mutex / cond / rwlock / semaphores / clocks
// ------------------------------------------------------------------------------------------------
#define REAL_FN(name) ((decltype(&name))dlsym(RTLD_NEXT, #name))
static inline bool modelled(const void* p) { return in_fiber() && (in_region((u64)p) || in_so((u64)p)); }

struct MM { int lock, count, owner; unsigned dead; int kind; unsigned inited; };       // layout of pthread_mutex_t's head
static inline MM* mm(const void* m) { return (MM*)m; }
enum { DEADMAGIC = 0x5a5adead, INITMAGIC = 0x1217ab1e };

static void held_add(void* m, int owner, int kind) {
  if (W.nheld == MAXHELD) engine_error("held table overflow");
  int i = W.nheld; while (i > 0 && (W.held[i - 1].m > m || (W.held[i - 1].m == m && W.held[i - 1].owner > owner))) { W.held[i] = W.held[i - 1]; --i; }
  W.held[i] = Held{m, owner, kind}; ++W.nheld;
}
static bool held_del(void* m, int owner) {
  for (int i = 0; i < W.nheld; ++i) if (W.held[i].m == m && W.held[i].owner == owner) {
    memmove(&W.held[i], &W.held[i + 1], sizeof(Held) * (W.nheld - i - 1)); --W.nheld; memset(&W.held[W.nheld], 0, sizeof(Held)); return true; }
  return false;
}
static void mx_take(pthread_mutex_t* m) {
  MM* x = mm(m); 
  if (x->owner == cur + 1) { ++x->count; return; }
  x->owner = cur + 1; x->lock = 1; x->count = 1; held_add(m, cur, 0); hb_acquire_t(cur, m);
}
static void mx_check(pthread_mutex_t* m, const char* what) {
  check_alive(m, sizeof(pthread_mutex_t), what);
  if (mm(m)->dead == DEADMAGIC) violation("destroyed-in-use", "%s on a destroyed mutex %s", what, mc_addr_name(m));
}
static bool mx_free_for(const void* m, int t) { MM* x = mm(m); return x->owner == 0 || (x->owner == t + 1 && (x->kind & 3) == PTHREAD_MUTEX_RECURSIVE); }

extern "C" {
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* at) noexcept {
  if (!in_fiber()) { static auto r = REAL_FN(pthread_mutex_init); return r(m, at); }
  int kind = 0; if (at) pthread_mutexattr_gettype(at, &kind);
  memset(m, 0, sizeof *m); mm(m)->kind = kind; mm(m)->inited = INITMAGIC; ++W.natives; return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m) noexcept {
  if (!modelled(m)) return 0;
  mx_check(m, "pthread_mutex_destroy");
  check_in_use((u64)m, sizeof *m, "mutex destroyed");
  range_dead((u64)m, sizeof *m);
  if (mm(m)->inited == INITMAGIC) { mm(m)->inited = 0; --W.natives; }
  mm(m)->dead = DEADMAGIC; return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) noexcept {
  if (!modelled(m)) return 0;
  mx_check(m, "pthread_mutex_lock");
  if (mm(m)->owner == cur + 1 && (mm(m)->kind & 3) == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
  visible(mkop(K_MLOCK, m));
  mx_check(m, "pthread_mutex_lock");
  mx_take(m); return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept {
  if (!modelled(m)) return 0;
  mx_check(m, "pthread_mutex_trylock");
  visible(mkop(K_MTRY, m));
  mx_check(m, "pthread_mutex_trylock");
  if (!mx_free_for(m, cur)) return EBUSY;
  mx_take(m); return 0;
}
static int mx_timed(pthread_mutex_t* m, int clk, const struct timespec* ts) {
  mx_check(m, "pthread_mutex_timedlock");
  Op o = mkop(K_MTIMED, m); o.clk = (u8)clk; o.deadline = ts_ns(ts);
  if (!ts_ok(ts)) { visible(mkop(K_MTRY, m)); if (!mx_free_for(m, cur)) return EINVAL; mx_take(m); return 0; }
  int v = visible(o);
  mx_check(m, "pthread_mutex_timedlock");
  if (v == V_TIMEOUT) return ETIMEDOUT;
  mx_take(m); return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) noexcept { if (!modelled(m)) return 0; return mx_timed(m, CLOCK_REALTIME, ts); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* ts) noexcept { if (!modelled(m)) return 0; return mx_timed(m, c, ts); }
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept {
  if (!modelled(m)) return 0;
  mx_check(m, "pthread_mutex_unlock");
  MM* x = mm(m);
  if (x->owner != cur + 1) {
    if (x->kind & 3) return EPERM;
    violation("native-misuse", "pthread_mutex_unlock of a mutex owned by %s", x->owner ? "another thread" : "nobody");
  }
  if (--x->count == 0) {
    extern bool munlock_visible;
    if (munlock_visible) { ++x->count; visible(mkop(K_MUNLOCK, m)); --x->count; }
    x->owner = 0; x->lock = 0; held_del(m, cur); hb_release_t(cur, m); }
  return 0;
}

// ---- condition variables
struct CC { int clk; unsigned dead; };
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* at) noexcept {
  if (!in_fiber()) { static auto r = REAL_FN(pthread_cond_init); return r(c, at); }
  memset(c, 0, sizeof *c); clockid_t k = CLOCK_REALTIME; if (at) pthread_condattr_getclock(at, &k); ((CC*)c)->clk = k; return 0;
}
static void cv_check(pthread_cond_t* c, const char* what) {
  check_alive(c, sizeof *c, what);
  if (((CC*)c)->dead == DEADMAGIC) violation("destroyed-in-use", "%s on a destroyed condition variable %s", what, mc_addr_name(c));
}
int pthread_cond_destroy(pthread_cond_t* c) noexcept {
  if (!modelled(c)) return 0;
  cv_check(c, "pthread_cond_destroy");
  for (int v = 1; v <= W.nthreads; ++v) if (v != cur && W.f[v].st == ST_READY && (W.f[v].op.kind == K_CBLOCK || W.f[v].op.kind == K_CWAIT) && W.f[v].op.obj == c && W.f[v].sig == 0)
    violation("destroyed-in-use", "condition variable destroyed while thread %d waits on it", v);
  ((CC*)c)->dead = DEADMAGIC; return 0;
}
static int cv_wait(pthread_cond_t* c, pthread_mutex_t* m, int clk, const struct timespec* ts) {
  cv_check(c, "condition wait"); mx_check(m, "condition wait");
  if (ts && !ts_ok(ts)) return EINVAL;
  MM* x = mm(m);
  if (x->owner != cur + 1) violation("native-misuse", "condition wait with a mutex that the caller does not own");
  visible(mkop(K_CWAIT, c, m));
  cv_check(c, "condition wait");
  int saved = x->count; x->count = 0; x->owner = 0; x->lock = 0; held_del(m, cur); hb_release_t(cur, m);
  W.f[cur].sig = 0;
  Op o = mkop(K_CBLOCK, c, m); if (ts) { o.clk = (u8)clk; o.deadline = ts_ns(ts); }
  visible(o);
  int s = W.f[cur].sig; W.f[cur].sig = 0;
  mx_check(m, "condition wait (re-lock)");
  x->owner = cur + 1; x->lock = 1; x->count = saved; held_add(m, cur, 0); hb_acquire_t(cur, m);
  return s == 2 ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (!modelled(c)) { engine_error("cond wait outside the model"); } return cv_wait(c, m, 0, nullptr); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) { if (!modelled(c)) engine_error("cond wait outside the model"); return cv_wait(c, m, ((CC*)c)->clk, ts); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts) { if (!modelled(c)) engine_error("cond wait outside the model"); return cv_wait(c, m, k, ts); }
static int waiters_of(void* c, int* out) { int n = 0; for (int v = 0; v <= W.nthreads; ++v) if (W.f[v].st == ST_READY && W.f[v].op.kind == K_CBLOCK && W.f[v].op.obj == c && W.f[v].sig == 0) out[n++] = v; return n; }
int pthread_cond_signal(pthread_cond_t* c) noexcept {
  if (!modelled(c)) return 0;
  cv_check(c, "condition signal");
  int v = visible(mkop(K_CSIG, c));
  cv_check(c, "condition signal");
  int w[MAXT]; int n = waiters_of(c, w); if (n) W.f[w[v]].sig = 1;
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) noexcept {
  if (!modelled(c)) return 0;
  cv_check(c, "condition broadcast");
  visible(mkop(K_CBCAST, c));
  cv_check(c, "condition broadcast");
  int w[MAXT]; int n = waiters_of(c, w); for (int i = 0; i < n; ++i) W.f[w[i]].sig = 1;
  return 0;
}

// ---- rwlock
struct RW { int writer; unsigned readers; unsigned dead, inited; };
static RW* rw(const void* p) { return (RW*)p; }
static void rw_check(const void* l, const char* what) { check_alive(l, sizeof(pthread_rwlock_t), what); if (rw(l)->dead == DEADMAGIC) violation("destroyed-in-use", "%s on a destroyed rwlock", what); }
static bool rd_ok(const void* l) { return rw(l)->writer == 0; }
static bool wr_ok(const void* l) { return rw(l)->writer == 0 && rw(l)->readers == 0; }
static void rd_take(pthread_rwlock_t* l) { rw(l)->readers++; held_add(l, cur, 1); hb_acquire_t(cur, l); }
static void wr_take(pthread_rwlock_t* l) { rw(l)->writer = cur + 1; held_add(l, cur, 2); hb_acquire_t(cur, l); hb_acquire_t(cur, (char*)l + 8); }
int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) noexcept { memset(l, 0, sizeof *l); if (modelled(l)) { rw(l)->inited = INITMAGIC; ++W.natives; } return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t* l) noexcept {
  if (!modelled(l)) return 0;
  rw_check(l, "pthread_rwlock_destroy"); check_in_use((u64)l, sizeof *l, "rwlock destroyed"); range_dead((u64)l, sizeof *l); if (rw(l)->inited == INITMAGIC) { rw(l)->inited = 0; --W.natives; } rw(l)->dead = DEADMAGIC; return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* l) noexcept { if (!modelled(l)) return 0; rw_check(l, "rdlock"); if (rw(l)->writer == cur + 1) return EDEADLK; visible(mkop(K_RDLOCK, l)); rw_check(l, "rdlock"); rd_take(l); return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* l) noexcept { if (!modelled(l)) return 0; rw_check(l, "wrlock"); if (rw(l)->writer == cur + 1) return EDEADLK; visible(mkop(K_WRLOCK, l)); rw_check(l, "wrlock"); wr_take(l); return 0; }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) noexcept { if (!modelled(l)) return 0; rw_check(l, "tryrdlock"); visible(mkop(K_RDTRY, l)); rw_check(l, "tryrdlock"); if (!rd_ok(l)) return EBUSY; rd_take(l); return 0; }
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) noexcept { if (!modelled(l)) return 0; rw_check(l, "trywrlock"); visible(mkop(K_WRTRY, l)); rw_check(l, "trywrlock"); if (!wr_ok(l)) return EBUSY; wr_take(l); return 0; }
static int rw_timed(pthread_rwlock_t* l, int clk, const struct timespec* ts, bool wr) {
  rw_check(l, "rwlock timed");
  if (!ts_ok(ts)) return EINVAL;       // glibc checks the timeout first
  if (rw(l)->writer == cur + 1) return EDEADLK;
  Op o = mkop(wr ? K_WRTIMED : K_RDTIMED, l); o.clk = (u8)clk; o.deadline = ts_ns(ts);
  int v = visible(o); rw_check(l, "rwlock timed");
  if (v == V_TIMEOUT) return ETIMEDOUT;
  if (wr) wr_take(l); else rd_take(l);
  return 0;
}
int pthread_rwlock_timedrdlock(pthread_rwlock_t* l, const struct timespec* ts) noexcept { if (!modelled(l)) return 0; return rw_timed(l, CLOCK_REALTIME, ts, false); }
int pthread_rwlock_timedwrlock(pthread_rwlock_t* l, const struct timespec* ts) noexcept { if (!modelled(l)) return 0; return rw_timed(l, CLOCK_REALTIME, ts, true); }
int pthread_rwlock_clockrdlock(pthread_rwlock_t* l, clockid_t c, const struct timespec* ts) noexcept { if (!modelled(l)) return 0; return rw_timed(l, c, ts, false); }
int pthread_rwlock_clockwrlock(pthread_rwlock_t* l, clockid_t c, const struct timespec* ts) noexcept { if (!modelled(l)) return 0; return rw_timed(l, c, ts, true); }
int pthread_rwlock_unlock(pthread_rwlock_t* l) noexcept {
  if (!modelled(l)) return 0; rw_check(l, "rwlock unlock");
  if (rw(l)->writer == cur + 1) { rw(l)->writer = 0; held_del(l, cur); hb_release_t(cur, l); return 0; }
  if (!held_del(l, cur)) violation("native-misuse", "pthread_rwlock_unlock by a thread that holds no lock");
  rw(l)->readers--;
  hb_release_t(cur, (char*)l + 8);     // readers release to the next writer only
  return 0;
}

// ---- pthread spin
int pthread_spin_init(pthread_spinlock_t* s, int) noexcept { *s = 0; if (modelled((void*)s)) ++W.natives; return 0; }
int pthread_spin_destroy(pthread_spinlock_t* s) noexcept { if (modelled((void*)s)) { check_alive((void*)s, 4, "spin_destroy"); check_in_use((u64)s, 4, "spin lock destroyed"); --W.natives; } return 0; }
int pthread_spin_lock(pthread_spinlock_t* s) noexcept { if (!modelled((void*)s)) return 0; check_alive((void*)s, 4, "spin_lock"); visible(mkop(K_SPIN, (void*)s)); *s = cur + 1; hb_acquire_t(cur, (void*)s); return 0; }
int pthread_spin_trylock(pthread_spinlock_t* s) noexcept { if (!modelled((void*)s)) return 0; check_alive((void*)s, 4, "spin_trylock"); visible(mkop(K_RMW, (void*)s)); if (*s) return EBUSY; *s = cur + 1; hb_acquire_t(cur, (void*)s); return 0; }
int pthread_spin_unlock(pthread_spinlock_t* s) noexcept { if (!modelled((void*)s)) return 0; check_alive((void*)s, 4, "spin_unlock"); visible(mkop(K_STORE, (void*)s)); hb_release_t(cur, (void*)s); *s = 0; return 0; }

// ---- semaphores
struct SM { unsigned value; unsigned dead, inited; };
static SM* sm(const void* p) { return (SM*)p; }
static void sm_check(const void* p, const char* what) { check_alive(p, sizeof(sem_t), what); if (sm(p)->dead == DEADMAGIC) violation("destroyed-in-use", "%s on a destroyed semaphore", what); }
int sem_init(sem_t* s, int, unsigned v) noexcept { if (!in_fiber()) { static auto r = REAL_FN(sem_init); return r(s, 0, v); } if (v > (unsigned)INT_MAX) { errno = EINVAL; return -1; } memset(s, 0, sizeof *s); sm(s)->value = v; sm(s)->inited = INITMAGIC; ++W.natives; return 0; }
int sem_destroy(sem_t* s) noexcept {
  if (!modelled(s)) return 0;
  sm_check(s, "sem_destroy");
  for (int v = 1; v <= W.nthreads; ++v) if (v != cur && W.f[v].st == ST_READY && W.f[v].op.obj == s && (W.f[v].op.kind == K_SEMWAIT || W.f[v].op.kind == K_SEMTIMED)) violation("destroyed-in-use", "semaphore destroyed while thread %d waits on it", v);
  if (sm(s)->inited == INITMAGIC) { sm(s)->inited = 0; --W.natives; }
  sm(s)->dead = DEADMAGIC; return 0; }
static int sem_fin(sem_t* s, int v) {
  sm_check(s, "sem_wait");
  if (v == V_EINTR) { errno = EINTR; return -1; }
  if (v == V_TIMEOUT) { errno = ETIMEDOUT; return -1; }
  --sm(s)->value; hb_acquire_t(cur, s); return 0;
}
int sem_wait(sem_t* s) { if (!modelled(s)) return 0; sm_check(s, "sem_wait"); return sem_fin(s, visible(mkop(K_SEMWAIT, s))); }
int sem_trywait(sem_t* s) noexcept { if (!modelled(s)) return 0; sm_check(s, "sem_trywait"); visible(mkop(K_SEMTRY, s)); sm_check(s, "sem_trywait"); if (sm(s)->value == 0) { errno = EAGAIN; return -1; } --sm(s)->value; hb_acquire_t(cur, s); return 0; }
static int sem_tw(sem_t* s, int clk, const struct timespec* ts) {
  sm_check(s, "sem_timedwait");
  if (!ts_ok(ts)) { errno = EINVAL; return -1; }   // glibc validates the timeout first
  Op o = mkop(K_SEMTIMED, s); o.clk = (u8)clk; o.deadline = ts_ns(ts);
  return sem_fin(s, visible(o));
}
int sem_timedwait(sem_t* s, const struct timespec* ts) { if (!modelled(s)) return 0; return sem_tw(s, CLOCK_REALTIME, ts); }
int sem_clockwait(sem_t* s, clockid_t c, const struct timespec* ts) { if (!modelled(s)) return 0; return sem_tw(s, c, ts); }
int sem_post(sem_t* s) noexcept { if (!modelled(s)) return 0; sm_check(s, "sem_post"); visible(mkop(K_SEMPOST, s)); sm_check(s, "sem_post"); if (sm(s)->value == (unsigned)INT_MAX) { errno = EOVERFLOW; return -1; } hb_release_t(cur, s); ++sm(s)->value; return 0; }
int sem_getvalue(sem_t* s, int* v) noexcept { if (!modelled(s)) return 0; sm_check(s, "sem_getvalue"); visible(mkop(K_SEMGET, s)); *v = (int)sm(s)->value; return 0; }

// ---- clocks, sleeping, identity
int clock_gettime(clockid_t c, struct timespec* ts) noexcept {
  if (!in_fiber()) { static auto r = REAL_FN(clock_gettime); return r(c, ts); }
  if ((P->flags & MC_TICK) && ghost_depth == 0) visible(mkop(K_CLOCK));
  i64 v = clk_now(c); ts->tv_sec = v / 1000000000; ts->tv_nsec = v % 1000000000; return 0;
}
int gettimeofday(struct timeval* tv, void*) noexcept { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
time_t time(time_t* t) noexcept { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (t) *t = ts.tv_sec; return ts.tv_sec; }
int clock_nanosleep(clockid_t c, int fl, const struct timespec* ts, struct timespec*) {
  if (!in_fiber()) { static auto r = REAL_FN(clock_nanosleep); return r(c, fl, ts, nullptr); }
  i64 d = ts_ns(ts); if (!(fl & TIMER_ABSTIME)) d = clk_now(c) + d;
  Op o = mkop(K_SLEEP); o.clk = (u8)c; o.deadline = d; visible(o);
  i64 dl = d - (is_real(c) ? REAL_BASE + W.jump : MONO_BASE); if (dl > W.now) W.now = dl;
  return 0;
}
int nanosleep(const struct timespec* ts, struct timespec* r) { if (!in_fiber()) { static auto f = REAL_FN(nanosleep); return f(ts, r); } return clock_nanosleep(CLOCK_MONOTONIC, 0, ts, nullptr); }
int usleep(useconds_t us) { struct timespec ts{(time_t)(us / 1000000), (long)(us % 1000000) * 1000}; return nanosleep(&ts, nullptr); }
unsigned sleep(unsigned s) { struct timespec ts{(time_t)s, 0}; nanosleep(&ts, nullptr); return 0; }
static void (*yield_hook)();
void mc_set_yield_hook(void (*f)()) { yield_hook = f; }
int sched_yield() noexcept { if (!in_fiber()) return 0; if (yield_hook) yield_hook(); if (++step_ctr > STEP_LIMIT) violation("endless-loop", "a single step yields for ever"); return 0; }
pthread_t pthread_self() noexcept { if (!in_fiber()) { static auto r = REAL_FN(pthread_self); return r(); } return (pthread_t)(0x7000 + 16 * cur + 0x100000ul * W.f[cur].alias); }
void mc_as(int id) { W.f[cur].alias = (u64)id; }
int pthread_equal(pthread_t a, pthread_t b) noexcept { return a == b; }
int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg) noexcept { if (!in_fiber()) { static auto r = REAL_FN(pthread_create); return r(t, a, fn, arg); } violation("unsupported", "the code under test creates a thread"); }

// ---- static initialisation
void guard_note(const volatile void*);
typedef u64 GT;
int mc_guard_acquire(GT*) asm("__cxa_guard_acquire");
void mc_guard_release(GT*) asm("__cxa_guard_release");
void mc_guard_abort(GT*) asm("__cxa_guard_abort");
static void guard_tid(GT* g, int t) { ((u8*)g)[1] = (u8)t; }
int mc_guard_acquire(GT* g) {
  if (!in_fiber()) { if (*(u8*)g) return 0; return 1; }
  for (;;) {
    if (*(volatile u8*)g == 1) { hb_acquire_t(cur, g); return 0; }
    visible(mkop(K_GUARD, g));
    if (*(volatile u8*)g == 1) { hb_acquire_t(cur, g); return 0; }
    if (((u8*)g)[1] == 0) { guard_tid(g, cur + 1); return 1; }
  }
}
void mc_guard_release(GT* g) { if (in_fiber()) { hb_release_t(cur, g); guard_tid(g, 0); } *(u8*)g = 1; guard_note(g); }
void mc_guard_abort(GT* g) { guard_tid(g, 0); }
int pthread_once(pthread_once_t* o, void (*fn)()) {
  if (!modelled(o)) { static auto r = REAL_FN(pthread_once); return r(o, fn); }
  for (;;) { if (*o == 2) { hb_acquire_t(cur, o); return 0; } visible(mkop(K_GUARD, o)); if (*o == 0) { *o = 1; fn(); hb_release_t(cur, o); *o = 2; return 0; } }
}
int __cxa_atexit(void (*f)(void*), void* a, void* d) { if (in_fiber()) return 0; static auto r = (int (*)(void (*)(void*), void*, void*))dlsym(RTLD_NEXT, "__cxa_atexit"); return r(f, a, d); }
int __cxa_thread_atexit(void (*)(void*), void*, void*) { return 0; }
int __cxa_thread_atexit_impl(void (*)(void*), void*, void*) { return 0; }
void abort() noexcept {
  if (in_fiber()) {
    int t = cur;
    if (P->on_abort && P->on_abort(t)) { tr("T%d abort() -- permitted", t); W.aborted = t + 1; fiber_die(); }
    violation("abort", "thread %d calls abort()", t);
  }
  signal(SIGABRT, SIG_DFL); raise(SIGABRT); _exit(134);
}
void __assert_fail(const char* e, const char* f, unsigned l, const char* fn) noexcept {
  if (in_fiber()) { const char* s = strrchr(f, '/'); violation("assertion", "assertion '%s' failed at %s:%u (%s) in thread %d", e, s ? s + 1 : f, l, fn, cur); }
  fprintf(stderr, "assert %s %s:%u\n", e, f, l); _exit(134);
}
} // extern "C"
bool munlock_visible;

// ------------------------------------------------------------------------------------------------
// harness interface
// ------------------------------------------------------------------------------------------------
extern "C" {
int mc_choose(int n, const char* label) {
  if (!in_fiber()) engine_error("mc_choose outside a thread");
  if (n <= 1) return 0;
  Op o = mkop(K_CHOOSE); o.nvar = (u16)n; o.label = label; int v = visible(o);
  return v;
}
void mc_park(const char* label) { Op o = mkop(K_PARK); o.label = label; visible(o); }
void mc_yield(const char* label) { Op o = mkop(K_YIELD); o.label = label; visible(o); }
void mc_await(bool (*pred)(void*), void* arg, const char* label) { Op o = mkop(K_AWAIT, arg); o.pred = pred; o.label = label; visible(o); }
bool mc_await_until(bool (*pred)(void*), void* arg, int64_t dl, const char* label) {
  Op o = mkop(K_AWAIT, arg); o.pred = pred; o.label = label; o.clk = CLOCK_MONOTONIC; o.deadline = dl < 0 ? NEVER : MONO_BASE + dl;
  return visible(o) != V_TIMEOUT;
}
// absolute deadline on CLOCK_REALTIME (jumps with it) or CLOCK_MONOTONIC
bool mc_await_clock(bool (*pred)(void*), void* arg, int clk, int64_t abs_ns, const char* label) {
  Op o = mkop(K_AWAIT, arg); o.pred = pred; o.label = label; o.clk = (u8)clk; o.deadline = abs_ns;
  return visible(o) != V_TIMEOUT;
}
void mc_hb_acquire(void* o) { if (in_fiber()) hb_acquire_t(cur, o); }
void mc_hb_release(void* o) { if (in_fiber()) hb_release_t(cur, o); }
int mc_tid() { return cur; }
int64_t mc_now() { return W.now; }
int64_t mc_clock_now(int c) { return clk_now(c); }
void mc_time_interest(int64_t d) { W.f[cur].interest = d < 0 ? NEVER : d; }
void mc_touch(const void* p, size_t n, int w) { access((u64)p, (u32)n, w ? 1 : 0, __builtin_return_address(0)); }
void* mc_ghost() { return ghost_p() + GHOST_AUX; }
void* mc_aux() { return ghost_p(); }
void mc_mark(unsigned m) { W.marks |= 1u << m; }
void mc_ghost_len(size_t n) { if (n > GHOST_MAX) engine_error("ghost memory"); W.glen = (u32)((n + 7) & ~7ull); }
void mc_ghost_enter() { ++ghost_depth; }
void mc_ghost_leave() { --ghost_depth; }
void mc_fail(const char* kind, const char* fmt, ...) {
  va_list ap; va_start(ap, fmt); violation_v(kind, fmt, ap); va_end(ap);
  if (cur >= 0) fiber_die();
  if (engine_jmp_set) siglongjmp(engine_jmp, 1);
  engine_error("mc_fail outside exploration");
}
void mc_trace(const char* fmt, ...) {
  if (!tracing || !trace_out) return;
  char b[400]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  int c = cur; cur = -1; char bb[440]; snprintf(bb, sizeof bb, "    T%d: %s", c, b); trace_out->push_back(bb); cur = c;
}
void mc_recycle() { if (cur >= 0) arena_trim(cur); }
int mc_live_blocks(void) { return W.blocks; }
int mc_native_objects(void) { return W.natives; }
void mc_cover(const char* w) { int c = cur; cur = -1; coverage[w]++; cur = c; }
void mc_outcome(uint64_t v) { int c = cur; cur = -1; outcomes.insert(v); cur = c; }
void mc_defer(void (*fn)(int, uint64_t, uint64_t), uint64_t a, uint64_t b) { Fiber& f = W.f[cur]; f.dfn = fn; f.da = a; f.db = b; }
static void flush_defer(int t) { Fiber& f = W.f[t]; if (f.dfn) { auto fn = f.dfn; f.dfn = nullptr; u64 a = f.da, b = f.db; f.da = f.db = 0; fn(t, a, b); } }
void mc_defer_flush() { int t = cur; ++ghost_depth; flush_defer(t); --ghost_depth; }
uint64_t mc_param(int i) { return P->param[i]; }
int mc_quiet_tracked() { return tracked(); }
}

// ------------------------------------------------------------------------------------------------
// __tsan_* runtime
// ------------------------------------------------------------------------------------------------
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW_(n) void __tsan_read##n(void* a) { access((u64)a, n, 0, PC); } void __tsan_write##n(void* a) { access((u64)a, n, 1, PC); } \
  void __tsan_volatile_read##n(void* a) { access((u64)a, n, 0, PC); } void __tsan_volatile_write##n(void* a) { access((u64)a, n, 1, PC); } \
  void __tsan_unaligned_read##n(void* a) { access((u64)a, n, 0, PC); } void __tsan_unaligned_write##n(void* a) { access((u64)a, n, 1, PC); } \
  void __tsan_read_write##n(void* a) { access((u64)a, n, 1, PC); }
RW_(1) RW_(2) RW_(4) RW_(8) RW_(16)
void __tsan_read_range(void* a, unsigned long n) { if (n) access((u64)a, (u32)n, 0, PC); }
void __tsan_write_range(void* a, unsigned long n) { if (n) access((u64)a, (u32)n, 1, PC); }
void __tsan_vptr_update(void** a, void* v) { if (*a != v) access((u64)a, 8, 1, PC); }
void __tsan_vptr_read(void** a) { access((u64)a, 8, 0, PC); }
void __tsan_acquire(void* o) { mc_hb_acquire(o); }
void __tsan_release(void* o) { mc_hb_release(o); }
}
enum { mo_relaxed, mo_consume, mo_acquire, mo_release, mo_acq_rel, mo_seq_cst };
static inline bool acq(int m) { return m == mo_consume || m == mo_acquire || m == mo_acq_rel || m == mo_seq_cst; }
static inline bool rel(int m) { return m == mo_release || m == mo_acq_rel || m == mo_seq_cst; }

static void at_begin(const volatile void* a, u32 n, u8 kind, bool write, void* pc, const void* cas_label = nullptr) {
  (void)cas_label;
  access((u64)a, n, (u8)(2 | (write ? 1 : 0)), pc);
}
static void at_after_load(const volatile void* a, int m) {
  if (!race_on) return;
  SyncVar* s = sync_find((u64)a, false); if (!s) return;
  Fiber& f = W.f[cur];
  if (acq(m)) vc_join(f.vc, s->vc);
  else { if (!f.has_acqf) { f.has_acqf = 1; memset(&f.acqf, 0, sizeof(VC)); } vc_join(f.acqf, s->vc); }
}
static void at_store_sync(const volatile void* a, int m, bool rmw) {
  if (!race_on) return;
  Fiber& f = W.f[cur];
  if (rel(m)) { SyncVar* s = sync_find((u64)a, true); if (rmw) vc_join(s->vc, f.vc); else s->vc = f.vc; ++f.vc.c[cur]; }
  else {
    SyncVar* s = sync_find((u64)a, f.has_relf);
    if (s) { if (!rmw) memset(&s->vc, 0, sizeof(VC)); if (f.has_relf) vc_join(s->vc, f.relf); }
  }
}
static bool at_point(const volatile void* a, u32 n, u8 kind, void* pc) {   // scheduling point; false: untracked
  if (!tracked()) return false;
  u64 x = (u64)a; last_pc = (u64)pc;
  if (x - REGION < GHOST_SZ) return false;
  if (!in_region(x) && !in_so(x)) { if (x < 4096) violation("crash", "null pointer access (atomic)"); return false; }
  if (cur == 0) { access(x, n, 2, pc); return false; }        // setup/teardown: nobody else runs
  check_alive((void*)a, n, kind_name[kind]);
  return true;
}
// addresses of guards that have been released; a set guard was released on the very path that reads it
static u64 guards[256]; static int nguards;
extern "C" void guard_note(const volatile void* g) { for (int i = 0; i < nguards; ++i) if (guards[i] == (u64)g) return; if (nguards < 256) guards[nguards++] = (u64)g; }
static bool guard_known(const volatile void* g) { for (int i = 0; i < nguards; ++i) if (guards[i] == (u64)g) return true; return false; }
template <class T> static T at_load(const volatile T* a, int m, void* pc) {
  if (sizeof(T) == 1 && tracked() && in_so((u64)a) && *(volatile u8*)a == 1 && m == mo_acquire) {
    // completed static-init guard, or an ordinary flag: a guard has been released before
    if (guard_known(a)) { hb_acquire_t(cur, (void*)a); return *a; }
  }
  if (at_point(a, sizeof(T), K_LOAD, pc)) { Op o = mkop(K_LOAD, (void*)a); visible(o); last_pc = (u64)pc; access((u64)a, sizeof(T), 2, pc); at_after_load(a, m); }
  return *a;
}
template <class T> static void at_store(volatile T* a, T v, int m, void* pc) {
  if (at_point(a, sizeof(T), K_STORE, pc)) { visible(mkop(K_STORE, (void*)a)); access((u64)a, sizeof(T), 3, pc); at_store_sync(a, m, false); }
  *a = v;
}
template <class T, class F> static T at_rmw(volatile T* a, int m, void* pc, F f) {
  if (at_point(a, sizeof(T), K_RMW, pc)) { visible(mkop(K_RMW, (void*)a)); access((u64)a, sizeof(T), 3, pc); at_after_load(a, m); at_store_sync(a, m, true); }
  T o = *a; *a = f(o); return o;
}
template <class T> static int at_cas(volatile T* a, T* c, T v, int m, int fm, void* pc, bool weak) {
  bool tr_ = at_point(a, sizeof(T), weak ? K_CASW : K_CAS, pc);
  int var = 0;
  if (tr_) { var = visible(mkop(weak ? K_CASW : K_CAS, (void*)a)); access((u64)a, sizeof(T), 2, pc); }
  T o = *a;
  if (o == *c && var != V_WEAK) {
    if (tr_) { access((u64)a, sizeof(T), 3, pc); at_after_load(a, m); at_store_sync(a, m, true); }
    *a = v; return 1;
  }
  if (tr_) at_after_load(a, fm);
  *c = o; return 0;
}
extern "C" {
#define AT(bits, T) \
  T __tsan_atomic##bits##_load(const volatile T* a, int m) { return at_load<T>(a, m, PC); } \
  void __tsan_atomic##bits##_store(volatile T* a, T v, int m) { at_store<T>(a, v, m, PC); } \
  T __tsan_atomic##bits##_exchange(volatile T* a, T v, int m) { return at_rmw<T>(a, m, PC, [=](T) { return v; }); } \
  T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int m) { return at_rmw<T>(a, m, PC, [=](T o) { return (T)(o + v); }); } \
  T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int m) { return at_rmw<T>(a, m, PC, [=](T o) { return (T)(o - v); }); } \
  T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int m) { return at_rmw<T>(a, m, PC, [=](T o) { return (T)(o & v); }); } \
  T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int m) { return at_rmw<T>(a, m, PC, [=](T o) { return (T)(o | v); }); } \
  T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int m) { return at_rmw<T>(a, m, PC, [=](T o) { return (T)(o ^ v); }); } \
  T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int m) { return at_rmw<T>(a, m, PC, [=](T o) { return (T) ~(o & v); }); } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int m, int fm) { return at_cas<T>(a, c, v, m, fm, PC, false); } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int m, int fm) { return at_cas<T>(a, c, v, m, fm, PC, true); } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int m, int fm) { at_cas<T>(a, &c, v, m, fm, PC, false); return c; }
AT(8, u8) AT(16, u16) AT(32, u32) AT(64, u64)
void __tsan_atomic_thread_fence(int m) {
  if (!tracked() || cur == 0) return;
  visible(mkop(K_FENCE));
  if (!race_on) return;
  Fiber& f = W.f[cur];
  if (acq(m) && f.has_acqf) { vc_join(f.vc, f.acqf); f.has_acqf = 0; memset(&f.acqf, 0, sizeof(VC)); }
  if (rel(m)) { f.relf = f.vc; f.has_relf = 1; ++f.vc.c[cur]; }
  if (m == mo_seq_cst) { static char fence_obj; hb_acquire_t(cur, &fence_obj); hb_release_t(cur, &fence_obj); }
}
void __tsan_atomic_signal_fence(int) {}
}

// ------------------------------------------------------------------------------------------------
// fibers
// ------------------------------------------------------------------------------------------------
static void fiber_main() {
  int t = cur;
  ghost_depth = 0;
  try {
    if (t == 0) {
      P->setup();
      // spawn
      for (int v = 1; v <= W.nthreads; ++v) { W.f[v].vc = W.f[0].vc; W.f[v].vc.c[v] = 1; W.f[v].st = ST_READY; W.f[v].op = mkop(K_START); }
      ++W.f[0].vc.c[0];
      visible(mkop(K_JOIN));
      W.joined = 1;
      for (int v = 1; v <= W.nthreads; ++v) vc_join(W.f[0].vc, W.f[v].vc);
      if (P->teardown) P->teardown();
    } else {
      P->body(t);
      if (W.f[t].dfn) mc_defer_flush();
    }
  } catch (const std::exception& e) {
    violation("uncaught-exception", "exception leaves thread %d: %s", t, e.what());
  } catch (...) {
    violation("uncaught-exception", "exception leaves thread %d", t);
  }
  W.f[t].st = ST_DONE; W.f[t].sp = stack_top(t);
  memset(&W.f[t].op, 0, sizeof(Op));
  void* dummy;
  mc_switch(&dummy, sched_sp);
  __builtin_unreachable();
}
static void fiber_prepare(int t) {
  u64* s = (u64*)(stack_top(t) - 64);
  memset(stack_top(t) - 4096, 0xEE, 4096);
  *--s = 0;                       // alignment
  *--s = (u64)&fiber_main;
  for (int i = 0; i < 6; ++i) *--s = 0;
  W.f[t].sp = s;
}
static void run_fiber(int t) {
  Fiber& f = W.f[t];
  u8* sp = (u8*)f.sp; u8* lo = sp - PREFILL; if (lo < stack_bot(t)) lo = stack_bot(t);
  memset(lo, 0xEE, sp - lo);
  void** g = (void**)__cxxabiv1::__cxa_get_globals();
  g[0] = f.eh[0]; g[1] = f.eh[1];
  if (tls_n) memcpy(tls_p, tls_store[t], tls_n);
  cur = t; ghost_depth = f.ghost; step_ctr = 0;
  int e0 = errno; errno = f.err;
  ++ops_hist[f.op.kind];
  mc_switch(&sched_sp, f.sp);
  W.f[t].err = errno; errno = e0;
  W.f[t].ghost = ghost_depth;
  cur = -1; ghost_depth = 0;
  W.f[t].eh[0] = g[0]; W.f[t].eh[1] = g[1];
  g[0] = g[1] = nullptr;
  if (tls_n) memcpy(tls_store[t], tls_p, tls_n);
}

// ------------------------------------------------------------------------------------------------
// transitions
// ------------------------------------------------------------------------------------------------
enum { T_NORMAL, T_TIMEOUT, T_SPUR, T_TICK, T_WEAK, T_JUMP, T_EINTR };
struct Trans { u8 tid, type; u16 var; };
static inline bool normal(const Trans& x) { return x.type == T_NORMAL || ((P->flags & MC_TIMEOUT_NORMAL) && (x.type == T_TIMEOUT || x.type == T_TICK)); }
static inline u32 pack(Trans x) { return x.tid | (x.type << 8) | (x.var << 16); }
static inline Trans unpack(u32 v) { return Trans{(u8)v, (u8)(v >> 8), (u16)(v >> 16)}; }

static inline i64 dl_virtual(const Op& o) {     // op deadline in virtual "now" units
  if (o.deadline == NEVER) return NEVER;
  i64 b = is_real(o.clk) ? REAL_BASE + W.jump : MONO_BASE;
  if (o.deadline > NEVER - 1 + 0 - 0 && b < 0) return NEVER;
  return o.deadline - b;
}
static inline bool expired(const Op& o) { return o.deadline != NEVER && dl_virtual(o) <= W.now; }
static const i64 FAR_FUTURE = 4000000000ll * 1000000000ll / 1; // beyond: never ticked to

static void transitions(std::vector<Trans>& out) {
  out.clear();
  if (W.aborted || W.f[0].st == ST_DONE) return;
  const int n = W.nthreads;
  // local steps run alone
  for (int t = 0; t <= n; ++t) if (W.f[t].st == ST_READY) {
    u8 k = W.f[t].op.kind;
    if (k == K_START || (k == K_JOIN && [&] { for (int v = 1; v <= n; ++v) if (W.f[v].st != ST_DONE) return false; return true; }())) { out.push_back({(u8)t, T_NORMAL, 0}); return; }
    if (k == K_CHOOSE) { for (u16 v = 0; v < W.f[t].op.nvar; ++v) out.push_back({(u8)t, T_NORMAL, v}); return; }
  }
  if (!W.joined && W.f[0].st == ST_READY && W.f[0].op.kind != K_JOIN) {   // setup: main runs alone
    // fallthrough: only main is READY
  }
  int parks = 0; int nn = 0;
  for (int t = 0; t <= n; ++t) if (W.f[t].st == ST_READY) {
    Fiber& f = W.f[t]; Op& o = f.op; u8 T = (u8)t;
    switch (o.kind) {
      case K_PARK: ++parks; break;
      case K_JOIN: break;
      case K_YIELD: case K_MTRY: case K_MUNLOCK: case K_CWAIT: case K_CBCAST: case K_RDTRY: case K_WRTRY: case K_SEMTRY: case K_SEMPOST:
      case K_SEMGET: case K_LOAD: case K_STORE: case K_RMW: case K_CAS: case K_FENCE: case K_CLOCK: case K_SLEEP:
        out.push_back({T, T_NORMAL, 0}); break;
      case K_CASW: out.push_back({T, T_NORMAL, 0}); if (P->flags & MC_WEAK) out.push_back({T, T_WEAK, V_WEAK}); break;
      case K_AWAIT: if (o.pred(o.obj)) out.push_back({T, T_NORMAL, 0}); else if (expired(o)) out.push_back({T, T_TIMEOUT, V_TIMEOUT}); break;
      case K_MLOCK: if (mx_free_for(o.obj, t)) out.push_back({T, T_NORMAL, 0}); break;
      case K_MTIMED: if (mx_free_for(o.obj, t)) out.push_back({T, T_NORMAL, 0});
        if (expired(o) && !mx_free_for(o.obj, t)) out.push_back({T, T_TIMEOUT, V_TIMEOUT}); break;
      case K_CBLOCK:
        if (f.sig) { if (mm(o.obj2)->owner == 0) out.push_back({T, T_NORMAL, 0}); }
        else { if (expired(o)) out.push_back({T, T_TIMEOUT, V_TIMEOUT}); if (P->flags & MC_SPUR) out.push_back({T, T_SPUR, 0}); }
        break;
      case K_CSIG: { int w[MAXT]; int k = waiters_of(o.obj, w); if (k == 0) k = 1; for (u16 v = 0; v < k; ++v) out.push_back({T, T_NORMAL, v}); break; }
      case K_RDLOCK: if (rd_ok(o.obj)) out.push_back({T, T_NORMAL, 0}); break;
      case K_WRLOCK: if (wr_ok(o.obj)) out.push_back({T, T_NORMAL, 0}); break;
      case K_RDTIMED: if (rd_ok(o.obj)) out.push_back({T, T_NORMAL, 0}); else if (expired(o)) out.push_back({T, T_TIMEOUT, V_TIMEOUT}); break;
      case K_WRTIMED: if (wr_ok(o.obj)) out.push_back({T, T_NORMAL, 0}); else if (expired(o)) out.push_back({T, T_TIMEOUT, V_TIMEOUT}); break;
      case K_SEMWAIT: if (sm(o.obj)->value) out.push_back({T, T_NORMAL, 0}); if (P->flags & MC_EINTR) out.push_back({T, T_EINTR, V_EINTR}); break;
      case K_SEMTIMED: if (sm(o.obj)->value) out.push_back({T, T_NORMAL, 0}); else if (expired(o)) out.push_back({T, T_TIMEOUT, V_TIMEOUT});
        if (P->flags & MC_EINTR) out.push_back({T, T_EINTR, V_EINTR}); break;
      case K_SPIN: if (*(volatile int*)o.obj == 0) out.push_back({T, T_NORMAL, 0}); break;
      case K_GUARD: if (((u8*)o.obj)[1] == 0 || *(u8*)o.obj == 1) out.push_back({T, T_NORMAL, 0}); break;
      default: engine_error("bad op kind %d", o.kind);
    }
  }
  if (P->flags & MC_TICK && W.f[0].op.kind == K_JOIN) {
    i64 nx = NEVER;
    for (int t = 1; t <= n; ++t) if (W.f[t].st == ST_READY) {
      i64 d = dl_virtual(W.f[t].op); if (d > W.now && d < nx) nx = d;
      d = W.f[t].interest; if (d > W.now && d < nx) nx = d;
    }
    if (nx < FAR_FUTURE) out.push_back({0, T_TICK, 0});
    if ((P->flags & MC_JUMP) && W.jumps == 0) { out.push_back({0, T_JUMP, 0}); out.push_back({0, T_JUMP, 1}); }
  }
  for (auto& x : out) if (normal(x)) ++nn;
  if (nn == 0 && parks) for (int t = 1; t <= n; ++t) if (W.f[t].st == ST_READY && W.f[t].op.kind == K_PARK) out.push_back({(u8)t, T_NORMAL, 0});
}

static std::string describe(const Trans& x) {
  char b[400];
  if (x.type == T_TICK) return "time passes";
  if (x.type == T_JUMP) return x.var ? "wall clock jumps back 1h" : "wall clock jumps ahead 1h";
  Op& o = W.f[x.tid].op;
  const char* suffix = x.type == T_TIMEOUT ? " TIMES OUT" : x.type == T_SPUR ? " SPURIOUS WAKEUP" : x.type == T_WEAK ? " FAILS SPURIOUSLY" : x.type == T_EINTR ? " INTERRUPTED" : "";
  char extra[40] = ""; if (o.kind == K_CHOOSE) snprintf(extra, sizeof extra, " -> %d of %d", x.var, o.nvar); else if (o.kind == K_CSIG && x.var) snprintf(extra, sizeof extra, " (waiter #%d)", x.var);
  snprintf(b, sizeof b, "T%d %s%s%s%s%s%s%s", x.tid, kind_name[o.kind], o.kind == K_CBLOCK && o.obj ? (W.f[x.tid].sig ? " returns" : "") : "", o.label ? " " : "", o.label ? o.label : "",
    o.obj && o.kind != K_AWAIT ? " " : "", o.obj && o.kind != K_AWAIT ? mc_addr_name(o.obj) : "", "");
  return std::string(b) + extra + suffix;
}

static void call_cb(void (*fn)()) { if (fn) fn(); }

u64 live_marker;
// executes one transition; the violation (if any) is in viol
static void execute(const Trans& x) {
  ++live_marker;
  engine_jmp_set = true;
  if (sigsetjmp(engine_jmp, 0)) { engine_jmp_set = false; return; }
  if (tracing) tr("%s", describe(x).c_str());
  switch (x.type) {
    case T_TICK: {
      i64 nx = NEVER;
      for (int t = 1; t <= W.nthreads; ++t) if (W.f[t].st == ST_READY) {
        i64 d = dl_virtual(W.f[t].op); if (d > W.now && d < nx) nx = d;
        d = W.f[t].interest; if (d > W.now && d < nx) nx = d; }
      W.now = nx; call_cb(P->on_tick); break; }
    case T_JUMP: W.jumps = 1; W.jump = (x.var ? -1 : 1) * 3600ll * 1000000000ll; call_cb(P->on_tick); break;
    default: {
      Fiber& f = W.f[x.tid];
      if (f.op.kind == K_CBLOCK && x.type == T_TIMEOUT) { f.sig = 2; break; }
      if (f.op.kind == K_CBLOCK && x.type == T_SPUR) { f.sig = 3; break; }
      if (f.op.kind == K_PARK) {
        for (int t = 1; t <= W.nthreads; ++t) if (W.f[t].st == ST_READY && W.f[t].op.kind != K_PARK) flush_defer(t);
        call_cb(P->on_quiescent);
      }
      if (f.op.kind != K_CHOOSE && f.op.kind != K_START) flush_defer(x.tid);
      f.variant = x.var;
      engine_jmp_set = false;
      run_fiber(x.tid);
    }
  }
  engine_jmp_set = false;
}

// ------------------------------------------------------------------------------------------------
// hashing
// ------------------------------------------------------------------------------------------------
static inline u64 mix(u64 a, u64 b) { __uint128_t r = (__uint128_t)(a ^ 0x9E3779B97F4A7C15ull) * (b ^ 0xD6E8FEB86659FD93ull); return (u64)r ^ (u64)(r >> 64); }
static u64 hbytes(u64 h, const void* p, size_t n) {
  const u8* s = (const u8*)p; u64 x, y;
  while (n >= 16) { memcpy(&x, s, 8); memcpy(&y, s + 8, 8); h = mix(h ^ x, y + 0x632BE59BD9B4E019ull); s += 16; n -= 16; }
  if (n >= 8) { memcpy(&x, s, 8); h = mix(h ^ x, 0x1234567); s += 8; n -= 8; }
  if (n) { x = 0; memcpy(&x, s, n); h = mix(h ^ x, n + 77); }
  return h;
}

static int hw_used, hw_sync, hw_held, hw_canon;      // high-water marks of the fixed tables
struct Canon { u32 v[MAXT][256]; int n[MAXT]; u32 min[MAXT]; };
static Canon cn;
static inline void cn_add(int u, u32 v) {
  if (v <= cn.min[u]) return;
  u32* a = cn.v[u]; int n = cn.n[u];
  int i = n; while (i > 0 && a[i - 1] > v) --i;
  if (i > 0 && a[i - 1] == v) return;
  if (n == 256) engine_error("canon overflow");
  if (n > hw_canon) hw_canon = n;
  for (int j = n; j > i; --j) a[j] = a[j - 1];
  a[i] = v; cn.n[u] = n + 1;
}
static inline u32 cn_rank(int u, u32 v) {
  if (v <= cn.min[u]) return 0;
  u32* a = cn.v[u]; int n = cn.n[u]; for (int i = 0; i < n; ++i) if (a[i] == v) return i + 1;
  engine_error("canon rank");
}
static bool live_t(int t) { return t >= 1 && t <= W.nthreads && W.f[t].st == ST_READY; }

// drops information that can never matter again; keeps the state small
static void gc_and_drop(int) {
  hw_held = std::max(hw_held, W.nheld);
  if (!race_on) return;
  hw_used = std::max(hw_used, nused); hw_sync = std::max(hw_sync, W.nsync);
  for (int u = 0; u < MAXT; ++u) { u32 m = 0xffffffff; for (int v = 1; v <= W.nthreads; ++v) if (v != u && live_t(v)) m = std::min(m, W.f[v].vc.c[u]); cn.min[u] = m; cn.n[u] = 0; }
  bool rebuild = false;
  for (int i = 0; i < nused; ++i) {
    Cell& c = cells[used[i]];
    u64 a = c.key << 3; int s = stack_of(a);
    if (s >= 0 && (W.f[s].st != ST_READY || a + 8 <= (u64)W.f[s].sp)) c.n = 0;
    u32 k = 0;
    for (u32 j = 0; j < c.n; ++j) { Entry& e = c.e[j]; if (e.clk > cn.min[e.tid]) { if (k != j) c.e[k] = e; ++k; } }
    c.n = k; if (k == 0) rebuild = true;
  }
  if (rebuild) {
    static Cell tmp[MAXUSED]; int n = 0;
    for (int i = 0; i < nused; ++i) if (cells[used[i]].n) tmp[n++] = cells[used[i]];
    cells_clear();
    for (int i = 0; i < n; ++i) { Cell* c = cell_get(tmp[i].key); c->n = tmp[i].n; memcpy(c->e, tmp[i].e, sizeof(Entry) * tmp[i].n); }
  }
  for (int i = 0; i < W.nsync;) {
    SyncVar& s = W.sync[i]; bool alive = false;
    for (int u = 0; u < MAXT; ++u) if (s.vc.c[u] > cn.min[u]) alive = true;
    u64 a = s.addr; int st = stack_of(a);
    if (st >= 0 && (W.f[st].st != ST_READY || a < (u64)W.f[st].sp)) alive = false;
    if (!alive) sync_erase(i); else ++i;
  }
}

static u64 state_hash() {
  u64 h = 0x51ab;
  const int n = W.nthreads;
  h = mix(h ^ (u64)W.now ^ (u64)W.natives << 48, (u64)W.jump + W.jumps + 3 * W.aborted + 5 * W.joined);
  for (int t = 0; t <= n; ++t) {
    Fiber& f = W.f[t];
    h = mix(h ^ (f.st | (u64)f.sig << 8 | (u64)f.ghost << 16), (u64)f.sp + f.alias * 0x10000000000ull);
    if (f.st != ST_READY) { h = mix(h, f.arena_used); }
    else {
      h = hbytes(h, &f.op, sizeof(Op));
      h = mix(h ^ (u64)f.eh[0], (u64)f.eh[1] + (u64)(f.err));
      h = mix(h ^ (u64)f.interest, (u64)f.dfn); h = mix(h ^ f.da, f.db + f.arena_used);
      h = hbytes(h, f.sp, stack_top(t) - (u8*)f.sp);
      if (tls_n) h = hbytes(h, tls_store[t], tls_n);
    }
    // heap: live blocks
    u8* p = arena_p(t); u8* e = p + f.arena_used;
    while (p + sizeof(Blk) <= e) {
      Blk* b = (Blk*)p;
      if (b->state == 1) h = hbytes(mix(h, b->size | (u64)(p - arena_p(t)) << 32), p + sizeof(Blk), b->size);     // how the gaps are cut up is of no consequence
      p += sizeof(Blk) + b->size;
    }
  }
  for (auto& s : segs) h = hbytes(h, s.p, s.n);
  h = hbytes(h, ghost_p(), GHOST_AUX + W.glen);
  h = hbytes(h, W.held, sizeof(Held) * W.nheld);
  if (race_on) {
    gc_and_drop(0);
    for (int v = 1; v <= n; ++v) if (live_t(v)) { Fiber& f = W.f[v]; for (int u = 0; u <= n; ++u) { cn_add(u, f.vc.c[u]); if (f.has_relf) cn_add(u, f.relf.c[u]); if (f.has_acqf) cn_add(u, f.acqf.c[u]); } }
    for (int i = 0; i < W.nsync; ++i) for (int u = 0; u <= n; ++u) cn_add(u, W.sync[i].vc.c[u]);
    for (int i = 0; i < nused; ++i) { Cell& c = cells[used[i]]; for (u32 j = 0; j < c.n; ++j) cn_add(c.e[j].tid, c.e[j].clk); }
    for (int v = 1; v <= n; ++v) if (live_t(v)) { Fiber& f = W.f[v]; u64 x = 0, y = 0, z = 0;
      for (int u = 0; u <= n; ++u) { x = x * 131 + cn_rank(u, f.vc.c[u]); if (f.has_relf) y = y * 131 + cn_rank(u, f.relf.c[u]) + 1; if (f.has_acqf) z = z * 131 + cn_rank(u, f.acqf.c[u]) + 1; }
      h = mix(h ^ x, y * 7919 + z); }
    for (int i = 0; i < W.nsync; ++i) { u64 x = 0; for (int u = 0; u <= n; ++u) x = x * 131 + cn_rank(u, W.sync[i].vc.c[u]); h = mix(h ^ W.sync[i].addr, x + 11); }
    u64 sum = 0;
    for (int i = 0; i < nused; ++i) { Cell& c = cells[used[i]]; u64 s = 0; for (u32 j = 0; j < c.n; ++j) { Entry& e = c.e[j]; s += mix(cn_rank(e.tid, e.clk) + 1000 * e.tid + 7, e.mask * 16 + e.flags + 3); } sum += mix(c.key, s); }
    h = mix(h, sum);
  }
  return h;
}

// ------------------------------------------------------------------------------------------------
// snapshots
// ------------------------------------------------------------------------------------------------
struct Snap { std::vector<u8> b; };
static std::vector<std::vector<u8>> pool;
static void put(std::vector<u8>& b, const void* p, size_t n) { size_t o = b.size(); b.resize(o + n); memcpy(&b[o], p, n); }
static void snap_save(std::vector<u8>& b) {
  b.clear();
  size_t whead = offsetof(World, sync);
  put(b, &W, whead); put(b, W.sync, sizeof(SyncVar) * W.nsync);
  put(b, &nused, sizeof nused);
  for (int i = 0; i < nused; ++i) { Cell& c = cells[used[i]]; put(b, &c, offsetof(Cell, e) + sizeof(Entry) * c.n); }
  put(b, ghost_p(), GHOST_AUX + W.glen);
  for (int t = 0; t <= W.nthreads; ++t) {
    Fiber& f = W.f[t];
    if (f.st == ST_READY) put(b, f.sp, stack_top(t) - (u8*)f.sp);
    put(b, arena_p(t), f.arena_used); put(b, live[t], (f.arena_used + 7) / 8);
    if (tls_n) put(b, tls_store[t], tls_n);
  }
  for (auto& s : segs) put(b, s.p, s.n);
}
static void snap_load(const std::vector<u8>& b) {
  const u8* p = b.data();
  u32 old_used[MAXT]; for (int t = 0; t < MAXT; ++t) old_used[t] = W.f[t].arena_used;
  auto get = [&](void* d, size_t n) { memcpy(d, p, n); p += n; };
  size_t whead = offsetof(World, sync);
  get(&W, whead); get(W.sync, sizeof(SyncVar) * W.nsync);
  cells_clear();
  int n; get(&n, sizeof n);
  for (int i = 0; i < n; ++i) { Cell h; memcpy(&h, p, offsetof(Cell, e)); Cell* c = cell_get(h.key); c->n = h.n; get(c, offsetof(Cell, e) + sizeof(Entry) * h.n); }
  get(ghost_p(), GHOST_AUX + W.glen);
  for (int t = 0; t <= W.nthreads; ++t) {
    Fiber& f = W.f[t];
    if (f.st == ST_READY) get(f.sp, stack_top(t) - (u8*)f.sp);
    get(arena_p(t), f.arena_used); get(live[t], (f.arena_used + 7) / 8);
    if (old_used[t] > f.arena_used) { memset(&live[t][(f.arena_used + 7) / 8], 0, (old_used[t] + 7) / 8 + 2 - (f.arena_used + 7) / 8); }
    if (tls_n) get(tls_store[t], tls_n);
  }
  for (int t = W.nthreads + 1; t < MAXT; ++t) if (old_used[t]) memset(live[t], 0, sizeof live[t]);
  for (auto& s : segs) get(s.p, s.n);
}

// ------------------------------------------------------------------------------------------------
// exploration
// ------------------------------------------------------------------------------------------------
struct HSet {
  std::vector<u64> k; std::vector<u32> v; size_t n = 0, mask;
  HSet() { k.assign(1 << 16, 0); v.assign(1 << 16, 0); mask = (1 << 16) - 1; }
  u32* find(u64 h, bool& fresh) {
    if (h == 0) h = 1;
    if ((n + 1) * 2 > k.size()) grow();
    size_t i = (h * 0x9E3779B97F4A7C15ull >> 20) & mask;
    while (k[i]) { if (k[i] == h) { fresh = false; return &v[i]; } i = (i + 1) & mask; }
    k[i] = h; ++n; fresh = true; return &v[i];
  }
  void grow() {
    std::vector<u64> ok; std::vector<u32> ov; ok.swap(k); ov.swap(v);
    k.assign(ok.size() * 2, 0); v.assign(ok.size() * 2, 0); mask = k.size() - 1;
    for (size_t j = 0; j < ok.size(); ++j) if (ok[j]) { size_t i = (ok[j] * 0x9E3779B97F4A7C15ull >> 20) & mask; while (k[i]) i = (i + 1) & mask; k[i] = ok[j]; v[i] = ov[j]; }
  }
};

struct Frame { std::vector<u8> snap; std::vector<Trans> tr; size_t idx; u32 id; };
static std::set<std::string> kinds_wanted; static bool kinds_all = true;
// "kind@mark": only on paths that have passed mc_mark(mark).  A state first reached without the mark does not need it, so
// what follows from it is not an effect of the marked event.
static const char* const mark_name[] = {"failed", "report"};
static bool kind_reported(const char* k) {
  if (kinds_all || kinds_wanted.count(k)) return true;
  for (u32 i = 0; i < 2; ++i) if ((W.marks >> i & 1) && kinds_wanted.count(std::string(k) + "@" + mark_name[i])) return true;
  return false;
}
static std::vector<u8> pristine;

struct Stats { u64 states = 0, trans = 0, terms = 0, quies = 0, foreign = 0, maxdepth = 0, validated = 0, aborts = 0; bool capped = false; std::string cap; std::map<std::string, u64> foreign_kinds; };

static void boot() {     // program start: everything pristine, main about to run setup
  memset(&W, 0, sizeof W); cells_clear(); memset(live, 0, sizeof live);
  memset(ghost_p(), 0, GHOST_SZ);
  W.nthreads = P->nthreads;
  const u8* p = pristine.data(); for (auto& s : segs) { memcpy(s.p, p, s.n); p += s.n; }
  for (int t = 0; t <= P->nthreads; ++t) { fiber_prepare(t); W.f[t].interest = NEVER; W.f[t].err = 0; if (tls_n) memcpy(tls_store[t], tls_init.data(), tls_n); }
  W.f[0].st = ST_READY; W.f[0].op = mkop(K_START); W.f[0].vc.c[0] = 1;
}

static bool check_stuck(const std::vector<Trans>& tr_) {    // state-level check; sets viol
  if (W.aborted || W.f[0].st == ST_DONE) return false;
  for (auto& x : tr_) if (normal(x)) return false;
  std::string s = "no thread can make progress:";
  for (int t = 0; t <= W.nthreads; ++t) if (W.f[t].st == ST_READY && W.f[t].op.kind != K_JOIN) {
    char b[160]; Op& o = W.f[t].op; snprintf(b, sizeof b, " T%d in %s%s%s %s;", t, kind_name[o.kind], o.label ? " " : "", o.label ? o.label : "", o.kind == K_AWAIT ? "" : mc_addr_name(o.obj)); s += b; }
  if (!viol.set) { viol.set = true; snprintf(viol.kind, sizeof viol.kind, "%s", W.joined || W.f[0].op.kind != K_JOIN ? "setup-or-teardown-blocked" : "deadlock"); snprintf(viol.msg, sizeof viol.msg, "%s", s.c_str()); viol.tid = -1; viol.pc = 0; }
  return true;
}

static std::vector<u32> g_parent, g_ptrans;
static void path_to(u32 id, std::vector<Trans>& out) { out.clear(); while (id != 0) { out.push_back(unpack(g_ptrans[id])); id = g_parent[id]; } std::reverse(out.begin(), out.end()); }

static std::string so_path;
static std::string jesc(const std::string& s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((u8)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }

static void print_viol(const std::vector<Trans>& path) {
  printf("{\"program\":\"%s\",\"violation\":{\"kind\":\"%s\",\"msg\":\"%s\",\"tid\":%d,\"pc\":\"0x%llx\",\"path\":[", jesc(P->name).c_str(), viol.kind, jesc(viol.msg).c_str(), viol.tid, (unsigned long long)(viol.pc ? viol.pc - so_base : 0));
  for (size_t i = 0; i < path.size(); ++i) printf("%s%u", i ? "," : "", pack(path[i]));
  printf("]}");
}

static double now_s() { struct timespec ts; cur = -1; static auto r = REAL_FN(clock_gettime); r(CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }

struct Limits { u64 max_states = 20000000; double max_s = 1e9; u64 max_mb = 1 << 20; };
static u64 resident_mb() { std::ifstream f("/proc/self/statm"); u64 a = 0, b = 0; f >> a >> b; return b >> 8; }

static void print_stats(const Stats& st, double wall, const std::vector<std::string>& sample) {
  printf(",\"states\":%llu,\"transitions\":%llu,\"terminals\":%llu,\"aborts\":%llu,\"quiescent_points\":%llu,\"foreign\":%llu,\"max_depth\":%llu,\"validated\":%llu,\"capped\":%s,\"cap\":\"%s\",\"outcomes\":%zu,\"wall_s\":%.3f",
    (unsigned long long)st.states, (unsigned long long)st.trans, (unsigned long long)st.terms, (unsigned long long)st.aborts, (unsigned long long)st.quies, (unsigned long long)st.foreign, (unsigned long long)st.maxdepth, (unsigned long long)st.validated, st.capped ? "true" : "false", jesc(st.cap).c_str(), outcomes.size(), wall);
  printf(",\"high_water\":[%d,%d,%d,%d]", hw_used, hw_sync, hw_held, hw_canon);
  printf(",\"foreign_kinds\":{"); bool first = true; for (auto& x : st.foreign_kinds) { printf("%s\"%s\":%llu", first ? "" : ",", jesc(x.first).c_str(), (unsigned long long)x.second); first = false; } printf("}");
  printf(",\"ops\":{"); first = true; for (int k = 1; k < K_MAX; ++k) if (ops_hist[k]) { printf("%s\"%s\":%llu", first ? "" : ",", kind_name[k], (unsigned long long)ops_hist[k]); first = false; } printf("}");
  printf(",\"coverage\":{"); first = true; for (auto& x : coverage) { printf("%s\"%s\":%llu", first ? "" : ",", jesc(x.first).c_str(), (unsigned long long)x.second); first = false; } printf("}");
  printf(",\"sample\":["); for (size_t i = 0; i < sample.size() && i < 80; ++i) printf("%s\"%s\"", i ? "," : "", jesc(sample[i]).c_str()); printf("]");
}

static bool in_set(const std::vector<Trans>& v, Trans x) { for (auto& y : v) if (pack(x) == pack(y)) return true; return false; }

// re-executes a path from program start; returns hash of the final state; stops at a violation
static bool replay(const std::vector<Trans>& path, u64& h, std::vector<std::string>* out) {
  boot(); viol.set = false;
  tracing = out != nullptr; trace_out = out;
  std::vector<Trans> en; bool ok = true;
  for (size_t i = 0; i < path.size(); ++i) {
    transitions(en);
    if (!in_set(en, path[i])) { ok = false; if (out) out->push_back("REPLAY DIVERGED: recorded step is not enabled"); break; }
    execute(path[i]);
    if (viol.set) break;
    if (race_on) gc_and_drop(0);
  }
  tracing = false; trace_out = nullptr;
  h = viol.set ? 0 : state_hash();
  return ok;
}

static int explore(const Limits& lim, Stats& st, u32 sample_max, std::vector<std::string>& sample) {
  HSet seen; std::vector<u64> edges; std::vector<u8> term; std::vector<u32> term_ids; std::vector<u64> hashes;
  g_parent.clear(); g_ptrans.clear();
  std::vector<Frame> fr; std::vector<Trans> en;
  double t0 = now_s();
  boot();
  size_t depth = 0;
  auto push = [&](u32 id) { if (fr.size() <= depth) fr.resize(depth + 64); Frame& f = fr[depth]; if (en.size() > 1) snap_save(f.snap); f.tr = en; f.idx = 0; f.id = id; ++depth; if (depth > st.maxdepth) st.maxdepth = depth; };
  auto new_state = [&](u32 parent, u32 pt) -> u32 { u32 id = (u32)term.size(); term.push_back(0); g_parent.push_back(parent); g_ptrans.push_back(pt); return id; };
  bool fresh; u64 h = state_hash(); *seen.find(h, fresh) = new_state(0, 0); hashes.push_back(h); st.states = 1;
  transitions(en); push(0);
  auto cur_path = [&](std::vector<Trans>& p) { p.clear(); for (size_t i = 0; i < depth; ++i) p.push_back(fr[i].tr[fr[i].idx - 1]); };
  bool have_state = true;     // live memory equals top frame's snapshot
  while (depth) {
    Frame& f = fr[depth - 1];
    if (f.idx == f.tr.size()) { --depth; have_state = false; continue; }
    if (!have_state) snap_load(f.snap);
    Trans x = f.tr[f.idx++]; u32 from = f.id;
    bool nrm = normal(x);
    if (W.f[x.tid].op.kind == K_PARK && x.type == T_NORMAL) ++st.quies;
    viol.set = false;
    execute(x); ++st.trans; have_state = false;
    if (viol.set) {
      if (kind_reported(viol.kind)) { std::vector<Trans> p; cur_path(p); print_viol(p); return 1; }
      ++st.foreign; ++st.foreign_kinds[viol.kind]; viol.set = false;
      // pruned: outcome belongs to another property; treat as terminal for the progress analysis
      u64 hh = mix(0xf0f0, 0x1717); u32* s = seen.find(hh, fresh); if (fresh) { *s = new_state(from, pack(x)); hashes.push_back(0); term[*s] = 2; }
      if (nrm) edges.push_back((u64)from << 32 | *s);
      continue;
    }
    h = state_hash();
    u32* slot = seen.find(h, fresh); u32 id;
    if (fresh) { id = new_state(from, pack(x)); *slot = id; hashes.push_back(h); ++st.states; } else id = *slot;
    if (nrm) edges.push_back((u64)from << 32 | id);
    if (!fresh) continue;
    transitions(en);
    if (W.f[0].st == ST_DONE || W.aborted) { term[id] = 1; if (W.aborted) ++st.aborts; else ++st.terms; term_ids.push_back(id); continue; }
    viol.set = false;
    if (check_stuck(en)) {
      if (kind_reported(viol.kind)) { std::vector<Trans> p; cur_path(p); print_viol(p); return 1; }
      ++st.foreign; ++st.foreign_kinds[viol.kind]; viol.set = false; term[id] = 2;
      // still explore its abnormal successors
    }
    if (st.states >= lim.max_states) { st.capped = true; st.cap = "max states"; break; }
    if ((st.states & 1023) == 0 && now_s() - t0 > lim.max_s) { st.capped = true; st.cap = "time"; break; }
    if ((st.states & 16383) == 0 && resident_mb() > lim.max_mb) { st.capped = true; st.cap = "memory"; break; }
    push(id); have_state = true;
  }
  // progress: from every state, ordinary steps alone can finish the program
  if (!st.capped && !(P->flags & MC_NOLIVE)) {
    u32 n = (u32)term.size(); std::vector<u32> deg(n + 2, 0); std::vector<u32> adj(edges.size());
    for (u64 e : edges) ++deg[(u32)e + 1];
    for (u32 i = 0; i < n + 1; ++i) deg[i + 1] += deg[i];
    { std::vector<u32> pos(deg.begin(), deg.end()); for (u64 e : edges) adj[pos[(u32)e]++] = (u32)(e >> 32); }
    std::vector<u8> ok(n, 0); std::vector<u32> q;
    for (u32 i = 0; i < n; ++i) if (term[i]) { ok[i] = 1; q.push_back(i); }
    for (size_t i = 0; i < q.size(); ++i) for (u32 j = deg[q[i]]; j < deg[q[i] + 1]; ++j) if (!ok[adj[j]]) { ok[adj[j]] = 1; q.push_back(adj[j]); }
    int tried = 0;
    for (u32 i = 0; i < n; ++i) if (!ok[i]) {
      std::vector<Trans> p; path_to(i, p); u64 hh;
      if (!kinds_all && !kinds_wanted.count("livelock")) { replay(p, hh, nullptr); if (!kind_reported("livelock")) { ++st.foreign; ++st.foreign_kinds["livelock"]; if (++tried < 100) continue; break; } }
      viol.set = true; snprintf(viol.kind, sizeof viol.kind, "livelock"); snprintf(viol.msg, sizeof viol.msg, "from the reached state no sequence of ordinary steps ever completes all operations (threads run on or wait for ever)"); viol.tid = -1; viol.pc = 0;
      print_viol(p); return 1;
    }
  }
  // re-execute some explored traces from the start, against the implementation alone
  if (!term_ids.empty()) {
    u32 k = (u32)std::min<size_t>(sample_max, term_ids.size());
    for (u32 i = 0; i < k; ++i) {
      u32 id = term_ids[(size_t)i * term_ids.size() / k]; std::vector<Trans> p; path_to(id, p); u64 hh; std::vector<std::string> out;
      if (!replay(p, hh, i == 0 ? &out : nullptr) || hh != hashes[id]) engine_error("program %s: replayed trace diverges from the explored one", P->name);
      ++st.validated; if (i == 0) sample = out;
    }
  }
  return 0;
}

// from the current state: can ordinary steps reach the end? (confirms a livelock report)
static bool can_finish(u64 cap) {
  HSet seen; std::vector<Frame> fr; std::vector<Trans> en; bool fresh; size_t depth = 0; bool have = true; u64 n = 0;
  auto push = [&] { transitions(en); if (fr.size() <= depth) fr.resize(depth + 64); Frame& f = fr[depth]; snap_save(f.snap); f.tr = en; f.idx = 0; ++depth; };
  seen.find(state_hash(), fresh); push();
  while (depth) {
    Frame& f = fr[depth - 1]; if (f.idx == f.tr.size()) { --depth; have = false; continue; }
    if (!have) snap_load(f.snap);
    Trans x = f.tr[f.idx++]; if (!normal(x)) { continue; }
    viol.set = false; execute(x); have = false;
    if (viol.set) return true;
    if (W.f[0].st == ST_DONE || W.aborted) return true;
    seen.find(state_hash(), fresh); if (!fresh) continue;
    if (++n > cap) return true;
    push(); have = true;
  }
  return false;
}

// ------------------------------------------------------------------------------------------------
// start-up
// ------------------------------------------------------------------------------------------------
static void on_segv(int sig, siginfo_t* si, void* uc) {
  u64 pc = (u64)((ucontext_t*)uc)->uc_mcontext.gregs[REG_RIP];
  if (cur >= 0) {
    last_pc = pc; u64 a = (u64)si->si_addr; int s = stack_of(a);
    if (s >= 0 && a < (u64)stack_bot(s)) violation("stack-overflow", "thread %d overflows its stack (unbounded recursion)", cur);
    violation("crash", "signal %d in thread %d at address %p", sig, cur, si->si_addr);
  }
  fprintf(stderr, "ENGINE-ERROR: signal %d at pc %p addr %p\n", sig, (void*)pc, si->si_addr);
  _exit(3);
}
static void on_timer(int, siginfo_t*, void*) {
  static u64 last_trans_marker; static int same;
  if (cur >= 0 && live_marker == last_trans_marker) { if (++same >= 3) { same = 0; violation("endless-loop", "thread %d runs for ever without a scheduling point", cur); } }
  else { same = 0; last_trans_marker = live_marker; }
}

static int phdr_cb(struct dl_phdr_info* i, size_t, void* arg) {
  if (!i->dlpi_name || strcmp(i->dlpi_name, (const char*)arg)) return 0;
  so_base = i->dlpi_addr; so_lo = ~0ull; so_hi = 0;
  u64 rlo = 0, rhi = 0;
  for (int k = 0; k < i->dlpi_phnum; ++k) { auto& p = i->dlpi_phdr[k]; if (p.p_type == PT_GNU_RELRO) { rlo = so_base + p.p_vaddr; rhi = (rlo + p.p_memsz + 4095) & ~4095ull; } }
  for (int k = 0; k < i->dlpi_phnum; ++k) {
    auto& p = i->dlpi_phdr[k];
    if (p.p_type == PT_LOAD && (p.p_flags & PF_W)) {
      u64 lo = so_base + p.p_vaddr, hi = lo + p.p_memsz;
      if (rlo <= lo && rhi > lo) lo = std::min(hi, rhi);
      if (lo < hi) { segs.push_back(Seg{(u8*)lo, (size_t)(hi - lo)}); so_lo = std::min(so_lo, lo); so_hi = std::max(so_hi, hi); }
    }
    if (p.p_type == PT_TLS && p.p_memsz) { unsigned long ti[2] = {i->dlpi_tls_modid, 0}; tls_p = (u8*)__tls_get_addr(ti); tls_n = p.p_memsz; }
  }
  return 1;
}

static void term_handler() { if (in_fiber()) violation("terminate", "std::terminate in thread %d (exception out of a noexcept function?)", cur); fprintf(stderr, "ENGINE-ERROR: terminate\n"); _exit(3); }

int main(int argc, char** argv) {
  __libc_single_threaded = 0;  // the reference counts of shared_ptr are atomic, as in a real multi-threaded process
  std::string so, prog, replay_path, kinds; bool list = false; Limits lim; u32 sample_max = 6; const char* tier = "quick"; bool dotrace = false; std::string exp_kind;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "--list") list = true;
    else if (a == "--prog") prog = argv[++i];
    else if (a == "--tier") tier = argv[++i];
    else if (a == "--max-states") lim.max_states = strtoull(argv[++i], 0, 0);
    else if (a == "--max-s") lim.max_s = atof(argv[++i]);
    else if (a == "--max-mb") lim.max_mb = strtoull(argv[++i], 0, 10);
    else if (a == "--replay") { replay_path = argv[++i]; if (replay_path[0] == '@') { std::ifstream in(replay_path.substr(1)); std::getline(in, replay_path); } dotrace = true; }
    else if (a == "--expect") exp_kind = argv[++i];
    else if (a == "--kinds") kinds = argv[++i];
    else if (a == "--samples") sample_max = atoi(argv[++i]);
    else if (a == "--munlock") munlock_visible = true;
    else so = a;
  }
  if (!kinds.empty()) { kinds_all = false; size_t p = 0; while (p < kinds.size()) { size_t q = kinds.find(',', p); if (q == std::string::npos) q = kinds.size(); kinds_wanted.insert(kinds.substr(p, q - p)); p = q + 1; } }
  void* m = mmap((void*)REGION, REGION_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (m != (void*)REGION) engine_error("cannot map the model region");
  for (int t = 0; t < MAXT; ++t) mprotect((void*)(REGION + STACK_OFF + t * STACK_STRIDE), STACK_STRIDE - STACK_SZ, PROT_NONE);
  char* rp = realpath(so.c_str(), nullptr); if (!rp) engine_error("no library %s", so.c_str()); so_path = rp;
  void* dl = dlopen(rp, RTLD_NOW | RTLD_LOCAL); if (!dl) engine_error("dlopen: %s", dlerror());
  auto reg = (void (*)(std::vector<mc_program>&, const char*))dlsym(dl, "mc_programs"); if (!reg) engine_error("no mc_programs");
  std::vector<mc_program> progs; reg(progs, tier);
  if (list) { for (auto& p : progs) printf("%s\n", p.name); return 0; }
  for (auto& p : progs) if (prog == p.name) P = &p;
  if (!P) engine_error("no program '%s'", prog.c_str());
  if (P->flags & MC_MUNLOCK) munlock_visible = true;
  if (P->nthreads >= MAXT) engine_error("too many threads");
  race_on = !(P->flags & MC_NORACE);
  dl_iterate_phdr(phdr_cb, rp);
  if (segs.empty()) { so_lo = so_hi = 0; }
  if (tls_n) { // touch TLS through the library is lazy: find again after reg
    if (!tls_p) engine_error("thread-local storage of the library is not allocated");
    tls_init.assign(tls_p, tls_p + tls_n); for (int t = 0; t < MAXT; ++t) tls_store[t] = (u8*)__libc_malloc(tls_n); }
  pristine.clear(); for (auto& s : segs) put(pristine, s.p, s.n);
  stack_t ss; ss.ss_sp = __libc_malloc(1 << 16); ss.ss_size = 1 << 16; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_segv; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  sigaction(SIGSEGV, &sa, nullptr); sigaction(SIGBUS, &sa, nullptr); sigaction(SIGILL, &sa, nullptr); sigaction(SIGFPE, &sa, nullptr);
  sa.sa_sigaction = on_timer; sigaction(SIGVTALRM, &sa, nullptr);
  struct itimerval itv; itv.it_interval.tv_sec = 2; itv.it_interval.tv_usec = 0; itv.it_value = itv.it_interval; setitimer(ITIMER_VIRTUAL, &itv, nullptr);
  std::set_terminate(term_handler);
  // force lazy binding / first-throw initialisation outside the model
  try { throw 1; } catch (...) {}

  double t0 = now_s();
  if (dotrace) {
    std::vector<Trans> path; std::string s = replay_path; size_t p = 0;
    while (p < s.size()) { path.push_back(unpack((u32)strtoul(s.c_str() + p, 0, 0))); size_t q = s.find(',', p); if (q == std::string::npos) break; p = q + 1; }
    std::vector<std::string> out; u64 h; bool ok = replay(path, h, &out);
    for (auto& l : out) printf("%s\n", l.c_str());
    if (!ok) { printf("NOT-CONFIRMED\n"); return 4; }
    if (!viol.set) { std::vector<Trans> en; transitions(en); check_stuck(en); }
    if (!viol.set && exp_kind == "livelock") { if (!can_finish(5000000)) { viol.set = true; strcpy(viol.kind, "livelock"); strcpy(viol.msg, "no sequence of ordinary steps completes the program from here"); } }
    if (viol.set) { printf("CONFIRMED %s: %s\n", viol.kind, viol.msg); return exp_kind.empty() || exp_kind == viol.kind ? 1 : 4; }
    printf("NOT-CONFIRMED\n"); return 4;
  }
  Stats st; std::vector<std::string> sample;
  int rc = explore(lim, st, sample_max, sample);
  if (rc == 0) printf("{\"program\":\"%s\"", jesc(P->name).c_str());
  print_stats(st, now_s() - t0, sample); printf("}\n");
  fflush(stdout);
  _exit(rc);
}
