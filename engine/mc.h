// Interface between the model checker (engine/mc.cpp) and the harnesses.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <vector>

extern "C" {
// ---- nondeterminism, scheduling --------------------------------------------------------------
int  mc_choose(int n, const char* label);          // explored exhaustively: returns 0..n-1
void mc_park(const char* label);                   // continues only when no other thread can move
void mc_yield(const char* label);                  // a plain scheduling point
void mc_await(bool (*pred)(void*), void* arg, const char* label);   // atomic "wait until pred" step
// as mc_await, but may give up once the virtual clock (ns) reaches deadline: returns false then.
// deadline < 0: never.  deadline 0 : give up is possible at once when pred is false.
bool mc_await_until(bool (*pred)(void*), void* arg, int64_t deadline_ns, const char* label);
bool mc_await_clock(bool (*pred)(void*), void* arg, int clk, int64_t abs_ns, const char* label);   // clk: CLOCK_REALTIME or CLOCK_MONOTONIC
void mc_hb_acquire(void* obj);
void mc_hb_release(void* obj);
// ---- observation -----------------------------------------------------------------------------
int  mc_tid();                                     // 0: setup/teardown, 1..n: threads, -1: engine
int64_t mc_now();                                  // virtual time, ns since start (no step)
int64_t mc_clock_now(int clk);                     // as clock_gettime would answer now (no step)
void mc_time_interest(int64_t deadline_ns);        // time may also stop here; <0 clears
void mc_touch(const void* p, size_t n, int write); // a plain data access (race checked)
void* mc_ghost();                                  // monitor state: the first mc_ghost_len bytes (at most 64 KB) are part of the state, never race checked; scratch space at +64 KB and +128 KB
void mc_ghost_len(size_t n);
void* mc_aux();                                    // 256 zeroed bytes for the harness, part of the state, never race checked
void mc_ghost_enter();  void mc_ghost_leave();     // accesses in between are not tracked
void mc_fail(const char* kind, const char* fmt, ...) __attribute__((noreturn, format(printf, 2, 3)));
void mc_trace(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void mc_cover(const char* what);                   // coverage counter (not part of the state)
void mc_set_yield_hook(void (*f)());             // called by sched_yield (set it in setup)
void mc_as(int id);                                // from now on pthread_self() of this thread names another one (sequential clients)
void mc_recycle();                                 // reuse the heap space behind the thread's last live block
enum { MC_MARK_FAILED, MC_MARK_REPORT };
void mc_mark(unsigned mark);                       // this path has passed ... (not part of the state, see kind_reported)
void mc_outcome(uint64_t v);                       // distinct observed outcomes
void mc_defer(void (*fn)(int tid, uint64_t a, uint64_t b), uint64_t a, uint64_t b); // run when this thread next takes a step
void mc_defer_flush();                             // ... or now
uint64_t mc_param(int i);
int  mc_quiet_tracked();                           // 1 while a fiber runs in tracked mode
const char* mc_addr_name(const void* p);
int mc_live_blocks(void);               // heap blocks that are allocated now
int mc_native_objects(void);            // pthread objects and semaphores initialised by a call and not destroyed
}

enum : unsigned {
  MC_TICK = 1,        // virtual time passes: clock reads are steps, deadlines are reached nondeterministically
  MC_SPUR = 2,        // spurious condition-variable wakeups
  MC_WEAK = 4,        // compare_exchange_weak may fail
  MC_JUMP = 8,        // the wall clock may jump (once, +/- 1 h)
  MC_EINTR = 16,      // sem_wait & friends may be interrupted
  MC_NORACE = 32,     // no happens-before tracking
  MC_TIMEOUT_NORMAL = 64, // timeouts and ticks count as progress
  MC_NOLIVE = 128,    // no progress check
  MC_FRESH = 512,     // freed memory is never used again
  MC_MUNLOCK = 256,   // unlocking a native mutex is a scheduling point
};

struct mc_program {
  const char* name;
  int nthreads;
  unsigned flags;
  void (*setup)();
  void (*body)(int tid);
  void (*teardown)();
  void (*on_quiescent)();
  void (*on_tick)();
  bool (*on_abort)(int tid);     // true: the abort is what the property asks for
  uint64_t param[16];
};

// A harness library exports this.
extern "C" void mc_programs(std::vector<mc_program>& out, const char* tier);
