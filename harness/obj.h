// Just-in-time linearizability monitor for semaphores, latches and barriers (same scheme as spec.h).
#pragma once
#include "mc.h"
namespace obj {
enum Kind : uint8_t { SEM = 0, SEM_STEPS = 1 /* release(n) takes effect permit by permit */, LATCH = 2, BARRIER = 3 };
enum Op : uint8_t { NONE = 0, ACQ, TRY, TIMED, REL, LWAIT, LTRY, LDOWN, LARRIVE, BARRIVE, BWAIT, BARRWAIT, BDROP };
enum : unsigned { TIMEDMUST = 1, AUTOCOMP = 2 /* no completion callback */ };
void init(int kind, int nthreads, int count, unsigned flags = 0);
// arg: permits / decrement; for BARRIVE and BWAIT slot says which of the thread's two tokens is meant
void invoke(Op op, int arg = 1, int slot = 0, int64_t deadline = 0, int clk = -1, bool relative = false);
void response(bool ok = true);
void completion_begin();      // the barrier's completion function runs now
void completion_end();
void on_quiescent();
void on_tick();
bool any_waiting();           // some thread has a call pending
void done();                  // the calling thread has finished
int  finished();              // number of finished threads
int  remaining();             // arrivals missing (upper bound over configurations) / permits
}
