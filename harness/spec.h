// Just-in-time linearizability monitor for mutex-like objects (see DESIGN.md, "lock monitor").
// The monitor keeps, in hashed ghost memory, every configuration of the abstract lock that is
// consistent with the calls and returns seen so far; an empty set is a violation.
#pragma once
#include "mc.h"

namespace spec {

enum Policy : uint8_t {
  PLAIN = 0,       // any waiter may be served; shared available iff no exclusive owner (also ReaderPrefer)
  WRITERPREF = 1,  // shared unavailable while an exclusive request waits
  FIFO = 2,        // exclusive only, strict arrival order
  TASKFAIR = 3,    // FIFO, adjacent readers together
  PHASEFAIR = 4,   // FIFO, but the end of an exclusive section followed by a reader admits all waiting readers
};
enum Mode : uint8_t { X = 1, S = 2 };
enum OpKind : uint8_t { NONE = 0, LOCK = 1, TRY = 2, TIMED = 3, REL = 4, RECACQ = 5, RECREL = 6 };

enum : unsigned { LAXTRY = 1, TIMEDMUST = 2 };   // try may fail at will; a timed call must not be pending at quiescence
void init(int policy, int nthreads, unsigned flags = 0);
void invoke(OpKind op, Mode m, int64_t deadline = 0, int clk = -1, bool relative = false);  // deferred to the first step of the call
void response(bool ok);       // the call returned (ok: result of try/timed; true otherwise)
void cancel();                // the call ended with an exception: it must not have had any effect
void on_quiescent();
void on_tick();
int  actual(int tid);         // X, S or 0: what the thread holds as far as the caller can know
bool available(Mode m);       // some configuration lets m be granted at once
bool waiting(int tid);        // tid has a call pending
void all_free();              // fails unless every configuration is idle
}
