// Reference model of up to three checked mutexes and up to four threads: ownership, misuse, waiting and
// deadlock cycles.  Keeps every configuration consistent with the observed calls and returns (as spec.h).
#pragma once
#include "mc.h"
namespace own {
enum Mode : uint8_t { X = 1, S = 2 };
enum Op : uint8_t { NONE = 0, LOCK, TRY, TIMED, REL };
enum Res : uint8_t { OKAY = 0, NO, DEADLK, PERM };
enum : unsigned { DETECT = 1 /* deadlock detection is on */, MUST = 2 /* timed calls must return although nobody moves */ };
struct Kind { uint8_t rec, writerpref; };
void init(int nmutex, const Kind* kinds, int nthreads, unsigned flags);
void invoke(Op op, int m, Mode mode, int64_t deadline = 0, int clk = -1, bool relative = false);
void response(Res r);
int  actual(int tid, int m);      // mode held, as the callers know
int  depth(int tid, int m);
bool owned(int m);                // by anybody, as the callers know
bool abort_ok(int tid);           // the pending call of tid is misuse, or may report a deadlock
bool hung();                      // in every configuration some threads wait in a cycle
void forget(int m);               // mutex m was destroyed and created anew: nobody owns it
void on_quiescent();
void on_tick();
}
