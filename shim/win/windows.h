// Model of the Win32 primitives the library uses, on top of the model checker (documented behaviour of
// mutex, semaphore, critical section, SRW lock and wait functions).
//  * WaitForSingleObject may time out early: with the last tick of the system clock (one per ms) before the interval is over.
//  * every call may be made to fail through winshim::fault (set by the harness).
#pragma once
#include "mc.h"
#include <cstdlib>
#include <new>
typedef void* HANDLE; typedef void* LPVOID; typedef void* PVOID; typedef unsigned int DWORD; typedef int BOOL; typedef int LONG; typedef LONG* LPLONG; typedef unsigned char BOOLEAN; typedef unsigned long long ULONGLONG; typedef unsigned int UINT;
typedef const char* LPCSTR; typedef const wchar_t* LPCWSTR; typedef void* LPSECURITY_ATTRIBUTES; typedef unsigned long ULONG_PTR; typedef unsigned short WORD;
#ifndef FALSE
#define FALSE 0
#define TRUE 1
#endif
#define WINAPI
#define INFINITE 0xFFFFFFFFu
#define WAIT_OBJECT_0 0u
#define WAIT_ABANDONED 0x80u
#define WAIT_ABANDONED_0 0x80u
#define WAIT_IO_COMPLETION 0xC0u
#define WAIT_TIMEOUT 258u
#define WAIT_FAILED 0xFFFFFFFFu
#define ERROR_SUCCESS 0u
#define ERROR_INVALID_HANDLE 6u
#define ERROR_NOT_OWNER 288u
#define ERROR_TOO_MANY_POSTS 298u
#define ERROR_INVALID_PARAMETER 87u
#define INVALID_HANDLE_VALUE ((HANDLE)(long long)-1)
#define MUTEX_ALL_ACCESS 0x1F0001u
#define SEMAPHORE_ALL_ACCESS 0x1F0003u
#define SYNCHRONIZE 0x100000u
#define CREATE_MUTEX_INITIAL_OWNER 1u
#define NSH __attribute__((no_sanitize_thread)) inline

namespace winshim {
enum { MUTEX = 0x11, SEM = 0x22, CLOSED = 0x33 };
struct KObj { int kind, owner, count, max; };           // kernel object
struct G { int8_t open, made; int8_t spare[6]; };   // made: objects whose memory is kept for ever
NSH G* g() { return (G*)((char*)mc_aux() + 240); }       // open handles
inline bool (*&fault_fn())(const char*) { static bool (*f)(const char*); return f; }
NSH bool fault(const char* what) { return fault_fn() && fault_fn()(what); }
static const int64_t TICK = 1000000;
NSH bool signaled(void* p) { KObj* k = (KObj*)p; return k->kind == MUTEX ? k->owner == 0 || k->owner == mc_tid() : k->count > 0; }
NSH bool m_free(void* p) { KObj* k = (KObj*)p; return k->owner == 0; }
NSH bool s_free(void* p) { KObj* k = (KObj*)p; return k->count > 0; }
NSH KObj* obj(HANDLE h, const char* what) {
  KObj* k = (KObj*)h; int kd = k ? k->kind : 0;
  if (!k || (kd != MUTEX && kd != SEM)) mc_fail("native-misuse", "%s with %s handle", what, !k ? "a null" : kd == CLOSED ? "a closed" : "an invalid");
  return k;
}
NSH HANDLE create(int kind, int owner, int count, int max) { KObj* k = (KObj*)malloc(sizeof(KObj)); k->kind = kind; k->owner = owner; k->count = owner ? 1 : count; k->max = max; g()->open++; g()->made++; return k; }
NSH DWORD wait(HANDLE h, DWORD ms) {
  KObj* k = obj(h, "WaitForSingleObject");
  if (fault("WaitForSingleObject")) { mc_yield("WaitForSingleObject fails"); return WAIT_FAILED; }
  int t = mc_tid();
  if (k->kind == MUTEX && k->owner == t) { mc_yield("WaitForSingleObject (recursive)"); k->count++; return WAIT_OBJECT_0; }
  int64_t dl; bool ok;
  if (ms == 0) { mc_yield("WaitForSingleObject(0)"); ok = k->kind == MUTEX ? m_free(k) : s_free(k); }
  else {
  if (ms == INFINITE) dl = -1;
  else { mc_yield("WaitForSingleObject begins"); dl = mc_now() + (int64_t)ms * TICK;
    if (mc_choose(2, "ends with a tick of the system clock?")) { int64_t e = (dl - 1) / TICK * TICK + 1; if (e > mc_now()) dl = e; } }   // ticks: 1 ns, 1 ms + 1 ns, ...
  ok = mc_await_until(k->kind == MUTEX ? m_free : s_free, k, dl, "WaitForSingleObject");
  }
  if (k->kind == CLOSED) mc_fail("native-misuse", "handle closed while thread %d waits on it", t);
  if (!ok) return WAIT_TIMEOUT;
  mc_hb_acquire(k);
  if (k->kind == MUTEX) { k->owner = t; k->count = 1; } else k->count--;
  return WAIT_OBJECT_0;
}
NSH DWORD& err() { static DWORD e; return e; }
}
NSH DWORD GetLastError() { return winshim::err(); }
NSH void SetLastError(DWORD e) { winshim::err() = e; }
NSH HANDLE CreateMutexW(LPVOID, BOOL owner, const void*) { if (winshim::fault("CreateMutex")) return nullptr; return winshim::create(winshim::MUTEX, owner ? mc_tid() : 0, 0, 0); }
NSH HANDLE CreateSemaphoreW(LPVOID, LONG init, LONG max, const void*) {
  if (init < 0 || max <= 0 || init > max) { SetLastError(ERROR_INVALID_PARAMETER); return nullptr; }
  if (winshim::fault("CreateSemaphore")) return nullptr; return winshim::create(winshim::SEM, 0, init, max); }
NSH HANDLE CreateMutexExW(LPVOID a, const void* n, DWORD f, DWORD) { return CreateMutexW(a, f & 1, n); }
NSH HANDLE CreateSemaphoreExW(LPVOID a, LONG i, LONG m, const void* n, DWORD, DWORD) { return CreateSemaphoreW(a, i, m, n); }
#define CreateMutex CreateMutexW
#define CreateMutexA CreateMutexW
#define CreateMutexEx CreateMutexExW
#define CreateSemaphore CreateSemaphoreW
#define CreateSemaphoreA CreateSemaphoreW
#define CreateSemaphoreEx CreateSemaphoreExW
NSH BOOL CloseHandle(HANDLE h) {
  mc_yield("CloseHandle"); winshim::KObj* k = winshim::obj(h, "CloseHandle");
  if (k->kind == winshim::MUTEX && k->owner) mc_fail("native-misuse", "CloseHandle of a mutex that is owned by thread %d", k->owner);
  k->kind = winshim::CLOSED; winshim::g()->open--; return TRUE; }
NSH DWORD WaitForSingleObject(HANDLE h, DWORD ms) { return winshim::wait(h, ms); }
NSH DWORD WaitForSingleObjectEx(HANDLE h, DWORD ms, BOOL) { return winshim::wait(h, ms); }
NSH DWORD WaitForMultipleObjects(DWORD n, const HANDLE* h, BOOL, DWORD ms) { if (n != 1) mc_fail("native-misuse", "WaitForMultipleObjects is not modelled"); return winshim::wait(h[0], ms); }
NSH BOOL ReleaseMutex(HANDLE h) {
  winshim::KObj* k = winshim::obj(h, "ReleaseMutex"); mc_yield("ReleaseMutex");
  if (k->kind != winshim::MUTEX || k->owner != mc_tid()) { SetLastError(ERROR_NOT_OWNER); return FALSE; }
  if (--k->count == 0) { mc_hb_release(k); k->owner = 0; } return TRUE; }
NSH BOOL ReleaseSemaphore(HANDLE h, LONG n, LPLONG prev) {
  winshim::KObj* k = winshim::obj(h, "ReleaseSemaphore"); mc_yield("ReleaseSemaphore");
  if (k->kind != winshim::SEM) { SetLastError(ERROR_INVALID_HANDLE); return FALSE; }
  if (winshim::fault("ReleaseSemaphore")) return FALSE;
  if (n <= 0) { SetLastError(ERROR_INVALID_PARAMETER); return FALSE; }
  if (n > k->max - k->count) { SetLastError(ERROR_TOO_MANY_POSTS); return FALSE; }
  if (prev) *prev = k->count;
  mc_hb_release(k); k->count += n; return TRUE; }
#include <time.h>
NSH void Sleep(DWORD ms) { struct timespec t = {(time_t)(ms / 1000), (long)(ms % 1000) * 1000000}; nanosleep(&t, nullptr); }
NSH DWORD SleepEx(DWORD ms, BOOL) { Sleep(ms); return 0; }
NSH BOOL SwitchToThread() { mc_yield("SwitchToThread"); return TRUE; }
NSH ULONGLONG GetTickCount64() { return (ULONGLONG)(mc_now() / 1000000); }
NSH DWORD GetTickCount() { return (DWORD)(mc_now() / 1000000); }
NSH DWORD GetCurrentThreadId() { return (DWORD)mc_tid() + 100; }

// ---- critical section ----
struct CRITICAL_SECTION { int magic, owner, depth, pad; };
typedef CRITICAL_SECTION* LPCRITICAL_SECTION; typedef CRITICAL_SECTION RTL_CRITICAL_SECTION;
namespace winshim {
NSH bool cs_free(void* p) { return ((CRITICAL_SECTION*)p)->owner == 0; }
NSH void cs_ok(CRITICAL_SECTION* c, const char* what) { if (c->magic != 0x435345) mc_fail("native-misuse", "%s of a critical section that is not initialised", what); }
}
NSH void InitializeCriticalSection(CRITICAL_SECTION* c) { winshim::g()->open++; c->magic = 0x435345; c->owner = c->depth = c->pad = 0; }
NSH BOOL InitializeCriticalSectionAndSpinCount(CRITICAL_SECTION* c, DWORD) { InitializeCriticalSection(c); return TRUE; }
NSH BOOL InitializeCriticalSectionEx(CRITICAL_SECTION* c, DWORD, DWORD) { InitializeCriticalSection(c); return TRUE; }
NSH void DeleteCriticalSection(CRITICAL_SECTION* c) { mc_yield("DeleteCriticalSection"); winshim::cs_ok(c, "DeleteCriticalSection"); if (c->owner) mc_fail("native-misuse", "DeleteCriticalSection while thread %d owns it", c->owner); c->magic = 0; winshim::g()->open--; }
NSH void EnterCriticalSection(CRITICAL_SECTION* c) {
  winshim::cs_ok(c, "EnterCriticalSection");
  if (c->owner == mc_tid()) { mc_yield("EnterCriticalSection (recursive)"); c->depth++; return; }
  mc_await(winshim::cs_free, c, "EnterCriticalSection"); winshim::cs_ok(c, "EnterCriticalSection"); c->owner = mc_tid(); c->depth = 1; mc_hb_acquire(c); }
NSH BOOL TryEnterCriticalSection(CRITICAL_SECTION* c) {
  winshim::cs_ok(c, "TryEnterCriticalSection"); mc_yield("TryEnterCriticalSection");
  if (c->owner && c->owner != mc_tid()) return FALSE;
  if (!c->owner) mc_hb_acquire(c); c->owner = mc_tid(); c->depth++; return 2; /* any nonzero value */ }
NSH void LeaveCriticalSection(CRITICAL_SECTION* c) {
  winshim::cs_ok(c, "LeaveCriticalSection"); mc_yield("LeaveCriticalSection");
  if (c->owner != mc_tid()) mc_fail("native-misuse", "LeaveCriticalSection by thread %d, owned by %d", mc_tid(), c->owner);
  if (--c->depth == 0) { mc_hb_release(c); c->owner = 0; } }

// ---- slim reader/writer lock (not recursive; not fair) ----
struct SRWLOCK { int writer, readers; int who[8]; };
typedef SRWLOCK* PSRWLOCK; typedef SRWLOCK RTL_SRWLOCK;
#define SRWLOCK_INIT {0, 0, {0, 0, 0, 0, 0, 0, 0, 0}}
namespace winshim {
NSH bool sr_x(void* p) { SRWLOCK* s = (SRWLOCK*)p; return !s->writer && !s->readers; }
NSH bool sr_s(void* p) { return !((SRWLOCK*)p)->writer; }
NSH int& sr_mine(SRWLOCK* s) { return s->who[mc_tid() > 0 ? mc_tid() - 1 : 0]; }
NSH void sr_norec(SRWLOCK* s, const char* w) { if ((s->writer && s->writer == mc_tid()) || sr_mine(s)) mc_fail("native-misuse", "%s by a thread that holds the SRW lock", w); }
}
NSH void InitializeSRWLock(SRWLOCK* s) { *s = SRWLOCK(); }
NSH void AcquireSRWLockExclusive(SRWLOCK* s) { winshim::sr_norec(s, "AcquireSRWLockExclusive"); mc_await(winshim::sr_x, s, "AcquireSRWLockExclusive"); s->writer = mc_tid() ? mc_tid() : 9; mc_hb_acquire(s); mc_hb_acquire((char*)s + 4); }
NSH void AcquireSRWLockShared(SRWLOCK* s) { winshim::sr_norec(s, "AcquireSRWLockShared"); mc_await(winshim::sr_s, s, "AcquireSRWLockShared"); s->readers++; winshim::sr_mine(s)++; mc_hb_acquire(s); }
NSH BOOLEAN TryAcquireSRWLockExclusive(SRWLOCK* s) { mc_yield("TryAcquireSRWLockExclusive"); if (!winshim::sr_x(s)) return 0; s->writer = mc_tid() ? mc_tid() : 9; mc_hb_acquire(s); mc_hb_acquire((char*)s + 4); return 1; }
NSH BOOLEAN TryAcquireSRWLockShared(SRWLOCK* s) { mc_yield("TryAcquireSRWLockShared"); if (!winshim::sr_s(s)) return 0; s->readers++; winshim::sr_mine(s)++; mc_hb_acquire(s); return 2; }
NSH void ReleaseSRWLockExclusive(SRWLOCK* s) { mc_yield("ReleaseSRWLockExclusive"); if (s->writer != (mc_tid() ? mc_tid() : 9)) mc_fail("native-misuse", "ReleaseSRWLockExclusive by a thread that does not hold it exclusively"); mc_hb_release(s); s->writer = 0; }
NSH void ReleaseSRWLockShared(SRWLOCK* s) { mc_yield("ReleaseSRWLockShared"); if (!winshim::sr_mine(s)) mc_fail("native-misuse", "ReleaseSRWLockShared by a thread that does not hold it shared"); mc_hb_release((char*)s + 4); s->readers--; winshim::sr_mine(s)--; }
