// Model of os_unfair_lock (documented behaviour: not recursive, unlocking by another thread aborts).
#pragma once
#include "mc.h"
#include <stdlib.h>
#define NSH __attribute__((no_sanitize_thread)) inline
typedef struct os_unfair_lock_s { unsigned int owner; } os_unfair_lock, *os_unfair_lock_t;
#define OS_UNFAIR_LOCK_INIT (os_unfair_lock{0})
namespace oslock {
NSH bool is_free(void* p) { return ((os_unfair_lock*)p)->owner == 0; }
NSH unsigned me() { return (unsigned)mc_tid() + 1; }
}
NSH void os_unfair_lock_lock(os_unfair_lock_t l) { if (l->owner == oslock::me()) mc_fail("native-misuse", "os_unfair_lock_lock by the owner"); mc_await(oslock::is_free, l, "os_unfair_lock_lock"); l->owner = oslock::me(); mc_hb_acquire(l); }
NSH bool os_unfair_lock_trylock(os_unfair_lock_t l) { mc_yield("os_unfair_lock_trylock"); if (l->owner) return false; l->owner = oslock::me(); mc_hb_acquire(l); return true; }
NSH void os_unfair_lock_unlock(os_unfair_lock_t l) { mc_yield("os_unfair_lock_unlock"); if (l->owner != oslock::me()) mc_fail("native-misuse", "os_unfair_lock_unlock by a thread that does not own it"); mc_hb_release(l); l->owner = 0; }
NSH void os_unfair_lock_assert_owner(os_unfair_lock_t l) { if (l->owner != oslock::me()) mc_fail("native-misuse", "os_unfair_lock_assert_owner"); }
NSH void os_unfair_lock_assert_not_owner(os_unfair_lock_t l) { if (l->owner == oslock::me()) mc_fail("native-misuse", "os_unfair_lock_assert_not_owner"); }
