// Symbols that replace those of libc/libpthread/libstdc++ in the executable:
// threads, locks, clocks, allocation. Outside of a simulated thread they pass
// through to the real ones.
#include "internal.h"

#include <dlfcn.h>
#include <errno.h>
#include <sched.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

using namespace sim::rt;
namespace prim = sim::prim;

#define REAL(ret, name, args)                                      \
  typedef ret(*fnptr_##name) args;                                     \
  static fnptr_##name real_##name##_fn() {                             \
    static fnptr_##name f = nullptr;                                   \
    if (!f) f = reinterpret_cast<fnptr_##name>(dlsym(RTLD_NEXT, #name)); \
    return f;                                                      \
  }

REAL(int, pthread_create, (pthread_t*, const pthread_attr_t*, void* (*)(void*), void*))
REAL(int, pthread_join, (pthread_t, void**))
REAL(int, pthread_detach, (pthread_t))
REAL(int, pthread_mutex_lock, (pthread_mutex_t*))
REAL(int, pthread_mutex_trylock, (pthread_mutex_t*))
REAL(int, pthread_mutex_unlock, (pthread_mutex_t*))
REAL(int, pthread_mutex_destroy, (pthread_mutex_t*))
REAL(int, pthread_rwlock_rdlock, (pthread_rwlock_t*))
REAL(int, pthread_rwlock_wrlock, (pthread_rwlock_t*))
REAL(int, pthread_rwlock_tryrdlock, (pthread_rwlock_t*))
REAL(int, pthread_rwlock_trywrlock, (pthread_rwlock_t*))
REAL(int, pthread_rwlock_unlock, (pthread_rwlock_t*))
REAL(int, pthread_cond_wait, (pthread_cond_t*, pthread_mutex_t*))
REAL(int, pthread_cond_timedwait, (pthread_cond_t*, pthread_mutex_t*, const timespec*))
REAL(int, pthread_cond_clockwait, (pthread_cond_t*, pthread_mutex_t*, clockid_t, const timespec*))
REAL(int, pthread_cond_signal, (pthread_cond_t*))
REAL(int, pthread_cond_broadcast, (pthread_cond_t*))
REAL(int, pthread_cond_destroy, (pthread_cond_t*))
REAL(int, pthread_once, (pthread_once_t*, void (*)()))
REAL(int, __cxa_guard_acquire, (uint64_t*))
REAL(void, __cxa_guard_release, (uint64_t*))
REAL(void, __cxa_guard_abort, (uint64_t*))

namespace sim { namespace rt {
int real_pthread_create(pthread_t* a, const pthread_attr_t* b, void* (*c)(void*), void* d) {
  return real_pthread_create_fn()(a, b, c, d);
}
int real_pthread_join(pthread_t t, void** r) { return real_pthread_join_fn()(t, r); }
} }

static Thread* thread_of(pthread_t p) {
  for (int i = 0; i < G.nthreads; ++i) if (G.threads[i].real == p) return &G.threads[i];
  return nullptr;
}

extern "C" {

// ---- allocation -------------------------------------------------------------
void* malloc(size_t n) { return do_malloc(n); }
void free(void* p) { do_free(p); }
void* calloc(size_t a, size_t b) {
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
  void* p = do_malloc(n);
  if (p) memset(p, 0, n);
  return p;
}
void* realloc(void* p, size_t n) {
  if (!p) return do_malloc(n);
  if (n == 0) { do_free(p); return nullptr; }
  size_t o = usable(p);
  void* q = do_malloc(n);
  if (!q) return nullptr;
  memcpy(q, p, o < n ? o : n);
  do_free(p);
  return q;
}
void* memalign(size_t al, size_t n) { return do_memalign(al, n); }
void* aligned_alloc(size_t al, size_t n) { return do_memalign(al, n); }
int posix_memalign(void** out, size_t al, size_t n) {
  void* p = do_memalign(al, n);
  if (!p) return ENOMEM;
  *out = p;
  return 0;
}
void* valloc(size_t n) { return do_memalign(4096, n); }
void* pvalloc(size_t n) { return do_memalign(4096, (n + 4095) & ~4095ull); }
size_t malloc_usable_size(void* p) { return p ? usable(p) : 0; }

// ---- threads ----------------------------------------------------------------
int pthread_create(pthread_t* out, const pthread_attr_t* attr, void* (*fn)(void*), void* arg) {
  if (!self) return real_pthread_create_fn()(out, attr, fn, arg);
  if (sim::fault("thread_create", 0)) return EAGAIN;
  Thread* t = create_thread(fn, arg, "worker");
  *out = t->real;
  point_once(t);
  return 0;
}
int pthread_join(pthread_t p, void** ret) {
  if (!self) return real_pthread_join_fn()(p, ret);
  Thread* t = thread_of(p);
  if (!t) return ESRCH;
  if (t == self) return EDEADLK;
  return join_thread(t, ret);
}
int pthread_detach(pthread_t p) {
  if (!self) return real_pthread_detach_fn()(p);
  Thread* t = thread_of(p);
  if (t) t->detached = true;
  return 0;
}

// ---- mutexes ----------------------------------------------------------------
static bool recursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
int pthread_mutex_lock(pthread_mutex_t* m) {
  if (!self) return real_pthread_mutex_lock_fn()(m);
  if (recursive(m) && prim::mutex_held(m)) { ++sync_of(m, 0)->rec; return 0; }
  prim::mutex_lock(m);
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!self) return real_pthread_mutex_trylock_fn()(m);
  if (recursive(m) && prim::mutex_held(m)) { ++sync_of(m, 0)->rec; return 0; }
  return prim::mutex_trylock(m) ? 0 : EBUSY;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!self) return real_pthread_mutex_unlock_fn()(m);
  if (recursive(m) && prim::mutex_held(m)) {
    Sync* s = sync_of(m, 0);
    if (s->rec > 0) { --s->rec; return 0; }
  }
  prim::mutex_unlock(m);
  return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m) {
  if (!self) return real_pthread_mutex_destroy_fn()(m);
  prim::mutex_destroy(m);
  return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) {
  if (!self) return real_pthread_rwlock_rdlock_fn()(m);
  prim::mutex_rdlock(m);
  return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) {
  if (!self) return real_pthread_rwlock_tryrdlock_fn()(m);
  return prim::mutex_tryrdlock(m) ? 0 : EBUSY;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) {
  if (!self) return real_pthread_rwlock_wrlock_fn()(m);
  prim::mutex_lock(m);
  return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) {
  if (!self) return real_pthread_rwlock_trywrlock_fn()(m);
  return prim::mutex_trylock(m) ? 0 : EBUSY;
}
int pthread_rwlock_unlock(pthread_rwlock_t* m) {
  if (!self) return real_pthread_rwlock_unlock_fn()(m);
  if (prim::mutex_held(m)) prim::mutex_unlock(m); else prim::mutex_rdunlock(m);
  return 0;
}

// ---- condition variables ------------------------------------------------------
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (!self) return real_pthread_cond_wait_fn()(c, m);
  prim::cond_wait(c, m);
  return 0;
}
static int64_t ns_of(const timespec* t) { return t->tv_sec * 1000000000ll + t->tv_nsec; }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) {
  if (!self) return real_pthread_cond_timedwait_fn()(c, m, t);
  return prim::cond_timedwait(c, m, ns_of(t) - kRealtimeOffset) ? 0 : ETIMEDOUT;
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t id, const timespec* t) {
  if (!self) return real_pthread_cond_clockwait_fn()(c, m, id, t);
  return prim::cond_timedwait(c, m, ns_of(t) - (id == CLOCK_REALTIME ? kRealtimeOffset : 0)) ? 0 : ETIMEDOUT;
}
int pthread_cond_signal(pthread_cond_t* c) {
  if (!self) return real_pthread_cond_signal_fn()(c);
  prim::cond_signal(c);
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  if (!self) return real_pthread_cond_broadcast_fn()(c);
  prim::cond_broadcast(c);
  return 0;
}
int pthread_cond_destroy(pthread_cond_t* c) {
  if (!self) return real_pthread_cond_destroy_fn()(c);
  return 0;
}

// ---- once and static initialisation -------------------------------------------
int pthread_once(pthread_once_t* o, void (*f)()) {
  if (!self) return real_pthread_once_fn()(o, f);
  if (*o == 2 && once_of(o)->once == 0) return 0;  // done before the simulation
  Sync* s = once_of(o);
  for (;;) {
    if (s->once == 2) { once_acquire(s); return 0; }
    if (s->once == 0) break;
    wait_once(o);
  }
  s->once = 1;
  f();
  s->once = 2;
  *o = 2;
  once_release(s);
  wake_once(o);
  return 0;
}
int __cxa_guard_acquire(uint64_t* g) {
  if (!self) return real___cxa_guard_acquire_fn()(g);
  Sync* s = once_of(g);
  for (;;) {
    if (*reinterpret_cast<char*>(g)) { once_acquire(s); return 0; }
    if (s->once != 1) break;
    wait_once(g);
  }
  s->once = 1;
  return 1;
}
void __cxa_guard_release(uint64_t* g) {
  if (!self) { real___cxa_guard_release_fn()(g); return; }
  Sync* s = once_of(g);
  once_release(s);
  s->once = 2;
  *reinterpret_cast<char*>(g) = 1;
  // The inlined fast path reads the guard with an acquire load.
  Sync* a = sync_of(reinterpret_cast<const void*>(reinterpret_cast<uintptr_t>(g) & ~7ull), 2);
  for (int i = 0; i < G.nthreads; ++i) if (s->vc[i] > a->vc[i]) a->vc[i] = s->vc[i];
  wake_once(g);
}
void __cxa_guard_abort(uint64_t* g) {
  if (!self) { real___cxa_guard_abort_fn()(g); return; }
  once_of(g)->once = 0;
  wake_once(g);
}

// ---- clocks -------------------------------------------------------------------
int clock_gettime(clockid_t id, timespec* ts) {
  if (!self) return syscall(SYS_clock_gettime, id, ts);
  int64_t t = read_clock();
  if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) t += kRealtimeOffset;
  ts->tv_sec = t / 1000000000;
  ts->tv_nsec = t % 1000000000;
  return 0;
}
int gettimeofday(timeval* tv, void*) {
  timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec;
  tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
time_t time(time_t* out) {
  timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (out) *out = ts.tv_sec;
  return ts.tv_sec;
}
int nanosleep(const timespec* r, timespec* rem) {
  if (!self) return syscall(SYS_nanosleep, r, rem);
  do_sleep(ns_of(r));
  return 0;
}
int clock_nanosleep(clockid_t id, int flags, const timespec* r, timespec* rem) {
  if (!self) return syscall(SYS_clock_nanosleep, id, flags, r, rem);
  int64_t t = ns_of(r);
  if (flags & TIMER_ABSTIME) t -= G.now + (id == CLOCK_REALTIME ? kRealtimeOffset : 0);
  do_sleep(t);
  return 0;
}
int usleep(useconds_t us) {
  timespec t = {us / 1000000, (us % 1000000) * 1000};
  return nanosleep(&t, nullptr);
}
unsigned sleep(unsigned s) {
  timespec t = {s, 0};
  nanosleep(&t, nullptr);
  return 0;
}
int sched_yield() {
  if (!self) return syscall(SYS_sched_yield);
  do_yield();
  return 0;
}
int nice(int) noexcept { return 0; }
pid_t gettid() noexcept { return self ? 100000 + self->id : syscall(SYS_gettid); }

}  // extern "C"

// ---- std::future ----------------------------------------------------------------
#include <bits/atomic_futex.h>
namespace std {
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* addr, unsigned val, bool has_timeout,
                                                       chrono::seconds s, chrono::nanoseconds ns) {
  if (!self) { ::sched_yield(); return true; }
  Sync* sy = once_of(addr);
  (void)sy;
  if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) return true;
  if (!has_timeout) { wait_once(addr); return true; }
  int64_t dl = s.count() * 1000000000ll + ns.count() - kRealtimeOffset;
  if (dl <= G.now) return false;
  do_sleep(dl - G.now < 1000000 ? dl - G.now : 1000000);
  return true;
}
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned* addr, unsigned val, bool has_timeout,
                                                              chrono::seconds s, chrono::nanoseconds ns) {
  if (!self) { ::sched_yield(); return true; }
  if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) return true;
  if (!has_timeout) { wait_once(addr); return true; }
  int64_t dl = s.count() * 1000000000ll + ns.count();
  if (dl <= G.now) return false;
  do_sleep(dl - G.now < 1000000 ? dl - G.now : 1000000);
  return true;
}
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned* addr) {
  if (self) wake_once(addr);
}
}  // namespace std
