// Threads, mutexes, condition variables and futures' waiting primitives on top of symbolic scheduling decisions.
// The same file drives the native replay (fibers), there with the recorded decisions.
#include "sx.h"
#include <thread>
#include <mutex>
#include <condition_variable>
#include <future>
#include <cerrno>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
extern "C" { void sx_atomic_begin(); void sx_atomic_end(); int sx_atomic_depth(); void sxrt_set_sched(int preemptions, int spurious); int sxrt_live_threads(); void sxrt_sched_point(); }
namespace {
const int SXMAX = 8;
enum St { Running, Blocked, CondWait, Finished };
struct SxState { virtual ~SxState(); virtual void run() = 0; };   // layout of std::thread::_State, which is private
struct Th { int st; const void *on; SxState *state; };
Th sxrt_t[SXMAX]; int sxrt_n = 1, sxrt_pre = 0, sxrt_spur = 0;
struct Atomic { Atomic() { sx_atomic_begin(); } ~Atomic() { sx_atomic_end(); } };
inline void to(int t) { if (t != sx_thread_self()) sx_thread_switch(t); }
void pick() {   // the current thread cannot go on: anybody else may
    int c[SXMAX], n = 0, me = sx_thread_self(); for (int i = 0; i < sxrt_n; i++) if (i != me && sxrt_t[i].st == Running) c[n++] = i;
    int m = n; if (sxrt_spur > 0) for (int i = 0; i < sxrt_n; i++) if (i != me && sxrt_t[i].st == CondWait) c[n++] = i;
    if (n == 0) { bool all = true; for (int i = 0; i < sxrt_n; i++) if (sxrt_t[i].st != Finished) all = false; sx_deadlock(all ? "all threads have ended" : "every thread waits"); }
    int k = m > 0 || n > 0 ? (int)sx_choose("schedule", n) : 0; if (k >= m) { --sxrt_spur; sxrt_t[c[k]].st = Running; } to(c[k]); }
void block(const void *on, int st = Blocked) { int me = sx_thread_self(); sxrt_t[me].st = st; sxrt_t[me].on = on; pick(); }
void wake(const void *on, int st = Blocked) { for (int i = 0; i < sxrt_n; i++) if (sxrt_t[i].st == st && sxrt_t[i].on == on) sxrt_t[i].st = Running; }
void entry(void *p) {
    int me = sx_thread_self(); Th &t = sxrt_t[me];
    try { t.state->run(); } catch (...) { sx_fail("an exception escapes a thread: std::terminate"); }
    delete t.state; sx_atomic_begin(); sx_hb_release(&t); t.st = Finished; wake(&t); sx_atomic_end();
    for (;;) pick(); }
}
extern "C" {
void sxrt_set_sched(int p, int s) { sxrt_pre = p; sxrt_spur = s; }
int sxrt_live_threads() { int n = 0; for (int i = 1; i < sxrt_n; i++) n += sxrt_t[i].st != Finished; return n; }
// the running thread may be preempted here, as often as the budget allows
void sxrt_sched_point() {
    if (sxrt_n < 2 || sxrt_pre <= 0) return;
#ifndef SX_ENGINE
    if (sx_atomic_depth()) return;
#endif
    int c[SXMAX], n = 0, me = sx_thread_self(); c[n++] = me; for (int i = 0; i < sxrt_n; i++) if (i != me && sxrt_t[i].st == Running) c[n++] = i;
    if (n < 2) return; int k = (int)sx_choose("preempt", n); if (k) { --sxrt_pre; to(c[k]); } }
// ---- mutexes: the lock word lives in the mutex itself
static int lock(pthread_mutex_t *m, bool tryit) {
    sxrt_sched_point();
    for (;;) { sx_atomic_begin(); int me = sx_thread_self() + 1; int &w = m->__data.__lock; int kind = m->__data.__kind;
        if (w == 0) { w = me; m->__data.__count = 1; sx_hb_acquire(m); sx_atomic_end(); return 0; }
        if (w == me && kind == PTHREAD_MUTEX_RECURSIVE) { ++m->__data.__count; sx_atomic_end(); return 0; }
        sx_atomic_end(); if (tryit) return EBUSY;
        if (w == me) sx_fail("a thread locks a mutex it already holds");
        block(m); } }
int pthread_mutex_lock(pthread_mutex_t *m) { return lock(m, false); }
int pthread_mutex_trylock(pthread_mutex_t *m) { return lock(m, true); }
int pthread_mutex_unlock(pthread_mutex_t *m) { { Atomic a; if (m->__data.__lock != sx_thread_self() + 1) sx_fail("a thread unlocks a mutex it does not hold"); if (m->__data.__kind == PTHREAD_MUTEX_RECURSIVE && --m->__data.__count) return 0; sx_hb_release(m); m->__data.__lock = 0; wake(m); } sxrt_sched_point(); return 0; }
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *) { Atomic a; m->__data.__lock = 0; m->__data.__kind = 0; return 0; }
int pthread_mutex_destroy(pthread_mutex_t *m) { Atomic a; if (m->__data.__lock) sx_fail("a locked mutex is destroyed"); return 0; }
// readers and writers: __readers counts readers, __cur_writer holds the writer
static int rw(pthread_rwlock_t *l, bool wr, bool tryit) { sxrt_sched_point(); for (;;) { { Atomic a; int &w = l->__data.__cur_writer; unsigned &r = l->__data.__readers; if (w == 0 && (!wr || r == 0)) { if (wr) w = sx_thread_self() + 1; else ++r; sx_hb_acquire(l); return 0; } } if (tryit) return EBUSY; block(l); } }
int pthread_rwlock_rdlock(pthread_rwlock_t *l) { return rw(l, false, false); } int pthread_rwlock_wrlock(pthread_rwlock_t *l) { return rw(l, true, false); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) { return rw(l, false, true); } int pthread_rwlock_trywrlock(pthread_rwlock_t *l) { return rw(l, true, true); }
int pthread_rwlock_unlock(pthread_rwlock_t *l) { { Atomic a; sx_hb_release(l); if (l->__data.__cur_writer) l->__data.__cur_writer = 0; else if (l->__data.__readers) --l->__data.__readers; else sx_fail("a lock nobody holds is released"); wake(l); } sxrt_sched_point(); return 0; }
int pthread_rwlock_init(pthread_rwlock_t *, const pthread_rwlockattr_t *) { return 0; } int pthread_rwlock_destroy(pthread_rwlock_t *) { return 0; }
int pthread_once(pthread_once_t *o, void (*f)()) {
    for (;;) { sx_atomic_begin(); int v = *o; if (v == 2) { sx_hb_acquire(o); sx_atomic_end(); return 0; } if (v == 0) { *o = 1; sx_atomic_end(); break; } sx_atomic_end(); block(o); }
    try { f(); } catch (...) { { Atomic a; *o = 0; wake(o); } throw; }
    Atomic a; sx_hb_release(o); *o = 2; wake(o); return 0; }
int pthread_cond_init(pthread_cond_t *, const pthread_condattr_t *) { return 0; }
int pthread_cond_destroy(pthread_cond_t *c) { for (int i = 0; i < sxrt_n; i++) if (sxrt_t[i].st == CondWait && sxrt_t[i].on == c) sx_fail("a condition variable is destroyed while a thread waits on it"); return 0; }
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { int me = sx_thread_self();
    { Atomic a; sxrt_t[me].st = CondWait; sxrt_t[me].on = c; if (m->__data.__lock != me + 1) sx_fail("waiting without holding the lock"); sx_hb_release(m); m->__data.__lock = 0; wake(m); }
    pick(); return lock(m, false); }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const timespec *) { if (sx_choose("timeout", 2)) { pthread_mutex_unlock(m); lock(m, false); return ETIMEDOUT; } return pthread_cond_wait(c, m); }
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, const timespec *t) { return pthread_cond_timedwait(c, m, t); }
int pthread_cond_signal(pthread_cond_t *v) { sxrt_sched_point(); int c[SXMAX], n = 0; for (int i = 0; i < sxrt_n; i++) if (sxrt_t[i].st == CondWait && sxrt_t[i].on == v) c[n++] = i; if (n) sxrt_t[c[sx_choose("wakes", n)]].st = Running; return 0; }
int pthread_cond_broadcast(pthread_cond_t *v) { sxrt_sched_point(); wake(v, CondWait); return 0; }
int sched_yield() { sxrt_sched_point(); return 0; }
int nanosleep(const timespec *, timespec *) { sxrt_sched_point(); return 0; }
int clock_nanosleep(clockid_t, int, const timespec *, timespec *) { sxrt_sched_point(); return 0; }
pthread_t pthread_self() { return (pthread_t)(sx_thread_self() + 1); }
}
namespace std {
condition_variable::condition_variable() noexcept {}
condition_variable::~condition_variable() {}
void condition_variable::wait(unique_lock<mutex> &l) { pthread_cond_wait((pthread_cond_t *)this, l.mutex()->native_handle()); }
void condition_variable::notify_one() noexcept { pthread_cond_signal((pthread_cond_t *)this); }
void condition_variable::notify_all() noexcept { pthread_cond_broadcast((pthread_cond_t *)this); }
void thread::_M_start_thread(_State_ptr s, void (*)()) {
    if (sxrt_n >= SXMAX) sx_fail("more threads than the bound"); int id = sxrt_n++; sxrt_t[id].state = (SxState *)s.release(); sxrt_t[id].st = Running; int t = sx_thread_spawn(entry, nullptr); if (t != id) sx_fail("internal: thread numbering");
    *(pthread_t *)this = (pthread_t)(id + 1); sxrt_sched_point(); }
void thread::join() { int id = (int)*(pthread_t *)this - 1; if (id < 0) __throw_system_error(EINVAL); while (sxrt_t[id].st != Finished) block(&sxrt_t[id]); sx_hb_acquire(&sxrt_t[id]); sx_thread_joined(id); *(pthread_t *)this = 0; }
void thread::detach() { *(pthread_t *)this = 0; }
unsigned int thread::hardware_concurrency() noexcept { return 2; }
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned *a, unsigned v, bool timeout, chrono::seconds, chrono::nanoseconds) {
    if (timeout) return false; bool eq; { Atomic x; eq = *a == v; } if (eq) block(a); return true; }
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned *a, unsigned v, bool timeout, chrono::seconds s, chrono::nanoseconds n) { return _M_futex_wait_until(a, v, timeout, s, n); }
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned *a) { wake(a); sxrt_sched_point(); }
}
#ifdef SX_ENGINE
extern "C" { char __libc_single_threaded = 0; unsigned pthread_key_x; int __pthread_key_create(pthread_key_t *, void (*)(void *)) { return 0; } void __once_proxy(); }
namespace std {
thread::_State::~_State() = default;
__thread void *__once_callable; __thread void (*__once_call)();
struct sxrt_fcat : error_category { const char *name() const noexcept override { return "future"; } std::string message(int) const override { return "future error"; } };
static sxrt_fcat sxrt_future_cat; const error_category &future_category() noexcept { return sxrt_future_cat; }
future_error::~future_error() noexcept {} const char *future_error::what() const noexcept { return logic_error::what(); }
void __throw_future_error(int e) { throw future_error(make_error_code((future_errc)e)); }
__future_base::_Result_base::_Result_base() = default; __future_base::_Result_base::~_Result_base() = default;
}
extern "C" void __once_proxy() { std::__once_call(); }
#endif
