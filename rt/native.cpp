// Native replay runtime: the same harness, compiled to machine code, fed with the inputs the solver returned.
#include <pthread.h>
#include "sx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <malloc.h>
#include <unistd.h>
struct In { std::string n; unsigned w; uint64_t v; };
static std::vector<In> &ins() { static std::vector<In> *v = [] { auto r = new std::vector<In>(); const char *f = getenv("SX_INPUT"); FILE *h = f ? fopen(f, "r") : nullptr; char b[256]; unsigned w; unsigned long long x; while (h && fscanf(h, "%255s %u %llu", b, &w, &x) == 3) if (strcmp(b, "uninit")) r->push_back({b, w, x}); if (h) fclose(h); return r; }(); return *v; }
static size_t pos = 0; static std::vector<int> params;
static void done(int rc) { fflush(stdout); _exit(rc); }
static void diverged(const char *why) { printf("DIVERGED %s\n", why); done(78); }
extern "C" {
uint64_t sx_sym(const char *name, uint64_t bits, uint64_t lo, uint64_t hi) {
    std::string n; for (const char *p = name; *p; ++p) n += (*p == ' ' ? '_' : *p);
    if (pos >= ins().size()) diverged("inputs exhausted");
    In &i = ins()[pos++]; if (i.n != n) { printf("want %s have %s\n", n.c_str(), i.n.c_str()); diverged("input order"); }
    uint64_t m = bits >= 64 ? ~0ull : ((1ull << bits) - 1); if (hi > m) hi = m;
    if (i.v < lo || i.v > hi) diverged("input range"); return i.v; }
void sx_assume(int c) { if (!c) diverged("assumption"); }
void sx_check(int c, const char *msg) { if (!c) { printf("CHECK-FAILED %s\n", msg); done(77); } }
void sx_fail(const char *msg) { printf("CHECK-FAILED %s\n", msg); done(77); }
void sx_cover(const char *l) { printf("COVER %s\n", l); }
void sx_observe(uint64_t v) { printf("OBS %llu\n", (unsigned long long)v); }
void sx_note(const char *m, uint64_t v) { printf("NOTE %s %llu\n", m, (unsigned long long)v); }
uint64_t sx_concretize(uint64_t v) { return v; }
uint64_t sx_choose_n(const char *n, uint64_t c) { return sx_sym(n, 64, 0, c - 1); }
int sx_fork(int c) { return c; }
int sx_param(int i) { return i < (int)params.size() ? params[i] : 0; }
int sx_is_engine() { return 0; }
void sx_end_path() { printf("END\n"); done(0); }
void sx_alloc_limit(uint64_t) {}
static int pat() { const char *p = getenv("SX_FILL"); return p ? atoi(p) : 0xA5; }
void sx_poison(void *p, uint64_t n) { memset(p, pat(), n); }
int sx_initialized(const void *p, uint64_t n) { int f = pat(); const unsigned char *c = (const unsigned char *)p; for (uint64_t i = 0; i < n; i++) if (c[i] != f) return 1; return n == 0; }
uint64_t sx_obj_size(const void *) { return 0; }
uint64_t sx_ite(int c, uint64_t a, uint64_t b) { return c ? a : b; }
int sx_and(int a, int b) { return a && b; }
int sx_or(int a, int b) { return a || b; }
void sx_deadlock(const char *msg) { printf("CHECK-FAILED deadlock %s\n", msg); done(77); }
#ifndef SX_FIBERS
void sx_atomic_begin() {} void sx_atomic_end() {}
__attribute__((weak)) void sxrt_sched_point() {}
__attribute__((weak)) void sxrt_set_sched(int, int) {} __attribute__((weak)) int sxrt_live_threads() { return 0; }
#endif
void sx_main();
}
#ifdef SX_FIBERS   // threads as fibers, switched where the recorded schedule says
#include <ucontext.h>
#include <cxxabi.h>
#if defined(SX_TSAN)
extern "C" { void *__tsan_create_fiber(unsigned); void *__tsan_get_current_fiber(); void __tsan_switch_to_fiber(void *, unsigned); void __tsan_acquire(void *); void __tsan_release(void *); void AnnotateIgnoreReadsBegin(const char *, int); void AnnotateIgnoreWritesBegin(const char *, int); void AnnotateIgnoreReadsEnd(const char *, int); void AnnotateIgnoreWritesEnd(const char *, int); }
#elif defined(SX_ASAN)
extern "C" { void __sanitizer_start_switch_fiber(void **, const void *, size_t); void __sanitizer_finish_switch_fiber(void *, const void **, size_t *); }
#endif
namespace { struct Fib { ucontext_t c; void *stack = nullptr; size_t size = 0; void (*fn)(void *); void *arg; void *ts = nullptr, *fake = nullptr; char eh[16] = {0}; }; Fib fib[16]; int nfib = 1, cur = 0, depth = 0;
void land() {
#if defined(SX_ASAN) && !defined(SX_TSAN)
    __sanitizer_finish_switch_fiber(fib[cur].fake, nullptr, nullptr);
#endif
    memcpy(__cxxabiv1::__cxa_get_globals(), fib[cur].eh, 16); }
void start() { land(); fib[cur].fn(fib[cur].arg); printf("thread function returned\n"); done(78); } }
extern "C" {
void sx_atomic_begin() { ++depth;
#ifdef SX_TSAN
    AnnotateIgnoreReadsBegin("", 0); AnnotateIgnoreWritesBegin("", 0);
#endif
}
void sx_atomic_end() { --depth;
#ifdef SX_TSAN
    AnnotateIgnoreWritesEnd("", 0); AnnotateIgnoreReadsEnd("", 0);
#endif
}
int sx_atomic_depth() { return depth; }
int sx_thread_self() { return cur; }
void sx_thread_joined(int) {}
int sx_thread_spawn(void (*fn)(void *), void *arg) { Fib &f = fib[nfib]; f.fn = fn; f.arg = arg; f.size = 1 << 20; f.stack = malloc(f.size); getcontext(&f.c); f.c.uc_stack.ss_sp = f.stack; f.c.uc_stack.ss_size = f.size; f.c.uc_link = nullptr; makecontext(&f.c, start, 0);
#ifdef SX_TSAN
    f.ts = __tsan_create_fiber(0); __tsan_release(&f);
#endif
    return nfib++; }
void sx_thread_switch(int t) { Fib &me = fib[cur], &f = fib[t]; memcpy(me.eh, __cxxabiv1::__cxa_get_globals(), 16); bool fresh = false; static bool seen[16]; if (t && !seen[t]) { seen[t] = true; fresh = true; }
#if defined(SX_TSAN)
    if (!me.ts) me.ts = __tsan_get_current_fiber(); __tsan_switch_to_fiber(f.ts, 1); if (fresh) __tsan_acquire(&f);
#elif defined(SX_ASAN)
    if (f.stack) __sanitizer_start_switch_fiber(&me.fake, f.stack, f.size); else { pthread_attr_t a; void *s; size_t n; pthread_getattr_np(pthread_self(), &a); pthread_attr_getstack(&a, &s, &n); __sanitizer_start_switch_fiber(&me.fake, s, n); }
#endif
    cur = t; swapcontext(&me.c, &f.c); land(); }
#ifdef SX_TSAN
void sx_hb_release(const void *p) { __tsan_release((void *)p); } void sx_hb_acquire(const void *p) { __tsan_acquire((void *)p); }
#else
void sx_hb_release(const void *) {} void sx_hb_acquire(const void *) {}
#endif
}
#endif
#ifndef SX_NO_NEW
#include <new>
void *operator new(size_t n) { void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); memset(p, pat(), n); return p; }
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { free(p); } void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); } void operator delete[](void *p, size_t) noexcept { free(p); }
#endif
int main(int argc, char **argv) { for (int i = 1; i < argc; i++) params.push_back(atoi(argv[i])); alarm(60); sx_main(); printf("END\n"); done(0); }
