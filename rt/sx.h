// Harness interface. In the engine these are intrinsics; natively (replay) they read recorded inputs.
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
uint64_t sx_sym(const char *name, uint64_t bits, uint64_t lo, uint64_t hi);
void sx_assume(int c);
void sx_check(int c, const char *msg);
void sx_fail(const char *msg);
void sx_cover(const char *label);
void sx_observe(uint64_t v);
void sx_note(const char *msg, uint64_t v);
uint64_t sx_concretize(uint64_t v);
uint64_t sx_choose_n(const char *name, uint64_t n);
int sx_fork(int c);
int sx_param(int i);
int sx_is_engine();
void sx_end_path();
void sx_alloc_limit(uint64_t n);
void sx_poison(void *p, uint64_t n);
int sx_initialized(const void *p, uint64_t n);
uint64_t sx_obj_size(const void *p);
uint64_t sx_ite(int c, uint64_t a, uint64_t b);
int sx_and(int a, int b);
int sx_or(int a, int b);
int sx_thread_spawn(void (*fn)(void *), void *arg);
void sx_thread_switch(int tid);
int sx_thread_self();
void sx_thread_joined(int tid);
void sx_hb_release(const void *p);
void sx_hb_acquire(const void *p);
void sx_deadlock(const char *msg);
}
static inline uint64_t sx_range(const char *n, uint64_t lo, uint64_t hi) { return sx_sym(n, 64, lo, hi); }
static inline uint64_t sx_u64(const char *n) { return sx_sym(n, 64, 0, ~0ull); }
static inline uint8_t sx_byte(const char *n) { return (uint8_t)sx_sym(n, 8, 0, 255); }
static inline bool sx_bool(const char *n) { return sx_sym(n, 1, 0, 1) != 0; }
// a value in [0,n) that is concrete on each path (one path per value)
static inline uint64_t sx_choose(const char *n, uint64_t cnt) { return cnt <= 1 ? 0 : sx_choose_n(n, cnt); }
static inline void sx_bytes(void *p, size_t n, const char *name) { for (size_t i = 0; i < n; i++) ((uint8_t *)p)[i] = sx_byte(name); }
#define SX_CHECK(c, m) sx_check(!!(c), m)
