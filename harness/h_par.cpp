// Parallel loops and the thread pool under every schedule with a bounded number of preemptions.
// params: 0 variant, 1 preemptions, 2 spurious wake-ups, 3 threads, 4 items
#include "sx.h"
#include "z5/util/threadpool.hxx"
#include <list>
extern "C" { void sxrt_set_sched(int, int); int sxrt_live_threads(); void sx_atomic_begin(); void sx_atomic_end(); }
using namespace z5::util;
struct Boom { uint32_t item; };
static int nt, items; static uint32_t val[8];
struct Input { typedef std::input_iterator_tag iterator_category; typedef uint32_t value_type; typedef std::ptrdiff_t difference_type; typedef uint32_t *pointer; typedef uint32_t reference; int i; uint32_t operator*() const { return val[i]; } Input &operator++() { ++i; return *this; } Input operator++(int) { Input r = *this; ++i; return r; } bool operator==(const Input &o) const { return i == o.i; } bool operator!=(const Input &o) const { return i != o.i; } };
// runs loop(f) with items that may throw, and checks the outcome
template <class L> static void loop(L l, bool byValue, bool sequential) {
    std::vector<int> calls(items), ended(items), worker(items, -1); std::vector<uint32_t> got(items); bool fails[8]; bool any = false; int returned = 0, after = 0;
    for (int i = 0; i < items; i++) { fails[i] = sx_fork(sx_bool("throws")); any |= fails[i]; }
    bool threw = false; uint32_t which = 0;
    try {
        l([&](int tid, auto item) {
            int i = byValue ? 0 : (int)item; if (byValue) while (i < items && !(val[i] == item)) ++i; SX_CHECK(i >= 0 && i < items, "the loop passes the items of the range");
            sx_atomic_begin(); int late = returned; worker[i] = tid; sx_atomic_end(); if (late) ++after;
            ++calls[i]; got[i] = val[i] * 3 + 1; if (fails[i]) { ++ended[i]; throw Boom{(uint32_t)i}; } ++ended[i]; });
    } catch (Boom &b) { threw = true; which = b.item; }
    sx_atomic_begin(); returned = 1; sx_atomic_end();
    SX_CHECK(threw == any, "the loop throws exactly if an item did"); if (threw) SX_CHECK(which < (uint32_t)items && fails[which] && calls[which] == 1, "the loop rethrows an exception of an item");
    for (int i = 0; i < items; i++) { SX_CHECK(calls[i] <= 1, "no item is run twice"); SX_CHECK(ended[i] == calls[i], "the loop returns only after all calls have finished"); if (!any) { SX_CHECK(calls[i] == 1, "every item is run"); SX_CHECK(got[i] == val[i] * 3 + 1, "results of the items are visible after the loop"); } if (calls[i]) SX_CHECK(worker[i] >= 0 && worker[i] < (nt < 1 ? 1 : nt), "worker numbers lie below the number of threads"); }
    (void)sequential; SX_CHECK(after == 0, "no item is run after the loop has returned"); }
extern "C" void sx_main() {
    int var = sx_param(0); sxrt_set_sched(sx_param(1), sx_param(2)); nt = sx_param(3); items = sx_param(4);
    for (int i = 0; i < items; i++) { val[i] = (uint32_t)sx_sym("value", 32, 0, ~0u); for (int k = 0; k < i; k++) sx_assume(val[k] != val[i]); }
    if (nt < 0) nt = nt == -1 ? 2 : 1;
    int asked = sx_param(3);
    switch (var) {
    case 0: loop([&](auto f) { parallel_foreach((int64_t)asked, (std::ptrdiff_t)items, f); }, false, nt < 2); break;
    case 1: { ThreadPool p(asked); SX_CHECK((int)p.nThreads() == nt || asked < 0, "the pool has the requested number of workers"); loop([&](auto f) { parallel_foreach(p, (std::ptrdiff_t)items, f); }, false, nt < 2); loop([&](auto f) { parallel_foreach(p, (std::ptrdiff_t)items, f); }, false, nt < 2); p.waitFinished(); break; }
    case 2: loop([&](auto f) { parallel_foreach((int64_t)asked, Input{0}, Input{items}, f); }, true, nt < 2); break;
    case 3: { std::list<uint32_t> l(val, val + items); loop([&](auto f) { parallel_foreach((int64_t)asked, l.begin(), l.end(), f); }, true, nt < 2); break; }
    case 4: { // tasks handed to a pool directly; the pool is destroyed with or without waiting
        std::vector<int> begun(items), ended(items); bool wait = sx_fork(sx_bool("wait")); std::vector<std::future<uint32_t>> fut;
        { ThreadPool p(asked); for (int i = 0; i < items; i++) fut.push_back(p.enqueueReturning([&, i](int t) { ++begun[i]; uint32_t r = val[i] + 5; ++ended[i]; return r; })); if (wait) { p.waitFinished(); for (int i = 0; i < items; i++) SX_CHECK(ended[i] == 1, "after waiting every task has run"); } }
        SX_CHECK(sxrt_live_threads() == 0, "the destroyed pool leaves no thread behind");
        for (int i = 0; i < items; i++) { SX_CHECK(begun[i] == ended[i] && begun[i] <= 1, "a started task is finished and none runs twice"); bool broken = false; uint32_t r = 0; try { r = fut[i].get(); } catch (std::future_error &) { broken = true; } SX_CHECK(broken == !ended[i], "the future of a task reports its result, or that the task was dropped"); if (!broken) SX_CHECK(r == val[i] + 5, "the future returns the task's result"); }
        break; }
    case 5: { // several threads wait for the same pool
        std::vector<int> ended(items); { ThreadPool p(asked); for (int i = 0; i < items; i++) p.enqueue([&, i](int) { ++ended[i]; }); std::thread w([&] { p.waitFinished(); }); p.waitFinished(); for (int i = 0; i < items; i++) SX_CHECK(ended[i] == 1, "after waiting every task has run"); w.join(); } break; }
    case 6: { // two threads hand out tasks
        std::vector<int> ended(items); { ThreadPool p(asked); std::thread w([&] { std::vector<std::future<void>> f; for (int i = 0; i < items; i += 2) f.push_back(p.enqueue([&, i](int) { ++ended[i]; })); for (auto &x : f) x.get(); }); std::vector<std::future<void>> f; for (int i = 1; i < items; i += 2) f.push_back(p.enqueue([&, i](int) { ++ended[i]; })); for (auto &x : f) x.get(); w.join(); }
        for (int i = 0; i < items; i++) SX_CHECK(ended[i] == 1, "every task is run once"); break; }
    }
    SX_CHECK(sxrt_live_threads() == 0, "no thread is left running"); sx_cover("done"); }
