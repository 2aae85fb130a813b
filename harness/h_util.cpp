// Whole-dataset utilities against the stored elements: unique values, counts, removal of trivial chunks, removal of a dataset.
// params: 0 operation (0 unique, 1 counts, 2 remove trivial, 3 remove trivial with a value, 4 remove dataset, 5 remove through the handle), 1 format, 2 shape config, 3 dtype, 4 threads, 5 preemptions, 6 stored chunks (mask, 0: any), 7 variable-length first chunk (number of elements + 1, n5), 8 elements are 0 or 1
#include "io.h"
#include "z5/util/functions.hxx"
#include <map>
#include <set>
using namespace io;
extern "C" { void sxrt_set_sched(int, int); int sxrt_live_threads(); }
template <class T> static void run() {
    int op = sx_param(0), fmt = sx_param(1), nt = sx_param(4); Cfg c = cfg(sx_param(2)); T fill = T(fmt == N5 ? 0 : 7); auto ds = create<T>(fmt, c, (double)fill); Model<T> m(c, fmt, fill);
    m.arbitrary(false, false, sx_param(6), sx_param(6) != 0); if (sx_param(8)) for (auto &k : m.chunk) for (T x : k) sx_assume(sx_or(bits(x) == bits(T(1)), bits(x) == bits(T(0)))); int vl = fmt == N5 ? sx_param(7) : 0; m.install();
    std::vector<std::vector<T>> el(m.chunk.size()); each(m.grid, [&](const V &id) { std::size_t k = lin(id, m.grid); if (!m.present[k]) return; V s = m.stored(id), cl = clip(c, id); each(cl, [&](const V &p) { el[k].push_back(m.chunk[k][lin(p, s)]); }); });
    if (vl) { V id(c.shape.size(), 0); std::vector<T> v(vl - 1); for (auto &x : v) x = symT<T>("varlen"); std::vector<char> b; putBE<uint16_t>(b, 1); putBE<uint16_t>(b, (uint16_t)c.shape.size()); V s = clip(c, id); for (std::size_t d = s.size(); d-- > 0;) putBE<uint32_t>(b, (uint32_t)s[d]); putBE<uint32_t>(b, (uint32_t)v.size()); for (auto x : v) putBE<T>(b, x); sxfs::put(chunkFile(fmt, id), b.data(), b.size()); m.present[0] = 1; el[0] = v; }
    std::vector<T> all; for (auto &e : el) for (T x : e) all.push_back(x);
    sxfs::put("/store.x/other/0.0", std::string("keep")); sxfs::put("/store.x/ds2", std::string("keep")); auto s0 = sxfs::snap(); sxrt_set_sched(sx_param(5), 0);
    auto result = [&](const std::vector<T> &vals, const std::vector<std::size_t> *counts) {
        int sub = 1, sorted = 1, cnt = 1, sup = 1; for (std::size_t i = 0; i < vals.size(); i++) { int in = 0; uint64_t n = 0; for (T x : all) { in = sx_or(in, x == vals[i]); if (counts && x == vals[i]) ++n; } sub = sx_and(sub, in); if (counts) cnt = sx_and(cnt, n == (*counts)[i]); if (i) sorted = sx_and(sorted, vals[i - 1] < vals[i]); }
        for (T x : all) { int in = x != x; for (T v : vals) in = sx_or(in, x == v); sup = sx_and(sup, in); }
        SX_CHECK(sub, "every value reported is stored in some chunk"); SX_CHECK(sup, "every stored value is reported"); SX_CHECK(sorted, "no value is reported twice"); SX_CHECK(cnt, "the count of a value is the number of elements that have it"); SX_CHECK(sxfs::same(s0), "looking at the values changes nothing"); sx_observe(vals.size()); sx_cover("values"); };
    switch (op) {
    case 0: { std::set<T> u; z5::util::unique<T>(*ds, nt, u); sxrt_set_sched(0, 0); result(std::vector<T>(u.begin(), u.end()), nullptr); break; }
    case 1: { std::map<T, std::size_t> u; z5::util::uniqueWithCounts<T>(*ds, nt, u); sxrt_set_sched(0, 0); std::vector<T> v; std::vector<std::size_t> n; for (auto &k : u) { v.push_back(k.first); n.push_back(k.second); } result(v, &n); break; }
    case 2: case 3: {
        T val = symT<T>("value"); z5::util::removeTrivialChunks<T>(*ds, nt, op == 3, val); sxrt_set_sched(0, 0);
        each(m.grid, [&](const V &id) { std::size_t k = lin(id, m.grid); bool there = ds->chunkExists(id); if (!m.present[k]) { SX_CHECK(!there, "no chunk appears"); return; }
            int eq = !el[k].empty(), nan = 1; for (T x : el[k]) { eq = sx_and(eq, op == 3 ? x == val : x == el[k][0]); nan = sx_and(nan, x != x); }
            SX_CHECK(sx_or(there != (bool)eq, nan && op == 2), "exactly the chunks whose elements are all equal (to the value, if one is given) are removed"); sx_cover(there ? "kept" : "removed");
            if (there && !(vl && k == 0)) { std::vector<T> got; SX_CHECK(m.decode(id, got), "a chunk that is kept is stored"); int ok = 1; for (std::size_t i = 0; i < got.size(); i++) ok = sx_and(ok, bits(got[i]) == bits(m.chunk[k][i])); SX_CHECK(ok, "a chunk that is kept is unchanged"); } });
        for (std::size_t i = 0; i < s0.names.size(); i++) if (s0.names[i].compare(0, 12, "/store.x/ds/") || s0.names[i].find("json") != std::string::npos || s0.names[i].find("zarray") != std::string::npos) { auto *n = sxfs::get(s0.names[i]); SX_CHECK(n && n->data == s0.data[i], "nothing but chunks is removed or changed"); }
        break; }
    default: {
        std::string fm = zarr(fmt) ? "x" : "y"; sxfs::put(std::string(DS) + "/more/" + fm, std::string("user file")); if (op == 4) z5::util::removeDataset(*ds, nt); else ds->remove(); sxrt_set_sched(0, 0);
        SX_CHECK(!sxfs::has(DS) && sxfs::countUnder(DS) == 0, "nothing of a removed dataset is left"); SX_CHECK(sxfs::get("/store.x/other/0.0") && sxfs::get("/store.x/ds2") && sxfs::has(ROOT), "nothing else is removed"); sx_cover("removed"); } }
    SX_CHECK(sxrt_live_threads() == 0, "no thread is left running"); SX_CHECK(sxfs::fs().conflicts == 0, "no stored object is accessed by two workers at once"); }
extern "C" void sx_main() { switch (sx_param(3)) { case 0: run<uint8_t>(); break; case 1: run<uint16_t>(); break; case 2: run<int32_t>(); break; case 3: run<uint64_t>(); break; case 4: run<float>(); break; case 6: run<int8_t>(); break; default: run<double>(); } }
