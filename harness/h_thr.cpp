// Region and chunk I/O with several worker threads gives what one thread gives, under every schedule with a bounded number of preemptions.
// params: 0 operation, 1 format, 2 shape config, 3 dtype, 4 preemptions, 5 spurious wake-ups, 6 threads, 7 stored chunks (mask), 8 region (0 everything, 1 all but the first position of the last axis, 2 all but the last position of every axis)
#include "io.h"
#include "z5/util/for_each.hxx"
using namespace io;
extern "C" { void sxrt_set_sched(int, int); int sxrt_live_threads(); }
typedef std::vector<uint64_t> R;
static void restore(const sxfs::Snap &s) { sxfs::fs().head = nullptr; for (size_t i = s.names.size(); i-- > 0;) { sxfs::Node *n = sxfs::add(s.names[i], s.dirs[i]); n->data = s.data[i]; } }
template <class T> static void run() {
    int op = sx_param(0), fmt = sx_param(1), nt = sx_param(6); Cfg c = cfg(sx_param(2)); T fill = T(fmt == N5 ? 0 : 7); auto ds = create<T>(fmt, c, (double)fill); Model<T> m(c, fmt, fill); m.arbitrary(true, true, sx_param(7), true); m.install();
    V off(c.shape.size(), 0), ext = c.shape; if (sx_param(8) == 1) { off.back() = 1; ext.back() -= 1; } if (sx_param(8) == 2) for (auto &e : ext) e -= 1;
    std::vector<T> in(prod(ext)); T sc = symT<T>("scalar"); sx_assume(!(sc == fill)); for (auto &x : in) { x = symT<T>("new"); sx_assume(!(x == fill)); }
    std::vector<std::vector<T>> ch(m.chunk.size()); each(m.grid, [&](const V &id) { auto &v = ch[lin(id, m.grid)]; v.resize(prod(m.stored(id))); for (auto &x : v) { x = symT<T>("new"); sx_assume(!(x == fill)); } });
    auto go = [&](int n) { R r; switch (op) {
        case 0: { std::vector<T> b(prod(ext)); for (auto &x : b) x = T(0x5A); z5::multiarray::readSubarray<T>(*ds, z5::multiarray::makeView(b.data(), ext), off.begin(), n); for (auto x : b) r.push_back(bits(x)); break; }
        case 1: z5::multiarray::writeSubarray<T>(*ds, z5::multiarray::ConstArrayView<T>(z5::multiarray::makeView((const T *)in.data(), ext)), off.begin(), n); break;
        case 2: z5::multiarray::writeScalar<T>(*ds, off.begin(), ext.begin(), sc, n); break;
        case 3: z5::util::parallel_for_each_chunk(*ds, n, [&](int, const z5::Dataset &d, const V &id) { d.writeChunk(id, ch[lin(id, m.grid)].data()); }); break;
        case 4: { std::vector<std::vector<T>> got(m.chunk.size()); z5::util::parallel_for_each_chunk(*ds, n, [&](int, const z5::Dataset &d, const V &id) { auto &g = got[lin(id, m.grid)]; g.resize(prod(m.stored(id))); if (d.chunkExists(id)) d.readChunk(id, g.data()); }); for (auto &g : got) for (auto x : g) r.push_back(bits(x)); break; }
        case 5: z5::util::parallel_for_each_chunk(*ds, n, [&](int, const z5::Dataset &d, const V &id) { d.removeChunk(id); }); break; 
        case 6: { std::vector<std::vector<T>> got(m.chunk.size()); z5::util::parallel_for_each_chunk(*ds, n, [&](int, const z5::Dataset &d, const V &id) { std::size_t k = lin(id, m.grid); auto &g = got[k]; g.resize(prod(m.stored(id))); bool there = d.chunkExists(id); if (there) d.readChunk(id, g.data()); if (k % 2) d.writeChunk(id, ch[k].data()); else if (there) d.removeChunk(id); }); for (auto &g : got) for (auto x : g) r.push_back(bits(x)); break; } }
        return r; };
    auto s0 = sxfs::snap(); R r0 = go(1); auto s1 = sxfs::snap(); restore(s0); sxfs::fs().conflicts = 0; sxrt_set_sched(sx_param(4), sx_param(5));
    R r1 = go(nt); sxrt_set_sched(0, 0);
    SX_CHECK(sxrt_live_threads() == 0, "no thread is left running"); SX_CHECK(sxfs::fs().conflicts == 0, "no stored object is accessed by two workers at once"); SX_CHECK(sxfs::same(s1), "several threads store what one thread stores");
    int ok = r0.size() == r1.size(); for (std::size_t i = 0; i < r0.size() && i < r1.size(); i++) ok = sx_and(ok, r0[i] == r1[i]); SX_CHECK(ok, "several threads read what one thread reads"); for (auto x : r1) sx_observe(x); sx_cover("done"); }
extern "C" void sx_main() { switch (sx_param(3)) { case 0: run<uint8_t>(); break; case 1: run<uint16_t>(); break; case 2: run<int32_t>(); break; case 4: run<float>(); break; default: run<double>(); } }
