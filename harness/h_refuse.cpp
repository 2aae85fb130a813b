// Requests that do not lie in the dataset are refused without side effects.
// params: 0 op (0 read region, 1 write region, 2 write scalar, 3 read chunk, 4 write chunk), 1 format, 2 config, 3 kind (0 out of range/zero extent on one axis, 1 dimensionality, 2 like 0 with values around the powers of two), 4 axis
#include "io.h"
using namespace io;
typedef uint16_t T;
static uint64_t edge(const char *n, uint64_t s) { const uint64_t v[] = {0, 1, s - 1, s, s + 1, 1ull << 31, 1ull << 32, 1ull << 63, ~0ull - s, ~0ull - 1, ~0ull}; return v[sx_choose(n, 11)]; }
extern "C" void sx_main() {
    int op = sx_param(0), fmt = sx_param(1), kind = sx_param(3); Cfg c = cfg(sx_param(2)); size_t n = c.shape.size(), ax = sx_param(4);
    auto ds = create<T>(fmt, c, fmt == N5 ? 0 : 7); Model<T> m(c, fmt, fmt == N5 ? 0 : 7); m.arbitrary(true, false, 0x55555555u, true); m.install();
    sxfs::Snap s0 = sxfs::snap(); T buf[16], keep[16]; for (int i = 0; i < 16; i++) keep[i] = buf[i] = symT<T>("buf"); bool threw = false;
    if (op <= 2) {
        V off, ext;
        if (kind != 1) {
            for (size_t d = 0; d < n; d++) if (d == ax) { if (kind == 0) { off.push_back(sx_u64("offset")); ext.push_back(sx_u64("extent")); } else { off.push_back(edge("offset", c.shape[d])); ext.push_back(edge("extent", c.shape[d])); } } else { size_t o = sx_choose("o", c.shape[d]); off.push_back(o); ext.push_back(1 + sx_choose("x", c.shape[d] - o)); }
            uint64_t o = off[ax], x = ext[ax], s = c.shape[ax]; sx_assume(sx_or(x == 0, sx_or(x > s, o > s - (x > s ? s : x))));
        } else { size_t k = sx_choose("dims", n + 3); if (k == n) k = n + 3; for (size_t d = 0; d < k; d++) { off.push_back(0); ext.push_back(1); } }
        if (op == 2 && kind == 1) { sx_end_path(); }   // the scalar interface takes the dimensionality from the dataset
        try {
            if (op == 0) { z5::multiarray::ArrayView<T> v(buf, ext, V(ext.size(), 1)); z5::multiarray::readSubarray<T>(*ds, v, off.begin()); }
            else if (op == 1) { z5::multiarray::ConstArrayView<T> v(buf, ext, V(ext.size(), 1)); z5::multiarray::writeSubarray<T>(*ds, v, off.begin()); }
            else z5::multiarray::writeScalar<T>(*ds, off.begin(), ext.begin(), buf[0]);
        } catch (std::exception &) { threw = true; }
    } else {
        V id(n, 0); V g = gridOf(c);
        if (kind == 0) { for (size_t d = 0; d < n; d++) if (d != ax) id[d] = sx_choose("i", g[d]); static const uint64_t far[] = {0, 1, 2, 10, 1ull << 31, 1ull << 32, (1ull << 32) + 1, 1ull << 62, 1ull << 63, (1ull << 63) + 1, ~0ull - 1, ~0ull}; uint64_t v = far[sx_choose("far", 12)]; if (v < 1000) v += g[ax]; id[ax] = v; }
        else { size_t k = sx_choose("dims", n + 3); if (k == n) k = n + 3; id.assign(k, 0); }
        std::vector<T> data(prod(c.chunk)), dk; for (auto &x : data) x = symT<T>("data"); dk = data; sx_note("axis index", kind == 0 ? id[ax] : id.size());
        try { if (op == 3) ds->readChunk(id, data.data()); else ds->writeChunk(id, data.data()); } catch (std::exception &) { threw = true; }
        int ok = 1; for (size_t i = 0; i < data.size(); i++) ok = sx_and(ok, data[i] == dk[i]); SX_CHECK(ok, "a refused chunk access leaves the caller's buffer alone");
    }
    SX_CHECK(threw, op <= 2 ? (kind == 1 ? "a request of the wrong dimensionality is refused" : "an empty or out-of-range request is refused") : "an access to a chunk outside the grid is refused");
    int ok = 1; for (int i = 0; i < 16; i++) ok = sx_and(ok, buf[i] == keep[i]); SX_CHECK(ok, "a refused request leaves the caller's buffer alone");
    SX_CHECK(sxfs::same(s0), "a refused request leaves the store as it was"); sx_cover("refused");
}
