// Chunk files of arbitrary contents and length: every access returns what the file describes or raises an error.
// params: 0 op (0 region read, 1 chunk read sized by the queries, 2 header queries, 3 partial write, 4 partial scalar write, 5 full-chunk region read through a chunk-sized buffer), 1 format, 2 config, 3 dtype, 4 largest file length, 5 first length
#include "io.h"
using namespace io;
struct Hdr { bool complete = false, varlen = false, shapeOk = false, fullOk = false, payload = false; size_t len = 0; };
template <class T> static void run() {
    int op = sx_param(0), fmt = sx_param(1); Cfg c = cfg(sx_param(2)); T fill = fmt == N5 ? T(0) : T(7); auto ds = create<T>(fmt, c, (double)fill); size_t nd = c.shape.size();
    V grid = gridOf(c), id; for (auto g : grid) id.push_back(sx_choose("id", g)); V cl = clip(c, id); size_t lo = sx_param(5), L = lo + sx_choose("length", sx_param(4) - lo + 1);
    // neighbours hold valid data, so stale buffer contents would show up as defined values
    Model<T> m(c, fmt, fill); each(grid, [&](const V &o) { if (o == id) return; size_t k = lin(o, grid); m.present[k] = 1; m.chunk[k].assign(prod(m.stored(o)), T(9)); each(clip(c, o), [&](const V &p) { V g = p; for (size_t d = 0; d < nd; d++) g[d] += o[d] * c.chunk[d]; m.val[lin(g, c.shape)] = T(9); }); }); m.install();
    std::vector<char> f(L + 1); sx_bytes(f.data(), L, "file"); sxfs::put(chunkFile(fmt, id), f.data(), L); f.resize(L); const char *p = f.data();
    // what the file describes, according to the specification
    size_t h = fmt == N5 ? 4 + 4 * nd : 0, n = prod(cl), nf = prod(c.chunk), hv = h + 4; uint16_t mode = 0, fnd = 0; V fs(nd, 0); uint32_t vl = 0; int shapeClip = 1, shapeFull = 1;
    bool wf = L >= h; if (fmt == N5 && wf) { mode = getBE<uint16_t>(p); fnd = getBE<uint16_t>(p + 2); for (size_t d = 0; d < nd; d++) { fs[d] = getBE<uint32_t>(p + 4 + 4 * (nd - 1 - d)); shapeClip = sx_and(shapeClip, fs[d] == cl[d]); shapeFull = sx_and(shapeFull, fs[d] == c.chunk[d]); } if (L >= hv) vl = getBE<uint32_t>(p + h); }
    auto at = [&](size_t i) -> T { return fmt == N5 ? getBE<T>(p + h + i * sizeof(T)) : getLE<T>(p + i * sizeof(T)); };
    V off, z(nd, 0); for (size_t d = 0; d < nd; d++) off.push_back(id[d] * c.chunk[d]);
    const char *ex = "data is returned only if the file is complete and describes exactly this chunk", *va = "returned elements are those stored in the file", *ac = "a well-formed chunk file is accepted";
    int good = wf && L == h + n * sizeof(T); int goodFull = wf && L == h + nf * sizeof(T);
    if (fmt == N5) { good = good ? sx_and(sx_and(mode == 0, fnd == nd), shapeClip) : 0; goodFull = goodFull ? sx_and(sx_and(mode == 0, fnd == nd), shapeFull) : 0; } else good = goodFull;
    if (op == 0 || op == 5) {
        // whole dataset in one request (the per-thread buffer then holds a neighbour's data), or the chunk alone
        V o = op == 0 ? z : off, e = op == 0 ? c.shape : cl; std::vector<T> b; bool threw = false; try { b = readAll<T>(*ds, o, e); } catch (std::exception &) { threw = true; }
        if (threw) SX_CHECK(!good, ac); else {
            SX_CHECK(sx_or(good, goodFull), ex); bool fullLayout = sx_fork(goodFull) ; int ok = 1; V st = fullLayout ? c.chunk : cl;
            each(cl, [&](const V &q) { V g = q; for (size_t d = 0; d < nd; d++) g[d] += off[d]; m.val[lin(g, c.shape)] = at(lin(q, st)); }); each(e, [&](const V &q) { V g = q; for (size_t d = 0; d < nd; d++) g[d] += o[d]; ok = sx_and(ok, same(b[lin(q, e)], m.val[lin(g, c.shape)])); }); SX_CHECK(ok, va); sx_cover("accepted"); }
    } else if (op == 1) {
        // sized the way the Python layer does it
        size_t cs = 0; bool threw = false, var = false, isVar = false; std::vector<T> b;
        try {
            isVar = ds->checkVarlenChunk(id, cs); if (isVar) { if (sx_fork(cs <= 16)) cs = sx_concretize(cs); else cs = 0; } else { V s; if (fmt == N5) ds->getChunkShape(id, s); else s = ds->defaultChunkShape(); cs = prod(s); }
            b.resize(cs + 1); sx_poison(b.data(), cs * sizeof(T)); b[cs] = T(3); var = ds->readChunk(id, b.data());
        } catch (std::exception &) { threw = true; }
        if (!b.empty()) SX_CHECK(b.back() == T(3), "nothing is written past the caller's buffer");
        if (threw) SX_CHECK(!good, ac);
        else if (var) { SX_CHECK(fmt == N5 && L >= hv && isVar, "only n5 chunks with a variable-length header are returned as such"); SX_CHECK(sx_and(sx_and(mode == 1, fnd == nd), hv + (uint64_t)vl * sizeof(T) == L), ex); int ok = vl == cs; for (size_t i = 0; i < cs; i++) ok = sx_and(ok, same(b[i], getBE<T>(p + hv + i * sizeof(T)))); SX_CHECK(ok, va); sx_cover("accepted"); }
        else { SX_CHECK(good, ex); int ok = 1; for (size_t i = 0; i < cs; i++) ok = sx_and(ok, same(b[i], at(i))); SX_CHECK(ok, va); sx_cover("accepted"); }
    } else if (op == 2) {
        auto s0 = sxfs::snap(); V s; bool threw = false; try { ds->getChunkShape(id, s, true); } catch (std::exception &) { threw = true; }
        int ok = wf ? sx_and(fnd == nd, mode <= 1) : 0; if (!threw) { SX_CHECK(ok, "a shape is reported only for a file with a complete header of this dimensionality"); ok = 1; SX_CHECK(s.size() == nd, "header shape has the dataset's dimensionality"); for (size_t d = 0; d < nd; d++) ok = sx_and(ok, s[d] == fs[d]); SX_CHECK(ok, "the shape from the header is the stored one"); sx_cover("accepted"); } else SX_CHECK(!good, ac);
        for (unsigned d = 0; d < nd; d++) { bool t1 = false; uint64_t x = 0; try { x = ds->getChunkShape(id, d, true); } catch (std::exception &) { t1 = true; } SX_CHECK(t1 == threw && (t1 || x == s[d]), "the shape along one axis agrees with the whole shape"); }
        size_t cs = 0; threw = false; bool var = false; try { var = ds->checkVarlenChunk(id, cs); } catch (std::exception &) { threw = true; }
        if (threw) SX_CHECK(!good, ac); else if (var) { SX_CHECK(L >= hv, "an element count is reported only for a file that holds one"); SX_CHECK(sx_and(mode == 1, cs == vl), "the element count is the stored one"); } else SX_CHECK(sx_and(L >= 4, cs == n), "the size of an ordinary chunk comes from the grid");
        SX_CHECK(sxfs::same(s0), "queries do not change the store");
    } else {
        // a write to one element of the chunk has to merge the stored one
        auto s0 = sxfs::snap(); V e(nd, 1); T v = symT<T>("new"); bool threw = false; try { if (op == 3) { z5::multiarray::ConstArrayView<T> w(&v, e, V(nd, 1)); z5::multiarray::writeSubarray<T>(*ds, w, off.begin()); } else z5::multiarray::writeScalar<T>(*ds, off.begin(), e.begin(), v); } catch (std::exception &) { threw = true; }
        bool whole = fmt == N5 ? n == 1 : nf == 1; if (whole) { SX_CHECK(!threw, "overwriting a whole chunk does not need the old contents"); return; }
        if (threw) { SX_CHECK(!good, ac); SX_CHECK(sxfs::same(s0), "a failed partial write leaves the store as it was"); }
        else { SX_CHECK(good, "a partial write succeeds only if the stored chunk is intact"); std::vector<T> got; bool there = m.decode(id, got); int ok = same(got[0], v); for (size_t i = 1; i < got.size(); i++) ok = sx_and(ok, same(got[i], at(i))); SX_CHECK(ok, "a partial write keeps the stored elements"); sx_cover("accepted"); (void)there; }
    }
}
extern "C" void sx_main() { switch (sx_param(3)) { case 0: run<uint8_t>(); break; case 1: run<uint16_t>(); break; case 2: run<int32_t>(); break; case 3: run<uint64_t>(); break; case 4: run<float>(); break; case 5: run<double>(); break; } }
