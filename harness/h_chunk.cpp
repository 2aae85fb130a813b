// Single-chunk access on an arbitrary stored state.
// params: 0 variant (0 write+query+read, 1 overwrite all-fill/remove, 2 n5 variable length, 3 queries only), 1 format, 2 config, 3 dtype
#include "io.h"
using namespace io;
template <class T> static void others(const Model<T> &m, const V &id) {
    each(m.grid, [&](const V &o) { if (o == id) return; size_t k = lin(o, m.grid); std::vector<T> got; bool there = m.decode(o, got); SX_CHECK(there == (bool)m.present[k], "accessing one chunk neither creates nor removes others"); if (there) { int ok = 1; for (size_t i = 0; i < got.size(); i++) ok = sx_and(ok, same(got[i], m.chunk[k][i])); SX_CHECK(ok, "accessing one chunk leaves the others' bytes alone"); } }); }
template <class T> static void queries(const z5::Dataset &ds, const Model<T> &m, const V &id, bool there) {
    V cl = clip(m.c, id), s; SX_CHECK(ds.chunkExists(id) == there, "the existence query agrees with what is stored");
    SX_CHECK(ds.getChunkSize(id) == prod(cl), "the size query gives the number of elements inside the dataset"); ds.getChunkShape(id, s); SX_CHECK(s == cl, "the shape query gives the clipped chunk shape");
    for (unsigned d = 0; d < cl.size(); d++) SX_CHECK(ds.getChunkShape(id, d) == cl[d], "the shape query along one axis agrees"); size_t n = 0; SX_CHECK(!ds.checkVarlenChunk(id, n) && n == prod(cl), "an ordinary chunk is not reported as variable-length");
    if (m.fmt == N5 && there) { V h; ds.getChunkShape(id, h, true); SX_CHECK(h == cl, "the shape in the n5 header is the clipped chunk shape"); for (unsigned d = 0; d < cl.size(); d++) SX_CHECK(ds.getChunkShape(id, d, true) == cl[d], "the header shape along one axis agrees"); } }
template <class T> static void read(const z5::Dataset &ds, const Model<T> &m, const V &id) {
    size_t k = lin(id, m.grid), n = prod(m.stored(id)); std::vector<T> out(n + 1), g; T guard = symT<T>("guard"); sx_poison(out.data(), n * sizeof(T)); out[n] = guard; bool threw = false, var = true;
    try { var = ds.readChunk(id, out.data()); } catch (std::exception &) { threw = true; }
    SX_CHECK(threw == !m.present[k], "reading a chunk raises an error exactly if it is not stored"); if (threw) return;
    SX_CHECK(!var, "an ordinary chunk is not read as variable-length"); int ok = 1; for (size_t i = 0; i < n; i++) ok = sx_and(ok, same(out[i], m.chunk[k][i])); SX_CHECK(ok, "a chunk reads back as written"); SX_CHECK(bits(out[n]) == bits(guard), "reading a chunk writes exactly the chunk's elements");
    for (size_t i = 0; i < n; i++) sx_observe(bits(out[i])); }
template <class T> static void run() {
    int var = sx_param(0), fmt = sx_param(1); Cfg c = cfg(sx_param(2)); T fill = fmt == N5 ? T(0) : T(7); auto ds = create<T>(fmt, c, (double)fill); Model<T> m(c, fmt, fill);
    m.arbitrary(true, false, 0, false, true); m.install(); V id; for (auto g : m.grid) id.push_back(sx_choose("id", g)); size_t k = lin(id, m.grid); V st = m.stored(id); size_t n = prod(st);
    if (var == 3) { auto s0 = sxfs::snap(); each(m.grid, [&](const V &o) { queries(*ds, m, o, m.present[lin(o, m.grid)]); }); read(*ds, m, id); SX_CHECK(sxfs::same(s0), "queries and reads do not change the store"); sx_cover("query"); return; }
    if (var == 2) {
        size_t len = sx_choose("len", 6); std::vector<T> in(len + 1); for (size_t i = 0; i < len; i++) in[i] = symT<T>("new"); auto s0 = sxfs::snap();
        if (fmt != N5) { bool threw = false; try { ds->writeChunk(id, in.data(), true, len); } catch (std::exception &) { threw = true; } SX_CHECK(threw && sxfs::same(s0), "variable-length chunks are refused outside n5"); sx_cover("varlen"); return; }
        ds->writeChunk(id, in.data(), true, len); m.present[k] = 0; auto *f = sxfs::get(chunkFile(fmt, id));
        if (len == 0) { SX_CHECK(!f && !ds->chunkExists(id), "an empty variable-length chunk is not stored"); sx_cover("varlen"); return; }
        V cl = clip(c, id); size_t h = 8 + 4 * cl.size(); SX_CHECK(f && f->data.size() == h + len * sizeof(T), "a variable-length n5 chunk is header, element count and elements"); const char *p = f->data.data();
        SX_CHECK(getBE<uint16_t>(p) == 1 && getBE<uint16_t>(p + 2) == cl.size() && getBE<uint32_t>(p + h - 4) == len, "variable-length n5 header: mode 1, dimensions, element count"); for (size_t d = 0; d < cl.size(); d++) SX_CHECK(getBE<uint32_t>(p + 4 + 4 * d) == cl[cl.size() - 1 - d], "variable-length n5 header extents are axis-reversed");
        int ok = 1; for (size_t i = 0; i < len; i++) ok = sx_and(ok, same(getBE<T>(p + h + i * sizeof(T)), in[i])); SX_CHECK(ok, "n5 elements are stored big-endian");
        size_t q = 0; SX_CHECK(ds->chunkExists(id) && ds->checkVarlenChunk(id, q) && q == len, "a variable-length chunk is reported with its length");
        std::vector<T> out(len + 1); T guard = symT<T>("guard"); sx_poison(out.data(), len * sizeof(T)); out[len] = guard; SX_CHECK(ds->readChunk(id, out.data()), "a variable-length chunk reads as variable-length"); ok = 1; for (size_t i = 0; i < len; i++) ok = sx_and(ok, same(out[i], in[i])); SX_CHECK(ok && bits(out[len]) == bits(guard), "a variable-length chunk reads back the same elements");
        // others: mark this one as not comparable
        each(m.grid, [&](const V &o) { if (o == id) return; std::vector<T> got; bool there = m.decode(o, got); SX_CHECK(there == (bool)m.present[lin(o, m.grid)], "accessing one chunk neither creates nor removes others"); });
        // region access to it is refused without a change
        auto s1 = sxfs::snap(); V off, ext; for (size_t d = 0; d < id.size(); d++) { off.push_back(id[d] * c.chunk[d]); ext.push_back(1); } std::vector<T> one(1); bool rt = false; try { z5::multiarray::readSubarray<T>(*ds, z5::multiarray::makeView(one.data(), ext), off.begin()); } catch (std::exception &) { rt = true; } SX_CHECK(rt && sxfs::same(s1), "reading a region from a variable-length chunk is refused");
        if (prod(cl) > 1) { bool wt = false; one[0] = T(1); try { z5::multiarray::writeSubarray<T>(*ds, z5::multiarray::ConstArrayView<T>(z5::multiarray::makeView((const T *)one.data(), ext)), off.begin()); } catch (std::exception &) { wt = true; } SX_CHECK(wt && sxfs::same(s1), "writing part of a variable-length chunk is refused"); }
        sx_cover("varlen"); return; }
    if (var == 0) {
        std::vector<T> in(n); int nf = 0; V cl = clip(c, id); for (auto &x : in) { x = symT<T>("new"); nf = sx_or(nf, !(x == fill)); } bool any = sx_fork(nf); auto keep = in;
        ds->writeChunk(id, in.data()); int ok = 1; for (size_t i = 0; i < n; i++) ok = sx_and(ok, bits(in[i]) == bits(keep[i])); SX_CHECK(ok, "writing does not modify the caller's data");
        std::vector<T> got; bool there = m.decode(id, got); SX_CHECK(there == any, "a chunk is stored exactly if one of its elements differs from the fill value"); if (there) { ok = 1; for (size_t i = 0; i < n; i++) ok = sx_and(ok, same(got[i], in[i])); SX_CHECK(ok, "the stored chunk holds the written elements in the format's encoding"); }
        m.present[k] = there; m.chunk[k] = in; others(m, id); queries(*ds, m, id, there); read(*ds, m, id);
        std::filesystem::path p; ds->chunkPath(id, p); V fid = id; if (sharded(fmt)) { V per = m.cps(); for (size_t d = 0; d < id.size(); d++) fid[d] /= per[d]; } SX_CHECK(p.string() == chunkFile(fmt, fid), "the reported chunk path is the format's key below the dataset"); sx_cover("write"); return; }
    if (var == 1) {
        bool rm = sx_choose("remove", 2); if (rm) ds->removeChunk(id); else { std::vector<T> in(n, fill); ds->writeChunk(id, in.data()); }
        std::vector<T> got; SX_CHECK(!m.decode(id, got), rm ? "a removed chunk is gone" : "a chunk overwritten with the fill value is gone"); m.present[k] = 0; others(m, id); queries(*ds, m, id, false); read(*ds, m, id);
        if (sharded(fmt)) { V per = m.cps(), s = id; bool any = false; for (size_t d = 0; d < id.size(); d++) s[d] /= per[d]; each(m.grid, [&](const V &o) { V t = o; for (size_t d = 0; d < o.size(); d++) t[d] /= per[d]; if (t == s && m.present[lin(o, m.grid)]) any = true; }); SX_CHECK(sxfs::has(chunkFile(fmt, s)) == any, "a shard without inner chunks is removed"); }
        else SX_CHECK(!sxfs::has(chunkFile(fmt, id)), "the chunk file is gone");
        V z(c.shape.size(), 0); each(m.grid, [&](const V &o) { size_t q = lin(o, m.grid); V cl = clip(c, o), s = m.stored(o); each(cl, [&](const V &p) { V g = p; for (size_t d = 0; d < g.size(); d++) g[d] += o[d] * c.chunk[d]; m.val[lin(g, c.shape)] = m.present[q] ? m.chunk[q][lin(p, s)] : fill; }); });
        auto b = readAll<T>(*ds, z, c.shape); SX_CHECK(checkRegion(m, b, z, c.shape), "a removed chunk reads as the fill value"); sx_cover("remove"); }
}
extern "C" void sx_main() { switch (sx_param(3)) { case 0: run<uint8_t>(); break; case 1: run<uint16_t>(); break; case 2: run<int32_t>(); break; case 3: run<uint64_t>(); break; case 4: run<float>(); break; case 5: run<double>(); break; case 6: run<int8_t>(); break; case 7: run<int16_t>(); break; case 8: run<uint32_t>(); break; case 9: run<int64_t>(); break; } }
