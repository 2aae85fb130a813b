// Region I/O on an arbitrary stored state: read, write, scalar broadcast; all formats, raw codec.
// params: 0 operation (0 read, 1 write array, 2 write scalar, 3 write array twice then read, 4 read with a damaged chunk, 5 partial write with a damaged chunk), 1 format, 2 shape config, 3 dtype, 4 flags (1: padding arbitrary, 2: values differ from fill, 4: all chunks stored, 8: stored chunks may hold only fill values)
#include "io.h"
using namespace io;
#include <limits>
template <class T> static T fillOf(int k) { switch (k) { case 1000: return std::numeric_limits<T>::quiet_NaN(); case 1001: return T(-0.0); case 1002: return std::numeric_limits<T>::infinity(); case 1003: return -std::numeric_limits<T>::infinity(); case 1004: return sizeof(T) == 8 ? T(1ull << 53) : std::numeric_limits<T>::max(); case 1005: return sizeof(T) == 8 ? T(-(1ll << 53)) : std::numeric_limits<T>::lowest(); case 1006: return T(0.1); default: return T(k); } }
template <class T> static void damaged(int op, const Cfg &c, z5::Dataset &ds, Model<T> &m) {
    m.arbitrary(true, true, ~0u, true); std::size_t k = sx_choose("damaged chunk", m.chunk.size()), n = m.chunk[k].size(); V id; each(m.grid, [&](const V &i) { if (lin(i, m.grid) == k) id = i; });
    std::vector<char> raw; for (auto x : m.chunk[k]) { if (zarr(m.fmt)) putLE<T>(raw, x); else putBE<T>(raw, x); }
    switch (sx_choose("damage", 4)) {
    case 0: { auto e = packed(raw); std::size_t keep[] = {0, 1, e.size() / 2, e.size() - 1}; e.resize(keep[sx_choose("kept", 4)]); if (sharded(m.fmt) && e.empty()) e.resize(1); m.oddBytes = e; break; }
    case 1: { auto r = raw; T x = symT<T>("extra"); if (zarr(m.fmt)) putLE<T>(r, x); else putBE<T>(r, x); m.oddBytes = packed(r); break; }
    case 2: { auto r = raw; r.resize(r.size() - (sx_choose("one byte", 2) ? 1 : sizeof(T))); m.oddBytes = packed(r); if (sharded(m.fmt) && m.oddBytes.empty()) m.oddBytes.resize(1); break; }
    default: { m.oddBytes.resize(1 + sx_choose("length", 5)); sx_bytes(m.oddBytes.data(), m.oddBytes.size(), "stored"); if (std::string(codecName()) != "raw") sx_assume((m.oddBytes[0] & 0xf0) != 0xC0); if (!m.oddBytes.empty() && m.oddBytes.size() == raw.size() && std::string(codecName()) == "raw") return; } }
    m.odd = k; m.install(); V off, ext; region(c, off, ext); auto s0 = sxfs::snap(); bool hit = touches(c, id, off, ext), threw = false;
    if (op == 4) { std::vector<T> b; try { b = readAll<T>(ds, off, ext); } catch (std::exception &) { threw = true; } SX_CHECK(threw == hit, hit ? "reading a damaged chunk raises an error" : "a damaged chunk outside the region does not matter"); if (!threw) SX_CHECK(checkRegion(m, b, off, ext), "every element read is the last stored value or the fill value"); SX_CHECK(sxfs::same(s0), "reading does not change the store"); sx_cover("read"); return; }
    bool full = true; for (std::size_t d = 0; d < id.size(); d++) { std::size_t b = id[d] * c.chunk[d], e = b + clip(c, id)[d]; full &= off[d] <= b && off[d] + ext[d] >= e; } if (full || !hit) return;
    std::vector<T> in(prod(ext)); for (auto &x : in) x = symT<T>("new"); try { z5::multiarray::writeSubarray<T>(ds, z5::multiarray::ConstArrayView<T>(z5::multiarray::makeView((const T *)in.data(), ext)), off.begin()); } catch (std::exception &) { threw = true; }
    SX_CHECK(threw, "updating part of a damaged chunk raises an error"); sxfs::Node *f = sxfs::get(chunkFile(m.fmt, id)); if (!sharded(m.fmt)) { auto e = m.encode(id); SX_CHECK(f && f->data.size() == e.size() && !memcmp(f->data.data(), e.data(), e.size()), "a damaged chunk that cannot be updated is left as it was"); } sx_cover("write"); }
template <class T> static void run() {
    int op = sx_param(0), fmt = sx_param(1), fl = sx_param(4); Cfg c = cfg(sx_param(2)); T fill = fmt == N5 ? T(0) : fillOf<T>(sx_param(5));
    double fd; if constexpr (std::is_arithmetic_v<T>) fd = (double)fill; else fd = sx_param(5);
    auto ds = create<T>(fmt, c, fd); Model<T> m(c, fmt, fill);
    if (op >= 4) { damaged<T>(op, c, *ds, m); return; }
    m.arbitrary(!(fl & 1), fl & 2, ~0u, fl & 4, fl & 8); m.install();
    V off, ext; region(c, off, ext);
    if (op == 0) {
        sxfs::Snap s0 = sxfs::snap();
        auto b = readAll<T>(*ds, off, ext);
        SX_CHECK(checkRegion(m, b, off, ext), "every element read is the last stored value or the fill value");
        SX_CHECK(sxfs::same(s0), "reading does not change the store"); for (auto v : b) sx_observe(bits(v)); sx_cover("read"); return; }
    for (int rep = 0; rep < (op == 3 ? 2 : 1); rep++) {
        if (rep) region(c, off, ext);
        std::vector<T> in(prod(ext)); T sc = symT<T>("new");
        for (auto &x : in) { x = op == 2 ? sc : symT<T>("new"); if (fl & 2) sx_assume(!(x == fill)); }
        auto before = sxfs::snap();
        if (op == 2) z5::multiarray::writeScalar<T>(*ds, off.begin(), ext.begin(), sc);
        else z5::multiarray::writeSubarray<T>(*ds, z5::multiarray::ConstArrayView<T>(z5::multiarray::makeView((const T *)in.data(), ext)), off.begin());
        each(ext, [&](const V &p) { V g = p; for (std::size_t d = 0; d < g.size(); d++) g[d] += off[d]; m.val[lin(g, c.shape)] = in[lin(p, ext)]; });
        // stored representation
        std::size_t files = 0;
        each(m.grid, [&](const V &id) {
            std::size_t k = lin(id, m.grid); std::vector<T> got; bool there = m.decode(id, got); V s = m.stored(id), cl = clip(c, id); int ok = 1, any = 0, exact = 1;
            each(cl, [&](const V &p) { V g = p; for (std::size_t d = 0; d < g.size(); d++) g[d] += id[d] * c.chunk[d]; T want = m.val[lin(g, c.shape)]; ok = sx_and(ok, there ? same(got[lin(p, s)], want) : (int)(want == fill)); any = sx_or(any, !(want == fill)); });
            SX_CHECK(ok, touches(c, id, off, ext) ? "a written chunk holds the new values inside the region and the old ones elsewhere" : "a chunk outside the region keeps its contents");
            if (touches(c, id, off, ext) && !(fl & 1) && fill == fill) SX_CHECK(there ? any : !any, "a touched chunk is stored exactly if one of its elements differs from the fill value");
            if (!touches(c, id, off, ext)) { SX_CHECK(there == (bool)m.present[k], "a chunk outside the region is neither created nor removed"); if (there && !rep) for (std::size_t i = 0; i < got.size(); i++) exact = sx_and(exact, same(got[i], m.chunk[k][i])); SX_CHECK(exact, "a chunk outside the region keeps its stored bytes"); }
            m.present[k] = there; });
        if (sharded(fmt)) each(m.shardGrid(), [&](const V &s) { V per = m.cps(); bool any = false; each(per, [&](const V &in) { V id = s; for (std::size_t d = 0; d < id.size(); d++) id[d] = s[d] * per[d] + in[d]; if (m.inGrid(id) && m.present[lin(id, m.grid)]) any = true; }); SX_CHECK(any == sxfs::has(chunkFile(fmt, s)), "a shard file exists exactly if one of its inner chunks is stored"); files += any; });
        else for (auto x : m.present) files += x;
        // nothing else appeared or vanished
        std::size_t meta = fmt == N5 ? 1 : fmt == ZARR2 || fmt == ZARR2SLASH ? 1 : 1; SX_CHECK(sxfs::filesUnder(DS) == files + meta, "no stray files are left in the dataset"); }
    V z(c.shape.size(), 0); auto b = readAll<T>(*ds, z, c.shape); SX_CHECK(checkRegion(m, b, z, c.shape), "reading back gives the last written values and the fill value elsewhere");
    for (auto v : b) sx_observe(bits(v)); sx_cover("write");
}
extern "C" void sx_main() {
    switch (sx_param(3)) { case 0: run<uint8_t>(); break; case 1: run<uint16_t>(); break; case 2: run<int32_t>(); break; case 3: run<uint64_t>(); break; case 4: run<float>(); break; case 5: run<double>(); break; case 6: run<int8_t>(); break; case 7: run<int16_t>(); break; case 8: run<uint32_t>(); break; case 9: run<int64_t>(); break; case 10: run<std::complex<float>>(); break; }
}
