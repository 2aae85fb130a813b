// Shard files: layout, parsing, corrupt files, numbering of inner chunks.
// params: 0 variant (0 build and parse back, 1 parse arbitrary bytes, 2 dataset on an arbitrary shard file, 3 numbering)
//  variant 0: 1 slots, 2 largest blob   variant 1: 1 slots, 2 smallest length, 3 largest length, 4 checksum (0 arbitrary, 1 correct up to a symbolic difference)
//  variant 2: 1 op, 2 config, 3 data bytes before the index, 4 missing bytes at the front (a shorter file)   variant 3: 1 axes, 2 symbolic axis
#include "io.h"
using namespace io; using namespace z5::util; typedef std::vector<char> B;
static void roundtrip(size_t n, size_t mx) {
    std::vector<B> blobs(n), back(sx_choose("reused", 2) ? n + 1 : 0, B(2, 'x')); bool any = false; for (auto &b : blobs) { b.resize(sx_choose("blob length", mx + 1)); for (auto &c : b) c = (char)sx_byte("blob"); any |= !b.empty(); }
    B out(sx_choose("out", 2) * 3, 'y'); auto keep = blobs; buildShard(blobs, out); SX_CHECK(allSlotsEmpty(blobs) == !any, "a shard is empty exactly if no slot holds a chunk");
    size_t il = 16 * n + 4, total = 0; for (auto &b : blobs) total += b.size(); SX_CHECK(out.size() >= total + il, "the file holds all blobs and the index"); const char *ix = out.data() + out.size() - il; size_t data = out.size() - il;
    SX_CHECK(getLE<uint32_t>(ix + 16 * n) == refCrc((const uint8_t *)ix, 16 * n), "the index is followed by its CRC-32C");
    for (size_t s = 0; s < n; s++) { uint64_t o = getLE<uint64_t>(ix + 16 * s), l = getLE<uint64_t>(ix + 16 * s + 8); if (blobs[s].empty()) { SX_CHECK(o == ~0ull && l == ~0ull, "an absent chunk is marked with all-ones"); continue; }
        SX_CHECK(l == blobs[s].size() && o <= data && l <= data - o, "an entry describes a range of the data region"); int ok = 1; for (size_t i = 0; i < l; i++) ok = sx_and(ok, out[o + i] == blobs[s][i]); SX_CHECK(ok, "the range holds the bytes of the chunk");
        for (size_t t = 0; t < s; t++) if (!blobs[t].empty()) { uint64_t o2 = getLE<uint64_t>(ix + 16 * t), l2 = getLE<uint64_t>(ix + 16 * t + 8); SX_CHECK(o + l <= o2 || o2 + l2 <= o, "entries do not overlap"); } }
    std::vector<ShardEntry> e(sx_choose("entries", 2)); SX_CHECK(parseShardIndex(out, n, e), "a written shard parses"); SX_CHECK(e.size() == n, "one entry per slot"); for (size_t s = 0; s < n; s++) SX_CHECK(e[s].empty() == blobs[s].empty(), "presence flags come back");
    extractShardBlobs(out, e, back); SX_CHECK(back.size() == n, "one blob per slot"); for (size_t s = 0; s < n; s++) { SX_CHECK(back[s].size() == blobs[s].size(), "the number of bytes comes back"); int ok = 1; for (size_t i = 0; i < back[s].size(); i++) ok = sx_and(ok, back[s][i] == keep[s][i]); SX_CHECK(ok, "the bytes come back"); }
    sx_cover("roundtrip"); }
static void arbitrary(size_t n, size_t lo, size_t hi, int crcMode) {
    size_t L = lo + sx_choose("length", hi - lo + 1), il = 16 * n + 4; B f(L); sx_bytes(f.data(), L, "shard"); bool fits = L >= il; size_t data = fits ? L - il : 0; int good = fits;
    if (fits && crcMode) { uint32_t d = (uint32_t)sx_sym("difference", 32, 0, ~0ull), c = refCrc((const uint8_t *)f.data() + data, 16 * n) ^ d; for (int k = 0; k < 4; k++) f[L - 4 + k] = (char)(c >> (8 * k)); good = d == 0; } else if (fits) good = refCrc((const uint8_t *)f.data() + data, 16 * n) == getLE<uint32_t>(f.data() + L - 4);
    std::vector<ShardEntry> e; bool ok = parseShardIndex(f, n, e); if (fits && !sx_fork(good)) { SX_CHECK(!ok, "an index with a wrong checksum is refused"); sx_cover("refused"); return; } if (!fits) { SX_CHECK(!ok, "a file too short for the index is refused"); sx_cover("short"); return; }
    int entries = 1, nonzero = 1; for (size_t s = 0; s < n; s++) { uint64_t o = getLE<uint64_t>(f.data() + data + 16 * s), l = getLE<uint64_t>(f.data() + data + 16 * s + 8); int absent = sx_and(o == ~0ull, l == ~0ull), in = sx_and(o <= data, l <= data - o); entries = sx_and(entries, sx_or(absent, in)); nonzero = sx_and(nonzero, sx_or(absent, l != 0)); }
    if (!ok) { SX_CHECK(sx_or(!entries, !nonzero), "an intact index is accepted"); sx_cover("corrupt"); return; }
    SX_CHECK(entries, "an entry that is not a range of the file is refused"); std::vector<B> b(1, B(1, 'z')); extractShardBlobs(f, e, b); SX_CHECK(b.size() == n, "one blob per slot");
    for (size_t s = 0; s < n; s++) { uint64_t o = getLE<uint64_t>(f.data() + data + 16 * s), l = getLE<uint64_t>(f.data() + data + 16 * s + 8); if (sx_fork(sx_and(o == ~0ull, l == ~0ull))) { SX_CHECK(e[s].empty() && b[s].empty(), "all-ones means absent"); continue; }
        SX_CHECK(!e[s].empty() && b[s].size() == l, "everything else is present"); o = sx_concretize(o); int eq = 1; for (size_t i = 0; i < b[s].size(); i++) eq = sx_and(eq, b[s][i] == f[o + i]); SX_CHECK(eq, "a blob is the range of the file its entry describes"); }
    sx_cover("accepted"); }
static void dataset(int op, int ci, size_t data, size_t missing) {
    typedef uint8_t T; Cfg c = cfg(ci); T fill = 7; auto ds = create<T>(SHARD, c, 7); Model<T> m(c, SHARD, fill); V per = m.cps(), sg = m.shardGrid(), z(c.shape.size(), 0); size_t n = prod(per), il = 16 * n + 4, N = prod(c.chunk), nd = c.shape.size();
    V sid; for (auto g : sg) sid.push_back(sx_choose("shard", g)); B f(data + il); sx_bytes(f.data(), data + 16 * n, "shard");
    if (op >= 3) { size_t D = data < missing ? 0 : data - missing; for (size_t k = 0; k < n; k++) { auto put = [&](uint64_t o, uint64_t l) { for (int i = 0; i < 8; i++) { f[data + 16 * k + i] = (char)(o >> (8 * i)); f[data + 16 * k + 8 + i] = (char)(l >> (8 * i)); } }; // the cases are complete; concrete entries where they are ranges
        switch (sx_choose("entry", D ? 3 : 2)) { case 0: put(~0ull, ~0ull); break; case 2: { uint64_t o = sx_choose("entry offset", D); put(o, 1 + sx_choose("entry length", D - o)); break; } default: { uint64_t o = getLE<uint64_t>(f.data() + data + 16 * k), l = getLE<uint64_t>(f.data() + data + 16 * k + 8); sx_assume(!sx_or(sx_and(o == ~0ull, l == ~0ull), sx_and(l != 0, sx_and(o <= D, l <= D - o)))); } } } }
    uint32_t d = (uint32_t)sx_sym("difference", 32, 0, ~0ull), cc = refCrc((const uint8_t *)f.data() + data, 16 * n) ^ d; for (int k = 0; k < 4; k++) f[data + 16 * n + k] = (char)(cc >> (8 * k));
    if (missing) f.erase(f.begin(), f.begin() + missing); sxfs::put(chunkFile(SHARD, sid), f.data(), f.size()); bool shortF = f.size() < il; size_t D = shortF ? 0 : f.size() - il;
    V id; for (size_t k = 0; k < nd; k++) { size_t cnt = m.grid[k] - sid[k] * per[k]; id.push_back(sid[k] * per[k] + sx_choose("chunk", cnt < per[k] ? cnt : per[k])); } V in = id; for (size_t k = 0; k < nd; k++) in[k] %= per[k];
    // what the file says, slot by slot
    auto ent = [&](size_t s, uint64_t &o, uint64_t &l) { o = getLE<uint64_t>(f.data() + D + 16 * s); l = getLE<uint64_t>(f.data() + D + 16 * s + 8); };
    auto absent = [&](size_t s) { uint64_t o, l; ent(s, o, l); return sx_and(o == ~0ull, l == ~0ull); }; auto intact = [&](size_t s) { uint64_t o, l; ent(s, o, l); return sx_and(sx_and(o <= D, l <= D - o), l == N * sizeof(T)); }; auto range = [&](size_t s) { uint64_t o, l; ent(s, o, l); return sx_or(absent(s), sx_and(sx_and(o <= D, l <= D - o), l != 0)); };
    int index = !shortF; if (!shortF) { index = d == 0; for (size_t s = 0; s < n; s++) index = sx_and(index, range(s)); }
    V off, ext(nd, 1); for (size_t k = 0; k < nd; k++) off.push_back(id[k] * c.chunk[k]); V cl = clip(c, id); size_t slot = lin(in, per); bool threw = false; auto s0 = sxfs::snap();
    auto check = [&](const std::vector<T> &b, const V &shape, const V &cut) { // b holds the chunk `id` in layout `shape`
        SX_CHECK(sx_and(d == 0, sx_or(absent(slot), intact(slot))), "data is returned only if the index and the slot are intact"); if (sx_fork(absent(slot))) { int ok = 1; each(cut, [&](const V &p) { ok = sx_and(ok, b[lin(p, shape)] == fill); }); SX_CHECK(ok, "an absent inner chunk reads as the fill value"); return; }
        uint64_t o, l; ent(slot, o, l); o = sx_concretize(o); int ok = 1; each(cut, [&](const V &p) { ok = sx_and(ok, bits(b[lin(p, shape)]) == (uint8_t)f[o + lin(p, c.chunk)]); }); SX_CHECK(ok, "a returned inner chunk is the range of the file its entry describes"); };
    if (op == 0) { std::vector<T> b; try { b = readAll<T>(*ds, off, cl); } catch (std::exception &) { threw = true; } if (threw) SX_CHECK(shortF || sx_or(!index, !sx_or(absent(slot), intact(slot))), "an intact shard is readable"); else { check(b, cl, cl); sx_cover("read"); } SX_CHECK(sxfs::same(s0), "reading does not change the store"); }
    else if (op == 1) { std::vector<T> b(N + 1, T(3)); sx_poison(b.data(), N); try { ds->readChunk(id, b.data()); } catch (std::exception &) { threw = true; } SX_CHECK(b[N] == 3, "nothing is written past the chunk"); if (threw) SX_CHECK(shortF || sx_or(!index, !intact(slot)), "an intact inner chunk is readable"); else { SX_CHECK(!absent(slot), "an absent inner chunk is not returned as a chunk"); check(b, c.chunk, c.chunk); sx_cover("read"); } }
    else if (op == 2) { bool e = false; try { e = ds->chunkExists(id); } catch (std::exception &) { threw = true; } if (threw) SX_CHECK(shortF || !index, "the existence query works on an intact shard"); else { SX_CHECK(!shortF && sx_and(d == 0, (int)e == !absent(slot)), "existence is what the index says"); sx_cover("read"); } }
    else { // 3 write one element, 4 write a whole inner chunk, 5 remove an inner chunk: every other slot keeps its bytes or the call is refused and changes nothing
        T v = symT<T>("new"); try { if (op == 3) { z5::multiarray::ConstArrayView<T> w(&v, ext, V(nd, 1)); z5::multiarray::writeSubarray<T>(*ds, w, off.begin()); } else if (op == 4) { std::vector<T> w(N, v); ds->writeChunk(id, w.data()); } else ds->removeChunk(id); } catch (std::exception &) { threw = true; }
        if (threw) { SX_CHECK(shortF || sx_or(!index, op == 3 ? !sx_or(absent(slot), intact(slot)) : 0), "writing into an intact shard succeeds"); SX_CHECK(sxfs::same(s0), "a refused write leaves the corrupt shard as it was"); return; }
        SX_CHECK(!shortF && d == 0, "a write into a corrupt shard is refused"); sxfs::Node *q = sxfs::get(chunkFile(SHARD, sid));
        for (size_t s = 0; s < n; s++) { if (s == slot) continue; bool there = false; uint64_t o2 = 0, l2 = 0; size_t D2 = 0; if (q) { SX_CHECK(q->data.size() >= il, "the rewritten shard is complete"); D2 = q->data.size() - il; o2 = getLE<uint64_t>(q->data.data() + D2 + 16 * s); l2 = getLE<uint64_t>(q->data.data() + D2 + 16 * s + 8); there = !(o2 == ~0ull && l2 == ~0ull); }
            if (sx_fork(absent(s))) { SX_CHECK(!there, "an absent neighbour stays absent"); continue; } uint64_t o, l; ent(s, o, l); o = sx_concretize(o); l = sx_concretize(l); SX_CHECK(there && l2 == l && o2 <= D2 && l2 <= D2 - o2, "a neighbour keeps its length"); int ok = 1; for (size_t i = 0; i < l; i++) ok = sx_and(ok, q->data[o2 + i] == f[o + i]); SX_CHECK(ok, "a neighbour keeps its bytes"); }
        sx_cover("written"); }
}
static void numbering(int nd, int ax) {
    static const uint64_t N[] = {1, 2, 3, 5, 64, 1000, (1ull << 20) + 1, 1ull << 31, (1ull << 32) + 3}; V cps(nd, 2), inner(nd), shard(nd), id(nd);
    for (int d = 0; d < nd; d++) { cps[d] = d == ax ? N[sx_choose("per shard", nd == 1 ? 9 : 7)] : (d & 1) ? 3 : 2; inner[d] = d == ax ? 3 : 5; shard[d] = inner[d] * cps[d]; id[d] = d == ax ? sx_u64("index") : sx_choose("other", 7); }
    V g = chunksPerShard(shard, inner); SX_CHECK(g.size() == (size_t)nd, "dimensionality"); uint64_t n = 1; for (int d = 0; d < nd; d++) { SX_CHECK(g[d] == cps[d], "inner chunks per shard"); n *= cps[d]; } SX_CHECK(numShardSlots(g) == n, "slots per shard");
    V s = shardId(id, g); uint64_t slot = shardSlot(id, g); SX_CHECK(s.size() == (size_t)nd && slot < n, "the slot is below the number of slots"); uint64_t r = slot; for (int d = nd; d-- > 0;) { uint64_t p = r % cps[d]; r /= cps[d]; SX_CHECK(sx_and(s[d] <= id[d] / cps[d], s[d] * cps[d] + p == id[d]), "shard and row-major slot give back the inner chunk"); } sx_cover("numbering"); }
extern "C" void sx_main() { switch (sx_param(0)) { case 0: roundtrip(sx_param(1), sx_param(2)); break; case 1: arbitrary(sx_param(1), sx_param(2), sx_param(3), sx_param(4)); break; case 2: dataset(sx_param(1), sx_param(2), sx_param(3), sx_param(4)); break; case 3: numbering(sx_param(1), sx_param(2)); break; } }
