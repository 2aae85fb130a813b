// Chunk keys: the path of a chunk against the format's specification, for symbolic indices, and the same path for every operation.
// params: 0 mode, 1 key variant (0 zarr v2 '.', 1 n5, 2 v3 default '/', 3 v3 default '.', 4 zarr v2 '/', 5 v3 "v2" '.', 6 v3 "v2" '/', 7 v3 sharded), 2 dimensions, 3 (mode 0) axis with an unrestricted index
// mode 0: the key of one chunk; 1: keys of two chunks; 2: operations on two chunks of a dataset
#include "io.h"
using namespace io; namespace fh = z5::filesystem::handle;
static bool z, pre; static int zf; static std::string sep, enc;
static void variant(int k) { z = k != 1; zf = k == 2 || k == 3 || k >= 5 ? 3 : 2; sep = k == 0 || k == 3 || k == 5 ? "." : "/"; enc = k == 5 || k == 6 ? "v2" : "default"; pre = zf == 3 && enc == "default"; }
static const char *const MARK3 = R"({"zarr_format":3,"node_type":"array"})";
static void marker() { if (!z) sxfs::put(std::string(DS) + "/attributes.json", std::string("{\"dimensions\":[1],\"blockSize\":[1],\"dataType\":\"uint8\",\"compression\":{\"type\":\"raw\"}}")); else if (zf == 3) sxfs::put(std::string(DS) + "/zarr.json", std::string(MARK3)); else sxfs::put(std::string(DS) + "/.zarray", std::string("{}")); }
static std::string pathOf(const fh::Dataset &d, const V &id) { V one(id.size(), 1), sh(id.size(), ~0ull); fh::Chunk c(d, id, one, sh); return c.path().string(); }
static std::string expected(const V &id, int k) { std::string s; std::string j = k == 1 ? "/" : sep; if (k == 1) for (std::size_t d = id.size(); d-- > 0;) s += (s.empty() ? "" : j) + num(id[d]); else for (std::size_t d = 0; d < id.size(); d++) s += (d == 0 ? (pre ? "c" + j : "") : j) + num(id[d]); return std::string(DS) + "/" + s; }
template <class T> static std::unique_ptr<z5::Dataset> make(int k, const V &sh, const V &ch, const V &shard) { fh::File f{std::filesystem::path(ROOT)}; z5::createFile(f, z, zf); return z5::createDataset(f, "ds", std::string(dtypeName<T>()), sh, ch, std::string("raw"), z5::types::CompressionOptions(), 0., k == 1 ? "/" : sep, zf, enc, shard); }
// an index and its digits: a concrete beginning (powers of two and ten, where widths and digit counts change) and up to three free digits
static uint64_t wide(std::string &text, bool small) {
    static const uint64_t B[] = {0, 1, 9, 10, 65, 99, 100, 16777, 2147483, 2147484, 4294967, 999999, 9999999, 1000000, 999999999, 9007199254740ull, 99999999999ull, 9223372036854775ull, 9223372036854776ull, 18446744073709550ull}; static const int S[] = {0, 1, 3, 5, 8, 10, 19}; uint64_t pre = small ? 0 : B[sx_param(2) > 1 ? S[sx_choose("beginning", 7)] : sx_choose("beginning", 20)]; int n = pre ? 3 : 1 + sx_choose("digits", small ? (sx_param(2) > 2 ? 1 : 2) : 3); text = pre ? num(pre) : ""; uint64_t v = pre;
    for (int i = 0; i < n; i++) { uint64_t d = sx_sym("digit", 64, !pre && !i && n > 1 ? 1 : 0, 9); v = v * 10 + d; text += (char)('0' + d); } return v; }
extern "C" void sx_main() {
    int mode = sx_param(0), k = sx_param(1), nd = sx_param(2); variant(k); std::string base = std::string(DS) + "/";
    if (mode == 0) {
        int free = sx_param(3); V id; std::vector<std::string> t(nd); for (int d = 0; d < nd; d++) id.push_back(wide(t[d], d != free));
        fh::File f{std::filesystem::path(ROOT)}; sxfs::mkdirs(DS); marker(); fh::Dataset d(f, "ds", k == 1 ? "/" : sep, zf, enc); std::string s = pathOf(d, id); SX_CHECK(s.compare(0, base.size(), base) == 0, "the chunk lies below its dataset"); std::size_t p = base.size(); std::string j = k == 1 ? "/" : sep;
        if (pre) { SX_CHECK(s.compare(p, 1 + j.size(), "c" + j) == 0, "keys of the default v3 encoding start with c"); p += 1 + j.size(); }
        for (int a = 0; a < nd; a++) { if (a) { SX_CHECK(s.compare(p, j.size(), j) == 0, "axes are joined by the separator"); p += j.size(); } const std::string &e = t[k == 1 ? nd - 1 - a : a]; int ok = s.size() >= p + e.size(); for (std::size_t i = 0; i < e.size() && p + i < s.size(); i++) ok = sx_and(ok, s[p + i] == e[i]); SX_CHECK(ok, "the key holds the decimal chunk index, axis by axis in the format's order"); p += e.size(); }
        SX_CHECK(p == s.size(), "the key holds nothing else"); sx_cover("key"); return; }
    if (mode == 1) { // two chunks
        V a, b; int eq = 1; for (int d = 0; d < nd; d++) { a.push_back(sx_sym("index", 64, 0, nd > 2 ? 11 : 120)); b.push_back(sx_sym("index", 64, 0, nd > 2 ? 11 : 120)); eq = sx_and(eq, a[d] == b[d]); }
        fh::File f{std::filesystem::path(ROOT)}; sxfs::mkdirs(DS); marker(); fh::Dataset d(f, "ds", k == 1 ? "/" : sep, zf, enc); std::string s = pathOf(d, a), t = pathOf(d, b); int same = s.size() == t.size(); for (std::size_t i = 0; i < s.size() && i < t.size(); i++) same = sx_and(same, s[i] == t[i]); SX_CHECK(same == eq, "two chunks share a key exactly if they are the same chunk"); sx_cover("compared"); return; }
    // operations on two chunks, of a grid with one-, two- and three-digit indices
    V sh, ch, shard, one; for (int d = 0; d < nd; d++) { sh.push_back(d == 0 ? 124 : nd > 2 && d == 2 ? 2 : 13); ch.push_back(1); shard.push_back(d == 0 ? 2 : 1); one.push_back(1); } if (k == 7) sh[0] = 248; auto a = make<uint8_t>(k, sh, ch, k == 7 ? shard : V());
    static const std::size_t I0[] = {1, 11, 111, 0, 12, 123}, I1[] = {1, 11, 12}; auto pick = [&] { V v; for (int d = 0; d < nd; d++) v.push_back(d == 0 ? I0[sx_choose("index", nd > 1 ? 3 : 6)] : d == 1 ? I1[sx_choose("index", 3)] : sx_choose("index", 2)); return v; };
    V x = pick(), y = pick(); if (k == 7) { x[0] *= 2; y[0] = y[0] * 2 + 1; } bool same = x == y; V sx = x, sy = y; if (k == 7) { sx[0] /= 2; sy[0] /= 2; } bool sameFile = sx == sy; auto b = z5::openDataset(fh::File(std::filesystem::path(ROOT)), "ds"); std::size_t n0 = sxfs::filesUnder(DS); std::string px = expected(sx, k), py = expected(sy, k); V o = x;
    uint8_t v = symT<uint8_t>("value"), w = symT<uint8_t>("value"), r = 0; sx_assume(sx_and(v != 0, w != 0)); a->writeChunk(x, &v); SX_CHECK(sxfs::filesUnder(DS) == n0 + 1 && sxfs::has(px), "writing a chunk stores one object under its key"); std::filesystem::path q; a->chunkPath(x, q);
    SX_CHECK(b->chunkExists(x) && b->chunkExists(y) == same, "existence is tested under the same key"); b->readChunk(x, &r); SX_CHECK(r == v, "reading uses the same key"); auto ra = readAll<uint8_t>(*b, y, one); SX_CHECK(ra[0] == (same ? v : 0), "regions read the chunk stored under its key");
    std::vector<uint8_t> d1(1, w); z5::multiarray::writeSubarray<uint8_t>(*b, z5::multiarray::ConstArrayView<uint8_t>(z5::multiarray::makeView((const uint8_t *)d1.data(), one)), y.begin()); SX_CHECK(sxfs::filesUnder(DS) == n0 + (sameFile ? 1 : 2) && sxfs::has(px) && sxfs::has(py), "regions store chunks under their keys"); a->readChunk(y, &r); SX_CHECK(r == w, "chunks written through a region are read back"); a->readChunk(x, &r); SX_CHECK(r == (same ? w : v), "the other chunk keeps its content");
    SX_CHECK(q.string() == px || k == 7, "the path reported for a chunk is the one used");
    a->removeChunk(x); SX_CHECK(!b->chunkExists(x) && b->chunkExists(y) == !same, "removing deletes the chunk under its key and no other"); SX_CHECK(sxfs::has(py) == !same && (sameFile || !sxfs::has(px)), "the other object stays"); if (!same) { b->readChunk(y, &r); SX_CHECK(r == w, "the other chunk is intact"); } sx_cover("used"); }
