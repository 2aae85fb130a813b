// Shared parts of the region/chunk I/O harnesses: dataset set-up through the public API and a reference model
// of what the formats' specifications say is stored (chunk keys, raw encodings, shard layout).
#pragma once
#include "sx.h"
#ifdef IO_CODEC
#include "codecs.h"   // chunks are compressed; the codec library is the model in codecs.h
#endif
#include "z5/factory.hxx"
#include "z5/filesystem/factory.hxx"
#include "z5/multiarray/array_access.hxx"
#include "z5/multiarray/broadcast.hxx"
#include "sxfs.h"
#include <memory>
#include <complex>
namespace io {
#ifdef IO_CODEC
inline std::vector<char> packed(const std::vector<char> &raw) { return codec::pack(IO_CODEC, raw); }
inline bool unpacked(const char *p, std::size_t n, std::vector<char> &raw) { return codec::unpack(IO_CODEC, p, n, raw); }
inline const char *codecName() { static const char *const n[] = {"raw", "blosc", "zlib", "zlib", "bzip2", "lz4", "xz", "zstd"}; return n[IO_CODEC]; }
inline z5::types::CompressionOptions codecOpts() { z5::types::CompressionOptions o; o["level"] = 5; if (IO_CODEC == codec::BLOSC) { o["codec"] = std::string("lz4"); o["shuffle"] = 1; o["blocksize"] = 0; } if (IO_CODEC == codec::ZLIB || IO_CODEC == codec::GZIP) o["useZlib"] = IO_CODEC == codec::ZLIB; return o; }
#else
inline std::vector<char> packed(const std::vector<char> &raw) { return raw; }
inline bool unpacked(const char *p, std::size_t n, std::vector<char> &raw) { raw.assign(p, p + n); return true; }
inline const char *codecName() { return "raw"; }
inline z5::types::CompressionOptions codecOpts() { return z5::types::CompressionOptions(); }
#endif
typedef std::vector<std::size_t> V;
enum Fmt { ZARR2 = 0, N5 = 1, ZARR3 = 2, SHARD = 3, ZARR2SLASH = 4, ZARR3V2 = 5, SHARD_REV = 6 };
inline bool sharded(int f) { return f == SHARD || f == SHARD_REV; }
inline bool zarr(int f) { return f != N5; }
struct Cfg { V shape, chunk, shard; };
inline Cfg cfg(int i) {
    switch (i) {
    case 0: return {{5}, {2}, {4}};
    case 1: return {{3, 3}, {2, 2}, {4, 2}};
    case 2: return {{2, 3, 2}, {1, 2, 2}, {2, 2, 2}};
    case 3: return {{4}, {4}, {4}};
    case 4: return {{4, 2}, {2, 1}, {2, 2}};
    case 5: return {{3}, {5}, {5}};          // one chunk larger than the dataset
    case 6: return {{7}, {3}, {6}};
    case 7: return {{2, 5}, {2, 2}, {2, 4}};
    case 8: return {{3, 4}, {3, 3}, {3, 6}};
    case 9: return {{2, 2, 3}, {2, 2, 2}, {2, 2, 4}};
    case 10: return {{2, 2, 2, 2}, {1, 2, 1, 2}, {2, 2, 2, 2}};
    case 11: return {{4}, {2}, {4}};
    case 12: return {{3, 2}, {1, 2}, {2, 2}};
    case 13: return {{3}, {2}, {4}};
    case 14: return {{2}, {2}, {2}};
    case 15: return {{2, 3}, {2, 2}, {2, 4}};
    case 16: return {{6, 2}, {2, 2}, {4, 2}};
    default: return {{1, 1, 1, 1, 1}, {1, 1, 1, 1, 1}, {1, 1, 1, 1, 1}}; }
}
inline std::size_t prod(const V &v) { std::size_t p = 1; for (auto x : v) p *= x; return p; }
template <class T> const char *dtypeName();
template <> inline const char *dtypeName<int8_t>() { return "int8"; } template <> inline const char *dtypeName<uint8_t>() { return "uint8"; }
template <> inline const char *dtypeName<int16_t>() { return "int16"; } template <> inline const char *dtypeName<uint16_t>() { return "uint16"; }
template <> inline const char *dtypeName<int32_t>() { return "int32"; } template <> inline const char *dtypeName<uint32_t>() { return "uint32"; }
template <> inline const char *dtypeName<int64_t>() { return "int64"; } template <> inline const char *dtypeName<uint64_t>() { return "uint64"; }
template <> inline const char *dtypeName<std::complex<float>>() { return "<c8"; }
template <> inline const char *dtypeName<float>() { return "float32"; } template <> inline const char *dtypeName<double>() { return "float64"; }
template <class T> T symT(const char *n) { uint64_t b = sx_sym(n, 8 * sizeof(T), 0, ~0ull); T v; memcpy(&v, &b, sizeof(T)); return v; }
template <class T> uint64_t bits(T v) { uint64_t b = 0; memcpy(&b, &v, sizeof(T)); return b; }
// value equality without branching: bit equality, and for floats equal values or two NaNs
template <class T> int same(T a, T b) { if constexpr (std::is_floating_point_v<T>) return sx_or(sx_or(bits(a) == bits(b), a == b), sx_and(a != a, b != b)); else if constexpr (!std::is_integral_v<T>) { using F = typename T::value_type; return sx_and(same(a.real(), b.real()), same(a.imag(), b.imag())); } else return bits(a) == bits(b); }

// iterate over all coordinates of a box
template <class F> void each(const V &shape, F f) { V c(shape.size(), 0); if (prod(shape) == 0) return; for (;;) { f((const V &)c); int d = (int)shape.size() - 1; for (; d >= 0; --d) { if (++c[d] < shape[d]) break; c[d] = 0; } if (d < 0) return; } }
inline std::size_t lin(const V &c, const V &shape) { std::size_t r = 0; for (std::size_t d = 0; d < c.size(); d++) r = r * shape[d] + c[d]; return r; }
inline V gridOf(const Cfg &c) { V g; for (std::size_t d = 0; d < c.shape.size(); d++) g.push_back((c.shape[d] + c.chunk[d] - 1) / c.chunk[d]); return g; }
inline V clip(const Cfg &c, const V &id) { V r; for (std::size_t d = 0; d < id.size(); d++) { std::size_t b = id[d] * c.chunk[d]; r.push_back(c.shape[d] - b < c.chunk[d] ? c.shape[d] - b : c.chunk[d]); } return r; }
inline std::string num(std::size_t v) { std::string s; do { s.insert(s.begin(), char('0' + v % 10)); v /= 10; } while (v); return s; }
inline std::string key(int fmt, const V &id) {
    std::string s; if (fmt == N5) { for (std::size_t d = id.size(); d-- > 0;) { if (!s.empty()) s += '/'; s += num(id[d]); } return s; }
    if (fmt == ZARR3 || sharded(fmt)) { s = "c"; for (auto x : id) s += "/" + num(x); return s; }
    for (std::size_t d = 0; d < id.size(); d++) { if (d) s += fmt == ZARR2SLASH ? '/' : '.'; s += num(id[d]); } return s; }
static const char *const ROOT = "/store.x"; static const char *const DS = "/store.x/ds";
inline std::string chunkFile(int fmt, const V &id) { return std::string(DS) + "/" + key(fmt, id); }

inline uint32_t refCrc(const uint8_t *p, std::size_t n) { uint32_t c = 0xffffffffu; for (std::size_t i = 0; i < n; i++) { c ^= p[i]; for (int k = 0; k < 8; k++) c = (c >> 1) ^ ((c & 1) ? 0x82f63b78u : 0); } return ~c; }
template <class T> void putLE(std::vector<char> &o, T v) { uint64_t b = bits(v); for (std::size_t k = 0; k < sizeof(T); k++) o.push_back((char)(b >> (8 * k))); }
template <class T> void putBE(std::vector<char> &o, T v) { uint64_t b = bits(v); for (std::size_t k = sizeof(T); k-- > 0;) o.push_back((char)(b >> (8 * k))); }
template <class T> T getLE(const char *p) { uint64_t b = 0; for (std::size_t k = 0; k < sizeof(T); k++) b |= (uint64_t)(uint8_t)p[k] << (8 * k); T v; memcpy(&v, &b, sizeof(T)); return v; }
template <class T> T getBE(const char *p) { uint64_t b = 0; for (std::size_t k = 0; k < sizeof(T); k++) b = (b << 8) | (uint8_t)p[k]; T v; memcpy(&v, &b, sizeof(T)); return v; }

// the model: value of every element, which chunks are stored, and contents of stored chunks incl. padding
template <class T> struct Model {
    Cfg c; int fmt; T fill; V grid; std::vector<std::vector<T>> chunk; std::vector<char> present; // per chunk (row-major), padded for zarr, clipped for n5
    std::vector<T> val;                                                  // per element
    std::size_t odd = ~0ull; std::vector<char> oddBytes;                 // a chunk whose stored bytes (after an n5 header) are these instead
    Model(const Cfg &cc, int f, T fl) : c(cc), fmt(f), fill(fl), grid(gridOf(cc)), chunk(prod(grid)), present(prod(grid), 0), val(prod(cc.shape), fl) {}
    V stored(const V &id) const { return zarr(fmt) ? c.chunk : clip(c, id); }
    V shardGrid() const { V g; for (std::size_t d = 0; d < c.shape.size(); d++) g.push_back((c.shape[d] + c.shard[d] - 1) / c.shard[d]); return g; }
    V cps() const { V g; for (std::size_t d = 0; d < c.shape.size(); d++) g.push_back(c.shard[d] / c.chunk[d]); return g; }
    // encode one chunk the way the specification says (raw codec)
    std::vector<char> encode(const V &id) const {
        const auto &v = chunk[lin(id, grid)]; std::vector<char> o;
        if (zarr(fmt)) { if (lin(id, grid) == odd) return oddBytes; for (auto x : v) putLE<T>(o, x); return packed(o); }
        V s = clip(c, id); putBE<uint16_t>(o, 0); putBE<uint16_t>(o, (uint16_t)s.size()); for (std::size_t d = s.size(); d-- > 0;) putBE<uint32_t>(o, (uint32_t)s[d]); std::vector<char> e; for (auto x : v) putBE<T>(e, x); e = lin(id, grid) == odd ? oddBytes : packed(e); o.insert(o.end(), e.begin(), e.end()); return o; }
    bool inGrid(const V &id) const { for (std::size_t d = 0; d < id.size(); d++) if (id[d] >= grid[d]) return false; return true; }
    std::vector<char> encodeShard(const V &sid, bool &any) const {
        V per = cps(); std::vector<char> o; std::vector<uint64_t> idx(2 * prod(per), ~0ull); any = false;
        auto one = [&](const V &in) { V id = sid; for (std::size_t d = 0; d < id.size(); d++) id[d] = sid[d] * per[d] + in[d]; if (!inGrid(id) || !present[lin(id, grid)]) return; any = true; auto b = encode(id); std::size_t s = lin(in, per); idx[2 * s] = o.size(); idx[2 * s + 1] = b.size(); o.insert(o.end(), b.begin(), b.end()); };
        if (fmt == SHARD_REV) { std::vector<V> all; each(per, [&](const V &in) { all.push_back(in); }); o.push_back(0x55); for (std::size_t k = all.size(); k-- > 0;) { one(all[k]); o.push_back((char)k); } } else each(per, one);
        std::vector<char> ix; for (auto x : idx) putLE<uint64_t>(ix, x); uint32_t crc = refCrc((const uint8_t *)ix.data(), ix.size()); putLE<uint32_t>(ix, crc); o.insert(o.end(), ix.begin(), ix.end()); return o; }
    void install() { // write the model's chunks into the store
        if (sharded(fmt)) each(shardGrid(), [&](const V &s) { bool any; auto b = encodeShard(s, any); if (any) sxfs::put(chunkFile(fmt, s), b.data(), b.size()); });
        else each(grid, [&](const V &id) { if (present[lin(id, grid)]) { auto b = encode(id); sxfs::put(chunkFile(fmt, id), b.data(), b.size()); } }); }
    // arbitrary stored state. padFill: padding of edge chunks holds the fill value; nonFill: no stored element equals the fill value
    void arbitrary(bool padFill, bool nonFill, unsigned presentMask = 0, bool fixedPresence = false, bool allFill = false) {
        each(grid, [&](const V &id) {
            std::size_t k = lin(id, grid); present[k] = fixedPresence ? (presentMask >> (k % 32)) & 1 : sx_fork(sx_bool("stored")); if (!present[k]) return;
            V s = stored(id), cl = clip(c, id); chunk[k].resize(prod(s)); int nf = 0;
            each(s, [&](const V &p) { bool pad = false; for (std::size_t d = 0; d < p.size(); d++) pad |= p[d] >= cl[d]; T v = (pad && padFill) ? fill : symT<T>("old"); if (!pad && nonFill) sx_assume(!(v == fill)); if (!pad) nf = sx_or(nf, !(v == fill)); chunk[k][lin(p, s)] = v; if (!pad) { V g = p; for (std::size_t d = 0; d < g.size(); d++) g[d] += id[d] * c.chunk[d]; val[lin(g, c.shape)] = v; } });
            if (!allFill) sx_assume(nf); }); }
    // read one stored chunk back from the store according to the specification. returns presence
    bool decode(const V &id, std::vector<T> &out) const {
        V s = stored(id); out.assign(prod(s), fill);
        if (!sharded(fmt)) {
            sxfs::Node *n = sxfs::get(chunkFile(fmt, id)); if (!n) return false;
            std::size_t off = 0; if (fmt == N5) { off = 4 + 4 * s.size(); SX_CHECK(n->data.size() >= off, "stored n5 chunk has a complete header"); SX_CHECK(getBE<uint16_t>(n->data.data()) == 0, "n5 header mode is 0"); SX_CHECK(getBE<uint16_t>(n->data.data() + 2) == s.size(), "n5 header dimension count"); for (std::size_t d = 0; d < s.size(); d++) SX_CHECK(getBE<uint32_t>(n->data.data() + 4 + 4 * d) == s[s.size() - 1 - d], "n5 header extents are the chunk's extents, axis order reversed"); }
            std::vector<char> raw; SX_CHECK(unpacked(n->data.data() + off, n->data.size() - off, raw), "stored chunk holds exactly one encoding by the configured codec"); SX_CHECK(raw.size() == out.size() * sizeof(T), "stored chunk has exactly the bytes of its elements");
            for (std::size_t i = 0; i < out.size(); i++) out[i] = zarr(fmt) ? getLE<T>(&raw[i * sizeof(T)]) : getBE<T>(&raw[i * sizeof(T)]);
            return true; }
        V per = cps(), sid = id, in = id; for (std::size_t d = 0; d < id.size(); d++) { sid[d] = id[d] / per[d]; in[d] = id[d] % per[d]; }
        sxfs::Node *n = sxfs::get(chunkFile(fmt, sid)); if (!n) return false;
        std::size_t ns = prod(per), il = 16 * ns + 4; SX_CHECK(n->data.size() >= il, "shard file holds a complete index"); const char *ix = n->data.data() + (n->data.size() - il);
        SX_CHECK(getLE<uint32_t>(ix + 16 * ns) == refCrc((const uint8_t *)ix, 16 * ns), "shard index checksum is the CRC-32C of the index");
        std::size_t k = lin(in, per); uint64_t o = getLE<uint64_t>(ix + 16 * k), l = getLE<uint64_t>(ix + 16 * k + 8);
        if (o == ~0ull && l == ~0ull) return false;
        SX_CHECK(o <= n->data.size() && l <= n->data.size() - o, "stored inner chunk lies in the shard"); std::vector<char> raw; SX_CHECK(unpacked(n->data.data() + o, l, raw), "stored inner chunk is exactly one encoding by the configured codec"); SX_CHECK(raw.size() == out.size() * sizeof(T), "stored inner chunk has the bytes of its elements");
        for (std::size_t i = 0; i < out.size(); i++) out[i] = getLE<T>(&raw[i * sizeof(T)]);
        return true; }
};
// creation through the library's public interface
template <class T> std::unique_ptr<z5::Dataset> create(int fmt, const Cfg &c, double fill) {
    z5::filesystem::handle::File f{std::filesystem::path(ROOT)}; int zf = (fmt == ZARR3 || sharded(fmt) || fmt == ZARR3V2) ? 3 : 2;
    z5::createFile(f, zarr(fmt), zf);
    if constexpr (std::is_same_v<T, std::complex<float>>) { // these can only be opened: the document is written here
        auto a = [](const V &v) { std::string r = "["; for (auto x : v) r += (r.size() > 1 ? "," : "") + num(x); return r + "]"; };
        sxfs::mkdirs(DS); sxfs::put(std::string(DS) + "/.zarray", "{\"zarr_format\":2,\"shape\":" + a(c.shape) + ",\"chunks\":" + a(c.chunk) + ",\"dtype\":\"<c8\",\"fill_value\":" + num((std::size_t)fill) + ",\"order\":\"C\",\"filters\":null,\"compressor\":null}");
        return z5::openDataset(f, "ds"); } else {
    std::string delim = (fmt == ZARR2 || fmt == ZARR3V2) ? "." : "/";
    return z5::createDataset(f, "ds", std::string(dtypeName<T>()), c.shape, c.chunk, std::string(codecName()), codecOpts(), fmt == N5 ? 0. : fill, delim, zf, std::string(fmt == ZARR3V2 ? "v2" : "default"), sharded(fmt) ? c.shard : V()); } }
// a region chosen symbolically, concrete on each path
inline void region(const Cfg &c, V &off, V &ext) { off.clear(); ext.clear(); for (std::size_t d = 0; d < c.shape.size(); d++) { std::size_t o = sx_choose("offset", c.shape[d]); off.push_back(o); ext.push_back(1 + sx_choose("extent", c.shape[d] - o)); } }
inline bool touches(const Cfg &c, const V &id, const V &off, const V &ext) { for (std::size_t d = 0; d < id.size(); d++) { std::size_t b = id[d] * c.chunk[d]; if (off[d] >= b + c.chunk[d] || off[d] + ext[d] <= b) return false; } return true; }
template <class T> std::vector<T> readAll(const z5::Dataset &ds, const V &off, const V &ext, int threads = 1) {
    std::vector<T> b(prod(ext)); sx_poison(b.data(), b.size() * sizeof(T)); z5::multiarray::ArrayView<T> v = z5::multiarray::makeView(b.data(), ext); z5::multiarray::readSubarray<T>(ds, v, off.begin(), threads); return b; }
template <class T> int checkRegion(const Model<T> &m, const std::vector<T> &b, const V &off, const V &ext) { int ok = 1; each(ext, [&](const V &p) { V g = p; for (std::size_t d = 0; d < g.size(); d++) g[d] += off[d]; ok = sx_and(ok, same(b[lin(p, ext)], m.val[lin(g, m.c.shape)])); }); return ok; }
}
