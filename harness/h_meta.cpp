// Dataset metadata: what is accepted, what it is taken to mean, what is stored.
// params: 0 variant
//   0 extents: 1 format, 2 axes, 3 symbolic axis, 4 dtype, 5 through (0 document, 1 creation arguments)
//   1 a document with one field of another kind: 1 format, 2 codec, 3 dtype
//   2 a document with one string changed: 1 format, 2 codec, 3 dtype
//   3 creation arguments: 1 format, 2 what varies (0 names, 1 fill value, 2 format version, separator, key encoding), 3 dtype
//   4 options: 1 format, 2 codec, 3 dtype -> stored document and back
//   5 create and open in a store: 1 format, 2 codec, 3 dtype, 4 fill value
//   6 contradicting stores: 1 case
#include "codecs.h"
#include "io.h"
#include <limits>
#include <cmath>
using namespace io; using nlohmann::json; namespace zt = z5::types;
static const char *const DN[] = {"uint8", "uint16", "int32", "uint64", "float32", "float64", "int8", "int16", "uint32", "int64"};
static const char *const DZ[] = {"|u1", "<u2", "<i4", "<u8", "<f4", "<f8", "|i1", "<i2", "<u4", "<i8"};
static const zt::Datatype DE[] = {zt::uint8, zt::uint16, zt::int32, zt::uint64, zt::float32, zt::float64, zt::int8, zt::int16, zt::uint32, zt::int64};
static const int DS_[] = {1, 2, 4, 8, 4, 8, 1, 2, 4, 8}; static bool isF(int d) { return d == 4 || d == 5; } static bool isS(int d) { return d == 2 || d == 6 || d == 7 || d == 9; }
static const char *const CN[] = {"raw", "blosc", "zlib", "gzip", "bzip2", "lz4", "xz", "zstd"};
static const zt::Compressor CE[] = {zt::raw, zt::blosc, zt::zlib, zt::zlib, zt::bzip2, zt::lz4, zt::xz, zt::zstd};
struct Sem { int dt = 2; V shape{6, 5}, chunk{2, 3}, shard; int kind = 0, level = 4, shuffle = 1, bs = 0, nth = 1; std::string cname = "zstd"; double fill = 0; std::string delim = ".", enc = "default"; bool opts = true, anyFill = false; };
static bool v3(int f) { return f == ZARR3 || f == SHARD || f == ZARR3V2; }
static bool hasCodec(int f, int k) { if (f == N5) return k != codec::ZLIB; if (v3(f)) return k == 0 || k == codec::BLOSC || k == codec::GZIP || k == codec::ZSTD; return k != codec::XZ; }
static Sem sem(int fmt, int kind, int dt) { Sem s; s.kind = kind; s.dt = dt; if (fmt == SHARD) s.shard = {4, 9}; s.delim = fmt == ZARR2 || fmt == ZARR3V2 || fmt == N5 ? "." : "/"; if (fmt == ZARR3V2) s.enc = "v2"; return s; }
static json fillJ(const Sem &s) { if (std::isnan(s.fill)) return "NaN"; if (std::isinf(s.fill)) return s.fill > 0 ? "Infinity" : "-Infinity"; if (isF(s.dt)) return s.fill; if (isS(s.dt)) return (int64_t)s.fill; return (uint64_t)s.fill; }
// the document the format's specification asks for
static json ref(int fmt, const Sem &s) {
    json j, c; V rs(s.shape.rbegin(), s.shape.rend()), rc(s.chunk.rbegin(), s.chunk.rend());
    auto arr = [](const V &v) { json a = json::array(); for (auto x : v) a.push_back((uint64_t)x); return a; };
    if (fmt == N5) {
        c["type"] = s.kind == codec::GZIP ? "gzip" : CN[s.kind]; switch (s.kind) { case codec::BLOSC: c["cname"] = s.cname; c["clevel"] = s.level; c["shuffle"] = s.shuffle; c["blocksize"] = s.bs; c["nthreads"] = s.nth; break; case codec::BZ2: case codec::LZ4: c["blockSize"] = s.level; break; case codec::XZ: c["preset"] = s.level; break; case codec::GZIP: case codec::ZSTD: c["level"] = s.level; break; }
        j["dimensions"] = arr(rs); j["blockSize"] = arr(rc); j["dataType"] = DN[s.dt]; j["compression"] = c; return j; }
    if (!v3(fmt)) {
        if (!s.kind) c = nullptr; else { c["id"] = s.kind == codec::BZ2 ? "bz2" : CN[s.kind]; switch (s.kind) { case codec::BLOSC: c["cname"] = s.cname; c["clevel"] = s.level; c["shuffle"] = s.shuffle; c["blocksize"] = s.bs; break; case codec::LZ4: c["acceleration"] = s.level; break; default: c["level"] = s.level; } }
        j["zarr_format"] = 2; j["shape"] = arr(s.shape); j["chunks"] = arr(s.chunk); j["dtype"] = DZ[s.dt]; j["compressor"] = c; j["fill_value"] = fillJ(s); j["order"] = "C"; j["filters"] = nullptr; j["dimension_separator"] = s.delim; return j; }
    json bytes; bytes["name"] = "bytes"; bytes["configuration"]["endian"] = "little"; json codecs = json::array({bytes});
    if (s.kind) { c["name"] = CN[s.kind]; auto &o = c["configuration"]; switch (s.kind) { case codec::BLOSC: { const char *sh[] = {"noshuffle", "shuffle", "bitshuffle"}; o["cname"] = s.cname; o["clevel"] = s.level; o["shuffle"] = sh[s.shuffle]; o["typesize"] = DS_[s.dt]; o["blocksize"] = s.bs; break; } case codec::ZSTD: o["level"] = s.level; o["checksum"] = false; break; default: o["level"] = s.level; } codecs.push_back(c); }
    j["zarr_format"] = 3; j["node_type"] = "array"; j["shape"] = arr(s.shape); j["data_type"] = DN[s.dt]; j["chunk_grid"]["name"] = "regular"; j["chunk_grid"]["configuration"]["chunk_shape"] = arr(s.shard.empty() ? s.chunk : s.shard); j["chunk_key_encoding"]["name"] = s.enc; j["chunk_key_encoding"]["configuration"]["separator"] = s.delim; j["fill_value"] = fillJ(s); j["attributes"] = json::object();
    if (s.shard.empty()) j["codecs"] = codecs; else { json sh, crc; crc["name"] = "crc32c"; sh["name"] = "sharding_indexed"; sh["configuration"]["chunk_shape"] = arr(s.chunk); sh["configuration"]["codecs"] = codecs; sh["configuration"]["index_codecs"] = json::array({bytes, crc}); sh["configuration"]["index_location"] = "end"; j["codecs"] = json::array({sh}); }
    return j; }
template <class T> static int sameFillT(double a, double b) { if constexpr (std::is_floating_point_v<T>) return same<T>((T)a, (T)b); else return bits<T>((T)a) == bits<T>((T)b); }
static int sameFill(int dt, double a, double b) { switch (dt) { case 0: return sameFillT<uint8_t>(a, b); case 1: return sameFillT<uint16_t>(a, b); case 2: return sameFillT<int32_t>(a, b); case 3: return sameFillT<uint64_t>(a, b); case 4: return sameFillT<float>(a, b); case 5: return sameFillT<double>(a, b); case 6: return sameFillT<int8_t>(a, b); case 7: return sameFillT<int16_t>(a, b); case 8: return sameFillT<uint32_t>(a, b); default: return sameFillT<int64_t>(a, b); } }
static bool sameV(const V &a, const V &b) { if (a.size() != b.size()) return false; int ok = 1; for (size_t i = 0; i < a.size(); i++) ok = sx_and(ok, a[i] == b[i]); return sx_fork(ok); }
template <class T> static int opt(const z5::DatasetMetadata &m, const char *k, const T &v) { auto it = m.compressionOptions.find(k); if (it == m.compressionOptions.end() || !std::holds_alternative<T>(it->second)) return 0; return std::get<T>(it->second) == v; }
static void means(const z5::DatasetMetadata &m, int fmt, const Sem &s, const char *w) {
    SX_CHECK(m.isZarr == zarr(fmt) && (!zarr(fmt) || m.zarrFormat == (v3(fmt) ? 3 : 2)), w); SX_CHECK(m.dtype == DE[s.dt], w); SX_CHECK(sameV(m.shape, s.shape) && sameV(m.chunkShape, s.chunk) && sameV(m.shardShape, s.shard), w);
    SX_CHECK(m.compressor == CE[s.kind], w); if (CE[s.kind] == zt::zlib) SX_CHECK(opt<bool>(m, "useZlib", s.kind == codec::ZLIB), "chunks are encoded in the encoding the stored document names");
    if (zarr(fmt)) SX_CHECK(m.zarrDelimiter == s.delim && (!v3(fmt) || m.chunkKeyEncoding == s.enc), w); if (!s.anyFill) SX_CHECK(sameFill(s.dt, m.fillValue, s.fill), "the fill value survives"); else if (!isF(s.dt)) SX_CHECK(std::isfinite(m.fillValue), "the fill value of an integer type is a number");
    if (s.opts && s.kind) { SX_CHECK(opt<int>(m, "level", s.level), "compression options survive"); if (s.kind == codec::BLOSC) SX_CHECK(opt<int>(m, "shuffle", s.shuffle) && opt<int>(m, "blocksize", s.bs) && opt<std::string>(m, "codec", s.cname) && (fmt != N5 || opt<int>(m, "nthreads", s.nth)), "compression options survive"); } }
static bool load(z5::DatasetMetadata &m, json j, bool z) { try { m.fromJson(j, z); return true; } catch (std::exception &) { return false; } }
static zt::CompressionOptions options(const Sem &s) { zt::CompressionOptions o; if (!s.kind) return o; o["level"] = s.level; if (s.kind == codec::BLOSC) { o["codec"] = s.cname; o["shuffle"] = s.shuffle; o["blocksize"] = s.bs; o["nthreads"] = s.nth; } if (CE[s.kind] == zt::zlib) o["useZlib"] = s.kind == codec::ZLIB; return o; }
static bool make(z5::DatasetMetadata &m, int fmt, const Sem &s, bool z, int zf, const std::string &dt, const std::string &comp, json *doc) { try { z5::createDatasetMetadata(dt, s.shape, s.chunk, z, comp, options(s), s.fill, s.delim, m, zf, s.enc, s.shard); json j; m.toJson(j); if (doc) *doc = j; return true; } catch (std::exception &) { return false; } }

static bool dtIs64(int d) { return d == 3 || d == 9; }
struct Node { json *parent, *self; std::string key, path; size_t idx; };
static void collect(json &j, const std::string &path, std::vector<Node> &o) { if (j.is_object()) for (auto it = j.begin(); it != j.end(); ++it) { o.push_back({&j, &it.value(), it.key(), path + "/" + it.key(), 0}); collect(it.value(), path + "/" + it.key(), o); } else if (j.is_array()) for (size_t i = 0; i < j.size(); i++) { o.push_back({&j, &j[i], "", path + "/" + num(i), i}); collect(j[i], path + "/" + num(i), o); } }
static bool ends(const std::string &s, const char *e) { size_t n = strlen(e); return s.size() >= n && s.compare(s.size() - n, n, e) == 0; }
static bool in(const std::string &s, const char *e) { return s.find(e) != std::string::npos; }

static void extents() {
    int fmt = sx_param(1), nd = sx_param(2), ax = sx_param(3), dt = sx_param(4); Sem s = sem(fmt, 0, dt); s.shape.assign(nd, 7); s.chunk.assign(nd, 3); s.shard.clear(); if (fmt == SHARD) s.shard.assign(nd, 6);
    uint64_t mulq = 0, rem = 0; s.shape[ax] = sx_u64("extent"); s.chunk[ax] = sx_u64("chunk extent"); if (fmt == SHARD) { static const uint64_t C[] = {0, 1, 2, 3, 6, 64, 1000, (1ull << 20) + 1, 1ull << 31, (1ull << 32) + 6, 1ull << 40, 1ull << 62, ~0ull}; uint64_t c = s.chunk[ax] = C[sx_param(6) ? sx_param(6) - 1 : sx_choose("chunk extent", sizeof(C) / 8)]; if (!c) s.shard[ax] = sx_u64("shard extent"); else if (c == 1) s.shard[ax] = mulq = sx_u64("chunks"); else { mulq = sx_sym("chunks", 64, 0, ~0ull / c); rem = sx_sym("rest", 64, 0, c - 1); if (mulq == ~0ull / c) sx_assume(rem <= ~0ull % c); s.shard[ax] = mulq * c + rem; } }
    uint64_t item = DS_[dt], slots = 1; for (int d = 0; d < nd; d++) if (d != ax) { item *= 3; slots *= 2; } uint64_t cmax = (uint64_t)INT64_MAX / item; int ok = sx_and(s.chunk[ax] > 0, s.chunk[ax] <= cmax), must = sx_and(s.chunk[ax] > 0, s.chunk[ax] <= (1ull << 40));
    if (fmt == SHARD) { uint64_t c = s.chunk[ax]; if (c) { uint64_t q = mulq; int mult = rem == 0; ok = sx_and(ok, sx_and(mult, sx_and(s.shard[ax] > 0, q <= (uint64_t)INT64_MAX / 16 / slots))); must = sx_and(must, sx_and(mult, sx_and(s.shard[ax] > 0, q <= (1ull << 40)))); } }
    z5::DatasetMetadata m; bool acc; if (sx_param(5)) acc = make(m, fmt, s, zarr(fmt), v3(fmt) ? 3 : 2, DN[dt], "raw", nullptr); else acc = load(m, ref(fmt, s), zarr(fmt));
    if (acc) { SX_CHECK(ok, "chunk and shard extents that are zero, do not divide or overflow are refused"); means(m, fmt, s, "the extents are those given"); sx_cover("accepted"); } else { SX_CHECK(!sx_and(must, s.shape[ax] <= (uint64_t)INT64_MAX), "valid extents are accepted"); sx_cover("refused"); } }
static void kinds() {
    int fmt = sx_param(1); Sem s = sem(fmt, sx_param(2), sx_param(3)); json j = ref(fmt, s); { z5::DatasetMetadata m; SX_CHECK(load(m, j, zarr(fmt)), "a valid document is accepted"); means(m, fmt, s, "a document is taken to mean what it says"); }
    std::vector<Node> n; collect(j, "", n); Node &x = n[sx_choose("field", n.size())]; const std::string p = x.path; int k = sx_choose("becomes", 12); bool arr = x.self->is_array();
    switch (k) { case 0: if (x.key.empty()) return; { std::string key = x.key; x.parent->erase(key); } break; case 1: *x.self = nullptr; break; case 2: *x.self = true; break; case 3: if (p != "/fill_value" || sx_param(2)) { *x.self = (int64_t)-1; break; } *x.self = (int64_t)(sx_sym("negative", 63, 0, ~0ull >> 1) | (1ull << 63)); break; case 4: *x.self = 2.5; break; case 5: *x.self = "1"; break; case 6: *x.self = json::array(); break; case 7: *x.self = json::object(); break; case 8: if (!arr || x.self->empty()) return; { json l = x.self->back(); x.self->push_back(l); } break; case 9: if (!arr || x.self->empty()) return; x.self->erase(x.self->size() - 1); break; case 10: *x.self = false; break; default: *x.self = ~0ull; }
    bool compOpt = in(p, "/compress") && p != "/compressor" && p != "/compression" && !ends(p, "/id") && !ends(p, "/type"), cfgOpt = v3(fmt) && in(p, "/codecs/") && in(p, "codecs/1/configuration"); if (compOpt || cfgOpt) s.opts = false;
    if (p == "/fill_value") { if (k == 1) s.anyFill = true; else if (k == 3) s.fill = j["fill_value"].get<double>(); else if (k == 4) s.fill = 2.5; else if (k == 11) s.fill = 18446744073709551616.0; }
    if (k == 11 && (p.compare(0, 7, "/shape/") == 0 || p.compare(0, 12, "/dimensions/") == 0)) s.shape[fmt == N5 ? s.shape.size() - 1 - x.idx : x.idx] = ~0ull;
    if ((p == "/compressor" && k == 1) || (ends(p, "codecs") && k == 9)) s.kind = 0;
    if (p == "/dimension_separator" && k == 0) s.delim = ".";
    if (ends(p, "/codecs") && k == 6) { s.kind = 0; if (p == "/codecs" && !s.shard.empty()) { s.chunk = s.shard; s.shard.clear(); } } // an empty codec list is read as no compression
    z5::DatasetMetadata m; bool acc = load(m, j, zarr(fmt)); if (p == "/fill_value" && acc && k == 11) SX_CHECK(isF(s.dt), "a fill value outside the element type is refused"); if (p == "/fill_value" && acc && k == 3 && !isF(s.dt)) { SX_CHECK(isS(s.dt), "a fill value outside the element type is refused"); SX_CHECK(j["fill_value"].get<int64_t>() >= -(int64_t)(1ull << (8 * DS_[s.dt] - 1)), "a fill value outside the element type is refused"); SX_CHECK((int64_t)m.fillValue == j["fill_value"].get<int64_t>(), "the fill value survives"); s.anyFill = true; }
    if (acc) { means(m, fmt, s, "an inconsistent or unsupported document is refused"); sx_cover("accepted"); } else sx_cover("refused"); }
static void strings() {
    int fmt = sx_param(1); Sem s = sem(fmt, sx_param(2), sx_param(3)); if (isF(s.dt) && zarr(fmt) && sx_choose("special fill", 2)) s.fill = std::numeric_limits<double>::infinity(); json j = ref(fmt, s); std::vector<Node> all, n; collect(j, "", all); for (auto &x : all) if (x.self->is_string()) n.push_back(x); Node &x = n[sx_choose("field", n.size())]; const std::string p = x.path; std::string t = x.self->get<std::string>();
    switch (sx_choose("change", 3)) { case 0: t[sx_choose("position", t.size())] = (char)sx_byte("byte"); break; case 1: t.resize(sx_choose("length", t.size())); break; default: t += (char)sx_byte("byte"); } *x.self = t;
    std::vector<std::pair<std::string, std::function<void()>>> ok; bool known = true; auto add = [&](const char *v, std::function<void()> f = [] {}) { ok.push_back({v, f}); };
    if (ends(p, "dtype")) { for (int d = 0; d < 10; d++) add(DZ[d], [&, d] { s.dt = d; }); for (auto c : {"<c8", "<c16", "<c32"}) add(c, [&] { s.dt = -1; }); } else if (p == "/dataType" || p == "/data_type") for (int d = 0; d < 10; d++) add(DN[d], [&, d] { s.dt = d; });
    else if (p == "/order") add("C"); else if (p == "/dimension_separator" || ends(p, "/separator")) { add(".", [&] { s.delim = "."; }); add("/", [&] { s.delim = "/"; }); } else if (p == "/node_type") add("array"); else if (p == "/chunk_grid/name") add("regular"); else if (p == "/chunk_key_encoding/name") { add("default", [&] { s.enc = "default"; }); add("v2", [&] { s.enc = "v2"; }); } else if (ends(p, "/endian")) add("little"); else if (ends(p, "/index_location")) add("end"); else if (ends(p, "index_codecs/1/name")) add("crc32c"); else if (ends(p, "codecs/0/name")) { if (fmt == SHARD && p == "/codecs/0/name") add("sharding_indexed"); else add("bytes"); }
    else if (p == "/fill_value") { add("NaN", [&] { s.fill = NAN; }); add("Infinity", [&] { s.fill = INFINITY; }); add("-Infinity", [&] { s.fill = -INFINITY; }); } else if (ends(p, "/id") || ends(p, "/type") || ends(p, "codecs/1/name")) { for (int k = 0; k < 8; k++) if (hasCodec(fmt, k) && (k || !v3(fmt))) add(k == codec::BZ2 && !v3(fmt) && zarr(fmt) ? "bz2" : CN[k], [&, k] { s.kind = k; s.opts = false; }); } else { known = false; s.opts = false; }
    z5::DatasetMetadata m; bool acc = load(m, j, zarr(fmt)); int match = -1; for (size_t i = 0; i < ok.size() && match < 0; i++) if (t.size() == ok[i].first.size()) { int eq = 1; for (size_t q = 0; q < t.size(); q++) eq = sx_and(eq, t[q] == ok[i].first[q]); if (sx_fork(eq)) match = (int)i; }
    if (known && match < 0) { SX_CHECK(!acc, "unknown and unsupported names in a document are refused"); sx_cover("refused"); return; } if (match >= 0) ok[match].second(); if (s.dt < 0) { sx_cover("accepted"); return; } if (!isF(s.dt) && (std::isnan(s.fill) || std::isinf(s.fill))) { SX_CHECK(!acc, "a fill value outside the element type is refused"); return; }
    if (acc) { means(m, fmt, s, "a document is taken to mean what it says"); sx_cover("accepted"); } else { sx_cover("refused"); if (match >= 0 && s.opts) SX_CHECK(false, "a valid document is accepted"); } }
static void arguments() {
    int fmt = sx_param(1), w = sx_param(2); Sem s = sem(fmt, 0, sx_param(3)); bool z = zarr(fmt), valid = true; int zf = v3(fmt) ? 3 : 2; std::string dt = DN[s.dt], comp = "raw"; int cond = 1;
    if (w == 0) { static const char *const bad[] = {"bool", "", "float16", "complex64", "Int32", "int32 ", "<i4"}; int d = sx_choose("element type", 17); if (d < 10) { s.dt = d; dt = DN[d]; } else { dt = bad[d - 10]; valid = false; } static const char *const badc[] = {"", "none", "lzma", "Blosc", "bz2"}; int c = sx_choose("compressor", 13); if (c < 8) { s.kind = c; comp = CN[c]; if (v3(fmt) ? !hasCodec(fmt, c) && c != codec::ZLIB : fmt == N5 ? false : !hasCodec(fmt, c)) valid = false; if (c == codec::ZLIB && (fmt == N5 || v3(fmt))) s.kind = codec::GZIP; } else { comp = badc[c - 8]; valid = false; } }
    else if (w == 1) { static const int exps[] = {0, 32, 53, 62, 63}; uint64_t b = v3(fmt) && s.dt == 9 ? (uint64_t)sx_choose("sign", 2) << 63 | (uint64_t)(1023 + exps[sx_choose("exponent", 5)]) << 52 | sx_sym("upper bits of the fraction", 12, 0, 4095) << 40 : v3(fmt) && dtIs64(s.dt) ? sx_sym("fill value, upper half", 32, 0, ~0ull >> 32) << 32 : sx_u64("fill value"); memcpy(&s.fill, &b, 8); double lo = isS(s.dt) ? -std::ldexp(1., 8 * DS_[s.dt] - 1) : 0, hi = std::ldexp(1., isS(s.dt) ? 8 * DS_[s.dt] - 1 : 8 * DS_[s.dt]); if (fmt == N5) cond = s.fill == 0; else if (!isF(s.dt)) cond = sx_and(s.fill >= lo, s.fill < hi); }
    else { if (z) zf = (int)sx_sym("format", 32, 0, ~0ull >> 32); static const char *const D[] = {".", "/", "", "x", "..", "-"}; int d = sx_choose("separator", 6); s.delim = D[d]; static const char *const K[] = {"default", "v2", "", "v3"}; int e = sx_choose("key encoding", 4); s.enc = K[e]; if (z) { if (sx_fork(zf == 3)) { if (!v3(fmt)) fmt = ZARR3; valid = d < 2 && e < 2; } else if (sx_fork(zf == 2)) { if (!s.shard.empty()) valid = false; else { if (v3(fmt)) fmt = ZARR2; valid = d < 2; } } else valid = false; } }
    z5::DatasetMetadata m; json doc; bool acc = make(m, fmt, s, z, zf, dt, comp, &doc); cond = sx_and(cond, valid); if (!acc) { SX_CHECK(!cond, "valid arguments are accepted"); sx_cover("refused"); return; } SX_CHECK(cond, "invalid arguments are refused"); means(m, fmt, s, "the metadata is that given");
    if (w != 1) { bool same = doc == ref(fmt, s); SX_CHECK(same, "the stored document is the one the format asks for"); } z5::DatasetMetadata b; SX_CHECK(load(b, doc, z), "a stored document can be opened again"); means(b, fmt, s, "reopening gives the same metadata"); sx_cover("accepted"); }
static void opts() {
    int fmt = sx_param(1); Sem s = sem(fmt, sx_param(2), sx_param(3)); bool dflt = sx_choose("default options", 2); if (dflt) { switch (s.kind) { case codec::BLOSC: s.level = 5; s.shuffle = 1; s.cname = "lz4"; s.bs = 0; s.nth = 1; break; case codec::LZ4: case codec::XZ: s.level = 6; break; case codec::ZSTD: s.level = 3; break; default: s.level = 5; } }
    else { s.level = (int)sx_sym("level", 32, 0, 22); if (s.kind == codec::BLOSC) { s.shuffle = sx_choose("shuffle", 3); s.bs = (int)sx_sym("blocksize", 31, 0, 0x7fffffff); s.nth = (int)sx_sym("threads", 8, 1, 64); static const char *const N[] = {"lz4", "blosclz", "lz4hc", "zlib", "zstd", "snappy"}; s.cname = N[sx_choose("codec", 6)]; } }
    if (sx_choose("shape", 2)) { s.shape = {5, 6, 7}; s.chunk = {1, 2, 3}; if (fmt == SHARD) s.shard = {2, 2, 9}; }
    z5::DatasetMetadata m; json doc; zt::CompressionOptions o; if (!dflt) o = options(s); bool acc = true; try { z5::createDatasetMetadata(DN[s.dt], s.shape, s.chunk, zarr(fmt), CN[s.kind], o, s.fill, s.delim, m, v3(fmt) ? 3 : 2, s.enc, s.shard); m.toJson(doc); } catch (std::exception &) { acc = false; } SX_CHECK(acc, "valid arguments are accepted"); means(m, fmt, s, "the metadata is that given");
    json want = ref(fmt, s); SX_CHECK(doc == want, "the stored document is the one the format asks for"); z5::DatasetMetadata b; SX_CHECK(load(b, doc, zarr(fmt)), "a stored document can be opened again"); means(b, fmt, s, "reopening gives the same metadata"); z5::DatasetMetadata b2; SX_CHECK(load(b2, want, zarr(fmt)), "a valid document is accepted"); means(b2, fmt, s, "a document is taken to mean what it says"); sx_cover("roundtrip"); }
static const char *docName(int fmt) { return v3(fmt) ? "zarr.json" : zarr(fmt) ? ".zarray" : "attributes.json"; }
static double fillNo(int i) { switch (i) { case 0: return 0; case 1: return 42; case 2: return NAN; case 3: return INFINITY; case 4: return -INFINITY; case 5: return 0.1; case 6: return -3; case 7: return 9007199254740992.0; default: return 1e300; } }
static void store() {
    int fmt = sx_param(1); Sem s = sem(fmt, sx_param(2), sx_param(3)); s.fill = fillNo(sx_param(4)); s.level = 3; z5::filesystem::handle::File f{std::filesystem::path(ROOT)}; int zf = v3(fmt) ? 3 : 2; z5::createFile(f, zarr(fmt), zf); V id(2, 0);
    bool can = hasCodec(fmt, s.kind) || ((fmt == N5 || v3(fmt)) && s.kind == codec::ZLIB); auto s0 = sxfs::snap(); std::unique_ptr<z5::Dataset> ds; try { ds = z5::createDataset(f, "ds", std::string(DN[s.dt]), s.shape, s.chunk, std::string(CN[s.kind]), options(s), s.fill, s.delim, zf, s.enc, s.shard); } catch (std::exception &) { }
    SX_CHECK((bool)ds == can, "a dataset is created exactly if its metadata can be stored"); if (!ds) { SX_CHECK(sxfs::same(s0), "a refused creation leaves nothing behind"); sx_cover("refused"); return; } if (s.kind == codec::ZLIB && (fmt == N5 || v3(fmt))) s.kind = codec::GZIP;
    sxfs::Node *n = sxfs::get((std::string(DS) + "/" + docName(fmt)).c_str()); SX_CHECK(n, "the metadata document is stored under its name"); json doc = json::parse(n->data.begin(), n->data.end()), want = ref(fmt, s); SX_CHECK(doc == want, "the stored document is the one the format asks for");
    auto s1 = sxfs::snap(); for (int rep = 0; rep < 2; rep++) { if (rep) { ds = z5::openDataset(f, "ds"); SX_CHECK((bool)ds, "a stored dataset can be opened"); } const auto &d = *ds; SX_CHECK(d.shape() == s.shape && d.defaultChunkShape() == s.chunk && d.isZarr() == zarr(fmt) && d.getDtype() == DE[s.dt], "reopening gives the same metadata"); SX_CHECK(d.isSharded() == !s.shard.empty(), "reopening gives the same metadata"); zt::CompressionOptions o; d.getCompressionOptions(o); z5::DatasetMetadata m; z5::filesystem::handle::Dataset h(f, "ds", s.delim, zf, s.enc); z5::filesystem::readMetadata(h, m); means(m, fmt, s, "reopening gives the same metadata"); std::string cn; d.getCompressor(cn); SX_CHECK(cn == (s.kind == codec::BZ2 ? (zarr(fmt) ? "bz2" : "bzip2") : s.kind == codec::GZIP && zarr(fmt) ? "zlib" : s.kind == codec::GZIP ? "gzip" : CN[s.kind]), "reopening gives the same compressor"); }
    SX_CHECK(sxfs::same(s1), "opening a dataset changes nothing"); sx_cover("roundtrip"); }
static void contradict() {
    int c = sx_param(1); z5::filesystem::handle::File f{std::filesystem::path(ROOT)}; bool z = c != 3 && c != 6; z5::createFile(f, z, c == 1 || c == 5 ? 3 : 2); std::filesystem::create_directory(DS); auto put = [&](const char *name, const json &j) { std::string t = j.dump(); sxfs::put((std::string(DS) + "/" + name).c_str(), t.data(), t.size()); }; auto text = [&](const char *name, std::string t) { sxfs::put((std::string(DS) + "/" + name).c_str(), t.data(), t.size()); };
    json a = ref(ZARR2, sem(ZARR2, 0, 2)), b = ref(ZARR3, sem(ZARR3, 0, 2)), n = ref(N5, sem(N5, 0, 2)); const char *nm = c == 1 || c == 5 ? "zarr.json" : c == 3 || c == 6 ? "attributes.json" : ".zarray";
    switch (c) { case 0: put(".zarray", b); break; case 1: put("zarr.json", a); break; case 2: put(".zarray", a); put("attributes.json", n); break; case 3: { std::string t = n.dump(); text(nm, t.substr(0, sx_choose("kept", t.size()))); break; } case 4: { std::string t = a.dump(); text(nm, t.substr(0, sx_choose("kept", t.size()))); break; } case 5: { std::string t = b.dump(); text(nm, t.substr(0, sx_choose("kept", t.size()))); break; } case 6: case 7: { std::string t; size_t l = sx_choose("length", 3); for (size_t i = 0; i < l; i++) t += (char)sx_byte("byte"); text(nm, t); break; } default: break; }
    auto s0 = sxfs::snap(); bool threw = false; try { auto ds = z5::openDataset(f, "ds"); } catch (std::exception &) { threw = true; } SX_CHECK(threw, "a store whose metadata contradicts itself or is incomplete is refused"); SX_CHECK(sxfs::same(s0), "opening a dataset changes nothing"); sx_cover("refused"); }
extern "C" void sx_main() { switch (sx_param(0)) { case 0: extents(); break; case 1: kinds(); break; case 2: strings(); break; case 3: arguments(); break; case 4: opts(); break; case 5: store(); break; default: contradict(); } }
