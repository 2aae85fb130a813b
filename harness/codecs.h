// Models of the compression libraries' C interfaces, defined against the real prototypes. Each stands for every
// library behaviour its documented contract allows: whatever an encoder emits is opaque, a decoder given exactly those
// bytes returns the original ones, given anything else it may fail or produce any amount of data up to the capacity.
#pragma once
#include "sx.h"
#include <vector>
#include <cstring>
#include <cstdlib>
#include <climits>
extern "C" { void sx_atomic_begin(); void sx_atomic_end(); }
namespace codec {
enum Kind { BLOSC = 1, ZLIB = 2, GZIP = 3, BZ2 = 4, LZ4 = 5, XZ = 6, ZSTD = 7 };
typedef std::vector<char> B;
struct Blob { int kind, id; B enc, dec; Blob *next; };
struct State {
    Blob *head = nullptr; int n = 0;
    bool vary = false;          // encoders pick any of several output lengths up to their bound
    bool arbitrary = false;     // decoders may "succeed" on damaged input, with any output length
    int failures = 0;           // how many calls may report an error although nothing is wrong
    int failed = 0, calls = 0, live = 0; long lastOut = -1;
    // sizes only: nothing is copied, the arguments are compared with the true sizes
    bool sizes = false; uint64_t trueIn = 0, trueOut = 0, gotIn = 0, gotOut = 0; const void *inBase = nullptr; void *outBase = nullptr; bool checkOut = false;
};
inline State sxrt_codec;
inline State &st() { return sxrt_codec; }
struct Atomic { Atomic() { sx_atomic_begin(); } ~Atomic() { sx_atomic_end(); } };
inline bool fail(const char *w) { State &s = st(); ++s.calls; if (s.failures <= 0) return false; if (sx_fork(sx_bool(w))) { --s.failures; ++s.failed; return true; } return false; }
inline size_t minEnc(int k) { return k == BLOSC ? 19 : 3; }
inline size_t bound(int k, size_t n) { switch (k) { case BLOSC: return n + 16; case ZLIB: return n + n / 1000 + 13; case GZIP: return n + n / 1000 + 25; case BZ2: return n + n / 100 + 590; /* documented: 1% + 600; the library's own worst case is far below */ case LZ4: return n + n / 255 + 16; case ZSTD: return n + (n >> 8) + 64; default: return n + n / 3 + 128; } }
// a new opaque encoding of the n bytes at src
inline Blob *encode(int kind, const void *src, size_t n, size_t maxLen) {
    State &s = st(); Blob *b = new Blob(); b->kind = kind; b->id = ++s.n; b->dec.assign((const char *)src, (const char *)src + n); b->next = s.head; s.head = b;
    size_t m = minEnc(kind); if (s.vary) switch (sx_choose("encoded length", 4)) { case 1: m += 1 + n / 2; break; case 2: m = maxLen; break; case 3: m = maxLen - (maxLen > m); break; }
    if (m > maxLen) m = maxLen; size_t h = kind == BLOSC ? 16 : 0; b->enc.assign(m, 0);
    if (kind == BLOSC) { uint32_t v[4] = {0x04010102u, (uint32_t)n, (uint32_t)n, (uint32_t)m}; memcpy(b->enc.data(), v, 16); }
    for (size_t i = h; i < m; i++) b->enc[i] = i == h ? (char)(0xC0 | kind) : i == h + 1 ? (char)b->id : i + 1 == m ? 0 : (char)(b->id * 37 + i * 11 + 1);
    return b; }
inline Blob *find(int kind, const char *p, size_t n, bool &exact, bool &prefix) {
    exact = prefix = false; for (Blob *b = st().head; b; b = b->next) { if (b->kind != kind) continue; size_t m = n < b->enc.size() ? n : b->enc.size(); if (!m) continue; int eq = 1; for (size_t i = 0; i < m; i++) eq = sx_and(eq, p[i] == b->enc[i]); if (!sx_fork(eq)) continue; if (n >= b->enc.size()) { exact = n == b->enc.size(); return b; } prefix = true; }
    return nullptr; }
// what is left of an encoding after truncation (also: nothing at all) is a complete encoding of no kind, and an encoding is of one kind only
inline bool cutShort(const char *p, size_t n) { if (!n) return true; for (Blob *b = st().head; b; b = b->next) { size_t m = n < b->enc.size() ? n : b->enc.size(); int eq = 1; for (size_t i = 0; i < m; i++) eq = sx_and(eq, p[i] == b->enc[i]); if (sx_fork(eq)) return true; } return false; }
inline void junk(void *p, size_t n) { if (n) memset(p, 0xEE, n); }
// one-shot decoding into [dst, dst+cap): length, or -1 for an error. kinds: alternatives the library accepts
inline long decode1(int kind, const void *src, size_t n, void *dst, size_t cap, int kind2) {
    B in((const char *)src, (const char *)src + n); junk(dst, cap); if (fail("decoder reports an error")) return -1;
    bool exact, prefix, p2 = false; Blob *b = find(kind, in.data(), n, exact, prefix); if (!b && kind2) b = find(kind2, in.data(), n, exact, p2);
    if (b) { if (!exact && sx_choose("trailing bytes refused", 2)) return -1; if (b->dec.size() > cap) return -1; if (!b->dec.empty()) memcpy(dst, b->dec.data(), b->dec.size()); return (long)b->dec.size(); }
    if (prefix || p2 || cutShort(in.data(), n)) { long m = (long)sx_choose("short output", cap ? 3 : 1); return m == 0 ? -1 : m == 1 ? 0 : (long)cap - 1; }
    if (!st().arbitrary) return -1;
    switch (sx_choose("output of a damaged stream", cap > 1 ? 4 : 3)) { case 0: return -1; case 1: return 0; case 2: return (long)cap; default: return (long)cap - 1; } }
inline long decode(int kind, const void *src, size_t n, void *dst, size_t cap, int kind2 = 0) { return st().lastOut = decode1(kind, src, n, dst, cap, kind2); }
inline void sizesIn(uint64_t n) { SX_CHECK(n == st().trueIn, "the library is told the true number of input bytes"); st().gotIn = n; }
inline void sizesOut(uint64_t n) { if (st().checkOut) SX_CHECK(n == st().trueOut, "the library is told the true size of the output buffer"); }
inline uint64_t produced(uint64_t cap) { uint64_t m = sx_u64("produced"); sx_assume(m <= cap); st().gotOut = m; return m; }
// one-shot encoding: length or 0 (error)
inline size_t compress(int kind, const void *src, size_t n, void *dst, size_t cap) {
    State &s = st(); if (s.sizes) { sizesIn(n); if (fail("encoder reports an error")) return 0; size_t m = 1 + sx_choose("encoded length", cap); junk(dst, cap); s.gotOut = m; return m; }
    size_t bd = bound(kind, n); if (fail("encoder reports an error")) { junk(dst, cap); return 0; } Blob *b = encode(kind, src, n, bd); junk(dst, cap); if (b->enc.size() > cap) return 0; memcpy(dst, b->enc.data(), b->enc.size()); return b->enc.size(); }
inline size_t boundOf(int kind, size_t n) { if (st().sizes) { SX_CHECK(n == st().trueIn, "the output bound is asked for the true number of input bytes"); return 8; } return bound(kind, n); }
// ---- streams
struct Stream { int kind, kind2; bool enc, multi; B in, out; size_t pos = 0; bool ready = false, done = false, dead = false; int stall = 0, oks = 0; uint64_t total = 0; };
// feed and drain; returns 0 more to do, 1 end, -1 damaged, -2 no progress
inline int pump(Stream &s, const char *&ni, size_t &ai, char *&no, size_t &ao, bool finish) {
    SX_CHECK(!s.dead, "a closed stream is not used"); State &g = st(); size_t i0 = ai, o0 = ao;
    if (g.sizes) {
        SX_CHECK((uint64_t)ni - (uint64_t)g.inBase == g.gotIn && ai <= g.trueIn - g.gotIn, "the stream's input lies in the caller's data"); g.gotIn += ai; ni += ai; ai = 0;
        if (g.checkOut) { uint64_t o = (uint64_t)no - (uint64_t)g.outBase; SX_CHECK(o <= g.trueOut && ao <= g.trueOut - o, "the stream's output lies in the caller's buffer"); uint64_t m = sx_u64("produced"); sx_assume(m <= ao); no += m; ao -= m; g.gotOut += m; } else { size_t m = sx_choose("encoded length", 3); junk(no, m); no += m; ao -= m; g.gotOut += m; }
        switch (s.oks >= 2 ? 1 + sx_choose("stream result", 2) : sx_choose("stream result", 3)) { case 0: ++s.oks; return 0; case 1: return finish || !s.enc ? 1 : 0; default: return -1; } }
    junk(no, ao); if (fail("stream reports an error")) return -1;
    s.in.insert(s.in.end(), ni, ni + ai); ni += ai; ai = 0;
    if (!s.ready) {
        if (s.enc) { if (finish) { Blob *b = encode(s.kind, s.in.data(), s.in.size(), bound(s.kind, s.in.size())); s.out = b->enc; s.ready = true; } }
        else { bool ex, pf, p2 = false; Blob *b = find(s.kind, s.in.data(), s.in.size(), ex, pf); if (!b && s.kind2) b = find(s.kind2, s.in.data(), s.in.size(), ex, p2);
            if (b) { if (!ex && s.multi) return -1; s.out = b->dec; s.ready = true; }
            else if (pf || p2 || cutShort(s.in.data(), s.in.size())) { if (finish) return -2; }
            else if (!g.arbitrary) return -1;
            else { size_t m = 0; switch (sx_choose("output of a damaged stream", 5)) { case 0: return -1; case 1: break; case 2: m = ao; break; case 3: m = ao ? ao - 1 : 0; break; default: m = ao + 1; } s.out.assign(m, 0x5a); s.ready = true; } } }
    size_t m = s.out.size() - s.pos; if (m > ao) m = ao; if (m) memcpy(no, s.out.data() + s.pos, m); no += m; ao -= m; s.pos += m; s.total += m; g.lastOut = (long)s.total;
    if (s.ready && s.pos == s.out.size() && (finish || !s.multi || s.enc)) { s.done = true; return 1; }
    if (i0 == ai && o0 == ao) { if (++s.stall > 1) return -2; } else s.stall = 0;
    return 0; }
// bytes stored for a chunk by the reference model, and back
inline B pack(int kind, const B &raw) { if (!kind) return raw; return encode(kind, raw.data(), raw.size(), bound(kind, raw.size()))->enc; }
inline bool unpack(int kind, const char *p, size_t n, B &raw) { if (!kind) { raw.assign(p, p + n); return true; } bool ex, pf; Blob *b = find(kind, p, n, ex, pf); if (!b || !ex) return false; raw = b->dec; return true; }
}
extern "C" {
#ifdef WITH_BLOSC
#include <blosc.h>
int blosc_compress_ctx(int clevel, int shuffle, size_t typesize, size_t n, const void *src, void *dst, size_t cap, const char *, size_t, int threads) { codec::Atomic at; if (!codec::st().sizes && (clevel < 0 || clevel > 9 || threads < 1 || shuffle < -1 || shuffle > 2 || typesize == 0 || n > BLOSC_MAX_BUFFERSIZE)) return -10; size_t m = codec::compress(codec::BLOSC, src, n, dst, cap); return m ? (int)m : -(int)sx_choose("blosc error", 2); }
void blosc_cbuffer_sizes(const void *p, size_t *nb, size_t *cb, size_t *bs) { uint32_t v[4]; memcpy(v, p, 16); if ((v[0] & 255) != 2) { *nb = *cb = *bs = 0; return; } *nb = v[1]; *bs = v[2]; *cb = v[3]; }
int blosc_cbuffer_validate(const void *p, size_t cbytes, size_t *nb) { codec::State &s = codec::st(); if (s.sizes) { codec::sizesIn(cbytes); *nb = s.trueOut; if (sx_choose("invalid", 3) == 1) { *nb = 0; return -1; } if (sx_choose("other size", 2)) *nb = sx_u64("header size"); return 0; } size_t hb, hc; if (cbytes < BLOSC_MIN_HEADER_LENGTH) { *nb = 0; return -1; } blosc_cbuffer_sizes(p, nb, &hc, &hb); if (hc != cbytes || *nb > BLOSC_MAX_BUFFERSIZE) { *nb = 0; return -1; } return 0; }
int blosc_decompress_ctx(const void *src, void *dst, size_t cap, int threads) { codec::Atomic at; codec::State &s = codec::st(); if (s.sizes) { codec::sizesOut(cap); if (codec::fail("decoder reports an error")) return -1; if (s.trueOut > INT_MAX) return -1; s.gotOut = s.trueOut; return (int)s.trueOut; } if (threads < 1) return -1;
    size_t nb, cb, bs; blosc_cbuffer_sizes(src, &nb, &cb, &bs); cb = sx_concretize(cb); if (cb < 16 || cb > 4096) return -1; long m = codec::decode(codec::BLOSC, src, cb, dst, cap); if (m > 0 && (size_t)m != nb) m = nb <= cap ? (long)sx_concretize(nb) : -1; s.lastOut = m; return m < 0 ? -1 : (int)m; }
#endif
#ifdef WITH_ZLIB
#ifdef WITH_LIBDEFLATE
#include <libdeflate.h>
struct libdeflate_compressor { int level; bool dead; }; struct libdeflate_decompressor { bool dead; };
struct libdeflate_compressor *libdeflate_alloc_compressor(int level) { codec::Atomic at; if (level < 0 || level > 12) return nullptr; if (codec::fail("no memory for the encoder")) return nullptr; ++codec::st().live; return new libdeflate_compressor{level, false}; }
void libdeflate_free_compressor(struct libdeflate_compressor *c) { codec::Atomic at; if (!c) return; SX_CHECK(!c->dead, "an encoder is released once"); c->dead = true; --codec::st().live; }
struct libdeflate_decompressor *libdeflate_alloc_decompressor(void) { codec::Atomic at; if (codec::fail("no memory for the decoder")) return nullptr; ++codec::st().live; return new libdeflate_decompressor{false}; }
void libdeflate_free_decompressor(struct libdeflate_decompressor *c) { codec::Atomic at; if (!c) return; SX_CHECK(!c->dead, "a decoder is released once"); c->dead = true; --codec::st().live; }
size_t libdeflate_zlib_compress_bound(struct libdeflate_compressor *c, size_t n) { if (c) SX_CHECK(!c->dead, "a released encoder is not used"); return codec::boundOf(codec::ZLIB, n); }
size_t libdeflate_gzip_compress_bound(struct libdeflate_compressor *c, size_t n) { if (c) SX_CHECK(!c->dead, "a released encoder is not used"); return codec::boundOf(codec::GZIP, n); }
size_t libdeflate_zlib_compress(struct libdeflate_compressor *c, const void *in, size_t n, void *out, size_t cap) { codec::Atomic at; SX_CHECK(!c->dead, "a released encoder is not used"); return codec::compress(codec::ZLIB, in, n, out, cap); }
size_t libdeflate_gzip_compress(struct libdeflate_compressor *c, const void *in, size_t n, void *out, size_t cap) { codec::Atomic at; SX_CHECK(!c->dead, "a released encoder is not used"); return codec::compress(codec::GZIP, in, n, out, cap); }
static enum libdeflate_result sx_ldd(int kind, struct libdeflate_decompressor *c, const void *in, size_t n, void *out, size_t cap, size_t *actual) { codec::Atomic at; SX_CHECK(!c->dead, "a released decoder is not used"); codec::State &s = codec::st();
    if (s.sizes) { codec::sizesIn(n); codec::sizesOut(cap); if (sx_choose("damaged", 2)) return LIBDEFLATE_BAD_DATA; uint64_t m = codec::produced(cap); if (!actual) { return sx_fork(m == cap) ? LIBDEFLATE_SUCCESS : LIBDEFLATE_SHORT_OUTPUT; } *actual = m; return LIBDEFLATE_SUCCESS; }
    long m = codec::decode(kind, in, n, out, cap); if (m < 0) return sx_choose("insufficient space", 2) ? LIBDEFLATE_INSUFFICIENT_SPACE : LIBDEFLATE_BAD_DATA; if (!actual) return (size_t)m == cap ? LIBDEFLATE_SUCCESS : LIBDEFLATE_SHORT_OUTPUT; *actual = (size_t)m; return LIBDEFLATE_SUCCESS; }
enum libdeflate_result libdeflate_zlib_decompress(struct libdeflate_decompressor *c, const void *in, size_t n, void *out, size_t cap, size_t *a) { return sx_ldd(codec::ZLIB, c, in, n, out, cap, a); }
enum libdeflate_result libdeflate_gzip_decompress(struct libdeflate_decompressor *c, const void *in, size_t n, void *out, size_t cap, size_t *a) { return sx_ldd(codec::GZIP, c, in, n, out, cap, a); }
#else
#include <zlib.h>
static int sx_zinit(z_streamp z, codec::Stream s) { codec::Atomic at; z->msg = nullptr; if (codec::fail("stream cannot be opened")) { z->state = nullptr; return Z_MEM_ERROR; } auto *p = new codec::Stream(s); z->state = (struct internal_state *)p; z->total_in = z->total_out = 0; ++codec::st().live; return Z_OK; }
int deflateInit_(z_streamp z, int level, const char *, int) { if (level < -1 || level > 9) return Z_STREAM_ERROR; return sx_zinit(z, codec::Stream{codec::ZLIB, 0, true, false}); }
int deflateInit2_(z_streamp z, int level, int, int wb, int, int, const char *, int) { if (level < -1 || level > 9) return Z_STREAM_ERROR; return sx_zinit(z, codec::Stream{wb > 15 ? codec::GZIP : codec::ZLIB, 0, true, false}); }
int inflateInit2_(z_streamp z, int wb, const char *, int) { (void)z->next_in; return sx_zinit(z, codec::Stream{wb >= 32 || wb < 16 ? codec::ZLIB : codec::GZIP, wb >= 32 ? codec::GZIP : 0, false, false}); }
int inflateInit_(z_streamp z, const char *v, int n) { return inflateInit2_(z, 15, v, n); }
uLong deflateBound(z_streamp z, uLong n) { auto *s = (codec::Stream *)z->state; return codec::boundOf(s ? s->kind : codec::GZIP, n); }
static int sx_zpump(z_streamp z, int flush) { codec::Atomic at; auto *s = (codec::Stream *)z->state; if (!s) return Z_STREAM_ERROR; const char *ni = (const char *)z->next_in; char *no = (char *)z->next_out; size_t ai = z->avail_in, ao = z->avail_out, i0 = ai, o0 = ao; int r = codec::pump(*s, ni, ai, no, ao, s->enc ? flush == Z_FINISH : true);
    z->next_in = (Bytef *)ni; z->next_out = (Bytef *)no; z->avail_in = (uInt)ai; z->avail_out = (uInt)ao; z->total_in += i0 - ai; z->total_out += o0 - ao; if (r == 1) return Z_STREAM_END; if (r == -1) return sx_choose("kind of error", 2) ? Z_DATA_ERROR : Z_MEM_ERROR; if (r == -2) return Z_BUF_ERROR; return flush == Z_FINISH && !s->enc && !codec::st().sizes ? Z_BUF_ERROR : Z_OK; }
int deflate(z_streamp z, int f) { return sx_zpump(z, f); }
int inflate(z_streamp z, int f) { return sx_zpump(z, f); }
static int sx_zend(z_streamp z) { codec::Atomic at; auto *s = (codec::Stream *)z->state; if (!s) return Z_STREAM_ERROR; SX_CHECK(!s->dead, "a stream is closed once"); s->dead = true; --codec::st().live; return Z_OK; }
int deflateEnd(z_streamp z) { return sx_zend(z); }
int inflateEnd(z_streamp z) { return sx_zend(z); }
#endif
#endif
#ifdef WITH_BZIP2
#include <bzlib.h>
static int sx_bzinit(bz_stream *z, bool enc) { codec::Atomic at; if ((z->bzalloc != nullptr) != (z->bzfree != nullptr)) return BZ_PARAM_ERROR; if (codec::fail("stream cannot be opened")) return BZ_MEM_ERROR; z->state = new codec::Stream{codec::BZ2, 0, enc, false}; z->total_in_lo32 = z->total_in_hi32 = z->total_out_lo32 = z->total_out_hi32 = 0; ++codec::st().live; return BZ_OK; }
int BZ2_bzCompressInit(bz_stream *z, int bs, int, int) { if (bs < 1 || bs > 9) return BZ_PARAM_ERROR; return sx_bzinit(z, true); }
int BZ2_bzDecompressInit(bz_stream *z, int, int) { return sx_bzinit(z, false); }
static int sx_bzpump(bz_stream *z, bool fin, int &r) { codec::Atomic at; auto *s = (codec::Stream *)z->state; const char *ni = z->next_in; char *no = z->next_out; size_t ai = z->avail_in, ao = z->avail_out, i0 = ai, o0 = ao; r = codec::pump(*s, ni, ai, no, ao, fin);
    z->next_in = (char *)ni; z->next_out = no; z->avail_in = (unsigned)ai; z->avail_out = (unsigned)ao; uint64_t ti = ((uint64_t)z->total_in_hi32 << 32 | z->total_in_lo32) + (i0 - ai), to = ((uint64_t)z->total_out_hi32 << 32 | z->total_out_lo32) + (o0 - ao); z->total_in_lo32 = (unsigned)ti; z->total_in_hi32 = (unsigned)(ti >> 32); z->total_out_lo32 = (unsigned)to; z->total_out_hi32 = (unsigned)(to >> 32); return r; }
int BZ2_bzCompress(bz_stream *z, int action) { int r; sx_bzpump(z, action == BZ_FINISH, r); if (r == 1) return BZ_STREAM_END; if (r < 0) return BZ_SEQUENCE_ERROR; return action == BZ_FINISH ? BZ_FINISH_OK : BZ_RUN_OK; }
int BZ2_bzDecompress(bz_stream *z) { int r; sx_bzpump(z, false, r); if (r == 1) return BZ_STREAM_END; if (r == -1) return sx_choose("kind of error", 2) ? BZ_DATA_ERROR : BZ_DATA_ERROR_MAGIC; return BZ_OK; }
static int sx_bzend(bz_stream *z) { codec::Atomic at; auto *s = (codec::Stream *)z->state; if (!s) return BZ_PARAM_ERROR; SX_CHECK(!s->dead, "a stream is closed once"); s->dead = true; --codec::st().live; return BZ_OK; }
int BZ2_bzCompressEnd(bz_stream *z) { return sx_bzend(z); }
int BZ2_bzDecompressEnd(bz_stream *z) { return sx_bzend(z); }
#endif
#ifdef WITH_LZ4
#include <lz4.h>
#include <lz4hc.h>
int LZ4_compressBound(int n) { if (codec::st().sizes) { SX_CHECK((uint64_t)(int64_t)n == codec::st().trueIn, "the output bound is asked for the true number of input bytes"); if ((unsigned)n > (unsigned)LZ4_MAX_INPUT_SIZE) return 0; return 8; } return LZ4_COMPRESSBOUND(n); }
int LZ4_compress_default(const char *src, char *dst, int n, int cap) { codec::Atomic at; if (!codec::st().sizes && (n < 0 || cap < 0 || (unsigned)n > (unsigned)LZ4_MAX_INPUT_SIZE)) return 0; if (codec::st().sizes) { codec::sizesIn((uint64_t)(int64_t)n); return (int)codec::compress(codec::LZ4, src, codec::st().trueIn, dst, cap); } return (int)codec::compress(codec::LZ4, src, n, dst, cap); }
int LZ4_compress_fast(const char *src, char *dst, int n, int cap, int) { return LZ4_compress_default(src, dst, n, cap); }
int LZ4_compress_HC(const char *src, char *dst, int n, int cap, int) { return LZ4_compress_default(src, dst, n, cap); }
int LZ4_decompress_safe(const char *src, char *dst, int n, int cap) { codec::Atomic at; codec::State &s = codec::st(); if (s.sizes) { codec::sizesIn((uint64_t)(int64_t)n); codec::sizesOut((uint64_t)(int64_t)cap); if (sx_choose("damaged", 2)) return -(int)sx_sym("position", 31, 1, 0x7fffffff); return (int)codec::produced((uint64_t)(int64_t)cap); } if (n < 0 || cap < 0) return -1; long m = codec::decode(codec::LZ4, src, n, dst, cap); return m < 0 ? -1 - (int)sx_choose("position", 2) : (int)m; }
#endif
#ifdef WITH_XZ
#include <lzma.h>
static lzma_ret sx_xinit(lzma_stream *z, bool enc, bool multi) { codec::Atomic at; if (codec::fail("stream cannot be opened")) return LZMA_MEM_ERROR; z->internal = (lzma_internal *)new codec::Stream{codec::XZ, 0, enc, multi}; z->total_in = z->total_out = 0; ++codec::st().live; return LZMA_OK; }
lzma_ret lzma_easy_encoder(lzma_stream *z, uint32_t preset, lzma_check) { if ((preset & 31) > 9 || (preset & ~(31u | LZMA_PRESET_EXTREME))) return LZMA_OPTIONS_ERROR; return sx_xinit(z, true, false); }
lzma_ret lzma_stream_decoder(lzma_stream *z, uint64_t, uint32_t flags) { return sx_xinit(z, false, flags & LZMA_CONCATENATED); }
lzma_ret lzma_code(lzma_stream *z, lzma_action a) { codec::Atomic at; auto *s = (codec::Stream *)z->internal; if (!s || (!z->next_in && z->avail_in) || (!z->next_out && z->avail_out)) return LZMA_PROG_ERROR; const char *ni = (const char *)z->next_in; char *no = (char *)z->next_out; size_t ai = z->avail_in, ao = z->avail_out, i0 = ai, o0 = ao; int r = codec::pump(*s, ni, ai, no, ao, a == LZMA_FINISH);
    z->next_in = (const uint8_t *)ni; z->next_out = (uint8_t *)no; z->avail_in = ai; z->avail_out = ao; z->total_in += i0 - ai; z->total_out += o0 - ao; if (r == 1) return LZMA_STREAM_END; if (r == -1) return sx_choose("kind of error", 2) ? LZMA_DATA_ERROR : LZMA_FORMAT_ERROR; if (r == -2) return LZMA_BUF_ERROR; return LZMA_OK; }
void lzma_end(lzma_stream *z) { codec::Atomic at; auto *s = (codec::Stream *)z->internal; if (!s) return; SX_CHECK(!s->dead, "a stream is closed once"); s->dead = true; --codec::st().live; z->internal = nullptr; }
#endif
#ifdef WITH_ZSTD
#include <zstd.h>
size_t ZSTD_compressBound(size_t n) { return codec::boundOf(codec::ZSTD, n); }
size_t ZSTD_compress(void *dst, size_t cap, const void *src, size_t n, int) { codec::Atomic at; size_t m = codec::compress(codec::ZSTD, src, n, dst, cap); return m ? m : (size_t)-(long)(1 + sx_choose("zstd error", 2) * 69); }
size_t ZSTD_decompress(void *dst, size_t cap, const void *src, size_t n) { codec::Atomic at; codec::State &s = codec::st(); if (s.sizes) { codec::sizesIn(n); codec::sizesOut(cap); if (sx_choose("damaged", 2)) return (size_t)-20; sx_assume(cap < (1ull << 62)); return codec::produced(cap); } long m = codec::decode(codec::ZSTD, src, n, dst, cap); return m < 0 ? (size_t)-(long)(1 + sx_choose("zstd error", 2) * 69) : (size_t)m; }
unsigned ZSTD_isError(size_t c) { return c > (size_t)-120; }
const char *ZSTD_getErrorName(size_t) { return "zstd error"; }
unsigned long long ZSTD_getFrameContentSize(const void *, size_t) { return ZSTD_CONTENTSIZE_UNKNOWN; }
#endif
}
