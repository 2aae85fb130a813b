// Codec wrappers against every behaviour the libraries' contracts allow.
// params: 0 variant (0 round trip, 1 damaged input, 2 decoder argument sizes, 3 encoder argument sizes), 1 codec, 2 dtype, 3 elements, 4 library failures allowed
#include "codecs.h"
#include "io.h"
#include "z5/compression/blosc_compressor.hxx"
#include "z5/compression/zlib_compressor.hxx"
#include "z5/compression/bzip2_compressor.hxx"
#include "z5/compression/lz4_compressor.hxx"
#include "z5/compression/xz_compressor.hxx"
#include "z5/compression/zstd_compressor.hxx"
using namespace io; namespace zc = z5::compression;
template <class T> static std::unique_ptr<zc::CompressorBase<T>> make(int k) {
    z5::DatasetMetadata m; m.dtype = z5::types::Datatypes::n5ToDtype().at(dtypeName<T>()); auto &o = m.compressionOptions; o["level"] = 5;
    switch (k) { case codec::BLOSC: o["codec"] = std::string("lz4"); o["shuffle"] = 1; o["blocksize"] = 0; return std::make_unique<zc::BloscCompressor<T>>(m); case codec::ZLIB: o["useZlib"] = true; return std::make_unique<zc::ZlibCompressor<T>>(m); case codec::GZIP: o["useZlib"] = false; return std::make_unique<zc::ZlibCompressor<T>>(m);
    case codec::BZ2: return std::make_unique<zc::Bzip2Compressor<T>>(m); case codec::LZ4: return std::make_unique<zc::Lz4Compressor<T>>(m); case codec::XZ: return std::make_unique<zc::XzCompressor<T>>(m); default: return std::make_unique<zc::ZstdCompressor<T>>(m); } }
template <class T> static bool dec(zc::CompressorBase<T> &c, const std::vector<char> &enc, std::vector<T> &out, size_t n, T guard) {
    out.assign(n + 1, T()); sx_poison(out.data(), n * sizeof(T)); out[n] = guard; bool threw = false; std::vector<char> keep = enc; codec::st().lastOut = -1; try { if (enc.size() & 1) c.decompress(enc, out.data(), n); else { char *p = new char[enc.size()]; memcpy(p, enc.data(), enc.size()); try { c.decompress(p, enc.size(), out.data(), n); } catch (...) { delete[] p; throw; } delete[] p; } } catch (std::exception &) { threw = true; }
    SX_CHECK(bits(out[n]) == bits(guard), "decoding writes exactly the caller's elements"); if (!threw) { SX_CHECK(codec::st().lastOut == (long)(n * sizeof(T)), "decoding returns normally only if the library produced all bytes of the chunk"); } return threw; }
template <class T> static void run() {
    int v = sx_param(0), k = sx_param(1); size_t n = sx_param(3); auto &st = codec::st(); auto c = make<T>(k); T guard = symT<T>("guard");
    SX_CHECK(c->type() != z5::types::raw, "a codec is not mistaken for raw storage");
    if (v == 0 || v == 1) {
        std::vector<T> in(n); for (auto &x : in) x = symT<T>("element"); auto keep = in; st.vary = true; st.failures = sx_param(4); std::vector<char> enc(sx_choose("reused buffer", 3) * 700, 'q'); bool threw = false;
        if (v == 1) { st.failures = 0; st.vary = false; }
        try { c->compress(in.data(), enc, n); } catch (std::exception &) { threw = true; }
        int ok = 1; for (size_t i = 0; i < n; i++) ok = sx_and(ok, bits(in[i]) == bits(keep[i])); SX_CHECK(ok, "compressing does not modify the caller's elements");
        if (threw) { SX_CHECK(st.failed > 0, "compressing a chunk fails only if the library does"); sx_cover("failed"); return; } SX_CHECK(st.failed == 0, "an error of the library is reported");
        codec::Blob *b = st.head; SX_CHECK(b && b->kind == k && b->dec.size() == n * sizeof(T), "the library was handed all bytes of the chunk, in the configured encoding"); ok = 1; for (size_t i = 0; i < n; i++) for (size_t j = 0; j < sizeof(T); j++) ok = sx_and(ok, (uint8_t)b->dec[i * sizeof(T) + j] == (uint8_t)(bits(keep[i]) >> (8 * j))); SX_CHECK(ok, "the library was handed the chunk's bytes");
        SX_CHECK(enc == b->enc, "exactly the bytes the library produced are kept");
        if (v == 0) { std::vector<T> out; bool t = dec(*c, enc, out, n, guard); if (t) { SX_CHECK(st.failed > 0, "decoding intact data fails only if the library does"); sx_cover("failed"); return; } ok = 1; for (size_t i = 0; i < n; i++) ok = sx_and(ok, bits(out[i]) == bits(keep[i])); SX_CHECK(ok, "decoding returns the original elements"); for (auto x : out) sx_observe(bits(x)); sx_cover("roundtrip"); return; }
        std::vector<T> out; st.arbitrary = true; int w = sx_choose("damage", 5); if (w == 0) { std::vector<char> t(enc.begin(), enc.begin() + sx_choose("kept bytes", enc.size())); SX_CHECK(dec(*c, t, out, n, guard), "truncated or empty data is refused"); sx_cover("truncated"); }
        else if (w == 1) { std::vector<char> t(sx_choose("length", 20)); sx_bytes(t.data(), t.size(), "stored"); bool th = dec(*c, t, out, n, guard); if (t.empty()) SX_CHECK(th, "truncated or empty data is refused"); sx_cover(th ? "refused" : "accepted"); }
        else { size_t n2 = w == 2 ? n + 1 : w == 3 ? n - 1 : n + 7; if (!n2) return; SX_CHECK(dec(*c, enc, out, n2, guard), "data that decodes to another size than the chunk's is refused"); sx_cover("size"); }
        return; }
    st.sizes = true; st.failures = sx_param(4); size_t sz = sizeof(T); uint64_t cnt = sx_sym("elements", 64, 1, (1ull << 60) - 1); static char buf[64]; bool threw = false, bad = false;
    if (v == 2) { st.trueIn = sx_sym("stored bytes", 64, 0, (1ull << 62)); st.trueOut = cnt * sz; st.checkOut = true; st.inBase = buf; st.outBase = buf + 32;
        try { c->decompress(buf, st.trueIn, (T *)(buf + 32), cnt); } catch (std::bad_alloc &) { threw = bad = true; } catch (std::exception &) { threw = true; }
        if (!threw) { SX_CHECK(st.gotIn == st.trueIn, "all stored bytes were handed to the library"); SX_CHECK(st.gotOut == st.trueOut, "decoding returns normally only if the library produced all bytes of the chunk"); sx_cover("done"); } else sx_cover("refused"); }
    else { st.trueIn = cnt * sz; st.inBase = buf; std::vector<char> enc; sx_alloc_limit(1 << 20);
        try { c->compress((const T *)buf, enc, cnt); } catch (std::bad_alloc &) { threw = bad = true; } catch (std::length_error &) { threw = bad = true; } catch (std::exception &) { threw = true; }
        if (!threw) { SX_CHECK(st.gotIn == st.trueIn, "the library was handed all bytes of the chunk, in the configured encoding"); SX_CHECK(enc.size() == st.gotOut, "exactly the bytes the library produced are kept"); sx_cover("done"); } else sx_cover("refused"); }
}
extern "C" void sx_main() { switch (sx_param(2)) { case 0: run<uint8_t>(); break; case 1: run<uint16_t>(); break; case 2: run<int32_t>(); break; case 3: run<uint64_t>(); break; case 4: run<float>(); break; case 5: run<double>(); break; } }
