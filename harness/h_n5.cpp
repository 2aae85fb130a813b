// N5 chunk header and payload encoding, called directly so that the header extents can be any 32-bit value.
// params: 0 variant (0 header written and read, 1 payload, 2 extents that do not fit), 1 number of axes, 2 variable-length, 3 dtype, 4 elements
#include "io.h"
#include "z5/util/format_data.hxx"
using namespace io; using namespace z5::util; typedef std::vector<char> B;
static void header(size_t nd, bool vl) {
    V s(nd); for (auto &x : s) x = sx_sym("extent", 64, 0, 0xffffffffull); uint32_t len = (uint32_t)sx_sym("count", 32, 0, ~0ull); B b(sx_choose("reused buffer", 3) * 7, 'q'); write_n5_header(b, s, vl, len);
    size_t h = 4 + 4 * nd + (vl ? 4 : 0); SX_CHECK(b.size() == h, "header length"); SX_CHECK(getBE<uint16_t>(b.data()) == (vl ? 1 : 0), "mode"); SX_CHECK(getBE<uint16_t>(b.data() + 2) == nd, "number of axes");
    for (size_t d = 0; d < nd; d++) SX_CHECK(getBE<uint32_t>(b.data() + 4 + 4 * d) == s[nd - 1 - d], "extents big-endian in reversed axis order"); if (vl) SX_CHECK(getBE<uint32_t>(b.data() + h - 4) == len, "element count of a variable-length chunk");
    uint64_t n = 1; for (auto x : s) n *= x; for (int extra = 0; extra < 2; extra++) { if (extra) b.resize(h + 3, 'x'); size_t q = 1, hl = 1; V r(sx_choose("reused shape", 2) * 5, 9); bool v = extra ? read_n5_header(b, q, hl, &r) : read_n5_header(b, q, hl); SX_CHECK(v == vl && hl == h, "mode and header length come back"); SX_CHECK(q == (vl ? (uint64_t)len : n), "number of elements comes back"); if (extra) { SX_CHECK(r.size() == nd, "number of axes comes back"); for (size_t d = 0; d < nd; d++) SX_CHECK(r[d] == s[d], "extents come back"); } }
    for (size_t cut = 0; cut < h; cut++) { B c(b.begin(), b.begin() + cut); size_t q, hl; bool threw = false; try { read_n5_header(c, q, hl); } catch (std::exception &) { threw = true; } SX_CHECK(threw, "a truncated header is refused"); }
    sx_cover("header"); }
struct Raw { int type() const { return 0; } template <class T> void compress(const T *, B &, size_t) const {} template <class T> void decompress(const char *, size_t, T *, size_t) const {} };
template <class T> static void payload(size_t nd, bool vl, size_t n) {
    V s(nd, 1); s[0] = n; std::vector<T> in(n), keep; for (auto &x : in) x = symT<T>("element"); keep = in; B b(5, 'q'); Raw r; data_to_n5_format<T>(in.data(), n, s, b, &r, vl); size_t h = 4 + 4 * nd + (vl ? 4 : 0);
    SX_CHECK(b.size() == h + n * sizeof(T), "header and elements"); int ok = 1, same_ = 1; for (size_t i = 0; i < n; i++) { ok = sx_and(ok, bits(getBE<T>(b.data() + h + i * sizeof(T))) == bits(keep[i])); same_ = sx_and(same_, bits(in[i]) == bits(keep[i])); } SX_CHECK(ok, "elements are stored big-endian, bit for bit"); SX_CHECK(same_, "the caller's elements are not changed");
    for (auto &x : in) reverseEndiannessInplace(x); for (size_t i = 0; i < n; i++) { ok = sx_and(ok, bits(in[i]) == __builtin_bswap64(bits(keep[i])) >> (64 - 8 * sizeof(T))); } SX_CHECK(ok, "byte reversal of one element"); sx_cover("payload"); }
static void wide(size_t nd, bool vl) {
    V s(nd, 3); size_t k = sx_choose("axis", nd + vl), len = 1; (k < nd ? s[k] : len) = sx_sym("extent", 64, 1ull << 32, ~0ull); B b; bool threw = false; try { write_n5_header(b, s, vl, len); } catch (std::exception &) { threw = true; } SX_CHECK(threw, "an extent the header cannot hold is refused"); sx_cover("wide"); }
template <class T> static void go() { payload<T>(sx_param(1), sx_param(2), sx_param(4)); }
extern "C" void sx_main() {
    if (sx_param(0) == 0) { header(sx_param(1), sx_param(2)); return; } if (sx_param(0) == 2) { wide(sx_param(1), sx_param(2)); return; }
    switch (sx_param(3)) { case 0: go<uint8_t>(); break; case 1: go<uint16_t>(); break; case 2: go<int32_t>(); break; case 3: go<uint64_t>(); break; case 4: go<float>(); break; case 5: go<double>(); break; case 6: go<int8_t>(); break; case 7: go<int16_t>(); break; case 8: go<uint32_t>(); break; case 9: go<int64_t>(); break; } }
