// Strided copies: copyView, fillView, subview on arbitrary layouts.
// params: 0 op (0 copy, 1 fill, 2 subview of subview, 3 far strides), 1 ndim, 2 dtype, 3 max extent
#include "sx.h"
#include "z5/multiarray/array_view.hxx"
#include "z5/multiarray/array_util.hxx"
#include <vector>
#include <cstring>
#ifndef SX_ENGINE
#include <sys/mman.h>
#endif
using namespace z5::multiarray;
typedef z5::types::ShapeType V;
template <class T> static T symT(const char *n) { uint64_t b = sx_sym(n, 8 * sizeof(T), 0, ~0ull); T v; memcpy(&v, &b, sizeof(T)); return v; }
template <class T> static int same(T a, T b) { uint64_t x = 0, y = 0; memcpy(&x, &a, sizeof(T)); memcpy(&y, &b, sizeof(T)); return x == y; }
struct Lay { V strides; size_t total, base; };
// a layout for the shape: axis order, step of the fastest axis and gaps between runs are chosen; total = elements of the backing buffer
static Lay layout(const V &sh) {
    size_t n = sh.size(); Lay l; l.strides.assign(n, 0); size_t kind = sx_choose("layout", 6); l.base = kind == 0 ? 0 : kind; size_t acc = (kind == 1 || kind == 3) ? 2 : 1; bool fortran = kind == 2 || kind == 3, swap = kind == 5 && n >= 2; size_t gap = kind == 4 ? 2 : kind == 5 ? 1 : 0;
    std::vector<size_t> ord; for (size_t d = 0; d < n; d++) ord.push_back(fortran ? d : n - 1 - d); if (swap) std::swap(ord[0], ord[1]);
    for (size_t k = 0; k < n; k++) { l.strides[ord[k]] = acc; acc = acc * (sh[ord[k]] ? sh[ord[k]] : 1) + gap; }
    l.total = l.base + acc + 1; return l; }
static size_t prod(const V &s) { size_t p = 1; for (auto x : s) p *= x; return p; }
template <class F> static void each(const V &sh, F f) { if (!prod(sh)) return; V c(sh.size(), 0); for (;;) { f((const V &)c); int d = (int)sh.size() - 1; for (; d >= 0; --d) { if (++c[d] < sh[d]) break; c[d] = 0; } if (d < 0) return; } }
static size_t at(const V &c, const V &st) { size_t r = 0; for (size_t d = 0; d < c.size(); d++) r += c[d] * st[d]; return r; }
static V shape(size_t n, size_t mx, size_t lo) { V s; for (size_t d = 0; d < n; d++) s.push_back(lo + sx_choose("extent", mx + 1 - lo)); return s; }
template <class T> static std::vector<T> filled(size_t n, const char *nm) { std::vector<T> v(n); for (auto &x : v) x = symT<T>(nm); return v; }
template <class T> static void checkAll(const std::vector<T> &a, const std::vector<T> &want, const char *msg) { int ok = 1; for (size_t i = 0; i < a.size(); i++) ok = sx_and(ok, same(a[i], want[i])); SX_CHECK(ok, msg); }
template <class T> static void run() {
    int op = sx_param(0); size_t n = sx_param(1), mx = sx_param(3);
    if (op == 0 || op == 1) {
        V sh = shape(n, mx, 0); Lay d = layout(sh); auto dst = filled<T>(d.total, "dst"); auto want = dst; ArrayView<T> dv(dst.data() + d.base, sh, d.strides);
        if (op == 0) { Lay s = layout(sh); auto src = filled<T>(s.total, "src"); auto keep = src;
            each(sh, [&](const V &c) { want[d.base + at(c, d.strides)] = src[s.base + at(c, s.strides)]; });
            if (sx_choose("overload", 2)) copyView(ConstArrayView<T>(src.data() + s.base, sh, s.strides), dv); else copyView(ArrayView<T>(src.data() + s.base, sh, s.strides), dv);
            checkAll(dst, want, "copying moves each element to the same coordinate and nothing else"); checkAll(src, keep, "copying leaves the source unchanged"); sx_cover("copy");
        } else { T v = symT<T>("value"); each(sh, [&](const V &c) { want[d.base + at(c, d.strides)] = v; }); fillView(dv, v); checkAll(dst, want, "filling sets every addressed element and nothing else"); sx_cover("fill"); }
    } else if (op == 2) {
        V sh = shape(n, mx, 1); Lay l = layout(sh); auto buf = filled<T>(l.total, "old"); auto want = buf; V off, ext, off2, ext2;
        for (size_t d = 0; d < n; d++) { off.push_back(sx_choose("off", sh[d])); ext.push_back(1 + sx_choose("ext", sh[d] - off[d])); }
        for (size_t d = 0; d < n; d++) { off2.push_back(ext[d] - 1); ext2.push_back(1); }
        ArrayView<T> v(buf.data() + l.base, sh, l.strides); ConstArrayView<T> cv(v); T val = symT<T>("value");
        auto sv = subview(v, off, ext); auto scv = subview(cv, off, ext); SX_CHECK(sv.shape == ext && scv.shape == ext && sv.ndim() == n && sv.size() == prod(ext), "a sub-view has the requested shape");
        each(ext, [&](const V &c) { V g = c; for (size_t d = 0; d < n; d++) g[d] += off[d]; want[l.base + at(g, l.strides)] = val; SX_CHECK(&sv.data[at(c, sv.strides)] == &buf[l.base + at(g, l.strides)] && &scv.data[at(c, scv.strides)] == &buf[l.base + at(g, l.strides)], "a sub-view addresses the parent's elements at the shifted coordinates"); });
        auto s2 = subview(sv, off2, ext2); V last = off; for (size_t d = 0; d < n; d++) last[d] += off2[d]; SX_CHECK(s2.data == &buf[l.base + at(last, l.strides)], "a sub-view of a sub-view adds the offsets");
        fillView(sv, val); checkAll(buf, want, "filling a sub-view sets exactly its elements");
        V cs = cOrderStrides(sh); size_t acc = 1; for (size_t d = n; d-- > 0;) { SX_CHECK(cs[d] == acc, "row-major strides are the products of the inner extents"); acc *= sh[d]; }
        auto mv = makeView(buf.data(), sh); SX_CHECK(mv.data == buf.data() && mv.shape == sh && mv.strides == cs, "a contiguous view covers the buffer in row-major order"); sx_cover("subview");
    } else {
        // the outer axis steps over more than 2^32 elements: two buffers far apart form one view
#ifdef SX_ENGINE
        T *a = new T[4]; for (int i = 0; i < 130; i++) new char[1]; T *b = new T[4]; T *c = new T[4]; for (int i = 0; i < 150; i++) new char[1]; T *e = new T[4];
#else
        auto far = [](uint64_t p) { return (T *)mmap((void *)p, 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0); };
        T *a = far(0x200000000000), *b = far(0x208000000000), *c = far(0x210000000000), *e = far(0x219000000000);
        if (a == MAP_FAILED || b == MAP_FAILED || c == MAP_FAILED || e == MAP_FAILED) { sx_cover("far"); return; }
#endif
        T vals[8]; for (int i = 0; i < 4; i++) { a[i] = symT<T>("a"); b[i] = symT<T>("b"); c[i] = symT<T>("c"); e[i] = symT<T>("e"); } T a0[4], b0[4], c0[4], e0[4]; memcpy(a0, a, sizeof a0); memcpy(b0, b, sizeof b0); memcpy(c0, c, sizeof c0); memcpy(e0, e, sizeof e0);
        size_t s1 = (size_t)(b - a), s2 = (size_t)(e - c); size_t st = 1 + sx_choose("step", 2); size_t mode = sx_choose("mode", 4); V sh = n == 1 ? V{2} : n == 2 ? V{2, 2} : V{1, 2, 2};
        V ss = n == 1 ? V{s1} : n == 2 ? V{s1, st} : V{4 * s1, s1, st}, ds = n == 1 ? V{s2} : n == 2 ? V{s2, st} : V{4 * s2, s2, st}; ArrayView<T> src(a, sh, ss), dst(c, sh, ds); T val = symT<T>("v"); int ok = 1; auto hit = [&](size_t k) { return k == 0 || (n > 1 && k == st); };
        if (mode == 0) { copyView(src, dst); for (size_t k = 0; k < 4; k++) ok = sx_and(ok, sx_and(same(c[k], hit(k) ? a0[k] : c0[k]), same(e[k], hit(k) ? b0[k] : e0[k]))); }
        else if (mode == 1) { fillView(dst, val); for (size_t k = 0; k < 4; k++) ok = sx_and(ok, sx_and(same(c[k], hit(k) ? val : c0[k]), same(e[k], hit(k) ? val : e0[k]))); }
        else { V o(n, 0), x(n, 1); o[n - 1 - (n > 1)] = 1; if (mode == 2) { auto v = subview(dst, o, x); fillView(v, val); } else { auto v = subview(ConstArrayView<T>(src), o, x); auto w = subview(dst, o, x); copyView(v, w); val = b0[0]; }
            for (size_t k = 0; k < 4; k++) ok = sx_and(ok, sx_and(same(c[k], c0[k]), same(e[k], k == 0 ? val : e0[k]))); }
        for (size_t k = 0; k < 4; k++) ok = sx_and(ok, sx_and(same(a[k], a0[k]), same(b[k], b0[k])));
        SX_CHECK(ok, "views whose strides exceed 32 bits address the right elements"); sx_cover("far"); }
}
extern "C" void sx_main() { switch (sx_param(2)) { case 0: run<uint8_t>(); break; case 1: run<uint16_t>(); break; case 2: run<int32_t>(); break; case 3: run<uint64_t>(); break; case 4: run<float>(); break; default: run<double>(); } }
