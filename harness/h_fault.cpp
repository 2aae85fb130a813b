// Storage faults: whatever an operation that returns normally has delivered is what it delivers without faults.
// params: 0 operation, 1 format, 2 shape config, 3 dtype, 4 faults, 5 which operations of the store may fail (mask of sxfs::Op), 6 stored chunks (mask)
#include "io.h"
#include "z5/attributes.hxx"
using namespace io; using nlohmann::json;
typedef std::vector<uint64_t> R;
static void restore(const sxfs::Snap &s) { sxfs::fs().head = nullptr; for (size_t i = s.names.size(); i-- > 0;) { sxfs::Node *n = sxfs::add(s.names[i], s.dirs[i]); n->data = s.data[i]; } }
template <class F> static void faulty(F op, const char *what) {
    auto s0 = sxfs::snap(); R r0 = op(); auto s1 = sxfs::snap(); restore(s0);
    sxfs::allowFaults(sx_param(5), sx_param(4)); bool threw = false; R r1; try { r1 = op(); } catch (std::exception &) { threw = true; } int n = sxfs::fs().nFaults; sxfs::noFaults();
    if (threw) { SX_CHECK(n > 0, "an operation fails only if storage failed"); sx_cover("reported"); return; }
    SX_CHECK(sxfs::same(s1), "an operation that returns normally has delivered all its bytes to storage"); int ok = r0.size() == r1.size(); for (size_t i = 0; i < r0.size() && i < r1.size(); i++) ok = sx_and(ok, r0[i] == r1[i]); SX_CHECK(ok, what); sx_cover(n ? "harmless" : "intact"); }
template <class T> static void run() {
    int op = sx_param(0), fmt = sx_param(1); Cfg c = cfg(sx_param(2)); T fill = T(fmt == N5 ? 0 : 7); z5::filesystem::handle::File f{std::filesystem::path(ROOT)}; int zf = fmt == ZARR3 || fmt == SHARD || fmt == ZARR3V2 ? 3 : 2;
    if (op == 10) { z5::createFile(f, zarr(fmt), zf); std::string delim = fmt == ZARR2 || fmt == ZARR3V2 ? "." : "/"; faulty([&] { auto d = z5::createDataset(f, "ds", std::string(dtypeName<T>()), c.shape, c.chunk, std::string("raw"), z5::types::CompressionOptions(), (double)fill, delim, zf, std::string(fmt == ZARR3V2 ? "v2" : "default"), sharded(fmt) ? c.shard : V()); return R{d->shape(0), d->defaultChunkSize()}; }, "a dataset created normally is complete"); return; }
    if (op == 11) { faulty([&] { z5::createFile(f, zarr(fmt), zf); z5::createGroup(f, "g", zf); return R(); }, ""); return; }
    auto ds = create<T>(fmt, c, (double)fill); Model<T> m(c, fmt, fill); m.arbitrary(true, true, sx_param(6), true); m.install(); V id(c.shape.size(), 0), off(c.shape.size(), 0), ext = c.shape;
    z5::filesystem::handle::Dataset h(f, "ds", fmt == ZARR2 || fmt == ZARR3V2 ? "." : "/", zf, fmt == ZARR3V2 ? "v2" : "default"); std::vector<T> in(prod(ext)), ch(prod(c.chunk));
    for (auto &x : in) x = symT<T>("new"); for (auto &x : ch) x = symT<T>("new"); T sc = symT<T>("scalar"); auto bitsOf = [](const std::vector<T> &v) { R r; for (auto x : v) r.push_back(bits(x)); return r; };
    const char *rd = "an operation that returns normally has read what is stored";
    switch (op) {
    case 0: faulty([&] { return bitsOf(readAll<T>(*ds, off, ext)); }, rd); break;
    case 1: sx_assume(!(in[0] == fill)); off.back() = c.shape.back() > 1; ext.back() -= off.back(); in.resize(prod(ext)); for (auto &x : in) sx_assume(!(x == fill)); faulty([&] { z5::multiarray::writeSubarray<T>(*ds, z5::multiarray::ConstArrayView<T>(z5::multiarray::makeView((const T *)in.data(), ext)), off.begin()); return R(); }, ""); break;
    case 2: off.back() = c.shape.back() > 1; ext.back() -= off.back(); if (sx_choose("fill", 2)) sc = fill; else sx_assume(!(sc == fill)); faulty([&] { z5::multiarray::writeScalar<T>(*ds, off.begin(), ext.begin(), sc); return R(); }, ""); break;
    case 3: faulty([&] { std::vector<T> b(prod(c.chunk)); bool there = ds->readChunk(id, b.data()); R r = there ? bitsOf(b) : R(); r.push_back(there); return r; }, rd); break;
    case 4: for (auto &x : ch) sx_assume(!(x == fill)); faulty([&] { ds->writeChunk(id, ch.data()); return R(); }, ""); break;
    case 5: faulty([&] { ds->removeChunk(id); return R(); }, ""); break;
    case 6: faulty([&] { R r; r.push_back(ds->chunkExists(id)); r.push_back(ds->getChunkSize(id)); V s; ds->getChunkShape(id, s); for (auto x : s) r.push_back(x); if (fmt == N5 && (sx_param(6) & 1)) { std::size_t n = 0; r.push_back(ds->checkVarlenChunk(id, n)); V t; ds->getChunkShape(id, t, true); for (auto x : t) r.push_back(x); } return r; }, rd); break;
    case 7: faulty([&] { auto d = z5::openDataset(f, "ds"); R r{d->shape(0), d->defaultChunkSize(), (uint64_t)d->getDtype(), (uint64_t)d->isZarr(), (uint64_t)d->isSharded()}; T fv; d->getFillValue(&fv); r.push_back(bits(fv)); return r; }, rd); break;
    case 8: { json a; a["x"] = 1; a["name"] = "value"; z5::writeAttributes(h, a); json b; b["y"] = {1, 2, 3}; int w = sx_choose("attribute operation", 5); z5::filesystem::handle::Group g(f, "g"); if (w > 2) { z5::createGroup(f, "g", zf); z5::writeAttributes(g, a); }
        faulty([&] { R r; json o; switch (w) { case 0: z5::writeAttributes(h, b); break; case 1: z5::removeAttribute(h, "x"); break; case 2: z5::readAttributes(h, o); break; case 3: z5::writeAttributes(g, b); break; default: z5::readAttributes(g, o); } for (char k : o.dump()) r.push_back((unsigned char)k); return r; }, rd); break; }
    case 9: faulty([&] { h.remove(); return R(); }, ""); break;
    case 12: { z5::createGroup(f, "g", zf); faulty([&] { R r{(uint64_t)z5::isSubGroup(f, "g"), (uint64_t)z5::isSubGroup(f, "ds"), (uint64_t)f.isZarr(), (uint64_t)h.isZarr(), (uint64_t)f.in("ds")}; std::vector<std::string> k; f.keys(k); r.push_back(k.size()); z5::DatasetMetadata md; z5::filesystem::readMetadata(h, md); r.push_back(md.shape[0]); return r; }, rd); break; }
    case 13: { if (fmt != N5) return; for (auto &x : ch) sx_assume(!(x == fill)); faulty([&] { ds->writeChunk(id, ch.data(), true, 1); return R(); }, ""); break; } }
}
extern "C" void sx_main() { switch (sx_param(3)) { case 0: run<uint8_t>(); break; case 1: run<uint16_t>(); break; case 2: run<int32_t>(); break; case 4: run<float>(); break; default: run<double>(); } }
