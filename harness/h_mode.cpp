// File modes: every mode, target present or absent, every mutating operation, against the table the modes document.
// params: 0 operation, 1 format (0 zarr v2, 1 n5, 2 zarr v3, 3 zarr v3 sharded, 4 zarr v2 with '/'), 2 two threads (operation 8)
#include "io.h"
#include "z5/attributes.hxx"
#include "z5/util/functions.hxx"
using namespace io; using nlohmann::json; namespace fh = z5::filesystem::handle; using z5::FileMode;
static bool yes(const char *n) { return sx_fork(sx_bool(n)); }
extern "C" void sx_main() {
    int op = sx_param(0), fmt = sx_param(1), zf = fmt == 2 || fmt == 3 ? 3 : 2; bool z = fmt != 1; std::string delim = fmt == 0 ? "." : "/";
    uint64_t mv = sx_sym("mode", 8, 0, 255); sx_assume(sx_or(sx_or(mv == FileMode::r, mv == FileMode::r_p), sx_or(sx_or(mv == FileMode::w, mv == FileMode::w_m), mv == FileMode::a))); FileMode mode((FileMode::modes)mv);
    int ro = mv == FileMode::r, create = sx_or(sx_or(mv == FileMode::w, mv == FileMode::w_m), mv == FileMode::a);
    if (op == 0) { SX_CHECK(mode.canWrite() != (bool)ro, "every mode but r may write"); SX_CHECK(mode.canCreate() == (bool)create, "w, w- and a may create a container"); SX_CHECK(mode.mustNotExist() == (mv == FileMode::w_m), "w- alone refuses an existing container"); SX_CHECK(mode.shouldTruncate() == (mv == FileMode::w), "w alone replaces an existing container"); std::string n = mode.printMode(); SX_CHECK(n == (mv == FileMode::r ? "r" : mv == FileMode::r_p ? "r+" : mv == FileMode::w ? "w" : mv == FileMode::w_m ? "w-" : "a"), "the name of the mode"); SX_CHECK((uint64_t)mode.mode() == mv, "the mode is kept"); sx_cover("done"); return; }
    fh::File mk{std::filesystem::path("/c")}, f{std::filesystem::path("/c"), mode}; bool there = op == 1 ? yes("container exists") : true; V sh{5, 3}, chs{2, 3}, id{1, 0};
    if (there) { z5::createFile(mk, z, zf); z5::createGroup(mk, "g", zf); auto d = z5::createDataset(mk, "d", "uint8", sh, chs, std::string("raw"), z5::types::CompressionOptions(), z ? 7. : 0., delim, zf, "default", fmt == 3 ? V{4, 3} : V()); std::vector<uint8_t> v(15, 9); for (auto &x : v) { x = symT<uint8_t>("old"); sx_assume(x != (z ? 7 : 0)); } z5::multiarray::writeSubarray<uint8_t>(*d, z5::multiarray::ConstArrayView<uint8_t>(z5::multiarray::makeView((const uint8_t *)v.data(), sh)), V{0, 0}.begin()); json j; j["a"] = 1; z5::writeAttributes(fh::Dataset(mk, "d"), j); z5::writeAttributes(fh::Group(mk, "g"), j); z5::writeAttributes(mk, j); }
    auto s0 = sxfs::snap(); bool threw = false; int may = !ro; bool hit = true; bool exists = true; std::string what; std::unique_ptr<z5::Dataset> ds; fh::Dataset h(f, "d", delim, zf); fh::Group g(f, "g");
    auto open = [&] { return z5::openDataset(f, "d"); }; std::vector<uint8_t> in(15); for (auto &x : in) { x = symT<uint8_t>("new"); sx_assume(x != (z ? 7 : 0)); } json j; j["b"] = 2; V off{0, 0};
    if (op >= 8) ds = open();       // every mode may open
    try { switch (op) {
        case 1: { int how = sx_choose("how", 3); may = how ? sx_and(create, !there) : 0; if (how == 0) { may = 1; bool e = f.exists(); SX_CHECK(e == there, "existence is reported in every mode"); hit = false; } else if (how == 1) f.create(); else z5::createFile(f, z, zf); break; }
        case 2: { exists = yes("target exists"); may = sx_and(!ro, !exists); std::string n = exists ? (yes("a dataset of that name") ? "d" : "g") : "new"; if (yes("through the handle")) fh::Group(f, n).create(); else z5::createGroup(f, n, zf); break; }
        case 3: { exists = yes("target exists"); may = sx_and(!ro, !exists); std::string n = exists ? (yes("a group of that name") ? "g" : "d") : "new"; if (yes("through the handle")) fh::Dataset(f, n).create(); else z5::createDataset(f, n, "uint8", sh, chs, std::string("raw"), z5::types::CompressionOptions(), 0., delim, zf, "default", fmt == 3 ? V{4, 3} : V()); break; }
        case 4: { int w = sx_choose("node", 3); if (w == 0) z5::writeAttributes(f, j); else if (w == 1) z5::writeAttributes(g, j); else z5::writeAttributes(h, j); break; }
        case 5: { int w = sx_choose("node", 3); std::string k = yes("attribute exists") ? "a" : "none"; hit = k == "a"; if (w == 0) z5::removeAttribute(f, k); else if (w == 1) z5::removeAttribute(g, k); else z5::removeAttribute(h, k); break; }
        case 6: { bool e = yes("target exists"); may = sx_and(!ro, e); int w = sx_choose("node", 3); if (w == 0) { if (e) f.remove(); else fh::File(std::filesystem::path("/none"), mode).remove(); } else if (w == 1) fh::Group(f, e ? "g" : "none").remove(); else fh::Dataset(f, e ? "d" : "none").remove(); break; }
        case 7: { // a chunk handle: removing deletes the file, creating makes the directories of a nested key
            fh::Chunk c(h, id, chs, sh); bool nested = delim == "/"; hit = false; if (yes("remove")) { hit = sxfs::has(c.path().string()); c.remove(); } else { if (nested && yes("missing")) { sxfs::drop(c.path().string()); sxfs::drop(c.path().parent_path().string()); s0 = sxfs::snap(); hit = !sxfs::has(c.path().parent_path().string()); } c.create(); } break; }
        case 8: z5::multiarray::writeSubarray<uint8_t>(*ds, z5::multiarray::ConstArrayView<uint8_t>(z5::multiarray::makeView((const uint8_t *)in.data(), sh)), off.begin(), sx_param(2) ? 2 : 1); hit = false; break;
        case 9: { V ext = yes("everything") ? sh : V{3, 2}; z5::multiarray::writeScalar<uint8_t>(*ds, off.begin(), ext.begin(), yes("fill value") ? (z ? 7 : 0) : in[0]); hit = false; break; }
        case 10: if (yes("the only chunk of its shard")) id = {2, 0}; if (z && yes("fill value")) in.assign(15, 7); ds->writeChunk(id, in.data(), fmt == 1 && yes("variable length"), 3); hit = false; break;
        case 11: if (yes("the only chunk of its shard")) id = {2, 0}; ds->removeChunk(id); hit = false; break;
        case 12: if (yes("multithreaded utility")) z5::util::removeDataset(*ds, 1); else ds->remove(); break;
        case 13: { bool v = yes("with a value"); z5::util::removeTrivialChunks<uint8_t>(*ds, 1, v, 9); hit = false; break; }
        case 14: { hit = false; may = 1; std::vector<uint8_t> o(15); z5::multiarray::readSubarray<uint8_t>(*ds, z5::multiarray::makeView(o.data(), sh), off.begin()); std::set<uint8_t> u; ds->chunkExists(id); std::vector<std::string> k; f.keys(k); json q; z5::readAttributes(h, q); SX_CHECK(q.contains("a") && k.size() == 2 && z5::isSubGroup(f, "g"), "reading works in every mode"); SX_CHECK(sxfs::same(s0), "reading changes nothing"); break; }
        case 15: { if (fmt != 3) return; hit = false; V sid{0, 0}; std::vector<std::vector<char>> b(2); if (!yes("empty")) b[0].assign(6, 1); ds->writeShardBlobs(sid, b); break; }
        case 16: { fh::Group n(g, "n"); fh::Dataset nd(n, "x", delim, zf); fh::Group mg(mk, "g"); z5::createGroup(mg, "n", zf); fh::Group mn(mg, "n"); z5::createDataset(mn, "x", "uint8", sh, chs, std::string("raw"), z5::types::CompressionOptions(), z ? 7. : 0., delim, zf); s0 = sxfs::snap();
            switch (sx_choose("what below a group", 8)) { case 0: z5::createGroup(n, "y", zf); break; case 1: z5::createDataset(n, "y", "uint8", sh, chs, std::string("raw"), z5::types::CompressionOptions(), 0., delim, zf); break; case 2: z5::writeAttributes(n, j); break; case 3: z5::writeAttributes(nd, j); break; case 4: n.remove(); break; case 5: nd.remove(); break; case 6: z5::openDataset(n, "x")->writeChunk(id, in.data()); break; default: z5::createGroup(g, "y", zf); } break; }
    } } catch (std::exception &) { threw = true; }
    if (may != 2) SX_CHECK(threw != (bool)may, "exactly the operations the mode documents are accepted");
    if (threw || ro) SX_CHECK(sxfs::same(s0), "a refused operation, and any through a read-only handle, changes nothing"); if (!threw && hit) SX_CHECK(!sxfs::same(s0), "an accepted operation takes effect"); sx_cover(threw ? "refused" : "accepted"); }
