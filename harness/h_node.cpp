// Which kind of node is stored where: classification against the marker documents actually present.
// params: 0 mode, 1 format (0 zarr v2, 1 n5, 2 zarr v3), 2 (mode 1) node given attributes: 0 file, 1 group, 2 dataset, 3 dataset in a group, 4 none
// mode 0: arbitrary markers below a container; 1: what the library creates is recognised, with arbitrary user attributes; 2: opening datasets on arbitrary markers; 3: n5 attributes with arbitrary subset of keys
#include "io.h"
#include "z5/attributes.hxx"
using namespace io; using nlohmann::json; namespace fh = z5::filesystem::handle;
static bool yes(const char *n) { return sx_fork(sx_bool(n)); }
static const char *const V3ARR = R"({"zarr_format":3,"node_type":"array","shape":[5],"data_type":"int32","chunk_grid":{"name":"regular","configuration":{"chunk_shape":[2]}},"chunk_key_encoding":{"name":"default","configuration":{"separator":"/"}},"fill_value":0,"codecs":[{"name":"bytes","configuration":{"endian":"little"}}],"attributes":{}})";
static const char *const V2ARR = R"({"zarr_format":2,"shape":[5],"chunks":[2],"dtype":"<i4","compressor":null,"fill_value":0,"order":"C","filters":null})";
template <class F> static bool throws(F f) { try { f(); } catch (std::exception &) { return true; } return false; }
// a user key: any printable character that needs no escape, and a digit
static std::string userKey() { std::string k; k.push_back((char)sx_sym("character of a key", 8, (uint64_t)(unsigned char)32, 126)); sx_assume(sx_and(k[0] != 34, k[0] != 92)); k += "5"; return k; }
static json userValue() { switch (sx_choose("value", 5)) { case 0: return json(true); case 1: return json("group"); case 2: return json({{"node_type", "array"}, {"n5", 1}}); case 3: return json::array({1, 2}); default: return json((int64_t)sx_sym("number", 8, 0, 9)); } }
static void markers() {
    int fmt = sx_param(1); std::string root = "/c", k = "/c/node/"; bool z = fmt != 1;
    if (fmt == 0) sxfs::put(root + "/.zgroup", std::string("{\"zarr_format\":2}")); else if (fmt == 2) sxfs::put(root + "/zarr.json", std::string("{\"zarr_format\":3,\"node_type\":\"group\",\"attributes\":{}}")); else sxfs::put(root + "/attributes.json", std::string("{\"n5\":\"2.0.0\"}"));
    bool there = yes("directory"), za = false, zg = false, na = false; int v3 = 0, file = 0;
    if (there) { sxfs::mkdirs("/c/node"); za = yes(".zarray"); zg = yes(".zgroup"); v3 = sx_choose("zarr.json", 4); na = !z && yes("attributes.json"); if (yes(".zattrs")) sxfs::put(k + ".zattrs", std::string("{\"node_type\":\"array\"}")); if (yes("chunk")) sxfs::put(k + "0", std::string("xy"));
        if (za) sxfs::put(k + ".zarray", std::string(V2ARR)); if (zg) sxfs::put(k + ".zgroup", std::string("{\"zarr_format\":2}")); if (v3) sxfs::put(k + "zarr.json", std::string(v3 == 1 ? V3ARR : v3 == 2 ? "{\"zarr_format\":3,\"node_type\":\"group\"}" : "{\"zarr_format\":3,\"node_type\":\"group\",\"attributes\":{\"node_type\":\"array\",\"shape\":[5]}}"));
        if (na) sxfs::put(k + "attributes.json", std::string("{\"a\":1}")); }
    else if (yes("a file of that name")) { file = 1; sxfs::put("/c/node", std::string("text")); }
    fh::File f{std::filesystem::path(root)}; SX_CHECK(f.exists() && f.isZarr() == z, "the container is recognised");
    fh::Group g(f, "node"); fh::Dataset d(f, "node"); SX_CHECK(f.in("node") == there, "a child is listed exactly if its directory exists"); std::vector<std::string> keys; f.keys(keys); SX_CHECK(keys.size() == (there ? 1u : 0u) && (!there || keys[0] == "node"), "the listing holds exactly the children");
    if (!there) { if (!file) { SX_CHECK(!z5::isSubGroup(f, "node"), "a missing node is not a group"); SX_CHECK(throws([&] { d.isZarr(); }), "the format of a missing dataset is refused"); SX_CHECK(throws([&] { g.isZarr(); }), "the format of a missing group is refused"); SX_CHECK(!d.exists() && !g.exists(), "a missing node is reported missing"); } SX_CHECK(throws([&] { z5::openDataset(f, "node"); }), "opening a missing dataset is refused"); sx_cover("missing"); return; }
    SX_CHECK(d.exists() && g.exists(), "an existing node is reported"); SX_CHECK(g.isZarr() == (zg || v3), "a group is zarr exactly if it holds a group document of zarr"); SX_CHECK(d.isZarr() == (za || v3), "a dataset is zarr exactly if it holds a dataset document of zarr");
    bool sub = z5::isSubGroup(f, "node"); if (z) SX_CHECK(sub == (v3 ? v3 > 1 : zg), "a zarr node is a group exactly if a group is stored"); else SX_CHECK(sub, "an n5 node without dataset attributes is a group");
    bool isDs = v3 ? v3 == 1 : za; if (!na || !(za || v3)) { bool opened = !throws([&] { auto p = z5::openDataset(f, "node"); SX_CHECK(p->shape(0) == 5 && p->isZarr(), "the dataset stored is the one opened"); }); SX_CHECK(opened == isDs, "a dataset is opened exactly if one is stored"); sx_cover(opened ? "opened" : "refused"); } else { SX_CHECK(throws([&] { z5::openDataset(f, "node"); }), "a node with documents of two formats is refused"); sx_cover("mixed"); } }
static void created() {
    int fmt = sx_param(1), zf = fmt == 2 ? 3 : 2; bool z = fmt != 1; fh::File f{std::filesystem::path("/c")}; z5::createFile(f, z, zf); z5::createGroup(f, "g", zf); fh::Group g(f, "g");
    z5::createDataset(f, "ds", "int32", V{5}, V{2}, std::string("raw"), z5::types::CompressionOptions(), 0., ".", zf); z5::createDataset(g, "ds", "uint8", V{5, 3}, V{2, 2}, std::string("raw"), z5::types::CompressionOptions(), 0., "/", zf);
    fh::Dataset d(f, "ds", ".", zf), d2(g, "ds", "/", zf); std::string k = userKey(); int w = sx_param(2); json j; static const char *const pool[] = {"", "dimensions", "node_type", "zarr_format", "shape", "attributes", "dataType", "chunks"}; int nk = sx_choose("key", 9); if (nk < 8) { k = pool[nk]; if (k.empty()) k = "compression"; } j[k] = userValue();
    bool refused = false; try { switch (w) { case 0: z5::writeAttributes(f, j); break; case 1: z5::writeAttributes(g, j); break; case 2: z5::writeAttributes(d, j); break; case 3: z5::writeAttributes(d2, j); break; } } catch (std::exception &) { refused = true; SX_CHECK(!z && ((w > 1 && w < 4 && nk < 8) || (w == 0 && k == "n5")), "user attributes are accepted"); }
    fh::File f2{std::filesystem::path("/c")}; SX_CHECK(f2.exists() && f2.isZarr() == z, "the container is recognised"); fh::Group g2(f2, "g"); SX_CHECK(z ? g2.isZarr() : !g2.isZarr(), "the format of a group is recognised");
    SX_CHECK(z5::isSubGroup(f2, "g"), "a group created is a group"); SX_CHECK(!z5::isSubGroup(f2, "ds") && !z5::isSubGroup(g2, "ds") && !z5::isSubGroup(f2, "g/ds"), "a dataset created is not a group");
    SX_CHECK(!z5::isSubGroup(f2, "nothing") && !z5::isSubGroup(g2, "g"), "a missing node is no group"); SX_CHECK(f2.in("ds") && g2.in("ds") && !g2.in("g") && !f2.in("d"), "children are found by name");
    auto p = z5::openDataset(f2, "ds"); SX_CHECK(p->shape(0) == 5 && p->dimension() == 1 && p->isZarr() == z && p->getDtype() == z5::types::int32, "the dataset created is the one opened"); auto q = z5::openDataset(g2, "ds"); SX_CHECK(q->shape(1) == 3 && q->dimension() == 2 && q->isZarr() == z, "the dataset in a group is the one opened");
    SX_CHECK(throws([&] { z5::openDataset(f2, "g"); }) && throws([&] { z5::openDataset(g2, "nothing"); }), "only a dataset is opened as a dataset"); std::vector<std::string> ks; f2.keys(ks); SX_CHECK(ks.size() == 2, "the listing holds exactly the children"); sx_cover(refused ? "refused" : "recognised"); }
static void n5keys() {
    static const char *const names[] = {"dimensions", "blockSize", "dataType", "compression", "compressionType", "n5", "dimension", "other"}; static const char *const vals[] = {"[5]", "[2]", "\"int32\"", "{\"type\":\"raw\"}", "\"raw\"", "\"2.0.0\"", "[5]", "{\"dimensions\":1}"};
    sxfs::put("/c/attributes.json", std::string("{\"n5\":\"2.0.0\"}")); std::string s = "{"; bool has[8]; for (int i = 0; i < 8; i++) { has[i] = yes(names[i]); if (has[i]) { if (s.size() > 1) s += ","; s += std::string("\"") + names[i] + "\":" + vals[i]; } } s += "}"; sxfs::put("/c/node/attributes.json", s);
    fh::File f{std::filesystem::path("/c")}; bool ds = has[0] && has[1] && has[2] && (has[3] || has[4]); SX_CHECK(z5::isSubGroup(f, "node") == !ds, "an n5 node is a dataset exactly if its attributes hold shape, block size, type and compression");
    bool opened = !throws([&] { auto p = z5::openDataset(f, "node"); SX_CHECK(p->shape(0) == 5 && !p->isZarr(), "the dataset stored is the one opened"); }); SX_CHECK(opened == ds, "a dataset is opened exactly if one is stored"); sx_cover(opened ? "opened" : "refused"); }
extern "C" void sx_main() { switch (sx_param(0)) { case 0: markers(); break; case 1: created(); break; default: n5keys(); } }
