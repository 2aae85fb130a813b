// User attributes: a model of what the user wrote against what the library reads back and stores, over histories of operations.
// params: 0 format (0 zarr v2, 1 n5, 2 zarr v3), 1 node (0 file, 1 group, 2 dataset, 3 handle of the whole dataset object opened), 2 operations, 3 which values (0 small set, 1 symbolic number), 4 first operation is this kind (0 write, 1 remove, 2 any), 5 which keys (0 special names, 1 any one character, 2 three names)
#include "io.h"
#include "z5/attributes.hxx"
using namespace io; using nlohmann::json; namespace fh = z5::filesystem::handle;
static const char *const RES[] = {"dimensions", "blockSize", "dataType", "compression", "compressionType"};
static int fmt, node; static const char *docName() { return fmt == 0 ? ".zattrs" : fmt == 1 ? "attributes.json" : "zarr.json"; }
static bool reserved(const std::string &k) { if (fmt != 1) return false; if (node == 0) return k == "n5"; if (node == 2) for (auto r : RES) if (k == r) return true; return false; }
static std::string nodePath() { return node == 0 ? "/c" : node == 1 ? "/c/g" : "/c/d"; }
static json doc() { auto *n = sxfs::get(nodePath() + "/" + docName()); if (!n) return json(); return json::parse(std::string(n->data.begin(), n->data.end())); }
static std::string someKey() { int kk = sx_param(5), k = kk == 1 ? 6 : sx_choose("key", kk == 2 ? 3 : 6); switch (k) { case 0: return "a"; case 1: return fmt == 1 ? RES[sx_choose("reserved", 5)] : "shape"; case 2: return fmt == 1 ? "n5" : "zarr_format"; case 3: return "attributes"; case 4: return "node_type"; default: { if (kk != 1) return ""; std::string s; s.push_back((char)sx_sym("character of a key", 8, 32, 126)); sx_assume(sx_and(s[0] != 34, s[0] != 92)); return s; } } }
static json someValue() { if (sx_param(3)) return json((int64_t)sx_sym("number", 8, 0, 9)); switch (sx_choose("value", 6)) { case 0: return json(1.5); case 1: return json("text"); case 2: return json({{"a", 1}, {"b", {{"c", json()}}}}); case 3: return json::array({json::array(), true}); case 4: return json(); default: return json::object(); } }
template <class H> static void run(const H &h) {
    json model; json rest = doc(); if (fmt == 2) rest.erase("attributes");
    json res = json::object(); if (fmt == 1 && !rest.is_null()) for (auto &e : rest.items()) if (reserved(e.key())) res[e.key()] = e.value();
    // attributes stored before, by anyone: an arbitrary subset of these
    json pre = json::object(); bool one = sx_param(5) == 1; if (one) pre["a"] = 1, pre["m"] = "x"; else if (sx_fork(sx_bool("a stored"))) pre["a"] = {{"old", 1}}; if (!one && sx_fork(sx_bool("keep stored"))) pre["keep"] = "kept"; if (!one && fmt != 1 && sx_fork(sx_bool("shape stored"))) pre["shape"] = json::array({9});
    if (!pre.empty()) { json d; if (fmt == 2) { d = doc(); d["attributes"] = pre; } else if (fmt == 1) { d = doc(); if (d.is_null()) d = json::object(); for (auto &e : pre.items()) d[e.key()] = e.value(); } else d = pre; sxfs::put(nodePath() + "/" + docName(), d.dump()); }
    else if (fmt == 2 && sx_fork(sx_bool("no attributes entry"))) { json d = doc(); d.erase("attributes"); sxfs::put(nodePath() + "/" + docName(), d.dump()); }
    model = pre; sxfs::put("/c/other/" + std::string(docName()), std::string("{\"z\":1}"));
    for (int i = 0; i < sx_param(2); i++) {
        auto s0 = sxfs::snap(); int op = i == 0 && sx_param(4) < 2 ? sx_param(4) : sx_choose("operation", 2); json w = json::object(); std::string k = someKey(); bool forbid = reserved(k), threw = false;
        if (op == 0) { w[k] = someValue(); if (i == 0 && !one && sx_fork(sx_bool("a second key"))) w["keep"] = 3; }
        try { if (op == 0) z5::writeAttributes(h, w); else z5::removeAttribute(h, k); } catch (std::exception &) { threw = true; }
        if (forbid) { SX_CHECK(threw, "reserved attributes cannot be overwritten or removed"); SX_CHECK(sxfs::same(s0), "a refused operation changes nothing"); sx_cover("protected"); }
        else { SX_CHECK(!threw, "an operation on user attributes is accepted"); if (op == 0) for (auto &e : w.items()) model[e.key()] = e.value(); else model.erase(k); sx_cover(op == 0 ? "written" : "removed"); }
        json got; z5::readAttributes(h, got); if (got.is_null()) got = json::object(); json see = got; if (fmt == 1 && node == 0) see.erase("n5"); SX_CHECK(see == model, "reading returns exactly the user's attributes");
        json d = doc(); json user = fmt == 2 ? (d.contains("attributes") ? d["attributes"] : json::object()) : d.is_null() ? json::object() : d; if (fmt == 2) { d.erase("attributes"); SX_CHECK(d == rest, "the rest of the metadata document is left untouched"); } else for (auto &e : res.items()) { SX_CHECK(user.contains(e.key()) && user[e.key()] == e.value(), "the metadata stored next to the attributes is left untouched"); user.erase(e.key()); }
        SX_CHECK(user == model, "exactly the user's attributes are stored"); int others = 1; for (std::size_t q = 0; q < s0.names.size(); q++) if (s0.names[q] != nodePath() + "/" + docName()) { auto *n = sxfs::get(s0.names[q]); others = sx_and(others, n && n->data == s0.data[q]); } SX_CHECK(others, "nothing else in the store changes"); }
    if (node == 2) { auto p = z5::openDataset(fh::File(std::filesystem::path("/c")), "d"); SX_CHECK(p->shape(0) == 5 && p->defaultChunkShape()[0] == 2, "the dataset still opens"); } }
extern "C" void sx_main() {
    fmt = sx_param(0); node = sx_param(1); int zf = fmt == 2 ? 3 : 2; fh::File f{std::filesystem::path("/c")}; z5::createFile(f, fmt != 1, zf); z5::createGroup(f, "g", zf); z5::createDataset(f, "d", "int32", V{5}, V{2}, std::string("raw"), z5::types::CompressionOptions(), fmt == 1 ? 0. : 7., ".", zf);
    if (node == 0) run(f); else if (node == 1) run(fh::Group(f, "g")); else if (node == 2) run(fh::Dataset(f, "d", ".", zf)); }
