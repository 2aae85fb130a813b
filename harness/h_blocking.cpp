// C02/C03/C04: chunk geometry, region decomposition, chunk numbering
#include "sx.h"
#include "z5/util/blocking.hxx"
#include <vector>
using z5::types::ShapeType; using z5::util::Blocking;
static const uint64_t MAXE = (1ull << 63) - 1;   // extents are signed 64 bit quantities (numpy, JSON)
static uint64_t pickBlock(uint64_t sel) {
    static const uint64_t B[] = {1, 2, 3, 5, 7, 10, 64, 100, 129, 1000, 65536, 1000003, (1ull << 31) - 1, 1ull << 31, (1ull << 31) + 1, (1ull << 32) + 3, (1ull << 40) + 1, (1ull << 52) + 1, (1ull << 62) - 1};
    return B[sel];
}
static const int NB = 19;

// C03: full 64-bit geometry of one axis (axes are independent; placed at axis `ax` of a `nd`-dimensional dataset)
static void geometry(int nd, int ax, bool smallSym) {
    uint64_t B = smallSym ? sx_range("block", 1, 63) : pickBlock(sx_choose("blocksel", NB));
    uint64_t S = smallSym ? sx_range("shape", 1, 4095) : sx_range("shape", 1, MAXE);
    ShapeType shape(nd, 1), block(nd, 1), bc(nd, 0); shape[ax] = S; block[ax] = B;
    Blocking bl(shape, block);
    uint64_t n = bl.blocksPerDimension()[ax];
    // ceil(S/B): (n-1)*B < S <= n*B   (n*B does not wrap: S,B < 2^63)
    SX_CHECK(n >= 1, "a non-empty axis has at least one chunk");
    SX_CHECK(sx_and((n - 1) * B < S, n * B >= S), "number of chunks is the rounded-up quotient");
    SX_CHECK(bl.numberOfBlocks() == n, "number of chunks is the product over the axes");
    uint64_t a = sx_u64("any"); bc[ax] = a;
    SX_CHECK(bl.checkBlockCoordinate(bc) == (a < n), "exactly the chunk indices inside the grid are valid");
    uint64_t c = sx_range("chunk", 0, (smallSym ? 4095 : MAXE) / (smallSym ? 1 : B)); bc[ax] = c; sx_assume(c < n);
    ShapeType beg, shp, beg2, end2; bl.getBlockBeginAndShape(bc, beg, shp); bl.getBlockBeginAndEnd(bc, beg2, end2);
    SX_CHECK(beg[ax] == c * B && beg2[ax] == c * B, "a chunk begins at index times chunk size");
    uint64_t rest = S - c * B;
    SX_CHECK(shp[ax] == sx_ite(rest < B, rest, B), "chunk extent is the chunk size clipped to the dataset");
    SX_CHECK(end2[ax] == beg[ax] + shp[ax], "chunk end is begin plus extent");
    uint64_t x = sx_range("coordinate", 0, smallSym ? 4095 : MAXE); sx_assume(x < S);
    ShapeType co(nd, 0), cb; co[ax] = x; bl.coordinateToBlockCoordinate(co, cb);
    SX_CHECK(sx_and(cb[ax] * B <= x, x - cb[ax] * B < B), "a coordinate maps to the chunk that contains it");
    for (int d = 0; d < nd; d++) if (d != ax) SX_CHECK(beg[d] == 0 && shp[d] == 1 && cb[d] == 0, "other axes are independent");
    sx_cover("geometry");
}
// C02a: per-chunk overlap of an arbitrary region, full 64 bit
static void overlap(int nd, int ax, bool smallSym) {
    uint64_t B = smallSym ? sx_range("block", 1, 15) : pickBlock(sx_choose("blocksel", NB));
    uint64_t S = smallSym ? sx_range("shape", 1, 255) : sx_range("shape", 1, MAXE);
    uint64_t R = sx_range("begin", 0, smallSym ? 255 : MAXE), L = sx_range("extent", 1, smallSym ? 255 : MAXE); sx_assume(R < S); sx_assume(sx_and(L >= 1, L <= S - R));
    ShapeType shape(nd, 1), block(nd, 1), bc(nd, 0), rb(nd, 0), rs(nd, 1); shape[ax] = S; block[ax] = B; rb[ax] = R; rs[ax] = L;
    Blocking bl(shape, block);
    uint64_t c = sx_range("chunk", 0, (smallSym ? 255 : MAXE) / (smallSym ? 1 : B)); sx_assume(c <= (S - 1) / B);
    uint64_t cb = c * B, ce = sx_ite(S - cb < B, S, cb + B);
    sx_assume(sx_and(cb < R + L, ce > R));          // chunk touches the region
    bc[ax] = c; ShapeType bir, sir, bib;
    bool complete = bl.getCoordinatesInRoi(bc, rb, rs, bir, sir, bib);
    // element-wise meaning of the triple
    uint64_t x = sx_range("x", 0, MAXE); sx_assume(sx_and(x >= cb, x < ce)); 
    bool inRoi = sx_and(x >= R, x - R < L);
    uint64_t y = x - cb;      // position in chunk
    bool covered = sx_and(y >= bib[ax], y - bib[ax] < sir[ax]);
    SX_CHECK(inRoi == covered, "the copied part of the chunk is exactly its intersection with the region");
    if (inRoi) SX_CHECK(x - R == bir[ax] + (y - bib[ax]), "an element of the chunk is placed at its own position of the request");
    SX_CHECK(sx_and(bib[ax] <= ce - cb, sir[ax] <= ce - cb - bib[ax]), "sub-region stays inside the chunk");
    SX_CHECK(sx_and(bir[ax] <= L, sir[ax] <= L - bir[ax]), "sub-region stays inside the request");
    bool full = sx_and(cb >= R, ce <= R + L);
    SX_CHECK(complete == full, "a chunk is reported as completely covered exactly when it is");
    for (int d = 0; d < nd; d++) if (d != ax) SX_CHECK(bir[d] == 0 && sir[d] == 1 && bib[d] == 0, "other axes are independent");
    sx_cover("overlap");
}
// C02b: list of touched chunks; extents bounded to at most `k` chunks per axis
static void touched(int nd, int k, uint64_t maxS) {
    ShapeType shape(nd), block(nd), rb(nd), rs(nd); std::vector<ShapeType> list;
    for (int d = 0; d < nd; d++) {
        uint64_t B = nd == 1 ? pickBlock(sx_choose("blocksel", NB)) : (d == 0 ? 3 : d == 1 ? 64 : (1ull << 31) + 1);
        block[d] = B; shape[d] = sx_range("shape", 1, maxS); rb[d] = sx_range("begin", 0, maxS); rs[d] = sx_range("extent", 1, maxS);
        sx_assume(sx_and(rb[d] < shape[d], rs[d] <= shape[d] - rb[d]));
        sx_assume((rb[d] + rs[d] - 1) / B - rb[d] / B < (uint64_t)k);
    }
    Blocking bl(shape, block); bl.getBlocksOverlappingRoi(rb, rs, list);
    // arbitrary grid coordinate g: it is listed exactly once iff it touches the region
    ShapeType g(nd); int touches = 1;
    for (int d = 0; d < nd; d++) { g[d] = sx_u64("grid"); uint64_t lo = rb[d] / block[d], hi = (rb[d] + rs[d] - 1) / block[d]; touches = sx_and(touches, sx_and(g[d] >= lo, g[d] <= hi)); }
    uint64_t cnt = 0;
    for (auto &e : list) { SX_CHECK(e.size() == (size_t)nd, "listed chunk has the dataset's dimensionality"); int eq = 1; for (int d = 0; d < nd; d++) eq = sx_and(eq, e[d] == g[d]); cnt += sx_ite(eq, 1, 0); }
    SX_CHECK(cnt == sx_ite(touches, 1, 0), "every touched chunk is listed exactly once and no other chunk is listed");
    sx_cover("touched");
}
// C04: numbering.  inner axes take concrete block counts, the outermost axis is symbolic
static void numbering(int nd) {
    static const uint64_t N[] = {1, 3, 7, 1000, (1ull << 20) + 1, 2};
    ShapeType shape(nd), block(nd); uint64_t inner = 1; std::vector<uint64_t> n(nd);
    for (int d = nd - 1; d >= 1; d--) { n[d] = N[sx_choose("count", nd == 2 ? 6 : nd == 3 ? 3 : 2)]; block[d] = (d & 1) ? 3 : 1; shape[d] = (n[d] - 1) * block[d] + 1; inner *= n[d]; }
    n[0] = sx_range("outer", 1, nd > 3 ? 15 : nd == 3 ? (1ull << 20) : (1ull << 40)); block[0] = 5; shape[0] = n[0] * 5 - 2;
    Blocking bl(shape, block);
    for (int d = 0; d < nd; d++) SX_CHECK(bl.blocksPerDimension()[d] == n[d], "grid extent");
    SX_CHECK(bl.numberOfBlocks() == n[0] * inner, "number of chunks is the product of the grid extents");
    uint64_t id = sx_u64("id"); sx_assume(id < n[0] * inner);
    ShapeType c; bl.blockIdToBlockCoordinate(id, c);
    SX_CHECK(c.size() == (size_t)nd, "coordinate dimensionality");
    for (int d = 0; d < nd; d++) SX_CHECK(c[d] < n[d], "coordinate lies inside the grid");
    SX_CHECK(bl.blockCoordinatesToBlockId(c) == id, "coordinate converts back to the same number");
    SX_CHECK(bl.checkBlockCoordinate(c), "coordinate of a chunk number is valid");
    // row-major order
    uint64_t rm = 0; for (int d = 0; d < nd; d++) rm = rm * n[d] + c[d];
    SX_CHECK(rm == id, "numbers enumerate coordinates in row-major order");
    // and the other way round
    ShapeType c2(nd), c3; for (int d = 0; d < nd; d++) { c2[d] = sx_u64("coord"); sx_assume(c2[d] < n[d]); }
    uint64_t id2 = bl.blockCoordinatesToBlockId(c2); SX_CHECK(id2 < n[0] * inner, "number lies below the number of chunks");
    bl.blockIdToBlockCoordinate(id2, c3); for (int d = 0; d < nd; d++) SX_CHECK(c3[d] == c2[d], "number converts back to the same coordinate");
    ShapeType b1, s1, b2, s2; bl.getBlockBeginAndShape(id, b1, s1); bl.getBlockBeginAndShape(c, b2, s2);
    for (int d = 0; d < nd; d++) SX_CHECK(b1[d] == b2[d] && s1[d] == s2[d], "both ways of addressing a chunk give the same region");
    // out-of-grid coordinates
    ShapeType bad(c); int ax = (int)sx_choose("badaxis", nd); uint64_t v = sx_u64("bad"); sx_assume(v >= n[ax]); bad[ax] = v;
    SX_CHECK(!bl.checkBlockCoordinate(bad), "coordinates outside the grid are rejected");
    ShapeType longer(nd + 1, 0), shorter(nd - 1, 0); SX_CHECK(!bl.checkBlockCoordinate(longer) && !bl.checkBlockCoordinate(shorter), "coordinates of another dimensionality are rejected");
    sx_cover("numbering");
}
// C04: listing of a regular grid equals row-major enumeration
static void grid(int nd, int k) {
    ShapeType lo(nd), hi(nd); std::vector<ShapeType> g; uint64_t total = 1;
    for (int d = 0; d < nd; d++) { lo[d] = sx_range("lo", 0, MAXE); uint64_t n = 1 + sx_choose("n", k); hi[d] = lo[d] + n - 1; total *= n; }
    z5::util::makeRegularGrid(lo, hi, g);
    SX_CHECK(g.size() == total, "grid lists every coordinate once");
    uint64_t i = 0; ShapeType p(lo);
    for (uint64_t t = 0; t < total; t++) { int eq = 1; for (int d = 0; d < nd; d++) eq = sx_and(eq, g[i][d] == p[d]); SX_CHECK(eq, "grid is listed in row-major order"); ++i;
        for (int d = nd - 1; d >= 0; d--) { if (p[d] != hi[d]) { p[d] += 1; break; } p[d] = lo[d]; } }
    sx_cover("grid");
}
extern "C" void sx_main() {
    int mode = sx_param(0), a = sx_param(1), b = sx_param(2), c = sx_param(3);
    switch (mode) {
    case 0: geometry(a, b, c); break; case 1: overlap(a, b, c); break;
    case 2: touched(a, b, c ? MAXE : 4095); break; case 3: numbering(a); break; case 4: grid(a, b); break; }
}
