// Hash-consed bit-vector expression DAG (widths 1..64) with constant folding,
// unsigned range tracking, concrete evaluation and translation to Z3.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <cmath>
#include <cassert>
#include <z3.h>

enum Kind : uint8_t {
    KConst, KSym,
    KAdd, KSub, KMul, KUDiv, KSDiv, KURem, KSRem, KAnd, KOr, KXor, KShl, KLShr, KAShr,
    KEq, KUlt, KUle, KSlt, KSle, KIte, KConcat, KExtract, KZExt, KSExt,
    KUMulOvf, KSMulOvf, KSAddOvf, KSSubOvf,
    // floating point on bit patterns (32/64 bit)
    KFAdd, KFSub, KFMul, KFDiv, KFRem, KFOeq, KFOlt, KFOle, KFUno, KFNegDummy,
    KFToSI, KFToUI, KSIToF, KUIToF, KFExt, KFTrunc
};

struct Expr {
    Kind k; uint8_t w; bool hasFP; uint32_t id;
    uint64_t c;           // Const value / Sym index / Extract offset
    Expr *a, *b, *d;
    uint64_t lo, hi;      // unsigned range
    uint32_t evalEpoch; uint64_t evalVal;
    Z3_ast z, zb;         // cached translations (bv, bool)
    Z3_ast zi, zib;       // cached translations to integer arithmetic (int, bool)
};

static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sextw(uint64_t v, unsigned w) { if (w >= 64) return (int64_t)v; uint64_t m = 1ull << (w - 1); v &= maskw(w); return (int64_t)((v ^ m) - m); }

struct SymInfo { std::string name; unsigned w; uint64_t lo, hi; bool uninit; };

struct ExprPool {
    struct H { size_t operator()(const Expr *e) const {
        uint64_t h = e->k * 0x9E3779B97F4A7C15ull ^ (uint64_t)e->w << 7;
        h = (h ^ e->c) * 0xff51afd7ed558ccdull; h ^= h >> 32;
        h = (h ^ (uint64_t)(e->a ? e->a->id + 1 : 0)) * 0xc4ceb9fe1a85ec53ull; h ^= h >> 29;
        h = (h ^ (uint64_t)(e->b ? e->b->id + 1 : 0)) * 0x9E3779B97F4A7C15ull; h ^= h >> 31;
        h = (h ^ (uint64_t)(e->d ? e->d->id + 1 : 0)) * 0xff51afd7ed558ccdull; h ^= h >> 30;
        return h; } };
    std::vector<Expr *> table; size_t count = 0;
    std::vector<SymInfo> syms;
    uint32_t nextId = 1; uint32_t epoch = 0;
    std::vector<char *> blocks; size_t blockPos = 0;
    ExprPool() { table.resize(1 << 16, nullptr); }
    Expr *alloc() {
        const size_t per = 4096;
        if (blocks.empty() || blockPos == per) { blocks.push_back((char *)malloc(per * sizeof(Expr))); blockPos = 0; }
        return new (blocks.back() + sizeof(Expr) * blockPos++) Expr();
    }
    static bool same(const Expr *x, const Expr *y) { return x->k == y->k && x->w == y->w && x->c == y->c && x->a == y->a && x->b == y->b && x->d == y->d; }
    Expr *intern(Kind k, unsigned w, uint64_t c, Expr *a = nullptr, Expr *b = nullptr, Expr *d = nullptr, uint64_t lo = 0, uint64_t hi = ~0ull) {
        Expr t; t.k = k; t.w = (uint8_t)w; t.c = c; t.a = a; t.b = b; t.d = d;
        size_t h = H()(&t) & (table.size() - 1);
        while (table[h]) { if (same(table[h], &t)) return table[h]; h = (h + 1) & (table.size() - 1); }
        Expr *e = alloc();
        *e = t; e->id = nextId++; e->lo = lo; e->hi = hi & maskw(w); e->evalEpoch = 0; e->z = e->zb = e->zi = e->zib = nullptr;
        e->hasFP = k >= KFAdd || (a && a->hasFP) || (b && b->hasFP) || (d && d->hasFP);
        table[h] = e;
        if (++count * 2 > table.size()) rehash();
        return e;
    }
    void rehash() {
        std::vector<Expr *> old; old.swap(table); table.resize(old.size() * 2, nullptr);
        for (auto e : old) if (e) { size_t h = H()(e) & (table.size() - 1); while (table[h]) h = (h + 1) & (table.size() - 1); table[h] = e; }
    }
    Expr *cst(uint64_t v, unsigned w) { v &= maskw(w); return intern(KConst, w, v, nullptr, nullptr, nullptr, v, v); }
    Expr *sym(const std::string &name, unsigned w, uint64_t lo, uint64_t hi, bool uninit) {
        syms.push_back({name, w, lo, hi, uninit});
        return intern(KSym, w, syms.size() - 1, nullptr, nullptr, nullptr, lo, hi);
    }
    static bool isC(const Expr *e) { return e->k == KConst; }

    // ---------------------------------------------------------------- concrete operation
    static uint64_t op2(Kind k, unsigned w, uint64_t a, uint64_t b) {
        uint64_t m = maskw(w);
        switch (k) {
        case KAdd: return (a + b) & m; case KSub: return (a - b) & m; case KMul: return (a * b) & m;
        case KUDiv: return b ? (a / b) & m : m; case KURem: return b ? a % b : a;
        case KSDiv: { int64_t x = sextw(a, w), y = sextw(b, w); if (!y) return (x < 0 ? 1 : m) & m; if (y == -1) return (0 - (uint64_t)x) & m; return (uint64_t)(x / y) & m; }
        case KSRem: { int64_t x = sextw(a, w), y = sextw(b, w); if (!y) return a; if (y == -1) return 0; return (uint64_t)(x % y) & m; }
        case KAnd: return a & b; case KOr: return a | b; case KXor: return a ^ b;
        case KShl: return b >= w ? 0 : (a << b) & m; case KLShr: return b >= w ? 0 : a >> b;
        case KAShr: return (uint64_t)(sextw(a, w) >> (b >= w ? w - 1 : b)) & m;
        case KEq: return a == b; case KUlt: return a < b; case KUle: return a <= b;
        case KSlt: return sextw(a, w) < sextw(b, w); case KSle: return sextw(a, w) <= sextw(b, w);
        case KUMulOvf: return (((unsigned __int128)a * b) >> w) != 0;
        case KSMulOvf: { __int128 r = (__int128)sextw(a, w) * sextw(b, w); return r != (__int128)sextw((uint64_t)r, w); }
        case KSAddOvf: { __int128 r = (__int128)sextw(a, w) + sextw(b, w); return r != (__int128)sextw((uint64_t)r, w); }
        case KSSubOvf: { __int128 r = (__int128)sextw(a, w) - sextw(b, w); return r != (__int128)sextw((uint64_t)r, w); }
        default: break;
        }
        if (w == 64) {
            double x, y, r; memcpy(&x, &a, 8); memcpy(&y, &b, 8); uint64_t o;
            switch (k) {
            case KFAdd: r = x + y; break; case KFSub: r = x - y; break; case KFMul: r = x * y; break; case KFDiv: r = x / y; break; case KFRem: r = fmod(x, y); break;
            case KFOeq: return x == y; case KFOlt: return x < y; case KFOle: return x <= y; case KFUno: return std::isnan(x) || std::isnan(y);
            default: abort(); }
            memcpy(&o, &r, 8); return o;
        } else {
            float x, y, r; uint32_t a32 = (uint32_t)a, b32 = (uint32_t)b, o; memcpy(&x, &a32, 4); memcpy(&y, &b32, 4);
            switch (k) {
            case KFAdd: r = x + y; break; case KFSub: r = x - y; break; case KFMul: r = x * y; break; case KFDiv: r = x / y; break; case KFRem: r = fmodf(x, y); break;
            case KFOeq: return x == y; case KFOlt: return x < y; case KFOle: return x <= y; case KFUno: return std::isnan(x) || std::isnan(y);
            default: abort(); }
            memcpy(&o, &r, 4); return o;
        }
    }
    static double todbl(uint64_t v, unsigned w) { if (w == 64) { double d; memcpy(&d, &v, 8); return d; } uint32_t x = (uint32_t)v; float f; memcpy(&f, &x, 4); return f; }
    static uint64_t fromdbl(double d, unsigned w) { if (w == 64) { uint64_t o; memcpy(&o, &d, 8); return o; } float f = (float)d; uint32_t o; memcpy(&o, &f, 4); return o; }
    static uint64_t conv(Kind k, unsigned wt, uint64_t a, unsigned wf) {
        switch (k) {
        case KFToSI: { double d = todbl(a, wf); if (!(d >= -9.3e18 && d <= 9.3e18)) return (1ull << (wt - 1)) & maskw(wt); return (uint64_t)(int64_t)d & maskw(wt); }
        case KFToUI: { double d = todbl(a, wf); if (!(d > -9.3e18 && d < 1.9e19)) return (1ull << (wt - 1)) & maskw(wt); return (d < 0 ? (uint64_t)(int64_t)d : (uint64_t)d) & maskw(wt); }
        case KSIToF: { int64_t v = sextw(a, wf); if (wt == 32) { float f = (float)v; uint32_t o; memcpy(&o, &f, 4); return o; } return fromdbl((double)v, 64); }
        case KUIToF: { if (wt == 32) { float f = (float)a; uint32_t o; memcpy(&o, &f, 4); return o; } return fromdbl((double)a, 64); }
        case KFExt: return fromdbl(todbl(a, wf), 64);
        case KFTrunc: return fromdbl(todbl(a, wf), 32);
        default: abort();
        }
    }

    // ---------------------------------------------------------------- constructors
    Expr *finish(Expr *e) { if (e->lo == e->hi && e->k != KConst) return cst(e->lo, e->w); return e; }
    Expr *bin(Kind k, Expr *a, Expr *b) {
        unsigned w = a->w;
        bool cmp = k == KEq || k == KUlt || k == KUle || k == KSlt || k == KSle || k == KUMulOvf || k == KSMulOvf || k == KSAddOvf || k == KSSubOvf || k == KFOeq || k == KFOlt || k == KFOle || k == KFUno;
        if (isC(a) && isC(b)) return cst(op2(k, w, a->c, b->c), cmp ? 1 : w);
        uint64_t m = maskw(w);
        if ((k == KAdd || k == KMul || k == KAnd || k == KOr || k == KXor || k == KEq) && isC(a)) std::swap(a, b);
        if ((k == KAdd || k == KMul || k == KAnd || k == KOr || k == KXor || k == KEq) && !isC(b) && a->id > b->id) std::swap(a, b);
        uint64_t lo = 0, hi = cmp ? 1 : m;
        switch (k) {
        case KAdd:
            if (isC(b)) { if (!b->c) return a;
                if (a->k == KAdd && isC(a->b)) return bin(KAdd, a->a, cst(a->b->c + b->c, w)); 
                if (a->k == KSub && isC(a->a)) return bin(KSub, cst(a->a->c + b->c, w), a->b); }
            if (b->k == KAdd && isC(b->b)) return bin(KAdd, bin(KAdd, a, b->a), b->b);
            if (a->k == KAdd && isC(a->b)) return bin(KAdd, bin(KAdd, a->a, b), a->b);
            if (a->k == KSub && a->b == b) return a->a;
            if (b->k == KSub && b->b == a) return b->a;
            if (isC(b) && a->k == KIte && isC(a->b) && isC(a->d)) return ite(a->a, bin(KAdd, a->b, b), bin(KAdd, a->d, b));
            { unsigned __int128 h = (unsigned __int128)a->hi + b->hi; if (h <= m) { lo = a->lo + b->lo; hi = (uint64_t)h; }
              else if (isC(b)) { unsigned __int128 l = (unsigned __int128)a->lo + b->c; if (l > m) { lo = (uint64_t)(l & m); hi = (uint64_t)(h & m); } } }
            break;
        case KSub:
            if (isC(b)) return b->c ? bin(KAdd, a, cst(0 - b->c, w)) : a;
            if (a == b) return cst(0, w);
            if (a->k == KAdd) { if (a->a == b) return a->b; if (a->b == b) return a->a; }
            if (a->k == KAdd && isC(a->b)) return bin(KAdd, bin(KSub, a->a, b), a->b);
            if (b->k == KAdd && isC(b->b)) return bin(KAdd, bin(KSub, a, b->a), cst(0 - b->b->c, w));
            if (a->lo >= b->hi) { lo = a->lo - b->hi; hi = a->hi - b->lo; }
            break;
        case KMul:
            if (isC(b)) { if (!b->c) return b; if (b->c == 1) return a; 
                if (a->k == KMul && isC(a->b)) return bin(KMul, a->a, cst(a->b->c * b->c, w));
                if (a->k == KAdd) return bin(KAdd, bin(KMul, a->a, b), bin(KMul, a->b, b));
                if (a->k == KSub) return bin(KSub, bin(KMul, a->a, b), bin(KMul, a->b, b));
                if (a->k == KZExt && a->a->w == 1) return ite(a->a, b, cst(0, w));
                if (a->k == KIte && isC(a->b) && isC(a->d)) return ite(a->a, cst(a->b->c * b->c, w), cst(a->d->c * b->c, w)); }
            { unsigned __int128 h = (unsigned __int128)a->hi * b->hi; if (h <= m) { lo = a->lo * b->lo; hi = (uint64_t)h; } }
            break;
        case KUDiv: if (isC(b)) { if (b->c == 1) return a; if (b->c) { lo = a->lo / b->c; hi = a->hi / b->c; } } else if (b->lo) { lo = a->lo / b->hi; hi = a->hi / b->lo; }
            if (isC(b) && b->c && a->k == KMul && isC(a->b) && a->b->c && a->b->c % b->c == 0 && (unsigned __int128)a->a->hi * a->b->c <= m) return bin(KMul, a->a, cst(a->b->c / b->c, w));
            if (isC(b) && b->c && !(b->c & (b->c - 1))) return bin(KLShr, a, cst(__builtin_ctzll(b->c), w));
            break;
        case KURem: if (isC(b) && b->c) { if (b->c == 1) return cst(0, w); if (a->hi < b->c) return a; hi = b->c - 1; 
                if (!(b->c & (b->c - 1))) return bin(KAnd, a, cst(b->c - 1, w)); }
            else if (b->lo) { if (a->hi < b->lo) return a; hi = std::min(a->hi, b->hi - 1); }
            break;
        case KSDiv: if (isC(b) && b->c == 1) return a; 
            if (a->hi < (1ull << (w - 1)) && b->hi < (1ull << (w - 1))) return bin(KUDiv, a, b); break;
        case KSRem: if (a->hi < (1ull << (w - 1)) && b->hi < (1ull << (w - 1))) return bin(KURem, a, b); break;
        case KAnd: if (isC(b)) { if (!b->c) return b; if (b->c == m) return a; hi = b->c;
                if (!((b->c + 1) & b->c)) { unsigned n = __builtin_popcountll(b->c); if (a->hi <= b->c) return a; return zext(extract(a, 0, n), w); }
                if (a->k == KAnd && isC(a->b)) return bin(KAnd, a->a, cst(a->b->c & b->c, w)); }
            if (a == b) return a; hi = std::min(std::min(a->hi, b->hi), hi); 
            if (w == 1) { if ((a->k == KEq && isC(a->b) && a->b->c == 0 && a->a == b && a->a->w == 1)) return cst(0, 1); }
            break;
        case KOr: if (isC(b)) { if (!b->c) return a; if (b->c == m) return b; lo = b->c; }
            if (a == b) return a; lo = std::max(a->lo, b->lo); 
            { uint64_t x = a->hi | b->hi; x |= x >> 1; x |= x >> 2; x |= x >> 4; x |= x >> 8; x |= x >> 16; x |= x >> 32; hi = x & m; }
            { // or of disjoint pieces -> concat: (zext lo) | (shl (zext hi) k)
              Expr *x = a, *y = b; if (x->k == KConcat) std::swap(x, y);
              if (y->k == KConcat && isC(y->b) && y->b->c == 0 && x->hi <= maskw(y->b->w)) return concat(y->a, extract(x, 0, y->b->w)); }
            break;
        case KXor: if (isC(b)) { if (!b->c) return a; if (a->k == KXor && isC(a->b)) return bin(KXor, a->a, cst(a->b->c ^ b->c, w)); }
            if (a == b) return cst(0, w);
            if (w == 1 && isC(b) && b->c == 1) return lnot(a);
            { uint64_t x = a->hi | b->hi; x |= x >> 1; x |= x >> 2; x |= x >> 4; x |= x >> 8; x |= x >> 16; x |= x >> 32; hi = x & m; }
            break;
        case KShl: if (isC(b)) { if (!b->c) return a; if (b->c >= w) return cst(0, w); return concat(extract(a, 0, w - (unsigned)b->c), cst(0, (unsigned)b->c)); }
            break;
        case KLShr: if (isC(b)) { if (!b->c) return a; if (b->c >= w) return cst(0, w); return zext(extract(a, (unsigned)b->c, w - (unsigned)b->c), w); } hi = a->hi; break;
        case KAShr: if (isC(b)) { if (!b->c) return a; unsigned s = b->c >= w ? w - 1 : (unsigned)b->c; return sext(extract(a, s, w - s), w); } break;
        case KEq:
            if (a == b) return cst(1, 1);
            if (useLin && w >= 16 && (a->k == KXor || b->k == KXor)) return linEq(a, b);
            if (a->hi < b->lo || b->hi < a->lo) return cst(0, 1);
            if (w == 1 && isC(b)) return b->c ? a : lnot(a);
            if (isC(b)) {
                if (a->k == KZExt) { return b->c > maskw(a->a->w) ? cst(0, 1) : bin(KEq, a->a, cst(b->c, a->a->w)); }
                if (a->k == KSExt) { uint64_t t = b->c & maskw(a->a->w); return ((uint64_t)sextw(t, a->a->w) & m) != b->c ? cst(0, 1) : bin(KEq, a->a, cst(t, a->a->w)); }
                if (a->k == KAdd && isC(a->b)) return bin(KEq, a->a, cst(b->c - a->b->c, w));
                if (a->k == KSub && isC(a->a)) return bin(KEq, a->b, cst(a->a->c - b->c, w));
                if (a->k == KXor && isC(a->b)) return bin(KEq, a->a, cst(b->c ^ a->b->c, w));
                if (a->k == KSub && b->c == 0) return bin(KEq, a->a, a->b);
                if (a->k == KConcat && isC(a->b)) { if ((b->c & maskw(a->b->w)) != a->b->c) return cst(0, 1); return bin(KEq, a->a, cst(b->c >> a->b->w, a->a->w)); }
                if (a->k == KConcat && isC(a->a)) { if ((b->c >> a->b->w) != a->a->c) return cst(0, 1); return bin(KEq, a->b, cst(b->c, a->b->w)); }
                if (a->k == KIte && isC(a->b) && isC(a->d)) {
                    bool t = a->b->c == b->c, f = a->d->c == b->c;
                    if (t && f) return cst(1, 1); if (!t && !f) return cst(0, 1); return t ? a->a : lnot(a->a); }
                if (a->k == KIte && isC(a->b) ) { return a->b->c == b->c ? orb(a->a, bin(KEq, a->d, b)) : andb(lnot(a->a), bin(KEq, a->d, b)); }
                if (a->k == KIte && isC(a->d) ) { return a->d->c == b->c ? orb(lnot(a->a), bin(KEq, a->b, b)) : andb(a->a, bin(KEq, a->b, b)); }
                if (a->k == KMul && isC(a->b) && (unsigned __int128)a->a->hi * a->b->c <= m && a->b->c) { if (b->c % a->b->c) return cst(0, 1); return bin(KEq, a->a, cst(b->c / a->b->c, w)); }
            }
            if (a->k == KZExt && b->k == KZExt && a->a->w == b->a->w) return bin(KEq, a->a, b->a);
            if (a->k == KConcat && b->k == KConcat && a->b->w == b->b->w) return andb(bin(KEq, a->a, b->a), bin(KEq, a->b, b->b));
            if (a->k == KAdd && b->k == KAdd) { if (a->a == b->a) return bin(KEq, a->b, b->b); if (a->b == b->b) return bin(KEq, a->a, b->a); if (a->a == b->b) return bin(KEq, a->b, b->a); if (a->b == b->a) return bin(KEq, a->a, b->b); }
            break;
        case KUlt:
            if (a == b) return cst(0, 1);
            if (a->hi < b->lo) return cst(1, 1); if (a->lo >= b->hi) return cst(0, 1);
            if (isC(b) && b->c == 1) return bin(KEq, a, cst(0, w));
            if (isC(a) && a->c == 0) return lnot(bin(KEq, b, a));
            if (a->k == KZExt && b->k == KZExt && a->a->w == b->a->w) return bin(KUlt, a->a, b->a);
            if (a->k == KZExt && isC(b)) return bin(KUlt, a->a, cst(b->c, a->a->w)); // b->c <= max(a) here
            if (b->k == KZExt && isC(a)) return bin(KUlt, cst(a->c, b->a->w), b->a);
            break;
        case KUle:
            return lnot(bin(KUlt, b, a));
        case KSlt:
            if (a == b) return cst(0, 1);
            { uint64_t s = 1ull << (w - 1);
              bool an = a->lo >= s, ap = a->hi < s, bn = b->lo >= s, bp = b->hi < s;
              if ((an || ap) && (bn || bp)) { if (an && bp) return cst(1, 1); if (ap && bn) return cst(0, 1); return bin(KUlt, a, b); } }
            if (a->k == KSExt && b->k == KSExt && a->a->w == b->a->w) return bin(KSlt, a->a, b->a);
            break;
        case KSle:
            return lnot(bin(KSlt, b, a));
        case KUMulOvf: { unsigned __int128 h = (unsigned __int128)a->hi * b->hi; if (h <= m) return cst(0, 1); h = (unsigned __int128)a->lo * b->lo; if (h > m) return cst(1, 1); break; }
        default: break;
        }
        return finish(intern(k, cmp ? 1 : w, 0, a, b, nullptr, lo, hi));
    }
    Expr *lnot(Expr *a) { // width 1
        if (isC(a)) return cst(!a->c, 1);
        if (a->k == KEq && a->a->w == 1 && isC(a->b) && a->b->c == 0) return a->a;
        return intern(KEq, 1, 0, a, cst(0, 1), nullptr, 0, 1);
    }
    Expr *andb(Expr *a, Expr *b) { return bin(KAnd, a, b); }
    Expr *orb(Expr *a, Expr *b) { return bin(KOr, a, b); }
    Expr *ite(Expr *c, Expr *a, Expr *b) {
        if (isC(c)) return c->c ? a : b;
        if (a == b) return a;
        if (c->k == KEq && c->a->w == 1 && isC(c->b) && c->b->c == 0) return ite(c->a, b, a);
        if (a->w == 1) { if (isC(a) && isC(b)) return a->c ? c : lnot(c);
            if (isC(a)) return a->c ? orb(c, b) : andb(lnot(c), b);
            if (isC(b)) return b->c ? orb(lnot(c), a) : andb(c, a); }
        if (b->k == KIte && b->a == c) return ite(c, a, b->d);
        if (a->k == KIte && a->a == c) return ite(c, a->b, b);
        return finish(intern(KIte, a->w, 0, c, a, b, std::min(a->lo, b->lo), std::max(a->hi, b->hi)));
    }
    Expr *concat(Expr *hi, Expr *lo) { // hi:lo
        unsigned w = hi->w + lo->w; assert(w <= 64);
        if (isC(hi) && isC(lo)) return cst((hi->c << lo->w) | lo->c, w);
        if (isC(hi) && hi->c == 0) return zext(lo, w);
        if (hi->k == KExtract && lo->k == KExtract && hi->a == lo->a && hi->c == lo->c + lo->w) return extract(hi->a, (unsigned)lo->c, w);
        if (hi->k == KExtract && hi->a == lo && hi->c == lo->w) return extract(hi->a, 0, w);
        if (hi->k == KConcat && hi->b->k == KExtract && lo->k == KExtract && hi->b->a == lo->a && hi->b->c == lo->c + lo->w) return concat(hi->a, concat(hi->b, lo));
        if (hi->k == KZExt) return zext(concat(hi->a, lo), w);
        if (hi->k == KConcat && isC(hi->b) && isC(lo)) return concat(hi->a, cst((hi->b->c << lo->w) | lo->c, hi->b->w + lo->w));
        if (lo->k == KConcat && isC(lo->a) && isC(hi)) return concat(cst((hi->c << lo->a->w) | lo->a->c, hi->w + lo->a->w), lo->b);
        // ite(c,x,y) bytes split by extracts of same ite are re-joined by extract rules above
        return finish(intern(KConcat, w, 0, hi, lo, nullptr, (hi->lo << lo->w) | lo->lo, (hi->hi << lo->w) | lo->hi));
    }
    Expr *extract(Expr *a, unsigned off, unsigned w) {
        if (off == 0 && w == a->w) return a;
        if (isC(a)) return cst(a->c >> off, w);
        if (a->k == KExtract) return extract(a->a, (unsigned)a->c + off, w);
        if (a->k == KZExt) { unsigned iw = a->a->w; if (off >= iw) return cst(0, w); if (off + w <= iw) return extract(a->a, off, w); return zext(extract(a->a, off, iw - off), w); }
        if (a->k == KSExt) { unsigned iw = a->a->w; if (off + w <= iw) return extract(a->a, off, w); if (off == 0) return sext(a->a, w); }
        if (a->k == KConcat) { unsigned lw = a->b->w; if (off >= lw) return extract(a->a, off - lw, w); if (off + w <= lw) return extract(a->b, off, w); return concat(extract(a->a, 0, off + w - lw), extract(a->b, off, lw - off)); }
        if (a->k == KIte && (isC(a->b) || isC(a->d) )) return ite(a->a, extract(a->b, off, w), extract(a->d, off, w));
        if ((a->k == KAnd || a->k == KOr || a->k == KXor) ) return bin(a->k, extract(a->a, off, w), extract(a->b, off, w));
        if (off < 64 && (a->hi >> off) == 0) return cst(0, w);
        uint64_t lo = 0, hi = maskw(w);
        if ((a->hi >> off) <= hi) { lo = a->lo >> off; hi = a->hi >> off; if (off) { /* still monotone */ } }
        else if (off == 0 && (a->k == KAdd || a->k == KSub || a->k == KMul) ) { if (w < a->w) return bin(a->k, extract(a->a, 0, w), extract(a->b, 0, w)); }
        return finish(intern(KExtract, w, off, a, nullptr, nullptr, lo, hi));
    }
    Expr *zext(Expr *a, unsigned w) {
        if (a->w == w) return a;
        if (isC(a)) return cst(a->c, w);
        if (a->k == KZExt) return zext(a->a, w);
        if (a->k == KExtract && a->c == 0) { Expr *o = a->a; if (o->hi <= maskw(a->w)) { if (o->w == w) return o; if (o->w < w) return zext(o, w); } }
        return intern(KZExt, w, 0, a, nullptr, nullptr, a->lo, a->hi);
    }
    Expr *sext(Expr *a, unsigned w) {
        if (a->w == w) return a;
        if (isC(a)) return cst((uint64_t)sextw(a->c, a->w), w);
        if (a->hi < (1ull << (a->w - 1))) return zext(a, w);
        if (a->k == KSExt) return sext(a->a, w);
        return intern(KSExt, w, 0, a, nullptr, nullptr, 0, ~0ull);
    }
    Expr *trunc(Expr *a, unsigned w) { return extract(a, 0, w); }
    Expr *cvt(Kind k, Expr *a, unsigned w) { if (isC(a)) return cst(conv(k, w, a->c, a->w), w); return intern(k, w, 0, a, nullptr, nullptr, 0, ~0ull); }

    // ---------------------------------------------------------------- GF(2)-linear normal forms (checksums)
    // bit i of a linear expression is the xor of a constant and a set of atoms (bit k of some opaque expression)
    bool useLin = true;
    struct Lin { std::vector<std::vector<uint64_t>> at; uint64_t c = 0; };
    std::unordered_map<Expr *, Lin> linMemo;
    static void xorInto(std::vector<uint64_t> &x, const std::vector<uint64_t> &y) { if (y.empty()) return; std::vector<uint64_t> r; r.reserve(x.size() + y.size()); size_t i = 0, j = 0;
        while (i < x.size() && j < y.size()) { if (x[i] < y[j]) r.push_back(x[i++]); else if (y[j] < x[i]) r.push_back(y[j++]); else { ++i; ++j; } }
        r.insert(r.end(), x.begin() + i, x.end()); r.insert(r.end(), y.begin() + j, y.end()); x.swap(r); }
    std::unordered_map<uint32_t, Expr *> atomOf;
    const Lin &lin(Expr *e) {
        auto it = linMemo.find(e); if (it != linMemo.end()) return it->second;
        Lin r; unsigned w = e->w; r.at.resize(w); bool ok = false;
        auto sh = [&](const Lin &x, int by, bool fillTop, unsigned xw) { for (int i = 0; i < (int)w; i++) { int k = i + by; if (k < 0) continue; if (k >= (int)xw) { if (!fillTop) continue; k = (int)xw - 1; } r.at[i] = x.at[k]; r.c |= ((x.c >> k) & 1) << i; } };
        switch (e->k) {
        case KConst: r.c = e->c; ok = true; break;
        case KXor: { Lin x = lin(e->a); const Lin &y = lin(e->b); r = x; r.c ^= y.c; for (unsigned i = 0; i < w; i++) xorInto(r.at[i], y.at[i]); ok = true; break; }
        case KAnd: if (isC(e->b)) { const Lin &x = lin(e->a); for (unsigned i = 0; i < w; i++) if (e->b->c >> i & 1) { r.at[i] = x.at[i]; r.c |= x.c & (1ull << i); } ok = true; } break;
        case KOr: { Lin x = lin(e->a); const Lin &y = lin(e->b); bool disj = true; for (unsigned i = 0; i < w; i++) if ((!x.at[i].empty() || (x.c >> i & 1)) && (!y.at[i].empty() || (y.c >> i & 1))) disj = false; if (disj) { r = x; r.c |= y.c; for (unsigned i = 0; i < w; i++) if (!y.at[i].empty()) r.at[i] = y.at[i]; ok = true; } break; }
        case KShl: if (isC(e->b) && e->b->c < w) { sh(lin(e->a), -(int)e->b->c, false, w); ok = true; } break;
        case KLShr: if (isC(e->b) && e->b->c < w) { sh(lin(e->a), (int)e->b->c, false, w); ok = true; } break;
        case KZExt: sh(lin(e->a), 0, false, e->a->w); ok = true; break;
        case KSExt: sh(lin(e->a), 0, true, e->a->w); ok = true; break;
        case KExtract: sh(lin(e->a), (int)e->c, false, e->a->w); ok = true; break;
        case KConcat: { Lin x = lin(e->a); const Lin &y = lin(e->b); unsigned lw = e->b->w; for (unsigned i = 0; i < w; i++) { const Lin &q = i < lw ? y : x; unsigned k = i < lw ? i : i - lw; r.at[i] = q.at[k]; r.c |= ((q.c >> k) & 1) << i; } ok = true; break; }
        case KSub: if (isC(e->a) && e->a->c == 0 && e->b->hi <= 1) { const Lin &x = lin(e->b); for (unsigned i = 0; i < w; i++) { r.at[i] = x.at[0]; r.c |= (x.c & 1) << i; } ok = true; } break;
        case KMul: if (isC(e->b) && e->b->c && (e->b->c & (e->b->c - 1)) == 0) { sh(lin(e->a), -(int)__builtin_ctzll(e->b->c), false, w); ok = true; } else if (isC(e->b) && e->a->hi <= 1) { const Lin &x = lin(e->a); for (unsigned i = 0; i < w; i++) if (e->b->c >> i & 1) { r.at[i] = x.at[0]; r.c |= (x.c & 1) << i; } ok = true; } break;
        case KEq: if (isC(e->b)) { const Lin &x = lin(e->a); int live = -1; bool one = true, f = false; for (unsigned i = 0; i < e->a->w; i++) if (!x.at[i].empty()) { if (live >= 0) one = false; live = (int)i; } else if (((x.c ^ e->b->c) >> i) & 1) f = true; if (one && !f && live >= 0) { r.at[0] = x.at[live]; r.c = 1 ^ (((x.c ^ e->b->c) >> live) & 1); ok = true; } } break;
        case KIte: { Lin x = lin(e->b), y = lin(e->d); bool cd = true; for (unsigned i = 0; i < w; i++) if (x.at[i] != y.at[i]) cd = false; if (cd) { const Lin &q = lin(e->a); uint64_t D = x.c ^ y.c; r = y; for (unsigned i = 0; i < w; i++) if (D >> i & 1) { xorInto(r.at[i], q.at[0]); r.c ^= (q.c & 1) << i; } ok = true; } break; }
        default: break; }
        if (!ok) { r = Lin(); r.at.resize(w); atomOf[e->id] = e; for (unsigned i = 0; i < w; i++) if (e->hi >> i) r.at[i].push_back((uint64_t)e->id << 8 | i); }
        return linMemo[e] = r;
    }
    Expr *linEq(Expr *a, Expr *b) {   // a == b bit by bit; atoms common to both sides cancel
        if (linMemo.size() > 200000) linMemo.clear();
        Lin x = lin(a); const Lin &y = lin(b); x.c ^= y.c; Expr *r = cst(1, 1);
        for (unsigned i = 0; i < a->w; i++) { xorInto(x.at[i], y.at[i]); if (x.at[i].empty() && (x.c >> i & 1)) return cst(0, 1); }
        for (unsigned i = 0; i < a->w; i++) { if (x.at[i].empty()) continue; Expr *s = cst(x.c >> i & 1, 1); for (auto t : x.at[i]) { Expr *q = extract(atomOf[(uint32_t)(t >> 8)], (unsigned)(t & 255), 1); s = bin(KXor, s, q); } r = andb(r, lnot(s)); }
        return r;
    }
    // the table t (2^k values of width w) at index idx, if t is affine over GF(2); nullptr otherwise
    Expr *affineTable(Expr *idx, const std::vector<uint64_t> &t, unsigned w) {
        unsigned k = 0; while ((1ull << k) < t.size()) ++k; if (!useLin || t.size() < 16 || (1ull << k) != t.size()) return nullptr;
        for (size_t i = 0; i < t.size(); i++) { uint64_t v = t[0]; for (unsigned b = 0; b < k; b++) if (i >> b & 1) v ^= t[1ull << b] ^ t[0]; if (v != t[i]) return nullptr; }
        Expr *r = cst(t[0], w); for (unsigned b = 0; b < k; b++) { uint64_t d = t[1ull << b] ^ t[0]; if (d) r = bin(KXor, r, ite(extract(idx, b, 1), cst(d, w), cst(0, w))); } return r;
    }
    // number of trailing zero bits that are statically known
    static unsigned tz(Expr *e) {
        switch (e->k) {
        case KConst: return e->c ? __builtin_ctzll(e->c) : 64;
        case KMul: return std::min(64u, tz(e->a) + tz(e->b));
        case KAdd: case KSub: return std::min(tz(e->a), tz(e->b));
        case KConcat: return isC(e->b) && e->b->c == 0 ? e->b->w + tz(e->a) : tz(e->b);
        case KZExt: return tz(e->a);
        case KIte: return std::min(tz(e->b), tz(e->d));
        default: return 0;
        }
    }
    // ---------------------------------------------------------------- evaluation under a model
    const std::vector<uint64_t> *curModel = nullptr;
    void setModel(const std::vector<uint64_t> *m) { curModel = m; ++epoch; }
    uint64_t ev(Expr *e) {
        if (e->k == KConst) return e->c;
        if (e->evalEpoch == epoch) return e->evalVal;
        uint64_t r = 0;
        switch (e->k) {
        case KSym: r = e->c < curModel->size() ? (*curModel)[e->c] : syms[e->c].lo; break;
        case KIte: r = ev(e->a) ? ev(e->b) : ev(e->d); break;
        case KConcat: r = (ev(e->a) << e->b->w) | ev(e->b); break;
        case KExtract: r = (ev(e->a) >> e->c) & maskw(e->w); break;
        case KZExt: r = ev(e->a); break;
        case KSExt: r = (uint64_t)sextw(ev(e->a), e->a->w) & maskw(e->w); break;
        case KFToSI: case KFToUI: case KSIToF: case KUIToF: case KFExt: case KFTrunc: r = conv(e->k, e->w, ev(e->a), e->a->w); break;
        default: r = op2(e->k, e->a->w, ev(e->a), ev(e->b)); break;
        }
        e->evalEpoch = epoch; e->evalVal = r; return r;
    }
};

struct Z3Tr {
    Z3_context ctx; ExprPool &P;
    Z3_sort s32, s64; Z3_ast rne, rtz;
    Z3Tr(Z3_context c, ExprPool &p) : ctx(c), P(p) { s32 = Z3_mk_fpa_sort_32(c); s64 = Z3_mk_fpa_sort_64(c); rne = Z3_mk_fpa_rne(c); rtz = Z3_mk_fpa_rtz(c);
        keep(Z3_sort_to_ast(c, s32)); keep(Z3_sort_to_ast(c, s64)); keep(rne); keep(rtz); }
    Z3_ast keep(Z3_ast a) { Z3_inc_ref(ctx, a); return a; }
    Z3_ast fp(Expr *e) { return Z3_mk_fpa_to_fp_bv(ctx, bv(e), e->w == 32 ? s32 : s64); }
    Z3_ast bv1(Z3_ast b) { return Z3_mk_ite(ctx, b, num(1, 1), num(0, 1)); }
    Z3_ast num(uint64_t v, unsigned w) { return Z3_mk_unsigned_int64(ctx, v, Z3_mk_bv_sort(ctx, w)); }
    Z3_ast boolean(Expr *e) { // width 1
        if (e->zb) return e->zb;
        Z3_ast r;
        switch (e->k) {
        case KConst: r = e->c ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
        case KEq: if (e->a->w == 1) { if (P.isC(e->b)) { r = e->b->c ? boolean(e->a) : Z3_mk_not(ctx, boolean(e->a)); } else r = Z3_mk_iff(ctx, boolean(e->a), boolean(e->b)); }
            else r = Z3_mk_eq(ctx, bv(e->a), bv(e->b)); break;
        case KUlt: r = Z3_mk_bvult(ctx, bv(e->a), bv(e->b)); break;
        case KSlt: r = Z3_mk_bvslt(ctx, bv(e->a), bv(e->b)); break;
        case KAnd: { Z3_ast x[2] = {boolean(e->a), boolean(e->b)}; r = Z3_mk_and(ctx, 2, x); break; }
        case KOr: { Z3_ast x[2] = {boolean(e->a), boolean(e->b)}; r = Z3_mk_or(ctx, 2, x); break; }
        case KXor: r = Z3_mk_not(ctx, Z3_mk_iff(ctx, boolean(e->a), boolean(e->b))); break;
        case KIte: r = Z3_mk_ite(ctx, boolean(e->a), boolean(e->b), boolean(e->d)); break;
        case KUMulOvf: r = Z3_mk_not(ctx, Z3_mk_bvmul_no_overflow(ctx, bv(e->a), bv(e->b), false)); break;
        case KSMulOvf: { Z3_ast x[2] = {Z3_mk_bvmul_no_overflow(ctx, bv(e->a), bv(e->b), true), Z3_mk_bvmul_no_underflow(ctx, bv(e->a), bv(e->b))}; r = Z3_mk_not(ctx, Z3_mk_and(ctx, 2, x)); break; }
        case KSAddOvf: { Z3_ast x[2] = {Z3_mk_bvadd_no_overflow(ctx, bv(e->a), bv(e->b), true), Z3_mk_bvadd_no_underflow(ctx, bv(e->a), bv(e->b))}; r = Z3_mk_not(ctx, Z3_mk_and(ctx, 2, x)); break; }
        case KSSubOvf: { Z3_ast x[2] = {Z3_mk_bvsub_no_overflow(ctx, bv(e->a), bv(e->b)), Z3_mk_bvsub_no_underflow(ctx, bv(e->a), bv(e->b), true)}; r = Z3_mk_not(ctx, Z3_mk_and(ctx, 2, x)); break; }
        case KFOeq: r = Z3_mk_fpa_eq(ctx, fp(e->a), fp(e->b)); break;
        case KFOlt: r = Z3_mk_fpa_lt(ctx, fp(e->a), fp(e->b)); break;
        case KFOle: r = Z3_mk_fpa_leq(ctx, fp(e->a), fp(e->b)); break;
        case KFUno: { Z3_ast x[2] = {Z3_mk_fpa_is_nan(ctx, fp(e->a)), Z3_mk_fpa_is_nan(ctx, fp(e->b))}; r = Z3_mk_or(ctx, 2, x); break; }
        default: r = Z3_mk_eq(ctx, bv(e), num(1, 1)); break;
        }
        return e->zb = keep(r);
    }
    Z3_ast bv(Expr *e) {
        if (e->z) return e->z;
        Z3_ast r; auto A = [&] { return bv(e->a); }; auto B = [&] { return bv(e->b); };
        switch (e->k) {
        case KConst: r = num(e->c, e->w); break;
        case KSym: r = Z3_mk_const(ctx, Z3_mk_int_symbol(ctx, (int)e->c), Z3_mk_bv_sort(ctx, e->w)); break;
        case KAdd: r = Z3_mk_bvadd(ctx, A(), B()); break; case KSub: r = Z3_mk_bvsub(ctx, A(), B()); break;
        case KMul: case KUDiv: case KURem: {
            // operate on the bits that can be non-zero only
            unsigned __int128 h = (unsigned __int128)e->a->hi * e->b->hi; uint64_t m = e->a->hi | e->b->hi; unsigned k = e->w;
            if (e->k == KMul) { if (h <= maskw(e->w)) { m |= (uint64_t)h; k = m ? 64 - __builtin_clzll(m) : 1; } }
            else if (e->b->lo > 0) k = m ? 64 - __builtin_clzll(m) : 1;
            Z3_ast x = A(), y = B(); if (k < e->w) { x = Z3_mk_extract(ctx, k - 1, 0, x); y = Z3_mk_extract(ctx, k - 1, 0, y); }
            r = e->k == KMul ? Z3_mk_bvmul(ctx, x, y) : e->k == KUDiv ? Z3_mk_bvudiv(ctx, x, y) : Z3_mk_bvurem(ctx, x, y);
            if (k < e->w) r = Z3_mk_zero_ext(ctx, e->w - k, r);
            break; }
 case KSDiv: r = Z3_mk_bvsdiv(ctx, A(), B()); break;
        case KSRem: r = Z3_mk_bvsrem(ctx, A(), B()); break;
        case KAnd: if (e->w == 1) { r = bv1(boolean(e)); break; } r = Z3_mk_bvand(ctx, A(), B()); break;
        case KOr: if (e->w == 1) { r = bv1(boolean(e)); break; } r = Z3_mk_bvor(ctx, A(), B()); break;
        case KXor: if (e->w == 1) { r = bv1(boolean(e)); break; } r = Z3_mk_bvxor(ctx, A(), B()); break;
        case KShl: r = Z3_mk_bvshl(ctx, A(), B()); break; case KLShr: r = Z3_mk_bvlshr(ctx, A(), B()); break; case KAShr: r = Z3_mk_bvashr(ctx, A(), B()); break;
        case KIte: if (e->w == 1) { r = bv1(boolean(e)); break; } r = Z3_mk_ite(ctx, boolean(e->a), bv(e->b), bv(e->d)); break;
        case KConcat: r = Z3_mk_concat(ctx, A(), B()); break;
        case KExtract: r = Z3_mk_extract(ctx, (unsigned)e->c + e->w - 1, (unsigned)e->c, A()); break;
        case KZExt: r = Z3_mk_zero_ext(ctx, e->w - e->a->w, A()); break;
        case KSExt: r = Z3_mk_sign_ext(ctx, e->w - e->a->w, A()); break;
        case KFAdd: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_add(ctx, rne, fp(e->a), fp(e->b))); break;
        case KFSub: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_sub(ctx, rne, fp(e->a), fp(e->b))); break;
        case KFMul: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_mul(ctx, rne, fp(e->a), fp(e->b))); break;
        case KFDiv: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_div(ctx, rne, fp(e->a), fp(e->b))); break;
        case KFRem: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_rem(ctx, fp(e->a), fp(e->b))); break;
        case KFToSI: r = Z3_mk_fpa_to_sbv(ctx, rtz, fp(e->a), e->w); break;
        case KFToUI: r = Z3_mk_fpa_to_ubv(ctx, rtz, fp(e->a), e->w); break;
        case KSIToF: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_signed(ctx, rne, bv(e->a), e->w == 32 ? s32 : s64)); break;
        case KUIToF: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_unsigned(ctx, rne, bv(e->a), e->w == 32 ? s32 : s64)); break;
        case KFExt: case KFTrunc: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_float(ctx, rne, fp(e->a), e->w == 32 ? s32 : s64)); break;
        default: r = bv1(boolean(e)); break;
        }
        return e->z = keep(r);
    }

    // ------------------------------------------------------------ integer arithmetic translation
    // Values are the unsigned integers 0..2^w-1; wrap-around is modelled exactly. Throws IntUnsup when
    // an operation has no integer counterpart.
    struct IntUnsup {};
    // quotient by a constant as a fresh integer with its defining constraints (kept linear)
    std::unordered_map<Expr *, std::vector<Z3_ast>> sides; std::unordered_map<Expr *, Expr *> sidesExtra;
    Z3_ast quot(Expr *owner, Z3_ast t, Z3_ast divisor, Z3_ast *rem = nullptr) {
        Z3_ast q = keep(Z3_mk_fresh_const(ctx, "q", Z3_mk_int_sort(ctx))); Z3_ast r = keep(sub2(t, mul2(divisor, q)));
        sides[owner].push_back(keep(Z3_mk_ge(ctx, r, inum(0)))); sides[owner].push_back(keep(Z3_mk_lt(ctx, r, divisor)));
        if (rem) *rem = r; return q; }
    Z3_ast inum(uint64_t v) { return Z3_mk_unsigned_int64(ctx, v, Z3_mk_int_sort(ctx)); }
    Z3_ast pow2(unsigned w) { if (w < 64) return inum(1ull << w); return Z3_mk_numeral(ctx, w == 64 ? "18446744073709551616" : "340282366920938463463374607431768211456", Z3_mk_int_sort(ctx)); }
    Z3_ast add2(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return Z3_mk_add(ctx, 2, x); }
    Z3_ast sub2(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return Z3_mk_sub(ctx, 2, x); }
    Z3_ast mul2(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return Z3_mk_mul(ctx, 2, x); }
    Z3_ast sgn(Expr *e) { Z3_ast v = in(e); if (e->hi < (1ull << (e->w - 1))) return v; return Z3_mk_ite(ctx, Z3_mk_ge(ctx, v, inum(1ull << (e->w - 1))), sub2(v, pow2(e->w)), v); }
    Z3_ast ib(Expr *e) {
        if (e->zib) return e->zib;
        Z3_ast r;
        switch (e->k) {
        case KConst: r = e->c ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
        case KEq: if (e->a->w == 1) { if (P.isC(e->b)) r = e->b->c ? ib(e->a) : Z3_mk_not(ctx, ib(e->a)); else r = Z3_mk_iff(ctx, ib(e->a), ib(e->b)); } else r = Z3_mk_eq(ctx, in(e->a), in(e->b)); break;
        case KUlt: if (e->a->w == 1) { Z3_ast x[2] = {Z3_mk_not(ctx, ib(e->a)), ib(e->b)}; r = Z3_mk_and(ctx, 2, x); } else r = Z3_mk_lt(ctx, in(e->a), in(e->b)); break;
        case KSlt: r = Z3_mk_lt(ctx, sgn(e->a), sgn(e->b)); break;
        case KAnd: { Z3_ast x[2] = {ib(e->a), ib(e->b)}; r = Z3_mk_and(ctx, 2, x); break; }
        case KOr: { Z3_ast x[2] = {ib(e->a), ib(e->b)}; r = Z3_mk_or(ctx, 2, x); break; }
        case KXor: r = Z3_mk_not(ctx, Z3_mk_iff(ctx, ib(e->a), ib(e->b))); break;
        case KIte: r = Z3_mk_ite(ctx, ib(e->a), ib(e->b), ib(e->d)); break;
        case KUMulOvf: r = Z3_mk_ge(ctx, mul2(in(e->a), in(e->b)), pow2(e->a->w)); break;
        case KSym: case KExtract: r = Z3_mk_eq(ctx, in(e), inum(1)); break;
        default: throw IntUnsup{};
        }
        return e->zib = keep(r);
    }
    Z3_ast in(Expr *e) {
        if (e->zi) return e->zi;
        Z3_ast r; auto m = maskw(e->w);
        switch (e->k) {
        case KConst: r = inum(e->c); break;
        case KSym: r = Z3_mk_const(ctx, Z3_mk_int_symbol(ctx, (int)e->c), Z3_mk_int_sort(ctx)); break;
        case KAdd: { unsigned __int128 h = (unsigned __int128)e->a->hi + e->b->hi, l = (unsigned __int128)e->a->lo + e->b->lo;
            if (P.isC(e->b) && e->b->c > (m >> 1)) { // adding a negative constant
                uint64_t n = (0 - e->b->c) & m; Z3_ast t = sub2(in(e->a), inum(n)); r = e->a->lo >= n ? t : Z3_mk_ite(ctx, Z3_mk_ge(ctx, t, inum(0)), t, add2(t, pow2(e->w))); break; }
            Z3_ast t = add2(in(e->a), in(e->b)); if (h <= m) r = t; else if (l > m) r = sub2(t, pow2(e->w)); else r = Z3_mk_ite(ctx, Z3_mk_ge(ctx, t, pow2(e->w)), sub2(t, pow2(e->w)), t); break; }
        case KSub: { Z3_ast t = sub2(in(e->a), in(e->b)); r = e->a->lo >= e->b->hi ? t : Z3_mk_ite(ctx, Z3_mk_ge(ctx, t, inum(0)), t, add2(t, pow2(e->w))); break; }
        case KMul: { unsigned __int128 h = (unsigned __int128)e->a->hi * e->b->hi; Z3_ast t = mul2(in(e->a), in(e->b)); r = t; if (h > m) quot(e, t, pow2(e->w), &r); break; }
        case KUDiv: if (!e->b->lo) throw IntUnsup{}; if (P.isC(e->b)) r = quot(e, in(e->a), in(e->b)); else r = Z3_mk_div(ctx, in(e->a), in(e->b)); break;
        case KURem: if (!e->b->lo) throw IntUnsup{}; if (P.isC(e->b)) { Expr *dv = P.bin(KUDiv, e->a, e->b); if (dv->k == KUDiv) { r = sub2(in(e->a), mul2(in(e->b), in(dv))); sidesExtra[e] = dv; } else quot(e, in(e->a), in(e->b), &r); } else r = Z3_mk_mod(ctx, in(e->a), in(e->b)); break;
        case KIte: r = Z3_mk_ite(ctx, ib(e->a), e->w == 1 ? Z3_mk_ite(ctx, ib(e->b), inum(1), inum(0)) : in(e->b), e->w == 1 ? Z3_mk_ite(ctx, ib(e->d), inum(1), inum(0)) : in(e->d)); break;
        case KConcat: r = add2(mul2(in(e->a), pow2(e->b->w)), in(e->b)); break;
        case KExtract: { Z3_ast t = in(e->a); if (e->c) t = quot(e, t, pow2((unsigned)e->c)); if ((e->a->hi >> e->c) > m) { Z3_ast rr; quot(e, t, pow2(e->w), &rr); t = rr; } r = t; break; }
        case KZExt: r = in(e->a); break;
        case KSExt: { Z3_ast t = in(e->a); r = Z3_mk_ite(ctx, Z3_mk_ge(ctx, t, inum(1ull << (e->a->w - 1))), add2(t, sub2(pow2(e->w), pow2(e->a->w))), t); break; }
        default: if (e->w == 1) { r = Z3_mk_ite(ctx, ib(e), inum(1), inum(0)); break; } throw IntUnsup{};
        }
        return e->zi = keep(r);
    }
};
