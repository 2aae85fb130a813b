// instruction interpretation (included inside struct Engine)
Val icmp(unsigned pred, const Val &a, const Val &b, unsigned w) {
    if (a.conc() && b.conc()) { u64 x = a.c & maskw(w), y = b.c & maskw(w); int64_t sx = sextw(x, w), sy = sextw(y, w);
        switch (pred) { case CmpInst::ICMP_EQ: return Val((u64)(x == y)); case CmpInst::ICMP_NE: return Val((u64)(x != y)); case CmpInst::ICMP_UGT: return Val((u64)(x > y)); case CmpInst::ICMP_UGE: return Val((u64)(x >= y)); case CmpInst::ICMP_ULT: return Val((u64)(x < y)); case CmpInst::ICMP_ULE: return Val((u64)(x <= y)); case CmpInst::ICMP_SGT: return Val((u64)(sx > sy)); case CmpInst::ICMP_SGE: return Val((u64)(sx >= sy)); case CmpInst::ICMP_SLT: return Val((u64)(sx < sy)); default: return Val((u64)(sx <= sy)); } }
    Expr *x = ex(a, w), *y = ex(b, w);
    switch (pred) { case CmpInst::ICMP_EQ: return Val(P.bin(KEq, x, y)); case CmpInst::ICMP_NE: return Val(P.lnot(P.bin(KEq, x, y))); case CmpInst::ICMP_UGT: return Val(P.bin(KUlt, y, x)); case CmpInst::ICMP_UGE: return Val(P.bin(KUle, y, x)); case CmpInst::ICMP_ULT: return Val(P.bin(KUlt, x, y)); case CmpInst::ICMP_ULE: return Val(P.bin(KUle, x, y)); case CmpInst::ICMP_SGT: return Val(P.bin(KSlt, y, x)); case CmpInst::ICMP_SGE: return Val(P.bin(KSle, y, x)); case CmpInst::ICMP_SLT: return Val(P.bin(KSlt, x, y)); default: return Val(P.bin(KSle, x, y)); }
}
Val fcmp(unsigned pred, const Val &a, const Val &b, unsigned w) {
    Expr *x = ex(a, w), *y = ex(b, w); auto B = [&](Kind k, Expr *p, Expr *q) { return P.bin(k, p, q); }; Expr *un = B(KFUno, x, y);
    switch (pred) {
    case CmpInst::FCMP_FALSE: return Val((u64)0); case CmpInst::FCMP_TRUE: return Val((u64)1);
    case CmpInst::FCMP_OEQ: return Val(B(KFOeq, x, y)); case CmpInst::FCMP_OGT: return Val(B(KFOlt, y, x)); case CmpInst::FCMP_OGE: return Val(B(KFOle, y, x)); case CmpInst::FCMP_OLT: return Val(B(KFOlt, x, y)); case CmpInst::FCMP_OLE: return Val(B(KFOle, x, y));
    case CmpInst::FCMP_ONE: return Val(P.orb(B(KFOlt, x, y), B(KFOlt, y, x))); case CmpInst::FCMP_ORD: return Val(P.lnot(un)); case CmpInst::FCMP_UNO: return Val(un);
    case CmpInst::FCMP_UEQ: return Val(P.orb(un, B(KFOeq, x, y))); case CmpInst::FCMP_UGT: return Val(P.orb(un, B(KFOlt, y, x))); case CmpInst::FCMP_UGE: return Val(P.orb(un, B(KFOle, y, x))); case CmpInst::FCMP_ULT: return Val(P.orb(un, B(KFOlt, x, y))); case CmpInst::FCMP_ULE: return Val(P.orb(un, B(KFOle, x, y)));
    case CmpInst::FCMP_UNE: return Val(P.lnot(B(KFOeq, x, y)));
    }
    throw Unsupported{"fcmp"};
}
Val binop(Kind k, const Val &a, const Val &b, unsigned w) {
    bool isf = k >= KFAdd;
    if (k == KUDiv || k == KSDiv || k == KURem || k == KSRem) {
        if (b.conc()) { if (!(b.c & maskw(w))) die("arithmetic", "division by zero"); }
        else require(P.lnot(P.bin(KEq, ex(b, w), P.cst(0, w))), "arithmetic", "division by zero");
        if ((k == KSDiv || k == KSRem) && !(b.conc() && sextw(b.c, w) != -1)) { Expr *bad = P.andb(P.bin(KEq, ex(a, w), P.cst(1ull << (w - 1), w)), P.bin(KEq, ex(b, w), P.cst(maskw(w), w))); require(P.lnot(bad), "arithmetic", "signed division overflow"); }
    }
    if (a.conc() && b.conc() && !isf) return Val(ExprPool::op2(k, w, a.c & maskw(w), b.c & maskw(w)));
    return Val(P.bin(k, ex(a, w), ex(b, w)));
}
Val select(const Val &c, const Val &a, const Val &b, unsigned w) {
    if (c.conc()) return (c.c & 1) ? a : b;
    if (a.agg || b.agg) return branch(c) ? a : b;
    return Val(P.ite(c.e, ex(a, w), ex(b, w)));
}
static AtomicOrdering orderOf(Instruction *I) { return isa<LoadInst>(I) ? cast<LoadInst>(I)->getOrdering() : isa<StoreInst>(I) ? cast<StoreInst>(I)->getOrdering() : isa<AtomicRMWInst>(I) ? cast<AtomicRMWInst>(I)->getOrdering() : cast<AtomicCmpXchgInst>(I)->getSuccessOrdering(); }
// happens-before edges of an atomic access, according to its memory order (release sequences are kept)
void hbAtomic(const Val &a, Instruction *I) {
    if (S->vc.size() < 2 || !a.conc()) return; AtomicOrdering o = orderOf(I); bool acq = isAcquireOrStronger(o) && !isa<StoreInst>(I), rel = isReleaseOrStronger(o) && !isa<LoadInst>(I);
    VC &v = S->vc[S->cur]; VC &h = S->hb[a.c]; if (acq) for (int i = 0; i < MAXT; i++) v[i] = std::max(v[i], h[i]);
    if (isa<StoreInst>(I) && !rel) h = VC{}; if (rel) { for (int i = 0; i < MAXT; i++) h[i] = isa<StoreInst>(I) ? v[i] : std::max(h[i], v[i]); ++v[S->cur]; }
}
static bool schedulable(Instruction *I) { AtomicOrdering o = orderOf(I); return o == AtomicOrdering::SequentiallyConsistent || (o == AtomicOrdering::Monotonic && !isa<LoadInst>(I)); }
FnInfo *schedFn = nullptr; bool schedInit = false;
// returns true when a scheduling point must run first (frame pushed)
bool atomicPoint(Instruction *I) {
    auto &t = S->th[S->cur];
    if (S->live < 2 || S->raceOff) return false;
    if (t.atomReady) { t.atomReady = false; return false; }
    if (!schedulable(I)) return false;
    if (!schedInit) { schedInit = true; Function *F = M->getFunction("sxrt_sched_point"); if (F && !F->isDeclaration()) schedFn = fn(F); }
    if (!schedFn) return false;
    std::vector<Val> no; pushFrame(schedFn, no); fr->noRet = true; return true;
}
struct RaceOff { State *s; int l; RaceOff(State *x) : s(x), l(x->live) { s->live = 1; } ~RaceOff() { s->live = l; } };
bool handleIntrinsic(DInst &d, std::vector<Val> &a) {
    auto id = cast<CallBase>(d.I)->getCalledFunction()->getIntrinsicID(); unsigned w = tw(d.I->getType()); Val r;
    auto minmax = [&](unsigned pred) { return select(icmp(pred, a[0], a[1], w), a[0], a[1], w); };
    auto agg2 = [&](Val x, Val y) { AggV *g = new AggV(); g->v = {x, y}; Val v; v.agg = g; return v; };
    switch (id) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: copyMem(a[0], a[1], a[2]); break;
    case Intrinsic::memset: case Intrinsic::memset_inline: setMem(a[0], a[1], a[2]); break;
    case Intrinsic::umin: r = minmax(CmpInst::ICMP_ULT); break; case Intrinsic::umax: r = minmax(CmpInst::ICMP_UGT); break;
    case Intrinsic::smin: r = minmax(CmpInst::ICMP_SLT); break; case Intrinsic::smax: r = minmax(CmpInst::ICMP_SGT); break;
    case Intrinsic::abs: r = select(icmp(CmpInst::ICMP_SLT, a[0], Val((u64)0), w), binop(KSub, Val((u64)0), a[0], w), a[0], w); break;
    case Intrinsic::bswap: { if (a[0].conc()) { u64 x = 0; for (unsigned i = 0; i < w / 8; i++) x |= ((a[0].c >> (8 * i)) & 255) << (w - 8 - 8 * i); r = Val(x); } else { Expr *e = nullptr; for (unsigned i = 0; i < w / 8; i++) { Expr *b = P.extract(a[0].e, 8 * i, 8); e = e ? P.concat(e, b) : b; } r = Val(e); } break; }
    case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz: {
        if (a[0].conc()) { u64 x = a[0].c & maskw(w); r = Val(id == Intrinsic::ctpop ? (u64)__builtin_popcountll(x) : id == Intrinsic::cttz ? (x ? (u64)__builtin_ctzll(x) : w) : (x ? (u64)__builtin_clzll(x) - (64 - w) : w)); }
        else { Expr *e = id == Intrinsic::ctpop ? P.cst(0, w) : P.cst(w, w); for (unsigned k = 0; k < w; k++) { unsigned i = id == Intrinsic::cttz ? w - 1 - k : k; Expr *b = P.extract(a[0].e, i, 1); e = id == Intrinsic::ctpop ? P.bin(KAdd, e, P.zext(b, w)) : P.ite(b, P.cst(id == Intrinsic::cttz ? i : w - 1 - i, w), e); } r = Val(e); } break; }
    case Intrinsic::uadd_with_overflow: { unsigned v = tw(d.o[0].w ? d.I->getOperand(0)->getType() : nullptr); Val s = binop(KAdd, a[0], a[1], v); r = agg2(s, icmp(CmpInst::ICMP_ULT, s, a[0], v)); break; }
    case Intrinsic::usub_with_overflow: { unsigned v = tw(d.I->getOperand(0)->getType()); r = agg2(binop(KSub, a[0], a[1], v), icmp(CmpInst::ICMP_ULT, a[0], a[1], v)); break; }
    case Intrinsic::umul_with_overflow: { unsigned v = tw(d.I->getOperand(0)->getType()); r = agg2(binop(KMul, a[0], a[1], v), Val(P.bin(KUMulOvf, ex(a[0], v), ex(a[1], v)))); break; }
    case Intrinsic::smul_with_overflow: { unsigned v = tw(d.I->getOperand(0)->getType()); r = agg2(binop(KMul, a[0], a[1], v), Val(P.bin(KSMulOvf, ex(a[0], v), ex(a[1], v)))); break; }
    case Intrinsic::sadd_with_overflow: { unsigned v = tw(d.I->getOperand(0)->getType()); r = agg2(binop(KAdd, a[0], a[1], v), Val(P.bin(KSAddOvf, ex(a[0], v), ex(a[1], v)))); break; }
    case Intrinsic::ssub_with_overflow: { unsigned v = tw(d.I->getOperand(0)->getType()); r = agg2(binop(KSub, a[0], a[1], v), Val(P.bin(KSSubOvf, ex(a[0], v), ex(a[1], v)))); break; }
    case Intrinsic::usub_sat: r = select(icmp(CmpInst::ICMP_ULT, a[0], a[1], w), Val((u64)0), binop(KSub, a[0], a[1], w), w); break;
    case Intrinsic::uadd_sat: { Val s = binop(KAdd, a[0], a[1], w); r = select(icmp(CmpInst::ICMP_ULT, s, a[0], w), Val(maskw(w)), s, w); break; }
    case Intrinsic::fshl: case Intrinsic::fshr: { Val sh = binop(KURem, a[2], Val((u64)w), w); Val inv = binop(KSub, Val((u64)w), sh, w); bool l = id == Intrinsic::fshl; 
        Val x = l ? binop(KShl, a[0], sh, w) : binop(KLShr, a[1], sh, w), y = l ? binop(KLShr, a[1], inv, w) : binop(KShl, a[0], inv, w); r = select(icmp(CmpInst::ICMP_EQ, sh, Val((u64)0), w), l ? a[0] : a[1], binop(KOr, x, y, w), w); break; }
    case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::expect_with_probability: r = a[0]; break;
    case Intrinsic::objectsize: r = Val(~0ull); break; case Intrinsic::is_constant: r = Val((u64)0); break;
    case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: die("abort", "trap executed");
    case Intrinsic::eh_typeid_for: r = Val((u64)typeId(d.I->getOperand(0))); break;
    case Intrinsic::stacksave: r = Val((u64)0); break; case Intrinsic::stackrestore: break;
    case Intrinsic::threadlocal_address: {
        auto g = cast<GlobalVariable>(d.I->getOperand(0)->stripPointerCasts()); auto &t = S->th[S->cur]; auto it = t.tls.find(g);
        if (S->cur == 0) { r = a[0]; break; }
        if (it == t.tls.end()) { u64 sz = DL->getTypeAllocSize(g->getValueType()); uint32_t nid = alloc(sz, OGlobal, "tls", false); if (g->hasInitializer()) initMem(nid, 0, g->getInitializer()); t.tls[g] = mkAddr(nid); r = Val(mkAddr(nid)); } else r = Val(it->second); break; }
    case Intrinsic::fabs: r = Val(P.bin(KAnd, ex(a[0], w), P.cst(maskw(w) >> 1, w))); break;
    case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::trunc: case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::round: case Intrinsic::sqrt: case Intrinsic::log10: case Intrinsic::log2: case Intrinsic::log: case Intrinsic::exp: { conc(a[0], w); double x = ExprPool::todbl(a[0].c, w); x = id == Intrinsic::floor ? floor(x) : id == Intrinsic::ceil ? ceil(x) : id == Intrinsic::trunc ? trunc(x) : id == Intrinsic::round ? round(x) : id == Intrinsic::sqrt ? sqrt(x) : id == Intrinsic::log10 ? log10(x) : id == Intrinsic::log2 ? log2(x) : id == Intrinsic::log ? log(x) : id == Intrinsic::exp ? exp(x) : rint(x); r = Val(ExprPool::fromdbl(x, w)); break; }
    case Intrinsic::copysign: { u64 sb = 1ull << (w - 1); r = Val(P.bin(KOr, P.bin(KAnd, ex(a[0], w), P.cst(~sb, w)), P.bin(KAnd, ex(a[1], w), P.cst(sb, w)))); break; }
    case Intrinsic::fmuladd: r = binop(KFAdd, binop(KFMul, a[0], a[1], w), a[2], w); break;
    case Intrinsic::is_fpclass: {
        unsigned w = tw(d.I->getOperand(0)->getType()); u64 t = a[1].c, man = w == 64 ? (1ull << 52) - 1 : (1ull << 23) - 1, sg = 1ull << (w - 1), em = (sg - 1) & ~man, quiet = (man + 1) >> 1; Expr *x = ex(a[0], w); auto K = [&](u64 v) { return P.cst(v, w); };
        Expr *neg = P.bin(KEq, P.bin(KAnd, x, K(sg)), K(sg)), *mag = P.bin(KAnd, x, K(~sg & maskw(w))), *e = P.bin(KAnd, x, K(em)), *res = P.cst(0, 1);
        auto add = [&](u64 bit, Expr *c) { if (t & bit) res = P.orb(res, c); }; auto sgn = [&](u64 nb, u64 pb, Expr *c) { if ((t & nb) && (t & pb)) res = P.orb(res, c); else { add(nb, P.andb(c, neg)); add(pb, P.andb(c, P.lnot(neg))); } };
        Expr *nan = P.bin(KUlt, K(em), mag), *q = P.bin(KEq, P.bin(KAnd, x, K(quiet)), K(quiet)); if ((t & 3) == 3) add(1, nan); else { add(1, P.andb(nan, P.lnot(q))); add(2, P.andb(nan, q)); }
        sgn(4, 512, P.bin(KEq, mag, K(em))); sgn(32, 64, P.bin(KEq, mag, K(0))); sgn(16, 128, P.andb(P.bin(KEq, e, K(0)), P.lnot(P.bin(KEq, mag, K(0))))); sgn(8, 256, P.andb(P.lnot(P.bin(KEq, e, K(0))), P.lnot(P.bin(KEq, e, K(em)))));
        r = Val(res); break; }
    case Intrinsic::vastart: { // single implicit list: store pointer to an engine-side copy
        auto &va = fr->va; uint32_t id2 = alloc(std::max<size_t>(8, va.size() * 8), OStack, "va", false); for (size_t i = 0; i < va.size(); i++) storeObj(id2, i * 8, 8, va[i]);
        fr->allocas.push_back(id2); Val p = a[0]; store(p, 4, Val((u64)48)); store(addOff(p, 4), 4, Val((u64)304)); store(addOff(p, 8), 8, Val(mkAddr(id2))); store(addOff(p, 16), 8, Val((u64)0)); break; }
    case Intrinsic::vaend: break;
    case Intrinsic::prefetch: break;
    default: throw Unsupported{"intrinsic " + d.callee->name};
    }
    retTo(r); return true;
}
void execCall(DInst &d) {
    std::vector<Val> a; size_t na = d.o.size(); FnInfo *cf = d.callee;
    if (d.ext == -3) { // inline asm: treated as a compiler barrier
        retTo(Val()); return; }
    if (!cf) { // indirect
        --na; Val t = ov(d.o[na]); 
        if (!t.conc()) { if (t.e->k == KIte) { bool b = branch(Val(t.e->a)); t = Val(b ? t.e->b : t.e->d); } conc(t, 64); }
        auto it = fnById.find(addrId(t.c)); if (it == fnById.end() || addrOff(t.c) != 0) die("memory: invalid call", "call through an invalid function pointer");
        cf = it->second;
    }
    a.reserve(na); for (size_t i = 0; i < na; i++) a.push_back(ov(d.o[i]));
    if (cf->F->isIntrinsic()) { handleIntrinsic(d, a); return; }
    if (cf->ext == -2) { auto it = extId.find(cf->name); cf->ext = (it != extId.end() && (cf->F->isDeclaration())) ? it->second : -1; }
    if (cf->ext >= 0) { Val r; if (extFn[cf->ext](d, a, r)) retTo(r); return; }
    if (cf->F->isDeclaration()) throw Unsupported{"external function " + demangle(cf->name) + " [" + cf->name + "]"};
    if (opaqueNum && a.size() == 2 && !a[1].conc() && cf->name.rfind("_ZNSt7__cxx119to_stringE", 0) == 0) a[1] = Val((u64)7);
    pushFrame(cf, a);
}
const Val &aggAt(const Val &v, const std::vector<unsigned> &ix, size_t k) { static Val zero; if (!v.agg) return zero; const Val &x = v.agg->v[ix[k]]; return k + 1 == ix.size() ? x : aggAt(x, ix, k + 1); }
Val aggSet(const Val &v, const Val &n, const std::vector<unsigned> &ix, size_t k) { AggV *g = new AggV(); if (v.agg) g->v = v.agg->v; if (g->v.size() <= ix[k]) g->v.resize(ix[k] + 1); g->v[ix[k]] = k + 1 == ix.size() ? n : aggSet(g->v[ix[k]], n, ix, k + 1); Val r; r.agg = g; return r; }

void step() {
    DInst &d = fr->f->code[fr->pc];
    switch (d.op) {
    case DBin: { const Val &a = ov(d.o[0]), &b = ov(d.o[1]); 
        if (a.conc() && b.conc() && d.k == KAdd) fr->r[d.dst] = Val((a.c + b.c) & maskw(d.w)); else { Val r = binop((Kind)d.k, a, b, d.w); fr->r[d.dst] = r; } ++fr->pc; break; }
    case DICmp: { Val r = icmp(d.k, ov(d.o[0]), ov(d.o[1]), d.o[0].w); fr->r[d.dst] = r; ++fr->pc; break; }
    case DFCmp: { Val r = fcmp(d.k, ov(d.o[0]), ov(d.o[1]), d.o[0].w); fr->r[d.dst] = r; ++fr->pc; break; }
    case DLoad: { if (d.imm && atomicPoint(d.I)) break; Val a = ov(d.o[0]); Val r; if (d.imm) { RaceOff ro(S); r = loadTy(a, d.ty); } else r = loadTy(a, d.ty); if (d.imm) hbAtomic(a, d.I); fr->r[d.dst] = r; ++fr->pc; break; }
    case DStore: { if (d.imm && atomicPoint(d.I)) break; Val a = ov(d.o[1]); Val v = ov(d.o[0]); if (d.imm) { hbAtomic(a, d.I); RaceOff ro(S); storeTy(a, d.ty, v); } else storeTy(a, d.ty, v); ++fr->pc; break; }
    case DGep: {
        Val b = ov(d.o[0]); u64 off = d.imm; Expr *e = nullptr;
        for (auto &[s, i] : d.sc) { const Val &x = ov(d.o[i]); unsigned w = d.o[i].w; if (x.conc()) off += (u64)sextw(x.c, w) * s; else { Expr *t = P.bin(KMul, P.sext(ex(x, w), 64), P.cst(s, 64)); e = e ? P.bin(KAdd, e, t) : t; } }
        Val r; if (b.conc() && !e) r = Val(b.c + off); else { Expr *t = P.bin(KAdd, ex(b, 64), P.cst(off, 64)); if (e) t = P.bin(KAdd, t, e); r = Val(t); }
        fr->r[d.dst] = r; ++fr->pc; break; }
    case DAlloca: { Val n = ov(d.o[0]); u64 cnt = conc(n, 64); uint32_t id = alloc(d.imm * cnt, OStack, "", true); fr->allocas.push_back(id); fr->r[d.dst] = Val(mkAddr(id)); ++fr->pc; break; }
    case DBr: jump(d.t0, d.e0); break;
    case DCondBr: { bool b = branch(ov(d.o[0])); if (b) jump(d.t0, d.e0); else jump(d.t1, d.e1); break; }
    case DSwitch: {
        Val v = ov(d.o[0]); unsigned w = d.o[0].w;
        if (!v.conc()) { auto it = S->known.find(v.e); if (it != S->known.end()) v = Val(it->second); }
        if (v.conc()) { for (size_t i = 0; i < d.cases.size(); i++) if (d.cases[i].first == (v.c & maskw(w))) { jump(d.cases[i].second, d.caseEdges[i]); return; } jump(d.t0, d.e0); break; }
        for (size_t i = 0; i < d.cases.size(); i++) if (branch(Val(P.bin(KEq, v.e, P.cst(d.cases[i].first, w))))) { jump(d.cases[i].second, d.caseEdges[i]); return; }
        jump(d.t0, d.e0); break; }
    case DRet: {
        Val r; if (!d.o.empty()) r = ov(d.o[0]); bool nr = fr->noRet; popFrame();
        if (!fr) { if (S->cur == 0) throw PathEnd{}; die("thread", "thread function returned without scheduler"); }
        if (nr) { S->th[S->cur].atomReady = true; break; }
        retTo(r); break; }
    case DCall: case DInvoke: execCall(d); break;
    case DSelect: { Val r = select(ov(d.o[0]), ov(d.o[1]), ov(d.o[2]), d.w); fr->r[d.dst] = r; ++fr->pc; break; }
    case DZExt: { const Val &a = ov(d.o[0]); Val r = a.conc() ? Val(a.c & maskw(d.o[0].w)) : Val(P.zext(ex(a, d.o[0].w), d.w)); fr->r[d.dst] = r; ++fr->pc; break; }
    case DSExt: { const Val &a = ov(d.o[0]); Val r = a.conc() ? Val((u64)sextw(a.c, d.o[0].w) & maskw(d.w)) : Val(P.sext(ex(a, d.o[0].w), d.w)); fr->r[d.dst] = r; ++fr->pc; break; }
    case DTrunc: { const Val &a = ov(d.o[0]); Val r = a.agg ? a.agg->v[0] : a.conc() ? Val(a.c & maskw(d.w)) : Val(ex(a, d.w)); fr->r[d.dst] = r; ++fr->pc; break; }
    case DMove: { Val r = ov(d.o[0]); fr->r[d.dst] = r; ++fr->pc; break; }
    case DCvt: { const Val &a = ov(d.o[0]); Val r(P.cvt((Kind)d.k, ex(a, d.o[0].w), d.w)); fr->r[d.dst] = r; ++fr->pc; break; }
    case DFNeg: { const Val &a = ov(d.o[0]); Val r(P.bin(KXor, ex(a, d.w), P.cst(1ull << (d.w - 1), d.w))); fr->r[d.dst] = r; ++fr->pc; break; }
    case DVCast: {
        Val v = ov(d.o[0]), r; unsigned ew = (unsigned)d.imm, n = d.w / ew;
        if (d.k) { Expr *e = nullptr; for (unsigned i = 0; i < n; i++) { Expr *x = ex(v.agg ? v.agg->v[i] : Val((u64)0), ew); e = e ? P.concat(x, e) : x; } r = Val(e); }
        else { AggV *g = new AggV(); Expr *e = ex(v, d.w); for (unsigned i = 0; i < n; i++) g->v.push_back(Val(P.extract(e, ew * i, ew))); r.agg = g; }
        fr->r[d.dst] = r; ++fr->pc; break; }
    case DExtractV: { Val r = aggAt(ov(d.o[0]), d.idx, 0); fr->r[d.dst] = r; ++fr->pc; break; }
    case DInsertV: { Val r = aggSet(ov(d.o[0]), ov(d.o[1]), d.idx, 0); fr->r[d.dst] = r; ++fr->pc; break; }
    case DLanding: { auto &t = S->th[S->cur]; AggV *g = new AggV(); g->v = {t.exc, Val((u64)t.sel)}; Val r; r.agg = g; fr->r[d.dst] = r; ++fr->pc; break; }
    case DResume: { Val v = ov(d.o[0]); u64 e = v.agg->v[0].c; popFrame(); if (!fr) { report("uncaught exception", "exception escapes: " + excDesc(e), S->model); throw PathEnd{}; } doThrow(e); break; }
    case DUnreach: die("unreachable", "undefined behaviour: unreachable code executed");
    case DRmw: {
        if (atomicPoint(d.I)) break;
        Val a = ov(d.o[0]), v = ov(d.o[1]); RaceOff ro(S); Val old = loadTy(a, d.ty); Val n; 
        switch ((AtomicRMWInst::BinOp)d.k) { case AtomicRMWInst::Xchg: n = v; break; case AtomicRMWInst::Add: n = binop(KAdd, old, v, d.w); break; case AtomicRMWInst::Sub: n = binop(KSub, old, v, d.w); break; case AtomicRMWInst::And: n = binop(KAnd, old, v, d.w); break; case AtomicRMWInst::Or: n = binop(KOr, old, v, d.w); break; case AtomicRMWInst::Xor: n = binop(KXor, old, v, d.w); break; case AtomicRMWInst::UMax: n = select(icmp(CmpInst::ICMP_UGT, old, v, d.w), old, v, d.w); break; default: throw Unsupported{"atomicrmw"}; }
        hbAtomic(a, d.I); storeTy(a, d.ty, n); fr->r[d.dst] = old; ++fr->pc; break; }
    case DCmpXchg: { if (atomicPoint(d.I)) break; Val a = ov(d.o[0]); RaceOff ro(S); Val old = loadTy(a, d.ty); unsigned w = tw(d.ty); Val eq = icmp(CmpInst::ICMP_EQ, old, ov(d.o[1]), w); bool b = branch(eq); hbAtomic(a, d.I); if (b) storeTy(a, d.ty, ov(d.o[2])); AggV *g = new AggV(); g->v = {old, Val((u64)b)}; Val r; r.agg = g; fr->r[d.dst] = r; ++fr->pc; break; }
    case DFence: ++fr->pc; break;
    default: { std::string s; raw_string_ostream os(s); d.I->print(os); throw Unsupported{"instruction " + s}; }
    }
}
