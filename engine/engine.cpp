#include <unordered_set>
// symx: a KLEE-class symbolic executor for LLVM 18 IR with a Z3 back end.
// Executes the real (compiled to IR) code of /repo under symbolic inputs; every path is explored.
#include "state.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Transforms/Scalar/Scalarizer.h>
#include <llvm/Demangle/Demangle.h>
#include <chrono>
#include <set>
#include <fstream>
#include <sstream>
#include <iostream>
#include <functional>
#include <random>
#include <sys/resource.h>
#include <unistd.h>
using namespace llvm;
typedef uint64_t u64;

static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// ------------------------------------------------------------------ decoded program
struct Opnd { int reg = -1; Val c; uint8_t w = 64; };
struct FnInfo;
enum DOp : uint8_t { DBin, DICmp, DFCmp, DLoad, DStore, DGep, DAlloca, DBr, DCondBr, DSwitch, DRet, DCall, DInvoke, DSelect, DZExt, DSExt, DTrunc, DMove, DCvt, DExtractV, DInsertV, DLanding, DResume, DUnreach, DRmw, DCmpXchg, DFence, DFNeg, DVCast, DUnsup };
struct PhiCopy { int dst; Opnd o; };
struct DInst {
    DOp op; uint8_t w = 64; uint8_t k = 0; int dst = -1; u64 imm = 0; int t0 = -1, t1 = -1, e0 = -1, e1 = -1; // targets (pc) and edges
    std::vector<Opnd> o; std::vector<std::pair<u64, int>> sc; std::vector<std::pair<u64, int>> cases; std::vector<int> caseEdges; std::vector<unsigned> idx;
    Instruction *I = nullptr; FnInfo *callee = nullptr; Type *ty = nullptr; bool retVoid = false;
    int ext = -1;
};
struct FnInfo {
    Function *F = nullptr; std::string name; bool decoded = false; int nregs = 0; u64 addr = 0; int ext = -2;
    std::vector<DInst> code; std::vector<std::vector<PhiCopy>> edges; std::vector<int> byval; // byval sizes per arg (0 none)
    u64 calls = 0;
};
struct Frame { FnInfo *f; int pc = 0; bool noRet = false; std::vector<Val> r; std::vector<uint32_t> allocas; std::vector<Val> va; };
struct Thread { std::vector<Frame> fr; Val exc; int sel = 0; std::vector<u64> caught; std::map<GlobalVariable *, u64> tls; bool done = false, atomReady = false; };
typedef std::array<uint32_t, MAXT> VC;
struct ExcInfo { GlobalVariable *ti; };
struct State {
    Mem mem; std::vector<Thread> th; int cur = 0;
    std::vector<Expr *> pc; std::unordered_map<Expr *, u64> known;
    std::shared_ptr<const std::vector<u64>> model;
    std::vector<Expr *> symOrder; std::vector<std::pair<std::string,Val>> obs;
    std::map<u64, ExcInfo> excs; u64 steps = 0; u64 depth = 0;
    std::map<u64, VC> hb; std::vector<VC> vc; int live = 1; int raceOff = 0;
    std::vector<std::string> notes;
};

struct Violation { std::string kind, msg, where; std::vector<std::pair<std::string, std::pair<unsigned, u64>>> inputs; std::vector<u64> obs; bool uninit = false; };
struct PathEnd {};               // path finished (assume false, exit)
struct Unsupported { std::string what; };
struct Retry {};                 // state changed (thrown exception) - re-dispatch

struct Engine {
    LLVMContext ctx; std::unique_ptr<Module> M; const DataLayout *DL = nullptr;
    ExprPool P; Z3_context z3; Z3Tr *tr;
    std::unordered_map<Function *, FnInfo *> fns; std::vector<FnInfo *> fnByObj; std::unordered_map<uint32_t, FnInfo *> fnById;
    std::unordered_map<GlobalVariable *, uint32_t> gv;
    std::vector<State *> work; State *S = nullptr;
    std::map<std::tuple<size_t, std::string, unsigned, u64, u64>, Expr *> symTab;
    std::map<Value *, int> typeIds; std::vector<long> params;
    // stats
    u64 nInst = 0, nForks = 0, nQueries = 0, nPaths = 0, nPruned = 0, nChecks = 0, nChecksSolver = 0, nSat = 0, nUnsat = 0; double solverT = 0;
    std::map<std::string, u64> covers; std::vector<Violation> viol; std::vector<std::string> incon; std::set<std::string> violKeys;
    std::set<FnInfo *> usedFns; size_t maxViol = 1; double maxTime = 600; u64 maxSteps = 400000000ull; double t0; unsigned qTimeout = 60000;
    std::vector<Violation> samples; size_t nSamples = 3; u64 sampleSeen = 0; std::mt19937_64 rng{1}; bool raceOn = true, opaqueNum = false; u64 allocLimit = 1ull << 26; bool wasPruned = false;
    u64 maxDepth = 400;
    bool trace = false; u64 maxLiveStates = 0;
    std::map<std::string, int> extId; std::vector<std::function<bool(DInst &, std::vector<Val> &, Val &)>> extFn; std::vector<std::string> extName;
    int emptyEdge = -1;
    bool globalsDone = false;

    // -------------------------------------------------------------- solver
    void initZ3() {
        Z3_config c = Z3_mk_config(); z3 = Z3_mk_context(c); Z3_del_config(c);
        Z3_set_error_handler(z3, [](Z3_context c, Z3_error_code e) { std::cerr << "z3 error: " << Z3_get_error_msg(c, e) << "\n"; });
        bv.s = Z3_mk_solver_for_logic(z3, Z3_mk_string_symbol(z3, "QF_BV")); Z3_solver_inc_ref(z3, bv.s); bv.mode = 0; iv.s = Z3_mk_solver_for_logic(z3, Z3_mk_string_symbol(z3, "QF_LIA")); Z3_solver_inc_ref(z3, iv.s); iv.mode = 1; fpb.s = Z3_mk_solver(z3); Z3_solver_inc_ref(z3, fpb.s); fpb.mode = 2;
        tr = new Z3Tr(z3, P);
    }
    std::shared_ptr<std::vector<u64>> lastModel;
    struct Back { Z3_solver s; std::vector<Expr *> st; int mode; }; Back bv, iv, fpb; int strategy = 0; u64 nInt = 0;
    void setTimeout(Z3_solver s, unsigned ms) { Z3_params p = Z3_mk_params(z3); Z3_params_inc_ref(z3, p); Z3_params_set_uint(z3, p, Z3_mk_string_symbol(z3, "timeout"), ms); Z3_solver_set_params(z3, s, p); Z3_params_dec_ref(z3, p); }
    Z3_lbool solveWith(Back &B, Expr *extra, unsigned ms) {
        auto T = [&](Expr *e) { return B.mode == 1 ? tr->ib(e) : tr->boolean(e); };
        if (B.mode == 2) { Z3_solver_reset(z3, B.s); B.st.clear(); }
        size_t n = 0; while (n < B.st.size() && n < S->pc.size() && B.st[n] == S->pc[n]) ++n;
        if (B.st.size() > n) { Z3_solver_pop(z3, B.s, (unsigned)(B.st.size() - n)); B.st.resize(n); }
        try {
            for (; n < S->pc.size(); ++n) { Z3_ast c = T(S->pc[n]); Z3_solver_push(z3, B.s); B.st.push_back(S->pc[n]); Z3_solver_assert(z3, B.s, c); if (B.mode == 1) side(B, S->pc[n]); }
            Z3_ast c = T(extra); Z3_solver_push(z3, B.s); Z3_solver_assert(z3, B.s, c); if (B.mode == 1) side(B, extra);
        } catch (Z3Tr::IntUnsup &) { return Z3_L_UNDEF; }
        setTimeout(B.s, ms); double tq = now(); Z3_lbool r = Z3_solver_check(z3, B.s);
        if (auto dd = getenv("SYMX_DUMP")) if (now() - tq > 1) { static int nd = 0; std::ofstream f(std::string(dd) + "/q" + std::to_string(nd++) + (B.mode == 1 ? "i" : "b") + std::to_string((int)r) + ".smt2"); f << Z3_solver_to_string(z3, B.s) << "(check-sat)\n"; }
        if (r == Z3_L_TRUE) {
            Z3_model m = Z3_solver_get_model(z3, B.s); Z3_model_inc_ref(z3, m);
            lastModel = std::make_shared<std::vector<u64>>(P.syms.size());
            for (size_t i = 0; i < P.syms.size(); i++) (*lastModel)[i] = S->model && i < S->model->size() ? (*S->model)[i] : P.syms[i].lo;
            unsigned nc = Z3_model_get_num_consts(z3, m);
            for (unsigned i = 0; i < nc; i++) {
                Z3_func_decl d = Z3_model_get_const_decl(z3, m, i); Z3_symbol sy = Z3_get_decl_name(z3, d);
                if (Z3_get_symbol_kind(z3, sy) != Z3_INT_SYMBOL) continue;
                Z3_ast v = Z3_model_get_const_interp(z3, m, d); uint64_t x;
                if (v && Z3_get_numeral_uint64(z3, v, &x)) (*lastModel)[Z3_get_symbol_int(z3, sy)] = x;
            }
            Z3_model_dec_ref(z3, m);
        }
        Z3_solver_pop(z3, B.s, 1);
        return r;
    }
    // symbols of an expression (memoised); integer mode needs their bounds asserted
    std::unordered_map<Expr *, std::shared_ptr<std::set<uint32_t>>> symMemo;
    const std::set<uint32_t> &symsOf(Expr *e) {
        auto it = symMemo.find(e); if (it != symMemo.end()) return *it->second;
        auto s = std::make_shared<std::set<uint32_t>>(); if (e->k == KSym) s->insert((uint32_t)e->c);
        for (Expr *x : {e->a, e->b, e->d}) if (x && x->k != KConst) { auto &y = symsOf(x); s->insert(y.begin(), y.end()); }
        if ((e->k == KUDiv || e->k == KURem || e->k == KMul || e->k == KExtract) && e->id < 0x80000000u) { s->insert(e->id | 0x80000000u); byId[e->id] = e; }
        symMemo[e] = s; return *s;
    }
    std::unordered_map<uint32_t, Expr *> byId;
    void side(Back &B, Expr *e) {
        for (auto i : symsOf(e)) { if (!(i & 0x80000000u)) { bound(B, i); continue; }
            Expr *x = byId[i & 0x7fffffffu]; auto ex = tr->sidesExtra.find(x); if (ex != tr->sidesExtra.end()) x = ex->second;
            auto it = tr->sides.find(x); if (it != tr->sides.end()) for (auto c : it->second) Z3_solver_assert(z3, B.s, c); }
    }
    void bound(Back &B, uint32_t i) { Z3_ast v = Z3_mk_const(z3, Z3_mk_int_symbol(z3, (int)i), Z3_mk_int_sort(z3)); Z3_solver_assert(z3, B.s, Z3_mk_ge(z3, v, tr->inum(P.syms[i].lo))); Z3_solver_assert(z3, B.s, Z3_mk_le(z3, v, tr->inum(P.syms[i].hi))); }
    // is PC && extra satisfiable?  1 sat, 0 unsat, -1 unknown
    int check(Expr *extra) {
        if (extra->k == KConst && !extra->c) return 0;
        double t = now(); ++nQueries;
        bool fp = extra->hasFP; for (auto c : S->pc) fp = fp || c->hasFP;
        Z3_lbool r = Z3_L_UNDEF;
        if (fp) r = solveWith(fpb, extra, qTimeout);
        else {
            struct St { Back *b; unsigned ms; }; std::vector<St> plan;
            if (strategy == 0) plan = {{&bv, 1500}, {&iv, 8000}, {&bv, qTimeout}, {&iv, qTimeout}};
            else plan = {{&iv, 3000}, {&bv, 8000}, {&iv, qTimeout}, {&bv, qTimeout}};
            for (auto &p : plan) { if (now() - t0 > maxTime) break; r = solveWith(*p.b, extra, p.ms); if (r != Z3_L_UNDEF) { if (p.b == &iv) ++nInt; break; } }
        }
        if (r == Z3_L_TRUE) ++nSat; else if (r == Z3_L_FALSE) ++nUnsat;
        double dt = now() - t; solverT += dt;
        if (getenv("SYMX_SLOW") && dt > 1) std::cerr << "slow query " << dt << "s r=" << r << " " << (fr ? where() : "") << "\n";
        if (r == Z3_L_TRUE) {   // sanity: the model must satisfy pc and extra (guards the translation)
            P.setModel(lastModel.get()); curModelPtr = lastModel.get();
            bool bad = !P.ev(extra); for (auto c : S->pc) if (!P.ev(c)) bad = true;
            if (bad && !fp) { incon.push_back("internal: solver model disagrees with evaluator"); throw Unsupported{"model/evaluator mismatch"}; }
            curModelHold = lastModel;
        }
        return r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
    }
    const std::vector<u64> *curModelPtr = nullptr; std::shared_ptr<const std::vector<u64>> curModelHold;
    u64 evalM(Expr *e) { if (curModelPtr != S->model.get()) { P.setModel(S->model.get()); curModelPtr = S->model.get(); curModelHold = S->model; } return P.ev(e); }
    void learn(Expr *c, bool v) {
        S->known[c] = v;
        if (v && c->k == KEq && c->b->k == KConst && c->a->w > 1) S->known[c->a] = c->b->c;
        if (c->k == KEq && c->a->w == 1 && c->b->k == KConst) learn(c->a, v ? c->b->c : !c->b->c);
        if (v && c->k == KAnd && c->w == 1) { learn(c->a, true); learn(c->b, true); }
        if (!v && c->k == KOr && c->w == 1) { learn(c->a, false); learn(c->b, false); }
    }
    void addC(Expr *c) { if (c->k == KConst) return; S->pc.push_back(c); learn(c, true); }
    State *clone() { ++nForks; State *n = new State(*S); work.push_back(n); if (work.size() > maxLiveStates) maxLiveStates = work.size(); return n; }

    // decide a width-1 expression; forks when both outcomes are possible
    bool branch(const Val &v) {
        if (v.conc()) return v.c & 1;
        Expr *e = v.e; auto it = S->known.find(e); if (it != S->known.end()) return it->second;
        bool mv = evalM(e); Expr *other = mv ? P.lnot(e) : e;
        auto keepModel = S->model;
        int r = check(other);
        if (r < 0) { incon.push_back("solver timeout at branch"); throw Unsupported{"solver timeout"}; }
        if (r == 1) { State *n = clone(); State *cur = S; auto lm = lastModel; S = n; addC(other); n->model = lm; S = cur; }
        addC(mv ? e : P.lnot(e));
        if (r == 0) { S->pc.pop_back(); /* implied: no need to keep */ }
        return mv;
    }
    // force a concrete value; forks over all other feasible values (the other state re-executes the instruction)
    u64 conc(Val &v, unsigned w) {
        (void)w; if (v.conc()) return v.c;
        auto it = S->known.find(v.e); if (it != S->known.end()) { v = Val(it->second); return v.c; }
        Expr *e = v.e; u64 x = evalM(e); Expr *eq = P.bin(KEq, e, P.cst(x, e->w)); Expr *ne = P.lnot(eq);
        int r = check(ne);
        if (r < 0) { incon.push_back("solver timeout at concretisation"); throw Unsupported{"solver timeout"}; }
        if (r == 1) { State *n = clone(); State *cur = S; auto lm = lastModel; S = n; addC(ne); n->model = lm; S = cur; addC(eq); }
        S->known[e] = x; v = Val(x); return x;
    }
    Expr *ex(const Val &v, unsigned w) { if (v.e) { return v.e->w == w ? v.e : (v.e->w > w ? P.trunc(v.e, w) : P.zext(v.e, w)); } return P.cst(v.c, w); }

    // -------------------------------------------------------------- reporting
    std::string where() {
        std::string s; auto &t = S->th[S->cur];
        for (size_t i = t.fr.size(), n = 0; i-- > 0 && n < 10; ++n) { std::string d = demangle(t.fr[i].f->name); if (d.size() > 160) d = d.substr(0, 160) + "..."; s += (n ? " <- " : "") + d; }
        return s;
    }
    void fillInputs(Violation &v, const std::vector<u64> *m) {
        P.setModel(m); curModelPtr = nullptr;
        for (auto s : S->symOrder) if (!P.syms[s->c].uninit) v.inputs.push_back({P.syms[s->c].name, {s->w, P.ev(s)}});
        for (auto &o : S->obs) v.obs.push_back(o.second.e ? P.ev(o.second.e) : o.second.c);
    }
    // does the path (or the given condition, or an observation) depend on bytes nobody initialised?
    bool pathUninit(Expr *cond) {
        bool any = false; for (auto s : S->symOrder) any |= P.syms[s->c].uninit; if (!any) return false;
        std::unordered_set<Expr *> seen; std::vector<Expr *> w(S->pc.begin(), S->pc.end()); if (cond) w.push_back(cond); for (auto &o : S->obs) if (o.second.e) w.push_back(o.second.e);
        while (!w.empty()) { Expr *e = w.back(); w.pop_back(); if (!e || !seen.insert(e).second) continue; if (e->k == KSym && P.syms[e->c].uninit) return true; w.push_back(e->a); w.push_back(e->b); w.push_back(e->d); }
        return false; }
    void report(const std::string &kind, const std::string &msg, std::shared_ptr<const std::vector<u64>> m, Expr *cond = nullptr) {
        std::string key = kind + "|" + msg; 
        if (violKeys.count(key)) return; 
        violKeys.insert(key);
        Violation v; v.kind = kind; v.msg = msg; v.where = where();
        v.uninit = pathUninit(cond);
        fillInputs(v, m.get()); viol.push_back(v);
    }
    // an error that happens on this path unconditionally
    [[noreturn]] void die(const std::string &kind, const std::string &msg) { report(kind, msg, S->model); throw PathEnd{}; }
    // require cond; report a violation when it can fail, continue with it assumed
    void require(Expr *cond, const std::string &kind, const std::string &msg) {
        ++nChecks;
        if (cond->k == KConst) { if (cond->c) return; die(kind, msg); }
        auto it = S->known.find(cond); if (it != S->known.end() && it->second) return;
        if (!evalM(cond)) { report(kind, msg, S->model, cond); int r = check(cond); if (r < 0) { incon.push_back("solver timeout at check"); throw Unsupported{"solver timeout"}; } if (r == 0) throw PathEnd{}; addC(cond); S->model = lastModel; return; }
        ++nChecksSolver;
        int r = check(P.lnot(cond));
        if (r < 0) { incon.push_back("solver timeout at check: " + msg); throw Unsupported{"solver timeout"}; }
        if (r == 1) { report(kind, msg, lastModel, cond); addC(cond); }
        else S->known[cond] = 1;
    }

    // -------------------------------------------------------------- memory
    uint32_t alloc(u64 size, ObjKind k, const char *name, bool uninit) {
        Obj *o = new Obj(); o->size = (uint32_t)size; o->kind = k; o->name = name; o->d.assign(size, 0); o->st.assign(size, uninit ? ST_UNINIT : ST_CONC);
        return S->mem.add(o);
    }
    static const char *kindName(ObjKind k) { return k == OHeap ? "heap" : k == OStack ? "stack" : k == OGlobal ? "global" : "function"; }
    [[noreturn]] void badAddr(u64 a, u64 n, const char *what) {
        uint32_t id = addrId(a); Obj *o = S->mem.get(id); std::ostringstream s;
        const char *kd = what[0] == 'w' ? "invalid write" : what[0] == 'r' ? "invalid read" : "invalid memory operation";
        if (!id) s << "null pointer " << what; else if (!o) s << what << " of released or unknown memory"; else s << "out-of-bounds " << what << " on " << kindName(o->kind) << " object of size " << o->size << " (offset " << addrOff(a) << ", " << n << " bytes)";
        die(std::string("memory: ") + kd, s.str());
    }
    // resolve a possibly symbolic address to an object; returns object id; offset Val. Forks/report as needed.
    uint32_t resolve(Val &a, u64 n, bool write, const char *what) {
        if (a.conc()) {
            uint32_t id = addrId(a.c); Obj *o = S->mem.get(id); int64_t off = addrOff(a.c);
            if (!o || off < 0 || (u64)off + n > o->size || (write && o->ro) || o->kind == OFunc) badAddr(a.c, n, what);
            return id;
        }
        auto it = S->known.find(a.e); if (it != S->known.end()) { a = Val(it->second); return resolve(a, n, write, what); }
        if (a.e->k == KIte && (a.e->b->k == KConst || a.e->d->k == KConst)) { bool t = branch(Val(a.e->a)); a = Val(t ? a.e->b : a.e->d); return resolve(a, n, write, what); }
        u64 m = evalM(a.e); uint32_t id = addrId(m); Obj *o = S->mem.get(id); int64_t off = addrOff(m);
        if (!o || off < 0 || (u64)off + n > o->size || (write && o->ro) || o->kind == OFunc) badAddr(m, n, what);
        u64 lo = mkAddr(id), hi = lo + o->size - n;
        Expr *in = P.bin(KUle, P.bin(KSub, a.e, P.cst(lo, 64)), P.cst(hi - lo, 64));
        // the other objects (or out of bounds) are explored in a forked state which re-executes
        if (in->k != KConst) { auto k = S->known.find(in); if (k == S->known.end() || !k->second) { bool b = branch(Val(in)); (void)b; } }
        return id;
    }
    Val loadObj(uint32_t id, u64 off, unsigned n) { // n<=8 bytes
        Obj *o = S->mem.get(id); const uint8_t *st = &o->st[off];
        bool allc = true; for (unsigned i = 0; i < n; i++) if (st[i]) { allc = false; break; }
        if (allc) { u64 r = 0; memcpy(&r, &o->d[off], n); return Val(r); }
        bool anyU = false; for (unsigned i = 0; i < n; i++) if (st[i] == ST_UNINIT) anyU = true;
        if (anyU) {
            o = S->mem.getW(id); if (o->sym.empty()) o->sym.resize(o->size, nullptr);
            bool allU = true; for (unsigned i = 0; i < n; i++) if (o->st[off + i] != ST_UNINIT) allU = false;
            if (allU) { Expr *s = newSym("uninit", n * 8, 0, maskw(n * 8), true); for (unsigned i = 0; i < n; i++) { o->sym[off + i] = s; o->d[off + i] = (uint8_t)i; o->st[off + i] = ST_SYM; } }
            else for (unsigned i = 0; i < n; i++) if (o->st[off + i] == ST_UNINIT) { o->sym[off + i] = newSym("uninit", 8, 0, 255, true); o->d[off + i] = 0; o->st[off + i] = ST_SYM; }
        }
        Expr *r = nullptr;
        // symbolic bytes refer to (whole value, byte index); an aligned reload yields the stored value itself
        if (o->st[off] == ST_SYM) { Expr *W = o->sym[off]; unsigned i0 = o->d[off]; bool run = true; for (unsigned i = 1; i < n && run; i++) run = o->st[off + i] == ST_SYM && o->sym[off + i] == W && o->d[off + i] == i0 + i;
            if (run) return Val(P.extract(W, 8 * i0, 8 * n)); }
        for (unsigned i = 0; i < n; i++) { Expr *b = o->st[off + i] ? P.extract(o->sym[off + i], 8 * o->d[off + i], 8) : P.cst(o->d[off + i], 8); r = r ? P.concat(b, r) : b; }
        return Val(r);
    }
    void storeObj(uint32_t id, u64 off, unsigned n, const Val &v) {
        Obj *o = S->mem.getW(id);
        if (v.conc()) { memcpy(&o->d[off], &v.c, n); memset(&o->st[off], 0, n); return; }
        if (o->sym.empty()) o->sym.resize(o->size, nullptr);
        Expr *e = ex(v, n * 8);
        bool structural = e->k == KZExt || e->k == KConcat;
        for (unsigned i = 0; i < n; i++) {
            if (structural) { Expr *b = P.extract(e, 8 * i, 8); if (b->k == KConst) { o->d[off + i] = (uint8_t)b->c; o->st[off + i] = 0; } else { o->sym[off + i] = b; o->d[off + i] = 0; o->st[off + i] = ST_SYM; if (e->k == KZExt && e->a->w % 8 == 0 && i < e->a->w / 8u) { o->sym[off + i] = e->a; o->d[off + i] = (uint8_t)i; } } }
            else { o->sym[off + i] = e; o->d[off + i] = (uint8_t)i; o->st[off + i] = ST_SYM; } }
    }
    void raceCheck(uint32_t id, u64 off, u64 n, bool write) {
        if (S->live < 2 || S->raceOff || !raceOn) return;
        Obj *o = S->mem.get(id); if (o->ro || o->norace || o->kind == OFunc) return;
        o = S->mem.getW(id); if (o->shadow.empty()) o->shadow.resize(o->size);
        int t = S->cur; VC &vc = S->vc[t];
        for (u64 i = off; i < off + n; i++) {
            Shadow &s = o->shadow[i];
            if (s.wt != 255 && s.wt != t && s.wc > vc[s.wt]) die("data race", std::string("unsynchronised ") + (write ? "write" : "read") + " conflicts with a write of another thread (" + kindName(o->kind) + " object " + o->name + ")");
            if (write) for (int k = 0; k < MAXT; k++) if (k != t && s.rc[k] > vc[k]) die("data race", std::string("unsynchronised write conflicts with a read of another thread (") + kindName(o->kind) + " object " + o->name + ")");
            if (write) { s.wt = (uint8_t)t; s.wc = vc[t]; } else s.rc[t] = vc[t];
        }
    }
    struct AddrPlan { bool single; u64 off; std::vector<u64> offs; Expr *offE; };
    // plan an access with symbolic offset inside object id
    AddrPlan plan(Val &a, uint32_t id, unsigned n, bool write) {
        AddrPlan p; p.single = false; p.offE = nullptr;
        if (a.conc()) { p.single = true; p.off = (u64)addrOff(a.c); return p; }
        Obj *o = S->mem.get(id); Expr *offE = P.bin(KSub, a.e, P.cst(mkAddr(id), 64)); p.offE = offE;
        if (offE->k == KConst) { p.single = true; p.off = offE->c; return p; }
        u64 step = 1ull << std::min(20u, ExprPool::tz(offE)); u64 mx = o->size - n; 
        u64 lo = 0; if (offE->hi < mx) mx = offE->hi; if (offE->lo <= mx) lo = (offE->lo + step - 1) / step * step;
        u64 cnt = (mx - lo) / step + 1;
        u64 limit = (o->ro || !write) ? 1100 : 128;
        if (cnt > limit) { u64 c = conc(a, 64); p.single = true; p.off = (u64)addrOff(c); return p; }
        for (u64 k = lo; k <= mx; k += step) p.offs.push_back(k);
        return p;
    }
    Val load(Val a, unsigned n, const char *what = "read") {
        uint32_t id = resolve(a, n, false, what); auto p = plan(a, id, n, false);
        if (p.single) { raceCheck(id, p.off, n, false); return loadObj(id, p.off, n); }
        if (p.offs.size() >= 16 && p.offs[0] == 0 && n <= 8) { u64 st = p.offs[1]; std::vector<u64> t; if ((st & (st - 1)) == 0) for (u64 o : p.offs) { Val v = loadObj(id, o, n); if (v.e) break; t.push_back(v.c); } if (t.size() == p.offs.size()) { Expr *e = P.affineTable(P.bin(KLShr, p.offE, P.cst(__builtin_ctzll(st), 64)), t, n * 8); if (e) return Val(e); } }
        Expr *r = nullptr;
        for (size_t i = p.offs.size(); i-- > 0;) { Val v = loadObj(id, p.offs[i], n); Expr *e = ex(v, n * 8); r = r ? P.ite(P.bin(KEq, p.offE, P.cst(p.offs[i], 64)), e, r) : e; }
        return Val(r);
    }
    void store(Val a, unsigned n, const Val &v, const char *what = "write") {
        uint32_t id = resolve(a, n, true, what); auto p = plan(a, id, n, true);
        if (p.single) { raceCheck(id, p.off, n, true); storeObj(id, p.off, n, v); return; }
        std::vector<Val> nv; Expr *ve = ex(v, n * 8);
        for (u64 k : p.offs) { // sequential update is fine: at most one guard is true, but overlapping slots must see the guarded value
            Val old = loadObj(id, k, n); Expr *e = P.ite(P.bin(KEq, p.offE, P.cst(k, 64)), ve, ex(old, n * 8)); storeObj(id, k, n, Val(e)); }
    }
    unsigned tsize(Type *t) { return (unsigned)DL->getTypeStoreSize(t); }
    static unsigned tw(Type *t) { // bit width of a scalar type
        if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isPointerTy() || t->isDoubleTy()) return 64; if (t->isFloatTy()) return 32; return 0; }
    Val loadTy(Val a, Type *t) {
        unsigned w = tw(t);
        if (w && w <= 64) { Val v = load(a, tsize(t)); if (w != tsize(t) * 8) { if (v.e) v = Val(P.trunc(v.e, w)); else v.c &= maskw(w); } return v; }
        AggV *g = new AggV();
        if (auto st = dyn_cast<StructType>(t)) { auto L = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) g->v.push_back(loadTy(addOff(a, L->getElementOffset(i)), st->getElementType(i))); }
        else if (auto at = dyn_cast<ArrayType>(t)) { u64 es = DL->getTypeAllocSize(at->getElementType()); for (unsigned i = 0; i < at->getNumElements(); i++) g->v.push_back(loadTy(addOff(a, es * i), at->getElementType())); }
        else if (auto vt = dyn_cast<FixedVectorType>(t)) { u64 es = tsize(vt->getElementType()); for (unsigned i = 0; i < vt->getNumElements(); i++) g->v.push_back(loadTy(addOff(a, es * i), vt->getElementType())); }
        else if (t->isIntegerTy(128)) { g->v.push_back(load(a, 8)); g->v.push_back(load(addOff(a, 8), 8)); }
        else throw Unsupported{"load of type"};
        Val v; v.agg = g; return v;
    }
    void storeTy(Val a, Type *t, const Val &v) {
        unsigned w = tw(t);
        if (w && w <= 64) { Val x = v; if (w != tsize(t) * 8 && x.e) x = Val(P.zext(x.e, tsize(t) * 8)); store(a, tsize(t), x); return; }
        auto el = [&](unsigned i) -> Val { return v.agg ? v.agg->v[i] : Val((u64)0); };
        if (auto st = dyn_cast<StructType>(t)) { auto L = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) storeTy(addOff(a, L->getElementOffset(i)), st->getElementType(i), el(i)); }
        else if (auto at = dyn_cast<ArrayType>(t)) { u64 es = DL->getTypeAllocSize(at->getElementType()); for (unsigned i = 0; i < at->getNumElements(); i++) storeTy(addOff(a, es * i), at->getElementType(), el(i)); }
        else if (auto vt = dyn_cast<FixedVectorType>(t)) { u64 es = tsize(vt->getElementType()); for (unsigned i = 0; i < vt->getNumElements(); i++) storeTy(addOff(a, es * i), vt->getElementType(), el(i)); }
        else if (t->isIntegerTy(128)) { store(a, 8, el(0)); store(addOff(a, 8), 8, el(1)); }
        else throw Unsupported{"store of type"};
    }
    Val addOff(const Val &a, u64 o) { return a.e ? Val(P.bin(KAdd, a.e, P.cst(o, 64))) : Val(a.c + o); }
    void copyMem(Val d, Val s, Val n) {
        u64 len = conc(n, 64); if (!len) return; conc(d, 64); conc(s, 64);
        uint32_t si = resolve(s, len, false, "read"), di = resolve(d, len, true, "write");
        u64 so = addrOff(s.c), dof = addrOff(d.c); raceCheck(si, so, len, false); raceCheck(di, dof, len, true);
        Obj *dst = S->mem.getW(di); Obj *src = S->mem.get(si);
        memmove(&dst->d[dof], &src->d[so], len); 
        bool hs = !src->sym.empty();
        if (hs) { if (dst->sym.empty()) dst->sym.resize(dst->size, nullptr); memmove(&dst->sym[dof], &src->sym[so], len * sizeof(Expr *)); }
        memmove(&dst->st[dof], &src->st[so], len);
    }
    void setMem(Val d, Val v, Val n) {
        u64 len = conc(n, 64); if (!len) return; conc(d, 64);
        uint32_t di = resolve(d, len, true, "write"); u64 o = addrOff(d.c); raceCheck(di, o, len, true); Obj *dst = S->mem.getW(di);
        if (v.conc()) { memset(&dst->d[o], (int)(v.c & 255), len); memset(&dst->st[o], 0, len); }
        else { if (dst->sym.empty()) dst->sym.resize(dst->size, nullptr); Expr *b = ex(v, 8); for (u64 i = 0; i < len; i++) { dst->sym[o + i] = b; dst->d[o + i] = 0; dst->st[o + i] = ST_SYM; } }
    }
    std::string cstr(Val a, bool text = false) { std::string s; conc(a, 64); for (u64 i = 0; i < 4096; i++) { Val c = load(Val(a.c + i), 1); if (text && c.e) { s += (char)63; continue; } conc(c, 8); if (!(c.c & 255)) break; s += (char)c.c; } return s; }
    Expr *newSym(const std::string &name, unsigned w, u64 lo, u64 hi, bool uninit) {
        auto key = std::make_tuple(S->symOrder.size(), name, w, lo, hi); auto it = symTab.find(key); Expr *s;
        if (it != symTab.end()) s = it->second; else { s = P.sym(name, w, lo, hi, uninit); symTab[key] = s; }
        if (s->k != KSym) return s;
        S->symOrder.push_back(s);
        if (lo > 0) S->pc.push_back(P.lnot(P.intern(KUlt, 1, 0, s, P.cst(lo, w), nullptr, 0, 1)));
        if (hi < maskw(w)) S->pc.push_back(P.lnot(P.intern(KUlt, 1, 0, P.cst(hi, w), s, nullptr, 0, 1)));
        // model gets the default (lo) for symbols it does not know
        if (s->c >= S->model->size()) { auto m = std::make_shared<std::vector<u64>>(*S->model); size_t old = m->size(); m->resize(P.syms.size()); for (size_t i = old; i < m->size(); i++) (*m)[i] = P.syms[i].lo; S->model = m; }
        else if ((*S->model)[s->c] < lo || (*S->model)[s->c] > hi) { auto m = std::make_shared<std::vector<u64>>(*S->model); (*m)[s->c] = lo; S->model = m; }
        return s;
    }

    // -------------------------------------------------------------- constants and globals
    FnInfo *fn(Function *F) {
        auto it = fns.find(F); if (it != fns.end()) return it->second;
        FnInfo *f = new FnInfo(); f->F = F; f->name = F->getName().str(); fns[F] = f; return f;
    }
    u64 fnAddr(Function *F) {
        FnInfo *f = fn(F); if (!f->addr) { 
            // function objects live in a reserved id range so that they are identical in every state
            uint32_t id = 0x70000000u + (uint32_t)fnByObj.size(); fnByObj.push_back(f); fnById[id] = f; f->addr = mkAddr(id); }
        return f->addr;
    }
    Val cval(Constant *c) {
        if (auto ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) { AggV *g = new AggV(); g->v.push_back(Val(ci->getValue().getRawData()[0])); g->v.push_back(Val(ci->getValue().getNumWords() > 1 ? ci->getValue().getRawData()[1] : 0)); Val v; v.agg = g; return v; } return Val(ci->getZExtValue()); }
        if (auto cf = dyn_cast<ConstantFP>(c)) { auto b = cf->getValueAPF().bitcastToAPInt(); if (b.getBitWidth() > 64) return Val((u64)0); return Val(b.getZExtValue()); }
        if (isa<ConstantPointerNull>(c)) return Val((u64)0);
        if (auto f = dyn_cast<Function>(c)) return Val(fnAddr(f));
        if (auto g = dyn_cast<GlobalVariable>(c)) { auto it = gv.find(g); if (it == gv.end()) throw Unsupported{"global " + g->getName().str()}; return Val(mkAddr(it->second)); }
        if (auto a = dyn_cast<GlobalAlias>(c)) return cval(a->getAliasee());
        if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) {
            Type *t = c->getType(); if (tw(t)) return Val((u64)0);
            AggV *g = new AggV(); unsigned n = 0; if (auto st = dyn_cast<StructType>(t)) n = st->getNumElements(); else if (auto at = dyn_cast<ArrayType>(t)) n = (unsigned)at->getNumElements(); else if (auto vt = dyn_cast<FixedVectorType>(t)) n = vt->getNumElements();
            for (unsigned i = 0; i < n; i++) g->v.push_back(cval(cast<Constant>(isa<UndefValue>(c) ? (Constant *)cast<UndefValue>(c)->getElementValue(i) : (Constant *)cast<ConstantAggregateZero>(c)->getElementValue(i))));
            Val v; v.agg = g; return v; }
        if (isa<ConstantStruct>(c) || isa<ConstantArray>(c) || isa<ConstantVector>(c)) { AggV *g = new AggV(); for (unsigned i = 0; i < c->getNumOperands(); i++) g->v.push_back(cval(cast<Constant>(c->getOperand(i)))); Val v; v.agg = g; return v; }
        if (auto cd = dyn_cast<ConstantDataSequential>(c)) { AggV *g = new AggV(); for (unsigned i = 0; i < cd->getNumElements(); i++) g->v.push_back(cval(cd->getElementAsConstant(i))); Val v; v.agg = g; return v; }
        if (auto ce = dyn_cast<ConstantExpr>(c)) {
            auto op = [&](unsigned i) { return cval(cast<Constant>(ce->getOperand(i))); };
            switch (ce->getOpcode()) {
            case Instruction::GetElementPtr: { auto gep = cast<GEPOperator>(ce); APInt off(64, 0); if (!gep->accumulateConstantOffset(*DL, off)) throw Unsupported{"const gep"}; return Val(op(0).c + off.getZExtValue()); }
            case Instruction::BitCast: case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::AddrSpaceCast: case Instruction::Trunc: return Val(op(0).c & maskw(tw(ce->getType())));
            case Instruction::Sub: return Val((op(0).c - op(1).c) & maskw(tw(ce->getType())));
            case Instruction::Add: return Val((op(0).c + op(1).c) & maskw(tw(ce->getType())));
            case Instruction::ICmp: { auto p = ce->getPredicate(); u64 a = op(0).c, b = op(1).c; if (p == CmpInst::ICMP_EQ) return Val((u64)(a == b)); if (p == CmpInst::ICMP_NE) return Val((u64)(a != b)); break; }
            }
            throw Unsupported{std::string("constant expr ") + ce->getOpcodeName()};
        }
        throw Unsupported{"constant"};
    }
    void initMem(uint32_t id, u64 off, Constant *c) {
        Type *t = c->getType(); Obj *o = S->mem.get(id);
        if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
        if (auto cd = dyn_cast<ConstantDataSequential>(c)) { StringRef r = cd->getRawDataValues(); memcpy(&o->d[off], r.data(), r.size()); return; }
        if (isa<ConstantStruct>(c)) { auto L = DL->getStructLayout(cast<StructType>(t)); for (unsigned i = 0; i < c->getNumOperands(); i++) initMem(id, off + L->getElementOffset(i), cast<Constant>(c->getOperand(i))); return; }
        if (isa<ConstantArray>(c)) { u64 es = DL->getTypeAllocSize(cast<ArrayType>(t)->getElementType()); for (unsigned i = 0; i < c->getNumOperands(); i++) initMem(id, off + es * i, cast<Constant>(c->getOperand(i))); return; }
        if (isa<ConstantVector>(c)) { u64 es = tsize(cast<FixedVectorType>(t)->getElementType()); for (unsigned i = 0; i < c->getNumOperands(); i++) initMem(id, off + es * i, cast<Constant>(c->getOperand(i))); return; }
        Val v = cval(c); if (v.agg) { memcpy(&o->d[off], &v.agg->v[0].c, 8); memcpy(&o->d[off + 8], &v.agg->v[1].c, 8); return; }
        memcpy(&o->d[off], &v.c, tsize(t));
    }
    void setupGlobals() {
        for (auto &g : M->globals()) {
            u64 sz = g.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(g.getValueType()) : 64; if (g.isDeclaration()) sz = std::max<u64>(sz, 256);
            uint32_t id = alloc(sz, OGlobal, strdup(g.getName().str().c_str()), false); gv[&g] = id;
        }
        for (auto &g : M->globals()) if (g.hasInitializer()) initMem(gv[&g], 0, g.getInitializer());
        for (auto &g : M->globals()) { Obj *o = S->mem.get(gv[&g]); if (g.isConstant()) o->ro = true; if (g.getName().contains("sxrt")) o->norace = true; }
    }

    // -------------------------------------------------------------- decoding
    Opnd opnd(Value *v, std::unordered_map<Value *, int> &rm) {
        Opnd o; Type *t = v->getType(); o.w = (uint8_t)std::min(64u, tw(t) ? tw(t) : 64u);
        if (auto c = dyn_cast<Constant>(v)) { o.c = cval(c); return o; }
        auto it = rm.find(v); if (it == rm.end()) { if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) return o; throw Unsupported{"operand"}; } o.reg = it->second; return o;
    }
    void decode(FnInfo *f) {
        if (f->decoded) return; f->decoded = true; Function *F = f->F;
        std::unordered_map<Value *, int> rm; int n = 0; for (auto &a : F->args()) rm[&a] = n++;
        for (auto &a : F->args()) f->byval.push_back(a.hasByValAttr() ? (int)DL->getTypeAllocSize(a.getParamByValType()) : 0);
        for (auto &B : *F) for (auto &I : B) if (!I.getType()->isVoidTy()) rm[&I] = n++;
        f->nregs = n;
        std::unordered_map<BasicBlock *, int> bpc; std::vector<std::tuple<int, int, BasicBlock *, BasicBlock *>> fix; // inst, which, from, to
        for (auto &B : *F) {
            bpc[&B] = (int)f->code.size();
            for (auto &I : B) {
                if (isa<PHINode>(I)) continue;
                if (isa<DbgInfoIntrinsic>(I)) continue;
                if (auto ii = dyn_cast<IntrinsicInst>(&I)) { auto id = ii->getIntrinsicID(); if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::experimental_noalias_scope_decl || id == Intrinsic::assume || id == Intrinsic::var_annotation || id == Intrinsic::donothing) continue; }
                DInst d; d.I = &I; d.ty = I.getType(); d.dst = I.getType()->isVoidTy() ? -1 : rm[&I]; d.w = (uint8_t)std::min(64u, tw(I.getType()));
                auto O = [&](unsigned i) { d.o.push_back(opnd(I.getOperand(i), rm)); };
                int me = (int)f->code.size(); auto edge = [&](int which, BasicBlock *to) { fix.push_back({me, which, &B, to}); };
                switch (I.getOpcode()) {
                case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
                case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
                    static const std::map<unsigned, Kind> mp = {{Instruction::Add, KAdd}, {Instruction::Sub, KSub}, {Instruction::Mul, KMul}, {Instruction::UDiv, KUDiv}, {Instruction::SDiv, KSDiv}, {Instruction::URem, KURem}, {Instruction::SRem, KSRem}, {Instruction::And, KAnd}, {Instruction::Or, KOr}, {Instruction::Xor, KXor}, {Instruction::Shl, KShl}, {Instruction::LShr, KLShr}, {Instruction::AShr, KAShr}, {Instruction::FAdd, KFAdd}, {Instruction::FSub, KFSub}, {Instruction::FMul, KFMul}, {Instruction::FDiv, KFDiv}, {Instruction::FRem, KFRem}};
                    d.op = DBin; d.k = mp.at(I.getOpcode()); O(0); O(1); if (!tw(I.getType()) || tw(I.getType()) > 64) d.op = DUnsup; break; }
                case Instruction::FNeg: d.op = DFNeg; O(0); break;
                case Instruction::ICmp: d.op = DICmp; d.k = (uint8_t)cast<ICmpInst>(I).getPredicate(); O(0); O(1); if (!tw(I.getOperand(0)->getType()) || tw(I.getOperand(0)->getType()) > 64) d.op = DUnsup; break;
                case Instruction::FCmp: d.op = DFCmp; d.k = (uint8_t)cast<FCmpInst>(I).getPredicate(); O(0); O(1); break;
                case Instruction::Load: d.op = DLoad; O(0); d.imm = cast<LoadInst>(I).isAtomic(); break;
                case Instruction::Store: d.op = DStore; O(0); O(1); d.ty = I.getOperand(0)->getType(); d.imm = cast<StoreInst>(I).isAtomic(); break;
                case Instruction::GetElementPtr: {
                    d.op = DGep; O(0); auto gep = cast<GEPOperator>(&I); if (I.getType()->isVectorTy()) d.op = DUnsup;
                    for (auto gi = gep_type_begin(gep), ge = gep_type_end(gep); gi != ge; ++gi) {
                        if (StructType *st = gi.getStructTypeOrNull()) { d.imm += DL->getStructLayout(st)->getElementOffset((unsigned)cast<ConstantInt>(gi.getOperand())->getZExtValue()); }
                        else { u64 es = DL->getTypeAllocSize(gi.getIndexedType()); if (auto ci = dyn_cast<ConstantInt>(gi.getOperand())) d.imm += (u64)ci->getSExtValue() * es; else { d.o.push_back(opnd(gi.getOperand(), rm)); d.sc.push_back({es, (int)d.o.size() - 1}); } }
                    } break; }
                case Instruction::Alloca: { d.op = DAlloca; auto &A = cast<AllocaInst>(I); d.imm = DL->getTypeAllocSize(A.getAllocatedType()); O(0); break; }
                case Instruction::Br: { auto &b = cast<BranchInst>(I); if (b.isUnconditional()) { d.op = DBr; edge(0, b.getSuccessor(0)); } else { d.op = DCondBr; d.o.push_back(opnd(b.getCondition(), rm)); edge(0, b.getSuccessor(0)); edge(1, b.getSuccessor(1)); } break; }
                case Instruction::Switch: { auto &s = cast<SwitchInst>(I); d.op = DSwitch; d.o.push_back(opnd(s.getCondition(), rm)); edge(0, s.getDefaultDest()); int k = 0; for (auto &c : s.cases()) { d.cases.push_back({c.getCaseValue()->getZExtValue(), -1}); d.caseEdges.push_back(-1); edge(100 + k++, c.getCaseSuccessor()); } break; }
                case Instruction::Ret: d.op = DRet; if (I.getNumOperands()) O(0); break;
                case Instruction::Call: case Instruction::Invoke: {
                    auto &cb = cast<CallBase>(I); d.op = isa<InvokeInst>(I) ? DInvoke : DCall; for (auto &a : cb.args()) d.o.push_back(opnd(a, rm));
                    d.retVoid = I.getType()->isVoidTy();
                    if (cb.isInlineAsm()) { d.ext = -3; } else if (auto cf = dyn_cast<Function>(cb.getCalledOperand()->stripPointerCasts())) d.callee = fn(cf); else d.o.push_back(opnd(cb.getCalledOperand(), rm));
                    if (auto al = dyn_cast<GlobalAlias>(cb.getCalledOperand())) if (auto cf = dyn_cast<Function>(al->getAliaseeObject())) { if (!d.callee) d.o.pop_back(); d.callee = fn(cf); }
                    if (d.op == DInvoke) { edge(0, cast<InvokeInst>(I).getNormalDest()); edge(1, cast<InvokeInst>(I).getUnwindDest()); } break; }
                case Instruction::Select: d.op = DSelect; O(0); O(1); O(2); break;
                case Instruction::ZExt: d.op = DZExt; O(0); break;
                case Instruction::SExt: d.op = DSExt; O(0); break;
                case Instruction::Trunc: case Instruction::PtrToInt: case Instruction::IntToPtr: d.op = DTrunc; O(0); break;
                case Instruction::BitCast: case Instruction::Freeze: case Instruction::AddrSpaceCast: d.op = DMove; O(0); break;
                case Instruction::FPToSI: d.op = DCvt; d.k = KFToSI; O(0); break; case Instruction::FPToUI: d.op = DCvt; d.k = KFToUI; O(0); break;
                case Instruction::SIToFP: d.op = DCvt; d.k = KSIToF; O(0); break; case Instruction::UIToFP: d.op = DCvt; d.k = KUIToF; O(0); break;
                case Instruction::FPExt: d.op = DCvt; d.k = KFExt; O(0); break; case Instruction::FPTrunc: d.op = DCvt; d.k = KFTrunc; O(0); break;
                case Instruction::ExtractValue: d.op = DExtractV; O(0); for (auto i : cast<ExtractValueInst>(I).indices()) d.idx.push_back(i); break;
                case Instruction::InsertValue: d.op = DInsertV; O(0); O(1); for (auto i : cast<InsertValueInst>(I).indices()) d.idx.push_back(i); break;
                case Instruction::ExtractElement: if (auto ci = dyn_cast<ConstantInt>(I.getOperand(1))) { d.op = DExtractV; O(0); d.idx.push_back((unsigned)ci->getZExtValue()); } else d.op = DUnsup; break;
                case Instruction::InsertElement: if (auto ci = dyn_cast<ConstantInt>(I.getOperand(2))) { d.op = DInsertV; O(0); O(1); d.idx.push_back((unsigned)ci->getZExtValue()); } else d.op = DUnsup; break;
                case Instruction::LandingPad: d.op = DLanding; break;
                case Instruction::Resume: d.op = DResume; O(0); break;
                case Instruction::Unreachable: d.op = DUnreach; break;
                case Instruction::AtomicRMW: d.op = DRmw; O(0); O(1); d.k = (uint8_t)cast<AtomicRMWInst>(I).getOperation(); break;
                case Instruction::AtomicCmpXchg: d.op = DCmpXchg; O(0); O(1); O(2); d.ty = I.getOperand(1)->getType(); break;
                case Instruction::Fence: d.op = DFence; break;
                default: d.op = DUnsup; break;
                }
                switch (I.getOpcode()) { // arithmetic on vectors is not modelled; a bit cast between a vector and a scalar is
                case Instruction::BitCast: { Type *a = I.getOperand(0)->getType(), *b = I.getType(); auto va = dyn_cast<FixedVectorType>(a), vb = dyn_cast<FixedVectorType>(b); if (!va && !vb) break;
                    if (va && vb) { if (va->getNumElements() != vb->getNumElements()) d.op = DUnsup; break; }
                    Type *sc = va ? b : a, *el = (va ? va : vb)->getElementType(); d.op = tw(sc) && tw(sc) <= 64 && tw(el) ? DVCast : DUnsup; d.k = va != nullptr; d.imm = tw(el); d.w = (uint8_t)std::min(64u, tw(sc)); break; }
                case Instruction::FNeg: case Instruction::FCmp: case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPExt: case Instruction::FPTrunc:
                case Instruction::Select: if (I.getOperand(0)->getType()->isVectorTy()) d.op = DUnsup; break;
                default: break; }
                f->code.push_back(std::move(d));
            }
        }
        for (auto &[me, which, from, to] : fix) {
            int e = -1; std::vector<PhiCopy> pcs; for (auto &ph : to->phis()) pcs.push_back({rm[&ph], opnd(ph.getIncomingValueForBlock(from), rm)});
            if (!pcs.empty()) { e = (int)f->edges.size(); f->edges.push_back(pcs); }
            DInst &d = f->code[me]; int t = bpc[to];
            if (which == 0) { d.t0 = t; d.e0 = e; } else if (which == 1) { d.t1 = t; d.e1 = e; } else { d.cases[which - 100].second = t; d.caseEdges[which - 100] = e; }
        }
    }

    // -------------------------------------------------------------- interpretation helpers
    Frame *fr = nullptr;
    Frame &top() { return S->th[S->cur].fr.back(); }
    const Val &ov(const Opnd &o) { return o.reg >= 0 ? fr->r[o.reg] : o.c; }
    void jump(int t, int e) {
        if (e >= 0) { auto &pc = fr->f->edges[e]; if (pc.size() == 1) fr->r[pc[0].dst] = ov(pc[0].o); else { std::vector<Val> tmp; tmp.reserve(pc.size()); for (auto &p : pc) tmp.push_back(ov(p.o)); for (size_t i = 0; i < pc.size(); i++) fr->r[pc[i].dst] = tmp[i]; } }
        fr->pc = t;
    }
    void popFrame() { auto &t = S->th[S->cur]; for (auto id : t.fr.back().allocas) S->mem.erase(id); t.fr.pop_back(); fr = t.fr.empty() ? nullptr : &t.fr.back(); }
    void pushFrame(FnInfo *f, std::vector<Val> &args) {
        decode(f); auto &t = S->th[S->cur];
        if (t.fr.size() > maxDepth) die("stack overflow", "call depth exceeds bound in " + demangle(f->name));
        if (!f->calls++) usedFns.insert(f);
        Frame nf; nf.f = f; nf.r.resize(f->nregs); size_t na = f->F->arg_size();
        for (size_t i = 0; i < na && i < args.size(); i++) { nf.r[i] = args[i];
            if (f->byval[i]) { uint32_t id = alloc(f->byval[i], OStack, "byval", false); Val d(mkAddr(id)); copyMem(d, args[i], Val((u64)f->byval[i])); nf.r[i] = Val(mkAddr(id)); nf.allocas.push_back(id); } }
        for (size_t i = na; i < args.size(); i++) nf.va.push_back(args[i]);
        t.fr.push_back(std::move(nf)); fr = &t.fr.back();
    }
    // complete a call instruction in the (current) top frame
    void retTo(const Val &v) { DInst &d = fr->f->code[fr->pc]; if (d.dst >= 0) fr->r[d.dst] = v; if (d.op == DInvoke) jump(d.t0, d.e0); else ++fr->pc; }
    // ---------------- exceptions
    static std::map<std::string, std::vector<std::string>> &stdBases() { static std::map<std::string, std::vector<std::string>> m; return m; }
    bool tiDerived(Value *thrown, Value *want, u64 &adj) {
        thrown = thrown->stripPointerCasts(); want = want->stripPointerCasts(); if (thrown == want) return true;
        auto g = dyn_cast<GlobalVariable>(thrown); if (!g || !g->hasInitializer()) return false;
        auto cs = dyn_cast<ConstantStruct>(g->getInitializer()); if (!cs) return false;
        if (cs->getNumOperands() == 3) { Value *b = cs->getOperand(2)->stripPointerCasts(); if (isa<GlobalVariable>(b)) return tiDerived(b, want, adj); return false; }
        if (cs->getNumOperands() > 4) { for (unsigned i = 4; i + 1 < cs->getNumOperands(); i += 2) { u64 a = adj; auto off = dyn_cast<ConstantInt>(cs->getOperand(i + 1)); if (tiDerived(cs->getOperand(i), want, a)) { adj = a + (off ? (u64)(off->getSExtValue() >> 8) : 0); return true; } } }
        return false;
    }
    int typeId(Value *v) { v = v->stripPointerCasts(); auto it = typeIds.find(v); if (it != typeIds.end()) return it->second; int id = (int)typeIds.size() + 1; typeIds[v] = id; return id; }
    std::string excDesc(u64 exc) {
        auto it = S->excs.find(exc); std::string s = it != S->excs.end() && it->second.ti ? demangle(it->second.ti->getName().str()) : "?"; 
        try { Val p = load(Val(exc + 8), 8); if (!p.e && S->mem.get(addrId(p.c))) s += ": " + cstr(p); } catch (PathEnd &) { }
        return s;
    }
    void doThrow(u64 exc) {
        auto &t = S->th[S->cur]; GlobalVariable *ti = S->excs[exc].ti;
        std::string trail = "";
        while (!t.fr.empty()) {
            fr = &t.fr.back(); DInst &d = fr->f->code[fr->pc];
            if (d.op == DInvoke) {
                auto lp = cast<InvokeInst>(d.I)->getLandingPadInst(); int sel = -1; u64 adj = 0;
                for (unsigned i = 0; i < lp->getNumClauses() && sel < 0; i++) {
                    if (lp->isCatch(i)) { Constant *c = lp->getClause(i); if (isa<ConstantPointerNull>(c)) sel = typeId(c); else { adj = 0; if (ti && tiDerived(ti, c, adj)) sel = typeId(c); } }
                    else { sel = 0x7fff; }
                }
                if (sel < 0 && lp->isCleanup()) sel = 0;
                if (sel >= 0) { t.exc = Val(exc); t.sel = sel; if (adj) throw Unsupported{"exception base adjustment"}; jump(d.t1, d.e1); return; }
            }
            if (fr->f->F->doesNotThrow()) die("uncaught exception", "exception escapes a noexcept function: " + excDesc(exc));
            popFrame();
        }
        // re-create a minimal frame description for the report
        report("uncaught exception", "exception escapes the harness: " + excDesc(exc), S->model); throw PathEnd{};
    }
    // throw a std exception implemented in the runtime module by calling its thrower
    void callRt(const char *name, std::vector<Val> args) { Function *F = M->getFunction(name); if (!F || F->isDeclaration()) throw Unsupported{std::string("runtime function missing: ") + name}; pushFrame(fn(F), args); }

    void scalarize() {
        // operations on vectors become operations on their elements
            PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM; PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
            ScalarizerPassOptions so; so.ScalarizeLoadStore = true; ScalarizerPass sp(so);
            for (auto &F : *M) { bool v = false; for (auto &B : F) for (auto &I : B) { v |= I.getType()->isVectorTy(); for (auto &o : I.operands()) v |= o->getType()->isVectorTy(); } if (v) sp.run(F, FAM); } }

    // prepare a module for native replay of threads: scheduling points where the engine has them, sanitizer attributes
    int instrument(const std::string &in, const std::string &out, const std::string &san) {
        SMDiagnostic err; M = parseIRFile(in, err, ctx); if (!M) { std::cerr << "cannot read " << in << "\n"; return 1; }
        auto sp = M->getOrInsertFunction("sxrt_sched_point", Type::getVoidTy(ctx));
        for (auto &F : *M) { if (F.isDeclaration()) continue; if (san == "thread") F.addFnAttr(Attribute::SanitizeThread); if (san == "address") F.addFnAttr(Attribute::SanitizeAddress);
            std::vector<Instruction *> at; for (auto &B : F) for (auto &I : B) if ((isa<LoadInst>(I) && cast<LoadInst>(I).isAtomic()) || (isa<StoreInst>(I) && cast<StoreInst>(I).isAtomic()) || isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I)) if (schedulable(&I)) at.push_back(&I);
            for (auto I : at) CallInst::Create(sp, {}, "", I); }
        std::error_code ec; raw_fd_ostream os(out, ec); if (ec) return 1; WriteBitcodeToFile(*M, os); return 0; }
    #include "externals.inc"
    #include "step.inc"
    #include "report.inc"
};

int realMain(int argc, char **argv) {
    Engine E; std::string bc, out, entry = "sx_main";
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
        if (a == "--instrument") { std::string in = nx(), o = nx(); return E.instrument(in, o, nx()); }
        if (a == "--out") out = nx(); else if (a == "--entry") entry = nx(); else if (a == "--time") E.maxTime = atof(nx().c_str()); else if (a == "--param") E.params.push_back(atol(nx().c_str()));
        else if (a == "--no-lin") E.P.useLin = false; else if (a == "--max-viol") E.maxViol = atoi(nx().c_str()); else if (a == "--samples") E.nSamples = atoi(nx().c_str()); else if (a == "--seed") E.rng.seed(atol(nx().c_str())); else if (a == "--trace") E.trace = true;
        else if (a == "--max-steps") E.maxSteps = atoll(nx().c_str()); else if (a == "--qtimeout") E.qTimeout = atoi(nx().c_str()); else if (a == "--no-race") E.raceOn = false; else if (a == "--opaque-numbers") E.opaqueNum = true; else if (a == "--int-first") E.strategy = 1; else if (a == "--max-depth") E.maxDepth = atoi(nx().c_str()); else bc = a;
    }
    return E.main(bc, entry, out);
}
static int g_rc; static int g_argc; static char **g_argv;
int main(int argc, char **argv) {
    g_argc = argc; g_argv = argv; pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 2ull << 30); pthread_t t;
    pthread_create(&t, &at, [](void *) -> void * { g_rc = realMain(g_argc, g_argv); return nullptr; }, nullptr); pthread_join(t, nullptr); _exit(g_rc);
}
