// models of external (library / runtime) functions (included inside struct Engine)
void X(const std::string &n, std::function<bool(DInst &, std::vector<Val> &, Val &)> f) { extId[n] = (int)extFn.size(); extFn.push_back(f); extName.push_back(n); }
#define XF [this](DInst &d, std::vector<Val> &a, Val &r) -> bool
bool doNew(Val n, Val &r, bool canThrow) {
    if (!n.conc()) { auto it = S->known.find(n.e); if (it != S->known.end()) n = Val(it->second); }
    if (!n.conc()) { if (branch(icmp(CmpInst::ICMP_UGT, n, Val(symAllocLimit), 64))) { if (canThrow) { callRt("sxrt_throw_bad_alloc", {}); return false; } r = Val((u64)0); return true; } conc(n, 64); }
    if (n.c > allocLimit) { if (canThrow) { callRt("sxrt_throw_bad_alloc", {}); return false; } r = Val((u64)0); return true; }
    r = Val(mkAddr(alloc(n.c, OHeap, "", true))); return true;
}
u64 symAllocLimit = 4096;
void doFree(Val p) { u64 a = conc(p, 64); if (!a) return; uint32_t id = addrId(a); Obj *o = S->mem.get(id); if (!o) die("memory: invalid free", "double free or free of unknown memory"); if (o->kind != OHeap || addrOff(a) != 0) die("memory: invalid free", "free of a pointer that was not allocated"); S->mem.erase(id); }
Val symCmp(Val pa, Val pb, u64 n, bool eqOnly) {
    conc(pa, 64); conc(pb, 64); Expr *res = P.cst(0, 32); std::vector<std::pair<Expr *, Expr *>> bs; bool allC = true;
    for (u64 i = 0; i < n; i++) { Val x = load(Val(pa.c + i), 1), y = load(Val(pb.c + i), 1); if (x.conc() && y.conc()) { if ((x.c & 255) != (y.c & 255)) { if (allC) return Val(((x.c & 255) < (y.c & 255) ? 0xffffffffull : 1ull)); bs.push_back({ex(x, 8), ex(y, 8)}); break; } } else { allC = false; bs.push_back({ex(x, 8), ex(y, 8)}); } }
    for (size_t i = bs.size(); i-- > 0;) { Expr *eq = P.bin(KEq, bs[i].first, bs[i].second); Expr *ne = eqOnly ? P.cst(1, 32) : P.ite(P.bin(KUlt, bs[i].first, bs[i].second), P.cst(0xffffffffu, 32), P.cst(1, 32)); res = P.ite(eq, res, ne); }
    return Val(res);
}
VC &vcOf(int t) { while ((int)S->vc.size() <= t) { S->vc.push_back(VC{}); S->vc.back()[S->vc.size() - 1] = 1; } return S->vc[t]; }
std::string fmtPrintf(const std::string &f, std::vector<Val> &a, size_t k) {
    std::string o; for (size_t i = 0; i < f.size(); i++) {
        if (f[i] != '%') { o += f[i]; continue; } if (f[i + 1] == '%') { o += '%'; ++i; continue; }
        std::string sp = "%"; ++i; while (i < f.size() && !strchr("diuoxXfFeEgGaAcsp", f[i])) { if (f[i] == '*') { sp += std::to_string((int)conc(a[k], 64)); ++k; } else if (!strchr("hlzjt", f[i])) sp += f[i]; ++i; }
        char c = f[i]; char buf[512]; 
        if (k >= a.size()) throw Unsupported{"printf args"};
        if (strchr("fFeEgGaA", c)) { double x = ExprPool::todbl(conc(a[k++], 64), 64); snprintf(buf, sizeof buf, (sp + c).c_str(), x); }
        else if (c == 's') { snprintf(buf, sizeof buf, (sp + c).c_str(), cstr(a[k++], true).c_str()); }
        else snprintf(buf, sizeof buf, (sp + "l" + c).c_str(), (long)conc(a[k++], 64));
        o += buf; }
    return o;
}
void putStr(Val dst, const std::string &s, u64 cap) { if (!cap) return; u64 n = std::min<u64>(cap - 1, s.size()); for (u64 i = 0; i < n; i++) store(addOff(dst, i), 1, Val((u64)(uint8_t)s[i])); store(addOff(dst, n), 1, Val((u64)0)); }
u64 lconvAddr = 0, errnoAddr = 0, unitAddr = 0;
void initExternals() {
    // ---- harness interface
    X("sx_sym", XF { std::string n = cstr(a[0]); unsigned w = (unsigned)conc(a[1], 64); u64 lo = conc(a[2], 64), hi = conc(a[3], 64); if (hi > maskw(w)) hi = maskw(w); if (lo > hi) throw PathEnd{}; Expr *s = lo == hi ? P.cst(lo, w) : newSym(n, w, lo, hi, false); if (lo == hi) { /* keep input list aligned with the native replayer */ S->symOrder.push_back(constSym(n, w, lo)); } r = Val(P.zext(s, 64)); return true; });
    X("sx_assume", XF { Val c = icmp(CmpInst::ICMP_NE, a[0], Val((u64)0), 32); if (c.conc()) { if (!c.c) { ++nPruned; wasPruned = true; throw PathEnd{}; } return true; }
        auto it = S->known.find(c.e); if (it != S->known.end()) { if (!it->second) { ++nPruned; wasPruned = true; throw PathEnd{}; } return true; }
        if (!evalM(c.e)) { int k = check(c.e); if (k < 0) { incon.push_back("solver timeout at assume"); throw Unsupported{"solver timeout"}; } if (!k) { ++nPruned; wasPruned = true; throw PathEnd{}; } auto lm = lastModel; addC(c.e); S->model = lm; } else addC(c.e); return true; });
    X("sx_check", XF { Val c = icmp(CmpInst::ICMP_NE, a[0], Val((u64)0), 32); std::string m = cstr(a[1]); require(ex(c, 1), "assertion", m); return true; });
    X("sx_fail", XF { die("assertion", cstr(a[0])); return true; });
    X("sx_cover", XF { ++covers[cstr(a[0])]; return true; });
    X("sx_observe", XF { S->obs.push_back({"", a[0]}); return true; });
    X("sx_note", XF { S->notes.push_back(cstr(a[0])); if (trace) std::cerr << "note: " << S->notes.back() << " " << (a[1].e ? "sym" : std::to_string(a[1].c)) << "\n"; return true; });
    X("sx_concretize", XF { r = Val(conc(a[0], 64)); return true; });
    X("sx_fork", XF { r = Val((u64)branch(icmp(CmpInst::ICMP_NE, a[0], Val((u64)0), 32))); return true; });
    X("sx_param", XF { size_t i = conc(a[0], 64); r = Val((u64)(uint32_t)(i < params.size() ? params[i] : 0)); return true; });
    X("sx_is_engine", XF { r = Val((u64)1); return true; });
    X("sx_end_path", XF { throw PathEnd{}; return true; });
    X("sx_alloc_limit", XF { symAllocLimit = conc(a[0], 64); return true; });
    X("sx_poison", XF { u64 p = conc(a[0], 64), n = conc(a[1], 64); if (!n) return true; Val v(p); uint32_t id = resolve(v, n, true, "write"); Obj *o = S->mem.getW(id); memset(&o->st[addrOff(p)], ST_UNINIT, n); return true; });
    // is the memory range free of bytes that were never written?  (solver-independent, syntactic)
    X("sx_initialized", XF { u64 p = conc(a[0], 64), n = conc(a[1], 64); u64 ok = 1; if (n) { Val v(p); uint32_t id = resolve(v, n, false, "read"); Obj *o = S->mem.get(id); std::function<bool(Expr *, int)> hu = [&](Expr *e, int dep) -> bool { if (!e || dep > 40) return false; if (e->k == KSym) return P.syms[e->c].uninit; return hu(e->a, dep + 1) || hu(e->b, dep + 1) || hu(e->d, dep + 1); }; for (u64 i = addrOff(p); i < addrOff(p) + n; i++) if (o->st[i] == ST_UNINIT || (o->st[i] == ST_SYM && hu(o->sym[i], 0))) ok = 0; } r = Val(ok); return true; });
    X("sx_obj_size", XF { u64 p = conc(a[0], 64); Obj *o = S->mem.get(addrId(p)); r = Val(o ? (u64)o->size - (u64)addrOff(p) : 0); return true; });
    // non-forking ternary / boolean helpers for oracles
    X("sx_ite", XF { Val c = icmp(CmpInst::ICMP_NE, a[0], Val((u64)0), 32); r = select(c, a[1], a[2], 64); return true; });
    X("sx_and", XF { Val x = icmp(CmpInst::ICMP_NE, a[0], Val((u64)0), 32), y = icmp(CmpInst::ICMP_NE, a[1], Val((u64)0), 32); r = Val(P.zext(P.andb(ex(x, 1), ex(y, 1)), 32)); return true; });
    X("sx_or", XF { Val x = icmp(CmpInst::ICMP_NE, a[0], Val((u64)0), 32), y = icmp(CmpInst::ICMP_NE, a[1], Val((u64)0), 32); r = Val(P.zext(P.orb(ex(x, 1), ex(y, 1)), 32)); return true; });
    // a value in [0,n), one state per value; it occurs nowhere else, so neither a query nor a path constraint is needed
    X("sx_choose_n", XF { std::string nm = cstr(a[0]); u64 n = conc(a[1], 64); size_t k = S->pc.size(); Expr *e = newSym(nm, 64, 0, n - 1, false); S->pc.resize(k);
        for (u64 v = 1; v < n; v++) { State *c = clone(), *cur = S; auto m = std::make_shared<std::vector<u64>>(*S->model); if (m->size() <= e->c) m->resize(e->c + 1, 0); (*m)[e->c] = v; S = c; S->model = m; fr = &top(); retTo(Val(v)); S = cur; fr = &top(); }
        { auto m = std::make_shared<std::vector<u64>>(*S->model); if (m->size() <= e->c) m->resize(e->c + 1, 0); (*m)[e->c] = 0; S->model = m; }
        r = Val((u64)0); return true; });
    // ---- threads
    X("sx_atomic_begin", XF { ++S->raceOff; return true; }); X("sx_atomic_end", XF { --S->raceOff; return true; });
    X("sx_thread_spawn", XF { u64 f = conc(a[0], 64); auto it = fnById.find(addrId(f)); if (it == fnById.end()) die("memory: invalid call", "bad thread function"); int id = (int)S->th.size(); if (id >= MAXT) throw Unsupported{"too many threads"};
        vcOf(0); VC mine = vcOf(S->cur); vcOf(id); for (int i = 0; i < MAXT; i++) if (i != id) S->vc[id][i] = mine[i]; ++S->vc[S->cur][S->cur];
        int cur = S->cur; retTo(Val((u64)id)); S->th.emplace_back(); S->cur = id; std::vector<Val> args{a[1]}; pushFrame(it->second, args); S->cur = cur; ++S->live; fr = &top(); return false; });
    X("sx_thread_switch", XF { u64 t = conc(a[0], 64); retTo(Val()); S->cur = (int)t; fr = &top(); return false; });
    X("sx_thread_self", XF { r = Val((u64)S->cur); return true; });
    X("sx_thread_joined", XF { --S->live; return true; });
    X("sx_hb_release", XF { u64 k = conc(a[0], 64); vcOf(S->cur); VC &h = S->hb[k]; VC &v = S->vc[S->cur]; for (int i = 0; i < MAXT; i++) h[i] = std::max(h[i], v[i]); ++v[S->cur]; return true; });
    X("sx_hb_acquire", XF { u64 k = conc(a[0], 64); vcOf(S->cur); VC &h = S->hb[k]; VC &v = S->vc[S->cur]; for (int i = 0; i < MAXT; i++) v[i] = std::max(h[i], v[i]); return true; });
    X("sx_deadlock", XF { die("deadlock", "no thread can make progress: " + cstr(a[0])); return true; });
    // ---- allocation
    for (auto n : {"_Znwm", "_Znam"}) X(n, XF { return doNew(a[0], r, true); });
    for (auto n : {"_ZnwmSt11align_val_t", "_ZnamSt11align_val_t"}) X(n, XF { return doNew(a[0], r, true); });
    for (auto n : {"malloc", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t"}) X(n, XF { return doNew(a[0], r, false); });
    X("calloc", XF { Val n = binop(KMul, a[0], a[1], 64); if (!doNew(n, r, false)) return false; if (r.c) { u64 s = S->mem.get(addrId(r.c))->size; setMem(r, Val((u64)0), Val(s)); } return true; });
    for (auto n : {"_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "free", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdaPvSt11align_val_t", "_ZdaPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t"}) X(n, XF { doFree(a[0]); return true; });
    // ---- libc
    for (auto n : {"memcpy", "memmove"}) X(n, XF { copyMem(a[0], a[1], a[2]); r = a[0]; return true; });
    X("memset", XF { setMem(a[0], a[1].e ? Val(P.trunc(a[1].e, 8)) : a[1], a[2]); r = a[0]; return true; });
    X("memcmp", XF { r = symCmp(a[0], a[1], conc(a[2], 64), false); return true; });
    X("bcmp", XF { r = symCmp(a[0], a[1], conc(a[2], 64), true); return true; });
    X("strlen", XF { u64 p = conc(a[0], 64), i = 0; for (;; ++i) { Val c = load(Val(p + i), 1); if (!branch(icmp(CmpInst::ICMP_NE, c, Val((u64)0), 8))) break; } r = Val(i); return true; });
    X("memchr", XF { u64 p = conc(a[0], 64), n = conc(a[2], 64); Val ch = a[1].e ? Val(P.trunc(a[1].e, 8)) : Val(a[1].c & 255); r = Val((u64)0); for (u64 i = 0; i < n; ++i) { Val c = load(Val(p + i), 1); if (branch(icmp(CmpInst::ICMP_EQ, c, ch, 8))) { r = Val(p + i); break; } } return true; });
    X("strcmp", XF { std::string x = cstr(a[0]), y = cstr(a[1]); int c = x.compare(y); r = Val((u64)(uint32_t)(c < 0 ? -1 : c > 0)); return true; });
    X("strncmp", XF { size_t n = conc(a[2], 64); std::string x = cstr(a[0]).substr(0, n), y = cstr(a[1]).substr(0, n); int c = x.compare(y); r = Val((u64)(uint32_t)(c < 0 ? -1 : c > 0)); return true; });
    X("__assert_fail", XF { die("abort", "assertion failed in the code: " + cstr(a[0])); return true; });
    X("abort", XF { die("abort", "abort() called"); return true; });
    X("exit", XF { throw PathEnd{}; return true; });
    X("localeconv", XF { r = Val(lconvAddr); return true; });
    X("__errno_location", XF { r = Val(errnoAddr); return true; });
    for (auto n : {"getenv"}) X(n, XF { r = Val((u64)0); return true; });
    auto strto = [this](auto fun, unsigned w) { return [this, fun, w](DInst &, std::vector<Val> &a, Val &r) -> bool { std::string s = cstr(a[0]); char *end; errno = 0; u64 v = fun(s.c_str(), &end, a); storeObj(addrId(errnoAddr), addrOff(errnoAddr), 4, Val((u64)errno)); conc(a[1], 64); if (a[1].c) store(a[1], 8, addOff(a[0], (u64)(end - s.c_str()))); r = Val(v & maskw(w)); return true; }; };
    X("strtod", strto([](const char *s, char **e, std::vector<Val> &) { double d = strtod(s, e); u64 o; memcpy(&o, &d, 8); return o; }, 64));
    X("strtof", strto([](const char *s, char **e, std::vector<Val> &) { float d = strtof(s, e); uint32_t o; memcpy(&o, &d, 4); return (u64)o; }, 32));
    for (auto n : {"strtoull", "strtoul", "__isoc23_strtoul", "__isoc23_strtoull"}) X(n, strto([](const char *s, char **e, std::vector<Val> &a) { return (u64)strtoull(s, e, (int)a[2].c); }, 64));
    for (auto n : {"strtoll", "strtol", "__isoc23_strtol", "__isoc23_strtoll"}) X(n, strto([](const char *s, char **e, std::vector<Val> &a) { return (u64)strtoll(s, e, (int)a[2].c); }, 64));
    X("snprintf", XF { std::string s = fmtPrintf(cstr(a[2]), a, 3); putStr(a[0], s, conc(a[1], 64)); r = Val((u64)s.size()); return true; });
    X("vsnprintf", XF { std::string f = cstr(a[2]); Val p = load(addOff(a[3], 8), 8); std::vector<Val> v; for (size_t i = 0; i + 1 <= S->mem.get(addrId(p.c))->size / 8; i++) v.push_back(load(addOff(p, 8 * i), 8)); std::string s = fmtPrintf(f, v, 0); putStr(a[0], s, conc(a[1], 64)); r = Val((u64)s.size()); return true; });
    for (auto n : {"puts", "printf", "fflush", "fprintf", "fwrite", "fputs"}) X(n, XF { r = Val((u64)0); return true; });
    auto math1 = [this](double (*f)(double)) { return [this, f](DInst &, std::vector<Val> &a, Val &r) -> bool { double x = ExprPool::todbl(conc(a[0], 64), 64); r = Val(ExprPool::fromdbl(f(x), 64)); return true; }; };
    X("log10", math1(log10)); X("log2", math1(log2)); X("log", math1(log)); X("exp", math1(exp)); X("sqrt", math1(sqrt)); X("floor", math1(floor)); X("ceil", math1(ceil)); X("round", math1(round));
    X("ldexp", XF { r = Val(ExprPool::fromdbl(ldexp(ExprPool::todbl(conc(a[0], 64), 64), (int)conc(a[1], 32)), 64)); return true; });
    X("pow", XF { r = Val(ExprPool::fromdbl(pow(ExprPool::todbl(conc(a[0], 64), 64), ExprPool::todbl(conc(a[1], 64), 64)), 64)); return true; });
    X("fmod", XF { r = binop(KFRem, a[0], a[1], 64); return true; });
    // ---- C++ ABI
    X("__cxa_allocate_exception", XF { r = Val(mkAddr(alloc(conc(a[0], 64), OHeap, "exception", true))); S->excs[r.c] = ExcInfo{nullptr}; return true; });
    X("__cxa_free_exception", XF { return true; });
    X("__cxa_init_primary_exception", XF { S->excs[a[0].c] = ExcInfo{tiOf(a[1])}; r = a[0]; return true; });
    X("__cxa_throw", XF { S->excs[a[0].c] = ExcInfo{tiOf(a[1])}; doThrow(a[0].c); return false; });
    X("__cxa_rethrow", XF { auto &t = S->th[S->cur]; if (t.caught.empty()) die("abort", "rethrow without exception"); u64 e = t.caught.back(); doThrow(e); return false; });
    X("_Unwind_Resume", XF { u64 e = a[0].c; doThrow(e); return false; });
    X("__cxa_begin_catch", XF { S->th[S->cur].caught.push_back(a[0].c); r = a[0]; return true; });
    X("__cxa_end_catch", XF { auto &c = S->th[S->cur].caught; if (!c.empty()) c.pop_back(); return true; });
    X("__cxa_get_exception_ptr", XF { r = a[0]; return true; });
    for (auto n : {"_ZSt9terminatev", "__clang_call_terminate", "_ZSt10unexpectedv", "__cxa_call_terminate"}) X(n, XF { die("uncaught exception", std::string("std::terminate called") + (S->th[S->cur].exc.c ? ": " + excDesc(S->th[S->cur].exc.c) : "")); return true; });
    X("__cxa_pure_virtual", XF { die("abort", "pure virtual call"); return true; });
    X("__cxa_bad_cast", XF { callRt("sxrt_throw_bad_cast", {}); return false; });
    X("__cxa_throw_bad_array_new_length", XF { callRt("sxrt_throw_bad_alloc", {}); return false; });
    X("_ZSt18uncaught_exceptionv", XF { r = Val((u64)0); return true; }); X("_ZSt19uncaught_exceptionsv", XF { r = Val((u64)0); return true; });
    X("_ZSt17current_exceptionv", XF { auto &c = S->th[S->cur].caught; store(a[0], 8, Val(c.empty() ? (u64)0 : c.back())); return true; });
    X("_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE", XF { Val p = load(a[0], 8); doThrow(conc(p, 64)); return false; });
    for (auto n : {"_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv", "_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv", "_ZNSt15__exception_ptr13exception_ptrD1Ev"}) X(n, XF { return true; });
    X("_ZNSt15__exception_ptr13exception_ptrC1EPv", XF { store(a[0], 8, a[1]); return true; });
    for (auto n : {"_ZNSt15__exception_ptr13exception_ptrC1ERKS0_"}) X(n, XF { store(a[0], 8, load(a[1], 8)); return true; });
    X("_ZNSt15__exception_ptr13exception_ptraSERKS0_", XF { store(a[0], 8, load(a[1], 8)); r = a[0]; return true; });
    X("_ZNSt15__exception_ptr13exception_ptr4swapERS0_", XF { Val x = load(a[0], 8), y = load(a[1], 8); store(a[0], 8, y); store(a[1], 8, x); return true; });
    X("__cxa_guard_acquire", XF { RaceOff ro(S); Val g = load(a[0], 1); r = Val((u64)(conc(g, 8) == 0)); return true; });
    X("__cxa_guard_release", XF { RaceOff ro(S); store(a[0], 1, Val((u64)1)); return true; }); X("__cxa_guard_abort", XF { return true; });
    for (auto n : {"__cxa_atexit", "__cxa_thread_atexit", "atexit"}) X(n, XF { r = Val((u64)0); return true; });
    X("__dynamic_cast", XF {
        u64 src = conc(a[0], 64); if (!src) { r = Val((u64)0); return true; } Val vt = load(Val(src), 8); Val off = load(Val(vt.c - 16), 8), ti = load(Val(vt.c - 8), 8); u64 adj = 0; auto g = tiOf(ti), w = tiOf(a[2]);
        if (g && w && tiDerived(g, w, adj)) r = Val(src + off.c + adj); else r = Val((u64)0); return true; });
}
std::map<std::tuple<std::string, unsigned, u64>, Expr *> constSyms;
Expr *constSym(const std::string &n, unsigned w, u64 v) { auto k = std::make_tuple(n, w, v); auto it = constSyms.find(k); if (it != constSyms.end()) return it->second; P.syms.push_back({n, w, v, v, false}); Expr *e = P.intern(KSym, w, P.syms.size() - 1, nullptr, nullptr, nullptr, v, v); constSyms[k] = e; return e; }
std::unordered_map<uint32_t, GlobalVariable *> gvRev;
GlobalVariable *tiOf(const Val &v) { if (gvRev.empty()) for (auto &p : gv) gvRev[p.second] = p.first; auto it = gvRev.find(addrId(v.c)); return it == gvRev.end() ? nullptr : it->second; }
