// driver and JSON report (included inside struct Engine)
static std::string js(const std::string &s) { std::string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else if (c > 126) o += '?'; else o += (char)c; } return o + "\""; }
void endPath() {
    if (wasPruned) { wasPruned = false; return; } ++nPaths;
    if (nSamples) { ++sampleSeen; size_t slot = samples.size(); if (slot >= nSamples) slot = (size_t)(rng() % sampleSeen);
        if (slot < nSamples) { Violation v; v.kind = "path"; fillInputs(v, S->model.get()); v.uninit = pathUninit(nullptr); if (slot >= samples.size()) samples.push_back(v); else samples[slot] = v; } }
}
int runLoop() {
    while (!work.empty()) {
        if (now() - t0 > maxTime) { incon.push_back("time limit reached with " + std::to_string(work.size()) + " unexplored states"); return 2; }
        if (viol.size() >= maxViol) return 1;
        if (!incon.empty()) return 2;
        S = work.back(); work.pop_back(); fr = S->th[S->cur].fr.empty() ? nullptr : &top(); bool alive = true;
        u64 cnt = 0;
        while (alive) {
            try {
                for (;;) { ++nInst; ++S->steps; 
                    if ((++cnt & 0xffff) == 0) { if (now() - t0 > maxTime) { incon.push_back("time limit reached"); return 2; } if (S->steps > maxSteps) { die("non-termination", "path exceeds the step bound"); } }
                    step(); }
            } catch (PathEnd &) { alive = false; if (viol.size() < maxViol) endPath(); }
            catch (Unsupported &u) { incon.push_back("unsupported: " + u.what + " at " + (fr ? where() : "")); alive = false; }
        }
        delete S; S = nullptr; curModelPtr = nullptr;
    }
    return viol.empty() ? (incon.empty() ? 0 : 2) : 1;
}
void runInit(Function *F) { // run a global constructor to completion in the initial state (no symbols)
    std::vector<Val> no; S->th[0].fr.clear(); fr = nullptr; pushFrame(fn(F), no);
    try { for (;;) { ++nInst; step(); } } catch (PathEnd &) {}
}
int main(const std::string &bc, const std::string &entry, const std::string &out) {
    t0 = now(); initZ3(); SMDiagnostic err; M = parseIRFile(bc, err, ctx); if (!M) { err.print("symx", errs()); return 3; } scalarize();
    DL = &M->getDataLayout(); initExternals();
    S = new State(); S->th.resize(1); S->model = std::make_shared<std::vector<u64>>();
    int rc = 2;
    try {
        setupGlobals();
        { uint32_t dot = alloc(2, OGlobal, "dot", false), emp = alloc(1, OGlobal, "empty", false); S->mem.get(dot)->d[0] = '.'; uint32_t lc = alloc(96, OGlobal, "lconv", false); u64 x = mkAddr(dot), y = mkAddr(emp); Obj *o = S->mem.get(lc); for (int i = 0; i < 10; i++) memcpy(&o->d[8 * i], i ? &y : &x, 8); lconvAddr = mkAddr(lc); errnoAddr = mkAddr(alloc(8, OGlobal, "errno", false)); }
        if (auto gc = M->getGlobalVariable("llvm.global_ctors")) if (gc->hasInitializer()) if (auto ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
            std::vector<std::pair<u64, Function *>> v; for (auto &o : ca->operands()) { auto cs = cast<ConstantStruct>(o); if (auto f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), f}); }
            std::stable_sort(v.begin(), v.end(), [](auto &a, auto &b) { return a.first < b.first; }); for (auto &p : v) runInit(p.second); }
        Function *F = M->getFunction(entry); if (!F) { std::cerr << "no entry " << entry << "\n"; return 3; }
        S->th[0].fr.clear(); std::vector<Val> no; pushFrame(fn(F), no); S->steps = 0; work.push_back(S); S = nullptr;
        rc = runLoop();
    } catch (Unsupported &u) { incon.push_back("unsupported: " + u.what + " (init)"); rc = viol.empty() ? 2 : 1; }
    std::ostringstream o; auto inputs = [&](const Violation &v) { o << "["; bool f = true; for (auto &i : v.inputs) { o << (f ? "" : ",") << "[" << js(i.first) << "," << i.second.first << ",\"" << i.second.second << "\"]"; f = false; } o << "]"; };
    o << "{\"status\":" << rc << ",\"paths\":" << nPaths << ",\"forks\":" << nForks << ",\"instructions\":" << nInst << ",\"queries\":" << nQueries << ",\"sat\":" << nSat << ",\"unsat\":" << nUnsat << ",\"solver_s\":" << solverT << ",\"checks\":" << nChecks << ",\"checks_solver\":" << nChecksSolver << ",\"pruned\":" << nPruned << ",\"wall_s\":" << now() - t0 << ",\"exprs\":" << P.count;
    o << ",\"covers\":{"; bool f = true; for (auto &c : covers) { o << (f ? "" : ",") << js(c.first) << ":" << c.second; f = false; } o << "}";
    o << ",\"inconclusive\":["; f = true; for (auto &s : incon) { o << (f ? "" : ",") << js(s); f = false; } o << "]";
    auto dump = [&](const char *name, std::vector<Violation> &vs) { o << ",\"" << name << "\":["; bool f = true; for (auto &v : vs) { o << (f ? "" : ",") << "{\"kind\":" << js(v.kind) << ",\"msg\":" << js(v.msg) << ",\"where\":" << js(v.where) << ",\"uninit\":" << (v.uninit ? "true" : "false") << ",\"inputs\":"; inputs(v); o << ",\"obs\":["; bool g = true; for (auto x : v.obs) { o << (g ? "" : ",") << "\"" << x << "\""; g = false; } o << "]}"; f = false; } o << "]"; };
    dump("violations", viol); dump("samples", samples);
    o << ",\"functions\":["; f = true; std::set<std::string> names; for (auto fi : usedFns) { std::string d = demangle(fi->name); if (d.find("z5::") != std::string::npos && d.find("std::") != 0) names.insert(d.substr(0, 200)); } for (auto &n : names) { o << (f ? "" : ",") << js(n); f = false; } o << "]}";
    if (out.empty()) std::cout << o.str() << std::endl; else { std::ofstream fo(out); fo << o.str() << "\n"; }
    return rc;
}
