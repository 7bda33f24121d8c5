// Loop cutting: an unbounded loop is replaced by one arbitrary iteration from a state that satisfies an inductive
// invariant. The invariant is (a) what the specification supplies through vf_loop, and (b) the strongest conjunction of a
// fixed family of candidate facts about the loop-carried values that holds on entry and is preserved (Houdini).

struct Cand { string name; std::function<V(State&)> f; };

static const Loop* loopOf(Frame& f, const BasicBlock* header) {
    ensureLoops(f.fi, f.f);
    const Loop* L = f.fi->li->getLoopFor(header);
    while (L && L->getHeader() != header) L = L->getParentLoop();
    return L;
}
static bool loopSpecFor(State& s, Frame& f, uint64_t& inv) {
    for (auto& l : s.loops)
        if (l.fn == "*" || (l.fn[0] == '~' && f.fi->dem.find(l.fn.substr(1)) != string::npos) || f.fi->base == l.fn || (f.fi->base.size() > l.fn.size() && f.fi->base.compare(f.fi->base.size() - l.fn.size(), string::npos, l.fn) == 0)) { inv = l.inv; return true; }
    return false;
}

static void havocLoop(State& s, const BasicBlock* header, const SubMode& sm) {
    size_t fi = s.stack.size() - 1;
    for (auto& phi : header->phis()) {
        if (phi.getType()->isAggregateType()) continue;
        V v = freshV(s, DL->getTypeSizeInBits(phi.getType()), "loop");
        reg(s.stack[fi], &phi) = v;
    }
    for (auto b : sm.wholeObj) {
        auto it = s.mem.find(b);
        if (it == s.mem.end()) continue;
        Obj& o = wobj(s, it);
        o.c = Content();
        o.c.base = Base::Arr;
        o.c.arr = freshArr(s, "loopmem");
    }
    for (auto& w : sm.writes) {
        auto it = s.mem.find(std::get<0>(w));
        if (it == s.mem.end() || sm.wholeObj.count(std::get<0>(w))) continue;
        Obj& o = wobj(s, it);
        putCell(o.c, std::get<1>(w), freshV(s, std::get<2>(w) * 8, "loopmem"));
    }
}

// does a term depend on memory content (array selects)? such facts are not attempted
static bool dataDependent(const X& x) {
    std::set<unsigned> seen;
    vector<Z3_ast> todo{x.a};
    while (!todo.empty()) {
        Z3_ast a = todo.back();
        todo.pop_back();
        if (!seen.insert(Z3_get_ast_id(Z, a)).second) continue;
        if (seen.size() > 400) return true;
        if (Z3_get_ast_kind(Z, a) != Z3_APP_AST) continue;
        Z3_app ap = Z3_to_app(Z, a);
        if (Z3_get_decl_kind(Z, Z3_get_app_decl(Z, ap)) == Z3_OP_SELECT) return true;
        for (unsigned i = 0, n = Z3_get_app_num_args(Z, ap); i < n; ++i) todo.push_back(Z3_get_app_arg(Z, ap, i));
    }
    return false;
}

// drop the candidates that are not valid in state b (model-guided; undecided candidates are dropped)
static void filterCands(State& b, vector<Cand>& cands) {
    unsigned old = SOL.timeout_ms;
    if (!ensureModel(b)) return;    // infeasible
    vector<std::pair<Cand, V>> live;
    for (auto& c : cands) {
        V v = c.f(b);
        if (!v.sym && !v.c) continue;
        if (v.sym && dataDependent(v.e)) continue;
        if (v.sym && b.model) { X e = b.model->eval(v.e); if (e && isFalse(e)) continue; }
        live.emplace_back(c, v);
    }
    SOL.setTimeout(2000);
    while (true) {
        X all = mkTrue();
        for (auto& l : live) if (l.second.sym) all = mkAnd(all, l.second.e);
        if (isTrue(all)) break;
        ModelP m;
        Res r = SOL.check(b.path, mkNot(all), &m);
        if (r == UNSAT) break;
        vector<std::pair<Cand, V>> keep;
        if (r == SAT && m) {
            for (auto& l : live) {
                if (l.second.sym) { X e = m->eval(l.second.e); if (e && isFalse(e)) continue; }
                keep.push_back(l);
            }
            if (keep.size() == live.size()) r = UNK;
        }
        if (r == UNK) {
            keep.clear();
            SOL.setTimeout(300);
            for (auto& l : live)
                if (!l.second.sym || SOL.check(b.path, mkNot(l.second.e)) == UNSAT) keep.push_back(l);
            live.swap(keep);
            break;
        }
        live.swap(keep);
    }
    SOL.setTimeout(old);
    cands.clear();
    for (auto& l : live) cands.push_back(l.first);
}

static V cellVal(State& s, uint64_t b, uint64_t off, unsigned n) {
    auto it = s.mem.find(b);
    return readRange(s, it, V(64, off), n);
}

static void performCut(State& s, const BasicBlock* header) {
    Frame& f0 = s.stack.back();
    const Loop* L = loopOf(f0, header);
    string lname = f0.fi->base;
    CUTLOOPS[lname]++;
    State S0 = s;
    size_t depth = s.stack.size();

    SubMode sm;
    sm.header = header; sm.loop = L; sm.depth = depth; sm.objLimit = s.next;
    vector<Cand> cands;
    bool candsBuilt = false;

    auto build = [&]() {
        cands.clear();
        std::set<string> seenC;
        struct Var { string n; std::function<V(State&)> f; V v0; };
        vector<Var> vars;
        for (auto& phi : header->phis()) {
            if (phi.getType()->isAggregateType() || phi.getType()->isFloatingPointTy()) continue;
            const PHINode* p = &phi;
            Var v; v.n = p->hasName() ? p->getName().str() : "phi";
            v.f = [p, depth](State& st) { return reg(st.stack[depth - 1], p); };
            v.v0 = reg(S0.stack[depth - 1], p);
            if (VERBOSE) fprintf(stderr, "var %s = %s\n", v.n.c_str(), v.v0.sym ? Z3_ast_to_string(Z, v.v0.e.a) : std::to_string(v.v0.c).c_str());
            vars.push_back(v);
        }
        for (auto& w : sm.writes) {
            uint64_t b = std::get<0>(w), o = std::get<1>(w); unsigned n = std::get<2>(w);
            if (sm.wholeObj.count(b) || !S0.mem.count(b) || n > 8) continue;
            Var v; v.n = S0.mem[b]->name + "+" + std::to_string(o);
            v.f = [b, o, n](State& st) { return cellVal(st, b, o, n); };
            v.v0 = cellVal(S0, b, o, n);
            vars.push_back(v);
        }
        // loop-invariant values of the frame
        vector<std::pair<string, V>> consts;
        Frame& f = S0.stack[depth - 1];
        for (auto& kv : f.fi->idx) {
            const V& r = f.regs[kv.second];
            if (r.w == 0 || r.agg || r.w == 1) continue;
            if (auto* in = dyn_cast<Instruction>(kv.first)) if (L->contains(in) || isa<AllocaInst>(in)) continue;
            string key = std::to_string(r.w) + ":" + (r.sym ? "s" + std::to_string(Z3_get_ast_id(Z, r.e.a)) : std::to_string(r.c));
            if (!seenC.insert(key).second || (r.sym && dataDependent(r.e))) continue;
            if (consts.size() < 40) consts.emplace_back("reg" + key, r);
        }
        // constants compared inside the loop
        for (auto* bb : L->blocks())
            for (auto& in : *bb)
                if (auto* ic = dyn_cast<ICmpInst>(&in))
                    for (auto& op : ic->operands())
                        if (auto* ci = dyn_cast<ConstantInt>(op)) if (ci->getBitWidth() <= 64) { string key = std::to_string(ci->getBitWidth()) + ":" + std::to_string(ci->getZExtValue()); if (seenC.insert(key).second) consts.emplace_back("const" + key, V(ci->getBitWidth(), ci->getZExtValue())); }
        auto add = [&](const string& n, std::function<V(State&)> fn) { cands.push_back({n, fn}); };
        for (size_t i = 0; i < vars.size(); ++i) {
            auto& a = vars[i];
            V v0 = a.v0; auto fa = a.f;
            if (v0.w == 0) continue;
            add(a.n + "==init", [fa, v0](State& st) { return cmp(EQ, fa(st), v0); });
            if (v0.w == 1) continue;
            add(a.n + ">=init", [fa, v0](State& st) { return cmp(UGE, fa(st), v0); });
            add(a.n + "<=init", [fa, v0](State& st) { return cmp(ULE, fa(st), v0); });
            add(a.n + "s>=init", [fa, v0](State& st) { return cmp(SGE, fa(st), v0); });
            add(a.n + "s<=init", [fa, v0](State& st) { return cmp(SLE, fa(st), v0); });
            for (unsigned k : {2u, 4u, 8u, 16u, 32u})
                add(a.n + "%" + std::to_string(k), [fa, v0, k](State& st) { return cmp(EQ, binop(And, binop(Sub, fa(st), v0), V(v0.w, k - 1)), V(v0.w, 0)); });
            for (auto& c : consts) {
                if (c.second.w != v0.w) continue;
                V cv = c.second;
                add(a.n + "<=" + c.first, [fa, cv](State& st) { return cmp(ULE, fa(st), cv); });
                add(a.n + ">=" + c.first, [fa, cv](State& st) { return cmp(UGE, fa(st), cv); });
                add(a.n + "s<=" + c.first, [fa, cv](State& st) { return cmp(SLE, fa(st), cv); });
            }
            for (size_t j = 0; j < vars.size(); ++j) {
                if (i == j) continue;
                auto& b = vars[j];
                if (b.v0.w != v0.w) continue;
                V w0 = b.v0; auto fb = b.f;
                if (i < j) {
                    add(a.n + "-" + b.n, [fa, fb, v0, w0](State& st) { return cmp(EQ, binop(Sub, fa(st), fb(st)), binop(Sub, v0, w0)); });
                    add(a.n + "+" + b.n, [fa, fb, v0, w0](State& st) { return cmp(EQ, binop(Add, fa(st), fb(st)), binop(Add, v0, w0)); });
                }
                add(a.n + "<=" + b.n, [fa, fb](State& st) { return cmp(ULE, fa(st), fb(st)); });
                for (unsigned k : {2u, 4u, 8u, 16u, 32u})
                    add(a.n + "=" + std::to_string(k) + "*" + b.n, [fa, fb, v0, w0, k](State& st) { return cmp(EQ, binop(Sub, fa(st), v0), binop(Mul, binop(Sub, fb(st), w0), V(v0.w, k))); });
            }
        }
        // discard what a few real iterations already refute
        {
            auto st = std::make_unique<State>(S0);
            st->stack.back().cuts[header] = 1;
            int budget = 6;
            auto evalDrop = [&](State& b) {
                if (!ensureModel(b) || !b.model) return;
                vector<Cand> keep;
                for (auto& c : cands) {
                    V v = c.f(b);
                    if (!v.sym ? !v.c : dataDependent(v.e)) continue;
                    if (v.sym) { X e = b.model->eval(v.e); if (e && isFalse(e)) continue; }
                    keep.push_back(c);
                }
                cands.swap(keep);
            };
            evalDrop(S0);
            vector<std::unique_ptr<State>> again;
            sm.onBackedge = [&](State& b) {
                evalDrop(b);
                if (budget-- > 0) again.push_back(std::make_unique<State>(b));
            };
            SUB.push_back(&sm);
            size_t base = WORK.size();
            WORK.push_back(std::move(st));
            explore(base);
            auto next = std::move(again);
            again.clear();
            budget = 0;
            for (auto& n : next) { size_t b2 = WORK.size(); n->model = nullptr; WORK.push_back(std::move(n)); explore(b2); }
            SUB.pop_back();
        }
        filterCands(S0, cands);
    };

    uint64_t inv = 0;
    loopSpecFor(s, f0, inv);
    int rounds = 0;
    while (true) {
        if (++rounds > 60) { unsupported(s, "loop invariant inference did not converge in " + lname); return; }
        if (!candsBuilt) { build(); candsBuilt = true; }
        size_t nw = sm.writes.size(), no = sm.wholeObj.size(), nc = cands.size();
        auto st = std::make_unique<State>(S0);
        State& S = *st;
        havocLoop(S, header, sm);
        S.model = nullptr;
        for (auto& c : cands) { V v = c.f(S); if (v.sym) addPath(S, v.e); }
        S.stack.back().cuts[header] = 1;
        if (inv) pushFrame(S, FADDR[inv], {V(32, 0)}, 3);
        sm.onBackedge = [&](State& b) { filterCands(b, cands); };
        if (VERBOSE) { fprintf(stderr, "[loop] %s round %d: %zu cands, %zu writes\n", lname.c_str(), rounds, cands.size(), sm.writes.size()); for (auto& c : cands) fprintf(stderr, "   %s\n", c.name.c_str()); }
        SUB.push_back(&sm);
        size_t base = WORK.size();
        WORK.push_back(std::move(st));
        explore(base);
        SUB.pop_back();
        if (TIMEDOUT) { endPath(s); return; }
        if (sm.writes.size() != nw || sm.wholeObj.size() != no) { candsBuilt = false; continue; }
        if (cands.size() != nc) continue;
        break;
    }
    for (auto& c : cands) NOTES.insert("invariant " + lname + ": " + c.name);
    // continue from the arbitrary iteration
    if (!SUB.empty()) for (auto* o : SUB) {
        for (auto& w : sm.writes) if (std::get<0>(w) < o->objLimit) o->writes.insert(w);
        for (auto b : sm.wholeObj) if (b < o->objLimit) o->wholeObj.insert(b);
    }
    havocLoop(s, header, sm);
    s.model = nullptr;
    for (auto& c : cands) { V v = c.f(s); if (v.sym) addPath(s, v.e); }
    s.stack.back().cuts[header] = 1;
    if (inv) pushFrame(s, FADDR[inv], {V(32, 0)}, 3);
}

static bool loopArrive(State& s, const BasicBlock* from, const BasicBlock* to) {
    Frame& f = s.stack.back();
    // leaving loops that are cut in this frame
    if (!f.cuts.empty()) {
        for (auto it = f.cuts.begin(); it != f.cuts.end();) {
            const Loop* L = loopOf(f, it->first);
            if (!L->contains(to)) {
                if (!SUB.empty() && SUB.back()->depth == s.stack.size() && SUB.back()->header == it->first) { endPath(s); return false; }
                it = f.cuts.erase(it);
            }
            else ++it;
        }
        auto c = f.cuts.find(to);
        if (c != f.cuts.end()) {
            const Loop* L = loopOf(f, to);
            if (L->contains(from)) {
                if (!SUB.empty() && SUB.back()->depth == s.stack.size() && SUB.back()->header == to) {
                    SUB.back()->onBackedge(s);
                    endPath(s);
                    return false;
                }
                uint64_t inv = 0;
                if (loopSpecFor(s, f, inv) && inv) { pushFrame(s, FADDR[inv], {V(32, 1)}, 5); return false; }
                endPath(s);
                return false;
            }
        }
    }
    uint64_t inv = 0;
    if (!loopSpecFor(s, f, inv)) return true;
    const Loop* L = loopOf(f, to);
    if (!L || f.cuts.count(to)) return true;
    bool wildcard = true;
    for (auto& l : s.loops) if (l.fn != "*" && ((l.fn[0] == '~' && f.fi->dem.find(l.fn.substr(1)) != string::npos) || f.fi->base == l.fn || (f.fi->base.size() > l.fn.size() && f.fi->base.compare(f.fi->base.size() - l.fn.size(), string::npos, l.fn) == 0))) wildcard = false;
    if (wildcard) {
        // "*": only loops whose continuation depended on unknown values or on other threads are cut, after one iteration
        if (!L->contains(from)) { f.symExit.erase(to); f.hooksAt[to] = s.hooksRun; return true; }
        if (!f.symExit.count(to) && f.hooksAt[to] == s.hooksRun) return true;
    }
    else if (L->contains(from)) return true;
    if (inv) { f.cutPending = to; pushFrame(s, FADDR[inv], {V(32, 1)}, 6); return false; }
    performCut(s, to);
    return false;
}
