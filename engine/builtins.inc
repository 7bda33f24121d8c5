// Specification intrinsics (vf_*), LLVM intrinsics and the modelled part of libc / libstdc++ (each use is reported as trusted).

static bool cstr(State& s, const V& p, string& out) {
    out.clear();
    if (p.sym) return false;
    for (uint64_t a = p.c;; ++a) {
        auto oi = findObj(s, a);
        if (oi == s.mem.end()) return false;
        V b = readRange(s, oi, V(64, a - oi->first), 1);
        if (b.sym) return false;
        if (!b.c) return true;
        out += (char) b.c;
        if (out.size() > 4096) return false;
    }
}

static Content snapshot(const Content& c) {
    Content r = c;
    flushCells(r);
    return r;
}

static bool doMemcpy(State& s, const V& d, const V& src, V n) {
    if (!n.sym && n.c == 0) return true;
    if (n.sym) {
        V z = cmp(EQ, n, V(64, 0));
        bool zero = decide(s, z);
        if (s.stack.empty()) return false;
        if (zero) return true;
    }
    Ref rd, rs;
    if (!resolve(s, src, n, rs, "memcpy source")) return false;
    if (!resolve(s, d, n, rd, "memcpy destination")) return false;
    if (n.sym) {
        // bounded by a small concrete object: enumerate the length
        uint64_t cap = ~0ull;
        if (!rd.oi->second->symsize) cap = std::min(cap, rd.oi->second->size);
        if (!rs.oi->second->symsize) cap = std::min(cap, rs.oi->second->size);
        if (cap <= 64) { if (!concretize(s, n)) return false; }
    }
    if (rd.oi->second->isconst) { failNow(s, "memory-safe:" + where(s), "memcpy to constant"); return false; }
    if (!n.sym && !rd.off.sym && !rs.off.sym && n.c <= 4096 && rs.oi->second->c.layers.empty()) {
        const Content sc = rs.oi->second->c;   // copy: handles overlap
        Obj& o = wobj(s, rd.oi);
        if (!SUB.empty()) for (uint64_t k = 0; k < n.c; k += 8) recordWrite(s, o, V(64, rd.off.c + k), std::min<uint64_t>(8, n.c - k));
        uint64_t so = rs.off.c, e = so + n.c, dof = rd.off.c;
        clearCells(o.c, dof, n.c);
        // background
        if (sc.base == Base::Zero) {
            if (!(o.c.base == Base::Zero && o.c.layers.empty())) {
                // fill gaps with zero bytes (8 at a time when possible)
                uint64_t k = 0;
                while (k < n.c) {
                    uint64_t step = (n.c - k >= 8) ? 8 : 1;
                    o.c.cells[dof + k] = V(step * 8, 0);
                    k += step;
                }
            }
        }
        else if (sc.base == Base::Arr) {
            for (uint64_t k = 0; k < n.c; ++k) o.c.cells[dof + k] = sval(8, X(Z3_mk_select(Z, sc.arr.a, mkc(64, so + k).a)));
        }
        else if (!(o.c.base == Base::Undef && o.c.layers.empty())) {
            for (uint64_t k = 0; k < n.c; ++k) o.c.cells[dof + k] = freshV(s, 8, "undef");
        }
        auto it = sc.cells.lower_bound(so);
        if (it != sc.cells.begin()) {
            auto p = std::prev(it);
            if (p->first + p->second.w / 8 > so) it = p;
        }
        for (; it != sc.cells.end() && it->first < e; ++it) {
            uint64_t b = it->first, z = b + it->second.w / 8;
            if (b >= so && z <= e) putCell(o.c, dof + (b - so), it->second);
            else
                for (uint64_t k = std::max(b, so); k < std::min(z, e); ++k) putCell(o.c, dof + (k - so), extractByte(it->second, k - b));
        }
        return true;
    }
    auto snap = std::make_shared<Content>();
    if (rs.oi->second->c.base == Base::Undef) { Obj& w = wobj(s, rs.oi); w.c.base = Base::Arr; w.c.arr = freshArr(s, "undef"); }
    *snap = snapshot(rs.oi->second->c);
    Obj& o = wobj(s, rd.oi);
    if (!SUB.empty()) recordWrite(s, o, freshV(s, 64, "x"), 1);
    flushCells(o.c);
    Layer L;
    L.kind = Layer::Copy;
    L.off = ast(rd.off); L.len = ast(n); L.src = snap; L.srcoff = ast(rs.off);
    o.c.layers.push_back(L);
    return true;
}
static bool doMemset(State& s, const V& d, const V& v, V n) {
    if (!n.sym && n.c == 0) return true;
    Ref rd;
    if (n.sym) {
        V z = cmp(EQ, n, V(64, 0));
        bool zero = decide(s, z);
        if (s.stack.empty()) return false;
        if (zero) return true;
    }
    if (!resolve(s, d, n, rd, "memset")) return false;
    if (!n.sym && !rd.off.sym && rd.oi->second->size == n.c && rd.off.c == 0 && !v.sym && v.c == 0 && !rd.oi->second->symsize) {
        Obj& o = wobj(s, rd.oi);
        if (!SUB.empty()) recordWrite(s, o, freshV(s, 64, "x"), 1);
        o.c = Content();
        o.c.base = Base::Zero;
        return true;
    }
    if (!n.sym && !rd.off.sym && n.c <= 4096) {
        uint64_t k = 0;
        while (k < n.c) {
            uint64_t step = (!v.sym && n.c - k >= 8) ? 8 : 1;
            V b = v;
            if (step == 8) b = V(64, v.c * 0x0101010101010101ull);
            writeRange(s, rd.oi, V(64, rd.off.c + k), b);
            k += step;
        }
        return true;
    }
    Obj& o = wobj(s, rd.oi);
    if (!SUB.empty()) recordWrite(s, o, freshV(s, 64, "x"), 1);
    flushCells(o.c);
    Layer L;
    L.kind = Layer::Set;
    L.off = ast(rd.off); L.len = ast(n); L.val = v;
    o.c.layers.push_back(L);
    return true;
}

static void doIntrinsic(State& s, const CallBase* cb, const Function* f) {
    auto id = f->getIntrinsicID();
    auto A = [&](unsigned i) { return get(s, cb->getArgOperand(i)); };
    switch (id) {
        case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end:
        case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::var_annotation: case Intrinsic::experimental_noalias_scope_decl:
        case Intrinsic::invariant_start: case Intrinsic::stackrestore:
            finishCall(s, cb, V(64, 0));
            return;
        case Intrinsic::stacksave: finishCall(s, cb, V(64, 0)); return;
        case Intrinsic::expect: case Intrinsic::expect_with_probability: finishCall(s, cb, A(0)); return;
        case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: finishCall(s, cb, A(0)); return;
        case Intrinsic::threadlocal_address: finishCall(s, cb, A(0)); return;
        case Intrinsic::is_constant: finishCall(s, cb, V(1, 0)); return;
        case Intrinsic::objectsize: finishCall(s, cb, V(DL->getTypeSizeInBits(cb->getType()), ~0ull)); return;
        case Intrinsic::trap: case Intrinsic::ubsantrap: failNow(s, "no-trap:" + where(s), "trap"); return;
        case Intrinsic::eh_typeid_for: { V t = A(0); finishCall(s, cb, V(32, typeId(t.c))); return; }
        case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
            if (!doMemcpy(s, A(0), A(1), A(2))) return;
            finishCall(s, cb, V());
            return;
        }
        case Intrinsic::memset: case Intrinsic::memset_inline: {
            if (!doMemset(s, A(0), A(1), A(2))) return;
            finishCall(s, cb, V());
            return;
        }
        case Intrinsic::umax: { V a = A(0), b = A(1); finishCall(s, cb, vite(cmp(UGT, a, b), a, b)); return; }
        case Intrinsic::umin: { V a = A(0), b = A(1); finishCall(s, cb, vite(cmp(ULT, a, b), a, b)); return; }
        case Intrinsic::smax: { V a = A(0), b = A(1); finishCall(s, cb, vite(cmp(SGT, a, b), a, b)); return; }
        case Intrinsic::smin: { V a = A(0), b = A(1); finishCall(s, cb, vite(cmp(SLT, a, b), a, b)); return; }
        case Intrinsic::abs: { V a = A(0); finishCall(s, cb, vite(cmp(SLT, a, V(a.w, 0)), binop(Sub, V(a.w, 0), a), a)); return; }
        case Intrinsic::usub_sat: { V a = A(0), b = A(1); finishCall(s, cb, vite(cmp(UGE, a, b), binop(Sub, a, b), V(a.w, 0))); return; }
        case Intrinsic::uadd_sat: { V a = A(0), b = A(1), r = binop(Add, a, b); finishCall(s, cb, vite(cmp(ULT, r, a), V(a.w, ~0ull), r)); return; }
        case Intrinsic::bswap: {
            V a = A(0), r;
            for (unsigned i = 0; i < a.w / 8; ++i) { V b = extractV(a, i * 8 + 7, i * 8); r = i == 0 ? b : concatV(r, b); }
            finishCall(s, cb, r);
            return;
        }
        case Intrinsic::fshl: case Intrinsic::fshr: {
            V a = A(0), b = A(1), c = A(2);
            unsigned w = a.w;
            V k = binop(And, c, V(w, w - 1));
            V inv = binop(And, binop(Sub, V(w, w), k), V(w, w - 1));
            V r;
            if (id == Intrinsic::fshl) r = vite(cmp(EQ, k, V(w, 0)), a, binop(Or, binop(Shl, a, k), binop(LShr, b, inv)));
            else r = vite(cmp(EQ, k, V(w, 0)), b, binop(Or, binop(Shl, a, inv), binop(LShr, b, k)));
            finishCall(s, cb, r);
            return;
        }
        case Intrinsic::ctpop: {
            V a = A(0), r(a.w, 0);
            for (unsigned i = 0; i < a.w; ++i) r = binop(Add, r, zext(extractV(a, i, i), a.w));
            finishCall(s, cb, r);
            return;
        }
        case Intrinsic::ctlz: case Intrinsic::cttz: {
            V a = A(0), r(a.w, a.w);
            for (unsigned i = 0; i < a.w; ++i) {
                unsigned bit = id == Intrinsic::ctlz ? i : a.w - 1 - i;
                V b = trunc(binop(LShr, a, V(a.w, bit)), 1);
                r = vite(b, V(a.w, id == Intrinsic::ctlz ? a.w - 1 - i : bit), r);
            }
            finishCall(s, cb, r);
            return;
        }
        case Intrinsic::fabs: { V a = A(0); finishCall(s, cb, binop(And, a, V(a.w, (1ull << (a.w - 1)) - 1))); return; }
        case Intrinsic::fmuladd: case Intrinsic::fma: {
            V a = A(0), b = A(1), c = A(2);
            finishCall(s, cb, fbin(Instruction::FAdd, fbin(Instruction::FMul, a, b), c));
            return;
        }
        case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow:
        case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
            V a = A(0), b = A(1);
            unsigned w = a.w;
            bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
            Op op = (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) ? Add : (id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow) ? Sub : Mul;
            unsigned w2 = 2 * w;
            V r = binop(op, a, b);
            V la = sg ? sext(a, w2) : zext(a, w2), lb = sg ? sext(b, w2) : zext(b, w2);
            V lr = binop(op, la, lb);
            V chk = sg ? sext(r, w2) : zext(r, w2);
            V ov  = cmp(NE, lr, chk);
            V res; res.agg = std::make_shared<vector<V>>();
            res.agg->push_back(r); res.agg->push_back(ov);
            finishCall(s, cb, res);
            return;
        }
        default: unsupported(s, "intrinsic " + f->getName().str()); return;
    }
}

static V newObj(State& s, V n, const string& name) {
    s.liveHeap++;
    if (!n.sym) return V(64, allocObj(s, n.c, Obj::Heap, name, Base::Undef));
    uint64_t a = allocObj(s, 1ull << 36, Obj::Heap, name, Base::Undef);
    s.mem[a]->symsize = n.e;
    // allocation sizes beyond 2^35 fail in reality: treated as an allocation that never returns
    addPath(s, ast(cmp(ULE, n, V(64, 1ull << 35))));
    return V(64, a);
}

static const std::set<string> NOOPS = {
    "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", 
    "_ZNSt18condition_variableC1Ev", "_ZNSt18condition_variableD1Ev", "pthread_cond_init", "pthread_cond_destroy", "pthread_mutex_init", "pthread_mutex_destroy",
    "__cxa_atexit", "__cxa_thread_atexit", "atexit", "fflush", "puts", "printf", "fprintf"};

static bool isStdExcMember(const string& n) {
    static const char* cls[] = {"9exception", "13runtime_error", "11logic_error", "16invalid_argument", "12out_of_range", "12length_error", "12domain_error", "11range_error", "12system_error", "14overflow_error", "9bad_alloc", "12bad_weak_ptr", "17bad_function_call"};
    if (n.compare(0, 5, "_ZNSt") != 0) return false;
    for (auto c : cls) {
        size_t l = strlen(c);
        if (n.compare(5, l, c) == 0 && n.size() > 5 + l + 1 && (n[5 + l] == 'C' || n[5 + l] == 'D')) return true;
    }
    return false;
}

static void releaseExc(State& s, uint64_t e) {
    auto it = s.exc.find(e);
    if (it == s.exc.end()) return;
    if (--it->second.refs <= 0) {
        // the destructor of the exception object is not run (exception objects hold no owned state in this code base)
        s.exc.erase(it);
    }
}

// returns true when the call was handled (or the path ended)
static bool builtin(State& s, const CallBase* cb, const Function* f, vector<V>& a) {
    string n = f->getName().str();
    auto done = [&](const V& v) { finishCall(s, cb, v); return true; };
    if (n.compare(0, 3, "vf_") == 0) {
        string nm;
        auto nondet = [&](unsigned w, unsigned ai) {
            if (!cstr(s, a[ai], nm)) nm = "nd";
            V v = freshV(s, w, nm);
            Nondet d; d.name = nm; d.w = w; d.e = v.e;
            s.nd.push_back(d);
            return v;
        };
        if (n == "vf_u64") return done(nondet(64, 0));
        if (n == "vf_f64") return done(nondet(64, 0));
        if (n == "vf_u32") return done(nondet(32, 0));
        if (n == "vf_u16") return done(nondet(16, 0));
        if (n == "vf_u8") return done(nondet(8, 0));
        if (n == "vf_bool") { V v = nondet(1, 0); return done(v); }
        if (n == "vf_choice") {
            // a[0]: number of alternatives; every alternative is explored on its own path
            if (a[0].sym && !concretize(s, a[0])) return true;
            if (!cstr(s, a[1], nm)) nm = "choice";
            if (a[0].c == 0) { endPath(s); return true; }
            V v = freshV(s, 64, nm);
            Nondet d; d.name = nm; d.w = 64; d.e = v.e;
            s.nd.push_back(d);
            uint64_t cnt = a[0].c;
            for (uint64_t i = cnt; i-- > 1;) {
                auto st = std::make_unique<State>(s);
                X eq = mkEq(v.e, mkc(64, i));
                st->path.push_back(eq);
                st->model = nullptr;
                FORKS++;
                State& q = *st;
                finishCall(q, cb, V(64, i));
                WORK.push_back(std::move(st));
            }
            s.path.push_back(mkEq(v.e, mkc(64, 0)));
            s.model = nullptr;
            return done(V(64, 0));
        }
        if (n == "vf_concretize") { if (!concretize(s, a[0])) return true; return done(a[0]); }
        if (n == "vf_sym") {
            // vf_sym(ptr, n, name): fresh content
            if (!cstr(s, a[2], nm)) nm = "sym";
            Ref r;
            if (!resolve(s, a[0], a[1], r, "vf_sym")) return true;
            X arr = freshArr(s, nm);
            Nondet d; d.name = nm; d.e = arr; d.len = ast(a[1]);
            s.nd.push_back(d);
            Obj& o = wobj(s, r.oi);
            if (!SUB.empty()) recordWrite(s, o, freshV(s, 64, "x"), 1);
            if (!a[1].sym && !r.off.sym && a[1].c <= 512) {
                uint64_t k = 0;
                while (k < a[1].c) {
                    putCell(o.c, r.off.c + k, sval(8, X(Z3_mk_select(Z, arr.a, mkc(64, k).a))));
                    k++;
                }
            }
            else {
                auto snap = std::make_shared<Content>();
                snap->base = Base::Arr; snap->arr = arr;
                flushCells(o.c);
                Layer L;
                L.kind = Layer::Copy; L.off = ast(r.off); L.len = ast(a[1]); L.src = snap; L.srcoff = mkc(64, 0);
                o.c.layers.push_back(L);
            }
            return done(V());
        }
        if (n == "vf_symalloc") {
            // vf_symalloc(n, name): n bytes (n may be symbolic) of arbitrary content
            if (!cstr(s, a[1], nm)) nm = "buf";
            uint64_t ad;
            if (a[0].sym) {
                ad = allocObj(s, 1ull << 36, Obj::Heap, nm, Base::Arr);
                s.mem[ad]->symsize = a[0].e;
            }
            else ad = allocObj(s, a[0].c, Obj::Heap, nm, Base::Arr);
            X arr = freshArr(s, nm);
            s.mem[ad]->c.arr = arr;
            Nondet d; d.name = nm; d.e = arr; d.len = ast(a[0]);
            s.nd.push_back(d);
            return done(V(64, ad));
        }
        if (n == "vf_assume") {
            if (!a[0].sym) { if (!a[0].c) { endPath(s); return true; } return done(V()); }
            V c = a[0].w == 1 ? a[0] : cmp(NE, a[0], V(a[0].w, 0));
            if (!c.sym) { if (!c.c) endPath(s); else finishCall(s, cb, V()); return true; }
            if (!feasible(s, c.e)) { endPath(s); return true; }
            addPath(s, c.e);
            return done(V());
        }
        if (n == "vf_assert") {
            V c = a[0].w == 1 ? a[0] : cmp(NE, a[0], V(a[0].w, 0));
            if (!cstr(s, a[1], nm)) nm = "assert";
            if (!oblige(s, c, nm, "postcondition")) return true;
            return done(V());
        }
        if (n == "vf_fail") { if (!cstr(s, a[0], nm)) nm = "fail"; failNow(s, nm, "postcondition"); return true; }
        if (n == "vf_cover") {
            cstr(s, a[0], nm);
            if (SUB.empty() && !COVERS.count(nm)) { if (!ensureModel(s)) { endPath(s); return true; } if (s.model) COVERS[nm]++; }
            return done(V());
        }
        if (n == "vf_trace") { cstr(s, a[0], nm); s.trace.push_back(nm); return done(V()); }
        if (n == "vf_stop") { endPath(s); return true; }
        if (n == "vf_print") {
            cstr(s, a[0], nm);
            string v = a[1].sym ? Z3_ast_to_string(Z, a[1].e.a) : std::to_string(a[1].c);
            fprintf(stderr, "[print] %s = %s\n", nm.c_str(), v.substr(0, 400).c_str());
            return done(V());
        }
        if (n == "vf_replace") {
            if (!cstr(s, a[0], nm)) { unsupported(s, "vf_replace name"); return true; }
            s.replName[nm] = a[1].c;
            s.repl.clear();
            return done(V());
        }
        if (n == "vf_hooks") { s.hookBefore = a[0].c; s.hookAfter = a[1].c; return done(V()); }
        if (n == "vf_hook_obj") { s.hookRanges.emplace_back(a[0].c, a[1].c); return done(V()); }
        if (n == "vf_hooks_off") { s.hooksOff++; return done(V()); }
        if (n == "vf_hooks_on") { s.hooksOff--; return done(V()); }
        if (n == "vf_loop") {
            if (!cstr(s, a[0], nm)) nm = "";
            s.loops.push_back({nm, a[1].c});
            return done(V());
        }
        if (n == "vf_live") return done(V(64, s.liveHeap));
        if (n == "vf_freed") {
            if (a[0].sym && !concretize(s, a[0])) return true;
            auto oi = findObj(s, a[0].c);
            return done(V(1, oi != s.mem.end() && oi->second->freed));
        }
        if (n == "vf_is_sym") return done(V(1, a[0].sym));
        if (n == "vf_native") return done(V(1, 0));
        if (n == "vf_thread_start") {
            if (s.threads.empty()) s.threads.emplace_back();
            s.threads.emplace_back();
            unsigned t = s.threads.size() - 1;
            std::swap(s.stack, s.threads[t].stack);
            pushFrame(s, FADDR[a[0].c], {a[1]});
            std::swap(s.stack, s.threads[t].stack);
            return done(V(64, 0x7001 + t));
        }
        if (n == "vf_thread_join") {
            uint64_t t = a[0].c - 0x7001;
            if (t >= s.threads.size()) { failNow(s, "memory-safe:" + where(s), "join of no thread"); return true; }
            if (s.threads[t].status != Thread::Done) { block(s, Thread::Join, t); return true; }
            return done(V());
        }
        if (n == "vf_preemptions") { s.preemptions = (int) a[0].c; return done(V()); }
        if (n == "vf_blocking") { s.blocking = a[0].c != 0; return done(V()); }
        if (n == "vf_mutex_depth") { return done(V(32, s.mutexes.count(a[0].c) ? s.mutexes[a[0].c] : 0)); }
        if (n == "vf_uf2") {
            if (!cstr(s, a[0], nm)) nm = "uf";
            Z3_sort dom[2] = {bvs(64), bvs(64)};
            Z3_func_decl d = Z3_mk_func_decl(Z, Z3_mk_string_symbol(Z, nm.c_str()), 2, dom, bvs(64));
            Z3_ast args[2] = {ast(a[1]).a, ast(a[2]).a};
            return done(sval(64, X(Z3_mk_app(Z, d, 2, args))));
        }
        if (n == "vf_select_u64") {  // pure if-then-else
            V c = a[0].w == 1 ? a[0] : cmp(NE, a[0], V(a[0].w, 0));
            return done(vite(c, a[1], a[2]));
        }
        if (!f->isDeclaration()) return false;
        unsupported(s, "spec intrinsic " + n);
        return true;
    }
    auto ext = [&]() { EXTERNS[demangle(n)]++; };
    // ---- allocation ----
    if (n == "_Znwm" || n == "_Znam" || n == "malloc" || n == "_ZnwmSt11align_val_t" || n == "_ZnamSt11align_val_t" || n == "_ZnwmRKSt9nothrow_t") {
        ext();
        return done(newObj(s, a[0], "heap@" + where(s)));
    }
    if (n == "calloc") {
        ext();
        V sz = binop(Mul, a[0], a[1]);
        V p = newObj(s, sz, "heap");
        s.mem[p.c]->c.base = Base::Zero;
        return done(p);
    }
    if (n.compare(0, 5, "_ZdlP") == 0 || n.compare(0, 5, "_ZdaP") == 0 || n == "free") {
        ext();
        if (a[0].sym && !concretize(s, a[0])) return true;
        if (a[0].c == 0) return done(V());
        auto oi = s.mem.find(a[0].c);
        string nm = "memory-safe:" + where(s);
        if (oi == s.mem.end() || oi->second->kind != Obj::Heap) { failNow(s, nm, "delete of a pointer that was not allocated"); return true; }
        if (oi->second->freed) { failNow(s, nm, "double delete of " + oi->second->name); return true; }
        OBS[nm].constant += SUB.empty();
        wobj(s, oi).freed = true;
        s.liveHeap--;
        return done(V());
    }
    if (n == "memcpy" || n == "memmove") { ext(); if (!doMemcpy(s, a[0], a[1], a[2])) return true; return done(a[0]); }
    if (n == "memset") { ext(); if (!doMemset(s, a[0], trunc(a[1], 8), a[2])) return true; return done(a[0]); }
    if (n == "memcmp" || n == "bcmp") {
        ext();
        if (a[2].sym && !concretize(s, a[2])) return true;
        if (a[2].c == 0) return done(V(32, 0));
        Ref x, y;
        if (!resolve(s, a[0], a[2], x, "memcmp")) return true;
        if (!resolve(s, a[1], a[2], y, "memcmp")) return true;
        V r(32, 0);
        for (uint64_t i = a[2].c; i-- > 0;) {
            V p = readRange(s, x.oi, binop(Add, x.off, V(64, i)), 1), q = readRange(s, y.oi, binop(Add, y.off, V(64, i)), 1);
            V d = binop(Sub, zext(p, 32), zext(q, 32));
            r = vite(cmp(EQ, p, q), r, d);
        }
        return done(r);
    }
    if (n == "strlen") {
        ext();
        if (a[0].sym && !concretize(s, a[0])) return true;
        for (uint64_t i = 0;; ++i) {
            Ref r;
            if (!resolve(s, V(64, a[0].c + i), V(64, 1), r, "strlen")) return true;
            V b = readRange(s, r.oi, r.off, 1);
            bool z = decide(s, cmp(EQ, b, V(8, 0)));
            if (s.stack.empty()) return true;
            if (z) return done(V(64, i));
        }
    }
    if (n == "strcmp" || n == "strncmp") {
        ext();
        for (uint64_t i = 0;; ++i) {
            if (n == "strncmp") { if (a[2].sym && !concretize(s, a[2])) return true; if (i >= a[2].c) return done(V(32, 0)); }
            Ref x, y;
            if (!resolve(s, binop(Add, a[0], V(64, i)), V(64, 1), x, "strcmp")) return true;
            if (!resolve(s, binop(Add, a[1], V(64, i)), V(64, 1), y, "strcmp")) return true;
            V p = readRange(s, x.oi, x.off, 1), q = readRange(s, y.oi, y.off, 1);
            bool e = decide(s, cmp(EQ, p, q));
            if (s.stack.empty()) return true;
            if (!e) return done(binop(Sub, zext(p, 32), zext(q, 32)));
            bool z = decide(s, cmp(EQ, p, V(8, 0)));
            if (s.stack.empty()) return true;
            if (z) return done(V(32, 0));
        }
    }
    if (n == "memchr") {
        ext();
        if (a[2].sym && !concretize(s, a[2])) return true;
        for (uint64_t i = 0; i < a[2].c; ++i) {
            Ref x;
            if (!resolve(s, binop(Add, a[0], V(64, i)), V(64, 1), x, "memchr")) return true;
            V p = readRange(s, x.oi, x.off, 1);
            bool e = decide(s, cmp(EQ, p, trunc(a[1], 8)));
            if (s.stack.empty()) return true;
            if (e) return done(binop(Add, a[0], V(64, i)));
        }
        return done(V(64, 0));
    }
    // ---- exceptions ----
    if (n == "__cxa_allocate_exception") {
        if (a[0].sym && !concretize(s, a[0])) return true;
        uint64_t e = allocObj(s, std::max<uint64_t>(a[0].c, 8), Obj::Heap, "exception", Base::Undef);
        s.exc[e].refs = 1;
        return done(V(64, e));
    }
    if (n == "__cxa_free_exception") { s.exc.erase(a[0].c); return done(V()); }
    if (n == "__cxa_throw") { s.exc[a[0].c].tinfo = a[1].c; unwind(s, a[0].c); return true; }
    if (n == "__cxa_rethrow") {
        if (s.caught.empty()) { failNow(s, "no-terminate:" + where(s), "rethrow without an exception"); return true; }
        uint64_t e = s.caught.back();
        s.exc[e].refs++;
        unwind(s, e);
        return true;
    }
    if (n == "__cxa_begin_catch") { s.caught.push_back(a[0].c); return done(a[0]); }
    if (n == "__cxa_get_exception_ptr") return done(a[0]);
    if (n == "__cxa_end_catch") {
        if (!s.caught.empty()) { uint64_t e = s.caught.back(); s.caught.pop_back(); releaseExc(s, e); }
        return done(V());
    }
    if (n == "_ZSt17current_exceptionv") {
        uint64_t e = s.caught.empty() ? 0 : s.caught.back();
        if (e) s.exc[e].refs++;
        Ref r;
        if (!resolve(s, a[0], V(64, 8), r, "current_exception")) return true;
        writeRange(s, r.oi, r.off, V(64, e));
        return done(V());
    }
    if (n == "_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE") {
        Ref r;
        if (!resolve(s, a[0], V(64, 8), r, "rethrow_exception")) return true;
        V e = readRange(s, r.oi, r.off, 8);
        if (e.sym || !e.c) { failNow(s, "no-terminate:" + where(s), "rethrow of a null exception"); return true; }
        s.exc[e.c].refs++;
        unwind(s, e.c);
        return true;
    }
    if (n == "_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv" || n == "_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv") {
        Ref r;
        if (!resolve(s, a[0], V(64, 8), r, "exception_ptr")) return true;
        V e = readRange(s, r.oi, r.off, 8);
        if (!e.sym && e.c) {
            if (n.find("addref") != string::npos) s.exc[e.c].refs++;
            else { releaseExc(s, e.c); writeRange(s, r.oi, r.off, V(64, 0)); }
        }
        return done(V());
    }
    if (n == "_ZSt18uncaught_exceptionv" || n == "_ZSt19uncaught_exceptionsv") return done(V(32, 0));
    if (n == "_ZSt9terminatev" || n == "abort" || n == "__cxa_pure_virtual" || n == "_ZSt10unexpectedv" || n == "__cxa_bad_cast") {
        failNow(s, "no-terminate:" + where(s), n);
        return true;
    }
    if (n.compare(0, 11, "_ZSt") == 0) {}
    {
        static const std::map<string, const char*> thr = {
            {"_ZSt17__throw_bad_allocv", "_ZTISt9bad_alloc"}, {"_ZSt28__throw_bad_array_new_lengthv", "_ZTISt20bad_array_new_length"}, {"_ZSt16__throw_bad_castv", "_ZTISt8bad_cast"},
            {"_ZSt25__throw_bad_function_callv", "_ZTISt17bad_function_call"}, {"_ZSt19__throw_logic_errorPKc", "_ZTISt11logic_error"},
            {"_ZSt20__throw_length_errorPKc", "_ZTISt12length_error"}, {"_ZSt20__throw_out_of_rangePKc", "_ZTISt12out_of_range"}, {"_ZSt24__throw_out_of_range_fmtPKcz", "_ZTISt12out_of_range"},
            {"_ZSt24__throw_invalid_argumentPKc", "_ZTISt16invalid_argument"}, {"_ZSt20__throw_system_errori", "_ZTISt12system_error"},
            {"_ZSt21__throw_runtime_errorPKc", "_ZTISt13runtime_error"}, {"_ZSt20__throw_domain_errorPKc", "_ZTISt12domain_error"}};
        auto it = thr.find(n);
        if (it != thr.end()) { throwStd(s, it->second, ""); return true; }
        if (f->isDeclaration() && n.find("__throw_bad_weak_ptr") != string::npos) { throwStd(s, "_ZTISt12bad_weak_ptr", ""); return true; }
    }
    if (f->isDeclaration() && isStdExcMember(n)) { ext(); return done(V(64, 0)); }
    if (f->isDeclaration() && NOOPS.count(n)) { ext(); return done(V(64, 0)); }
    // ---- synchronisation ----
    if (n == "pthread_mutex_lock" || n == "pthread_mutex_trylock") {
        ext();
        if (a[0].sym && !concretize(s, a[0])) return true;
        if (beforeHook(s, a[0], HK_LOCK, 8)) return true;
        preempt(s);
        int& d = s.mutexes[a[0].c];
        if (d != 0 && n == "pthread_mutex_trylock") { s.stack.back().pre = false; return done(V(32, 16)); }
        if (!oblige(s, V(1, d != int(s.cur) + 1), "no-self-deadlock:" + where(s), "mutex locked twice by one thread")) return true;
        if (d != 0) { block(s, Thread::Mutex, a[0].c); return true; }
        d = s.cur + 1;
        s.stack.back().pre = false;
        finishCall(s, cb, V(32, 0));
        armAfter(s, a[0], HK_LOCK, 8);
        runAfter(s);
        return true;
    }
    if (n == "pthread_mutex_unlock") {
        ext();
        if (a[0].sym && !concretize(s, a[0])) return true;
        if (beforeHook(s, a[0], HK_UNLOCK, 8)) return true;
        int& d = s.mutexes[a[0].c];
        if (!oblige(s, V(1, d == int(s.cur) + 1), "unlock-of-held-mutex:" + where(s), "unlock of a mutex that is not held")) return true;
        d = 0;
        finishCall(s, cb, V(32, 0));
        armAfter(s, a[0], HK_UNLOCK, 8);
        runAfter(s);
        return true;
    }
    bool timed = n == "pthread_cond_timedwait" || n == "pthread_cond_clockwait";
    if (n == "_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE" || n == "pthread_cond_wait" || timed) {
        ext();
        if (s.threads.empty()) s.threads.emplace_back();
        uint64_t m = a[1].c;
        if (n[0] == '_') {
            Ref r;
            if (!resolve(s, a[1], V(64, 8), r, "unique_lock")) return true;
            m = readRange(s, r.oi, r.off, 8).c;
        }
        Thread& h = s.threads[s.cur];
        if (!h.waiting) {   // first half: release and sleep
            if (!oblige(s, V(1, s.mutexes[m] == int(s.cur) + 1), "wait-with-mutex-held:" + where(s), "waiting without holding the mutex")) return true;
            s.mutexes[m] = 0;
            h.waiting = true; h.notified = false; h.timed = timed; h.cond = a[0].c;
            block(s, Thread::Cond, m);
            return true;
        }
        if (s.mutexes[m] != 0) { block(s, Thread::Mutex, m); return true; }
        s.mutexes[m] = s.cur + 1;
        bool was = h.notified;
        h.waiting = h.notified = h.timed = false;
        return done(V(32, timed && !was ? 110 : 0));
    }
    if (n == "_ZNSt18condition_variable10notify_oneEv" || n == "_ZNSt18condition_variable10notify_allEv" || n == "pthread_cond_signal" || n == "pthread_cond_broadcast") {
        ext();
        if (a[0].sym && !concretize(s, a[0])) return true;
        bool one = n.find("notify_one") != string::npos || n == "pthread_cond_signal";
        vector<unsigned> w;
        for (unsigned i = 0; i < s.threads.size(); ++i) if (s.threads[i].waiting && !s.threads[i].notified && s.threads[i].cond == a[0].c) w.push_back(i);
        if (one && w.size() > 1) {
            for (size_t k = 1; k < w.size(); ++k) {
                auto st = std::make_unique<State>(s);
                FORKS++;
                st->threads[w[k]].notified = true;
                finishCall(*st, cb, V(32, 0));
                WORK.push_back(std::move(st));
            }
            w.resize(1);
        }
        for (auto i : w) s.threads[i].notified = true;
        return done(V(32, 0));
    }
    if (n == "sched_yield" || n == "nanosleep" || n == "clock_nanosleep" || n == "usleep") {
        ext();
        finishCall(s, cb, V(32, 0));
        if (s.threads.size() > 1) schedule(s, true);
        return true;
    }
    if (n == "pthread_self") { ext(); return done(V(64, 0x7001 + s.cur)); }
    if (n == "__cxa_guard_acquire") {
        Ref r;
        if (!resolve(s, a[0], V(64, 1), r, "guard")) return true;
        V g = readRange(s, r.oi, r.off, 1);
        return done(V(32, !(g.isC() && g.c)));
    }
    if (n == "__cxa_guard_release") {
        Ref r;
        if (!resolve(s, a[0], V(64, 1), r, "guard")) return true;
        writeRange(s, r.oi, r.off, V(8, 1));
        return done(V());
    }
    if (n == "__cxa_guard_abort") return done(V());
    if (f->isDeclaration() && n.compare(0, 4, "_ZTH") == 0) return done(V());   // thread_local initialisers of constant-initialised variables
    if (f->isDeclaration()) {
        auto clockValue = [&]() {
            V v = freshV(s, 64, "now");
            Nondet d; d.name = "now"; d.w = 64; d.e = v.e;
            s.nd.push_back(d);
            // instants are within [0, 2^62) ns of the clock's epoch: comparisons and sums of them do not overflow
            addPath(s, ast(cmp(ULT, v, V(64, 1ull << 62))));
            return v;
        };
        if (n == "clock_gettime") {
            ext();
            V t = clockValue();
            Ref r;
            if (!resolve(s, a[1], V(64, 16), r, "clock_gettime")) return true;
            V q = binop(UDiv, t, V(64, 1000000000)), m = binop(URem, t, V(64, 1000000000));
            writeRange(s, r.oi, r.off, q);
            writeRange(s, r.oi, binop(Add, r.off, V(64, 8)), m);
            return done(V(32, 0));
        }
        if (n == "_ZNSt6chrono3_V212steady_clock3nowEv" || n == "_ZNSt6chrono3_V212system_clock3nowEv") {
            ext();
            return done(clockValue());
        }
        if (n == "_ZNSt6thread20hardware_concurrencyEv") { ext(); return done(V(32, 4)); }
        if (n == "__errno_location") {
            ext();
            static uint64_t errnoAddr = 0;
            if (!errnoAddr || !s.mem.count(errnoAddr)) errnoAddr = allocObj(s, 8, Obj::Global, "errno", Base::Zero);
            return done(V(64, errnoAddr));
        }
    }
    return false;
}
