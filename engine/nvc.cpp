// nvc: contract verifier over LLVM IR. See /verif/DESIGN.md ("The verifier").
#include "nvc.hpp"
#include "smt.hpp"

#include <llvm/ADT/DenseMap.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/ADT/SmallString.h>
#include <cmath>
#include <unistd.h>

using namespace llvm;
using std::string;
using std::vector;

Z3_context Z;
static Solver SOL;
static std::unique_ptr<Module> M;
static const DataLayout* DL;
static LLVMContext CTX;

static void z3err(Z3_context c, Z3_error_code e) {
    fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e));
    abort();
}

// ---------------------------------------------------------------------------------------------------------------------
struct LoopCut;
struct FInfo {
    DenseMap<const Value*, unsigned> idx;
    unsigned n = 0;
    string dem;    // demangled name
    string base;   // demangled name without parameter list
    bool repo = false;
    uint64_t execs = 0;
    std::unique_ptr<DominatorTree> dt;
    std::unique_ptr<LoopInfo> li;
};
static std::unordered_map<const Function*, std::unique_ptr<FInfo>> FI;

struct Nondet {
    string name;
    unsigned w = 0;  // 0: array
    X e;             // scalar term or array term
    X len;           // array length BV64
};

struct HavocCell { uint64_t base, off; unsigned bytes; };
struct ActiveLoop {           // a loop being executed from an arbitrary iteration in this frame
    const BasicBlock* header;
};
struct Frame {
    const Function* f = nullptr;
    FInfo* fi         = nullptr;
    vector<V> regs;
    const BasicBlock* bb   = nullptr;
    const BasicBlock* prev = nullptr;
    BasicBlock::const_iterator it;
    vector<uint64_t> allocas;
    int hook = 0;        // 1: before-hook frame, 2: after-hook frame, 3: loop invariant (assume) 4: loop invariant (check)
    bool hooked = false; // before-hook already ran for the instruction at `it`
    bool pre    = false; // the scheduler already considered a preemption before the instruction at `it`
    int trans = 0;       // transparency
    std::map<const BasicBlock*, int> cuts;   // headers cut in this frame (arbitrary iteration in progress)
    std::map<const BasicBlock*, unsigned> iters;
    std::set<const BasicBlock*> symExit;                // loops whose exit test was symbolic in this frame
    std::map<const BasicBlock*, uint64_t> hooksAt;
    const BasicBlock* cutPending = nullptr;
};
struct ExcInfo { uint64_t tinfo = 0, dtor = 0; int refs = 0; int handlers = 0; bool caught = false; };

struct LoopSpec { string fn; uint64_t inv; };

// threads of the program under verification (cooperative, with an optional preemption budget)
struct Thread {
    vector<Frame> stack;                                  // of a thread that is not running
    vector<uint64_t> caught;
    std::map<uint64_t, std::shared_ptr<Obj>> tls;
    enum { Ready, Mutex, Cond, Join, Done } status = Ready;
    uint64_t on = 0;                                      // mutex address or joined thread
    uint64_t cond = 0;
    bool notified = false, timed = false, waiting = false;
};

struct State {
    vector<Thread> threads;
    unsigned cur = 0;
    int preemptions = 0;
    bool blocking = false;                // blocked for good is an error rather than the end of the path
    vector<Frame> stack;
    std::map<uint64_t, std::shared_ptr<Obj>> mem;
    vector<X> path;
    ModelP model;
    vector<Nondet> nd;
    std::map<uint64_t, ExcInfo> exc;
    vector<uint64_t> caught;
    uint64_t unwinding = 0;
    int lpSel = 0;
    std::map<const Function*, uint64_t> repl;
    std::map<string, uint64_t> replName;
    uint64_t hookBefore = 0, hookAfter = 0;
    vector<std::pair<uint64_t, uint64_t>> hookRanges;
    int hooksOff = 0;
    uint64_t hooksRun = 0;
    vector<LoopSpec> loops;
    uint64_t next = 0x100000;
    uint64_t fresh = 0;
    int64_t liveHeap = 0;
    uint64_t instrs = 0;
    std::map<uint64_t, int> mutexes;      // addr -> 0: free, owner + 1
    vector<string> trace;
    int afterPending = 0;
    uint64_t afterAddr = 0, afterKind = 0, afterSize = 0, afterOld = 0;
    bool bounded = false;
    // loop analysis
    int sub = 0;                          // nesting of loop analysis
};

struct ObRec {
    uint64_t constant = 0, smt = 0, failed = 0, unknown = 0;
    double time = 0;
};
struct Failure {
    string name, kind, where;
    vector<Nondet> nd;
    ModelP model;
    vector<string> trace;
    vector<string> stack;
};
static std::map<string, ObRec> OBS;
static vector<Failure> FAILS;
static std::map<string, uint64_t> COVERS;
static std::set<string> COVERS_DECL;
static std::map<string, uint64_t> EXTERNS;     // modelled externals used
static std::set<string> CONTRACTS_USED;
static std::set<string> NOTES;
static std::map<string, string> UNSUPPORTED;
static uint64_t PATHS = 0, INSTRS = 0, FORKS = 0, BOUND_HITS = 0;
static std::map<string, uint64_t> CUTLOOPS;
static uint64_t MAXLOOP = 2000;
static uint64_t BOUND   = 0;       // vf_bound loop bound (0: none)
static double DEADLINE = 0;
static bool TIMEDOUT = false;
static uint64_t MAXFAIL = 4;
static bool VERBOSE = false;

static vector<std::unique_ptr<State>> WORK;

// globals
static DenseMap<const GlobalValue*, uint64_t> GADDR;
static std::unordered_map<uint64_t, const Function*> FADDR;
static std::map<uint64_t, string> TINFO_NAME;
static std::map<string, uint64_t> TINFO_BY_NAME;
static std::map<uint64_t, int> TYPEID;
static std::map<uint64_t, const GlobalVariable*> GVAT;

// sub-mode (loop analysis)
struct SubMode {
    const BasicBlock* header = nullptr;
    const Loop* loop = nullptr;
    size_t depth = 0;                  // frame depth of the loop function
    uint64_t objLimit = 0;             // objects created after this address are local to the iteration
    std::set<std::tuple<uint64_t, uint64_t, unsigned>> writes;  // cells
    std::set<uint64_t> wholeObj;
    std::function<void(State&)> onBackedge;
    size_t workBase = 0;
};
static vector<SubMode*> SUB;

[[noreturn]] static void die(const string& s) {
    fprintf(stderr, "nvc: %s\n", s.c_str());
    exit(3);
}

static string baseName(const string& dem) {
    // strip return type / parameter list of a demangled name
    int depth = 0;
    size_t end = dem.size();
    // find the '(' starting the parameter list: first '(' at template depth 0 that is not "operator()" / "(anonymous"
    for (size_t i = 0; i < dem.size(); ++i) {
        char ch = dem[i];
        if (ch == '<' && !(i >= 8 && dem.compare(i - 8, 8, "operator") == 0) && !(i >= 9 && dem.compare(i - 9, 9, "operator<") == 0)) depth++;
        else if (ch == '>' && !(i >= 1 && dem[i - 1] == '-') && depth > 0 ) depth--;
        else if (ch == '(' && depth == 0) {
            if (dem.compare(i, 11, "(anonymous ") == 0) { i = dem.find(')', i); continue; }
            if (i >= 8 && dem.compare(i - 8, 8, "operator") == 0 && i + 1 < dem.size() && dem[i + 1] == ')') { ++i; continue; }
            end = i;
            break;
        }
    }
    return dem.substr(0, end);
}

static FInfo* finfo(const Function* f) {
    auto& p = FI[f];
    if (!p) {
        p = std::make_unique<FInfo>();
        for (auto& a : f->args()) p->idx[&a] = p->n++;
        for (auto& bb : *f)
            for (auto& i : bb)
                if (!i.getType()->isVoidTy()) p->idx[&i] = p->n++;
        p->dem  = demangle(f->getName().str());
        p->base = baseName(p->dem);
        p->repo = p->dem.find("NUClear::") != string::npos && p->dem.compare(0, 5, "std::") != 0 && p->dem.find(" std::") == string::npos;
    }
    return p.get();
}
static void ensureLoops(FInfo* fi, const Function* f) {
    if (!fi->li) {
        fi->dt = std::make_unique<DominatorTree>(const_cast<Function&>(*f));
        fi->li = std::make_unique<LoopInfo>(*fi->dt);
    }
}

// ---------------------------------------------------------------------------------------------------------------------
// fresh symbols
static X freshBV(State& s, unsigned w, const string& name) {
    string n = name + "#" + std::to_string(s.fresh++);
    Z3_sort so = w == 1 ? Z3_mk_bool_sort(Z) : bvs(w);
    return X(Z3_mk_const(Z, Z3_mk_string_symbol(Z, n.c_str()), so));
}
static X freshArr(State& s, const string& name) {
    string n = name + "#" + std::to_string(s.fresh++);
    return X(Z3_mk_const(Z, Z3_mk_string_symbol(Z, n.c_str()), Z3_mk_array_sort(Z, bvs(64), bvs(8))));
}
static V freshV(State& s, unsigned w, const string& name) {
    V v;
    v.w = w; v.sym = true; v.e = freshBV(s, w, name);
    return v;
}
static V freshTyped(State& s, Type* t, const string& name) {
    if (auto* st = dyn_cast<StructType>(t)) {
        V v; v.agg = std::make_shared<vector<V>>();
        for (auto* e : st->elements()) v.agg->push_back(freshTyped(s, e, name));
        return v;
    }
    if (auto* at = dyn_cast<ArrayType>(t)) {
        V v; v.agg = std::make_shared<vector<V>>();
        for (unsigned i = 0; i < at->getNumElements(); ++i) v.agg->push_back(freshTyped(s, at->getElementType(), name));
        return v;
    }
    if (auto* vt = dyn_cast<FixedVectorType>(t)) {
        V v; v.agg = std::make_shared<vector<V>>();
        for (unsigned i = 0; i < vt->getNumElements(); ++i) v.agg->push_back(freshTyped(s, vt->getElementType(), name));
        return v;
    }
    return freshV(s, DL->getTypeSizeInBits(t), name);
}

// ---------------------------------------------------------------------------------------------------------------------
// solver helpers on states
static bool ensureModel(State& s) {
    if (s.model) return true;
    ModelP m;
    Res r = SOL.check(s.path, mkTrue(), &m, true);
    if (r == UNSAT) return false;
    s.model = m;  // may be null on unknown
    return true;
}
static bool modelSays(State& s, const X& c, bool& out) {
    if (!s.model) return false;
    X r = s.model->eval(c);
    if (!r) return false;
    if (isTrue(r)) { out = true; return true; }
    if (isFalse(r)) { out = false; return true; }
    return false;
}
static void addPath(State& s, const X& c, ModelP m = nullptr) {
    if (isTrue(c)) return;
    s.path.push_back(c);
    if (m) { s.model = m; return; }
    bool b;
    if (modelSays(s, c, b) && b) return;
    s.model = nullptr;
}
// is path /\ c feasible?
static bool feasible(State& s, const X& c, ModelP* m = nullptr) {
    if (isFalse(c)) return false;
    if (isTrue(c)) return true;
    ensureModel(s);
    bool b;
    if (modelSays(s, c, b) && b) { if (m) *m = s.model; return true; }
    return SOL.check(s.path, c, m) != UNSAT;
}
static bool mustBe(State& s, const X& c) {
    if (isTrue(c)) return true;
    if (isFalse(c)) return false;
    return !feasible(s, mkNot(c));
}

static string where(State& s) {
    for (auto i = s.stack.rbegin(); i != s.stack.rend(); ++i)
        if (i->fi->repo) return i->fi->base;
    return s.stack.empty() ? "?" : s.stack.back().fi->base;
}
static vector<string> stackOf(State& s) {
    vector<string> r;
    for (auto i = s.stack.rbegin(); i != s.stack.rend(); ++i) r.push_back(i->fi->base);
    return r;
}

static void endPath(State& s) { s.stack.clear(); }

static void fail(State& s, const string& name, const string& kind, ModelP m) {
    if (!SUB.empty()) return;
    auto& o = OBS[name];
    o.failed++;
    if (o.failed > MAXFAIL) return;
    Failure f;
    f.name = name; f.kind = kind; f.where = where(s); f.nd = s.nd; f.model = m; f.trace = s.trace; f.stack = stackOf(s);
    FAILS.push_back(f);
    if (VERBOSE) fprintf(stderr, "FAIL %s (%s) in %s\n", name.c_str(), kind.c_str(), f.where.c_str());
}
static void failNow(State& s, const string& name, const string& kind) {
    if (!ensureModel(s)) { endPath(s); return; }
    fail(s, name, kind, s.model);
    endPath(s);
}
static void unsupported(State& s, const string& what) {
    if (!SUB.empty()) { UNSUPPORTED.emplace("loop:" + what, where(s)); endPath(s); return; }
    string st;
    int k = 0;
    for (auto& n : stackOf(s)) { if (k++ < 8) st += " < " + n.substr(0, 100); }
    UNSUPPORTED.emplace(what, where(s) + st);
    if (VERBOSE) fprintf(stderr, "UNSUPPORTED %s in %s\n", what.c_str(), st.c_str());
    endPath(s);
}

// An obligation: cond must hold on this path. Afterwards cond is assumed. Returns false when the path is finished.
static bool oblige(State& s, const V& cond, const string& name, const string& kind) {
    bool sub = !SUB.empty();
    if (!cond.sym) {
        if (cond.c) { if (!sub) OBS[name].constant++; return true; }
        failNow(s, name, kind);
        return false;
    }
    double t0 = now_s();
    ModelP m;
    X nc = mkNot(cond.e);
    Res r;
    ensureModel(s);
    bool b;
    if (modelSays(s, nc, b) && b) { r = SAT; m = s.model; }
    else r = SOL.check(s.path, nc, &m, true);
    if (!sub) {
        auto& o = OBS[name];
        o.time += now_s() - t0;
        if (r == UNSAT) o.smt++;
        else if (r == SAT) fail(s, name, kind, m);
        else { o.unknown++; }
    }
    if (r == UNSAT) return true;
    if (!feasible(s, cond.e)) { endPath(s); return false; }
    addPath(s, cond.e);
    return true;
}

static State& fork(State& s, const X& c, ModelP m) {
    FORKS++;
    auto n = std::make_unique<State>(s);
    n->path.push_back(c);
    n->model = m;
    WORK.push_back(std::move(n));
    return *WORK.back();
}

// Decide a condition, forking when both outcomes are possible. The forked state re-executes the same instruction with the
// negated condition on its path. Returns the outcome for the current state.
static bool decide(State& s, const V& c) {
    if (!c.sym) return c.c;
    if (!ensureModel(s)) { endPath(s); return false; }
    X nc = mkNot(c.e);
    bool b;
    if (modelSays(s, c.e, b)) {
        ModelP other;
        const X& oc = b ? nc : c.e;
        if (SOL.check(s.path, oc, &other) != UNSAT) fork(s, oc, other);
        else return b;
        s.path.push_back(b ? c.e : nc);
        return b;
    }
    ModelP mt, mf;
    bool t = SOL.check(s.path, c.e, &mt) != UNSAT, f = SOL.check(s.path, nc, &mf) != UNSAT;
    if (t && f) { fork(s, nc, mf); s.path.push_back(c.e); s.model = mt; return true; }
    if (t) return true;
    if (f) return false;
    endPath(s);
    return false;
}

static bool concretize(State& s, V& v) {
    if (!v.sym) return true;
    if (!ensureModel(s)) { endPath(s); return false; }
    if (!s.model) {
        ModelP m;
        if (SOL.check(s.path, mkTrue(), &m, true) != SAT) { unsupported(s, "concretize: solver unknown"); return false; }
        s.model = m;
    }
    X r = s.model->eval(v.e);
    uint64_t c = 0;
    if (v.w == 1) c = isTrue(r);
    else if (!isNumeral(r, c)) { unsupported(s, "concretize wide"); return false; }
    V k(v.w, c);
    X eq = mkEq(v.e, ast(k));
    X ne = mkNot(eq);
    ModelP other;
    Res rr = SOL.check(s.path, ne, &other);
    if (rr != UNSAT) {
        fork(s, ne, other);
        s.path.push_back(eq);
    }
    v = k;
    return true;
}

// ---------------------------------------------------------------------------------------------------------------------
// memory
static Obj& wobj(State& s, std::map<uint64_t, std::shared_ptr<Obj>>::iterator it) {
    if (it->second.use_count() > 1) it->second = std::make_shared<Obj>(*it->second);
    return *it->second;
}
static std::map<uint64_t, std::shared_ptr<Obj>>::iterator findObj(State& s, uint64_t addr) {
    auto it = s.mem.upper_bound(addr);
    if (it == s.mem.begin()) return s.mem.end();
    --it;
    if (addr - it->first <= it->second->size) return it;
    return s.mem.end();
}
static uint64_t allocObj(State& s, uint64_t size, Obj::K kind, const string& name, Base base, uint64_t align = 16) {
    if (align < 16) align = 16;
    uint64_t a = (s.next + align - 1) / align * align;
    s.next = a + size + 64;
    auto o = std::make_shared<Obj>();
    o->base = a; o->size = size; o->kind = kind; o->name = name; o->c.base = base;
    s.mem[a] = o;
    return a;
}

static V extractByte(const V& v, unsigned i) {
    if (v.w == 1) return i == 0 ? zext(v, 8) : V(8, 0);
    return extractV(v, i * 8 + 7, i * 8);
}

// remove/split cells overlapping [off, off+n)
static void clearCells(Content& c, uint64_t off, uint64_t n) {
    if (c.cells.empty() || n == 0) return;
    auto it = c.cells.lower_bound(off);
    while (it != c.cells.begin()) {
        auto p = std::prev(it);
        if (p->first + p->second.w / 8 > off) it = p; else break;
    }
    vector<std::pair<uint64_t, V>> keep;
    while (it != c.cells.end() && it->first < off + n) {
        uint64_t b = it->first, e = b + it->second.w / 8;
        if (b < off || e > off + n)
            for (uint64_t k = b; k < e; ++k)
                if (k < off || k >= off + n) keep.emplace_back(k, extractByte(it->second, k - b));
        it = c.cells.erase(it);
    }
    for (auto& k : keep) c.cells[k.first] = k.second;
}
static void putCell(Content& c, uint64_t off, const V& v) {
    clearCells(c, off, v.w / 8);
    c.cells[off] = v;
}

static V readLayered(State& s, Content& c, const X& off, int top, Obj* owner);

// byte at symbolic or concrete offset below the cells
static V readBelow(State& s, Content& c, const X& off, Obj* owner) { return readLayered(s, c, off, (int) c.layers.size() - 1, owner); }

static V readLayered(State& s, Content& c, const X& off, int top, Obj* owner) {
    for (int i = top; i >= 0; --i) {
        auto& L = c.layers[i];
        X rel = simp(X(Z3_mk_bvsub(Z, off.a, L.off.a)));
        uint64_t n = L.kind == Layer::SymStore ? L.val.w / 8 : 0;
        X len = L.kind == Layer::SymStore ? mkc(64, n) : L.len;
        X in = simp(X(Z3_mk_bvult(Z, rel.a, len.a)));
        if (isFalse(in)) continue;
        bool must = isTrue(in);
        if (!must) {
            if (!feasible(s, in)) continue;
            if (mustBe(s, in)) must = true;
        }
        V here;
        if (L.kind == Layer::SymStore) {
            if (n == 1) here = L.val;
            else {
                uint64_t rc;
                if (isNumeral(rel, rc) && rc < n) here = extractByte(L.val, rc);
                else {
                    V sh = binop(Mul, trunc(sval(64, rel), std::min(64u, L.val.w)), V(std::min(64u, L.val.w), 8));
                    if (L.val.w > 64) sh = zext(sh, L.val.w);
                    else if (L.val.w < 64 && L.val.w != sh.w) sh = trunc(sh, L.val.w);
                    here = trunc(binop(LShr, L.val, sh), 8);
                }
            }
        }
        else if (L.kind == Layer::Set) here = L.val;
        else {
            X so = simp(X(Z3_mk_bvadd(Z, rel.a, L.srcoff.a)));
            Content& src = *const_cast<Content*>(L.src.get());
            // source snapshots never contain cells
            here = readLayered(s, src, so, (int) src.layers.size() - 1, nullptr);
        }
        if (must) return here;
        V below = readLayered(s, c, off, i - 1, owner);
        return vite(val(1, in), here, below);
    }
    switch (c.base) {
        case Base::Zero: return V(8, 0);
        case Base::Arr: return sval(8, X(Z3_mk_select(Z, c.arr.a, off.a)));
        case Base::Undef: {
            // give the undefined content a name
            c.base = Base::Arr;
            c.arr  = freshArr(s, "undef");
            return sval(8, X(Z3_mk_select(Z, c.arr.a, off.a)));
        }
    }
    return V(8, 0);
}
static void flushCells(Content& c) {
    for (auto& kv : c.cells) {
        Layer L;
        L.kind = Layer::SymStore;
        L.off  = mkc(64, kv.first);
        L.val  = kv.second;
        c.layers.push_back(L);
    }
    c.cells.clear();
}

static V readRange(State& s, std::map<uint64_t, std::shared_ptr<Obj>>::iterator oi, const V& off, unsigned bytes) {
    unsigned w = bytes * 8;
    if (!off.sym) {
        const Content& cc = oi->second->c;
        auto it = cc.cells.find(off.c);
        if (it != cc.cells.end() && it->second.w == w) return it->second;
        // fast path: nothing overlapping and undefined base -> materialise
        auto lb = cc.cells.lower_bound(off.c);
        bool overlap = lb != cc.cells.end() && lb->first < off.c + bytes;
        if (!overlap && lb != cc.cells.begin()) {
            auto p = std::prev(lb);
            if (p->first + p->second.w / 8 > off.c) overlap = true;
        }
        if (!overlap && cc.layers.empty()) {
            if (cc.base == Base::Zero) return V(w, 0).w <= 64 ? V(w, 0) : val(w, X(Z3_mk_numeral(Z, "0", bvs(w))));
            if (cc.base == Base::Undef) {
                V v = freshV(s, w, "undef");
                wobj(s, oi).c.cells[off.c] = v;
                return v;
            }
        }
        // cell contained in a bigger cell?
        if (lb == cc.cells.end() || lb->first != off.c || true) {
            auto p = cc.cells.upper_bound(off.c);
            if (p != cc.cells.begin()) {
                --p;
                uint64_t b = p->first, n = p->second.w / 8;
                if (b <= off.c && off.c + bytes <= b + n && n >= bytes) {
                    unsigned lo = (off.c - b) * 8;
                    return extractV(p->second, lo + w - 1, lo);
                }
            }
        }
        V r;
        for (unsigned i = 0; i < bytes; ++i) {
            uint64_t o = off.c + i;
            V bt;
            auto& cells = oi->second->c.cells;
            auto p = cells.upper_bound(o);
            bool got = false;
            if (p != cells.begin()) {
                --p;
                if (o < p->first + p->second.w / 8) { bt = extractByte(p->second, o - p->first); got = true; }
            }
            if (!got) {
                if (oi->second->c.layers.empty() && oi->second->c.base == Base::Undef) {
                    bt = freshV(s, 8, "undef");
                    wobj(s, oi).c.cells[o] = bt;
                }
                else {
                    Obj& ob = *oi->second;
                    if (ob.c.base == Base::Undef) { Obj& w2 = wobj(s, oi); w2.c.base = Base::Arr; w2.c.arr = freshArr(s, "undef"); }
                    bt = readBelow(s, oi->second->c, mkc(64, o), nullptr);
                }
            }
            r = i == 0 ? bt : concatV(bt, r);
        }
        return r;
    }
    // symbolic offset
    if (oi->second->c.base == Base::Undef) { Obj& w2 = wobj(s, oi); w2.c.base = Base::Arr; w2.c.arr = freshArr(s, "undef"); }
    Obj& o = *oi->second;
    // whole-value selection when every overlapping layer/cell is aligned to this access
    V r;
    for (unsigned i = 0; i < bytes; ++i) {
        X bo = simp(X(Z3_mk_bvadd(Z, ast(off).a, mkc(64, i).a)));
        V bt = readBelow(s, o.c, bo, nullptr);
        for (auto& kv : o.c.cells) {
            unsigned n = kv.second.w / 8;
            for (unsigned k = 0; k < n; ++k) {
                X eq = simp(X(Z3_mk_eq(Z, bo.a, mkc(64, kv.first + k).a)));
                if (isFalse(eq)) continue;
                bt = vite(val(1, eq), extractByte(kv.second, k), bt);
            }
        }
        r = i == 0 ? bt : concatV(bt, r);
    }
    return r;
}

static void recordWrite(State& s, Obj& o, const V& off, unsigned bytes) {
    for (auto* sm : SUB) {
        if (o.base >= sm->objLimit) continue;
        if (off.sym) sm->wholeObj.insert(o.base);
        else sm->writes.insert({o.base, off.c, bytes});
    }
}
static void writeRange(State& s, std::map<uint64_t, std::shared_ptr<Obj>>::iterator oi, const V& off, const V& v0) {
    Obj& o = wobj(s, oi);
    V v = v0.w == 1 ? zext(v0, 8) : v0;
    if (v.w % 8) v = zext(v, (v.w + 7) / 8 * 8);
    if (!SUB.empty()) recordWrite(s, o, off, v.w / 8);
    if (!off.sym) { putCell(o.c, off.c, v); return; }
    flushCells(o.c);
    Layer L;
    L.kind = Layer::SymStore;
    L.off  = off.e;
    L.val  = v;
    o.c.layers.push_back(L);
}

struct Ref {
    std::map<uint64_t, std::shared_ptr<Obj>>::iterator oi;
    V off;
};
// Resolve an address for an access of n bytes (n may be symbolic). Emits the memory-safety obligation.
// Returns false when the path ended (failure).
static bool resolve(State& s, V addr, const V& n, Ref& out, const char* what) {
    string name = string("memory-safe:") + where(s);
    if (!addr.sym) {
        auto oi = findObj(s, addr.c);
        if (oi == s.mem.end() || oi->second->freed || oi->second->kind == Obj::Code) {
            if (!n.sym && n.c == 0) { out.oi = s.mem.begin(); out.off = V(64, 0); return true; }
            string k = oi == s.mem.end() ? (addr.c < 4096 ? "null dereference" : "wild pointer") : oi->second->freed ? "use after free of " + oi->second->name : "code access";
            failNow(s, name, string(what) + ": " + k);
            return false;
        }
        V off(64, addr.c - oi->first);
        V okc;
        if (oi->second->symsize) {
            V sz = val(64, oi->second->symsize);
            // off + n <= size without wrapping (sizes are far below 2^40)
            V lim = binop(Add, off, n);
            okc = val(1, simp(X(Z3_mk_bvule(Z, ast(lim).a, ast(sz).a))));
            V okn = cmp(ULE, n, sz);
            okc = boolV(mkAnd(ast(okc), ast(okn)));
        }
        else {
            if (!n.sym && off.c + n.c <= oi->second->size && n.c <= oi->second->size) { OBS[name].constant += SUB.empty(); out.oi = oi; out.off = off; return true; }
            V room(64, oi->second->size - off.c);
            okc = cmp(ULE, n, room);
        }
        if (!oblige(s, okc, name, string(what) + " out of bounds of " + oi->second->name)) return false;
        out.oi = oi; out.off = off;
        return true;
    }
    // symbolic address: use the model to guess an object
    if (!ensureModel(s)) { endPath(s); return false; }
    if (!s.model) { unsupported(s, "resolve: no model"); return false; }
    X r = s.model->eval(addr.e);
    uint64_t a;
    if (!isNumeral(r, a)) { unsupported(s, "resolve: eval"); return false; }
    auto oi = findObj(s, a);
    if (oi == s.mem.end()) {
        // try to keep going on valid resolutions: the address can be out of every object
        failNow(s, name, string(what) + ": symbolic pointer outside every object");
        return false;
    }
    V off = binop(Sub, addr, V(64, oi->first));
    V okc;
    if (oi->second->symsize) {
        V sz = val(64, oi->second->symsize);
        V lim = binop(Add, off, n);
        okc = boolV(mkAnd(mkAnd(ast(cmp(ULE, off, sz)), ast(cmp(ULE, n, sz))), ast(cmp(ULE, lim, sz))));
    }
    else {
        V lim = binop(Add, off, n);
        V sz(64, oi->second->size);
        okc = boolV(mkAnd(mkAnd(ast(cmp(ULE, off, sz)), ast(cmp(ULE, n, sz))), ast(cmp(ULE, lim, sz))));
    }
    // is the address within this object's reserved neighbourhood on every path? if so OOB is a failure of this object,
    // otherwise fork over objects
    V inObj = cmp(ULE, off, V(64, oi->second->size));
    if (!mustBe(s, ast(inObj))) {
        // other objects possible: fork
        if (!decide(s, inObj)) {
            if (s.stack.empty()) return false;
            // re-run with the negation: loop again
            return resolve(s, addr, n, out, what);
        }
    }
    if (oi->second->freed) { failNow(s, name, string(what) + ": use after free of " + oi->second->name); return false; }
    if (!oblige(s, okc, name, string(what) + " out of bounds of " + oi->second->name)) return false;
    // small objects without symbolic content: enumerate the offset
    if (off.sym && !oi->second->symsize && oi->second->size <= 2048 && !(oi->second->c.base == Base::Arr && oi->second->c.cells.empty())) {
        if (!concretize(s, off)) return false;
    }
    out.oi = oi; out.off = off;
    return true;
}

static V loadV(State& s, Ref& r, Type* t) {
    if (auto* st = dyn_cast<StructType>(t)) {
        V v; v.agg = std::make_shared<vector<V>>();
        auto* sl = DL->getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); ++i) {
            Ref q = r; q.off = binop(Add, r.off, V(64, sl->getElementOffset(i)));
            v.agg->push_back(loadV(s, q, st->getElementType(i)));
        }
        return v;
    }
    if (isa<ArrayType>(t) || isa<FixedVectorType>(t)) {
        V v; v.agg = std::make_shared<vector<V>>();
        Type* et = isa<ArrayType>(t) ? cast<ArrayType>(t)->getElementType() : cast<FixedVectorType>(t)->getElementType();
        unsigned n = isa<ArrayType>(t) ? cast<ArrayType>(t)->getNumElements() : cast<FixedVectorType>(t)->getNumElements();
        for (unsigned i = 0; i < n; ++i) {
            Ref q = r; q.off = binop(Add, r.off, V(64, i * DL->getTypeAllocSize(et)));
            v.agg->push_back(loadV(s, q, et));
        }
        return v;
    }
    unsigned bits = DL->getTypeSizeInBits(t), bytes = DL->getTypeStoreSize(t);
    V v = readRange(s, r.oi, r.off, bytes);
    if (bits != v.w) v = trunc(v, bits);
    return v;
}
static void storeV(State& s, Ref& r, Type* t, const V& v) {
    if (auto* st = dyn_cast<StructType>(t)) {
        auto* sl = DL->getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); ++i) {
            Ref q = r; q.off = binop(Add, r.off, V(64, sl->getElementOffset(i)));
            storeV(s, q, st->getElementType(i), (*v.agg)[i]);
        }
        return;
    }
    if (isa<ArrayType>(t) || isa<FixedVectorType>(t)) {
        Type* et = isa<ArrayType>(t) ? cast<ArrayType>(t)->getElementType() : cast<FixedVectorType>(t)->getElementType();
        unsigned n = isa<ArrayType>(t) ? cast<ArrayType>(t)->getNumElements() : cast<FixedVectorType>(t)->getNumElements();
        for (unsigned i = 0; i < n; ++i) {
            Ref q = r; q.off = binop(Add, r.off, V(64, i * DL->getTypeAllocSize(et)));
            storeV(s, q, et, (*v.agg)[i]);
        }
        return;
    }
    writeRange(s, r.oi, r.off, v);
}

// ---------------------------------------------------------------------------------------------------------------------
// constants
static uint64_t globalAddr(const GlobalValue* g) {
    auto it = GADDR.find(g);
    if (it != GADDR.end()) return it->second;
    die("no address for global " + g->getName().str());
}
static V evalConst(State* s, const Constant* c);
static V undefOf(State* s, Type* t) {
    if (s) return freshTyped(*s, t, "undef");
    if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) {
        V v; v.agg = std::make_shared<vector<V>>();
        unsigned n = t->isStructTy() ? t->getStructNumElements() : isa<ArrayType>(t) ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
        for (unsigned i = 0; i < n; ++i) v.agg->push_back(undefOf(s, t->isStructTy() ? t->getStructElementType(i) : isa<ArrayType>(t) ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType()));
        return v;
    }
    return V(DL->getTypeSizeInBits(t), 0);
}
static V zeroOf(Type* t) {
    if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) {
        V v; v.agg = std::make_shared<vector<V>>();
        unsigned n = t->isStructTy() ? t->getStructNumElements() : isa<ArrayType>(t) ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
        for (unsigned i = 0; i < n; ++i) v.agg->push_back(zeroOf(t->isStructTy() ? t->getStructElementType(i) : isa<ArrayType>(t) ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType()));
        return v;
    }
    unsigned w = DL->getTypeSizeInBits(t);
    if (w > 64) return val(w, X(Z3_mk_numeral(Z, "0", bvs(w))));
    return V(w, 0);
}
static V gepOffset(State* s, const GEPOperator* g, const V& base, std::function<V(const Value*)> get) {
    V addr = base;
    for (auto gti = gep_type_begin(g), e = gep_type_end(g); gti != e; ++gti) {
        const Value* idx = gti.getOperand();
        if (StructType* st = gti.getStructTypeOrNull()) {
            unsigned f = cast<ConstantInt>(idx)->getZExtValue();
            addr = binop(Add, addr, V(64, DL->getStructLayout(st)->getElementOffset(f)));
        }
        else {
            uint64_t sz = DL->getTypeAllocSize(gti.getIndexedType());
            V i = get(idx);
            i = i.w < 64 ? sext(i, 64) : trunc(i, 64);
            addr = binop(Add, addr, binop(Mul, i, V(64, sz)));
        }
    }
    return addr;
}
static V evalConst(State* s, const Constant* c) {
    Type* t = c->getType();
    if (auto* ci = dyn_cast<ConstantInt>(c)) {
        if (ci->getBitWidth() <= 64) return V(ci->getBitWidth(), ci->getZExtValue());
        SmallString<64> str;
        ci->getValue().toStringUnsigned(str);
        return val(ci->getBitWidth(), X(Z3_mk_numeral(Z, string(str.str()).c_str(), bvs(ci->getBitWidth()))));
    }
    if (auto* cf = dyn_cast<ConstantFP>(c)) {
        APInt a = cf->getValueAPF().bitcastToAPInt();
        if (a.getBitWidth() <= 64) return V(a.getBitWidth(), a.getZExtValue());
        SmallString<64> str;
        a.toStringUnsigned(str);
        return val(a.getBitWidth(), X(Z3_mk_numeral(Z, string(str.str()).c_str(), bvs(a.getBitWidth()))));
    }
    if (isa<ConstantPointerNull>(c)) return V(64, 0);
    if (isa<UndefValue>(c)) return undefOf(s, t);
    if (isa<ConstantAggregateZero>(c)) return zeroOf(t);
    if (auto* gv = dyn_cast<GlobalValue>(c)) {
        if (auto* al = dyn_cast<GlobalAlias>(gv)) return evalConst(s, al->getAliasee());
        return V(64, globalAddr(gv));
    }
    if (auto* ca = dyn_cast<ConstantAggregate>(c)) {
        V v; v.agg = std::make_shared<vector<V>>();
        for (auto& op : ca->operands()) v.agg->push_back(evalConst(s, cast<Constant>(op)));
        return v;
    }
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
        V v; v.agg = std::make_shared<vector<V>>();
        for (unsigned i = 0; i < cd->getNumElements(); ++i) v.agg->push_back(evalConst(s, cd->getElementAsConstant(i)));
        return v;
    }
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
        auto get = [&](const Value* v) { return evalConst(s, cast<Constant>(v)); };
        switch (ce->getOpcode()) {
            case Instruction::GetElementPtr: return gepOffset(s, cast<GEPOperator>(ce), get(ce->getOperand(0)), get);
            case Instruction::BitCast: case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::AddrSpaceCast: {
                V v = get(ce->getOperand(0));
                unsigned w = DL->getTypeSizeInBits(t);
                return v.w == w ? v : v.w > w ? trunc(v, w) : zext(v, w);
            }
            case Instruction::Add: return binop(Add, get(ce->getOperand(0)), get(ce->getOperand(1)));
            case Instruction::Sub: return binop(Sub, get(ce->getOperand(0)), get(ce->getOperand(1)));
            case Instruction::Trunc: return trunc(get(ce->getOperand(0)), DL->getTypeSizeInBits(t));
            case Instruction::ICmp: {
                auto p = cast<ConstantExpr>(ce)->getPredicate();
                if (p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_NE) return cmp(p == CmpInst::ICMP_EQ ? EQ : NE, get(ce->getOperand(0)), get(ce->getOperand(1)));
            }
            default: break;
        }
        die(string("constant expression ") + ce->getOpcodeName());
    }
    if (isa<BlockAddress>(c)) return V(64, 0);
    die("constant kind");
}

static void initMem(Obj& o, uint64_t off, const Constant* c) {
    Type* t = c->getType();
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c) || isa<ConstantPointerNull>(c)) return;  // base is Zero
    if (auto* st = dyn_cast<StructType>(t)) {
        auto* sl = DL->getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); ++i) initMem(o, off + sl->getElementOffset(i), c->getAggregateElement(i));
        return;
    }
    if (t->isArrayTy() || t->isVectorTy()) {
        Type* et = t->isArrayTy() ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType();
        unsigned n = t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
        for (unsigned i = 0; i < n; ++i) initMem(o, off + i * DL->getTypeAllocSize(et), c->getAggregateElement(i));
        return;
    }
    V v = evalConst(nullptr, c);
    if (v.w == 1) v = zext(v, 8);
    if (v.w % 8) v = zext(v, (v.w + 7) / 8 * 8);
    o.c.cells[off] = v;
}

static std::map<uint64_t, std::shared_ptr<Obj>> TLS0;   // thread locals as a new thread sees them
static void initGlobals(State& s) {
    // functions
    for (auto& f : *M) {
        uint64_t a = s.next;
        s.next += 16;
        GADDR[&f] = a;
        FADDR[a]  = &f;
    }
    {
        auto o = std::make_shared<Obj>();
        o->base = 0x100000; o->size = s.next - 0x100000; o->kind = Obj::Code; o->name = "code";
        s.mem[o->base] = o;
        s.next = (s.next + 0x10000) & ~0xffffull;
    }
    for (auto& g : M->globals()) {
        uint64_t sz = g.getValueType()->isSized() ? DL->getTypeAllocSize(g.getValueType()).getFixedValue() : 64;
        if (g.isDeclaration()) sz = std::max<uint64_t>(sz, 256);
        uint64_t a = allocObj(s, sz, Obj::Global, g.getName().str(), g.isDeclaration() ? Base::Undef : Base::Zero, g.getAlign() ? g.getAlign()->value() : 16);
        GADDR[&g] = a;
        GVAT[a]   = &g;
        if (g.getName().starts_with("_ZTI")) { TINFO_NAME[a] = g.getName().str(); TINFO_BY_NAME[g.getName().str()] = a; }
    }
    for (auto& g : M->globals()) {
        if (g.isDeclaration()) continue;
        Obj& o = *s.mem[GADDR[&g]];
        o.isconst = g.isConstant();
        initMem(o, 0, g.getInitializer());
        if (g.isThreadLocal()) TLS0[o.base] = std::make_shared<Obj>(o);
    }
}

// ---------------------------------------------------------------------------------------------------------------------
static V& reg(Frame& f, const Value* v) { return f.regs[f.fi->idx.find(v)->second]; }
static V get(State& s, const Value* v) {
    if (auto* c = dyn_cast<Constant>(v)) return evalConst(&s, c);
    if (isa<MetadataAsValue>(v) || isa<BasicBlock>(v) || isa<InlineAsm>(v)) return V();
    Frame& f = s.stack.back();
    auto it = f.fi->idx.find(v);
    if (it == f.fi->idx.end()) die("no register");
    return f.regs[it->second];
}
static void set(State& s, const Value* v, const V& x) {
    if (v->getType()->isVoidTy()) return;
    reg(s.stack.back(), v) = x;
}

static void freeAllocas(State& s, Frame& f) {
    for (auto a : f.allocas) s.mem.erase(a);
    f.allocas.clear();
}

static void doPhis(State& s, const BasicBlock* from, const BasicBlock* to) {
    Frame& f = s.stack.back();
    vector<std::pair<const PHINode*, V>> vals;
    for (auto& phi : to->phis()) vals.emplace_back(&phi, get(s, phi.getIncomingValueForBlock(from)));
    for (auto& p : vals) f.regs[f.fi->idx.find(p.first)->second] = p.second;
}

static bool loopArrive(State& s, const BasicBlock* from, const BasicBlock* to);
static void performCut(State& s, const BasicBlock* header);
static void explore(size_t base);

static void jump(State& s, const BasicBlock* to) {
    Frame& f = s.stack.back();
    const BasicBlock* from = f.bb;
    doPhis(s, from, to);
    f.prev = from;
    f.bb   = to;
    f.it   = to->getFirstNonPHIIt();
    if (!s.loops.empty() || !SUB.empty()) { if (!loopArrive(s, from, to)) return; }
    // guard against runaway loops
    if (s.stack.empty()) return;
    Frame& g = s.stack.back();
    unsigned& n = g.iters[to];
    if (++n > MAXLOOP) { unsupported(s, "loop bound reached in " + g.fi->base); }
}

static void pushFrame(State& s, const Function* f, const vector<V>& args, int hook = 0) {
    FInfo* fi = finfo(f);
    fi->execs++;
    if (s.stack.size() > 400) { unsupported(s, "recursion depth"); return; }
    s.stack.emplace_back();
    Frame& fr = s.stack.back();
    fr.f = f; fr.fi = fi; fr.regs.resize(fi->n); fr.bb = &f->getEntryBlock(); fr.it = fr.bb->begin(); fr.hook = hook;
    unsigned i = 0;
    for (auto& a : f->args()) {
        if (i < args.size()) {
            V v = args[i];
            if (a.hasByValAttr()) {
                // copy the object
                Type* bt = a.getParamByValType();
                uint64_t sz = DL->getTypeAllocSize(bt);
                uint64_t na = allocObj(s, sz, Obj::Stack, "byval", Base::Undef);
                fr.allocas.push_back(na);
                Ref src;
                if (resolve(s, v, V(64, sz), src, "byval")) {
                    auto& so = *src.oi->second;
                    Obj& d = *s.mem[na];
                    if (!src.off.sym)
                        for (auto& kv : so.c.cells)
                            if (kv.first >= src.off.c && kv.first + kv.second.w / 8 <= src.off.c + sz) d.c.cells[kv.first - src.off.c] = kv.second;
                }
                else return;
                v = V(64, na);
            }
            s.stack.back().regs[i] = v;
        }
        ++i;
    }
}

// finish a call instruction with a value (current frame's `it` is the call)
static void finishCall(State& s, const CallBase* cb, const V& v) {
    if (!cb->getType()->isVoidTy()) {
        V r = v;
        if (!r.agg && r.w == 0) r = freshTyped(s, cb->getType(), "ret");
        else if (!r.agg) {
            unsigned w = DL->getTypeSizeInBits(cb->getType());
            if (r.w != w) r = r.w > w ? trunc(r, w) : zext(r, w);
        }
        set(s, cb, r);
    }
    if (auto* inv = dyn_cast<InvokeInst>(cb)) jump(s, inv->getNormalDest());
    else ++s.stack.back().it;
}

// ---- exceptions ----
static uint64_t tinfoByName(State& s, const string& n) {
    auto it = TINFO_BY_NAME.find(n);
    if (it != TINFO_BY_NAME.end()) return it->second;
    // not in the module: give it a pseudo address outside every object
    static uint64_t pseudo = 0x1000;
    uint64_t a = pseudo;
    pseudo += 16;
    TINFO_BY_NAME[n] = a;
    TINFO_NAME[a]    = n;
    return a;
}
static const std::map<string, string> STDBASE = {
    {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"},
    {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"},
    {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"},
    {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt12system_error", "_ZTISt13runtime_error"},
    {"_ZTISt14overflow_error", "_ZTISt13runtime_error"},
    {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt12bad_weak_ptr", "_ZTISt9exception"},
    {"_ZTISt17bad_function_call", "_ZTISt9exception"}, {"_ZTISt8bad_cast", "_ZTISt9exception"},
    {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}};
static bool tmatch(State& s, uint64_t thrown, uint64_t want) {
    if (want == 0 || thrown == want) return true;
    auto n = TINFO_NAME.find(thrown);
    auto m = TINFO_NAME.find(want);
    if (n != TINFO_NAME.end() && m != TINFO_NAME.end() && n->second == m->second) return true;
    auto gv = GVAT.find(thrown);
    if (gv != GVAT.end() && !gv->second->isDeclaration()) {
        auto* init = gv->second->getInitializer();
        if (auto* cs = dyn_cast<ConstantStruct>(init)) {
            for (unsigned i = 2; i < cs->getNumOperands(); ++i) {
                auto* op = cs->getOperand(i)->stripPointerCasts();
                if (auto* g = dyn_cast<GlobalVariable>(op))
                    if (g->getName().starts_with("_ZTI") && tmatch(s, GADDR[g], want)) return true;
            }
        }
        return false;
    }
    if (n != TINFO_NAME.end()) {
        auto b = STDBASE.find(n->second);
        if (b != STDBASE.end()) return tmatch(s, tinfoByName(s, b->second), want);
    }
    return false;
}
static int typeId(uint64_t t) {
    auto it = TYPEID.find(t);
    if (it != TYPEID.end()) return it->second;
    int n = (int) TYPEID.size() + 1;
    return TYPEID[t] = n;
}
// unwind with the current frame's `it` at the throwing call instruction
static void unwind(State& s, uint64_t exc) {
    s.unwinding = exc;
    uint64_t tinfo = s.exc[exc].tinfo;
    bool first = true;
    while (true) {
        if (!first) {
            freeAllocas(s, s.stack.back());
            if (s.stack.back().hook) { unsupported(s, "exception leaves a hook"); return; }
            s.stack.pop_back();
        }
        first = false;
        if (s.stack.empty()) return;
        Frame& f = s.stack.back();
        const Instruction* in = &*f.it;
        if (s.stack.size() == 1 && !isa<InvokeInst>(in)) {
            auto n = TINFO_NAME.find(tinfo);
            failNow(s, "no-uncaught-exception", "exception " + (n == TINFO_NAME.end() ? string("?") : demangle(n->second)) + " leaves the harness");
            return;
        }
        if (auto* inv = dyn_cast<InvokeInst>(in)) {
            const LandingPadInst* lp = inv->getUnwindDest()->getLandingPadInst();
            int sel = 0;
            bool take = lp->isCleanup();
            for (unsigned i = 0; i < lp->getNumClauses(); ++i) {
                if (lp->isCatch(i)) {
                    V cv = evalConst(&s, lp->getClause(i));
                    if (tmatch(s, tinfo, cv.c)) { sel = typeId(cv.c); take = true; break; }
                }
                else { sel = -1; take = true; break; }
            }
            if (!take) continue;
            s.lpSel = sel;
            jump(s, inv->getUnwindDest());
            return;
        }
    }
}
static void throwStd(State& s, const char* tinfoName, const char* what) {
    uint64_t e = allocObj(s, 64, Obj::Heap, string("exception ") + tinfoName, Base::Zero);
    (void) what;
    s.exc[e].tinfo = tinfoByName(s, tinfoName);
    s.exc[e].refs  = 1;
    unwind(s, e);
}

static V fbin(unsigned op, const V& a, const V& b);
enum HookKind { HK_LOAD = 1, HK_STORE = 2, HK_RMW = 3, HK_CAS = 4, HK_LOCK = 5, HK_UNLOCK = 6 };
static bool beforeHook(State& s, const V& addr, int kind, unsigned size);
static void block(State& s, int status, uint64_t on);
static void preempt(State& s);
static void schedule(State& s, bool yields = false);
static void armAfter(State& s, const V& addr, int kind, unsigned size);
static void runAfter(State& s);
#include "builtins.inc"

// ---------------------------------------------------------------------------------------------------------------------
// floating point on bit patterns
static double toD(uint64_t b, unsigned w) {
    if (w == 64) { double d; memcpy(&d, &b, 8); return d; }
    float f; uint32_t x = b; memcpy(&f, &x, 4); return f;
}
static uint64_t fromD(double d, unsigned w) {
    if (w == 64) { uint64_t b; memcpy(&b, &d, 8); return b; }
    float f = (float) d; uint32_t x; memcpy(&x, &f, 4); return x;
}
static Z3_sort fps(unsigned w) { return w == 64 ? Z3_mk_fpa_sort_double(Z) : Z3_mk_fpa_sort_single(Z); }
static X toFP(const V& v) { X b = ast(v); return X(Z3_mk_fpa_to_fp_bv(Z, b.a, fps(v.w))); }
static X rne() { return X(Z3_mk_fpa_round_nearest_ties_to_even(Z)); }
static X rtz() { return X(Z3_mk_fpa_round_toward_zero(Z)); }
static V fromFP(const X& x, unsigned w) { return sval(w, X(Z3_mk_fpa_to_ieee_bv(Z, x.a))); }

static V fbin(unsigned op, const V& a, const V& b) {
    if (!a.sym && !b.sym && a.w <= 64) {
        double x = toD(a.c, a.w), y = toD(b.c, a.w), r = 0;
        switch (op) {
            case Instruction::FAdd: r = a.w == 32 ? (float) x + (float) y : x + y; break;
            case Instruction::FSub: r = a.w == 32 ? (float) x - (float) y : x - y; break;
            case Instruction::FMul: r = a.w == 32 ? (float) x * (float) y : x * y; break;
            case Instruction::FDiv: r = a.w == 32 ? (float) x / (float) y : x / y; break;
            case Instruction::FRem: r = fmod(x, y); break;
        }
        return V(a.w, fromD(r, a.w));
    }
    X x = toFP(a), y = toFP(b), m = rne();
    Z3_ast r = nullptr;
    switch (op) {
        case Instruction::FAdd: r = Z3_mk_fpa_add(Z, m.a, x.a, y.a); break;
        case Instruction::FSub: r = Z3_mk_fpa_sub(Z, m.a, x.a, y.a); break;
        case Instruction::FMul: r = Z3_mk_fpa_mul(Z, m.a, x.a, y.a); break;
        case Instruction::FDiv: r = Z3_mk_fpa_div(Z, m.a, x.a, y.a); break;
        case Instruction::FRem: r = Z3_mk_fpa_rem(Z, x.a, y.a); break;
    }
    return fromFP(X(r), a.w);
}
static V fcmp(CmpInst::Predicate p, const V& a, const V& b) {
    if (!a.sym && !b.sym && a.w <= 64) {
        double x = toD(a.c, a.w), y = toD(b.c, a.w);
        bool un = std::isnan(x) || std::isnan(y);
        switch (p) {
            case CmpInst::FCMP_OEQ: return V(1, x == y);
            case CmpInst::FCMP_OGT: return V(1, x > y);
            case CmpInst::FCMP_OGE: return V(1, x >= y);
            case CmpInst::FCMP_OLT: return V(1, x < y);
            case CmpInst::FCMP_OLE: return V(1, x <= y);
            case CmpInst::FCMP_ONE: return V(1, !un && x != y);
            case CmpInst::FCMP_ORD: return V(1, !un);
            case CmpInst::FCMP_UNO: return V(1, un);
            case CmpInst::FCMP_UEQ: return V(1, un || x == y);
            case CmpInst::FCMP_UGT: return V(1, un || x > y);
            case CmpInst::FCMP_UGE: return V(1, un || x >= y);
            case CmpInst::FCMP_ULT: return V(1, un || x < y);
            case CmpInst::FCMP_ULE: return V(1, un || x <= y);
            case CmpInst::FCMP_UNE: return V(1, un || x != y);
            default: return V(1, 0);
        }
    }
    X x = toFP(a), y = toFP(b);
    X un = mkOr(X(Z3_mk_fpa_is_nan(Z, x.a)), X(Z3_mk_fpa_is_nan(Z, y.a)));
    X eq(Z3_mk_fpa_eq(Z, x.a, y.a)), lt(Z3_mk_fpa_lt(Z, x.a, y.a)), le(Z3_mk_fpa_leq(Z, x.a, y.a)), gt(Z3_mk_fpa_gt(Z, x.a, y.a)), ge(Z3_mk_fpa_geq(Z, x.a, y.a));
    switch (p) {
        case CmpInst::FCMP_OEQ: return boolV(eq);
        case CmpInst::FCMP_OGT: return boolV(gt);
        case CmpInst::FCMP_OGE: return boolV(ge);
        case CmpInst::FCMP_OLT: return boolV(lt);
        case CmpInst::FCMP_OLE: return boolV(le);
        case CmpInst::FCMP_ONE: return boolV(mkAnd(mkNot(un), mkNot(eq)));
        case CmpInst::FCMP_ORD: return boolV(mkNot(un));
        case CmpInst::FCMP_UNO: return boolV(un);
        case CmpInst::FCMP_UEQ: return boolV(mkOr(un, eq));
        case CmpInst::FCMP_UGT: return boolV(mkOr(un, gt));
        case CmpInst::FCMP_UGE: return boolV(mkOr(un, ge));
        case CmpInst::FCMP_ULT: return boolV(mkOr(un, lt));
        case CmpInst::FCMP_ULE: return boolV(mkOr(un, le));
        case CmpInst::FCMP_UNE: return boolV(mkNot(eq));
        default: return V(1, 0);
    }
}

static Pred ipred(CmpInst::Predicate p) {
    switch (p) {
        case CmpInst::ICMP_EQ: return EQ;
        case CmpInst::ICMP_NE: return NE;
        case CmpInst::ICMP_UGT: return UGT;
        case CmpInst::ICMP_UGE: return UGE;
        case CmpInst::ICMP_ULT: return ULT;
        case CmpInst::ICMP_ULE: return ULE;
        case CmpInst::ICMP_SGT: return SGT;
        case CmpInst::ICMP_SGE: return SGE;
        case CmpInst::ICMP_SLT: return SLT;
        default: return SLE;
    }
}

// ---- hooks on shared memory ----
static bool inHookRange(State& s, uint64_t a) {
    for (auto& r : s.hookRanges)
        if (a >= r.first && a < r.first + r.second) return true;
    return false;
}
static bool insideHook(State& s) {
    for (auto& f : s.stack)
        if (f.hook == 1 || f.hook == 2) return true;
    return false;
}
// returns true if a hook frame was pushed (the instruction re-executes afterwards)
static bool beforeHook(State& s, const V& addr, int kind, unsigned size) {
    if (!s.hookBefore || s.hooksOff || addr.sym || !inHookRange(s, addr.c) || insideHook(s)) return false;
    Frame& f = s.stack.back();
    if (f.hooked) { f.hooked = false; return false; }
    f.hooked = true;
    s.hooksRun++;
    pushFrame(s, FADDR[s.hookBefore], {V(64, addr.c), V(32, kind), V(32, size)}, 1);
    return true;
}
static void armAfter(State& s, const V& addr, int kind, unsigned size) {
    if (!s.hookAfter || s.hooksOff || addr.sym || !inHookRange(s, addr.c) || insideHook(s)) return;
    s.afterPending = 1;
    s.afterAddr = addr.c; s.afterKind = kind; s.afterSize = size;
}
static void runAfter(State& s) {
    if (!s.afterPending || s.stack.empty()) return;
    s.afterPending = 0;
    pushFrame(s, FADDR[s.hookAfter], {V(64, s.afterAddr), V(32, s.afterKind), V(32, s.afterSize)}, 2);
}

// ---- threads ----
static void switchTo(State& s, unsigned t) {
    if (t == s.cur) { s.threads[t].status = Thread::Ready; return; }
    Thread& a = s.threads[s.cur];
    a.stack.swap(s.stack); a.caught.swap(s.caught);
    Thread& b = s.threads[t];
    for (auto& kv : TLS0) {
        a.tls[kv.first] = s.mem[kv.first];
        auto it = b.tls.find(kv.first);
        s.mem[kv.first] = it == b.tls.end() ? std::make_shared<Obj>(*kv.second) : it->second;
    }
    s.stack.swap(b.stack); s.caught.swap(b.caught);
    s.cur = t;
    b.status = Thread::Ready;
}
static bool runnable(State& s, unsigned t) {
    Thread& h = s.threads[t];
    switch (h.status) {
        case Thread::Ready: return true;
        case Thread::Mutex: return s.mutexes[h.on] == 0;
        case Thread::Cond: return h.notified && s.mutexes[h.on] == 0;
        case Thread::Join: return s.threads[h.on].status == Thread::Done;
        default: return false;
    }
}
static void failNow(State& s, const string& name, const string& kind);
// the current thread cannot or should not continue: every other runnable thread is tried
static void schedule(State& s, bool yields) {
    vector<unsigned> r;
    for (unsigned i = 0; i < s.threads.size(); ++i) if (i != s.cur && runnable(s, i)) r.push_back(i);
    if (r.empty() && runnable(s, s.cur)) { s.threads[s.cur].status = Thread::Ready; return; }
    if (r.empty())   // nothing can run until time passes
        for (unsigned i = 0; i < s.threads.size(); ++i)
            if (s.threads[i].status == Thread::Cond && s.threads[i].timed && s.mutexes[s.threads[i].on] == 0) r.push_back(i);
    if (r.empty()) {
        if (s.blocking) failNow(s, "no-deadlock", "every thread is blocked");
        else { NOTES.insert("every thread blocked: path ends"); endPath(s); }
        return;
    }
    // the next one in turn; the others as well: always when this one blocks, within the preemption budget when it only yields
    std::sort(r.begin(), r.end(), [&](unsigned a, unsigned b) { return (a + s.threads.size() - s.cur) % s.threads.size() < (b + s.threads.size() - s.cur) % s.threads.size(); });
    for (size_t i = 1; i < r.size(); ++i) {
        if (yields && s.preemptions <= 0) break;
        auto st = std::make_unique<State>(s);
        FORKS++;
        if (yields) st->preemptions--;
        switchTo(*st, r[i]);
        WORK.push_back(std::move(st));
    }
    switchTo(s, r[0]);
}
// before a synchronisation operation: other threads may run first, within the preemption budget
static void preempt(State& s) {
    if (s.threads.size() < 2 || s.preemptions <= 0 || s.stack.back().pre) return;
    // the reference counts of libstdc++'s shared pointers are trusted: their order does not matter
    static DenseMap<const Function*, bool> refcount;
    const Function* f = s.stack.back().f;
    auto it = refcount.find(f);
    if (it == refcount.end()) {
        StringRef n = f->getName();
        it = refcount.insert({f, n.contains("_Sp_counted") || n.contains("__exchange_and_add") || n.contains("__atomic_add")}).first;
    }
    if (it->second) return;
    s.stack.back().pre = true;
    for (unsigned i = 0; i < s.threads.size(); ++i) {
        if (i == s.cur || !runnable(s, i)) continue;
        auto st = std::make_unique<State>(s);
        FORKS++;
        st->preemptions--;
        switchTo(*st, i);
        WORK.push_back(std::move(st));
    }
}
static void block(State& s, int status, uint64_t on) {
    if (s.threads.empty()) { s.threads.emplace_back(); }
    Thread& h = s.threads[s.cur];
    h.status = decltype(h.status)(status); h.on = on;
    schedule(s);
}

// model functions: "vfm_<prefix>" stands for every function whose mangled name starts with <prefix>
static std::map<string, const Function*> MODELS;
static DenseMap<const Function*, const Function*> MODELOF;
static const Function* modelOf(const Function* f) {
    if (MODELS.empty()) return nullptr;
    auto it = MODELOF.find(f);
    if (it != MODELOF.end()) return it->second;
    const Function* r = nullptr;
    StringRef n = f->getName();
    for (auto& kv : MODELS) if (n.starts_with(kv.first)) r = kv.second;
    MODELOF[f] = r;
    return r;
}

// ---------------------------------------------------------------------------------------------------------------------
static void doCall(State& s, const CallBase* cb) {
    const Value* callee = cb->getCalledOperand();
    const Function* f   = dyn_cast<Function>(callee->stripPointerCasts());
    if (isa<InlineAsm>(callee)) { unsupported(s, "inline asm"); return; }
    if (!f) {
        if (auto* al = dyn_cast<GlobalAlias>(callee->stripPointerCasts())) f = dyn_cast<Function>(al->getAliaseeObject());
    }
    if (!f) {
        V t = get(s, callee);
        if (t.sym) {
            size_t n = WORK.size(); (void) n;
            if (!concretize(s, t)) return;
        }
        auto it = FADDR.find(t.c);
        if (it == FADDR.end()) { failNow(s, "memory-safe:" + where(s), "call through an invalid function pointer"); return; }
        f = it->second;
    }
    if (f->isIntrinsic()) { doIntrinsic(s, cb, f); return; }
    if (auto* m = modelOf(f)) { EXTERNS[finfo(f)->base]++; f = m; }
    // contract substitution
    if (!s.repl.empty() || !s.replName.empty()) {
        auto it = s.repl.find(f);
        if (it == s.repl.end()) {
            FInfo* fi = finfo(f);
            uint64_t to = 0;
            auto j = s.replName.find(fi->base);
            if (j == s.replName.end()) j = s.replName.find(fi->dem);
            if (j == s.replName.end()) j = s.replName.find(f->getName().str());
            if (j == s.replName.end()) {
                // template functions demangle with a leading return type; try suffix match "... name"
                for (auto& kv : s.replName)
                    if (fi->base.size() > kv.first.size() && fi->base.compare(fi->base.size() - kv.first.size(), string::npos, kv.first) == 0 && fi->base[fi->base.size() - kv.first.size() - 1] == ' ')
                        to = kv.second;
            }
            else to = j->second;
            it = s.repl.emplace(f, to).first;
        }
        if (it->second) {
            const Function* g = FADDR[it->second];
            bool inside = false;   // a contract body may call the function it stands for
            for (auto& fr : s.stack) if (fr.f == g) inside = true;
            if (!inside) {
                CONTRACTS_USED.insert(finfo(f)->base);
                f = g;
            }
        }
    }
    vector<V> args;
    for (auto& a : cb->args()) args.push_back(get(s, a.get()));
    if (builtin(s, cb, f, args)) return;
    if (f->isDeclaration()) { unsupported(s, "external function " + finfo(f)->dem); return; }
    pushFrame(s, f, args);
}

static void step(State& s) {
    Frame& f = s.stack.back();
    const Instruction& I = *f.it;
    s.instrs++;
    INSTRS++;
    switch (I.getOpcode()) {
        case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor:
        case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
            V a = get(s, I.getOperand(0)), b = get(s, I.getOperand(1));
            static const std::map<unsigned, Op> ops = {{Instruction::Add, Add}, {Instruction::Sub, Sub}, {Instruction::Mul, Mul}, {Instruction::And, And}, {Instruction::Or, Or}, {Instruction::Xor, Xor}, {Instruction::Shl, Shl}, {Instruction::LShr, LShr}, {Instruction::AShr, AShr}, {Instruction::UDiv, UDiv}, {Instruction::SDiv, SDiv}, {Instruction::URem, URem}, {Instruction::SRem, SRem}};
            Op op = ops.at(I.getOpcode());
            if (a.agg) {
                V r; r.agg = std::make_shared<vector<V>>();
                for (size_t i = 0; i < a.agg->size(); ++i) r.agg->push_back(binop(op, (*a.agg)[i], (*b.agg)[i]));
                set(s, &I, r); ++s.stack.back().it;
                return;
            }
            if (op == UDiv || op == SDiv || op == URem || op == SRem) {
                V nz = cmp(NE, b, zeroOf(I.getType()));
                if (!oblige(s, nz, "no-division-by-zero:" + where(s), "division by zero")) return;
            }
            set(s, &I, binop(op, a, b));
            ++s.stack.back().it;
            return;
        }
        case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem:
            set(s, &I, fbin(I.getOpcode(), get(s, I.getOperand(0)), get(s, I.getOperand(1))));
            ++f.it;
            return;
        case Instruction::FNeg: {
            V a = get(s, I.getOperand(0));
            set(s, &I, binop(Xor, a, V(a.w, 1ull << (a.w - 1))));
            ++f.it;
            return;
        }
        case Instruction::ICmp: {
            V a = get(s, I.getOperand(0)), b = get(s, I.getOperand(1));
            if (a.agg) {
                V r; r.agg = std::make_shared<vector<V>>();
                for (size_t i = 0; i < a.agg->size(); ++i) r.agg->push_back(cmp(ipred(cast<ICmpInst>(I).getPredicate()), (*a.agg)[i], (*b.agg)[i]));
                set(s, &I, r); ++f.it;
                return;
            }
            set(s, &I, cmp(ipred(cast<ICmpInst>(I).getPredicate()), a, b));
            ++f.it;
            return;
        }
        case Instruction::FCmp:
            set(s, &I, fcmp(cast<FCmpInst>(I).getPredicate(), get(s, I.getOperand(0)), get(s, I.getOperand(1))));
            ++f.it;
            return;
        case Instruction::Trunc: set(s, &I, trunc(get(s, I.getOperand(0)), DL->getTypeSizeInBits(I.getType()))); ++f.it; return;
        case Instruction::ZExt: set(s, &I, zext(get(s, I.getOperand(0)), DL->getTypeSizeInBits(I.getType()))); ++f.it; return;
        case Instruction::SExt: set(s, &I, sext(get(s, I.getOperand(0)), DL->getTypeSizeInBits(I.getType()))); ++f.it; return;
        case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: {
            V v = get(s, I.getOperand(0));
            if (!v.agg) {
                unsigned w = DL->getTypeSizeInBits(I.getType());
                v = v.w > w ? trunc(v, w) : zext(v, w);
            }
            set(s, &I, v);
            ++f.it;
            return;
        }
        case Instruction::SIToFP: case Instruction::UIToFP: {
            V v = get(s, I.getOperand(0));
            unsigned w = DL->getTypeSizeInBits(I.getType());
            bool sg = I.getOpcode() == Instruction::SIToFP;
            if (!v.sym) { 
                double d = sg ? (double) sext64(v.c, v.w) : (double) v.c;
                if (w == 32) { float fl = sg ? (float) sext64(v.c, v.w) : (float) v.c; d = fl; }
                set(s, &I, V(w, fromD(d, w)));
            }
            else {
                X m = rne(), b = asBV(v);
                X r(sg ? Z3_mk_fpa_to_fp_signed(Z, m.a, b.a, fps(w)) : Z3_mk_fpa_to_fp_unsigned(Z, m.a, b.a, fps(w)));
                set(s, &I, fromFP(r, w));
            }
            ++f.it;
            return;
        }
        case Instruction::FPToSI: case Instruction::FPToUI: {
            V v = get(s, I.getOperand(0));
            unsigned w = DL->getTypeSizeInBits(I.getType());
            bool sg = I.getOpcode() == Instruction::FPToSI;
            if (!v.sym) {
                double d = toD(v.c, v.w);
                set(s, &I, V(w, sg ? (uint64_t) (int64_t) d : (uint64_t) d));
            }
            else {
                X m = rtz(), x = toFP(v);
                X r(sg ? Z3_mk_fpa_to_sbv(Z, m.a, x.a, w) : Z3_mk_fpa_to_ubv(Z, m.a, x.a, w));
                set(s, &I, sval(w, r));
            }
            ++f.it;
            return;
        }
        case Instruction::FPExt: case Instruction::FPTrunc: {
            V v = get(s, I.getOperand(0));
            unsigned w = DL->getTypeSizeInBits(I.getType());
            if (!v.sym && w <= 64) set(s, &I, V(w, fromD(toD(v.c, v.w), w)));
            else if (w <= 64) { X m = rne(), x = toFP(v); set(s, &I, fromFP(X(Z3_mk_fpa_to_fp_float(Z, m.a, x.a, fps(w))), w)); }
            else { unsupported(s, "long double"); return; }
            ++f.it;
            return;
        }
        case Instruction::Select: {
            V c = get(s, I.getOperand(0));
            V a = get(s, I.getOperand(1)), b = get(s, I.getOperand(2));
            if (a.agg || c.agg) {
                if (c.agg) { unsupported(s, "vector select"); return; }
                bool d = decide(s, c);
                if (s.stack.empty()) return;
                set(s, &I, d ? a : b);
            }
            else if (I.getType()->isPointerTy() && c.sym) {
                // choosing between objects: fork instead of building pointer terms
                bool d = decide(s, c);
                if (s.stack.empty()) return;
                set(s, &I, d ? a : b);
            }
            else set(s, &I, vite(c, a, b));
            ++s.stack.back().it;
            return;
        }
        case Instruction::Freeze: set(s, &I, get(s, I.getOperand(0))); ++f.it; return;
        case Instruction::GetElementPtr: {
            V base = get(s, I.getOperand(0));
            if (base.agg) { unsupported(s, "vector gep"); return; }
            set(s, &I, gepOffset(&s, cast<GEPOperator>(&I), base, [&](const Value* v) { return get(s, v); }));
            ++f.it;
            return;
        }
        case Instruction::Alloca: {
            auto& al = cast<AllocaInst>(I);
            V n = get(s, al.getArraySize());
            if (n.sym) { if (!concretize(s, n)) return; }
            uint64_t sz = DL->getTypeAllocSize(al.getAllocatedType()) * n.c;
            uint64_t a = allocObj(s, sz, Obj::Stack, al.hasName() ? al.getName().str() : "local", Base::Undef, al.getAlign().value());
            s.stack.back().allocas.push_back(a);
            set(s, &I, V(64, a));
            ++s.stack.back().it;
            return;
        }
        case Instruction::Load: {
            auto& ld = cast<LoadInst>(I);
            V a = get(s, ld.getPointerOperand());
            unsigned sz = DL->getTypeStoreSize(I.getType());
            if (ld.isAtomic()) { if (beforeHook(s, a, HK_LOAD, sz)) return; preempt(s); s.stack.back().pre = false; }
            Ref r;
            if (!resolve(s, a, V(64, sz), r, "load")) return;
            set(s, &I, loadV(s, r, I.getType()));
            ++s.stack.back().it;
            if (ld.isAtomic()) { armAfter(s, a, HK_LOAD, sz); runAfter(s); }
            return;
        }
        case Instruction::Store: {
            auto& st = cast<StoreInst>(I);
            V a = get(s, st.getPointerOperand());
            V v = get(s, st.getValueOperand());
            unsigned sz = DL->getTypeStoreSize(st.getValueOperand()->getType());
            if (st.isAtomic()) { if (beforeHook(s, a, HK_STORE, sz)) return; preempt(s); s.stack.back().pre = false; }
            Ref r;
            if (!resolve(s, a, V(64, sz), r, "store")) return;
            if (r.oi->second->isconst) { failNow(s, "memory-safe:" + where(s), "store to constant"); return; }
            storeV(s, r, st.getValueOperand()->getType(), v);
            ++s.stack.back().it;
            if (st.isAtomic()) { armAfter(s, a, HK_STORE, sz); runAfter(s); }
            return;
        }
        case Instruction::AtomicRMW: {
            auto& rm = cast<AtomicRMWInst>(I);
            V a = get(s, rm.getPointerOperand()), v = get(s, rm.getValOperand());
            unsigned sz = DL->getTypeStoreSize(I.getType());
            if (beforeHook(s, a, HK_RMW, sz)) return;
            Ref r;
            if (!resolve(s, a, V(64, sz), r, "atomic rmw")) return;
            V old = loadV(s, r, I.getType()), nw;
            switch (rm.getOperation()) {
                case AtomicRMWInst::Xchg: nw = v; break;
                case AtomicRMWInst::Add: nw = binop(Add, old, v); break;
                case AtomicRMWInst::Sub: nw = binop(Sub, old, v); break;
                case AtomicRMWInst::And: nw = binop(And, old, v); break;
                case AtomicRMWInst::Or: nw = binop(Or, old, v); break;
                case AtomicRMWInst::Xor: nw = binop(Xor, old, v); break;
                case AtomicRMWInst::Max: nw = vite(cmp(SGT, old, v), old, v); break;
                case AtomicRMWInst::Min: nw = vite(cmp(SLT, old, v), old, v); break;
                case AtomicRMWInst::UMax: nw = vite(cmp(UGT, old, v), old, v); break;
                case AtomicRMWInst::UMin: nw = vite(cmp(ULT, old, v), old, v); break;
                default: unsupported(s, "atomicrmw"); return;
            }
            storeV(s, r, I.getType(), nw);
            set(s, &I, old);
            ++s.stack.back().it;
            armAfter(s, a, HK_RMW, sz);
            runAfter(s);
            return;
        }
        case Instruction::AtomicCmpXchg: {
            auto& cx = cast<AtomicCmpXchgInst>(I);
            V a = get(s, cx.getPointerOperand()), e = get(s, cx.getCompareOperand()), n = get(s, cx.getNewValOperand());
            Type* t = cx.getCompareOperand()->getType();
            unsigned sz = DL->getTypeStoreSize(t);
            if (beforeHook(s, a, HK_CAS, sz)) return;
            preempt(s);
            bool wasHooked = s.hookBefore && !s.hooksOff && !a.sym && inHookRange(s, a.c) && !insideHook(s);
            Ref r;
            if (!resolve(s, a, V(64, sz), r, "cmpxchg")) return;
            V old = loadV(s, r, t);
            V eq  = cmp(EQ, old, e);
            // keep hooks from running twice if decide() forks: the fork re-executes this instruction
            if (wasHooked) s.stack.back().hooked = true;
            bool ok = decide(s, eq);
            if (s.stack.empty()) return;
            s.stack.back().hooked = false;
            s.stack.back().pre = false;
            if (ok && cx.isWeak() && wasHooked) {
                // spurious failure is subsumed by interference
            }
            if (ok) storeV(s, r, t, n);
            V res; res.agg = std::make_shared<vector<V>>();
            res.agg->push_back(old);
            res.agg->push_back(V(1, ok));
            set(s, &I, res);
            ++s.stack.back().it;
            if (ok) { armAfter(s, a, HK_CAS, sz); runAfter(s); }
            return;
        }
        case Instruction::Fence: ++f.it; return;
        case Instruction::ExtractValue: {
            V v = get(s, I.getOperand(0));
            for (unsigned i : cast<ExtractValueInst>(I).getIndices()) v = V((*v.agg)[i]);
            set(s, &I, v);
            ++f.it;
            return;
        }
        case Instruction::InsertValue: {
            V v = get(s, I.getOperand(0)), x = get(s, I.getOperand(1));
            std::function<V(const V&, size_t)> ins = [&](const V& o, size_t d) -> V {
                auto idx = cast<InsertValueInst>(I).getIndices();
                if (d == idx.size()) return x;
                V r = o;
                r.agg = std::make_shared<vector<V>>(*o.agg);
                (*r.agg)[idx[d]] = ins((*o.agg)[idx[d]], d + 1);
                return r;
            };
            set(s, &I, ins(v, 0));
            ++f.it;
            return;
        }
        case Instruction::ExtractElement: {
            V v = get(s, I.getOperand(0)), i = get(s, I.getOperand(1));
            if (i.sym) { unsupported(s, "symbolic vector index"); return; }
            set(s, &I, (*v.agg)[i.c]); ++f.it;
            return;
        }
        case Instruction::InsertElement: {
            V v = get(s, I.getOperand(0)), x = get(s, I.getOperand(1)), i = get(s, I.getOperand(2));
            if (i.sym) { unsupported(s, "symbolic vector index"); return; }
            V r = v; r.agg = std::make_shared<vector<V>>(*v.agg); (*r.agg)[i.c] = x;
            set(s, &I, r); ++f.it;
            return;
        }
        case Instruction::ShuffleVector: {
            auto& sv = cast<ShuffleVectorInst>(I);
            V a = get(s, I.getOperand(0)), b = get(s, I.getOperand(1));
            V r; r.agg = std::make_shared<vector<V>>();
            for (int m : sv.getShuffleMask()) {
                if (m < 0) r.agg->push_back((*a.agg)[0]);
                else if ((size_t) m < a.agg->size()) r.agg->push_back((*a.agg)[m]);
                else r.agg->push_back((*b.agg)[m - a.agg->size()]);
            }
            set(s, &I, r); ++f.it;
            return;
        }
        case Instruction::Br: {
            auto& br = cast<BranchInst>(I);
            if (br.isUnconditional()) { jump(s, br.getSuccessor(0)); return; }
            V c = get(s, br.getCondition());
            if (c.sym && !s.loops.empty()) {
                ensureLoops(f.fi, f.f);
                for (const Loop* L = f.fi->li->getLoopFor(f.bb); L; L = L->getParentLoop())
                    if (!L->contains(br.getSuccessor(0)) || !L->contains(br.getSuccessor(1))) f.symExit.insert(L->getHeader());
            }
            bool d = decide(s, c);
            if (s.stack.empty()) return;
            jump(s, br.getSuccessor(d ? 0 : 1));
            return;
        }
        case Instruction::Switch: {
            auto& sw = cast<SwitchInst>(I);
            V c = get(s, sw.getCondition());
            if (!c.sym) {
                for (auto& cs : sw.cases())
                    if (cs.getCaseValue()->getZExtValue() == c.c) { jump(s, cs.getCaseSuccessor()); return; }
                jump(s, sw.getDefaultDest());
                return;
            }
            for (auto& cs : sw.cases()) {
                V eq = cmp(EQ, c, V(c.w, cs.getCaseValue()->getZExtValue()));
                bool d = decide(s, eq);
                if (s.stack.empty()) return;
                if (d) { jump(s, cs.getCaseSuccessor()); return; }
            }
            jump(s, sw.getDefaultDest());
            return;
        }
        case Instruction::Unreachable: failNow(s, "no-unreachable:" + where(s), "unreachable code reached"); return;
        case Instruction::Ret: {
            auto& rt = cast<ReturnInst>(I);
            V v;
            if (rt.getReturnValue()) v = get(s, rt.getReturnValue());
            int hook = f.hook;
            freeAllocas(s, f);
            s.stack.pop_back();
            if (s.stack.empty()) {
                if (s.cur != 0) { s.threads[s.cur].status = Thread::Done; schedule(s); }
                return;
            }
            if (!SUB.empty() && s.stack.size() < SUB.back()->depth) { endPath(s); return; }
            if (hook == 5) { endPath(s); return; }
            if (hook == 6) { const BasicBlock* h = s.stack.back().cutPending; s.stack.back().cutPending = nullptr; performCut(s, h); return; }
            if (hook) return;  // the interrupted instruction stream continues by itself
            const Instruction* ci = &*s.stack.back().it;
            finishCall(s, cast<CallBase>(ci), v);
            return;
        }
        case Instruction::Call: case Instruction::Invoke: doCall(s, cast<CallBase>(&I)); return;
        case Instruction::LandingPad: {
            V r; r.agg = std::make_shared<vector<V>>();
            r.agg->push_back(V(64, s.unwinding));
            r.agg->push_back(V(32, (uint64_t) (int64_t) s.lpSel));
            set(s, &I, r);
            ++f.it;
            return;
        }
        case Instruction::Resume: {
            V v = get(s, I.getOperand(0));
            uint64_t e = (*v.agg)[0].c;
            unwind(s, e);
            return;
        }
        default: unsupported(s, string("instruction ") + I.getOpcodeName()); return;
    }
}

// ---------------------------------------------------------------------------------------------------------------------
#include "loops.inc"

static void explore(size_t base) {
    uint64_t tick = 0;
    while (WORK.size() > base) {
        auto st = std::move(WORK.back());
        WORK.pop_back();
        State& s = *st;
        while (!s.stack.empty()) {
            if ((++tick & 1023) == 0 && now_s() > DEADLINE) { TIMEDOUT = true; WORK.resize(base); return; }
            step(s);
        }
        if (SUB.empty()) PATHS++;
    }
}

// ---------------------------------------------------------------------------------------------------------------------
static string jesc(const string& s) {
    string r;
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { r += '\\'; r += ch; }
        else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, 8, "\\u%04x", ch); r += b; }
        else r += ch;
    }
    return r;
}
static string dumpNondets(const Failure& f) {
    string r = "[";
    bool first = true;
    for (auto& n : f.nd) {
        if (!first) r += ",";
        first = false;
        r += "{\"name\":\"" + jesc(n.name) + "\",\"w\":" + std::to_string(n.w) + ",\"hex\":\"";
        string hex;
        auto push = [&](uint8_t b) { char t[4]; snprintf(t, 4, "%02x", b); hex += t; };
        if (n.w) {
            uint64_t c = 0;
            if (f.model) {
                X v = f.model->eval(n.e);
                if (n.w == 1) c = v && isTrue(v);
                else if (v) isNumeral(v, c);
            }
            for (unsigned i = 0; i < std::max(1u, n.w / 8); ++i) push(c >> (8 * i));
        }
        else {
            uint64_t len = 0;
            if (f.model) {
                X v = f.model->eval(n.len);
                if (v) isNumeral(v, len);
            }
            if (len > 65536) len = 65536;
            for (uint64_t i = 0; i < len; ++i) {
                uint64_t c = 0;
                if (f.model) {
                    X sel(Z3_mk_select(Z, n.e.a, mkc(64, i).a));
                    X v = f.model->eval(sel);
                    if (v) isNumeral(v, c);
                }
                push(c);
            }
        }
        r += hex + "\"}";
    }
    return r + "]";
}

int main(int argc, char** argv) {
    string in, out, entry;
    double limit = 600;
    for (int i = 1; i < argc; ++i) {
        string a = argv[i];
        if (a == "-o") out = argv[++i];
        else if (a == "-e") entry = argv[++i];
        else if (a == "-t") limit = atof(argv[++i]);
        else if (a == "-v") VERBOSE = true;
        else if (a == "--max-loop") MAXLOOP = atoi(argv[++i]);
        else if (a == "--solver-ms") SOL.timeout_ms = atoi(argv[++i]);
        else if (a == "--list") entry = "--list";
        else in = a;
    }
    SMDiagnostic err;
    M = parseIRFile(in, err, CTX);
    if (!M) { err.print("nvc", errs()); return 3; }
    if (entry == "--list") {
        for (auto& f : *M)
            if (!f.isDeclaration() && f.getName().starts_with("vf_harness_")) printf("%s\n", f.getName().str().c_str());
        return 0;
    }
    DL = &M->getDataLayout();
    if (getenv("NVC_Z3")) { string a = getenv("NVC_Z3"); size_t i; while (!a.empty()) { i = a.find(','); string kv = a.substr(0, i); a = i == string::npos ? "" : a.substr(i + 1); size_t e = kv.find('='); Z3_global_param_set(kv.substr(0, e).c_str(), kv.substr(e + 1).c_str()); } }
    Z3_config cfg = Z3_mk_config();
    Z3_global_param_set("model.compact", "false");
    Z = Z3_mk_context_rc(cfg);
    Z3_set_error_handler(Z, z3err);
    SOL.init();
    for (auto& f : *M) if (f.getName().starts_with("vfm_") && !f.isDeclaration()) MODELS[f.getName().substr(4).str()] = &f;
    DEADLINE = now_s() + limit;
    double t0 = now_s();

    auto st = std::make_unique<State>();
    initGlobals(*st);
    Function* ef = M->getFunction(entry);
    if (!ef) die("no entry " + entry);
    // run the static constructors, then the harness
    vector<const Function*> ctors;
    if (auto* gc = M->getGlobalVariable("llvm.global_ctors")) {
        if (gc->hasInitializer())
            if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer()))
                for (auto& op : ca->operands())
                    if (auto* fn = dyn_cast<Function>(cast<ConstantStruct>(op)->getOperand(1)->stripPointerCasts())) ctors.push_back(fn);
    }
    pushFrame(*st, ef, {});
    for (auto it = ctors.rbegin(); it != ctors.rend(); ++it) pushFrame(*st, *it, {}, 9);
    WORK.push_back(std::move(st));
    explore(0);

    FILE* o = out.empty() ? stdout : fopen(out.c_str(), "w");
    fprintf(o, "{\"entry\":\"%s\",\"paths\":%lu,\"instructions\":%lu,\"forks\":%lu,\"solver_time\":%.3f,\"queries\":%lu,\"fallback_queries\":%lu,\"wall\":%.3f,\"timed_out\":%s,\n",
            jesc(entry).c_str(), PATHS, INSTRS, FORKS, SOL.time, SOL.queries, SOL.fallback_queries, now_s() - t0, TIMEDOUT ? "true" : "false");
    fprintf(o, "\"obligations\":[");
    bool first = true;
    for (auto& kv : OBS) {
        fprintf(o, "%s\n {\"name\":\"%s\",\"constant\":%lu,\"smt\":%lu,\"failed\":%lu,\"unknown\":%lu,\"time\":%.3f}", first ? "" : ",", jesc(kv.first).c_str(), kv.second.constant, kv.second.smt, kv.second.failed, kv.second.unknown, kv.second.time);
        first = false;
    }
    fprintf(o, "],\n\"failures\":[");
    first = true;
    for (auto& f : FAILS) {
        fprintf(o, "%s\n {\"name\":\"%s\",\"kind\":\"%s\",\"where\":\"%s\",\"nondet\":%s,\"trace\":[", first ? "" : ",", jesc(f.name).c_str(), jesc(f.kind).c_str(), jesc(f.where).c_str(), dumpNondets(f).c_str());
        for (size_t i = 0; i < f.trace.size(); ++i) fprintf(o, "%s\"%s\"", i ? "," : "", jesc(f.trace[i]).c_str());
        fprintf(o, "],\"stack\":[");
        for (size_t i = 0; i < f.stack.size() && i < 12; ++i) fprintf(o, "%s\"%s\"", i ? "," : "", jesc(f.stack[i].substr(0, 200)).c_str());
        fprintf(o, "]}");
        first = false;
    }
    auto arr = [&](const char* n, auto& c, auto fn) {
        fprintf(o, "],\n\"%s\":[", n);
        bool fst = true;
        for (auto& x : c) { string v = fn(x); if (v.empty()) continue; fprintf(o, "%s\"%s\"", fst ? "" : ",", jesc(v).c_str()); fst = false; }
    };
    arr("covers", COVERS, [](auto& kv) { return kv.first; });
    arr("covers_declared", COVERS_DECL, [](auto& n) { return n; });
    arr("externals", EXTERNS, [](auto& kv) { return kv.first; });
    arr("contracts_used", CONTRACTS_USED, [](auto& n) { return n; });
    arr("notes", NOTES, [](auto& n) { return n; });
    arr("cut_loops", CUTLOOPS, [](auto& kv) { return kv.first; });
    arr("unsupported", UNSUPPORTED, [](auto& kv) { return kv.first + " @ " + kv.second; });
    vector<string> fns;
    for (auto& kv : FI)
        if (kv.second->execs && kv.second->repo) fns.push_back(kv.second->base);
    std::sort(fns.begin(), fns.end());
    arr("functions", fns, [](auto& n) { return n; });
    fprintf(o, "]}\n");
    if (o != stdout) fclose(o);
    fflush(stdout);
    _exit(0);
}
