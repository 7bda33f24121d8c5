// Thin SMT layer: term construction with constant folding, and the solver used for branch feasibility and obligations.
#pragma once
#include "nvc.hpp"
#include <chrono>

inline double now_s() {
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

inline Z3_sort bvs(unsigned w) { return Z3_mk_bv_sort(Z, w); }
inline X mkc(unsigned w, uint64_t c) { return X(Z3_mk_unsigned_int64(Z, c & maskw(w), bvs(w))); }
inline X simp(const X& x) { return X(Z3_simplify(Z, x.a)); }
inline bool isTrue(const X& x) { return Z3_get_bool_value(Z, x.a) == Z3_L_TRUE; }
inline bool isFalse(const X& x) { return Z3_get_bool_value(Z, x.a) == Z3_L_FALSE; }
inline X mkTrue() { return X(Z3_mk_true(Z)); }
inline X mkFalse() { return X(Z3_mk_false(Z)); }
inline X mkNot(const X& x) { return simp(X(Z3_mk_not(Z, x.a))); }
inline X mkAnd(const X& a, const X& b) { Z3_ast v[2] = {a.a, b.a}; return simp(X(Z3_mk_and(Z, 2, v))); }
inline X mkOr(const X& a, const X& b) { Z3_ast v[2] = {a.a, b.a}; return simp(X(Z3_mk_or(Z, 2, v))); }
inline X mkEq(const X& a, const X& b) { return simp(X(Z3_mk_eq(Z, a.a, b.a))); }

// term for a value (width 1 => Bool)
inline X ast(const V& v) {
    if (v.sym) return v.e;
    if (v.w == 1) return v.c ? mkTrue() : mkFalse();
    return mkc(v.w, v.c);
}
inline bool isNumeral(const X& x, uint64_t& out) {
    if (Z3_get_ast_kind(Z, x.a) != Z3_NUMERAL_AST) return false;
    return Z3_get_numeral_uint64(Z, x.a, &out);
}
// value from a term (simplified)
inline V val(unsigned w, X x) {
    V v;
    v.w = w;
    if (w == 1) {
        auto b = Z3_get_bool_value(Z, x.a);
        if (b == Z3_L_TRUE) { v.c = 1; return v; }
        if (b == Z3_L_FALSE) { v.c = 0; return v; }
    }
    else {
        uint64_t c;
        if (w <= 64 && isNumeral(x, c)) { v.c = c; return v; }
    }
    v.sym = true;
    v.e   = std::move(x);
    return v;
}
inline V sval(unsigned w, const X& x) { return val(w, simp(x)); }
// width-1 value as BV term of width n
inline X asBV(const V& v) {
    if (v.w != 1) return ast(v);
    return X(Z3_mk_ite(Z, ast(v).a, mkc(1, 1).a, mkc(1, 0).a));
}
inline V boolV(const X& x) { return val(1, simp(x)); }

enum Op { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor };
inline V binop(Op op, const V& a, const V& b) {
    unsigned w = a.w;
    if (w == 1) {
        X x = ast(a), y = ast(b);
        Z3_ast v[2] = {x.a, y.a};
        switch (op) {
            case Add: case Sub: case Xor: return boolV(X(Z3_mk_xor(Z, x.a, y.a)));
            case Mul: case And: return boolV(X(Z3_mk_and(Z, 2, v)));
            case Or: return boolV(X(Z3_mk_or(Z, 2, v)));
            default: break;
        }
        fprintf(stderr, "i1 op\n");
        exit(3);
    }
    if (!a.sym && !b.sym && w <= 64) {
        uint64_t x = a.c, y = b.c;
        switch (op) {
            case Add: return V(w, x + y);
            case Sub: return V(w, x - y);
            case Mul: return V(w, x * y);
            case UDiv: if (y) return V(w, x / y); break;
            case URem: if (y) return V(w, x % y); break;
            case SDiv: { int64_t s = sext64(x, w), t = sext64(y, w); if (t && !(t == -1)) return V(w, (uint64_t) (s / t)); if (t == -1) return V(w, 0 - x); break; }
            case SRem: { int64_t s = sext64(x, w), t = sext64(y, w); if (t && t != -1) return V(w, (uint64_t) (s % t)); if (t == -1) return V(w, 0); break; }
            case Shl: return V(w, y >= w ? 0 : x << y);
            case LShr: return V(w, y >= w ? 0 : x >> y);
            case AShr: return V(w, (uint64_t) (sext64(x, w) >> (y >= w ? 63 : y)));
            case And: return V(w, x & y);
            case Or: return V(w, x | y);
            case Xor: return V(w, x ^ y);
        }
    }
    // identities
    if (!b.sym && w <= 64) {
        if (b.c == 0 && (op == Add || op == Sub || op == Shl || op == LShr || op == AShr || op == Or || op == Xor)) return a;
        if (b.c == 0 && (op == And || op == Mul)) return V(w, 0);
        if (b.c == 1 && (op == Mul || op == UDiv)) return a;
        if (op == And && b.c == maskw(w)) return a;
    }
    if (!a.sym && w <= 64) {
        if (a.c == 0 && (op == Add || op == Or || op == Xor)) return b;
        if (a.c == 0 && (op == And || op == Mul || op == Shl || op == LShr)) return V(w, 0);
    }
    X x = ast(a), y = ast(b);
    Z3_ast r = nullptr;
    switch (op) {
        case Add: r = Z3_mk_bvadd(Z, x.a, y.a); break;
        case Sub: r = Z3_mk_bvsub(Z, x.a, y.a); break;
        case Mul: r = Z3_mk_bvmul(Z, x.a, y.a); break;
        case UDiv: r = Z3_mk_bvudiv(Z, x.a, y.a); break;
        case SDiv: r = Z3_mk_bvsdiv(Z, x.a, y.a); break;
        case URem: r = Z3_mk_bvurem(Z, x.a, y.a); break;
        case SRem: r = Z3_mk_bvsrem(Z, x.a, y.a); break;
        case Shl: r = Z3_mk_bvshl(Z, x.a, y.a); break;
        case LShr: r = Z3_mk_bvlshr(Z, x.a, y.a); break;
        case AShr: r = Z3_mk_bvashr(Z, x.a, y.a); break;
        case And: r = Z3_mk_bvand(Z, x.a, y.a); break;
        case Or: r = Z3_mk_bvor(Z, x.a, y.a); break;
        case Xor: r = Z3_mk_bvxor(Z, x.a, y.a); break;
    }
    return sval(w, X(r));
}

enum Pred { EQ, NE, UGT, UGE, ULT, ULE, SGT, SGE, SLT, SLE };
inline V cmp(Pred p, const V& a, const V& b) {
    unsigned w = a.w;
    if (!a.sym && !b.sym && w <= 64) {
        uint64_t x = a.c, y = b.c;
        int64_t s = sext64(x, w), t = sext64(y, w);
        switch (p) {
            case EQ: return V(1, x == y);
            case NE: return V(1, x != y);
            case UGT: return V(1, x > y);
            case UGE: return V(1, x >= y);
            case ULT: return V(1, x < y);
            case ULE: return V(1, x <= y);
            case SGT: return V(1, s > t);
            case SGE: return V(1, s >= t);
            case SLT: return V(1, s < t);
            case SLE: return V(1, s <= t);
        }
    }
    if (w == 1 && (p == EQ || p == NE)) {
        X x = ast(a), y = ast(b);
        X r(Z3_mk_eq(Z, x.a, y.a));
        if (p == NE) r = X(Z3_mk_not(Z, r.a));
        return boolV(r);
    }
    X x = asBV(a), y = asBV(b);
    Z3_ast r = nullptr;
    switch (p) {
        case EQ: r = Z3_mk_eq(Z, x.a, y.a); break;
        case NE: { X q(Z3_mk_eq(Z, x.a, y.a)); return boolV(X(Z3_mk_not(Z, q.a))); }
        case UGT: r = Z3_mk_bvugt(Z, x.a, y.a); break;
        case UGE: r = Z3_mk_bvuge(Z, x.a, y.a); break;
        case ULT: r = Z3_mk_bvult(Z, x.a, y.a); break;
        case ULE: r = Z3_mk_bvule(Z, x.a, y.a); break;
        case SGT: r = Z3_mk_bvsgt(Z, x.a, y.a); break;
        case SGE: r = Z3_mk_bvsge(Z, x.a, y.a); break;
        case SLT: r = Z3_mk_bvslt(Z, x.a, y.a); break;
        case SLE: r = Z3_mk_bvsle(Z, x.a, y.a); break;
    }
    return boolV(X(r));
}
inline V vite(const V& c, const V& a, const V& b) {
    if (!c.sym) return c.c ? a : b;
    if (!a.sym && !b.sym && a.c == b.c && a.w <= 64) return a;
    X ca = ast(c), x = ast(a), y = ast(b);
    return sval(a.w, X(Z3_mk_ite(Z, ca.a, x.a, y.a)));
}
inline V trunc(const V& a, unsigned w) {
    if (a.w == w) return a;
    if (!a.sym && a.w <= 64) return V(w, a.c);
    if (w == 1) {
        // trunc(ite(b,1,0)) -> b
        if (Z3_get_ast_kind(Z, a.e.a) == Z3_APP_AST) {
            Z3_app ap = Z3_to_app(Z, a.e.a);
            if (Z3_get_decl_kind(Z, Z3_get_app_decl(Z, ap)) == Z3_OP_ITE) {
                uint64_t t, f;
                X xt(Z3_get_app_arg(Z, ap, 1)), xf(Z3_get_app_arg(Z, ap, 2));
                if (isNumeral(xt, t) && isNumeral(xf, f)) {
                    X b(Z3_get_app_arg(Z, ap, 0));
                    if ((t & 1) && !(f & 1)) return boolV(b);
                    if (!(t & 1) && (f & 1)) return boolV(X(Z3_mk_not(Z, b.a)));
                    return V(1, t & 1);
                }
            }
        }
        X ex(Z3_mk_extract(Z, 0, 0, a.e.a));
        return boolV(X(Z3_mk_eq(Z, ex.a, mkc(1, 1).a)));
    }
    return sval(w, X(Z3_mk_extract(Z, w - 1, 0, ast(a).a)));
}
inline V zext(const V& a, unsigned w) {
    if (a.w == w) return a;
    if (!a.sym && a.w <= 64 && w <= 64) return V(w, a.c);
    if (a.w == 1) return sval(w, X(Z3_mk_ite(Z, ast(a).a, mkc(w, 1).a, mkc(w, 0).a)));
    return sval(w, X(Z3_mk_zero_ext(Z, w - a.w, ast(a).a)));
}
inline V sext(const V& a, unsigned w) {
    if (a.w == w) return a;
    if (!a.sym && a.w <= 64 && w <= 64) return V(w, (uint64_t) sext64(a.c, a.w));
    if (a.w == 1) return sval(w, X(Z3_mk_ite(Z, ast(a).a, mkc(w, ~0ull).a, mkc(w, 0).a)));
    return sval(w, X(Z3_mk_sign_ext(Z, w - a.w, ast(a).a)));
}
inline V extractV(const V& a, unsigned hi, unsigned lo) {
    unsigned w = hi - lo + 1;
    if (w == a.w) return a;
    if (!a.sym && a.w <= 64) return V(w, a.c >> lo);
    return sval(w, X(Z3_mk_extract(Z, hi, lo, asBV(a).a)));
}
inline V concatV(const V& hi, const V& lo) {
    unsigned w = hi.w + lo.w;
    if (!hi.sym && !lo.sym && w <= 64) return V(w, (hi.c << lo.w) | lo.c);
    return sval(w, X(Z3_mk_concat(Z, asBV(hi).a, asBV(lo).a)));
}

// ---- models ---------------------------------------------------------------------------------------------------------
struct Model {
    Z3_model m = nullptr;
    explicit Model(Z3_model p) : m(p) { if (m) Z3_model_inc_ref(Z, m); }
    ~Model() { if (m) Z3_model_dec_ref(Z, m); }
    Model(const Model&) = delete;
    Model& operator=(const Model&) = delete;
    X eval(const X& x) const {
        Z3_ast r = nullptr;
        if (!Z3_model_eval(Z, m, x.a, true, &r)) return X();
        return X(r);
    }
};
using ModelP = std::shared_ptr<Model>;

enum Res { UNSAT, SAT, UNK };

struct Solver {
    Z3_solver s = nullptr;
    std::vector<X> stk;  // constraints asserted, one push each
    double time      = 0;
    uint64_t queries = 0;
    uint64_t fallback_queries = 0;
    unsigned timeout_ms = 20000;
    void init() {
        const char* lg = getenv("NVC_LOGIC");
        s = lg ? Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, lg)) : Z3_mk_solver(Z);
        Z3_solver_inc_ref(Z, s);
        setTimeout(timeout_ms);
    }
    void setTimeout(unsigned ms) {
        timeout_ms = ms;
        Z3_params p = Z3_mk_params(Z);
        Z3_params_inc_ref(Z, p);
        Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), ms);
        Z3_solver_set_params(Z, s, p);
        Z3_params_dec_ref(Z, p);
    }
    void sync(const std::vector<X>& path) {
        size_t i = 0;
        while (i < stk.size() && i < path.size() && stk[i].a == path[i].a) ++i;
        if (stk.size() > i) {
            Z3_solver_pop(Z, s, stk.size() - i);
            stk.resize(i);
        }
        for (; i < path.size(); ++i) {
            Z3_solver_push(Z, s);
            Z3_solver_assert(Z, s, path[i].a);
            stk.push_back(path[i]);
        }
    }
    // satisfiability of path /\ c
    Res check(const std::vector<X>& path, const X& c, ModelP* m = nullptr, bool hard = false) {
        double t0 = now_s();
        sync(path);
        Z3_ast as[1] = {c.a};
        // assumptions must be literals; use push/assert/pop instead
        Z3_solver_push(Z, s);
        Z3_solver_assert(Z, s, c.a);
        if (getenv("NVC_DUMP")) { FILE* f = fopen(getenv("NVC_DUMP"), "w"); fputs(Z3_solver_to_string(Z, s), f); fclose(f); }
        Z3_lbool r = Z3_solver_check(Z, s);
        (void) as;
        ++queries;
        Res res = r == Z3_L_TRUE ? SAT : r == Z3_L_FALSE ? UNSAT : UNK;
        if (res == SAT && m) *m = std::make_shared<Model>(Z3_solver_get_model(Z, s));
        Z3_solver_pop(Z, s, 1);
        if (res == UNK && hard) res = fallback(path, c, m);
        time += now_s() - t0;
        return res;
    }
    // fresh, non-incremental solver (bit-blasting tactic pipeline)
    Res fallback(const std::vector<X>& path, const X& c, ModelP* m) {
        ++fallback_queries;
        Z3_solver f = Z3_mk_simple_solver(Z);
        Z3_tactic t1 = Z3_mk_tactic(Z, "simplify"), t2 = Z3_mk_tactic(Z, "solve-eqs"), t3 = Z3_mk_tactic(Z, "qfaufbv");
        Z3_tactic_inc_ref(Z, t1); Z3_tactic_inc_ref(Z, t2); Z3_tactic_inc_ref(Z, t3);
        Z3_tactic t12 = Z3_tactic_and_then(Z, t1, t2);
        Z3_tactic_inc_ref(Z, t12);
        Z3_tactic t = Z3_tactic_and_then(Z, t12, t3);
        Z3_tactic_inc_ref(Z, t);
        Z3_solver g = Z3_mk_solver_from_tactic(Z, t);
        Z3_solver_inc_ref(Z, g);
        (void) f;
        Z3_params p = Z3_mk_params(Z);
        Z3_params_inc_ref(Z, p);
        Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), timeout_ms * 3);
        Z3_solver_set_params(Z, g, p);
        for (auto& x : path) Z3_solver_assert(Z, g, x.a);
        Z3_solver_assert(Z, g, c.a);
        Z3_lbool r = Z3_solver_check(Z, g);
        Res res = r == Z3_L_TRUE ? SAT : r == Z3_L_FALSE ? UNSAT : UNK;
        if (res == SAT && m) *m = std::make_shared<Model>(Z3_solver_get_model(Z, g));
        Z3_solver_dec_ref(Z, g);
        return res;
    }
};
