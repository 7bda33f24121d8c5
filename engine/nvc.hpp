// nvc: a verification-condition generator for LLVM IR compiled from the real sources.
// Core data types: SMT terms, values, memory objects, execution states.
#pragma once
#include <z3.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

extern Z3_context Z;

// ---- reference counted SMT term -------------------------------------------------------------------------------------
struct X {
    Z3_ast a = nullptr;
    X() = default;
    X(Z3_ast p) : a(p) { if (a) Z3_inc_ref(Z, a); }
    X(const X& o) : a(o.a) { if (a) Z3_inc_ref(Z, a); }
    X(X&& o) noexcept : a(o.a) { o.a = nullptr; }
    X& operator=(const X& o) { if (o.a) Z3_inc_ref(Z, o.a); if (a) Z3_dec_ref(Z, a); a = o.a; return *this; }
    X& operator=(X&& o) noexcept { std::swap(a, o.a); return *this; }
    ~X() { if (a) Z3_dec_ref(Z, a); }
    explicit operator bool() const { return a != nullptr; }
};

// ---- values ---------------------------------------------------------------------------------------------------------
struct V {
    uint32_t w = 0;  // width in bits, 0 for aggregates / void
    bool sym   = false;
    uint64_t c = 0;
    X e;
    std::shared_ptr<std::vector<V>> agg;
    V() = default;
    V(uint32_t w_, uint64_t c_) : w(w_), c(w_ >= 64 ? c_ : (c_ & ((1ull << w_) - 1))) {}
    bool isC() const { return !sym && w != 0; }
};

inline uint64_t maskw(uint32_t w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline int64_t sext64(uint64_t c, uint32_t w) {
    if (w >= 64) return (int64_t) c;
    uint64_t m = 1ull << (w - 1);
    return (int64_t) (((c & maskw(w)) ^ m) - m);
}

// ---- memory ---------------------------------------------------------------------------------------------------------
enum class Base { Undef, Zero, Arr };
struct Layer {
    enum Kind { SymStore, Copy, Set } kind = SymStore;
    X off;            // BV64 start offset
    X len;            // BV64 length (Copy/Set) ; SymStore uses val.w/8
    V val;            // SymStore / Set value
    std::shared_ptr<const struct Content> src;  // Copy: snapshot of the source content
    X srcoff;
};
struct Content {
    Base base = Base::Undef;
    X arr;                               // Base::Arr
    std::vector<Layer> layers;           // below the cells
    std::map<uint64_t, V> cells;         // on top
};
struct Obj {
    uint64_t base = 0, size = 0;         // size: concrete (or reserved capacity when symsize is set)
    X symsize;                           // BV64 or null
    enum K { Global, Stack, Heap, Code, Const } kind = Heap;
    bool freed   = false;
    bool isconst = false;
    bool driver  = false;
    std::string name;
    Content c;
};
