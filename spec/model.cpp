// Models of the parts of libstdc++ that live in the shared library (trusted: see DESIGN.md).
#include <list>
#include <cstddef>
#include <map>
#include <unordered_map>
#include <string>
#include <thread>
#include "vf.hpp"
namespace std {
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() {
    if (x->_M_right != nullptr) { x = x->_M_right; while (x->_M_left != nullptr) x = x->_M_left; return x; }
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    if (x->_M_right != y) x = y;
    return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() {
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
    if (x->_M_left != nullptr) { _Rb_tree_node_base* y = x->_M_left; while (y->_M_right != nullptr) y = y->_M_right; return y; }
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_left) { x = y; y = y->_M_parent; }
    return y;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
// an unbalanced binary search tree has the same observable behaviour (ordering, iterator stability) as the balanced one
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& header) throw() {
    x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black;
    if (left) {
        p->_M_left = x;
        if (p == &header) { header._M_parent = x; header._M_right = x; }
        else if (p == header._M_left) header._M_left = x;
    }
    else {
        p->_M_right = x;
        if (p == header._M_right) header._M_right = x;
    }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& header) throw() {
    _Rb_tree_node_base*& root = header._M_parent;
    auto replace = [&](_Rb_tree_node_base* a, _Rb_tree_node_base* b) {
        if (root == a) root = b;
        else if (a->_M_parent->_M_left == a) a->_M_parent->_M_left = b;
        else a->_M_parent->_M_right = b;
        if (b != nullptr) b->_M_parent = a->_M_parent;
    };
    _Rb_tree_node_base* nl = header._M_left == z ? _Rb_tree_increment(z) : header._M_left;
    _Rb_tree_node_base* nr = header._M_right == z ? _Rb_tree_decrement(z) : header._M_right;
    if (z->_M_left == nullptr) replace(z, z->_M_right);
    else if (z->_M_right == nullptr) replace(z, z->_M_left);
    else {
        _Rb_tree_node_base* y = z->_M_right;
        while (y->_M_left != nullptr) y = y->_M_left;
        if (y->_M_parent != z) {
            replace(y, y->_M_right);
            y->_M_right = z->_M_right;
            y->_M_right->_M_parent = y;
        }
        replace(z, y);
        y->_M_left = z->_M_left;
        y->_M_left->_M_parent = y;
    }
    if (root == nullptr) { header._M_left = &header; header._M_right = &header; }
    else { header._M_left = nl; header._M_right = nr; }
    return z;
}
namespace __detail {
    // fixed growth policy
    size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
        size_t k = 13;
        while (k < n) k = k * 2 + 1;
        _M_next_resize = k;
        return k;
    }
    pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t n_bkt, size_t n_elt, size_t n_ins) const {
        if (n_elt + n_ins > _M_next_resize) {
            size_t want = n_elt + n_ins;
            if (want < n_bkt * 2 + 1 && _M_next_resize != 0) want = n_bkt * 2 + 1;
            return {true, _M_next_bkt(want < 13 ? 13 : want)};
        }
        return {false, 0};
    }
    void _List_node_base::_M_hook(_List_node_base* const position) noexcept {
        this->_M_next = position; this->_M_prev = position->_M_prev;
        position->_M_prev->_M_next = this; position->_M_prev = this;
    }
    void _List_node_base::_M_unhook() noexcept {
        _List_node_base* const n = this->_M_next; _List_node_base* const p = this->_M_prev;
        p->_M_next = n; n->_M_prev = p;
    }
    void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept {
        if (this != last) {
            last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; this->_M_prev->_M_next = first;
            _List_node_base* const t = this->_M_prev;
            this->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = t;
        }
    }
}  // namespace __detail
size_t _Hash_bytes(const void* p, size_t len, size_t seed) {
    const unsigned char* c = static_cast<const unsigned char*>(p);
    size_t h = seed;
    for (size_t i = 0; i < len; ++i) h = h * 31 + c[i];
    return h;
}
}  // namespace std
// C++ runtime services
#include <cstdlib>
#include <cstring>
// demangling is allowed to fail: callers then use the mangled name
extern "C" char* __cxa_demangle(const char*, char*, size_t*, int* status) {
    if (status != nullptr) *status = -1;
    return nullptr;
}
// threads run on the verifier's scheduler
namespace std {
thread::_State::~_State() = default;
static void run_thread(void* p) {
    thread::_State_ptr st(static_cast<thread::_State*>(p));
    st->_M_run();
}
void thread::_M_start_thread(_State_ptr st, void (*)()) { _M_id = id(vf_thread_start(&run_thread, st.release())); }
void thread::join() { vf_thread_join(_M_id._M_thread); _M_id = id(); }
void thread::detach() { _M_id = id(); }
}  // namespace std
// regular expressions only shorten the names of reactions: the text is left as it is
extern "C" {
__attribute__((used)) void vfm__ZSt13regex_replaceI(std::string* out, const std::string* in) { new (out) std::string(*in); }
__attribute__((used)) void vfm__ZNSt7__cxx1111basic_regexIcNS_12regex_traitsIcEEEC() {}
__attribute__((used)) void vfm__ZNSt7__cxx1111basic_regexIcNS_12regex_traitsIcEEED() {}
}
// formatting of log messages with operator<< is trusted: the text is not modelled
extern "C" __attribute__((used)) void vfm__ZN7NUClear4util11string_joinI(std::string* out, const std::string*) { new (out) std::string("text"); }
#include <pthread.h>
#include <sched.h>
extern "C" {
int sched_get_priority_min(int) noexcept { return 0; }
int sched_get_priority_max(int) noexcept { return 99; }
int pthread_setschedparam(pthread_t, int, const sched_param*) noexcept { return 0; }
int pthread_setname_np(pthread_t, const char*) noexcept { return 0; }
}
