// Specification language: intrinsics understood by the verifier (engine/nvc) and, for replay, by the native runtime (spec/native.cpp).
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
uint64_t vf_u64(const char* name);
uint32_t vf_u32(const char* name);
uint16_t vf_u16(const char* name);
uint8_t vf_u8(const char* name);
bool vf_bool(const char* name);
double vf_f64(const char* name);
uint64_t vf_choice(uint64_t n, const char* name);   // one path per alternative
uint64_t vf_concretize(uint64_t v);
void vf_sym(void* p, uint64_t n, const char* name);  // havoc n bytes
void* vf_symalloc(uint64_t n, const char* name);     // n arbitrary bytes, n may be symbolic
void vf_assume(bool c);
void vf_assert(bool c, const char* name);            // proof obligation
void vf_fail(const char* name);
void vf_cover(const char* name);                     // must be reachable (vacuity guard)
void vf_trace(const char* msg);
void vf_stop();
void vf_print(const char* name, uint64_t v);
void vf_replace(const char* function, void* contract);   // calls to function are replaced by its contract
void vf_hooks(void* before, void* after);
void vf_hook_obj(const void* p, uint64_t n);
void vf_hooks_off();
void vf_hooks_on();
void vf_loop(const char* function, void* invariant);
int64_t vf_live();
bool vf_freed(const void* p);
bool vf_is_sym(uint64_t v);
bool vf_native();
uint64_t vf_thread_start(void (*fn)(void*), void* arg);
void vf_thread_join(uint64_t id);
void vf_preemptions(int n);                          // how many times a thread may be interrupted (0: threads switch only where they block)
void vf_blocking(bool isError);                      // every thread blocked: a violation (true) or the end of the path (false)
int vf_mutex_depth(const void* m);
uint64_t vf_uf2(const char* name, uint64_t a, uint64_t b);
uint64_t vf_select_u64(bool c, uint64_t a, uint64_t b);
}
#define VF_HARNESS(name) extern "C" void vf_harness_##name()
inline bool vf_and(bool a, bool b) { return (unsigned(a) & unsigned(b)) != 0; }
inline bool vf_or(bool a, bool b) { return (unsigned(a) | unsigned(b)) != 0; }
inline bool vf_imp(bool a, bool b) { return (unsigned(!a) | unsigned(b)) != 0; }
inline bool vf_iff(bool a, bool b) { return a == b; }
