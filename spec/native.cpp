// Native runtime for the specification intrinsics: replays a counterexample of the verifier against the compiled real
// code. Usage: prog HARNESS VALUES, where VALUES has one "name width hex" line per arbitrary value, in order.
#include "vf.hpp"
#include <chrono>
#include <time.h>
#include <csignal>
#include <cstdio>
#include <pthread.h>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <map>
#include <new>
#include <set>
#include <string>
#include <unistd.h>
#include <vector>
namespace {
struct Val { std::string name; unsigned w; std::vector<uint8_t> b; };
std::vector<Val>* vals;
std::vector<uint64_t>* nows;   // the instants, in the order in which the clocks are read
size_t pos = 0, nowpos = 0;
pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;
void load() {
    if (vals) return;
    vals = new std::vector<Val>(); nows = new std::vector<uint64_t>();
    char args[8192]; size_t n = 0;
    if (FILE* c = fopen("/proc/self/cmdline", "r")) { n = fread(args, 1, sizeof args - 1, c); fclose(c); }
    args[n] = 0;
    char* a = args; for (int i = 0; i < 2 && a < args + n; ++i) a += strlen(a) + 1;
    FILE* f = fopen(a, "r");
    static char line[1 << 20], name[512];
    while (f && fgets(line, sizeof line, f)) {
        unsigned w; int off = 0;
        if (sscanf(line, "%511s %u %n", name, &w, &off) < 2) continue;
        Val v; v.name = name; v.w = w;
        for (char* p = line + off; p[0] && p[1] && p[0] != '\n'; p += 2) { unsigned b; sscanf(p, "%2x", &b); v.b.push_back(b); }
        if (v.name == "now") { uint64_t r = 0; for (size_t i = 0; i < v.b.size() && i < 8; ++i) r |= uint64_t(v.b[i]) << (8 * i); nows->push_back(r); }
        else vals->push_back(v);
    }
    if (f) fclose(f);
}
int64_t live = 0;
const std::vector<uint8_t>& next(std::string name) {
    for (char& c : name) if (c == ' ') c = '_';
    static std::vector<uint8_t> zero(8, 0);
    if (pos >= vals->size()) return zero;   // arbitrary values the failing path never constrained
    auto& v = (*vals)[pos++];
    if (v.name != name) { printf("replay diverged: wanted %s, counterexample has %s\n", name.c_str(), v.name.c_str()); fflush(stdout); _exit(3); }
    return v.b;
}
uint64_t num(const char* name) { auto& b = next(name); uint64_t r = 0; for (size_t i = 0; i < b.size() && i < 8; ++i) r |= uint64_t(b[i]) << (8 * i); return r; }
}  // namespace
extern "C" {
uint64_t vf_u64(const char* n) { return num(n); }
uint32_t vf_u32(const char* n) { return num(n); }
uint16_t vf_u16(const char* n) { return num(n); }
uint8_t vf_u8(const char* n) { return num(n); }
bool vf_bool(const char* n) { return num(n) & 1; }
double vf_f64(const char* n) { uint64_t v = num(n); double d; memcpy(&d, &v, 8); return d; }
uint64_t vf_choice(uint64_t k, const char* n) { uint64_t v = num(n); return k ? v % k : 0; }
uint64_t vf_concretize(uint64_t v) { return v; }
void vf_sym(void* p, uint64_t n, const char* name) { auto& b = next(name); memset(p, 0, n); memcpy(p, b.data(), b.size() < n ? b.size() : n); }
void* vf_symalloc(uint64_t n, const char* name) { auto& b = next(name); char* p = (char*) malloc(n ? n : 1); memset(p, 0, n); memcpy(p, b.data(), b.size() < n ? b.size() : n); if (n == 0) { free(p); p = (char*) malloc(0); } return p; }
void vf_assume(bool c) { if (!c) { printf("replay: assumption not met\n"); fflush(stdout); _exit(3); } }
void vf_assert(bool c, const char* name) { if (!c) { printf("FAILED %s\n", name); fflush(stdout); _exit(7); } }
void vf_fail(const char* name) { printf("FAILED %s\n", name); fflush(stdout); _exit(7); }
void vf_cover(const char*) {}
void vf_trace(const char*) {}
void vf_stop() { printf("replay: path stops\n"); fflush(stdout); _exit(0); }
void vf_print(const char* n, uint64_t v) { printf("%s = %lu\n", n, (unsigned long) v); }
static void contractual() { printf("replay: this obligation is stated over contracts of callees or interference\n"); fflush(stdout); _exit(5); }
void vf_replace(const char*, void*) { contractual(); }
void vf_hooks(void*, void*) { contractual(); }
void vf_hook_obj(const void*, uint64_t) { contractual(); }
void vf_hooks_off() {}
void vf_hooks_on() {}
void vf_loop(const char*, void*) {}
int64_t vf_live() { return live; }
bool vf_freed(const void*) { return false; }
bool vf_is_sym(uint64_t) { return false; }
bool vf_native() { return true; }
uint64_t vf_thread_start(void (*)(void*), void*) { contractual(); return 0; }
void vf_thread_join(uint64_t) { contractual(); }
void vf_preemptions(int) {}
void vf_blocking(bool) {}
int vf_mutex_depth(const void*) { return 0; }
uint64_t vf_uf2(const char*, uint64_t a, uint64_t b) { return a * 0x9E3779B97F4A7C15ull + b; }
uint64_t vf_select_u64(bool c, uint64_t a, uint64_t b) { return c ? a : b; }
}
// clocks read the instants of the counterexample
extern "C" int clock_gettime(clockid_t, struct timespec* t) {
    pthread_mutex_lock(&lock);
    load();
    uint64_t v = nowpos < nows->size() ? (*nows)[nowpos++] : nows->empty() ? 0 : nows->back();
    pthread_mutex_unlock(&lock);
    t->tv_sec = v / 1000000000; t->tv_nsec = v % 1000000000;
    return 0;
}
static int64_t now() { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); return t.tv_sec * 1000000000 + t.tv_nsec; }
std::chrono::steady_clock::time_point std::chrono::steady_clock::now() noexcept { return time_point(duration(::now())); }
std::chrono::system_clock::time_point std::chrono::system_clock::now() noexcept { return time_point(duration(::now())); }
void* operator new(size_t n) { ++live; void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { ++live; void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { if (p) --live; free(p); }
void operator delete[](void* p) noexcept { if (p) --live; free(p); }
void operator delete(void* p, size_t) noexcept { if (p) --live; free(p); }
void operator delete[](void* p, size_t) noexcept { if (p) --live; free(p); }
static void hang(int) { static const char m[] = "replay: the program hangs\n"; if (write(1, m, sizeof m - 1)) {} _exit(9); }
int main(int argc, char** argv) {
    auto fn = reinterpret_cast<void (*)()>(dlsym(RTLD_DEFAULT, (std::string("vf_harness_") + argv[1]).c_str()));
    if (!fn) { printf("no harness %s\n", argv[1]); return 3; }
    pthread_mutex_lock(&lock); load(); pthread_mutex_unlock(&lock);
    signal(SIGALRM, hang);
    alarm(60);
    fn();
    printf("replay: harness completed\n");
    return 0;
}
