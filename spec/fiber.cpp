// Concrete histories of a contract driver: the driver and the real code are compiled natively, their threads become fibers which
// are switched before atomic and mutex operations as a random (or recorded) schedule says. Used to look for a failing history
// after an obligation over concurrent threads has failed.
// fiber HARNESS SECONDS OUT VALUES [SCHEDULE]
#include <ucontext.h>
#include <cerrno>
#include <chrono>
#include <condition_variable>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <functional>
#include <link.h>
#include <map>
#include <mutex>
#include <string>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
#include <vector>
namespace {
struct Fiber { ucontext_t ctx; std::function<void()> fn; bool done = false; char* stack = nullptr; void* mutex = nullptr; void* cv = nullptr; bool timed = false, notified = false; int join = -1; std::vector<char> tls; };
std::vector<Fiber*> fibers;
int cur = -1;
std::map<void*, int> owner;
std::vector<unsigned> trace, replay;
bool replaying = false, blockingIsError = false, finished = false;
uint64_t rng = 1;
unsigned switchEvery = 2, steps = 0;
std::string out;
char* tls = nullptr; size_t tlsSize = 0; std::vector<char> tls0;
int find(dl_phdr_info* i, size_t, void*) {
    if (i->dlpi_name[0] != 0) return 0;
    for (int k = 0; k < i->dlpi_phnum; ++k)
        if (i->dlpi_phdr[k].p_type == PT_TLS) { tls = static_cast<char*>(i->dlpi_tls_data); tlsSize = i->dlpi_phdr[k].p_memsz; }
    return 1;
}
unsigned rnd(unsigned n) { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return n ? (rng >> 11) % n : 0; }
unsigned pick(unsigned n) {
    if (n <= 1) return 0;
    unsigned v = replaying ? (trace.size() < replay.size() ? replay[trace.size()] % n : 0) : rnd(n);
    trace.push_back(v);
    return v;
}
[[noreturn]] void finish(int code, const char* what) {
    if (code == 7) {
        FILE* f = fopen(out.c_str(), "w");
        if (f) {
            fprintf(f, "history: %s\nswitch_every: %u\nschedule:", what, switchEvery);
            for (auto t : trace) fprintf(f, " %u", t);
            fprintf(f, "\n");
            fclose(f);
        }
        printf("FAIL %s\n", what);
        fflush(stdout);
    }
    _exit(code);
}
void switchTo(int n) {
    if (n == cur) return;
    int old = cur;
    if (tlsSize) { fibers[old]->tls.assign(tls, tls + tlsSize); }
    cur = n;
    if (tlsSize) memcpy(tls, fibers[n]->tls.data(), tlsSize);
    swapcontext(&fibers[old]->ctx, &fibers[n]->ctx);
}
bool free_(void* m) { auto it = owner.find(m); return it == owner.end() || it->second < 0; }
bool runnable(Fiber* f) {
    if (f->done) return false;
    if (f->cv && !f->notified) return false;
    if (f->mutex && !free_(f->mutex)) return false;
    if (f->join >= 0 && !fibers[f->join]->done) return false;
    return true;
}
void schedule() {
    if (++steps > 300000) finish(7, "livelock: no end within the step bound");
    std::vector<int> r;
    for (size_t i = 0; i < fibers.size(); ++i) if (runnable(fibers[i])) r.push_back(i);
    if (r.empty())
        for (size_t i = 0; i < fibers.size(); ++i) if (!fibers[i]->done && fibers[i]->cv && fibers[i]->timed && free_(fibers[i]->mutex)) r.push_back(i);
    if (r.empty()) finish(blockingIsError ? 7 : 0, "no-deadlock: every thread is blocked");
    switchTo(r[pick(r.size())]);
}
void entry() {
    fibers[cur]->fn();
    fibers[cur]->done = true;
    schedule();
}
int spawn(std::function<void()> fn) {
    auto* f = new Fiber();
    f->fn = std::move(fn);
    f->stack = static_cast<char*>(malloc(1 << 19));
    f->tls = tls0;
    getcontext(&f->ctx);
    f->ctx.uc_stack.ss_sp = f->stack;
    f->ctx.uc_stack.ss_size = 1 << 19;
    f->ctx.uc_link = nullptr;
    makecontext(&f->ctx, entry, 0);
    fibers.push_back(f);
    return int(fibers.size()) - 1;
}
struct Val { std::string name; std::vector<uint8_t> b; };
std::vector<Val> vals; std::vector<uint64_t> nows;
std::map<std::string, size_t> used;
size_t nowpos = 0;
int64_t live = 0;
const Val* value(const char* n) {   // the next value the counterexample has for this name
    std::string name(n);
    for (char& c : name) if (c == ' ') c = '_';
    size_t k = used[name]++, i = 0;
    for (auto& v : vals) if (v.name == name && i++ == k) return &v;
    return nullptr;
}
uint64_t num(const char* n) {
    if (auto* v = value(n)) { uint64_t r = 0; for (size_t i = 0; i < v->b.size() && i < 8; ++i) r |= uint64_t(v->b[i]) << (8 * i); return r; }
    return 0;
}
void load(const char* file) {
    FILE* f = fopen(file, "r");
    static char line[1 << 20], name[512];
    while (f && fgets(line, sizeof line, f)) {
        unsigned w; int off = 0;
        if (sscanf(line, "%511s %u %n", name, &w, &off) < 2) continue;
        Val v; v.name = name;
        for (char* p = line + off; p[0] && p[1] && p[0] != '\n'; p += 2) { unsigned b; sscanf(p, "%2x", &b); v.b.push_back(b); }
        if (v.name == "now") { uint64_t r = 0; for (size_t i = 0; i < v.b.size() && i < 8; ++i) r |= uint64_t(v.b[i]) << (8 * i); nows.push_back(r); }
        else vals.push_back(v);
    }
    if (f) fclose(f);
}
}  // namespace
extern "C" {
void vfs_yield(void*, int) {
    if (cur < 0 || finished) return;
    if (pick(switchEvery) != 0) return;
    schedule();
}
void vfs_fail(const char* w) { finish(7, w); }
int vfs_mutex_lock(void* m) {
    if (cur < 0) return 0;
    vfs_yield(m, 5);
    if (!free_(m) && owner[m] == cur) finish(7, "self deadlock on a mutex");
    fibers[cur]->mutex = m;
    while (!free_(m)) schedule();
    fibers[cur]->mutex = nullptr;
    owner[m] = cur;
    return 0;
}
int vfs_mutex_trylock(void* m) {
    if (cur < 0) return 0;
    vfs_yield(m, 5);
    if (!free_(m)) return 16;
    owner[m] = cur;
    return 0;
}
int vfs_mutex_unlock(void* m) { if (cur >= 0) owner[m] = -1; return 0; }
static bool wait(void* cv, void* m, bool timed) {
    Fiber* f = fibers[cur];
    owner[m] = -1;
    f->cv = cv; f->timed = timed; f->notified = false; f->mutex = m;
    schedule();
    while (!free_(m)) schedule();
    const bool was = f->notified;
    f->cv = f->mutex = nullptr; f->timed = false;
    owner[m] = cur;
    return was;
}
void vfs_cv_wait(void* cv, void* ul) { wait(cv, static_cast<std::unique_lock<std::mutex>*>(ul)->mutex(), false); }
int vfs_cond_wait(void* cv, void* m) { wait(cv, m, false); return 0; }
int vfs_cond_clockwait(void* cv, void* m, int, void*) { return wait(cv, m, true) ? 0 : ETIMEDOUT; }
int vfs_cond_timedwait(void* cv, void* m, void*) { return wait(cv, m, true) ? 0 : ETIMEDOUT; }
void vfs_cv_notify_all(void* cv) { for (auto f : fibers) if (f->cv == cv) f->notified = true; }
void vfs_cv_notify(void* cv) {
    std::vector<Fiber*> w;
    for (auto f : fibers) if (f->cv == cv && !f->notified) w.push_back(f);
    if (!w.empty()) w[pick(w.size())]->notified = true;
}
int vfs_sched_yield() { if (cur >= 0 && !finished) schedule(); return 0; }
uint64_t vf_thread_start(void (*fn)(void*), void* a) { return spawn([fn, a] { fn(a); }); }
void vf_thread_join(uint64_t i) { fibers[cur]->join = int(i); while (!fibers[i]->done) schedule(); fibers[cur]->join = -1; }
pthread_t vfs_self() { return 0x7000 + cur + 1; }
void vfs_thread_start(std::thread* t, std::unique_ptr<std::thread::_State>* st, void (*)()) {
    auto* s = st->release();
    *reinterpret_cast<uint64_t*>(t) = 0x100 + spawn([s] { s->_M_run(); delete s; });
}
void vfs_thread_join(std::thread* t) { vf_thread_join(*reinterpret_cast<uint64_t*>(t) - 0x100); *reinterpret_cast<uint64_t*>(t) = 0; }
void vf_preemptions(int) {}
void vf_blocking(bool e) { blockingIsError = e; }
uint64_t vf_u64(const char* n) { return num(n); }
uint32_t vf_u32(const char* n) { return num(n); }
uint16_t vf_u16(const char* n) { return num(n); }
uint8_t vf_u8(const char* n) { return num(n); }
bool vf_bool(const char* n) { return num(n) & 1; }
double vf_f64(const char* n) { uint64_t v = num(n); double d; memcpy(&d, &v, 8); return d; }
uint64_t vf_choice(uint64_t k, const char* n) { auto* v = value(n); if (!v) return k ? pick(k) : 0; --used[v->name]; return k ? num(n) % k : 0; }
uint64_t vf_concretize(uint64_t v) { return v; }
void vf_sym(void* p, uint64_t n, const char* name) { memset(p, 0, n); if (auto* v = value(name)) memcpy(p, v->b.data(), std::min<size_t>(n, v->b.size())); }
void* vf_symalloc(uint64_t n, const char* name) { char* p = (char*) malloc(n ? n : 1); memset(p, 0, n); if (auto* v = value(name)) memcpy(p, v->b.data(), std::min<size_t>(n, v->b.size())); return p; }
void vf_assume(bool c) { if (!c) _exit(0); }
void vf_assert(bool c, const char* n) { if (!c) finish(7, n); }
void vf_fail(const char* n) { finish(7, n); }
void vf_cover(const char*) {}
void vf_trace(const char*) {}
void vf_stop() { _exit(0); }
void vf_print(const char* n, uint64_t v) { printf("%s = %lu\n", n, (unsigned long) v); }
void vf_replace(const char*, void*) { _exit(5); }
void vf_hooks(void*, void*) { _exit(5); }
void vf_hook_obj(const void*, uint64_t) { _exit(5); }
void vf_hooks_off() {}
void vf_hooks_on() {}
void vf_loop(const char*, void*) {}
int64_t vf_live() { return live; }
bool vf_freed(const void*) { return false; }
bool vf_is_sym(uint64_t) { return false; }
bool vf_native() { return true; }
int vf_mutex_depth(const void* m) { return free_(const_cast<void*>(m)) ? 0 : owner[const_cast<void*>(m)] + 1; }
uint64_t vf_uf2(const char*, uint64_t a, uint64_t b) { return a * 0x9E3779B97F4A7C15ull + b; }
uint64_t vf_select_u64(bool c, uint64_t a, uint64_t b) { return c ? a : b; }
int vfs_clock_gettime(clockid_t, struct timespec* t) {
    static uint64_t tick = 1000000;
    uint64_t v = nowpos < nows.size() ? nows[nowpos++] : nows.empty() ? (tick += 1000) : nows.back();
    t->tv_sec = v / 1000000000; t->tv_nsec = v % 1000000000;
    return 0;
}
int64_t vfs_now() { timespec t; vfs_clock_gettime(0, &t); return t.tv_sec * 1000000000 + t.tv_nsec; }
}
// only the driver's and the real code's allocations are counted: the instrumentation renames theirs
extern "C" {
void* vfs_new(size_t n) { ++live; return malloc(n ? n : 1); }
void vfs_delete(void* p) { if (p) --live; free(p); }
void vfs_delete2(void* p, size_t) { if (p) --live; free(p); }
}
int main(int argc, char** argv) {
    auto fn = reinterpret_cast<void (*)()>(dlsym(RTLD_DEFAULT, (std::string("vf_harness_") + argv[1]).c_str()));
    if (!fn) { printf("no harness %s\n", argv[1]); return 3; }
    out = argv[3];
    load(argv[4]);
    dl_iterate_phdr(find, nullptr);
    tls0.assign(tls, tls + tlsSize);
    auto once = [&] {
        static ucontext_t base;
        int f = spawn([&] { fn(); finished = true; _exit(0); });
        cur = f;
        swapcontext(&base, &fibers[f]->ctx);
    };
    if (argc > 5) {
        FILE* f = fopen(argv[5], "r");
        static char line[1 << 22];
        while (f && fgets(line, sizeof line, f)) {
            if (!strncmp(line, "switch_every:", 13)) switchEvery = atoi(line + 13);
            if (!strncmp(line, "schedule:", 9)) { char* p = line + 9; char* e; for (;;) { unsigned long v = strtoul(p, &e, 10); if (e == p) break; replay.push_back(v); p = e; } }
        }
        replaying = true;
        once();
    }
    const double secs = atof(argv[2]);
    auto seconds = [] { timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; };
    const double t0 = seconds();
    const uint64_t seed = getenv("VFS_SEED") ? strtoull(getenv("VFS_SEED"), nullptr, 10) : 12345;
    uint64_t n = 0;
    while (seconds() - t0 < secs) {
        pid_t p = fork();
        if (p == 0) {
            alarm(30);
            uint64_t k = (n + 1) * 0x9E3779B97F4A7C15ull ^ seed;
            rng = k ? k : 1;
            for (int j = 0; j < 4; ++j) rnd(2);
            switchEvery = 1u << (n % 8);
            if (n % 3 == 2) vals.clear();   // other inputs than the counterexample's
            once();
        }
        int st = 0;
        waitpid(p, &st, 0);
        ++n;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 7) { printf("after %lu histories\n", (unsigned long) n); return 7; }
        if (WIFEXITED(st) && WEXITSTATUS(st) == 5) { printf("stated over contracts of callees or interference: no history\n"); return 0; }
        if (WIFSIGNALED(st) && WTERMSIG(st) != SIGALRM) {
            FILE* f = fopen(out.c_str(), "w");
            if (f) { fprintf(f, "history: crashed with signal %d (history %lu of seed %lu)\n", WTERMSIG(st), (unsigned long) n, (unsigned long) seed); fclose(f); }
            printf("FAIL crash with signal %d\n", WTERMSIG(st));
            return 7;
        }
    }
    printf("%lu histories: no failure\n", (unsigned long) n);
    return 0;
}
