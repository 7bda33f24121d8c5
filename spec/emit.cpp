// Emission: which reactions run, how often, when and with which data
#include "plant.hpp"
#include "dsl/word/MainThread.hpp"
struct A { uint32_t v; };
struct B { uint32_t v; };
struct Step { int i; };
using Scope = Reactor::Scope;
using E = std::pair<uint32_t, uint32_t>;
// Any sequence of emissions of two types: a reaction which needs both runs once per emission of the triggering type that
// happens after the other has been seen, in order, with the values of the moment of the emission.
template <int N> static void sequence() {
    E got[N], want[N];
    unsigned n = 0, m = 0, plain = 0, as = 0, inl = 0;
    uint32_t gota[N], wanta[N];
    program([&](Body& r) {
        r.on<Trigger<A>, With<B>, MainThread>().then([&](const A& a, const B& b) { vf_assert(n < N, "one run per emission"); got[n++] = {a.v, b.v}; });
        r.on<Trigger<A>, MainThread>().then([&](const A& a) { vf_assert(plain < N, "one run per emission"); gota[plain++] = a.v; });
        r.on<Trigger<B>, MainThread>().then([&] { ++inl; });
        r.on<Startup, MainThread>().then([&] {
            bool haveB = false;
            uint32_t b = 0;
            unsigned bs = 0;
            for (int i = 0; i < N; ++i) {
                const uint32_t v = vf_u32("value");
                switch (vf_choice(4, "emission")) {
                    case 0:
                        if (haveB) want[m++] = {v, b};
                        wanta[as++] = v;
                        r.emit(mk<A>(v));
                        break;
                    case 1: haveB = true; b = v; ++bs; r.emit(mk<B>(v)); break;
                    case 2: haveB = true; b = v; {
                        const unsigned before = inl;
                        r.emit<Scope::INLINE>(mk<B>(v));
                        vf_assert(inl == before + 1, "an inline emission runs its reactions before it returns");
                    } break;
                    case 3: return r.powerplant.shutdown();
                }
            }
            vf_assert(n == 0 && plain == 0, "a local emission does not run its reactions before it returns");
            r.powerplant.shutdown();
            vf_cover("sequence");
        });
    });
    vf_assert(n == m && plain == as, "every emission runs every reaction bound to it exactly once");
    for (unsigned i = 0; i < m; ++i) vf_assert(vf_and(got[i].first == want[i].first, got[i].second == want[i].second), "reactions see the data of the moment of the emission");
    for (unsigned i = 0; i < as; ++i) vf_assert(gota[i] == wanta[i], "reactions see the data which was emitted, in order");
}
VF_HARNESS(sequence_3) { sequence<3>(); }
VF_HARNESS(sequence_4) { sequence<4>(); }
// The reactions of an emission run in the order in which they were bound, and inline requests are decided per reaction
VF_HARNESS(inline_modes) {
    Log log;
    const bool inl = vf_choice(2, "inline emission");
    program([&](Body& r) {
        r.on<Trigger<A>, Inline::NEVER, MainThread>().then([&](const A& a) { log(100 + a.v); });
        r.on<Trigger<A>, Inline::ALWAYS, MainThread>().then([&](const A& a) { log(200 + a.v); });
        r.on<Trigger<A>, MainThread>().then([&](const A& a) { log(300 + a.v); });
        r.on<Startup, MainThread>().then([&] {
            if (inl) r.emit<Scope::INLINE>(mk<A>(uint32_t(7)));
            else r.emit(mk<A>(uint32_t(7)));
            log(1);
            r.powerplant.shutdown();
        });
    });
    vf_assert(log.n == 4, "each reaction once");
    if (inl) vf_assert(log.v[0] == 207 && log.v[1] == 307 && log.v[2] == 1 && log.v[3] == 107, "inline emission: all but the never inline reaction run at once");
    else vf_assert(log.v[0] == 207 && log.v[1] == 1 && log.v[2] == 107 && log.v[3] == 307, "local emission: only the always inline reaction runs at once");
    vf_cover(inl ? "inline" : "local");
}
// A nested inline emission of the same type does not change what the remaining reactions of the outer one see
VF_HARNESS(nested_inline) {
    Log log;
    const uint32_t x = vf_u32("x"), y = vf_u32("y");
    bool first = true;
    program([&](Body& r) {
        r.on<Trigger<A>, MainThread>().then([&](const A& a) {
            log(a.v);
            if (first) { first = false; r.emit<Scope::INLINE>(mk<A>(y)); log(a.v); }
        });
        r.on<Trigger<A>, MainThread>().then([&](const A& a) { log(a.v); });
        r.on<Startup, MainThread>().then([&] { r.emit<Scope::INLINE>(mk<A>(x)); r.powerplant.shutdown(); });
    });
    vf_assert(log.n == 5, "each reaction once per emission");
    const uint32_t want[5] = {x, y, y, x, x};
    for (int i = 0; i < 5; ++i) vf_assert(log.v[i] == want[i], "nested emissions keep their own data");
    vf_cover("nested");
}
// Data emitted for initialisation reaches the reactions once the system runs, and not before
VF_HARNESS(initialise) {
    Log log;
    bool started = false;
    const uint32_t x = vf_u32("x"), y = vf_u32("y");
    program([&](Body& r) {
        r.emit<Scope::INITIALIZE>(mk<A>(x));
        r.on<Trigger<A>, MainThread>().then([&](const A& a) { vf_assert(started, "initialise data is delivered after startup"); log(a.v); if (log.n == 2) r.powerplant.shutdown(); });
        r.on<Startup, MainThread>().then([&] { started = true; });
        r.emit<Scope::INITIALIZE>(mk<A>(y));
    });
    vf_assert(log.n == 2 && log.v[0] == x && log.v[1] == y, "initialise data is delivered exactly once, in order");
    vf_cover("initialise");
}
// Optional data, and several scopes at once
VF_HARNESS(optional_and_scopes) {
    Log log;
    const uint32_t x = vf_u32("x"), y = vf_u32("y");
    const bool haveB = vf_choice(2, "b emitted");
    program([&](Body& r) {
        r.on<Trigger<A>, Optional<With<B>>, MainThread>().then([&](const A& a, std::shared_ptr<const B> b) { log(a.v); log(b ? b->v : 0); log(b ? 1 : 0); });
        r.on<Startup, MainThread>().then([&] {
            if (haveB) r.emit(mk<B>(y));
            r.emit<Scope::LOCAL, Scope::INLINE>(mk<A>(x));
            vf_assert(log.n == 3, "the inline scope ran, the local one is queued");
            r.powerplant.shutdown();
        });
    });
    vf_assert(log.n == 6, "each scope emits once");
    for (int i = 0; i < 6; i += 3) vf_assert(log.v[i] == x && log.v[i + 2] == (haveB ? 1u : 0u) && (!haveB || log.v[i + 1] == y), "optional data is passed when there is some");
    vf_cover(haveB ? "with" : "without");
}
// The data lives as long as anything uses it and is destroyed exactly once
static int alive, made;
struct Tracked { uint32_t v; explicit Tracked(uint32_t x) : v(x) { ++alive; ++made; } ~Tracked() { vf_assert(alive > 0, "data is destroyed once"); --alive; v = 0xdeadbeef; } };
VF_HARNESS(lifetime) {
    Log log;
    const uint32_t x = vf_u32("x"), y = vf_u32("y");
    program([&](Body& r) {
        r.on<Trigger<Tracked>, MainThread>().then([&](const std::shared_ptr<const Tracked>& t) { log(t->v); });
        r.on<Trigger<Tracked>, MainThread>().then([&](const Tracked& t) { vf_assert(alive >= 1, "alive while used"); log(t.v); });
        r.on<Trigger<B>, With<Tracked>, MainThread>().then([&](const B&, const Tracked& t) { log(t.v); r.powerplant.shutdown(); });
        r.on<Startup, MainThread>().then([&] {
            r.emit(std::make_unique<Tracked>(x));
            r.emit(std::make_unique<Tracked>(y));
            r.emit(mk<B>(uint32_t(0)));
        });
    });
    vf_assert(made == 2 && alive == 1, "only the latest data is kept");
    vf_assert(log.n == 5 && log.v[0] == x && log.v[1] == x && log.v[2] == y && log.v[3] == y && log.v[4] == y, "every reaction saw live data");
    vf_cover("lifetime");
}
