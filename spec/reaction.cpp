// Reactions: handles, Buffer/Single/Once, task lifecycle, callbacks and statistics, Last, TaskScope
#include "plant.hpp"
#include "task.hpp"
using Scope = Reactor::Scope;
struct M { uint32_t v; };
struct N { uint32_t v; };
struct Step { int i; };
using Handle = threading::ReactionHandle;
// ---- handles ---------------------------------------------------------------------------------------------------------
template <int K> static void handle_ops() {
    unsigned runs = 0, want = 0, other = 0, emitted = 0;
    Handle h;
    program([&](Body& r) {
        h = r.on<Trigger<M>, MainThread>().then([&] { ++runs; });
        r.on<Trigger<M>, MainThread>().then([&] { ++other; });
        r.on<Startup, MainThread>().then([&] {
            bool enabled = true, bound = true;
            for (int i = 0; i < K; ++i) {
                switch (vf_choice(5, "operation")) {
                    case 0: r.emit(mk<M>(0u)); ++emitted; want += bound && enabled; break;
                    case 1: h.disable(); enabled = false; break;
                    case 2: if (bound) { h.enable(); enabled = true; } break;
                    case 3: { const bool b = vf_choice(2, "set"); if (bound) { h.enable(b); enabled = b; } } break;
                    case 4: h.unbind(); bound = false; break;
                }
                if (bound) vf_assert(h.enabled() == enabled, "the handle reports whether the reaction is enabled");
                if (bound) vf_assert(bool(h), "the handle of a bound reaction is valid");
            }
            r.powerplant.shutdown();
            vf_cover("handle");
        });
    });
    vf_assert(runs == want, "a reaction runs exactly for the emissions at which it was bound and enabled");
    vf_assert(other == emitted, "other reactions are not affected");
}
VF_HARNESS(handle_3) { handle_ops<3>(); }
VF_HARNESS(handle_4) { handle_ops<4>(); }
// Buffer: emissions while n tasks of the reaction are waiting or running are dropped. Two rounds of emissions, drained in between;
// every accepted task emits again while it runs
template <int B, typename Word> static void buffer() {
    unsigned runs = 0, want = 0, refused = 0, pending = 0;
    program([&](Body& r) {
        r.on<Trigger<M>, Word, MainThread>().then([&](const M& m) {
            ++runs;
            vf_assert(pending > 0 && pending <= B, "never more than the buffer");
            if (m.v == 1) {   // emits itself while it runs: it still occupies its place
                if (pending < B) { ++pending; ++want; }
                else ++refused;
                r.emit(mk<M>(0u));
            }
            --pending;
        });
        r.on<Trigger<Step>, Priority::IDLE, MainThread>().then([&](const Step& s) {
            vf_assert(pending == 0, "drained");
            if (s.i == 2) { r.powerplant.shutdown(); return; }
            const uint64_t k = vf_choice(B + 2, "emissions");
            for (uint64_t i = 0; i < k; ++i) {
                if (pending < B) { ++pending; ++want; }
                else ++refused;
                r.emit(mk<M>(uint32_t(vf_choice(2, "re-emits"))));
            }
            r.emit(mk<Step>(s.i + 1));
        });
        r.on<Startup, MainThread>().then([&] { r.emit(mk<Step>(0)); });
    });
    vf_assert(runs == want, "exactly the emissions which find room in the buffer run");
    if (refused) vf_cover("refused");
    if (want) vf_cover("accepted");
}
VF_HARNESS(single) { buffer<1, Single>(); }
VF_HARNESS(buffer2) { buffer<2, Buffer<2>>(); }
// Once: exactly one run, whatever triggers it and however
VF_HARNESS(once) {
    unsigned runs = 0, other = 0, before = 0;
    unsigned emitted = 0;
    program([&](Body& r) {
        r.on<Trigger<M>, MainThread>().then([&] { ++before; });
        Handle h = r.on<Trigger<M>, Once, MainThread>().then([&] { ++runs; });
        r.on<Trigger<M>, MainThread>().then([&] { ++other; });
        r.on<Trigger<Step>, Priority::IDLE, MainThread>().then([&](const Step& s) {
            for (uint64_t i = 0; i < 2; ++i) {
                ++emitted;
                if (vf_choice(2, "inline")) r.emit<Scope::INLINE>(mk<M>(0u));
                else r.emit(mk<M>(0u));
            }
            if (s.i == 1) r.powerplant.shutdown();
            else r.emit(mk<Step>(s.i + 1));
        });
        r.on<Startup, MainThread>().then([&] { r.emit(mk<Step>(0)); });
    });
    vf_assert(runs == 1, "a once reaction runs exactly once");
    vf_assert(before == emitted && other == emitted, "the other reactions run for every emission");
    vf_cover("once");
}
// a reaction may unbind itself or another one, or bind a new one, in the middle of an inline emission
VF_HARNESS(unbind_during_emission) {
    unsigned a = 0, b = 0, c = 0, d = 0;
    const uint64_t what = vf_choice(4, "what");
    program([&](Body& r) {
        static Handle hs[3];
        hs[0] = r.on<Trigger<M>, MainThread>().then([&] {
            ++a;
            if (a != 1) return;
            if (what == 0) hs[0].unbind();
            if (what == 1) hs[1].unbind();
            if (what == 2) hs[2].unbind();
            if (what == 3) r.on<Trigger<M>, MainThread>().then([&] { ++d; });
        });
        hs[1] = r.on<Trigger<M>, MainThread>().then([&] { ++b; });
        hs[2] = r.on<Trigger<M>, MainThread>().then([&] { ++c; });
        r.on<Startup, MainThread>().then([&] {
            r.emit<Scope::INLINE>(mk<M>(0u));
            r.emit<Scope::INLINE>(mk<M>(0u));
            r.powerplant.shutdown();
        });
    });
    vf_assert(a == (what == 0 ? 1u : 2u), "unbound itself after its first run");
    vf_assert(b == (what == 1 ? 0u : 2u), "an unbound reaction no longer runs");
    vf_assert(c == (what == 2 ? 0u : 2u), "an unbound reaction no longer runs");
    vf_assert(d == (what == 3 ? 1u : 0u) || d == 2, "a new reaction runs from the next emission on");
    vf_cover("unbind during emission");
}
VF_HARNESS(dead_handle) {
    Handle h;
    vf_assert(!h && !h.enabled(), "an empty handle is not enabled");
    h.enable(); h.disable(); h.enable(true); h.unbind();
    vf_assert(!h && !h.enabled(), "operations on an empty handle do nothing");
    program([&](Body& r) {
        h = r.on<Trigger<M>, MainThread>().then([&] {});
        vf_assert(h && h.enabled(), "bound");
        h.unbind();
        vf_assert(!h.enabled(), "an unbound reaction is not enabled");
        h.enable(); h.unbind();
        r.on<Startup, MainThread>().then([&] { r.powerplant.shutdown(); });
    });
    vf_cover("dead handle");
}
// ---- tasks -----------------------------------------------------------------------------------------------------------
using threading::ReactionTask;
VF_HARNESS(current_task) {
    Log log;
    static threading::Reaction *outer, *inner;
    const bool throws = vf_choice(2, "the inner callback throws");
    program([&](Body& r) {
        outer = r.on<Trigger<M>, MainThread>().then([&] {
            const ReactionTask* t = ReactionTask::get_current_task();
            vf_assert(t != nullptr && t->parent.get() == outer, "the current task is the running one");
            const auto id = t->id;
            r.emit<Scope::INLINE>(mk<N>(0u));
            vf_assert(log.n % 2 == 1, "inner ran");
            vf_assert(ReactionTask::get_current_task() == t && t->id == id, "an inline task restores the current task");
            log(2);
        }).context.lock().get();
        inner = r.on<Trigger<N>, MainThread>().then([&] {
            const ReactionTask* t = ReactionTask::get_current_task();
            vf_assert(t != nullptr && t->parent.get() == inner, "the current task is the inner one");
            vf_assert(inner->active_tasks == 1 && outer->active_tasks == (log.n == 0 ? 2 : 1), "running tasks are counted");
            log(1);
            if (throws) throw 1;
        }).context.lock().get();
        r.on<Startup, MainThread>().then([&] { r.emit(mk<M>(0u)); r.emit(mk<M>(0u)); vf_assert(outer->active_tasks == 2, "queued tasks are counted"); r.powerplant.shutdown(); });
        vf_assert(ReactionTask::get_current_task() == nullptr, "no task is running yet");
    });
    vf_assert(ReactionTask::get_current_task() == nullptr, "no task is running any more");
    vf_cover(throws ? "throws" : "returns");
}
// ---- callbacks: hooks of custom words, exceptions, statistics --------------------------------------------------------------
static Log* hooks;
template <int I> struct Hook {
    struct S { bool on = true; S() = default; S(S&& o) noexcept : on(o.on) { o.on = false; } ~S() { if (on) (*hooks)(30 + I); } };
    template <typename DSL> static bool precondition(const ReactionTask&) { (*hooks)(0 + I); return I != 9 && vf_choice(2, "precondition") == 1; }
    template <typename DSL> static void pre_run(ReactionTask&) { (*hooks)(10 + I); }
    template <typename DSL> static void post_run(ReactionTask&) { (*hooks)(20 + I); }
    template <typename DSL> static S scope(ReactionTask&) { (*hooks)(40 + I); return S(); }
};
VF_HARNESS(hook_order) {
    Log log;
    hooks = &log;
    const bool throws = vf_choice(2, "throws");
    program([&](Body& r) {
        r.on<Trigger<M>, Hook<1>, Hook<2>, MainThread>().then([&] { log(99); if (throws) throw std::runtime_error("x"); });
        r.on<Startup, MainThread>().then([&] { r.emit(mk<M>(0u)); r.powerplant.shutdown(); });
    });
    unsigned i = 0;
    auto next = [&](uint32_t x) { vf_assert(i < log.n && log.v[i] == x, "the hooks of the words run in their order"); ++i; };
    next(1);
    if (log.n == 1) { vf_cover("first precondition refuses"); return; }
    next(2);
    if (log.n == 2) { vf_cover("second precondition refuses"); return; }
    // scopes surround the run, in any order between themselves
    vf_assert(log.n >= 4 && log.v[2] + log.v[3] == 83 && (log.v[2] == 41 || log.v[2] == 42), "every scope is entered before the task runs"); i = 4;
    next(11); next(12); next(99);
    if (!throws) { next(21); next(22); vf_cover("completes"); }
    else vf_cover("throws");
    vf_assert(i + 2 == log.n && log.v[i] + log.v[i + 1] == 63, "every scope is left once, after the task ran");
}
struct Ev { uint32_t kind; NUClear::id_t task; };
// every task is accounted for: created, started, finished and the statistics, in this order, or blocked, or missing data
VF_HARNESS(statistics) {
    Log log;
    unsigned stats = 0, runs = 0;
    const bool throws = vf_choice(2, "throws"), block = vf_choice(2, "blocked"), data = vf_choice(2, "data");
    NUClear::id_t rid = 0, cause = 0;
    program([&](Body& r) {
        rid = r.on<Trigger<M>, With<N>, Single, MainThread>().then([&] { ++runs; if (throws) throw std::runtime_error("x"); }).context.lock()->id;
        r.on<Trigger<message::ReactionEvent>, MainThread, Inline::ALWAYS>().then([&](const message::ReactionEvent& e) {
            if (e.statistics->target.reaction_id == rid) {
                log(uint32_t(e.type));
                vf_assert(e.statistics->cause.reaction_id == cause && cause != 0, "the cause is the emitting reaction");
                vf_assert(e.statistics->target.task_id != 0, "the task is identified");
            }
        });
        r.on<Trigger<message::ReactionStatistics>, MainThread>().then([&](const message::ReactionStatistics& s) {
            if (s.target.reaction_id != rid) return;
            ++stats;
            vf_assert(bool(s.exception) == throws, "the statistics tell whether the task failed");
            vf_assert(runs == stats, "statistics follow the run");
        });
        Handle h = r.on<Startup, MainThread>().then([&] {
            if (data) r.emit(mk<N>(0u));
            r.emit(mk<M>(0u));
            if (block) r.emit(mk<M>(0u));
            r.emit(mk<Step>(0));
        });
        r.on<Trigger<Step>, Priority::IDLE, MainThread>().then([&] { r.powerplant.shutdown(); });
        cause = h.context.lock()->id;
    });
    using Event = message::ReactionEvent::Event;
    unsigned i = 0;
    auto next = [&](Event e) { vf_assert(i < log.n && log.v[i] == uint32_t(e), "events come in order"); ++i; };
    if (!data) {
        vf_assert(runs == 0 && stats == 0, "a task without its data does not run");
        next(Event::MISSING_DATA);
        if (block) next(Event::MISSING_DATA);
    }
    else {
        vf_assert(runs == 1 && stats == 1, "one run, one record");
        next(Event::CREATED);
        if (block) next(Event::BLOCKED);
        next(Event::STARTED); next(Event::FINISHED);
    }
    vf_assert(i == log.n, "no other events");
    vf_cover(throws ? "throws" : "returns");
}
// words fuse: groups are united, the highest priority wins, conflicting inline requests are refused
struct G1 {}; struct G2 {};
VF_HARNESS(fusion) {
    program([&](Body& r) {
        r.emit(mk<M>(0u));
        auto h = r.on<Trigger<M>, Sync<G1>, Sync<G2>, Priority::LOW, Priority::HIGH, Inline::ALWAYS, MainThread>().then([&] {});
        auto t = h.context.lock()->get_task();
        vf_assert(t->group_descriptors.size() == 2 && t->group_descriptors.count(Sync<G1>::descriptor()) == 1 && t->group_descriptors.count(Sync<G2>::descriptor()) == 1, "the groups of all words");
        vf_assert(t->priority == 750, "the highest priority of all words");
        vf_assert(t->run_inline, "inline");
        vf_assert(t->pool_descriptor == MainThread::descriptor(), "the pool");
        auto d = r.on<Trigger<M>>().then([&] {}).context.lock()->get_task();
        vf_assert(d->group_descriptors.empty() && d->priority == 500 && !d->run_inline && d->pool_descriptor == Pool<>::descriptor(), "the defaults");
        r.on<Startup, MainThread>().then([&] { r.powerplant.shutdown(); });
        bool refused = false;
        auto c = r.on<Trigger<M>, Inline::ALWAYS, Inline::NEVER>().then([&] {});
        try { c.context.lock()->get_task(); }
        catch (const std::logic_error&) { refused = true; }
        vf_assert(refused, "contradicting inline requests are refused");
        vf_cover("fusion");
    });
}
VF_HARNESS(inline_decision) {
    const PoolDesc none;
    const auto mode = vf_choice(3, "mode");
    const bool req = vf_choice(2, "request");
    const int prio = int(vf_u32("priority"));
    const util::Inline inl[3] = {util::Inline::ALWAYS, util::Inline::NEVER, util::Inline::NEUTRAL};
    auto t = make_task(prio, none, {}, {}, req, inl[mode]);
    vf_assert(t->run_inline == (mode == 0 || (mode == 2 && req)), "the reaction decides, a neutral one follows the emission");
    vf_assert(t->priority == prio, "priority");
    int ran = 0;
    t->callback = [&](ReactionTask& x) { ++ran; vf_assert(&x == t.get() && ReactionTask::get_current_task() == t.get(), "the callback gets its task"); if (prio < 0) throw 5; };
    t->run();
    vf_assert(ran == 1, "the callback runs once, exceptions are contained");
    vf_assert(ReactionTask::get_current_task() == nullptr, "the current task is restored");
    vf_cover("inline decision");
}
// ---- Last ------------------------------------------------------------------------------------------------------------
template <int K, int E> static void last() {
    uint32_t sent[E];
    unsigned runs = 0;
    program([&](Body& r) {
        r.on<Last<K, Trigger<M>>, MainThread>().then([&](const std::list<std::shared_ptr<const M>>& l) {
            ++runs;
            const unsigned want = runs < K ? runs : K;
            vf_assert(l.size() == want, "the last n messages, or all there are");
            unsigned i = runs - want;
            for (const auto& m : l) { vf_assert(m != nullptr && m->v == sent[i], "oldest first, none missing, none twice"); ++i; }
        });
        r.on<Last<2, Trigger<M>>, With<N>, MainThread>().then([&](const std::vector<std::shared_ptr<const M>>& l) { vf_assert(l.size() <= 2, "per reaction"); });
        r.on<Startup, MainThread>().then([&] {
            for (int i = 0; i < E; ++i) { sent[i] = vf_u32("value"); r.emit(mk<M>(sent[i])); }
            r.powerplant.shutdown();
        });
    });
    vf_assert(runs == E, "one run per message");
    vf_cover("last");
}
VF_HARNESS(last_1) { last<1, 3>(); }
VF_HARNESS(last_3) { last<3, 6>(); }
VF_HARNESS(last_5) { last<5, 4>(); }
// ---- TaskScope -------------------------------------------------------------------------------------------------------
struct T1 {}; struct T2 {};
VF_HARNESS(task_scope) {
    unsigned runs = 0;
    const bool throws = vf_choice(2, "inner throws");
    auto is = [](bool a, bool b) { vf_assert(TaskScope<T1>::in_scope() == a && TaskScope<T2>::in_scope() == b, "in scope exactly while a task of the scope is the current one"); };
    program([&](Body& r) {
        r.on<Trigger<M>, TaskScope<T1>, MainThread>().then([&] { ++runs; is(true, false); r.emit<Scope::INLINE>(mk<N>(0u)); is(true, false); });
        r.on<Trigger<N>, TaskScope<T2>, MainThread>().then([&] { ++runs; is(false, true); if (throws) throw 1; });
        r.on<Trigger<N>, MainThread>().then([&] { ++runs; is(false, false); });
        r.on<Trigger<N>, TaskScope<T1>, TaskScope<T2>, MainThread>().then([&] { ++runs; is(true, true); r.emit<Scope::INLINE>(mk<Step>(0)); is(true, true); });
        r.on<Trigger<Step>, TaskScope<T1>, MainThread>().then([&] { ++runs; is(true, false); });
        r.on<Startup, MainThread>().then([&] { is(false, false); r.emit<Scope::INLINE>(mk<M>(0u)); is(false, false); r.emit(mk<M>(0u)); r.powerplant.shutdown(); });
    });
    is(false, false);
    vf_assert(runs == 10, "all ran");
    vf_cover("task scope");
}
VF_HARNESS(task_scope_lock) {
    using L = TaskScope<T1>::Lock;
    const uint64_t a = vf_u64("a"), b = vf_u64("b");
    vf_assume(a != b);
    TaskScope<T1>::current_task_id = b;
    { L x(a); L y(std::move(x)); }
    vf_assert(TaskScope<T1>::current_task_id == a, "a moved scope is left once");
    TaskScope<T1>::current_task_id = b;
    { L x(a); L y(std::move(x)); TaskScope<T1>::current_task_id = b; L z(std::move(y)); (void) z; }
    vf_assert(TaskScope<T1>::current_task_id == a, "a moved scope is left once");
    TaskScope<T1>::current_task_id = b;
    { L x(a); { L y(b); TaskScope<T1>::current_task_id = b; L& z = (y = std::move(x)); vf_assert(&z == &y, "assignment gives the assigned scope"); } vf_assert(TaskScope<T1>::current_task_id == a, "an assigned scope restores what it took over"); TaskScope<T1>::current_task_id = b; }
    vf_assert(TaskScope<T1>::current_task_id == b, "a moved from scope restores nothing");
    vf_cover("scope lock");
}
