// Ordering contracts: bucket classification, task order, and the order in which a pool runs what was submitted to it.
#include "vf.hpp"
#include "task.hpp"
#include "dsl/word/MainThread.hpp"
#include "threading/scheduler/Pool.hpp"
#include "threading/scheduler/Scheduler.hpp"
#include "threading/scheduler/queue/Priority.hpp"
using namespace NUClear;
using namespace NUClear::threading;
using namespace NUClear::threading::scheduler;
static unsigned level(int p) { return p >= 1000 ? 0 : p >= 750 ? 1 : p >= 500 ? 2 : p >= 250 ? 3 : 4; }
VF_HARNESS(bucket) {
    const int p = int(vf_u32("p")), q = int(vf_u32("q"));
    const size_t a = queue::priority_index(p), b = queue::priority_index(q);
    vf_assert(a < queue::PRIORITY_BUCKETS, "the bucket exists");
    vf_assert(a == level(p), "the bucket is the one of the priority's level");
    vf_assert(!(p >= q) || a <= b, "a higher priority is never in a later bucket");
    vf_cover("bucket");
}
VF_HARNESS(task_order) {
    const PoolDesc none;
    auto a = make_task(0, none, {}), b = make_task(0, none, {}), c = make_task(0, none, {});
    a->priority = int(vf_u32("pa")); b->priority = int(vf_u32("pb")); c->priority = int(vf_u32("pc"));
    a->id = vf_u64("ia"); b->id = vf_u64("ib"); c->id = vf_u64("ic");
    auto before = [](const ReactionTask& x, const ReactionTask& y) { return vf_or(x.priority > y.priority, vf_and(x.priority == y.priority, x.id < y.id)); };
    vf_assert((*a < *b) == before(*a, *b), "tasks order by priority, then by age");
    vf_assert(!(*a < *a), "irreflexive");
    vf_assert(!((*a < *b) && (*b < *a)), "asymmetric");
    vf_assert(!((*a < *b) && (*b < *c)) || (*a < *c), "transitive");
    vf_cover("task order");
}
VF_HARNESS(ids) {
    const PoolDesc none;
    auto a = make_task(0, none, {});
    auto b = make_task(0, none, {});
    vf_assert(a->id != 0 && b->id != 0, "a task id is never zero");
    vf_assert(a->id < b->id, "later tasks have higher ids");
}
// Everything submitted to a pool before it runs is run exactly once, by level, and in submission order within a level
template <int N> static void run_order() {
    Scheduler s(1);
    int prio[N], ran[N], n = 0, at[N];
    for (int i = 0; i < N; ++i) ran[i] = 0;
    for (int i = 0; i < N; ++i) {
        prio[i] = int(vf_u32("priority"));
        s.submit(make_task(prio[i], dsl::word::MainThread::descriptor(), [&, i](ReactionTask&) { ++ran[i]; at[i] = n++; }));
    }
    vf_assert(n == 0, "a task is not run by the thread that submits it");
    s.stop(false);
    s.start();
    for (int i = 0; i < N; ++i) vf_assert(ran[i] == 1, "every submitted task is run exactly once");
    for (int i = 0; i < N; ++i)
        for (int j = i + 1; j < N; ++j) vf_assert((at[i] < at[j]) == (level(prio[i]) <= level(prio[j])), "tasks run by level, first come first served within a level");
    vf_cover("ran");
}
VF_HARNESS(run_order_3) { run_order<3>(); }
VF_HARNESS(run_order_4) { run_order<4>(); }
// A task submitted while others are queued goes ahead of those of a lower level
VF_HARNESS(run_order_nested) {
    Scheduler s(1);
    int p = int(vf_u32("p")), q = int(vf_u32("q")), n = 0, at_b = -1, at_c = -1;
    auto main = dsl::word::MainThread::descriptor();
    s.submit(make_task(1000, main, [&](ReactionTask&) { s.submit(make_task(q, main, [&](ReactionTask&) { at_c = n++; })); }));
    s.submit(make_task(p, main, [&](ReactionTask&) { at_b = n++; s.stop(false); }));
    s.submit(make_task(0, main, [&](ReactionTask&) { s.stop(false); }));
    s.start();
    vf_assert(at_b >= 0, "b ran");
    vf_assert(at_c >= 0, "c ran");
    if (level(p) == 0) vf_assert(at_b < at_c, "first come first served");
    else if (level(q) < level(p)) { vf_assert(at_c < at_b, "a later task of a higher level goes first"); vf_cover("overtakes"); }
    else vf_assert(at_b < at_c, "a later task of the same or a lower level waits");
}
