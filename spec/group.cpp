// Groups: tasks submitted through the fast path and locks taken through the slow path, by concurrent threads
#include <sched.h>
#include "plant.hpp"
#include "task.hpp"
#include "threading/scheduler/CombinedLock.hpp"
#include "threading/scheduler/CountingLock.hpp"
#include "threading/scheduler/Group.hpp"
#include "threading/scheduler/Pool.hpp"
#include "threading/scheduler/Scheduler.hpp"
using namespace NUClear::threading; using ReactionTask = NUClear::threading::ReactionTask;
using namespace NUClear::threading::scheduler;
static int running, done, K;
// one group, one pool without threads of its own: the threads of the harness take and run its tasks
struct World {
    Scheduler sch{1};
    PoolDesc pd = std::make_shared<util::ThreadPoolDescriptor>("P", 4, false);
    std::shared_ptr<scheduler::Pool> pool;
    std::shared_ptr<scheduler::Group> g;
    explicit World(int k) {
        running = done = 0; K = k;
        pool = std::make_shared<scheduler::Pool>(sch, pd);
        g = std::make_shared<scheduler::Group>(std::make_shared<util::GroupDescriptor>("G", K));
    }
    std::unique_ptr<ReactionTask> mk(int prio) { return make_task(prio, pd, [](ReactionTask&) {}); }
    static void body() {
        vf_assert(++running <= K, "never more tasks of a group running than its concurrency");
        sched_yield();
        --running; ++done;
    }
    // takes one task and runs it if its group lets it
    bool run_one() {
        scheduler::Pool::Task t;
        if (!pool->try_dequeue_task(t)) return false;
        if (t.lock && !t.lock->lock()) { pool->submit(std::move(t), false, true); return false; }
        body();
        t.lock.reset();
        t.task.reset();
        return true;
    }
};
struct Fast { World* w; int prio; int runs; };
struct Slow { World* w; int id, prio; std::unique_ptr<Lock> l; int note; };
static void attempt(Slow& s) {
    if (!s.l || !s.note) return;
    s.note = 0;
    if (s.l->lock()) { World::body(); s.l.reset(); }
}
static void groups(int fast, int slow, int preemptions, bool sameprio = true) {
    const int k = 1 + int(vf_choice(2, "concurrency"));
    {
        World w(k);
        Fast f[4]; Slow s[4];
        uint64_t t[8];
        int n = 0;
        vf_preemptions(preemptions);
        for (int i = 0; i < fast; ++i, ++n) {
            f[i] = {&w, sameprio ? 500 : 500 + 300 * i, 1};
            t[n] = vf_thread_start([](void* a) { auto& f = *static_cast<Fast*>(a); f.w->g->try_submit(f.w->mk(f.prio), f.w->pool.get(), false); f.w->run_one(); f.w->run_one(); }, &f[i]);
        }
        for (int i = 0; i < slow; ++i, ++n) {
            s[i].w = &w; s[i].id = 1000 + i; s[i].prio = 500; s[i].note = 1;
            t[n] = vf_thread_start([](void* a) { auto& s = *static_cast<Slow*>(a); s.l = s.w->g->lock(s.id, s.prio, [&s] { s.note = 1; }); attempt(s); attempt(s); }, &s[i]);
        }
        for (int i = 0; i < n; ++i) vf_thread_join(t[i]);
        vf_preemptions(0);
        if (done < fast + slow) vf_cover("some waited");
        // whatever was left waiting has been handed over, or will be by what runs now
        for (int r = 0; r < 3 * (fast + slow); ++r) {
            for (int i = 0; i < slow; ++i) attempt(s[i]);
            w.run_one();
        }
        vf_assert(done == fast + slow, "everything submitted to a group runs once, no wake up is lost");
        vf_assert(running == 0, "nothing runs any more");
        vf_assert(w.pool->external_waiters == 0, "no pool waits for the group any more");
        // the group is as it was: it admits exactly its concurrency again
        std::unique_ptr<Lock> l[3];
        for (int i = 0; i < K; ++i) vf_assert((l[i] = w.g->try_acquire_running_lock()) != nullptr, "all tokens are back");
        vf_assert(w.g->try_acquire_running_lock() == nullptr, "no token was made up");
    }
    vf_cover("done");
}
VF_HARNESS(group_fast2) { groups(2, 0, 2); }
VF_HARNESS(group_fast3) { groups(3, 0, 1); }
VF_HARNESS(group_mixed) { groups(1, 1, 2); }
VF_HARNESS(group_mixed21) { groups(2, 1, 1); }
VF_HARNESS(group_slow2) { groups(0, 2, 2); }
VF_HARNESS(group_mixed12) { groups(1, 2, 1); }
