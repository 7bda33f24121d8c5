// The lock free queues, used by concurrent threads
#include <memory>
#include <vector>
#include <utility>
#include "threading/scheduler/queue/MPSCQueue.hpp"
#include "threading/scheduler/queue/TaskQueue.hpp"
#include "vf.hpp"
using namespace NUClear::threading::scheduler::queue;
// items own something: duplicated or leaked items are noticed
static int alive;
struct Item {
    int id = -1;
    Item() = default;
    explicit Item(int i) : id(i) { ++alive; }
    Item(Item&& o) noexcept : id(std::exchange(o.id, -1)) {}
    Item& operator=(Item&& o) noexcept { drop(); id = std::exchange(o.id, -1); return *this; }
    ~Item() { drop(); }
    void drop() { if (id >= 0) --alive; id = -1; }
};
constexpr int MAX = 8;
struct Ghost {
    int enqueued = 0;                 // enqueues which have completed
    int taking = 0, taken = 0;        // dequeues in progress; which took something
    int seen[MAX * 4] = {};
    struct Call { bool active = false, empty = false; } call[4];
    void event() { for (auto& c : call) if (c.active && enqueued <= taken + taking - 1) c.empty = true; }
};
template <typename Q> struct World {
    Q q;
    Ghost g;
    int last[4][4];   // consumer x producer: the latest item it got
    World() { for (auto& a : last) for (int& b : a) b = -1; }
    void put(int id) { q.enqueue(Item(id)); ++g.enqueued; g.event(); }
    bool get(int consumer) {
        Item x;
        auto& c = g.call[consumer];
        c.active = true; c.empty = false; ++g.taking; g.event();
        const bool ok = q.try_dequeue(x);
        --g.taking; c.active = false;
        if (!ok) { vf_assert(c.empty, "nothing is reported only when there was a moment with nothing to take"); return false; }
        ++g.taken; g.event();
        vf_assert(x.id >= 0 && x.id < MAX * 4, "what is taken was put in");
        vf_assert(++g.seen[x.id] == 1, "nothing is taken twice");
        int& l = last[consumer][x.id / MAX];
        vf_assert(x.id % MAX > l, "a consumer gets the items of a producer in their order");
        l = x.id % MAX;
        return true;
    }
};
template <typename W> struct Role { W* w; int id, n; };
template <typename Q> static void concurrent(int producers, int each, int consumers, int takes, int preemptions, std::initializer_list<int> prefills) {
    using W = World<Q>;
    alive = 0;
    const int64_t before = vf_live();
    const int prefill = prefills.begin()[vf_choice(prefills.size(), "items which went through before")];
    {
        W w;
        for (int i = 0; i < prefill; ++i) { w.q.enqueue(Item(0)); Item x; vf_assert(w.q.try_dequeue(x) && x.id == 0, "alone, what is put in comes out"); }
        vf_preemptions(preemptions);
        Role<W> r[8];
        uint64_t t[8];
        int n = 0;
        for (int p = 0; p < producers; ++p, ++n) {
            r[n] = {&w, p, each};
            t[n] = vf_thread_start([](void* a) { auto& r = *static_cast<Role<W>*>(a); for (int i = 0; i < r.n; ++i) r.w->put(r.id * MAX + i); }, &r[n]);
        }
        for (int c = 0; c < consumers; ++c, ++n) {
            r[n] = {&w, c, takes};
            t[n] = vf_thread_start([](void* a) { auto& r = *static_cast<Role<W>*>(a); for (int i = 0; i < r.n; ++i) r.w->get(r.id); }, &r[n]);
        }
        for (int i = 0; i < n; ++i) vf_thread_join(t[i]);
        vf_preemptions(0);
        const int left = producers * each - w.g.taken;
        vf_assert(alive == left, "an item taken is owned by its taker alone");
        const bool rest = vf_choice(2, "drained");
        if (rest) {
            for (int i = 0; i < left; ++i) vf_assert(w.get(3), "nothing is lost");
            vf_assert(!w.get(3), "nothing else is left");
            for (int p = 0; p < producers; ++p) for (int i = 0; i < each; ++i) vf_assert(w.g.seen[p * MAX + i] == 1, "every item comes out once");
            vf_assert(alive == 0, "all items are given up");
        }
        if (left) vf_cover("some were left");
        if (w.g.taken) vf_cover("some were taken concurrently");
    }
    vf_assert(alive == 0, "items left in the queue are destroyed with it, once");
    vf_assert(vf_live() == before, "the queue gives back its memory");
}
VF_HARNESS(mpsc_small) { concurrent<MPSCQueue<Item>>(2, 1, 1, 2, 2, {0}); }
VF_HARNESS(mpsc_edge) { concurrent<MPSCQueue<Item>>(2, 1, 1, 2, 2, {63}); }
VF_HARNESS(mpsc_edge62) { concurrent<MPSCQueue<Item>>(2, 2, 1, 2, 1, {62}); }
VF_HARNESS(mpmc_small) { concurrent<TaskQueue<Item>>(1, 2, 2, 1, 2, {0}); }
VF_HARNESS(mpmc_edge) { concurrent<TaskQueue<Item>>(1, 2, 2, 1, 2, {63}); }
VF_HARNESS(mpmc_edge62) { concurrent<TaskQueue<Item>>(2, 2, 2, 2, 1, {62}); }
VF_HARNESS(mpmc_two) { concurrent<TaskQueue<Item>>(2, 1, 2, 1, 2, {0}); }
// one thread: any sequence of puts and takes, across blocks
template <typename Q> static void sequential() {
    alive = 0;
    const int64_t before = vf_live();
    {
        Q q;
        int in = 0, out = 0;
        const uint64_t steps = 5;
        const int amounts[4] = {1, 63, 64, 130};
        for (uint64_t s = 0; s < steps; ++s) {
            const int n = amounts[vf_choice(4, "amount")];
            if (s % 2 == 0) for (int i = 0; i < n; ++i) q.enqueue(Item(in++));
            else for (int i = 0; i < n; ++i) { Item x; const bool ok = q.try_dequeue(x); vf_assert(ok == (out < in), "something comes out exactly while there is something"); if (ok) { vf_assert(x.id == out, "first in, first out"); ++out; } }
            vf_assert(alive == in - out, "each item exists once");
        }
        vf_cover("sequence");
    }
    vf_assert(alive == 0, "items left in the queue are destroyed with it, once");
    vf_assert(vf_live() == before, "the queue gives back its memory");
}
VF_HARNESS(mpsc_sequential) { sequential<MPSCQueue<Item>>(); }
VF_HARNESS(mpmc_sequential) { sequential<TaskQueue<Item>>(); }
