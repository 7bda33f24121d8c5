From cdb9063af14e3555b5b5dd8c44da09dd11cf9f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:13 +0000
Subject: [PATCH 1/6] fix: queues must not advance past a block that was filled
 after its write index was observed

A consumer that observed a short write index, was delayed while producers filled the block and linked a
successor, and then saw that successor would retire the block with items still in it. Those items were lost.
---
 src/threading/scheduler/queue/MPSCQueue.hpp | 6 +++++-
 src/threading/scheduler/queue/TaskQueue.hpp | 4 ++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/threading/scheduler/queue/MPSCQueue.hpp b/src/threading/scheduler/queue/MPSCQueue.hpp
index b4abbfc..a663365 100644
--- a/src/threading/scheduler/queue/MPSCQueue.hpp
+++ b/src/threading/scheduler/queue/MPSCQueue.hpp
@@ -171,7 +171,11 @@ namespace threading {
                                 return false;
                             }
                         }
-                        else {
+                        else if (published == BLOCK_SIZE) {
+                            // A successor exists and every slot of this block has been dequeued. When `published` is
+                            // short the block was filled and linked after we observed it, so we must look again
+                            // instead of advancing past the items which were added.
+                            //
                             // We're the sole consumer so advancing head_block is a plain store. The old
                             // block goes to the graveyard so any producer that still holds a pointer to
                             // it (e.g. one mid-way through link_next_block) doesn't touch freed memory.
diff --git a/src/threading/scheduler/queue/TaskQueue.hpp b/src/threading/scheduler/queue/TaskQueue.hpp
index e7a3472..662eda0 100644
--- a/src/threading/scheduler/queue/TaskQueue.hpp
+++ b/src/threading/scheduler/queue/TaskQueue.hpp
@@ -169,6 +169,10 @@ namespace threading {
                                         return false;
                                     }
                                 }
+                                else if (published < BLOCK_SIZE) {
+                                    // The block was filled and linked after `published` was observed, so it still
+                                    // holds undequeued items. Look again rather than advancing past them.
+                                }
                                 else if (head.compare_exchange_strong(block,
                                                                       next,
                                                                       std::memory_order_release,
-- 
2.43.0


From 9e4cf405e60102d2176b44cd77a889a56bbfb3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:22 +0000
Subject: [PATCH 2/6] fix: group tokens must account exactly for running and
 parked tasks

Draining an already counted waiter on a release that was not owed to it, undoing a phantom reservation as though
a task had finished, and taking a slow-path token from a stale count all started more tasks than the group's
concurrency allows. A lock which failed after being notified was also never notified again.

Every parked waiter now has exactly one reservation, made by itself or by the last slow-path waiter it stood aside
for, and only a reserved token starts a parked task.
---
 src/threading/scheduler/Group.cpp | 234 ++++++++++--------------------
 src/threading/scheduler/Group.hpp |  33 ++---
 2 files changed, 89 insertions(+), 178 deletions(-)

diff --git a/src/threading/scheduler/Group.cpp b/src/threading/scheduler/Group.cpp
index 12652f4..2856312 100644
--- a/src/threading/scheduler/Group.cpp
+++ b/src/threading/scheduler/Group.cpp
@@ -89,42 +89,18 @@ namespace threading {
                 }
             }
 
-            if (removed_from_queue) {
-                group.slow_pending.fetch_sub(1, std::memory_order_acq_rel);
-            }
-
             for (const auto& h : to_notify) {
                 h->notify();
             }
 
-            // A negative pre-release count means a fast-path waiter has ALREADY reserved a slot (its
-            // park_reconcile did the fetch_sub) and is parked waiting to be handed back in. It owns
-            // the slot we just freed and MUST be drained even when slow_pending > 0, otherwise a
-            // multi-group slow waiter that needs this slot to free up deadlocks against it. The
-            // drained waiter is normally already counted (slot true), making the drain token-neutral;
-            // if we reach a not-yet-counted head waiter it now consumes the freed slot and we owe its
-            // single decrement.
+            // A negative pre-release count means a fast-path waiter has already reserved the token we just returned.
             if (was_locked && prev_tokens < 0) {
-                const DrainResult drained = group.drain_one_to_pool();
-                if (drained.drained && drained.uncounted) {
-                    group.tokens.fetch_sub(1, std::memory_order_acq_rel);
-                }
-                return;
+                group.drain_one_to_pool();
             }
 
-            // Otherwise no committed fast waiter is owed this slot. Hand it to a single parked
-            // fast-path waiter, but only once any pending slow-path waiters have been given priority
-            // (slow_pending == 0). Draining exactly one waiter per freed token keeps the running
-            // count bounded by concurrency: a finishing/releasing task frees one slot and starts at
-            // most one parked task, which in turn frees its slot on completion and continues the
-            // cascade. If the drained waiter had not yet counted itself (it was mid publish/reconcile
-            // when an opportunistic drain reached it, i.e. the race from the lock-free bug) this
-            // drain owes its single token decrement; otherwise the drain is token-neutral.
-            if (was_locked && group.slow_pending.load(std::memory_order_acquire) == 0) {
-                const DrainResult drained = group.drain_one_to_pool();
-                if (drained.drained && drained.uncounted) {
-                    group.tokens.fetch_sub(1, std::memory_order_acq_rel);
-                }
+            // The last slow-path waiter to leave reserves tokens for the fast-path waiters which stood aside for it.
+            if (removed_from_queue && group.slow_pending.fetch_sub(1) == 1) {
+                group.reserve_deferred();
             }
         }
 
@@ -135,20 +111,26 @@ namespace threading {
 
             const std::lock_guard<std::mutex> lock(group.mutex);
 
-            int free = group.tokens.load(std::memory_order_relaxed);
+            // Every waiter ahead of us that does not have its token yet must be able to get one before we can take ours
+            int required = 0;
             for (const auto& h : group.queue) {
-                free -= h->locked ? 0 : 1;
-
-                if (free < 0) {
-                    return false;
-                }
+                required += h->locked ? 0 : 1;
                 if (h == handle) {
+                    break;
+                }
+            }
+
+            // Tokens are taken concurrently by the fast path, so only take one that is still there
+            int free = group.tokens.load();
+            while (free >= required) {
+                if (group.tokens.compare_exchange_weak(free, free - 1)) {
                     handle->locked = true;
-                    group.tokens.fetch_sub(1, std::memory_order_release);
                     return true;
                 }
             }
 
+            // We could not lock, so we need to be notified again when a token becomes available
+            handle->notified = false;
             return false;
         }
 
@@ -167,96 +149,40 @@ namespace threading {
         }
 
         std::unique_ptr<Lock> Group::try_acquire_running_lock() {
-            if (slow_pending.load(std::memory_order_acquire) > 0) {
-                return nullptr;
+            return take_token() ? make_running_lock() : nullptr;
+        }
+
+        bool Group::try_submit(std::unique_ptr<ReactionTask>&& task, Pool* pool, const bool& clear_idle) {
+            if (take_token()) {
+                pool->submit({std::move(task), make_running_lock()}, clear_idle);
+                return true;
+            }
+
+            park(std::move(task), pool, clear_idle);
+            return false;
+        }
+
+        bool Group::take_token() noexcept {
+            // Don't jump ahead of multi-group waiters
+            if (slow_pending.load() > 0) {
+                return false;
             }
             int expected = tokens.load(std::memory_order_acquire);
             while (expected > 0) {
                 if (tokens.compare_exchange_weak(expected, expected - 1, std::memory_order_acq_rel)) {
-                    if (slow_pending.load(std::memory_order_acquire) > 0) {
-                        // A multi-group waiter slipped in; restore the token and back off.
-                        release_token();
-                        return nullptr;
-                    }
-                    return make_running_lock();
-                }
-            }
-            return nullptr;
-        }
-
-        bool Group::try_submit(std::unique_ptr<ReactionTask>&& task, Pool* pool, const bool& clear_idle) {
-            // Don't jump ahead of multi-group waiters; if any exist, queue ourselves.
-            if (slow_pending.load(std::memory_order_acquire) == 0) {
-                int expected = tokens.load(std::memory_order_acquire);
-                bool done    = false;
-                while (!done && expected > 0) {
-                    if (tokens.compare_exchange_weak(expected, expected - 1, std::memory_order_acq_rel)) {
-                        if (slow_pending.load(std::memory_order_acquire) > 0) {
-                            // Restore the token and fall through to enqueueing.
-                            release_token();
-                            done = true;
-                        }
-                        else {
-                            pool->submit({std::move(task), make_running_lock()}, clear_idle);
-                            return true;
-                        }
-                    }
+                    return true;
                 }
             }
-
-            const std::shared_ptr<std::atomic<bool>> slot = park_publish(std::move(task), pool, clear_idle);
-            park_reconcile(slot);
             return false;
         }
 
-        std::shared_ptr<std::atomic<bool>> Group::park_publish(std::unique_ptr<ReactionTask>&& task,
-                                                               Pool* pool,
-                                                               const bool& clear_idle) noexcept {
-            auto slot                = std::make_shared<std::atomic<bool>>(false);
+        void Group::park(std::unique_ptr<ReactionTask>&& task, Pool* pool, const bool& clear_idle) noexcept {
             const std::size_t bucket = queue::priority_index(task->priority);
             ExternalWaiterRegistration external_waiter;
             if (pool != nullptr) {
                 external_waiter = pool->register_external_waiter();
             }
-            wait_buckets[bucket].enqueue(
-                WaitEntry{std::move(task), pool, clear_idle, slot, std::move(external_waiter)});
-            return slot;
-        }
-
-        void Group::park_reconcile(const std::shared_ptr<std::atomic<bool>>& slot) noexcept {
-            // Reserve a slot in the signed counter. This is done unconditionally so that a later
-            // release always sees prev < 0 and hands us back in: it is the no-lost-wakeup mechanism.
-            const int prev = tokens.fetch_sub(1, std::memory_order_acq_rel);
-
-            // A token was free, but a multi-group slow waiter is pending: the slow path has priority.
-            // Hand the token straight back and stay parked UNCOUNTED -- we deliberately do NOT claim
-            // the arbiter slot. A later drain then owes our single decrement (paired with our eventual
-            // RunningLock release) and runs us once the slow path has cleared. This is what stops a
-            // single-group fast submit from jumping ahead of an older multi-group waiter (see
-            // dsl/SyncMulti); leaving the slot unclaimed keeps the drain's accounting exact.
-            if (prev > 0 && slow_pending.load(std::memory_order_acquire) > 0) {
-                release_token();
-                return;
-            }
-
-            // Claim responsibility for this waiter's single token decrement. Whoever flips the arbiter
-            // from false to true owns the decrement; if an opportunistic drainer already flipped it, it
-            // has both started us running and accounted the token it kept, so our fetch_sub above is a
-            // phantom -- undo it and leave.
-            if (slot->exchange(true, std::memory_order_acq_rel)) {
-                release_token();
-                return;
-            }
-
-            if (prev > 0) {
-                // A token was free (and no slow waiter took priority), so hand it to a parked waiter
-                // (possibly us). If that waiter had not yet counted itself this drain owes its single
-                // decrement.
-                const DrainResult drained = drain_one_to_pool();
-                if (drained.drained && drained.uncounted) {
-                    tokens.fetch_sub(1, std::memory_order_acq_rel);
-                }
-            }
+            wait_buckets[bucket].enqueue(WaitEntry{std::move(task), pool, clear_idle, std::move(external_waiter)});
 
             // The destination pool's "pending idle" latch was set by register_external_waiter
             // above; that path also notifies one waiting worker so a pool that is parked on its
@@ -264,41 +190,43 @@ namespace threading {
             // and Pool::get_task for the full mechanism (it preserves the OLD scheduler's invariant
             // that a parked waiter always triggered exactly one idle fire on its destination pool,
             // even when the worker is preempted past the natural idle window).
-        }
 
-        void Group::release_token() noexcept {
-            const int prev = tokens.fetch_add(1, std::memory_order_acq_rel);
-
-            // A negative pre-release count means at least one fast-path waiter has ALREADY reserved a
-            // slot (its park_reconcile did the fetch_sub) and is parked waiting to be handed back in.
-            // That waiter committed before any slow waiter and now owns the slot we just freed, so it
-            // MUST be drained even when slow_pending > 0: stranding it would deadlock a multi-group
-            // slow waiter that needs this very slot to become free again. The drained waiter is
-            // normally already counted (its slot is true), so the drain is token-neutral; if we
-            // instead reach a not-yet-counted head waiter it now consumes the freed slot, so we owe
-            // its single decrement.
-            if (prev < 0) {
-                const DrainResult drained = drain_one_to_pool();
-                if (drained.drained && drained.uncounted) {
-                    tokens.fetch_sub(1, std::memory_order_acq_rel);
-                }
+            if (slow_pending.load() == 0) {
+                reserve_token();
                 return;
             }
 
-            // No committed fast waiter is owed this slot. Give any slow-path waiter first chance.
-            if (slow_pending.load(std::memory_order_acquire) > 0) {
-                notify_slow_path();
-                return;
+            // The slow path has priority, so leave our reservation to the last slow-path waiter to leave the queue.
+            // It may already have left without seeing us, in which case we have to do it.
+            deferred.fetch_add(1);
+            if (slow_pending.load() == 0) {
+                reserve_deferred();
+            }
+        }
+
+        void Group::reserve_token() noexcept {
+            // Every parked waiter has exactly one token reserved for it by decrementing the signed counter. If a token
+            // was free it is handed to a parked waiter immediately, otherwise the count is now negative and a later
+            // release sees that and hands its token over.
+            if (tokens.fetch_sub(1, std::memory_order_acq_rel) > 0) {
+                drain_one_to_pool();
+            }
+        }
+
+        void Group::reserve_deferred() noexcept {
+            for (int n = deferred.exchange(0); n > 0; --n) {
+                reserve_token();
             }
+        }
 
-            // Otherwise hand the one freed slot to a single parked fast-path waiter. Draining exactly
-            // one per freed token bounds the running count by concurrency and lets each completing
-            // task continue the cascade. If the drained waiter had not yet counted itself this drain
-            // owes its single token decrement (it consumes the slot we just freed); for an
-            // already-counted waiter the drain is token-neutral.
-            const DrainResult drained = drain_one_to_pool();
-            if (drained.drained && drained.uncounted) {
-                tokens.fetch_sub(1, std::memory_order_acq_rel);
+        void Group::release_token() noexcept {
+            // A negative pre-release count means that a parked fast-path waiter has already reserved this token. It
+            // committed before any slow-path waiter, so it goes first even when there are slow-path waiters pending.
+            if (tokens.fetch_add(1) < 0) {
+                drain_one_to_pool();
+            }
+            else if (slow_pending.load() > 0) {
+                notify_slow_path();
             }
         }
 
@@ -320,23 +248,15 @@ namespace threading {
             }
         }
 
-        Group::DrainResult Group::drain_one_to_pool() noexcept {
+        void Group::drain_one_to_pool() noexcept {
+            // The caller holds a token that was reserved for a parked waiter after that waiter was enqueued, so there
+            // is always one to find. Other threads can enqueue and drain while we scan, so keep going until we get it.
             WaitEntry entry;
-            for (std::size_t bucket = 0; bucket < queue::PRIORITY_BUCKETS; ++bucket) {
-                if (wait_buckets[bucket].try_dequeue(entry)) {
-                    Pool* pool = entry.pool;
-                    // Claim the waiter's single token decrement. If the slot was still false the
-                    // waiter has not counted itself yet (it is mid publish/reconcile, or it handed
-                    // its token back to the slow path), so this drain is responsible for the -1 and
-                    // the waiter's park_reconcile() will observe the slot and skip. If it was already
-                    // true the waiter is counted and this drain is token-neutral.
-                    const bool uncounted = !entry.slot->exchange(true, std::memory_order_acq_rel);
-                    auto running_lock    = make_running_lock();
-                    pool->submit({std::move(entry.task), std::move(running_lock)}, entry.clear_idle, /*force=*/true);
-                    return {true, uncounted};
-                }
+            for (std::size_t bucket = 0; !wait_buckets[bucket].try_dequeue(entry);) {
+                bucket = (bucket + 1) % queue::PRIORITY_BUCKETS;
             }
-            return {};
+            Pool* pool = entry.pool;
+            pool->submit({std::move(entry.task), make_running_lock()}, entry.clear_idle, /*force=*/true);
         }
 
         std::unique_ptr<Lock> Group::make_running_lock() {
@@ -349,7 +269,7 @@ namespace threading {
 
             auto handle = std::make_shared<LockHandle>(task_id, priority, notify);
 
-            slow_pending.fetch_add(1, std::memory_order_acq_rel);
+            slow_pending.fetch_add(1);
 
             const std::lock_guard<std::mutex> lock(mutex);
             queue.insert(std::lower_bound(queue.begin(), queue.end(), handle), handle);
diff --git a/src/threading/scheduler/Group.hpp b/src/threading/scheduler/Group.hpp
index 56ca94c..d81d177 100644
--- a/src/threading/scheduler/Group.hpp
+++ b/src/threading/scheduler/Group.hpp
@@ -63,26 +63,10 @@ namespace threading {
                 /// while this WaitEntry is reachable.
                 Pool* pool{nullptr};
                 bool clear_idle{false};
-                /// Single-use arbiter shared between this waiter's own park_reconcile() and any
-                /// pre-paying drainer (the GroupLock opportunistic drain). Both attempt to flip it
-                /// from false to true; whoever wins is the party that performs the waiter's single
-                /// token decrement, and the loser skips its own adjustment. This makes the
-                /// keep/hand-back decision exact regardless of how many other waiters are parked,
-                /// instead of inferring it from the (unreliable) emptiness of the wait buckets.
-                std::shared_ptr<std::atomic<bool>> slot;
                 /// Keeps the destination pool's workers alive until this entry is drained or destroyed.
                 ExternalWaiterRegistration external_waiter;
             };
 
-            struct DrainResult {
-                bool drained{false};
-                /// True when the drained waiter had not yet accounted its own token (its arbiter slot
-                /// was still false and this drain claimed it). The caller is then responsible for the
-                /// waiter's single token decrement; for an already-counted waiter the drain is
-                /// token-neutral.
-                bool uncounted{false};
-            };
-
             /**
              * A lock handle holds the shared state between the group object and the lock objects.
              * It holds if the lock should currently be locked, as well as ordering which locks should be locked first.
@@ -255,19 +239,26 @@ namespace threading {
             const std::shared_ptr<const util::GroupDescriptor> descriptor;
 
         private:
-            std::shared_ptr<std::atomic<bool>> park_publish(std::unique_ptr<ReactionTask>&& task,
-                                                            Pool* pool,
-                                                            const bool& clear_idle) noexcept;
-            void park_reconcile(const std::shared_ptr<std::atomic<bool>>& slot) noexcept;
+            /// Take a free token for the fast path, unless there are slow-path waiters which have priority
+            bool take_token() noexcept;
+            /// Queue a fast-path waiter and reserve a token for it
+            void park(std::unique_ptr<ReactionTask>&& task, Pool* pool, const bool& clear_idle) noexcept;
+            /// Reserve a token for one parked waiter
+            void reserve_token() noexcept;
+            /// Reserve a token for each parked waiter which stood aside for the slow path
+            void reserve_deferred() noexcept;
             void release_token() noexcept;
             void notify_slow_path() noexcept;
-            DrainResult drain_one_to_pool() noexcept;
+            /// Hand a token reserved for a parked waiter to the highest priority waiter and submit it to its pool
+            void drain_one_to_pool() noexcept;
             std::unique_ptr<Lock> make_running_lock();
 
             /// Available group tokens (signed when waiters are queued on the fast path)
             std::atomic<int> tokens;
             /// Number of unsatisfied slow-path waiters
             std::atomic<int> slow_pending{0};
+            /// Number of parked fast-path waiters which have no token reserved yet as they stood aside for the slow path
+            std::atomic<int> deferred{0};
             /// Lock-free wait queues keyed by priority
             std::array<queue::TaskQueue<WaitEntry>, queue::PRIORITY_BUCKETS> wait_buckets;
 
-- 
2.43.0


From 9565ebbd653bb5e43d1376d331ccc6c20895f1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:01 +0000
Subject: [PATCH 3/6] fix: trace sub-messages which outgrow the space reserved
 for their length must make room for it

---
 src/extension/trace/protobuf.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/extension/trace/protobuf.cpp b/src/extension/trace/protobuf.cpp
index 017b54e..65433c6 100644
--- a/src/extension/trace/protobuf.cpp
+++ b/src/extension/trace/protobuf.cpp
@@ -148,7 +148,16 @@ namespace extension {
             SubMessage::~SubMessage() {
                 // Update the length of the SubMessage
                 auto size = uint32_t(data.size() - start - varint_bytes);
-                auto it   = std::next(data.begin(), ptrdiff_t(start));
+
+                // If the size does not fit in the space that was reserved for it, make enough room for it
+                size_t required = varint_bytes;
+                while (required < 5 && (uint64_t(size) >> (7 * required)) != 0) {
+                    ++required;
+                }
+                data.insert(std::next(data.begin(), ptrdiff_t(start)), required - varint_bytes, 0);
+                varint_bytes = required;
+
+                auto it = std::next(data.begin(), ptrdiff_t(start));
                 encode::redundant_varint(size, varint_bytes, it);
             }
 
-- 
2.43.0


From 504344ec601b55c3b809835b1f162cfffe25cb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:31 +0000
Subject: [PATCH 4/6] fix: reactions may be bound and unbound while the type
 they trigger on is being emitted

---
 src/dsl/operation/TypeBind.hpp | 27 +++++++++++++----------
 src/dsl/word/emit/Inline.hpp   |  4 +++-
 src/dsl/word/emit/Local.hpp    |  4 +++-
 src/threading/Reaction.cpp     |  3 +++
 src/util/TypeList.hpp          | 40 +++++++++++++++++++++++++++++-----
 5 files changed, 58 insertions(+), 20 deletions(-)

diff --git a/src/dsl/operation/TypeBind.hpp b/src/dsl/operation/TypeBind.hpp
index 72b6b89..f6b4e61 100644
--- a/src/dsl/operation/TypeBind.hpp
+++ b/src/dsl/operation/TypeBind.hpp
@@ -24,6 +24,8 @@
 #define NUCLEAR_DSL_OPERATION_TYPE_BIND_HPP
 
 #include <algorithm>
+#include <memory>
+#include <vector>
 
 #include "../store/TypeCallbackStore.hpp"
 
@@ -68,21 +70,22 @@ namespace dsl {
 
                 // Our unbinder to remove this reaction
                 reaction->unbinders.emplace_back([](const threading::Reaction& r) {
-                    auto& vec = store::TypeCallbackStore<DataType>::get();
-
-                    auto it = std::find_if(
-                        std::begin(vec),
-                        std::end(vec),
-                        [&r](const std::shared_ptr<threading::Reaction>& item) { return item->id == r.id; });
-
-                    // If the item is in the list erase the item
-                    if (it != std::end(vec)) {
-                        vec.erase(it);
-                    }
+                    store::TypeCallbackStore<DataType>::update([&r](std::vector<std::shared_ptr<threading::Reaction>>& vec) {
+                        auto it = std::find_if(
+                            std::begin(vec),
+                            std::end(vec),
+                            [&r](const std::shared_ptr<threading::Reaction>& item) { return item->id == r.id; });
+
+                        // If the item is in the list erase the item
+                        if (it != std::end(vec)) {
+                            vec.erase(it);
+                        }
+                    });
                 });
 
                 // Create our reaction and store it in the TypeCallbackStore
-                store::TypeCallbackStore<DataType>::get().push_back(reaction);
+                store::TypeCallbackStore<DataType>::update(
+                    [&reaction](std::vector<std::shared_ptr<threading::Reaction>>& vec) { vec.push_back(reaction); });
             }
         };
 
diff --git a/src/dsl/word/emit/Inline.hpp b/src/dsl/word/emit/Inline.hpp
index c20234b..1014a76 100644
--- a/src/dsl/word/emit/Inline.hpp
+++ b/src/dsl/word/emit/Inline.hpp
@@ -58,7 +58,9 @@ namespace dsl {
                 static void emit(PowerPlant& powerplant, std::shared_ptr<DataType> data) {
 
                     // Run all our reactions that are interested
-                    for (auto& reaction : store::TypeCallbackStore<DataType>::get()) {
+                    // Reactions may be bound and unbound while we do this, so run those which were bound at the start
+                    const auto reactions = store::TypeCallbackStore<DataType>::get();
+                    for (const auto& reaction : *reactions) {
                         // Set our thread local store data each time (as during inline it can be overwritten)
                         store::ThreadStore<std::shared_ptr<DataType>>::value = &data;
                         powerplant.submit(reaction->get_task(true));
diff --git a/src/dsl/word/emit/Local.hpp b/src/dsl/word/emit/Local.hpp
index 1aa8400..25185ad 100644
--- a/src/dsl/word/emit/Local.hpp
+++ b/src/dsl/word/emit/Local.hpp
@@ -53,7 +53,9 @@ namespace dsl {
                 static void emit(PowerPlant& powerplant, std::shared_ptr<DataType> data) {
 
                     // Run all our reactions that are interested
-                    for (auto& reaction : store::TypeCallbackStore<DataType>::get()) {
+                    // Reactions may be bound and unbound while we do this, so run those which were bound at the start
+                    const auto reactions = store::TypeCallbackStore<DataType>::get();
+                    for (const auto& reaction : *reactions) {
 
                         // Set our thread local store data
                         store::ThreadStore<std::shared_ptr<DataType>>::value = &data;
diff --git a/src/threading/Reaction.cpp b/src/threading/Reaction.cpp
index 75e6ba2..0a57d16 100644
--- a/src/threading/Reaction.cpp
+++ b/src/threading/Reaction.cpp
@@ -51,6 +51,9 @@ namespace threading {
     }
 
     void Reaction::unbind() {
+        // Anything still holding this reaction must not create new tasks from it
+        enabled = false;
+
         // Unbind
         for (const auto& u : unbinders) {
             u(*this);
diff --git a/src/util/TypeList.hpp b/src/util/TypeList.hpp
index 8473c55..b79ede2 100644
--- a/src/util/TypeList.hpp
+++ b/src/util/TypeList.hpp
@@ -25,6 +25,7 @@
 
 #include <memory>
 #include <mutex>
+#include <utility>
 #include <vector>
 
 namespace NUClear {
@@ -42,23 +43,50 @@ namespace util {
         TypeList operator=(TypeList&& /*other*/) noexcept = delete;
 
     private:
-        /// The data variable where the data is stored for this map key
-        static std::vector<Value> data;  // NOLINT(cppcoreguidelines-avoid-non-const-global-variables)
+        /// The data variable where the data is stored for this map key, it is replaced rather than modified
+        static std::shared_ptr<const std::vector<Value>>
+            data;  // NOLINT(cppcoreguidelines-avoid-non-const-global-variables)
+        /// A mutex to protect the data variable
+        static std::mutex data_mutex;  // NOLINT(cppcoreguidelines-avoid-non-const-global-variables)
 
     public:
         /**
          * Gets the list that is stored in this type location.
          *
-         * @return A reference to the vector stored in this location
+         * The list returned does not change, so it can be iterated over while the stored list is updated.
+         *
+         * @return The list that is currently stored in this location
+         */
+        static std::shared_ptr<const std::vector<Value>> get() {
+            const std::lock_guard<std::mutex> lock(data_mutex);
+            return data != nullptr ? data : std::make_shared<const std::vector<Value>>();
+        }
+
+        /**
+         * Updates the list that is stored in this type location.
+         *
+         * @param function a function which is given a copy of the list to modify, which then becomes the stored list
          */
-        static std::vector<Value>& get() {
-            return data;
+        template <typename Function>
+        static void update(Function&& function) {
+            // Declared before the lock so that anything which is removed is destroyed after the mutex is released
+            std::shared_ptr<const std::vector<Value>> previous;
+            const std::lock_guard<std::mutex> lock(data_mutex);
+            auto list = data != nullptr ? std::make_shared<std::vector<Value>>(*data)
+                                        : std::make_shared<std::vector<Value>>();
+            std::forward<Function>(function)(*list);
+            previous = std::exchange(data, std::move(list));
         }
     };
 
     /// Initialize our type list data
     template <typename MapID, typename Key, typename Value>
-    std::vector<Value> TypeList<MapID, Key, Value>::data;  // NOLINT(cppcoreguidelines-avoid-non-const-global-variables)
+    std::shared_ptr<const std::vector<Value>>
+        TypeList<MapID, Key, Value>::data;  // NOLINT(cppcoreguidelines-avoid-non-const-global-variables)
+
+    /// Initialize our type list mutex
+    template <typename MapID, typename Key, typename Value>
+    std::mutex TypeList<MapID, Key, Value>::data_mutex;  // NOLINT(cppcoreguidelines-avoid-non-const-global-variables)
 
 }  // namespace util
 }  // namespace NUClear
-- 
2.43.0


From ec47b2965c1dbbeb420ddcdf8a15093fdd3cb642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:00 +0000
Subject: [PATCH 5/6] fix: TaskScope lock assignment returns the lock

---
 src/dsl/word/TaskScope.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dsl/word/TaskScope.hpp b/src/dsl/word/TaskScope.hpp
index b73e825..47903df 100644
--- a/src/dsl/word/TaskScope.hpp
+++ b/src/dsl/word/TaskScope.hpp
@@ -59,6 +59,7 @@ namespace dsl {
                         valid  = std::exchange(other.valid, false);
                         old_id = other.old_id;
                     }
+                    return *this;
                 }
                 ~Lock() {  // Only restore if this lock hasn't been invalidated
                     current_task_id = valid ? old_id : current_task_id;
-- 
2.43.0


From 7fff2dca53df1f8a4c53041de310e3943d73916f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:00 +0000
Subject: [PATCH 6/6] fix: TaskQueue must not report empty while it holds items

---
 src/threading/scheduler/queue/TaskQueue.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/threading/scheduler/queue/TaskQueue.hpp b/src/threading/scheduler/queue/TaskQueue.hpp
index 662eda0..0c4394b 100644
--- a/src/threading/scheduler/queue/TaskQueue.hpp
+++ b/src/threading/scheduler/queue/TaskQueue.hpp
@@ -149,9 +149,11 @@ namespace threading {
                     while (true) {
                         Block* block = head.load(std::memory_order_acquire);
 
+                        // The read index must be observed before the write index. The other way round a producer and another
+                        // consumer may get past `published` in between, and a queue which holds items would look empty.
+                        std::size_t       read_index = block->read.load(std::memory_order_acquire);
                         const std::size_t published =
                             std::min(block->write.load(std::memory_order_acquire), BLOCK_SIZE);
-                        std::size_t read_index = block->read.load(std::memory_order_relaxed);
 
                         if (read_index >= published) {
                             if (block->consumed.load(std::memory_order_acquire) < published) {
-- 
2.43.0

