// Building blocks for drivers: real tasks with a chosen priority, pool and groups.
#pragma once
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <vector>
#include "threading/Reaction.hpp"
#include "threading/ReactionTask.hpp"
#include "util/GroupDescriptor.hpp"
#include "util/Inline.hpp"
#include "util/ThreadPoolDescriptor.hpp"
using Groups = std::set<std::shared_ptr<const NUClear::util::GroupDescriptor>>;
using PoolDesc = std::shared_ptr<const NUClear::util::ThreadPoolDescriptor>;
inline std::unique_ptr<NUClear::threading::ReactionTask> make_task(int priority,
                                                                   const PoolDesc& pool,
                                                                   NUClear::threading::ReactionTask::TaskFunction cb,
                                                                   const Groups& groups = {},
                                                                   bool run_inline = false,
                                                                   NUClear::util::Inline inl = NUClear::util::Inline::NEUTRAL,
                                                                   const std::shared_ptr<NUClear::threading::Reaction>& parent = nullptr) {
    using NUClear::threading::ReactionTask;
    auto t = std::make_unique<ReactionTask>(
        parent, run_inline, [&](const ReactionTask&) { return priority; }, [&](const ReactionTask&) { return inl; },
        [&](const ReactionTask&) { return pool; }, [&](const ReactionTask&) { return groups; });
    t->callback = std::move(cb);
    return t;
}
