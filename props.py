"""The contracts of every property: driver files, the repository sources they are compiled with, harnesses and bounds."""
PROPS = {}
ONE = "the program of the harness, every value and choice"
Q2 = "three or four threads, two items, two preemptions at any shared access"
Q1 = "three or four threads, up to four items across a block boundary, one preemption at any shared access"
QS = "one thread, five runs of 1 to 130 operations"
def H(name, t=120, **k):
    return dict(name=name, t=t, **k)
SCHED = ["threading/Reaction.cpp", "threading/ReactionTask.cpp", "threading/ReactionHandle.cpp", "message/ReactionStatistics.cpp",
         "threading/scheduler/Scheduler.cpp", "threading/scheduler/Pool.cpp", "threading/scheduler/Group.cpp",
         "threading/scheduler/CombinedLock.cpp", "threading/scheduler/CountingLock.cpp", "threading/scheduler/Lock.cpp", "util/demangle.cpp", "clock.cpp", "util/usage_clock.cpp"]
PROPS["P19"] = dict(level="proof", units=[dict(driver="protobuf.cpp", tus=["extension/trace/protobuf.cpp"], harnesses=[
    H("pb_uint64"), H("pb_int64"), H("pb_uint32"), H("pb_int32"), H("pb_fixed64"),
    H("pb_string", bounded="string lengths 0, 1, 2, 5, 127, 128, 300"), H("pb_submessage"), H("pb_nested"),
    H("interner", bounded="three lookups of arbitrary keys"),
])])
PROPS["P18"] = dict(level="proof", units=[dict(driver="xxhash.cpp", tus=["util/serialise/xxhash.cpp"], harnesses=[
    H("xx32_safe"), H("xx64_safe", 240), H("xx32_eq", bounded="lengths 0 to 70, every content and seed"),
    H("xx64_eq", bounded="lengths 0 to 140, every content and seed"), H("xx_overloads"),
    H("xx32_eq_long", 600, tier="thorough", bounded="lengths 71 to 300"), H("xx64_eq_long", 600, tier="thorough", bounded="lengths 141 to 400"),
])])
PROPS["P03"] = dict(level="proof", units=[dict(driver="order.cpp", tus=SCHED, harnesses=[
    H("bucket"), H("task_order"), H("ids"), H("run_order_3", bounded="three tasks, every priority"), H("run_order_nested", bounded="one program, every priority"), H("run_order_4", 600, tier="thorough", bounded="four tasks, every priority"),
])])
PLANT = SCHED + ["PowerPlant.cpp", "Reactor.cpp"]
PROPS["P11"] = dict(level="other", units=[dict(driver="emit.cpp", tus=PLANT, harnesses=[
    H("sequence_3", bounded="sequences of up to three emissions, every value"), H("sequence_4", 800, tier="thorough", bounded="sequences of up to four emissions"),
    H("inline_modes", bounded=ONE), H("nested_inline", bounded=ONE), H("initialise", bounded=ONE), H("optional_and_scopes", bounded=ONE), H("lifetime", bounded=ONE)])])
PROPS["P09"] = dict(level="other", units=[dict(driver="reaction.cpp", tus=PLANT, harnesses=[
    H("handle_3", bounded="every sequence of three operations"), H("handle_4", 800, tier="thorough", bounded="every sequence of four operations"),
    H("single", bounded="two rounds of up to three emissions"), H("buffer2", 200, bounded="two rounds of up to four emissions"), H("once", bounded="two rounds of two emissions"),
    H("unbind_during_emission", bounded=ONE), H("dead_handle", bounded=ONE)])])
PROPS["P08"] = dict(level="proof", units=[dict(driver="reaction.cpp", tus=PLANT, harnesses=[H("current_task", bounded=ONE), H("inline_decision"), H("fusion", bounded=ONE)])])
PROPS["P10"] = dict(level="other", units=[dict(driver="reaction.cpp", tus=PLANT, harnesses=[H("hook_order", bounded=ONE), H("statistics", bounded=ONE)])])
PROPS["P12"] = dict(level="other", units=[dict(driver="reaction.cpp", tus=PLANT, harnesses=[H("last_1", bounded="3 messages of any value"), H("last_3", bounded="6 messages of any value"), H("last_5", bounded="4 messages of any value")])])
PROPS["P13"] = dict(level="proof", units=[dict(driver="reaction.cpp", tus=PLANT, harnesses=[H("task_scope", bounded=ONE), H("task_scope_lock")])])
PROPS["P17"] = dict(level="proof", units=[dict(driver="util.cpp", tus=PLANT + ["util/FileDescriptor.cpp", "util/Logger.cpp", "util/serialise/xxhash.cpp"], harnesses=[
    H("ser_plain"), H("ser_vector", bounded="up to four items of any value"), H("ser_structs", bounded="up to four items of any value"), H("ser_list", bounded="up to four items of any value"), H("ser_string", bounded="up to four characters"), H("ser_hash")])])
UTIL = PROPS["P17"]["units"][0]
PROPS["P24"] = dict(level="other", units=[dict(UTIL, harnesses=[H("file_descriptor", 300, bounded="every sequence of three operations on three owners")])])
PROPS["P25"] = dict(level="proof", units=[dict(UTIL, harnesses=[H("log_filter"), H("log_levels")])])
PROPS["P04"] = dict(level="other", units=[dict(driver="queue.cpp", tus=[], history=True, harnesses=[H("mpsc_small", bounded=Q2), H("mpsc_edge", bounded=Q2), H("mpsc_edge62", bounded=Q1), H("mpsc_sequential", bounded=QS)])])
PROPS["P05"] = dict(level="other", units=[dict(driver="queue.cpp", tus=[], history=True, harnesses=[H("mpmc_small", bounded=Q2), H("mpmc_edge", bounded=Q2), H("mpmc_edge62", bounded=Q1), H("mpmc_two", bounded=Q2), H("mpmc_sequential", bounded=QS)])])
GROUP = dict(driver="group.cpp", tus=PLANT, history=True)
PROPS["P01"] = dict(level="other", units=[dict(GROUP, harnesses=[H("group_fast2", 300), H("group_fast3", 300), H("group_mixed", 300), H("group_mixed21", 300), H("group_slow2", 300), H("group_mixed12", 300)])])
