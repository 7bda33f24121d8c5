GEN_NOTE = ("Obligations over the real functions, for every value of the symbolic inputs and every path; ")
P("P03", "Task ordering: higher levels first, first come first served within one",
  "A thread which takes work from a pool takes the highest priority level that has any (REALTIME from 1000, HIGH from 750, NORMAL from 500, LOW from 250, IDLE below), and within a level the oldest submission. Every task submitted to a pool that is then run until it drains is run exactly once, never by the thread that submitted it unless it asked to be run inline. Task identifiers are never zero and grow with creation, and tasks compare by priority and then by age.",
  ["inputs", "histories"], "every integer priority and every order of submission of the tasks of the harness, including tasks submitted by running tasks",
  "The tests use the five named priorities and one order of submission; the level boundaries, negative and intermediate values and every mix of them are not reached.",
  ["src/threading/scheduler/Pool.cpp", "src/threading/scheduler/queue/Priority.hpp", "src/threading/scheduler/queue/MPSCQueue.hpp", "src/threading/ReactionTask.hpp"],
  [("priority_index", "src/threading/scheduler/queue/Priority.hpp"), ("try_dequeue_task", "src/threading/scheduler/Pool.cpp"), ("operator<", "src/threading/ReactionTask.hpp")],
  GEN_NOTE + "classification and comparison are proved for all values; execution order is proved for all priorities of three (thorough: four) tasks through the real Scheduler, Pool and queue on one thread: bounded in the number of tasks.")
P("P18", "Message hashing follows the xxHash specification",
  "The 32 and 64 bit hashes of a byte string equal what the published xxHash algorithm defines for that content, length and seed. Hashing reads exactly the given bytes, whatever their alignment or length.",
  ["inputs"], "every content, seed and length (memory safety: every length; equality: every content and seed at lengths 0 to 70 and 0 to 140, thorough 300 and 400)",
  "The tests compare a table of fixed strings; reads past the end and lane mistakes at other lengths are not observable there.",
  ["src/util/serialise/xxhash.cpp"], [("xxhash32", "src/util/serialise/xxhash.cpp"), ("xxhash64", "src/util/serialise/xxhash.cpp")],
  GEN_NOTE + "memory safety for every length by loop invariants; equality to a reference transcription of the specification bounded in length.")
P("P19", "Trace records encode what was recorded",
  "Every field of a trace record decodes, by the protocol buffer wire rules, to the number, text or nested record it was written from, with nested records framed by their exact length however large they grow. Interning a text gives equal texts the same non-zero number and different texts different ones, and reports a text as new exactly once.",
  ["inputs"], "every field number and value, every length of a nested record",
  "The tests decode one recorded trace with small values; large field values and records longer than their reserved length prefix never occur.",
  ["src/extension/trace/protobuf.cpp", "src/extension/trace/protobuf.hpp", "src/extension/trace/StringInterner.hpp"],
  [("varint encoding", "src/extension/trace/protobuf.cpp"), ("SubMessage", "src/extension/trace/protobuf.cpp"), ("StringInterner", "src/extension/trace/StringInterner.hpp")],
  GEN_NOTE + "string lengths and the number of interned texts are bounded, as the evidence says.")
BND = "other"
P("P04", "Pool queues lose, duplicate and reorder nothing",
  "Every item put into the queue a pool takes its tasks from comes out exactly once, whichever threads put it in, and the items one thread puts in come out in that thread's order. The consumer is told that the queue is empty only if there was a moment during its call with nothing to take, items still inside when the queue goes away are destroyed once, and its memory is given back.",
  ["schedules", "histories"], "every interleaving of concurrent producers with the consumer, wherever in the queue's blocks they meet",
  "Tests see the interleavings the machine happens to produce; the windows at block boundaries and between reservation and publication are a few instructions wide.",
  ["src/threading/scheduler/queue/MPSCQueue.hpp"], [("enqueue", "src/threading/scheduler/queue/MPSCQueue.hpp"), ("try_dequeue", "src/threading/scheduler/queue/MPSCQueue.hpp")],
  "Bounded: two producers, one consumer, up to four items, up to two preemptions at any shared access (all of them explored), at the start, in the middle and at the end of a block, plus sequential histories over several blocks. Sequential consistency assumed.", level=BND)
P("P05", "Group queues lose, duplicate and reorder nothing",
  "Every item put into the queue in which tasks wait for a group comes out exactly once, whichever threads put it in and take it out, and a consumer gets the items of one producer in that producer's order. A consumer is told that the queue is empty only if there was a moment during its call with nothing left for it to take, items still inside when the queue goes away are destroyed once, and its memory is given back.",
  ["schedules", "histories"], "every interleaving of concurrent producers and consumers, wherever in the queue's blocks they meet",
  "Tests see the interleavings the machine happens to produce; a consumer overtaken by others between two of its loads is outside their reach.",
  ["src/threading/scheduler/queue/TaskQueue.hpp"], [("enqueue", "src/threading/scheduler/queue/TaskQueue.hpp"), ("try_dequeue", "src/threading/scheduler/queue/TaskQueue.hpp")],
  "Bounded: up to two producers and two consumers, up to four items, up to two preemptions at any shared access (all of them explored), at the start, in the middle and at the end of a block, plus sequential histories over several blocks. Sequential consistency assumed.", level=BND)
P("P08", "A task runs as its reaction was declared",
  "While a task runs it is the current task, and whatever was current before is current again afterwards, even if the task fails with an exception, which never leaves it. Whether a task may run inline is decided by its reaction and only if that is neutral by the emission. The words of a reaction combine: it belongs to all their groups and has the highest of their priorities, and contradicting inline requests are refused.",
  ["inputs", "programs"], "every priority, inline mode and request, nesting of running tasks and failing callbacks",
  "The tests run a few combinations; failures inside nested inline tasks and the interaction of request and mode are not enumerated.",
  ["src/threading/ReactionTask.hpp", "src/threading/ReactionTask.cpp", "src/dsl/Parse.hpp", "src/dsl/fusion/InlineFusion.hpp", "src/dsl/fusion/GroupFusion.hpp", "src/dsl/fusion/PriorityFusion.hpp"],
  [("ReactionTask::run", "src/threading/ReactionTask.cpp"), ("ReactionTask constructor", "src/threading/ReactionTask.hpp"), ("fusion of words", "src/dsl/fusion")],
  GEN_NOTE + "the decision and the run of a task are proved for every priority, mode and request; nesting and fusion for the programs of the harnesses (bounded).")
P("P09", "Handles, Buffer, Single and Once control exactly their reaction",
  "A reaction runs for exactly those emissions at which it was bound and enabled; its handle reports that state, affects no other reaction and does nothing once the reaction is gone. A reaction declared with a buffer of n drops an emission exactly if n of its tasks are waiting or running. A reaction declared to run once runs once, however it is triggered, and reactions may be unbound or bound in the middle of an emission.",
  ["histories", "programs"], "every sequence of enabling, disabling, unbinding and emitting, including from the reactions themselves",
  "The tests follow one sequence per word; unbinding while the list of reactions is being walked and counts at the limit are not reached.",
  ["src/threading/ReactionHandle.cpp", "src/threading/Reaction.cpp", "src/dsl/word/Buffer.hpp", "src/dsl/word/Once.hpp", "src/dsl/operation/TypeBind.hpp", "src/util/TypeList.hpp"],
  [("ReactionHandle", "src/threading/ReactionHandle.cpp"), ("Buffer::precondition", "src/dsl/word/Buffer.hpp"), ("TypeBind", "src/dsl/operation/TypeBind.hpp"), ("TypeList", "src/util/TypeList.hpp")],
  "Bounded: every sequence of three (thorough: four) operations on a handle, two rounds of up to four emissions for the buffers.", level=BND)
P("P10", "Hooks of words run in order and every task is accounted for",
  "The hooks of the words of a reaction run in the order of the words: conditions first, of which the first that refuses ends the task, then scopes, the hooks before the run, the callback and, if it completed, the hooks after it; scopes are always left. Every task is reported in order as created, started and finished, or as blocked, or as missing its data, with the emission that caused it, and its statistics tell whether it failed.",
  ["programs", "inputs"], "every outcome of the conditions, failing and completing callbacks, with and without their data",
  "The tests check one order of hooks with everything succeeding and statistics of one program; refusals and failures in combination are not enumerated.",
  ["src/util/CallbackGenerator.hpp", "src/message/ReactionStatistics.cpp", "src/dsl/fusion/HookFusion.hpp", "src/dsl/fusion/PreconditionFusion.hpp", "src/dsl/fusion/ScopeFusion.hpp"],
  [("CallbackGenerator", "src/util/CallbackGenerator.hpp"), ("ReactionEvent", "src/message/ReactionStatistics.cpp")],
  "Bounded: the programs of the harnesses, for every outcome of their conditions and callbacks.", level=BND)
P("P11", "An emission runs each reaction once, with the data of that moment",
  "Every emission runs each enabled reaction bound to its type exactly once, in binding order, provided all data it asks for has been emitted, and passes the data as it was at the moment of the emission. Inline emissions run their reactions before they return and others do not, unless the reaction insists. Data emitted for initialisation arrives once, in order, after startup, and data lives as long as anything uses it and is destroyed once.",
  ["histories", "inputs", "programs"], "every sequence of emissions of the types of the program, every value, inline or not, nested or not",
  "The tests emit fixed sequences; interleavings of emissions of several types, nested emissions and shutdown in between are sampled at a few points.",
  ["src/PowerPlant.hpp", "src/dsl/word/emit/Local.hpp", "src/dsl/word/emit/Inline.hpp", "src/dsl/word/emit/Initialise.hpp", "src/dsl/store/DataStore.hpp", "src/dsl/store/ThreadStore.hpp", "src/dsl/operation/CacheGet.hpp", "src/util/CallbackGenerator.hpp"],
  [("emit", "src/PowerPlant.hpp"), ("Local::emit", "src/dsl/word/emit/Local.hpp"), ("Inline::emit", "src/dsl/word/emit/Inline.hpp"), ("CacheGet", "src/dsl/operation/CacheGet.hpp")],
  "Bounded: every sequence of up to three (thorough: four) emissions of two types, every value, and the programs of the other harnesses.", level=BND)
P("P12", "Last n gives the latest n messages, oldest first",
  "A reaction which asks for the last n messages of a type gets, at every emission, the n latest ones or all there have been, oldest first, none missing and none twice. Each reaction keeps its own history.",
  ["histories", "inputs"], "every value, histories shorter and longer than n",
  "The tests check one length and one history.",
  ["src/dsl/word/Last.hpp"], [("Last", "src/dsl/word/Last.hpp")],
  "Bounded: n of 1, 3 and 5 with 3, 6 and 4 messages of any value.", level=BND)
P("P13", "A task scope is in force exactly while its tasks are current",
  "A thread is in a task scope exactly while the task it is running belongs to that scope: running another task inline hides it, and the end of that task, also by an exception, brings it back. Moving the object which holds a scope ends the scope once.",
  ["programs", "inputs"], "every nesting of tasks in and out of two scopes, failing or not, every task identifier",
  "The tests nest scopes once, without failures.",
  ["src/dsl/word/TaskScope.hpp"], [("TaskScope::Lock", "src/dsl/word/TaskScope.hpp"), ("in_scope", "src/dsl/word/TaskScope.hpp")],
  GEN_NOTE + "the scope object for every pair of identifiers; nesting for the program of the harness (bounded).")
P("P17", "Serialised messages read back as they were written",
  "Reading back the serialised form of a value, or of a sequence of values, gives what was written; the form is the bytes of the value, item after item. Input which is not one value, or not a whole number of items, is refused with a length error and never read beyond its end. The identity of a type is the hash of its name, the same in every process.",
  ["inputs"], "every value and every length of input of the types instantiated",
  "The tests serialise a few values; wrong lengths are tried at one or two points.",
  ["src/util/serialise/Serialise.hpp"], [("Serialise", "src/util/serialise/Serialise.hpp")],
  GEN_NOTE + "single values of four types are proved for every value and length up to twice the size; sequences are bounded at four items.")
P("P24", "A file descriptor has one owner and is closed once",
  "An owned file descriptor is closed exactly once, when its owner is destroyed, closed or given another one, after its clean up has run exactly once; a descriptor which was released is never closed. Moving an owner, also onto itself, transfers the descriptor and loses nothing.",
  ["histories"], "every sequence of operations on several owners",
  "The tests follow a few sequences, with real descriptors, where closing twice goes unnoticed.",
  ["src/util/FileDescriptor.cpp", "src/util/FileDescriptor.hpp"], [("FileDescriptor", "src/util/FileDescriptor.cpp")],
  "Bounded: every sequence of three operations on three owners of two descriptors, one with a clean up.", level=BND)
P("P25", "Messages are logged by level",
  "A message logged by a reaction is published exactly if its level reaches the reactor's display threshold or its minimum threshold; outside of any reaction everything is published. Levels are ordered by severity under every comparison and convert to and from their names without loss.",
  ["inputs"], "every combination of message level and thresholds, every way of logging, every pair of levels",
  "The tests try one threshold at a time.",
  ["src/util/Logger.cpp", "src/util/Logger.hpp", "src/LogLevel.hpp"], [("Logger", "src/util/Logger.hpp"), ("LogLevel", "src/LogLevel.hpp")],
  GEN_NOTE + "all 7 x 7 x 7 combinations of levels through a running program. The text of messages is not covered. Logging through the free function with an unnamed level object is ambiguous in the API and not covered.")
