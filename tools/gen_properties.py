#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property list)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=hook)))

NOTEST = ("None of the 8 tests that run here starts a thread or moves one item; the other test programs "
          "run one schedule the OS happens to pick, with fixed sizes. ")

p("P01", "A link delivers every item exactly once, in order, unaltered",
  "Whatever mixture of send styles the producing side uses (copying push, in-place allocate and send, automatically released allocation, range allocation, iterator insert) and of receive styles the consuming side uses (pop, automatically released pop, range pop, peek followed by recycle), the sequence of items received on a link is exactly the sequence of items sent: none lost, none duplicated, none reordered, none altered. "
  "This holds for plain values, small objects kept in place and large objects kept out of place, for every link capacity from one item up, and neither an allocation that is given back unsent nor a send that no allocation precedes nor an insert of an empty range delivers anything.",
  ["schedules", "inputs", "histories", "configurations"],
  "every interleaving of producer and consumer at memory-access granularity, every mix of operations, every capacity >= 1, every item storage class",
  NOTEST + "Losing or duplicating an item needs a particular wrap-around position and a preemption between two memory accesses of the ring buffer.",
  ["raftinc/fifo.hpp", "raftinc/ringbufferheap.tcc", "raftinc/ringbufferheap_lessabstract.tcc", "src/pointer.cpp", "raftinc/autorelease.tcc"],
  [("write slot first, then advance the write position", "raftinc/ringbufferheap.tcc: local_push, send, send_range"),
   ("copy out first, then advance the read position", "raftinc/ringbufferheap.tcc: local_pop, local_recycle"),
   ("position updated before wrap count", "src/pointer.cpp: inc, incBy")],
  [("read/write position and wrap counts", "where the next item is read / written", "raftinc/database.tcc, raftinc/pointer.hpp")],
  ["FIFO::push/pop/peek/recycle/allocate/send as seen by the calling kernel"])

p("P02", "A signal arrives with exactly the item it was sent with",
  "A signal given together with an item is delivered together with that item and with no other item, and an item sent without a signal is delivered with none, for every send style and every receive style that reports signals, including looking at a window of several items. "
  "For an iterator insert the signal accompanies the last item of the range; a signal given for a range allocated at once arrives with exactly one item of that range.",
  ["schedules", "inputs", "histories", "configurations"],
  "every interleaving, every placement of signals in the stream, every capacity, every wrap-around position, with and without buffer growth",
  NOTEST + "No test checks a signal after the buffer has wrapped or grown.",
  ["raftinc/ringbufferheap.tcc", "raftinc/ringbufferheap_lessabstract.tcc", "raftinc/autorelease.tcc", "raftinc/bufferdata.tcc", "raftinc/signal.hpp", "src/signal.cpp"],
  [("signal slot shares the item's index and is written before the position advances", "raftinc/ringbufferheap.tcc"),
   ("signal array copied when the buffer grows", "raftinc/bufferdata.tcc: copyFrom")],
  [("signal array", "one signal per slot", "raftinc/database.tcc")])

p("P03", "A bounded link never exceeds its capacity and reports safe occupancy",
  "A link of fixed capacity never holds more than that many items; a producer that finds it full waits until the consumer frees a slot. "
  "The item count seen by the consuming side never exceeds the number of items it can take without waiting, the free space seen by the producing side never exceeds the number of items it can send without waiting, and an occupancy read by any other thread lies between zero and the capacity; when both sides are quiescent the reports are exact.",
  ["schedules", "histories", "configurations"],
  "every interleaving of producer, consumer and observers, every capacity >= 1",
  NOTEST + "An over-report exists only for the few accesses between the updates of a position and its wrap count.",
  ["raftinc/ringbufferheap_abstract.tcc", "raftinc/ringbufferheap.tcc", "src/pointer.cpp", "src/allocate.cpp"],
  [("size from positions and wrap counts", "raftinc/ringbufferheap_abstract.tcc: size, space_avail, capacity"),
   ("writers wait while no space", "raftinc/ringbufferheap.tcc: local_push, local_allocate, local_allocate_n"),
   ("fixed link size honoured", "src/allocate.cpp: allocate; src/dynalloc.cpp: mon_func")])

p("P04", "Growing a live link is invisible to its producer and consumer",
  "While a link is in use its buffer may be replaced by a larger one at any moment, any number of times; producer and consumer observe the same items with the same signals in the same order as without any growth, no reference handed to a kernel that it has not yet released is invalidated, a close signalled during growth is not lost, and afterwards the capacity is the requested one. "
  "A growth request is not put off by an end that has released or given back everything it was handed: once both ends are idle it takes effect. "
  "A growth request on a link that is shutting down returns without effect and without harm.",
  ["schedules", "histories", "configurations"],
  "every interleaving of producer, consumer, closer and resizing thread, every operation mix, repeated growth, every item storage class",
  NOTEST + "Growth is triggered by a monitor thread on a 3 ms timer and only after sustained back-pressure, so tests hardly ever overlap it with an operation.",
  ["raftinc/datamanager.tcc", "raftinc/bufferdata.tcc", "raftinc/ringbufferheap.tcc", "raftinc/ringbufferheap_abstract.tcc", "raftinc/fifoabstract.tcc", "src/dynalloc.cpp"],
  [("growth waits until no operation is inside the buffer", "raftinc/datamanager.tcc: resize, enterBuffer, exitBuffer"),
   ("contents, positions, signals and validity copied", "raftinc/bufferdata.tcc: copyFrom")],
  [("resizing flag and per-side activity flags", "mutual exclusion between operations and growth", "raftinc/datamanager.tcc, raftinc/threadaccess.hpp")])

p("P05", "A closed link is drained completely before the consumer is told it is closed",
  "When the sending side finishes, every item already sent remains receivable in order, and only after the last one has been taken does a receive operation report that the port is closed; asking for a window larger than what is left on a closed link reports that too few items are left, and leaves the remaining items receivable. "
  "Skipping items on a closed, drained link returns instead of waiting for ever, and a link never appears closed while its producer is still active.",
  ["schedules", "histories"],
  "every interleaving of the last sends, the close and the receiving operations, every receive style, with and without concurrent growth",
  NOTEST + "The window is the few accesses between the consumer seeing an empty link and seeing it closed.",
  ["raftinc/ringbufferheap.tcc", "raftinc/ringbufferheap_abstract.tcc", "src/schedule.cpp", "raftinc/portexception.hpp"],
  [("emptiness rechecked after the closed test", "raftinc/ringbufferheap.tcc: local_pop, local_peek, local_peek_range, local_recycle"),
   ("outputs closed when a kernel stops or its inputs are closed and empty", "src/schedule.cpp: kernelRun, invalidateOutputPorts")])

p("P06", "A started application terminates: every kernel drains its inputs and stops",
  "If every source eventually stops and every kernel consumes its inputs, executing the application returns within a bounded number of steps after scheduling disturbances end, for chains, fan-outs and fan-ins, any link capacities, with or without buffer growth. "
  "When it returns every kernel has been run to completion, every item sent to an any-port kernel has been consumed, and all runtime threads have been joined; a kernel that asks to stop ends the streams it produces.",
  ["schedules", "programs", "configurations", "fault_sequences"],
  "every schedule that is eventually fair, stalled or slow threads, delayed thread starts, late or early timers, failing try-locks, every topology family generated",
  NOTEST + "A lost shutdown shows only under rare schedules and then as a hang.",
  ["raftinc/map.hpp", "src/simpleschedule.cpp", "src/schedule.cpp", "src/dynalloc.cpp", "src/basicparallel.cpp", "raftinc/kernelkeeper.tcc"],
  [("shutdown sequence scheduler, allocator, monitor", "raftinc/map.hpp: exe"),
   ("completion recheck", "src/schedule.cpp: kernelRun"),
   ("join loop", "src/simpleschedule.cpp: start")])

p("P07", "The result of a stream graph does not depend on the schedule",
  "For an application whose kernels are deterministic and read their ports in a fixed order, the sequence of items arriving at each sink equals the one computed by a sequential evaluation of the same graph, for every schedule, every link capacity and with or without buffer growth. "
  "For kernels that merge streams in arrival order, each sink receives the right multiset of items and each merged stream keeps its own order.",
  ["schedules", "programs", "inputs", "configurations"],
  "randomly generated acyclic graphs (chains, fan-out, fan-in, diamonds), item counts, capacities and schedules",
  NOTEST + "No test compares a whole graph with a reference under more than one schedule.",
  ["raftinc/map.hpp", "src/map.cpp", "src/mapbase.cpp", "src/allocate.cpp", "src/graphtools.cpp", "src/schedule.cpp", "src/simpleschedule.cpp", "raftinc/ringbufferheap.tcc"],
  [("each link gets its own buffer between exactly its two ports", "src/allocate.cpp: allocate, initialize; src/graphtools.cpp: BFS"),
   ("one thread per kernel", "src/simpleschedule.cpp")])

p("P08", "Objects sent through the library live and die exactly once",
  "Every object that enters a link is destroyed exactly once after it has been received, discarded or recycled, and is never destroyed or reused while a kernel still holds a reference it has not released; an allocation given back unsent destroys exactly the object constructed for it and nothing else. "
  "An execution that drains its streams leaves no object, buffer or kernel created by the library behind and never touches freed or foreign memory.",
  ["schedules", "histories", "configurations"],
  "every interleaving, every send/receive style, all storage classes, with and without buffer growth",
  NOTEST + "No test counts destructions, and a use after free needs a growth or a hand-over at the wrong access.",
  ["raftinc/ringbufferheap.tcc", "raftinc/bufferdata.tcc", "raftinc/datamanager.tcc", "src/schedule.cpp", "src/allocate.cpp", "src/mapbase.cpp", "raftinc/autorelease.tcc"],
  [("destroy on pop and recycle", "raftinc/ringbufferheap.tcc"),
   ("deferred release of large objects", "src/schedule.cpp: fifo_gc"),
   ("buffers released by the allocator, internal kernels by the map", "src/allocate.cpp, src/mapbase.cpp")])

p("P09", "Looking ahead does not consume, and windows show the true upcoming items",
  "Looking at the head of a link, or at a window of the next n items, shows exactly the next items the consumer would receive, in order, across wrap-around, and consumes none of them; looking again after releasing shows the same items until they are recycled, and recycling k items removes exactly the next k. "
  "The references stay valid and unchanged by other threads until released, and a request for n upcoming items waits until n are present; in the same way a range allocation of n hands out n distinct free slots and sends them in that order.",
  ["schedules", "histories", "configurations"],
  "every interleaving of producer and consumer, every window size up to the capacity, every wrap-around position, concurrent growth",
  NOTEST + "Existing programs peek a constant number of items from a large buffer that does not wrap.",
  ["raftinc/fifo.hpp", "raftinc/ringbufferheap.tcc", "raftinc/autorelease.tcc"],
  [("window indexes modulo capacity from the read position", "raftinc/autorelease.tcc"),
   ("activity flag held from peek to release", "raftinc/ringbufferheap.tcc: local_peek, local_peek_range, unpeek")])

p("P10", "Large objects forwarded by reference arrive intact and are released once",
  "A kernel that looks at a large object on an input, sends that same object on to one of its outputs and recycles it passes the object on without copying; the next kernel sees exactly that object, intact, and it is destroyed exactly once, after its last consumer is done. "
  "Objects recycled without being forwarded are destroyed once, and forwarding some objects while dropping others in the same activation, in any order, affects neither.",
  ["schedules", "programs", "histories"],
  "every interleaving of a chain of forwarding kernels, every pattern of forwarded and dropped objects per activation",
  NOTEST + "The release decision depends on the addresses of all objects handled in one activation and on the downstream kernel's progress.",
  ["raftinc/ringbufferheap.tcc", "src/schedule.cpp", "src/simpleschedule.cpp"],
  [("forwarded and recycled object sets compared after each activation", "src/schedule.cpp: fifo_gc"),
   ("looked-at set consulted on push", "raftinc/ringbufferheap.tcc: local_push (external)")])

p("P11", "Kernels run only when they may, one activation at a time, never after stopping",
  "A kernel with inputs is activated only when data is waiting on at least one input, or on all of them if it asked for that; activations of one kernel never overlap, and once a kernel has asked to stop, or has finished, it is never activated again. "
  "Kernels without inputs keep being activated until they ask to stop.",
  ["schedules", "programs", "fault_sequences"],
  "every interleaving, stalls, timer disturbances, any number of inputs, both activation policies",
  NOTEST + "Nothing in the tests observes what was on the inputs at the moment of an activation.",
  ["src/schedule.cpp", "src/simpleschedule.cpp", "raftinc/rafttypes.hpp", "raftinc/kernel.hpp"],
  [("activation test", "src/schedule.cpp: kernelHasInputData, kernelRun"),
   ("finished flag", "src/simpleschedule.cpp: simple_run")])

p("P12", "Splitting and joining streams loses and duplicates nothing",
  "A split kernel hands every incoming item to exactly one of its outputs, a join kernel passes every item from each of its inputs to its output, with the signals the items carry, and the order within each branch is the order in which the items came. "
  "This holds for every item type that is kept in place, every number of branches, every link capacity and however slow individual branches are.",
  ["schedules", "programs", "configurations", "fault_sequences"],
  "every interleaving, stalled branches, capacities from one item up, one to many branches",
  NOTEST + "Losing items needs an output that is fuller than the waiting input.",
  ["raftinc/split.tcc", "raftinc/join.tcc", "raftinc/splitmethod.hpp", "src/roundrobin.cpp", "raftinc/parallelk.hpp"],
  [("range send and matching recycle", "raftinc/split.tcc: run; raftinc/splitmethod.hpp: send"),
   ("port selection", "src/roundrobin.cpp: select_fifo")])

p("P13", "Composed topologies behave like the graph the operators describe",
  "Chains written with the stream operator, splits over all outputs of a kernel, joins onto all inputs of a kernel and duplication of a chain in front of a multi-input kernel produce exactly the described graph: each port is connected once, branches are joined in the order of the ports, the right number of kernel copies exists, and each copy carries the configuration of its original. "
  "Executing such an application delivers at each sink exactly what the described graph computes, and the returned source and destination lists name the kernels of that graph.",
  ["programs", "schedules", "configurations"],
  "randomly composed operator expressions over kernels with 1..4 ports, under random schedules",
  NOTEST + "The programs cover a handful of fixed expressions and mostly only check that they end.",
  ["src/map.cpp", "src/kpair.cpp", "raftinc/kpair.hpp", "src/mapbase.cpp", "raftinc/kernel_pair_t.hpp", "src/kernel_pair_t.cpp", "raftinc/kernel.hpp"],
  [("group expansion", "src/map.cpp: inline_cont, inline_split, inline_join, inline_dup_join")])

p("P14", "Standard source and sink kernels transfer every element",
  "Reading a container into a stream, writing a stream into a container, printing a stream, generating n random values and running a user function as a kernel transfer exactly the elements involved, completely and in stream order: the container or text at the end equals the input passed through the kernels in between, a printer writes each item of each of its ports once followed by its delimiter, and a generator asked for n values sends exactly n, and a sum or product kernel sends, for every set of heads of its input streams, exactly their sum or product.",
  ["schedules", "inputs", "configurations"],
  "every interleaving, container sizes including empty and one, capacities, several ports",
  NOTEST + "The tests that use these kernels check one schedule and mostly only termination.",
  ["raftinc/readeach.tcc", "raftinc/writeeach.tcc", "raftinc/print.tcc", "raftinc/random.tcc", "raftinc/lambdak.tcc", "raftinc/raftmath.tcc"],
  [("per-activation transfer of what is available", "raftinc/writeeach.tcc: run; raftinc/print.tcc: run")])

p("P15", "File reading covers the file and search finds every occurrence once",
  "Reading a file into chunks delivers the bytes of the file: each chunk carries its true file position, its length and its number, and chunks on one output come in the order of their numbers; the chunks of all outputs together, taken in the order of their numbers, continue each other with exactly the requested overlap, each brings new bytes, and they cover the file to its end, where the stream ends (with a single output the end-of-file signal comes with exactly the last chunk). "
  "A search over the chunks with an overlap of one less than the length of the term reports every occurrence of the term exactly once at its true position, for every file size including an empty file and sizes that are a multiple of the chunk size, and a failing or short read never makes the application report data that is not in the file.",
  ["inputs", "schedules", "fault_sequences", "configurations"],
  "every file size and content, chunk size, overlap, schedule, and short or failing reads",
  NOTEST + "The one file test needs submodules that are not here and reads one file with one chunk size.",
  ["raftinc/fileio.tcc", "raftinc/filechunk.tcc", "raftinc/chunkiterator.tcc", "raftinc/search.tcc"],
  [("seek back by the overlap, record the position, read a chunk", "raftinc/fileio.tcc: run"),
   ("overlapping search within a chunk", "raftinc/search.tcc: run")])

p("P16", "A kernel bound to a core first runs after its thread is bound to that core",
  "A kernel assigned to a core is run only by a thread that was bound to exactly that core before the kernel's first activation, however late or early that thread starts; kernels without an assignment are not bound.",
  ["schedules", "configurations", "fault_sequences"],
  "every interleaving of thread start-up and scheduler set-up, delayed thread starts, every mix of assigned and unassigned kernels",
  NOTEST + "Which of the new thread and its creator runs first is decided by the OS; the binding call is not observable in the tests.",
  ["src/simpleschedule.cpp", "raftinc/simpleschedule.hpp", "raftinc/kernelmanip.tcc", "raftinc/raftmanip.hpp", "src/schedule.cpp"],
  [("core stored before the thread starts, bound before the run loop", "src/simpleschedule.cpp: handleSchedule, simple_run")])

p("P17", "Applications are independent of one another",
  "Executing several applications one after the other, or at the same time from different threads, in one process gives each the result it gives alone: items, signals, closing and core binding of one never reach another, and an application can be built, executed and destroyed any number of times, each time as a new map with new kernels.",
  ["schedules", "programs", "histories"],
  "every interleaving of two or three concurrently or successively executed applications",
  NOTEST + "Every test executes one application in its own process.",
  ["raftinc/map.hpp", "src/mapbase.cpp", "src/basicparallel.cpp", "src/simpleschedule.cpp", "src/allocate.cpp", "src/kernel.cpp", "raftinc/select.tcc"],
  [("all run-time state is per application object", "raftinc/map.hpp: exe")])

p("P18", "Running out of memory or threads is never silent",
  "If an allocation or the creation of a thread fails while an application is being built or executed, the process ends with a diagnostic or an error reaches the caller; the application never completes as if nothing had happened with items missing, altered or duplicated, never reads or writes memory it does not own, and never hangs without having reported.",
  ["fault_sequences", "schedules"],
  "every allocation or thread-creation failure point while an application is built and executed, at any scheduling point, in every kind of program (user kernels, splits and joins, shipped kernels, selections, arrays, operator statements)",
  NOTEST + "No test makes an allocation or a thread creation fail.",
  ["raftinc/bufferdata.tcc", "raftinc/map.hpp", "src/simpleschedule.cpp", "src/dynalloc.cpp", "src/allocate.cpp"],
  [("failed buffer allocations reported and the process ended", "raftinc/bufferdata.tcc constructors"),
   ("exceptions from allocation and thread creation propagate", "raftinc/map.hpp: exe")])

p("P19", "Selecting an input returns one with data whenever one has data",
  "Selecting among several inputs returns one of the named inputs together with a count that does not exceed the number of items that can be taken from it at once without waiting; the count is positive whenever data was waiting on any named input throughout the call, and is zero only if each of them was seen empty.",
  ["schedules", "inputs", "configurations"],
  "every interleaving of producers with the selecting kernel, every set of named ports, every random choice",
  NOTEST + "The one test that uses it cannot be built here and checks a sum under one schedule.",
  ["raftinc/select.tcc", "raftinc/common.hpp", "src/port.cpp"],
  [("shuffled scan over the named ports", "raftinc/select.tcc: in")])

p("P20", "An array handed out for parallel work is covered exactly once, in place",
  "Distributing an existing array over n outputs gives each output a contiguous part; the parts are disjoint, together they are the whole array, and the elements are seen in place and in order together with the position at which the part starts, so that what downstream kernels write through them is found in the array when execution returns. "
  "The array itself is neither freed nor moved. This holds for element types that links keep in place.",
  ["schedules", "inputs", "configurations"],
  "every array length, every number of outputs, every interleaving of the downstream kernels",
  NOTEST + "The one program that uses it prints 10 elements over one output.",
  ["raftinc/foreach.tcc", "raftinc/port.hpp", "raftinc/bufferdata.tcc", "src/allocate.cpp", "raftinc/autorelease.tcc"],
  [("slice computation", "raftinc/port.hpp: addInPlacePorts"),
   ("buffer over existing memory, born full", "raftinc/bufferdata.tcc: Data(ptr, cap, start)")])

p("P21", "Malformed graphs are rejected before anything runs",
  "Linking ports of different types, naming a port that does not exist, leaving a port of a linked kernel unconnected, connecting a port twice, naming none of several ports, naming more ports of a kernel than a link has ends, linking to a kernel that has no port on that side, joining another number of streams than the join has inputs, or declaring a port twice raises the documented exception, while linking or at the latest at the start of the execution, whatever way the links are written, one by one or within a longer statement of the stream operators. No kernel of the graph is ever run, an application executed in the same process meanwhile is not disturbed, the graph without the defect is accepted and each of its kernels runs, and a link that was rejected leaves the links already made, with their capacities, as they were: completed properly afterwards, the graph runs. A running kernel that asks for a port it does not have is told so, and the type it is told of a port it has is the one the port was declared with.",
  ["programs", "schedules"],
  "every malformed graph, at any moment of another application's execution",
  "The tests cover one malformed graph of each kind and start nothing beside it; that no kernel runs is a statement about all threads started before the exception.",
  ["src/mapbase.cpp", "src/map.cpp", "src/kernel.cpp", "src/port.cpp", "raftinc/mapbase.hpp", "raftinc/port.hpp", "raftinc/portexception.hpp"],
  [("link and edge checks", "raftinc/mapbase.hpp: link, join; src/map.cpp: checkEdges; src/kernel.cpp: allConnected")])

p("P22", "Statistics and filter helpers compute the documented functions",
  "Mean, deviation, scaling and filter helpers return the documented mathematical function of their input.",
  ["inputs"],
  "every input container",
  "No test calls them.",
  ["raftinc/stat.tcc", "raftinc/filter.tcc", "raftinc/streamingstat.tcc"],
  [("formulas", "raftinc/stat.tcc, raftinc/filter.tcc")])

p("P23", "The graph description asked for matches the application and does not disturb it",
  "Every kernel made by the thread that builds an application has an id of its own. The description of a graph (raft::make_dot::run, at any moment before, during or after the execution, and the file named by GEN_DOT when the execution starts) is one directed graph in which every kernel, copies made by the operators included, appears exactly once and every link exactly once, from the id of the kernel that sends to the id of the kernel that receives, labelled with the names of both ports, the type of its items and whether its order matters, each kernel with the name of its class; its size is the one given by GEN_DOT_WIDTH and GEN_DOT_HEIGHT. The application runs and ends with the same result as without the description, also if the file cannot be opened or written or the stream written to raises an exception; with GEN_DOT_EXIT=1 the process ends successfully after the description is complete, without any kernel having run.",
  ["programs", "schedules", "fault_sequences"],
  "every acyclic application, every moment at which the description is asked for, every I/O error while it is written",
  "No test asks for a description; it is taken under locks shared with the scheduler and the thread that grows links, and written to a file that may fail at any write.",
  ["src/makedot.cpp", "raftinc/makedot.hpp", "src/graphtools.cpp", "src/kernel.cpp", "raftinc/map.hpp"],
  [("vertex and edge lists", "src/makedot.cpp: generate_vertex_list, generate_edge_list"), ("graph walk", "src/graphtools.cpp: __BFS"), ("kernel ids", "src/kernel.cpp: kernel::kernel"), ("GEN_DOT", "raftinc/map.hpp: exe")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
