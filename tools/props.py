def P(id, title, statement, over, qtext, why, files, mech, note, observe=None, technique=None, **kw):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        a["observe_at"] = observe
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
         "why_tests_cant": why, "anchors": a, "level_note": note}
    if technique:
        d["technique"] = technique
    d.update(kw)
    return d


BUF = "iceoryx_hoofs/concurrent/buffer/include/iox/detail/"
POPO = "iceoryx_posh/include/iceoryx_posh/internal/popo/"
MEPOO = "iceoryx_posh/source/mepoo/"
SC = "Sequentially consistent interleavings up to the stated preemption bound plus happens-before race detection; other weak-memory effects are out of scope."

PROPS = [
    P("C01", "A memory chunk never has two owners and is reclaimed exactly once",
      "While any handle to a chunk is alive, the chunk is not handed out again, its content is not touched by anybody else, and no access to it races with its reuse. "
      "When the last handle goes away the chunk returns to its pool exactly once, so that after all handles are gone every pool again offers exactly its configured number of chunks, all disjoint.",
      ["schedules", "histories"], "all interleavings of concurrent allocate / copy / hand-over / release on shared pools, and all allocate/release histories incl. exhaustion",
      "the tests allocate and release from one thread, or stress a few random interleavings", 
      [MEPOO + "mem_pool.cpp", MEPOO + "memory_manager.cpp", MEPOO + "shared_chunk.cpp", BUF + "mpmc_loffli.hpp"],
      [("lock-free free list", "iceoryx_hoofs/concurrent/buffer/source/mpmc_loffli.cpp"), ("reference counting", MEPOO + "shared_chunk.cpp")],
      "All schedules of 2-3 threads up to the preemption bound on the real pool, free list and reference counting. " + SC),
    P("C02", "Single-producer queues deliver every element once, in order, untorn",
      "For one producer and one consumer the overflowing queue and the plain fifo behave like a bounded FIFO: every pushed element leaves exactly once, by pop or (overflowing queue only) as the reported oldest overflow element, in push order and never torn. "
      "The overflowing queue keeps its newest elements up to its capacity and evicts only when full; the fifo refuses a push only when full; both report empty only when empty.",
      ["schedules"], "all interleavings of pushes and pops on one queue, from empty, wrapped and full states",
      "stress tests sample interleavings; overflow races need the producer to be stopped between two particular steps",
      [BUF + "spsc_sofi.hpp", BUF + "spsc_sofi.inl", BUF + "spsc_fifo.hpp", BUF + "spsc_fifo.inl"],
      [("overflow push", BUF + "spsc_sofi.inl"), ("pop with retry", BUF + "spsc_sofi.inl")],
      "Every history of the explored schedules is checked for linearizability against a reference bounded FIFO. " + SC),
    P("C03", "Multi-producer queues lose, duplicate, tear or reorder nothing",
      "For any number of concurrent producers and consumers the multi-producer queues deliver every accepted element exactly once (by pop, as reported overflow victim, or as element removed by shrinking), untorn, in FIFO order; "
      "a push evicts or is refused only when the queue is full, a pop fails only when it is empty. Changing the capacity concurrently neither loses nor duplicates elements or slots: afterwards exactly the set capacity is usable.",
      ["schedules"], "all interleavings of pushes, refusing pushes, pops and capacity changes by two or three threads, from empty, wrapped and full states",
      "stress tests sample interleavings and cannot see missing synchronisation on strongly ordered hardware",
      [BUF + "mpmc_lockfree_queue.hpp", BUF + "mpmc_lockfree_queue/mpmc_index_queue.inl", BUF + "mpmc_resizeable_lockfree_queue.hpp"],
      [("index queue", BUF + "mpmc_lockfree_queue/mpmc_index_queue.inl"), ("resizing", BUF + "mpmc_lockfree_queue/mpmc_resizeable_lockfree_queue.inl")],
      "Linearizability of every explored history plus happens-before races on the element slots. " + SC),
    P("C04", "Subscribers receive published samples intact, in order, newest kept",
      "A subscriber receives the samples of each publisher it is connected to at most once, in publication order and with exactly the published content, and a received sample does not change while it is held. "
      "Samples are dropped only when the subscriber's queue is full, always the oldest first, and a drop is indicated exactly when one happened. Nothing is delivered after the subscription ended; everything published while subscribed and not overflowed is delivered. "
      "Loaning fails only if the pool is exhausted or the loan limit is reached, and no chunk leaks.",
      ["schedules", "histories", "configurations"], "all interleavings of publishers, subscribers and (un)subscription; all loan/send/release/take/release histories up to a depth",
      "integration tests run one interleaving of a few samples", 
      [POPO + "building_blocks/chunk_sender.inl", POPO + "building_blocks/chunk_distributor.inl", POPO + "building_blocks/chunk_receiver.inl", POPO + "building_blocks/chunk_queue_pusher.inl", POPO + "building_blocks/chunk_queue_popper.inl", POPO + "used_chunk_list.inl",
       "iceoryx_posh/source/popo/ports/publisher_port_user.cpp", "iceoryx_posh/source/popo/ports/subscriber_port_user.cpp"],
      [("delivery", POPO + "building_blocks/chunk_distributor.inl"), ("chunk ownership of ports", POPO + "used_chunk_list.inl"), ("reuse of the previous chunk", POPO + "building_blocks/chunk_sender.inl")],
      "Real port objects on a real memory manager, connected through the CaPro messages RouDi uses; 1-2 publishers, 1-2 subscribers, 2-3 samples. " + SC),
    P("C05", "A waiting publisher loses nothing and resumes when room is made",
      "If publisher and subscriber agreed on blocking, every sample is delivered exactly once and in order to each blocking subscriber; the publisher continues as soon as the subscriber takes a sample or its subscription ends, "
      "subscribers that discard do not hold it up, and the other subscribers still get each sample once.",
      ["schedules"], "all interleavings of blocked publishers, slow and leaving subscribers",
      "tests use one timing per policy combination",
      [POPO + "building_blocks/chunk_distributor.inl", POPO + "building_blocks/variant_queue.inl"],
      [("waiting for the consumer", POPO + "building_blocks/chunk_distributor.inl")],
      "Livelock and deadlock detection under a fair treatment of polling loops (a poller is rescheduled when something changed). " + SC),
    P("C06", "Late joiners get exactly the requested history, without gap or duplicate",
      "A subscriber that joins gets the last min(requested, history capacity, sent so far) samples in order, followed by all later ones: no sample published around the moment of joining is missed or delivered twice. "
      "Samples sent while not offered are in the history. The history holds at most its capacity and releases what it drops.",
      ["schedules", "histories", "configurations"], "all interleavings of sending and joining for all small history settings; all offer/subscribe/send/take histories up to a depth",
      "tests join when nothing is in flight",
      [POPO + "building_blocks/chunk_distributor.inl", "iceoryx_posh/source/popo/ports/publisher_port_roudi.cpp"],
      [("history", POPO + "building_blocks/chunk_distributor.inl")],
      "Exhaustive schedules up to the bound plus exhaustive sequential histories against a reference model. " + SC),
    P("C07", "Discovery connects exactly the matching, offered and subscribed ports",
      "For every history of creating, offering, stopping, subscribing, unsubscribing and destroying ports (and of killing processes), once RouDi has run discovery exactly the pairs with the same service, compatible queue policies and history requirements, an offering publisher and a subscribing subscriber are connected: a publisher's samples reach those subscribers and nobody else. "
      "Port creation never hands out a port in use, is refused with the documented error at the limit and works again after destruction; a second server of a service is refused. "
      "The service registry, as seen by findService and by the published registry topic, lists exactly what is offered, also after one of several providers disappears and after a temporary lack of chunks. Ports of other processes are not affected, and concurrent offer/subscribe/destroy converge to the same result.",
      ["histories", "schedules", "configurations"], "all port-operation histories up to a depth over a few services, processes and policy combinations; all interleavings of port users with the discovery loop",
      "tests sample a handful of port orders; wrong matches or stale registry entries need particular sequences of offers, removals and discovery runs",
      ["iceoryx_posh/source/roudi/port_manager.cpp", "iceoryx_posh/source/roudi/port_pool.cpp", "iceoryx_posh/source/roudi/service_registry.cpp", "iceoryx_posh/source/popo/ports/"],
      [("discovery loop and matching", "iceoryx_posh/source/roudi/port_manager.cpp"), ("registry", "iceoryx_posh/source/roudi/service_registry.cpp"), ("port pool", "iceoryx_posh/source/roudi/port_pool.cpp")],
      "Real PortManager, PortPool, ServiceRegistry and ports on an arena; reference model of offers/subscriptions/registry compared after every step. " + SC),
    P("C08", "Requests and responses are routed to the right peer, once and in order",
      "Every request of a connected client is received by the server once and in the order sent; every response is received only by the client that sent the request, with its sequence id, and by nobody after that client disconnected or was destroyed, even if a new client took over its slot. "
      "Sending without connection, without offer or to a vanished peer fails with the exact documented error and leaks nothing. Connection states follow the protocol, also when the server appears late, stops, restarts or the client limit is reached; overflow is indicated and the policies (discard or block) are honoured. No history or interleaving of the users terminates RouDi.",
      ["histories", "schedules"], "all client/server operation histories up to a depth with two clients and a restarting server; all interleavings of client, server and discovery up to the bound",
      "misrouting needs slot reuse between request and response; tests run one client against one permanent server",
      ["iceoryx_posh/source/popo/ports/client_port_user.cpp", "iceoryx_posh/source/popo/ports/client_port_roudi.cpp", "iceoryx_posh/source/popo/ports/server_port_user.cpp", "iceoryx_posh/source/popo/ports/server_port_roudi.cpp", "iceoryx_posh/source/popo/rpc_header.cpp", "iceoryx_posh/source/roudi/port_manager.cpp"],
      [("request/response routing", "iceoryx_posh/source/popo/ports/server_port_user.cpp"), ("connection protocol", "iceoryx_posh/source/popo/ports/client_port_roudi.cpp"), ("queue index", POPO + "building_blocks/chunk_distributor.inl")],
      "Real client and server ports under the real PortManager; reference model of connections, requests and responses. " + SC),
    P("C09", "The death of a process at any point does not harm the others",
      "When an application dies at an arbitrary step of sending, receiving, requesting, responding or administrating its ports (outside of a held port lock, whose recovery upstream does not support), RouDi's cleanup terminates and removes all its ports; the surviving applications keep communicating without losing or duplicating samples, samples they hold stay intact, "
      "at most the chunks of the interrupted operation are lost (never more than two), no chunk is owned twice, and a restarted application gets ports, connections and chunks again.",
      ["crash points", "schedules"], "every atomic operation and shared-memory write of the dying process as crash point, combined with all schedules up to the bound",
      "a crash in the middle of a lock-free operation cannot be produced by tests",
      ["iceoryx_posh/source/roudi/port_manager.cpp", "iceoryx_posh/source/mepoo/", POPO + "used_chunk_list.inl", POPO + "building_blocks/", "iceoryx_posh/source/popo/ports/"],
      [("cleanup of a process", "iceoryx_posh/source/roudi/port_manager.cpp"), ("chunks in use by an application", POPO + "used_chunk_list.inl"), ("shared chunks", "iceoryx_posh/source/mepoo/shm_safe_unmanaged_chunk.cpp")],
      "Crash injection by the scheduler on real ports; two recorded findings (crash inside the pop of a full queue) are excluded by scenario and context. Crashes inside a held port lock are outside the claim (upstream todo iox-#1711). " + SC),
    P("C10", "No notification is ever lost: a waiting thread wakes for every event",
      "Every event triggered, and every sample delivered to an attached subscriber, wakes the waiting thread (WaitSet or condition listener) and is reported by the current or next wait, also when it arrives while the waiter is just collecting or going to sleep. "
      "The data published before the trigger is visible to the woken thread. A wait never blocks while an attached state is satisfied, never reports something that was not triggered, and reports each origin at most once per wait. Destroying or marking for destruction wakes the waiter.",
      ["schedules"], "all interleavings of one waiter and up to three notifiers around collecting, sleeping and destruction; early and late timeouts",
      "lost wake-ups and masked notifications need a notifier to run between two particular steps of the waiter",
      [POPO + "building_blocks/condition_listener.hpp", "iceoryx_posh/source/popo/building_blocks/condition_listener.cpp", "iceoryx_posh/source/popo/building_blocks/condition_notifier.cpp", "iceoryx_posh/include/iceoryx_posh/popo/wait_set.hpp", POPO + "wait_set.inl"],
      [("notification flags and semaphore", "iceoryx_posh/source/popo/building_blocks/condition_listener.cpp"), ("collecting triggers", POPO + "wait_set.inl")],
      "Real ConditionNotifier/ConditionListener/WaitSet, semaphore interposed by the scheduler; 1-3 notifiers, 1-2 notifications each. " + SC),
    P("C11", "Listener callbacks run for every trigger and never after detach",
      "After an attached event is triggered its callback runs (with the right origin) at least once after the trigger, in the listener's thread. Once detachEvent or the destruction of the listener or of the origin returned, the callback of that event neither runs nor is running (unless detached from inside itself). "
      "Attach, detach and trigger may be called concurrently from any thread, also from within callbacks, without deadlock; a freed slot can be used again; attaching the same event twice is refused.",
      ["schedules"], "all interleavings of triggering, attaching, detaching (inside and outside of callbacks) and destruction",
      "tests detach when no callback is in flight or rely on sleeps",
      ["iceoryx_posh/source/popo/listener.cpp", POPO + "listener.inl", "iceoryx_posh/source/popo/trigger_handle.cpp"],
      [("callback dispatch and slot locking", "iceoryx_posh/source/popo/listener.cpp"), ("handle locking", "iceoryx_posh/source/popo/trigger_handle.cpp")],
      "Real Listener with its background thread run as a controlled fiber; two recorded deadlocks (known findings) are excluded by scenario and blocking pattern. " + SC),
    P("C12", "WaitSet attach/detach/destroy histories behave like a set of triggers",
      "For every history of attaching, detaching, triggering, waiting and destroying WaitSets and origins, a wait reports exactly the attached events triggered since they were last reported plus the attached satisfied states, with their ids, origins and callbacks; "
      "attaching twice or beyond the capacity is refused without side effect, size() is the number of attachments, destroying either side detaches, and nothing of a detached or destroyed origin is ever reported.",
      ["histories"], "all operation sequences up to depth 6-8 over two WaitSets / three origins",
      "tests run a handful of short sequences; stale state shows only after particular detach/re-attach sequences",
      ["iceoryx_posh/include/iceoryx_posh/popo/wait_set.hpp", POPO + "wait_set.inl", "iceoryx_posh/source/popo/trigger.cpp", "iceoryx_posh/source/popo/trigger_handle.cpp"],
      [("attach/detach", POPO + "wait_set.inl"), ("trigger reset", "iceoryx_posh/source/popo/trigger.cpp")],
      "Exhaustive operation sequences on the real classes compared with a reference model after every step.",
      technique="bounded exhaustive enumeration of operation sequences on the real code against a reference model"),
    P("C13", "Every loaned chunk fits its request; sizes, alignments and figures are exact",
      "For every payload size, payload alignment, user header size and alignment that is accepted, payload and user header lie inside the chunk, are aligned, disjoint from each other and from all bookkeeping, and header, user header and payload are found back from each other; "
      "unsupported combinations are refused with the exact error; sizes never wrap around. A request is served from the smallest pool it fits into; an exhausted or missing pool is reported with the exact error and leaves everything unchanged. "
      "The memory announced for any configuration suffices to lay it out. The figures of used and minimum free chunks are exact, also when chunks are acquired and released concurrently.",
      ["inputs", "histories", "schedules"], "all combinations of boundary sizes and alignments, all pool configurations up to three pools, all request histories up to a depth, all interleavings of two users of a pool",
      "tests pick a few sizes; overflows and off-by-one layouts show only at particular combinations of size and alignment",
      ["iceoryx_posh/source/mepoo/", "iceoryx_posh/include/iceoryx_posh/mepoo/", "iceoryx_posh/include/iceoryx_posh/internal/mepoo/", "iceoryx_hoofs/memory/"],
      [("chunk layout", "iceoryx_posh/source/mepoo/chunk_header.cpp"), ("size computation", "iceoryx_posh/source/mepoo/chunk_settings.cpp"), ("pool choice", "iceoryx_posh/source/mepoo/memory_manager.cpp"), ("figures", "iceoryx_posh/source/mepoo/mem_pool.cpp")],
      "Real ChunkSettings, ChunkHeader, MemPool, MemoryManager, MePooConfig and BumpAllocator; exhaustive over a grid of boundary values (0,1,2^k-1,2^k,2^k+1 up to 2^32/2^63) against an independent layout computation; concurrency with up to 2-3 preemptions.",
      technique="bounded exhaustive enumeration of inputs and operation sequences, and all interleavings, on the real code against a reference model"),
    P("C14", "Samples, requests and responses own exactly their chunk through any history",
      "Through the typed and untyped publisher, subscriber, client and server API every history of loaning, publishing, sending, taking, moving, overwriting and dropping keeps exactly those chunks in use that a sample object, a queue, a history or the reuse slot refers to: nothing leaks and nothing is given back twice. "
      "The content of a loaned or taken sample never changes while it is held; what is taken is what was published, in order. Empty (moved-from or sent) samples are refused; the numbers of samples that can be loaned and held in parallel are exactly the configured limits and recover when samples are dropped.",
      ["histories"], "all operation sequences up to depth 6-8 over two loaned and two taken samples, with and without history and user header, with and without connection",
      "tests run short straight-line sequences per method; ownership errors need particular sequences of moves and reuse",
      ["iceoryx_posh/include/iceoryx_posh/popo/", POPO, "iceoryx_posh/source/popo/"],
      [("ownership of samples", POPO + "smart_chunk.inl"), ("publisher", POPO + "typed_port_api_trait.hpp"), ("chunk reuse", POPO + "building_blocks/chunk_sender.inl")],
      "Exhaustive operation sequences on the real API objects over real ports made by the real PortManager, compared after each step with a reference model of ownership.",
      technique="bounded exhaustive enumeration of operation sequences on the real code against a reference model"),
    P("C15", "The bounded containers behave like their specification for every history",
      "For every history of operations vector, list, forward_list, FixedPositionContainer and stack hold exactly the elements a reference sequence holds, in its order; iterators and pointers point where they should and iteration visits every element once. "
      "Every element is constructed once and destroyed once, moved-from and copied elements are exactly those the operation names, nothing is written outside of the container. An operation beyond the capacity or on an invalid position is refused as documented (return value or termination), and then nothing has changed.",
      ["histories"], "all states reachable by any sequence of the operations, for two containers of small capacity at once (fixpoint, no bound on the length)",
      "tests run short sequences on one element type; lifetime errors show at particular fill levels and free-list orders",
      ["iceoryx_hoofs/container/include/iox/", "iceoryx_hoofs/buffer/include/iox/"],
      [("vector", "iceoryx_hoofs/container/include/iox/detail/vector.inl"), ("list", "iceoryx_hoofs/container/include/iox/detail/list.inl"), ("forward_list", "iceoryx_hoofs/container/include/iox/detail/forward_list.inl"), ("FixedPositionContainer", "iceoryx_hoofs/container/include/iox/detail/fixed_position_container.inl"), ("stack", "iceoryx_hoofs/buffer/include/iox/detail/stack.inl")],
      "Explicit-state exploration: the objects' bytes and the reference are the state, every operation is executed by the real code on every reachable state until no new state appears; elements with tracked lifetime, trivially copyable and plain ones; capacities 1-4.",
      technique="explicit-state exploration of the real code to a fixpoint against a reference model"),
    P("C16", "Optional, expected, variant, function and unique_ptr own exactly their content",
      "For every history of construction, copy, move, assignment (also self-assignment and between different contents), emplacement, access and destruction optional, expected, variant, function and unique_ptr hold exactly what was put in last: the right alternative and value, constructed once and destroyed once. "
      "Accessing what is not there is refused as documented and never yields other data; a moved-from source is left as documented; a function calls the callable stored last with its state; the deleter runs exactly once per owned object.",
      ["histories"], "all states reachable by any sequence of the operations on two objects at once (fixpoint, no bound on the length)",
      "lifetime errors show only for particular pairs of contents of source and target",
      ["iceoryx_hoofs/vocabulary/include/iox/", "iceoryx_hoofs/functional/include/iox/", "iceoryx_hoofs/memory/include/iox/"],
      [("optional", "iceoryx_hoofs/vocabulary/include/iox/detail/optional.inl"), ("expected", "iceoryx_hoofs/vocabulary/include/iox/detail/expected.inl"), ("variant", "iceoryx_hoofs/vocabulary/include/iox/detail/variant.inl"), ("function", "iceoryx_hoofs/functional/include/iox/detail/storable_function.inl"), ("unique_ptr", "iceoryx_hoofs/memory/include/iox/detail/unique_ptr.inl")],
      "Explicit-state exploration of the real code to a fixpoint with tracked element types, as for C15.",
      technique="explicit-state exploration of the real code to a fixpoint against a reference model"),
    P("C17", "Bounded strings, names and paths, numbers from text and durations are exact",
      "For every history of operations a string<N> holds exactly the characters of a reference string truncated or refused as documented, is terminated and writes nothing outside of its storage; searching, comparing, substrings and concatenation agree with the reference. "
      "A FileName, FilePath, Path, UserName or GroupName never holds a value that violates its rules: creation, append and insert accept exactly the valid results and leave the value unchanged otherwise. "
      "Text is converted to a number exactly if it is one and fits the type. Durations never wrap: sums, differences, products and conversions are exact or saturate.",
      ["histories", "inputs"], "all states of two strings reachable by any sequence of operations; all short texts over the relevant characters for names, paths and numbers; all pairs of boundary durations",
      "tests pick examples; off-by-one errors show only at particular combinations of fill level, position and count",
      ["iceoryx_hoofs/vocabulary/include/iox/", "iceoryx_hoofs/posix/vocabulary/", "iceoryx_hoofs/utility/include/iox/detail/", "iceoryx_hoofs/time/"],
      [("string", "iceoryx_hoofs/vocabulary/include/iox/detail/string.inl"), ("semantic strings", "iceoryx_hoofs/vocabulary/include/iox/detail/semantic_string.inl"), ("path rules", "iceoryx_hoofs/posix/vocabulary/include/iox/detail/path_and_file_verifier.inl"), ("numbers", "iceoryx_hoofs/utility/include/iox/detail/convert.inl"), ("durations", "iceoryx_hoofs/time/include/iox/detail/duration.inl")],
      "string<3> and string<5> to a fixpoint over a two-letter alphabet; names and paths: all texts up to 8 characters over 4 characters, plus every byte at every position; numbers: all texts up to 6 characters and all limits; durations: all pairs of boundary values. Independent oracles.",
      technique="explicit-state exploration of the real code to a fixpoint and exhaustive enumeration of inputs against a reference model"),
    P("C18", "Addresses shared between processes mean the same place in every mapping",
      "A relative pointer made in one process resolves to the same object in every other process that maps the segment, wherever it is mapped there and however the pointer was made, copied, moved or reassigned; an address is attributed to a segment exactly if a currently registered segment contains it, through any history of registering and unregistering. "
      "A relocatable pointer inside an object follows the object when its bytes are moved. Packed pointers keep id and offset or are null. Memory is divided without overlap: the bump allocator and the memory providers hand out aligned, disjoint blocks inside the segment or refuse, for every request size, and provider and manager create, announce and destroy each block once.",
      ["histories", "inputs"], "all states of the segment registry (4 ids, 4 segments), of two relative pointers seen from four processes, of two objects with relocatable pointers and of a small allocator; all block lists of up to three blocks",
      "tests use one mapping in one process; wrong attribution needs particular histories of registration and a second mapping",
      ["iceoryx_hoofs/memory/", "iceoryx_posh/source/roudi/memory/"],
      [("segment registry", "iceoryx_hoofs/memory/include/iox/detail/pointer_repository.inl"), ("relative pointer", "iceoryx_hoofs/memory/include/iox/detail/relative_pointer.inl"), ("relocatable pointer", "iceoryx_hoofs/memory/include/iox/detail/relocatable_ptr.inl"), ("bump allocator", "iceoryx_hoofs/memory/source/bump_allocator.cpp"), ("memory provider", "iceoryx_posh/source/roudi/memory/memory_provider.cpp")],
      "Closures to a fixpoint against reference models; processes are simulated by registering the segments at other addresses. Registration of id 0 and overlapping segments are not claimed.",
      technique="explicit-state exploration of the real code to a fixpoint against a reference model"),
    P("C19", "Messages and descriptions survive the way to RouDi; malformed ones are refused",
      "Whatever is put into a serialization or an IPC message is read back unchanged and in order, for every content, including empty entries and separators: options of publishers, subscribers, clients and servers, service descriptions, port configurations and version information come out as they went in. "
      "Text that is not the serialized form of a value is refused as documented or yields the documented default; it never yields a partly filled value, is never read beyond its end and never terminates the process. "
      "An IPC message is valid exactly if all entries put in were representable; the types of messages and errors are recognised exactly from their own text.",
      ["inputs", "histories"], "all texts up to a length over the characters that matter, all combinations of boundary values of every option, all histories of operations on a message",
      "tests convert a few values back and forth; wrong bounds show only at particular lengths, digits and positions",
      ["iceoryx_hoofs/utility/include/iox/detail/serialization.inl", "iceoryx_posh/source/capro/", "iceoryx_posh/source/popo/", "iceoryx_posh/source/runtime/", "iceoryx_posh/source/version/"],
      [("entries", "iceoryx_hoofs/utility/include/iox/detail/serialization.inl"), ("messages", "iceoryx_posh/source/runtime/ipc_message.cpp"), ("service descriptions", "iceoryx_posh/source/capro/service_description.cpp"), ("options", "iceoryx_posh/source/popo/publisher_options.cpp"), ("message types", "iceoryx_posh/source/runtime/ipc_interface_base.cpp")],
      "Exhaustive enumeration of inputs and of message histories on the real classes against an independent parser. Port configuration text that is not a port configuration is accepted with defaults, as documented by the code; not claimed otherwise.",
      technique="exhaustive enumeration of inputs and operation sequences on the real code against a reference model"),
    P("C20", "RouDi serves exactly the registered applications, whatever they send or suffer",
      "For every history of applications starting, requesting ports, leaving in order, dying suddenly (before any system call) and coming back, RouDi has exactly those applications registered, and exactly those ports in its memory, that were granted and not yet given up; every request is answered once, with a port of the requesting application and the requested properties or with the reason of the refusal; every limit is exact and recovers. "
      "An application that gives no sign of life is removed with all it has, one that does is not. Messages that are no requests of registered applications change nothing and harm nobody. An application finds a RouDi that is there or comes in time, with its current data, and gives up in time otherwise; it sees exactly the segments its groups allow and writes only where it may. "
      "There is one RouDi per domain; whatever happened to its predecessor, RouDi comes up; when it has gone no descriptor, mapping, socket or file of it is left, and only its own applications were signalled.",
      ["histories", "crash points", "faults", "inputs"], "all histories up to depth 6 (thorough 8) of four applications over three places, all histories of requests beyond every limit, all crash points of RouDi's start and stop and of an application's life, all failing system calls of the handshake, all segment layouts, a catalogue of all malformed variants of every message",
      "tests start one RouDi with one or two applications; crash points, exhausted limits and half-dead peers are not sampled",
      ["iceoryx_posh/source/roudi/", "iceoryx_posh/source/runtime/", "iceoryx_hoofs/posix/ipc/", "iceoryx_hoofs/posix/filesystem/"],
      [("membership", "iceoryx_posh/source/roudi/process_manager.cpp"), ("requests", "iceoryx_posh/source/roudi/roudi.cpp"), ("ports", "iceoryx_posh/source/roudi/port_manager.cpp"), ("handshake", "iceoryx_posh/source/runtime/ipc_runtime_interface.cpp"), ("segments", "iceoryx_posh/source/runtime/shared_memory_user.cpp"), ("channels", "iceoryx_hoofs/posix/ipc/include/iox/detail/unix_domain_socket.inl")],
      "A complete RouDi and complete runtimes, unmodified, on a simulated kernel (files with locks, shared memory, datagram sockets, users, groups, ACLs, signals, virtual time); processes are simulated in one address space. Schedules of the threads are those of a run-to-block scheduler; the histories, crash points and faults are enumerated exhaustively.",
      technique="exhaustive enumeration of histories, crash points and faults of the real code on a simulated kernel against a reference model"),
    P("C21", "A named lock or channel has one owner at a time and is never lost",
      "However processes that want the same name interleave, at most one holds the file lock (or the inter-process channel guarded by it) at any moment; an attempt is refused only if another process has or wants it, and of several attempts at the same time one succeeds. "
      "As long as a process owns a channel, messages sent to the name reach this process and no process that starts, gives up or goes away takes the channel away from it. When an owner dies (before any of its system calls) or a system call fails, the next attempt succeeds; moving a lock moves exactly this lock; nothing stays open, is closed twice or is left in the file system.",
      ["schedules", "crash points", "faults", "histories"], "all interleavings (at system calls) of 2-3 processes with 5 preemptions for locks and 4 for channels, every crash point with 3-4 preemptions, every combination of two failing calls, all histories of five operations on three lock objects",
      "the tests take and release a lock in one process; no test has two processes in the middle of their system calls",
      ["iceoryx_hoofs/posix/filesystem/", "iceoryx_posh/source/runtime/ipc_interface_creator.cpp", "iceoryx_hoofs/posix/ipc/"],
      [("file lock", "iceoryx_hoofs/posix/filesystem/source/file_lock.cpp"), ("channel", "iceoryx_posh/source/runtime/ipc_interface_creator.cpp"), ("socket", "iceoryx_hoofs/posix/ipc/source/unix_domain_socket.cpp")],
      "Every system call is a scheduling point and a crash point; the calls themselves are atomic as in the kernel.",
      technique="exhaustive exploration of schedules, crash points and faults of the real code on a simulated kernel"),
    P("C22", "Files, shared memory, sockets and pipes do what they promise, on failure too",
      "For every history of creating, opening, using, moving and dropping them: a shared memory object or file is created, opened, purged or refused exactly as its open and access mode say; everybody who has the same object sees the same content, a new object is zero and has the size and permissions wanted, and only the owner takes it away. "
      "A message sent over a socket or pipe arrives once, unchanged and in order, or the sender is told otherwise; sizes, capacities and time-outs are respected; concurrent senders and receivers of a pipe neither lose, mix nor duplicate messages. Whatever system call fails, the operation reports an error or has done its job: no descriptor or mapping leaks or is released twice, no existing content is damaged, the umask is as before, and the name can be used again.",
      ["histories", "faults", "schedules", "inputs"], "all histories of 4-6 operations (thorough 5-7) on up to three objects, every combination of two failing calls (thorough three), all schedules of up to four pipe users with three preemptions (thorough four)",
      "tests sample single operations; system calls do not fail in tests",
      ["iceoryx_hoofs/posix/ipc/", "iceoryx_hoofs/posix/filesystem/", "iceoryx_hoofs/posix/design/"],
      [("shared memory", "iceoryx_hoofs/posix/ipc/source/posix_shared_memory_object.cpp"), ("shared memory", "iceoryx_hoofs/posix/ipc/source/posix_shared_memory.cpp"), ("files", "iceoryx_hoofs/posix/filesystem/source/file.cpp"), ("sockets", "iceoryx_hoofs/posix/ipc/source/unix_domain_socket.cpp"), ("pipes", "iceoryx_hoofs/posix/ipc/source/named_pipe.cpp")],
      "An owner that is dropped after somebody else purged and re-created the object of its name removes the new one; such histories are left out, as is the creation race of OpenOrCreate (the size is not yet set). A file that cannot be closed terminates the process by design.",
      technique="exhaustive enumeration of histories, faults and schedules of the real code on a simulated kernel against a reference model"),
    P("C23", "Introspection tells within a second exactly what is there",
      "After every history of processes coming, leaving and crashing, of ports being created, offered, subscribed, destroyed or removed with their process, and of chunks being used, what RouDi publishes as introspection - processes, publishers, subscribers with their options and states, memory pools with used, free and minimum free chunks - is, one period after the last change, exactly what exists; up to and including the maximum number of each. "
      "A new subscriber gets the current value at once. While things change, each published value is what was there at some moment while it was made, and no change is ever missed for good.",
      ["histories", "schedules"], "all histories of 5 process events and 4 port events (thorough 7 and 6), of 5 chunk operations, of 3 changes with a subscriber that looks or does not; all schedules of changes against the sending thread with 3-5 preemptions",
      "the tests feed the introspection classes with mocks, a change at a time",
      ["iceoryx_posh/include/iceoryx_posh/internal/roudi/introspection/", "iceoryx_posh/source/roudi/"],
      [("ports", "iceoryx_posh/include/iceoryx_posh/internal/roudi/introspection/port_introspection.inl"), ("processes", "iceoryx_posh/include/iceoryx_posh/internal/roudi/introspection/process_introspection.inl"), ("pools", "iceoryx_posh/include/iceoryx_posh/internal/roudi/introspection/mempool_introspection.inl"), ("reports", "iceoryx_posh/source/roudi/port_manager.cpp")],
      "The histories run on the whole RouDi on the simulated kernel; the throughput topic is published without content and not checked.",
      technique="exhaustive enumeration of histories of the real RouDi on a simulated kernel, and of schedules with bounded preemptions, against a reference model"),
    P("C24", "Locks, semaphores, tasks and singletons keep their promises",
      "Under every schedule: at most one thread holds a mutex or SpinLock, recursion and misuse (second lock of a plain lock, unlock by somebody else) are answered as documented, try_lock fails only when somebody has or wants the lock, and after the last unlock it is free. The holder after one that died is told so, exactly then, and a repaired lock works on. "
      "A semaphore hands out exactly as many tokens as were posted, a wait returns as soon as there is one, a timed wait neither gives up early nor late. A PeriodicTask runs at once and once per interval, never twice at the same time and never after stop() has returned, which does not wait for the interval. "
      "A smart_lock's value is only ever seen whole and no update is lost. A StaticLifetimeGuard instance is built once, is complete for everybody, and is destroyed once, with the last guard. A PolymorphicHandler shows the handler last set, and does not change after finalize(). A deadline_timer expires at its time.",
      ["schedules", "histories"], "all programs of 3 lock operations for 2 threads (1 for 3), 2 semaphore operations for 2-3 threads, 2 handler operations for 2 threads, 3 task operations, all pairs of smart_lock operations; all schedules with 2-4 preemptions (thorough 3-6)",
      "the tests use real threads, sleeps and a few schedules",
      ["iceoryx_hoofs/posix/sync/", "iceoryx_hoofs/concurrent/sync/", "iceoryx_hoofs/concurrent/sync_extended/", "iceoryx_hoofs/design/", "iceoryx_hoofs/posix/time/"],
      [("mutex", "iceoryx_hoofs/posix/sync/source/mutex.cpp"), ("spin lock", "iceoryx_hoofs/concurrent/sync_extended/source/spin_lock.cpp"), ("spin semaphore", "iceoryx_hoofs/concurrent/sync_extended/source/spin_semaphore.cpp"), ("semaphore", "iceoryx_hoofs/posix/sync/source/unnamed_semaphore.cpp"), ("task", "iceoryx_hoofs/concurrent/sync_extended/include/iox/detail/periodic_task.inl"), ("guarded value", "iceoryx_hoofs/concurrent/sync/include/iox/detail/smart_lock.inl"), ("singleton", "iceoryx_hoofs/design/include/iox/detail/static_lifetime_guard.inl"), ("handler", "iceoryx_hoofs/design/include/iox/detail/polymorphic_handler.inl"), ("timer", "iceoryx_hoofs/posix/time/source/deadline_timer.cpp")],
      "pthread mutexes, semaphores and the clock are the runtime's own; handlers run with thread-local storage per thread of the model. A handler change that overlaps finalize() may still take effect after it.",
      technique="exhaustive enumeration of programs and schedules of the real code with bounded preemptions, against reference models (linearizability for the handler)"),
]
