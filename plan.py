"""What each check runs. A unit is one process: a scenario of a harness, in a build flavour, with a seed."""

EXTRA_CFLAGS = {"h_types%d" % i: ["-O0"] + (["-DVEIGAR_CXX_STANDARD=17"] if i == 3 else []) for i in (1, 2, 3, 4, 5, 6)}

PROPS = {}


def prop(pid, level, rule, assumptions, units):
    PROPS[pid] = dict(level=level, rule=rule, assumptions=assumptions, units=units)


def all_bins():
    s = set()
    for p in PROPS.values():
        for u in p["units"]("quick"):
            s.add((u["bin"], u.get("flavor", "plain")))
    return s


def U(bin, scenario, flavor="plain", n=1, **kw):
    """n units of one scenario with different seeds"""
    return [dict(bin=bin, scenario=scenario, flavor=flavor, **kw) for _ in range(n)]

prop("C05", "exploration",
     "Random and guided sequences of push/pop/count/space queries on a real queue through 1-4 handles, compared step "
     "by step with a deque; a case is non-trivial when the situation (geometry, sizes queued, front gap) or the pair "
     "(situation, operation) is new.",
     ["one caller at a time (the queue's contract: calls are made under its lock)"],
     lambda tier: U("h_queue", "fifo_random", "asan", n=3 if tier == "quick" else 8, scale=5 if tier == "quick" else 40, timeout=600)
     + U("h_queue", "fifo_random", "asan", n=1 if tier == "quick" else 4, rest=["mixed"], scale=5 if tier == "quick" else 40, timeout=600)
     + U("h_queue", "fifo_small", "asan", n=1 if tier == "quick" else 4, scale=1 if tier == "quick" else 10, timeout=600)
     + U("h_queue", "geometry", "asan"))

T = lambda tier, q, t: q if tier == "quick" else t

prop("C06", "exploration",
     "Producers and consumers in threads and in processes push and pop one queue under its lock, with seeded delays "
     "around every semaphore operation; the merged log (tickets drawn under the lock) must be a FIFO history with every "
     "message once and intact. A case is non-trivial when 16 consecutive pops show a new order of producers.",
     ["users follow the protocol: lock, one operation, unlock; one signal after each push"],
     lambda tier: U("h_ipc", "mpmc_threads", "asan", n=T(tier, 2, 6), scale=T(tier, 1, 12), timeout=800)
     + U("h_ipc", "mpmc_threads", "tsan", n=1, rest=["shared"], scale=T(tier, 1, 8), timeout=800)
     + U("h_ipc", "mpmc_procs", "plain", n=T(tier, 3, 8), scale=T(tier, 1, 15), timeout=800))

prop("C07", "exploration",
     "Timed waits of semaphores, queue locks, read signals and events at all phases of the wall-clock second, with and "
     "without tokens arriving, under interrupting signals; token accounting over threads, handles and processes; events "
     "against a state model. Distinct cases: (interface, phase, timeout, token time), token histories, event traces.",
     ["the wall clock is not stepped while a wait is in progress"],
     lambda tier: U("h_ipc", "sem_timing", "plain", n=T(tier, 2, 6), scale=T(tier, 1, 10), weight=1, timeout=600)
     + U("h_ipc", "sem_signals", "plain", n=1, scale=T(tier, 1, 20), weight=1, timeout=600)
     + U("h_ipc", "sem_conserve", "plain", n=T(tier, 2, 6), scale=T(tier, 1, 15), timeout=600)
     + U("h_ipc", "sem_conserve", "tsan", n=1, scale=T(tier, 1, 5), timeout=600)
     + U("h_ipc", "sem_procs", "plain", n=1, scale=T(tier, 1, 15), timeout=600)
     + U("h_ipc", "event_model", "tsan", n=1, scale=T(tier, 1, 10), timeout=600)
     + U("h_ipc", "event_model", "plain", n=1, scale=T(tier, 1, 10), timeout=600))

prop("C25", "fault_enumeration",
     "Random sequences of create/open/close/write over 1-6 handles of 1-3 names compared with a model of names and "
     "segments after every step (validity, bytes, /dev/shm, descriptors, mappings), also with failing system calls, "
     "impossible requests, other processes and parallel creators. A case is non-trivial when (situation of all handles, "
     "operation) is new.",
     ["only the library creates or removes the names of the run"],
     lambda tier: U("h_shm", "shm_model", "asan", n=T(tier, 2, 6), scale=T(tier, 3, 30), timeout=600)
     + U("h_shm", "shm_model", "plain", n=T(tier, 2, 6), rest=["faults"], scale=T(tier, 3, 30), timeout=600)
     + U("h_shm", "shm_edges", "asan", n=1)
     + U("h_shm", "shm_big", "plain", n=1)
     + U("h_shm", "shm_procs", "plain", n=1, scale=T(tier, 1, 10))
     + U("h_shm", "shm_race", "plain", n=1, scale=T(tier, 1, 10)))

TECH = {
    "C01": "per-call result oracle over random multi-thread/instance/process call storms with injected delays, ASan/UBSan/TSan",
    "C02": "offline join of callee execution counts with caller outcomes over storms and forced non-delivery",
    "C03": "completion-counting monitor over storms, unreachable targets and shutdown at random moments, ASan/TSan",
    "C05": "reference-model monitor over random and coverage-guided operation sequences, ASan/UBSan, guard pages",
    "C06": "offline history checker (FIFO, exactly once, exclusion) over multi-thread/multi-process stress with injected delays, ASan/TSan",
    "C07": "online token-conservation and timing monitors over stress with signals and clock phases, TSan",
    "C25": "reference-model monitor with system-call fault injection and resource counters, ASan",
}

STORM = lambda tier: (U("h_call", "storm", "asan", n=T(tier, 2, 6), scale=T(tier, 5, 30), timeout=800)
                      + U("h_call", "storm", "plain", n=T(tier, 2, 6), scale=T(tier, 12, 100), timeout=800)
                      + U("h_call", "storm", "tsan", n=T(tier, 1, 3), scale=T(tier, 4, 25), timeout=800)
                      + U("h_call", "storm_procs", "plain", n=T(tier, 2, 4), scale=T(tier, 5, 30), timeout=800))
RPC_ASSUME = ["channel names are unique on the machine, as documented",
              "the lock timeout (setTimeoutOfRWLock) is set far above any wait for the lock, except where its expiry is the subject"]

prop("C01", "exploration",
     "Random calls (15 confusable function names, strings, byte buffers, nested, throwing, unknown) from many threads, "
     "instances and processes; every result is compared with the value computed from the call's own token, function and "
     "channel, again after later calls and after shutdown. Non-trivial: a new order of call kinds of one thread.",
     RPC_ASSUME,
     lambda tier: STORM(tier) + U("h_call", "old_pending", "plain", n=1, scale=T(tier, 1, 10), weight=4, timeout=800))

prop("C02", "exploration",
     "Executions are counted per call token at the callee and joined with the outcome at the caller, in storms and with "
     "full, locked (also past the calls' deadlines), stopped, unknown targets and callers that are down. Non-trivial: new (outcome, executions, message) "
     "or new order of call kinds.",
     RPC_ASSUME,
     lambda tier: STORM(tier) + U("h_call", "undelivered", "plain", n=T(tier, 3, 8), scale=T(tier, 4, 30), timeout=800)
     + U("h_call", "undelivered", "asan", n=1, scale=T(tier, 3, 15), timeout=800))

prop("C03", "exploration",
     "Completions are counted per call: callbacks invoked, futures ready with a value; storms, unreachable and full "
     "targets, throwing callbacks, single calls followed by silence, hundreds of calls waiting for room, calls made by other threads while init fails or succeeds, shutdown of the caller at random moments with calls pending or "
     "still being made. "
     "Non-trivial: new (call, style, outcome) or order.",
     RPC_ASSUME + ["a promise call that was released may never be completed; calls are not released before completion here"],
     lambda tier: U("h_call", "completions", "asan", n=T(tier, 2, 6), scale=T(tier, 6, 40), timeout=800)
     + U("h_call", "completions", "plain", n=T(tier, 2, 6), scale=T(tier, 10, 80), timeout=800)
     + U("h_call", "completions", "tsan", n=1, scale=T(tier, 4, 30), timeout=800)
     + U("h_flow", "lone", "plain", n=T(tier, 2, 4), scale=T(tier, 5, 40), timeout=800)
     + U("h_life", "init_calls", "plain", n=T(tier, 2, 4), scale=T(tier, 1, 30), timeout=800)
     + U("h_life", "init_calls", "asan", n=1, scale=T(tier, 1, 20), timeout=800, leaks=1)
     + U("h_life", "init_calls", "tsan", n=1, scale=T(tier, 1, 8), timeout=800)
     + U("h_flow", "full_drain", "plain", n=T(tier, 1, 3), scale=T(tier, 2, 20), timeout=800)
     + U("h_call", "undelivered", "plain", n=1, scale=T(tier, 4, 20), timeout=800)
     + U("h_call", "storm", "plain", n=1, scale=T(tier, 10, 60), timeout=800))

prop("C04", "exploration",
     "Synchronous calls with timeouts from 0 to 2^32-1 ms to targets that are not started, stopped, killed, stuck, full, locked, "
     "or served late by slow handlers, a drained queue or a released lock, and single calls in silence; outcome and duration of each call are checked. "
     "Non-trivial: new (state, timeout, outcome, message).",
     RPC_ASSUME + ["'shortly after' means 1.5 s of wall time and 0.75 s of the process' own progress, seen in two runs"],
     lambda tier: U("h_time", "no_result", "plain", n=T(tier, 2, 6), scale=T(tier, 2, 30), weight=2, timeout=800)
     + U("h_time", "result_in_time", "plain", n=T(tier, 2, 6), scale=T(tier, 4, 60), weight=2, timeout=800)
     + U("h_time", "near_timeout", "plain", n=T(tier, 1, 3), scale=T(tier, 2, 40), weight=2, timeout=800)
     + U("h_flow", "lone", "plain", rest=["sync"], n=T(tier, 2, 3), scale=T(tier, 4, 40), timeout=800)
     + [x for w in T(tier, (5, 17), (40, 70, 140, 330)) for x in U("h_flow", "patience", "plain", rest=[str(w)], scale=1, weight=1, timeout=800)])
TECH["C04"] = "duration and outcome monitor of synchronous calls against targets in every state, wall clock checked against a progress clock"

prop("C21", "exploration",
     "An independent MessagePack codec decodes every call a real instance sends to a raw peer and every response it gives to "
     "raw calls in random valid encodings; shapes, arguments, ids (of more than 65536 calls), receivers and meanings are compared with what was called, with channel names "
     "of up to 220 bytes. "
     "Non-trivial: new (style, outcome, value shape) or (kind, function).",
     RPC_ASSUME,
     lambda tier: U("h_wire", "wire_caller", "plain", n=T(tier, 3, 6), scale=T(tier, 8, 120), timeout=800)
     + U("h_wire", "wire_caller", "asan", n=1, scale=T(tier, 4, 40), timeout=800)
     + U("h_wire", "wire_callee", "plain", n=T(tier, 2, 6), scale=T(tier, 8, 120), timeout=800)
     + U("h_wire", "wire_callee", "asan", n=1, scale=T(tier, 4, 40), timeout=800)
     + U("h_wire", "wire_ids", "plain", n=1, scale=T(tier, 2, 30), timeout=800)
     + U("h_wire", "wire_many", "plain", n=1, scale=T(tier, 1, 20), timeout=800))

prop("C22", "exploration",
     "A raw peer answers late, twice, with poisoned values, for finished and released calls, for similar ids, in messages of the wrong kind, and for earlier "
     "incarnations (also killed processes); every completion must carry the answer planned for that call. Non-trivial: new "
     "(behaviour, position, thread).",
     RPC_ASSUME + ["a promise call that was released may never be completed"],
     lambda tier: U("h_wire", "wire_late", "plain", n=T(tier, 3, 6), scale=T(tier, 3, 40), timeout=800)
     + U("h_wire", "wire_late", "asan", n=1, scale=T(tier, 2, 20), timeout=800)
     + U("h_wire", "wire_late", "tsan", n=1, scale=T(tier, 1, 12), timeout=800)
     + U("h_wire", "wire_reborn", "plain", n=2, scale=T(tier, 2, 40), timeout=800)
     + U("h_wire", "wire_ids", "plain", n=1, scale=T(tier, 2, 30), timeout=800)
     + U("h_wire", "wire_many", "plain", n=1, scale=T(tier, 1, 20), timeout=800)
     + U("h_call", "old_pending", "plain", n=1, scale=T(tier, 1, 10), weight=4, timeout=800)
     + U("h_time", "near_timeout", "plain", n=1, scale=T(tier, 1, 20), timeout=800))

prop("C10", "exploration",
     "Random bytes, truncations, bit flips, wrong types, huge headers, deep nesting, concatenations, odd channel names, "
     "unsolicited and malformed responses are pushed into all four queues of two instances while well-formed calls run; "
     "those must be unaffected and afterwards all dispatcher threads must take part in a rendezvous; values of unexpected kind and shape "
     "are read into tuples, arrays, structures and variants. Non-trivial: new "
     "(queue, size class, first and middle byte).",
     RPC_ASSUME + ["hostile messages are pushed through the queue operations; the queue's own bookkeeping is not overwritten"],
     lambda tier: U("h_wire", "wire_hostile", "asan", n=T(tier, 4, 10), scale=T(tier, 14, 200), timeout=800, leaks=1)
     + U("h_wire", "wire_hostile", "plain", n=T(tier, 2, 6), scale=T(tier, 25, 400), timeout=800)
     + U("h_wire", "wire_hostile", "debug", n=T(tier, 1, 3), scale=T(tier, 10, 200), timeout=800)
     + U("h_wire", "wire_hostile", "tsan", n=1, scale=T(tier, 4, 60), timeout=800)
     + U("h_types4", "types", "asan", n=1, scale=T(tier, 1, 10), timeout=800)
     + U("h_types6", "types", "asan", n=1, scale=T(tier, 1, 10), timeout=800))
TECH["C21"] = "independent codec decodes and judges all wire traffic of real instances and answers in random valid encodings, ASan"
TECH["C22"] = "completion monitor under planned late, repeated, stale and forged responses, restarts and killed callers, ASan/TSan"
TECH["C10"] = "grammar-based hostile message injection under ASan/UBSan/LSan with liveness rendezvous and per-call oracles"

prop("C15", "exploration",
     "Targets with stuck handlers and queues of 1-6 messages get 10-40 calls of many sizes from three instances, themselves "
     "included; early and late timeouts, deliveries after draining, other targets, regained capacity and messages around the "
     "size of the whole queue are checked, as are full response queues, and calls served after 5 and 17 s (thorough: up to 330 s). "
     "Non-trivial: new (capacity, calls, timed out, moment).",
     RPC_ASSUME + ["a response waits 1500 ms for space (VEIGAR_WRITE_RESPONSE_QUEUE_TIMEOUT)", "'at once' and 'held up' mean 1.5 s, seen twice"],
     lambda tier: U("h_flow", "full_drain", "plain", n=T(tier, 3, 6), scale=T(tier, 5, 60), timeout=800)
     + U("h_flow", "full_drain", "asan", n=1, scale=T(tier, 2, 20), timeout=800)
     + U("h_flow", "full_drain", "tsan", n=1, scale=T(tier, 1, 10), timeout=800)
     + U("h_flow", "oversize", "plain", n=T(tier, 1, 4), scale=T(tier, 4, 60), timeout=800)
     + U("h_flow", "oversize", "asan", n=1, scale=T(tier, 2, 20), timeout=800)
     + U("h_flow", "resp_full", "plain", n=T(tier, 1, 4), scale=T(tier, 3, 40), timeout=800)
     + U("h_flow", "tiny_mutual", "plain", n=T(tier, 2, 4), scale=T(tier, 5, 60), timeout=800)
     + [x for w in T(tier, (5, 17), (40, 70, 140, 330)) for x in U("h_flow", "patience", "plain", rest=[str(w)], scale=1, weight=1, timeout=800)])

prop("C16", "exploration",
     "Bursts followed by silence, with handlers and callbacks stuck; raw messages whose signals come late, together or too "
     "often; single calls; queue locks held for longer than the dispatchers wait; bursts of ever larger messages at fresh instances. Everything accepted must be answered and the backlog "
     "return to 0 without further traffic. Non-trivial: new (capacity or pattern, amount, stuck threads).",
     RPC_ASSUME + ["'bounded' means 30 s of wall time and of the process' own progress, seen twice"],
     lambda tier: U("h_flow", "burst", "plain", n=T(tier, 3, 6), scale=T(tier, 15, 200), timeout=800)
     + U("h_flow", "burst", "tsan", n=1, scale=T(tier, 4, 40), timeout=800)
     + U("h_flow", "lone", "plain", n=T(tier, 2, 4), scale=T(tier, 5, 60), timeout=800)
     + U("h_flow", "growing", "plain", n=T(tier, 3, 6), scale=T(tier, 40, 600), timeout=800)
     + U("h_flow", "growing", "asan", n=1, scale=T(tier, 10, 100), timeout=800)
     + U("h_flow", "signals", "plain", n=T(tier, 3, 6), scale=T(tier, 20, 200), timeout=800)
     + U("h_flow", "signals", "asan", n=1, scale=T(tier, 8, 60), timeout=800)
     + U("h_flow", "resp_full", "plain", n=1, scale=T(tier, 2, 20), timeout=800)
     + U("h_flow", "tiny_mutual", "plain", n=1, scale=T(tier, 3, 30), timeout=800))
TECH["C15"] = "outcome, timing and capacity monitors with full, stuck and tiny queues, ASan/TSan"
TECH["C16"] = "liveness and backlog monitors after bursts, spurious or late signals and lock contention, TSan/ASan"

prop("C08", "exploration",
     "134 types (with times, extensions, fixed encodings, inheritance; structures, enumerations, objects, string views and argument lists): random and extreme values, also of hundreds of thousands of elements or 1000 levels, are sent as "
     "arguments and results in all call styles and compared where they arrive, as they travel and as they are read back, also into objects that hold other values; values "
     "of other kinds or outside the range must be refused without running the function. Non-trivial: new (type, value).",
     RPC_ASSUME + ["whether an integer is accepted for a floating-point type, and a shorter array for a tuple or structure, is left open"],
     lambda tier: [u for i in (1, 2, 3, 4, 5, 6) for u in
                   U("h_types%d" % i, "types", "asan", n=T(tier, 1, 4), scale=T(tier, 8 if i == 1 else 2, 20), timeout=800)
                   + U("h_types%d" % i, "types", "plain", n=T(tier, 1, 4), scale=T(tier, 3, 60), timeout=800)]
     + U("h_types6", "odds", "plain", n=1, scale=T(tier, 4, 60), timeout=800)
     + U("h_types6", "odds", "asan", n=1, scale=T(tier, 2, 20), timeout=800)
     + U("h_types1", "bigs", "plain", n=T(tier, 3, 6), scale=T(tier, 3, 40), timeout=800)
     + U("h_types1", "bigs", "asan", n=1, scale=T(tier, 1, 8), timeout=800))
TECH["C08"] = "value oracle over typed generators at sender, wire, receiver and read-back, with kind and range mismatches, ASan/UBSan"

prop("C09", "exploration",
     "Five threads mix unknown names, wrong argument counts and types, functions of all shapes throwing everything, types whose packing, "
     "unpacking or conversion throws, throwing callbacks and undeliverable calls, from three instances incl. the target itself, "
     "while other calls must keep their exact results; executions per function are counted and at the end all handler and "
     "callback threads must still serve; names and exception texts of every length, also around powers of two up to 300 000 "
     "characters, must come back complete. Non-trivial: new (kind of error, function, style, caller) or length.",
     RPC_ASSUME + ["function names and exception texts without embedded zero bytes"],
     lambda tier: U("h_err", "errors", "asan", n=T(tier, 2, 6), scale=T(tier, 6, 30), timeout=800, leaks=1)
     + U("h_err", "errors", "plain", n=T(tier, 2, 6), scale=T(tier, 10, 60), timeout=800)
     + U("h_err", "errors", "tsan", n=1, scale=T(tier, 4, 15), timeout=800)
     + U("h_err", "lengths", "asan", n=1, scale=T(tier, 1, 8), timeout=800, leaks=1)
     + U("h_err", "lengths", "plain", n=T(tier, 1, 4), scale=T(tier, 2, 30), timeout=800))
TECH["C09"] = "error-value and execution-count monitor over a generated matrix of remote failures with concurrent exact-result calls, ASan/LSan/TSan"

prop("C20", "exploration",
     "An independent decoder with size and depth limits judges random, mutated and exhaustive-first-byte inputs decoded at once "
     "(four interfaces), by visits, and streamed in random chunks with kept references; an independent reader judges all ways of "
     "packing random values; libFuzzer searches further inputs by coverage. Non-trivial: new (verdict, values, first 24 bytes).",
     ["a header that asks for more memory than the machine has may fail with bad_alloc"],
     lambda tier: U("h_codec", "codec", "asan", n=T(tier, 2, 8), scale=T(tier, 12, 60), timeout=800)
     + U("h_codec", "codec", "plain", n=1, scale=T(tier, 40, 400), timeout=800)
     + U("h_codec", "codec_pack", "asan", n=T(tier, 1, 4), scale=T(tier, 1, 15), timeout=800)
     + U("h_codec", "codec_pack", "plain", n=T(tier, 1, 4), scale=T(tier, 6, 60), timeout=800)
     + U("h_codec", "codec_fuzz", "fuzz", n=T(tier, 1, 6), scale=T(tier, 1, 20), timeout=850))
TECH["C20"] = "differential monitor against an independent codec over random, mutated, chunked and coverage-guided inputs, ASan/UBSan"

prop("C11", "exploration",
     "One or seven threads, handlers and callbacks bind, unbind and list while calls run from two instances; every call, bind and "
     "list result must fit a state of its own time (single changer: exact snapshots; many changers: a linearizability search per "
     "name), and bound objects must outlive their running calls and no longer. Non-trivial: new state window or history shape.",
     RPC_ASSUME,
     lambda tier: U("h_bind", "bind_single", "asan", n=T(tier, 2, 6), scale=T(tier, 8, 60), timeout=800)
     + U("h_bind", "bind_single", "plain", n=T(tier, 2, 6), scale=T(tier, 20, 200), timeout=800)
     + U("h_bind", "bind_single", "tsan", n=1, scale=T(tier, 4, 30), timeout=800)
     + U("h_bind", "bind_many", "asan", n=T(tier, 1, 4), scale=T(tier, 12, 100), timeout=800)
     + U("h_bind", "bind_many", "plain", n=T(tier, 3, 6), scale=T(tier, 40, 300), timeout=800)
     + U("h_bind", "bind_many", "tsan", n=1, scale=T(tier, 8, 60), timeout=800))
TECH["C11"] = "interval and linearizability checking of recorded bind/unbind/list/call histories with injected delays, ASan/TSan"

prop("C12", "fault_enumeration",
     "Random sequences of init (usable, unusable, borderline names and parameters), uninit, bind, settings and calls over 1-4 "
     "instances with confusable names, against a state model with /dev/shm, threads, descriptors and mappings after every step; "
     "every system call that init makes, and those of opening a target, fails once. Non-trivial: new (situation, operation) or fault.",
     RPC_ASSUME + ["memory allocation does not fail"],
     lambda tier: U("h_life", "init_model", "plain", n=T(tier, 3, 6), scale=T(tier, 20, 200), timeout=800)
     + U("h_life", "init_model", "asan", n=T(tier, 1, 4), scale=T(tier, 8, 80), timeout=800, leaks=1)
     + U("h_life", "init_faults", "plain", n=T(tier, 2, 4), scale=T(tier, 1, 10), timeout=800)
     + U("h_life", "init_faults", "asan", n=T(tier, 1, 2), scale=T(tier, 1, 5), timeout=800, leaks=1))
TECH["C12"] = "reference-model monitor with resource counters and system-call fault injection, ASan/LSan"

prop("C14", "exploration",
     "uninit at random moments with peers calling, handlers running or held, pending calls to blocked, full and absent targets, "
     "chained callbacks and other threads calling, binding and querying through the instance, repeatedly, under injected delays; "
     "also with a queue lock that is never released; completions, handlers, duration, remains and the next incarnation are checked. Non-trivial: new (held, blocked, delays, "
     "ended calls, duration).",
     RPC_ASSUME + ["uninit is not called from the instance's own handlers or callbacks, nor by two threads at once", "'once the handlers have returned' means within 8 s, seen twice"],
     lambda tier: U("h_life", "shutdown", "asan", n=T(tier, 2, 6), scale=T(tier, 4, 40), timeout=800, leaks=1)
     + U("h_life", "shutdown", "plain", n=T(tier, 3, 6), scale=T(tier, 8, 80), timeout=800)
     + U("h_life", "shutdown", "tsan", n=T(tier, 2, 4), scale=T(tier, 3, 20), timeout=800)
     + U("h_call", "completions", "asan", n=1, scale=T(tier, 6, 40), timeout=800)
     + U("h_proc", "lost_lock", "plain", n=T(tier, 2, 4), scale=T(tier, 2, 20), timeout=850))
TECH["C14"] = "completion, liveness and resource monitors over shutdowns at random moments with injected delays, ASan/LSan/TSan"

prop("C24", "exploration",
     "Random sequences of moves (construction, assignment, swap, vectors, from functions, to oneself), bind, unbind, settings, "
     "init, calls in both directions, uninit and destruction in any order over 2-4 instances; names, settings, results and live "
     "copies of the bound objects are compared with a model. Non-trivial: new (situations of both instances, operation).",
     RPC_ASSUME + ["the content of a moved-from instance is not specified"],
     lambda tier: U("h_life", "moves", "asan", n=T(tier, 2, 6), scale=T(tier, 12, 150), timeout=800, leaks=1)
     + U("h_life", "moves", "plain", n=T(tier, 1, 4), scale=T(tier, 24, 300), timeout=800)
     + U("h_life", "moves", "tsan", n=1, scale=T(tier, 6, 80), timeout=800))
TECH["C24"] = "reference-model monitor of move sequences with object-lifetime counters, ASan/LSan/TSan"

prop("C13", "exploration",
     "A channel lives through incarnations in new processes and in the callers' process with changing queue parameters; they leave "
     "or are killed idle, serving, with a full queue, or at an operation inside init, serving or uninit (every point in turn). "
     "Long-lived callers with other parameters check who answers, while up, down and restarting, both directions, full strength, "
     "and which incarnation ran each call. Callers of a staying channel leave while their calls run there and come back. Non-trivial: new (end, locks, point, parameters).",
     RPC_ASSUME + ["a call that fails with TIMEOUT may have met an expired lock timeout and is tried again for 12 s",
                   "callers whose own queue lock was lost with the killed process (known finding of C19) are restarted"],
     lambda tier: U("h_proc", "restart", "plain", n=T(tier, 4, 8), scale=T(tier, 3, 40), timeout=850)
     + [u for i in range(4) for u in U("h_proc", "restart", "plain", rest=["points", i, 4], timeout=850)]
     + U("h_proc", "caller_back", "plain", n=T(tier, 2, 6), scale=T(tier, 5, 60), timeout=850)
     + U("h_proc", "caller_back", "asan", n=1, scale=T(tier, 2, 20), timeout=850)
     + U("h_proc", "restart", "asan", n=1, scale=T(tier, 2, 20), timeout=850)
     + U("h_proc", "restart", "tsan", n=1, scale=T(tier, 1, 8), timeout=850)
     + U("h_wire", "wire_reborn", "plain", n=1, scale=T(tier, 1, 20), timeout=850))
TECH["C13"] = "incarnation-tracking monitor over restarts and kills at enumerated points (crash injection), ASan/TSan"

prop("C19", "fault_enumeration",
     "A peer process that calls and serves two instances is killed at a counted operation (in its init, while calling and serving), "
     "from outside, or with held handlers and a full queue; the survivors' calls to each other must all succeed, those to the dead "
     "peer must end in time, and afterwards all handler threads must serve. Which locks the peer may have held is tracked. "
     "Non-trivial: new (mode, locks, point).",
     RPC_ASSUME + ["deaths while possibly holding a survivor's queue lock are the known finding; after them only the end of all calls and recovery by restart are checked"],
     lambda tier: U("h_proc", "peer_death", "plain", n=T(tier, 5, 8), scale=T(tier, 3, 60), timeout=850)
     + U("h_proc", "peer_death", "asan", n=1, scale=T(tier, 2, 20), timeout=850)
     + U("h_proc", "peer_death", "tsan", n=1, scale=T(tier, 1, 10), timeout=850)
     + U("h_proc", "lost_lock", "plain", n=T(tier, 2, 6), scale=T(tier, 2, 20), timeout=850)
     + U("h_proc", "lost_lock", "asan", n=1, scale=T(tier, 1, 10), timeout=850))
TECH["C19"] = "crash injection into peer processes with survivor-outcome, liveness and lock-ownership monitors, ASan/TSan"

prop("C17", "exploration",
     "3-7 threads do random operations of every kind (calls of all styles, sizes and outcomes, binding changes, queries, releases, "
     "lock timeouts, also from handlers and callbacks, own short-lived peers, moves) on four shared instances, one of which is "
     "stopped and started meanwhile, under injected delays; TSan, ASan, UBSan, LSan and memcheck judge. Harness counters impose no order "
     "on the threads. Non-trivial: new pair of operations that overlapped on one instance.",
     RPC_ASSUME + ["uninit is not called from the instance's own handlers or callbacks, nor by two threads at once"],
     lambda tier: U("h_race", "mix", "tsan", n=T(tier, 5, 8), scale=T(tier, 10, 150), timeout=850)
     + U("h_race", "mix", "tsan", n=T(tier, 2, 4), rest=["calm"], scale=T(tier, 15, 150), timeout=850)
     + U("h_race", "mix", "asan", n=T(tier, 2, 6), scale=T(tier, 10, 150), timeout=850, leaks=1)
     + U("h_race", "mix", "asan", n=T(tier, 1, 4), rest=["calm"], scale=T(tier, 20, 200), timeout=850, leaks=1)
     + U("h_race", "mix", "vg", n=T(tier, 1, 4), scale=T(tier, 1, 15), timeout=850)
     + U("h_life", "shutdown", "tsan", n=T(tier, 1, 3), scale=T(tier, 2, 20), timeout=850)
     + U("h_bind", "bind_many", "tsan", n=1, scale=T(tier, 4, 60), timeout=850)
     + U("h_proc", "params", "asan", n=T(tier, 1, 2), scale=T(tier, 1, 20), timeout=850))
TECH["C17"] = "ThreadSanitizer, AddressSanitizer, UBSan, LeakSanitizer and memcheck over a random mix of all API operations with injected delays"

prop("C23", "exploration",
     "Batches of calls of one style (sync; promise read, unread or released at once; callback) and one outcome (26 kinds, from success to "
     "lock timeout), of binding changes, and of instances that come and go, are repeated; after each batch, at rest, heap bytes, descriptors, "
     "threads, mappings and /dev/shm are measured, and must stop growing. LSan. Non-trivial: new (outcome, style).",
     RPC_ASSUME + ["growth below 6 bytes per call (20 per instance) is not seen", "calls whose response never comes complete only at uninit and are released here"],
     lambda tier: [u for i in range(4) for u in U("h_leak", "batches", "plain", rest=[i, 4], scale=T(tier, 2, 8), timeout=850, env={"GLIBC_TUNABLES": "glibc.malloc.tcache_count=0"})]
     + [u for i in range(4) for u in U("h_leak", "batches", "asan", rest=[i, 4], scale=T(tier, 1, 4), timeout=850, leaks=1)]
     + U("h_leak", "churn", "plain", n=T(tier, 1, 2), scale=T(tier, 3, 10), timeout=850, env={"GLIBC_TUNABLES": "glibc.malloc.tcache_count=0"})
     + U("h_leak", "churn", "asan", n=T(tier, 1, 2), scale=T(tier, 1, 4), timeout=850, leaks=1))
TECH["C23"] = "resource monitors (heap, descriptors, threads, mappings, shared objects) over repeated batches per call style and outcome, LSan"

prop("C18", "exploration",
     "Instances in one process and in others, every one with other parameters (1 x 1000000 to 4096 x 1), exchange byte strings up to "
     "the last byte that fits in both directions, concurrently; contents, lengths, refusals and executions are checked. Queues are "
     "also opened with all kinds of other parameters at the raw level. Non-trivial: new (parameters of both, fitting).",
     RPC_ASSUME,
     lambda tier: U("h_proc", "params", "plain", n=T(tier, 3, 6), scale=T(tier, 4, 60), timeout=850)
     + U("h_proc", "params", "asan", n=T(tier, 1, 4), scale=T(tier, 2, 20), timeout=850)
     + (U("h_proc", "params", "plain", n=2, rest=["big"], scale=3, timeout=850, weight=4) if tier == "thorough" else [])
     + U("h_queue", "fifo_random", "asan", n=T(tier, 1, 4), rest=["mixed"], scale=T(tier, 5, 40), timeout=600)
     + U("h_queue", "geometry", "asan")
     + U("h_flow", "oversize", "plain", n=1, scale=T(tier, 2, 20), timeout=800)
     + U("h_types1", "bigs", "plain", n=1, scale=T(tier, 2, 20), timeout=800))
TECH["C18"] = "content and refusal oracle over instances with random differing queue geometries across processes, ASan/UBSan"
