import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=hook)))

p("C01","A successful call returns its own function's result for its own arguments",
 "A call that succeeds returns exactly the value which the named bound function of the named target channel produced for that call's own arguments. Results are never swapped, mixed or shared between calls, callers, function names or channels, however many calls are in flight from however many threads, instances and processes, including calls an instance makes to itself and calls made from inside handlers and callbacks.",
 ["schedules","inputs","histories"],"every interleaving of concurrent sync, promise and callback calls from any number of threads/instances/processes, every function name and argument value",
 "Tests make one call at a time with one function name; crossed results need many calls pending at once, or particular combinations of function names and call numbers.",
 ["src/veigar.cpp","src/resp_dispatcher.cpp","src/call_dispatcher.cpp","src/sender.cpp","include/veigar/veigar.inl"],
 [("call id generation","src/veigar.cpp getNextCallId"),("pending call table","src/resp_dispatcher.cpp ongoingCalls_"),("function lookup and dispatch","src/call_dispatcher.cpp dispatchCall")],
 [("ongoingCalls_","call id -> promise/callback of a call waiting for its response","src/resp_dispatcher.h")],
 ["CallResult at the caller","handler invocation at the callee"])
p("C02","A call runs its function at most once, exactly once if it produced an outcome",
 "Every call runs its target function at most once. A call that ends with the function's result, or with the error the function itself raised, ran it exactly once; a call reported as not delivered (unknown or stopped channel, message larger than the queue, queue still full at the timeout, caller not initialised) never runs it, neither before nor after the report.",
 ["schedules","histories","inputs"],"every interleaving of callers, sender, dispatcher threads; every delivery outcome",
 "Tests never count handler executions, and duplicates or late executions need contention between several consumers, full queues, or retries.",
 ["src/sender.cpp","src/message_queue.cpp","src/call_dispatcher.cpp"],
 [("push/pop under the inter-process lock","src/message_queue.cpp pushBack/popFront"),("single hand-off from send list to queue","src/sender.cpp sendCallThreadProc")],
 [("callList_","calls accepted but not yet pushed to the target queue","src/sender.h")],
 ["handler invocation log at the callee joined with CallResult at the caller"])
p("C03","Every asynchronous call completes exactly once, whatever its outcome",
 "Every call made with a callback invokes that callback exactly once, and every call made with a promise makes its future ready with a value exactly once (never an exception such as a broken promise), whether the outcome is a result, an error raised by the target, an unreachable channel, a full queue, or the calling instance being shut down while the call is still pending. No call that was started before the calling instance's shutdown completes after that shutdown has returned.",
 ["schedules","histories","fault_sequences"],"every mix of outcomes and every point at which the caller's uninit can fall",
 "Tests await a handful of successful calls; they never shut down with calls pending and never check that a callback is not invoked twice.",
 ["src/sender.cpp","src/resp_dispatcher.cpp","include/veigar/veigar.inl"],
 [("failure completion in the sender","src/sender.cpp sendCallThreadProc"),("response completion","src/resp_dispatcher.cpp dispatchRespThreadProc"),("shutdown completion","src/resp_dispatcher.cpp uninit, src/sender.cpp uninit")],
 [("ongoingCalls_","pending completions","src/resp_dispatcher.h")],["callback invocations","future state"])
p("C04","A synchronous call honours its timeout in both directions",
 "A synchronous call returns no later than shortly after its timeout, for every timeout value and whatever state the target is in (not started, stopped, crashed, stuck in a slow handler, queue full, queue lock held elsewhere), and then reports a timeout or failure. Conversely a result that becomes available before the timeout is returned as a success, however long the permitted timeout is; a call never gives up early.",
 ["inputs","fault_sequences","schedules"],"all 32-bit timeout values; all target states and transitions during the call",
 "Tests only call healthy targets with generous small timeouts; the one slow-handler test calls a non-existing channel by mistake, so an unbounded wait or a wrapped large timeout goes unseen.",
 ["include/veigar/veigar.inl","src/sender.cpp","src/veigar.cpp","src/semaphore.cpp"],
 [("wait for the future","include/veigar/veigar.inl syncCall"),("wait for queue space","src/sender.cpp sendCallThreadProc"),("timeout conversion to microseconds","src/veigar.cpp sendCall"),("timed lock","src/semaphore.cpp wait(ms)")],
 None,["return time and error code of syncCall"])
p("C05","The message queue is a bounded FIFO of exact byte strings",
 "For every sequence of pushes and pops of messages of any sizes, through any of the handles opened on a queue, the queue behaves as a bounded FIFO: each pop yields the oldest message byte for byte with its exact length, a push succeeds if and only if a message slot is free and the bytes fit in the unused space, and rejected operations (full, oversized or empty message, empty queue, too small buffer - which reports the needed size) change nothing. It never touches memory outside its shared segment.",
 ["inputs","histories"],"all push/pop sequences over all message sizes and queue geometries",
 "Tests push at most three equal 12-byte messages, so the compaction path, mixed sizes, wrap-around and exact-fit boundaries are hardly exercised and contents are never different across a move.",
 ["src/message_queue.cpp"],
 [("append and compact","src/message_queue.cpp pushBack"),("take and shift size table","src/message_queue.cpp popFront"),("space check","src/message_queue.cpp checkSpaceSufficient")],
 [("queue header","total size, message count, front free bytes, size table in shared memory","src/message_queue.cpp")],["MessageQueue push/pop return values and buffers"])
p("C06","A shared queue neither loses, duplicates, tears nor reorders messages",
 "When any number of threads and processes push to and pop from one queue under its inter-process lock, every message whose push succeeded is popped exactly once with intact content, nothing else is ever popped, and messages of one producer come out in the order that producer pushed them. Waiting for the read signal and popping once per signal drains everything that was pushed and signalled.",
 ["schedules","histories"],"all interleavings of several producer and consumer processes on few-slot queues",
 "The multi-thread test uses one producer, one consumer, one process and identical messages, so loss plus duplication or reordering is invisible.",
 ["src/message_queue.cpp","src/semaphore.cpp","src/shared_memory.cpp"],
 [("inter-process lock","src/message_queue.cpp processRWLock/processRWUnlock"),("read signal","src/message_queue.cpp notifyRead/waitForRead")],
 None,["per-process event logs of pushes and pops, merged offline"])
p("C07","Lock and signal primitives conserve tokens and honour timeouts",
 "An inter-process semaphore never lets more waits succeed than its initial value plus the releases made so far (used as a lock it excludes all others), never loses a release, and wakes a waiter for each. A timed wait succeeds whenever a token is or becomes available during its timeout and otherwise fails after its timeout - neither at once nor much later - at whatever moment of the wall clock it starts and even if signals interrupt the thread; probing whether a semaphore exists does not create it. The in-process event likewise wakes its waiters on set or cancel and an unlimited wait really waits.",
 ["schedules","inputs","fault_sequences"],"all clock phases, all timeout values, all interleavings of waiters, releasers and signals, several processes",
 "The test harness deliberately starts each case just after a full second to dodge the phase dependence, and tests only check that 1000 ms takes more than 500 ms.",
 ["src/semaphore.cpp","src/event.cpp","src/message_queue.cpp"],
 [("absolute deadline computation","src/semaphore.cpp wait(ms)"),("existence probe","src/semaphore.cpp IsExist"),("condition variable with predicate","src/event.cpp")],
 None,["wait/release return values and times"])
p("C08","Arguments and results of every supported type arrive unchanged",
 "For every supported argument or result type (booleans, all integer widths and signs, floats, characters, strings and byte buffers, vectors, sets, maps, pairs, optionals, string views, user-defined structures and nestings of them) and every value of it, including extremes, NaN and infinities, embedded zero bytes, empty and large containers, the bound function receives exactly the value the caller passed and the caller can read back exactly the value the function returned. A value of another kind than the receiving type, or an integer outside its range, is reported as an error, never silently altered.",
 ["inputs"],"all values of all documented types, both directions, all three call styles",
 "Each type test sends one small literal value; range limits, size-class boundaries of the encoding and empty values are not covered.",
 ["include/veigar/veigar.inl","include/veigar/call_dispatcher.inl","include/veigar/msgpack","src/response.cpp"],
 [("pack arguments","include/veigar/veigar.inl doAsyncCall"),("convert and invoke","include/veigar/call_dispatcher.inl bind"),("result packing and cloning","src/response.cpp getData, src/resp_dispatcher.cpp")],
 None,["argument values inside the handler","CallResult.obj at the caller"])
p("C09","Remote failures come back as error values and harm nobody else",
 "When a call cannot be executed - unknown function, wrong number or types of arguments, or a function that throws anything - the caller gets an unsuccessful result with a non-empty error message (naming the unknown function, or carrying the exception's text), and a function whose arguments do not match is not run at all. No exception escapes from any call API or from library threads (a throwing user callback included), and the target and the caller keep serving all other and later calls correctly.",
 ["inputs","histories","schedules"],"all mismatching argument lists, all exception kinds, any mix with healthy calls",
 "Tests never make a handler throw, never pass wrong arguments and only once call an unknown channel.",
 ["src/call_dispatcher.cpp","include/veigar/call_dispatcher.inl","src/resp_dispatcher.cpp","src/sender.cpp"],
 [("catch and convert to an error response","src/call_dispatcher.cpp dispatchCall"),("argument conversion","include/veigar/call_dispatcher.inl"),("error to result","src/resp_dispatcher.cpp dispatchRespThreadProc")],
 None,["CallResult","handler invocation log","process exit status"])
p("C10","Arbitrary bytes in a channel's queues cannot crash or disable it",
 "Whatever byte strings any process places in a channel's call or response queue - truncated, garbage, wrongly typed, deeply nested, trailing or concatenated messages, duplicate or unsolicited responses - the receiving process does not crash, hang, or access memory improperly, and no such message disturbs the calls before, between or after it: every well-formed call is still executed once and answered correctly.",
 ["inputs","histories"],"all byte strings and sequences of them, interleaved with valid traffic",
 "Tests only ever exchange messages made by the library itself.",
 ["src/call_dispatcher.cpp","src/resp_dispatcher.cpp","include/veigar/msgpack/v3/unpack.hpp","include/veigar/msgpack/v2/parse.hpp"],
 [("message parsing loop","src/call_dispatcher.cpp dispatchThreadProc"),("response parsing loop","src/resp_dispatcher.cpp dispatchRespThreadProc")],
 [("unpacker state","bytes and parser state carried between messages by each worker","src/call_dispatcher.cpp, src/resp_dispatcher.cpp")],
 ["process survival, sanitizer reports, results of valid calls"])
p("C11","Binding changes are atomic, immediate and safe during traffic",
 "Binding, unbinding and listing functions may be done at any time, also while calls are being served and from inside handlers: a call made after bind returned finds the function, a call made after unbind returned gets a 'could not find' error, binding an empty or already bound name is refused and leaves the existing binding in force, and the list of names is exactly the set bound. A call running while its function is unbound completes normally.",
 ["schedules","histories"],"all histories of concurrent bind/unbind/list/call operations on few names",
 "Tests bind and unbind from one thread before any traffic exists, though the examples bind after init.",
 ["include/veigar/call_dispatcher.h","include/veigar/call_dispatcher.inl","src/call_dispatcher.cpp"],
 [("function registry","src/call_dispatcher.cpp funcs_")],[("funcs_","bound functions by name","include/veigar/call_dispatcher.h")],
 ["history of bind/unbind/call with invocation and response times"])
p("C12","Init and uninit follow a clean state model and leave nothing behind",
 "For every sequence of init and uninit calls with any parameters, init succeeds exactly when the parameters are usable and the instance is not initialised under another name, otherwise it returns false without side effects or crash and the instance stays usable; accessors report the current state. After uninit, or after a failed init, none of the channel's shared memory, named semaphores, threads, file descriptors or mappings remains, however often the cycle is repeated.",
 ["histories","inputs","fault_sequences"],"all sequences of lifecycle calls, all parameter values, failures of the underlying system calls",
 "One test performs a fixed five-step sequence with valid names and looks only at return values.",
 ["src/veigar.cpp","src/message_queue.cpp","src/shared_memory.cpp","src/semaphore.cpp"],
 [("init rollback","src/veigar.cpp Impl::init"),("uninit","src/veigar.cpp Impl::uninit"),("segment and semaphore creation and removal","src/message_queue.cpp create/close")],
 None,["return values, /dev/shm listing, /proc/self thread, fd and map counts"])
p("C13","A restarted channel is reachable again by long-lived callers",
 "After a channel's owner has stopped (orderly or killed at any point) and a channel of that name has been started again, with the same or different queue parameters, calls from instances that had been talking to the previous incarnation reach the new one and succeed, and calls made while the channel is down end unsuccessfully. Nothing left by the previous incarnation (messages, lock state, signals) affects the new one.",
 ["histories","crash_points","configurations"],"all restart histories and kill points of the owner, any time of caller activity relative to them",
 "The kill-and-restart tests are Windows-only stubs here; in-process tests never restart a called channel.",
 ["src/sender.cpp","src/message_queue.cpp","src/shared_memory.cpp","src/semaphore.cpp"],
 [("cache of target queues","src/sender.cpp getTargetCallMessageQueue/getTargetRespMessageQueue"),("creation over leftovers","src/message_queue.cpp create")],
 [("targetCallMsgQueues_","handles to other channels' queues kept for reuse","src/sender.h")],["results of calls across incarnations"])
p("C14","Shutdown at any moment is safe and finite",
 "uninit may be called at any moment - with calls arriving, handlers running, own calls and callbacks pending, other threads calling through the instance - and returns once the running handlers have, without crash, deadlock, data race or leaked memory; calls pending in or started from other threads end with a failure or timeout value, never with an exception or a hang. The same instance can then be initialised again and works as a new one.",
 ["schedules","histories"],"all interleavings of uninit with inbound and outbound traffic",
 "Tests shut down only idle instances.",
 ["src/veigar.cpp","src/sender.cpp","src/call_dispatcher.cpp","src/resp_dispatcher.cpp"],
 [("ordered teardown","src/veigar.cpp Impl::uninit"),("worker wake-up and join","src/call_dispatcher.cpp uninit, src/resp_dispatcher.cpp uninit, src/sender.cpp uninit")],
 None,["process survival, sanitizer reports, results of all calls"])
p("C15","A full target queue delays calls and drains, and never wedges",
 "While the target's queue is full, calls to it wait; as soon as the target frees space within a call's timeout the call is delivered, and a call whose timeout passes first reports a timeout. Waiting callers never stop the target from draining its queue or serving the messages already accepted, and afterwards the channel works at full capacity again. A message larger than the whole queue fails at once, and one merely larger than the expected size is delivered. Calls waiting for one target's queue do not hold up calls to other targets.",
 ["schedules","inputs","histories"],"all arrival patterns against slow handlers and small queues, all message sizes around the limits",
 "Tests use a 200-slot queue with one call at a time; the queue is never full.",
 ["src/sender.cpp","src/message_queue.cpp","src/call_dispatcher.cpp"],
 [("wait for space","src/sender.cpp sendCallThreadProc"),("capacity check","src/message_queue.cpp checkSpaceSufficient")],
 None,["results and completion times of bursts of calls"])
p("C16","Every accepted message is processed without further traffic",
 "Once a call or response has been accepted into a channel's queue and the channel stays up, it is processed within bounded time even if no further message ever arrives, whatever bursts, lock contention, lock-acquisition timeouts, spurious signals or slow handlers occurred before. No backlog ever remains stuck while dispatcher threads are idle.",
 ["schedules","fault_sequences","histories"],"all interleavings of pushes, signals and lock timeouts with dispatcher threads",
 "Tests send one message at a time and never hold the queue lock longer than the lock timeout.",
 ["src/call_dispatcher.cpp","src/resp_dispatcher.cpp","src/sender.cpp","src/event.cpp"],
 [("one read signal per message","src/message_queue.cpp notifyRead/waitForRead"),("lock timeout path","src/call_dispatcher.cpp dispatchThreadProc, src/resp_dispatcher.cpp dispatchRespThreadProc"),("send list wake-up","src/sender.cpp, src/event.cpp")],
 None,["number of accepted and processed messages after a quiet period"])
p("C17","No data race, memory error or undefined behaviour in concurrent use",
 "Under every documented use of the API by concurrent threads - calls of all styles and outcomes, binding changes, releasing calls, setting the lock timeout, repeated start and stop of peers - the library has no data race, no invalid or leaked memory and no undefined behaviour.",
 ["schedules","inputs"],"all interleavings of API operations on shared instances",
 "Tests run uninstrumented and mostly single-threaded, so a race or an overlapping copy leaves no trace.",
 ["src/veigar.cpp","src/sender.cpp","src/call_dispatcher.cpp","src/resp_dispatcher.cpp","src/message_queue.cpp","src/string_helper.cpp"],
 [("mutexes around shared lists and tables","src/sender.cpp, src/resp_dispatcher.cpp, src/call_dispatcher.cpp")],None,["ThreadSanitizer, AddressSanitizer, LeakSanitizer and UBSan reports"])
p("C18","Peers with different queue parameters interoperate",
 "Two instances initialised with different queue capacities or expected message sizes can call each other in both directions with messages of any size the receiving queue can hold; the receiver's own parameters govern. No combination of parameters lets one side misplace, truncate or corrupt messages, overflow a size computation or crash either process.",
 ["configurations","inputs"],"all pairs of queue parameter settings, including very large ones",
 "Every test uses the default parameters on both sides.",
 ["src/sender.cpp","src/message_queue.cpp","src/shared_memory.cpp","src/veigar.cpp"],
 [("geometry of an opened queue","src/message_queue.cpp open"),("size computation","src/message_queue.cpp create")],None,["results of calls between differently configured peers"])
p("C19","The death of one peer process does not disable the others",
 "If a process using a channel dies at any point - before, while or after accessing another channel's queues - that channel and all its other peers keep working: their calls keep succeeding, and the only calls affected are those made by or to the dead process, which end with a timeout or failure.",
 ["crash_points","schedules"],"every point at which a peer can be killed",
 "The tests that kill a process are not implemented on this platform.",
 ["src/message_queue.cpp","src/semaphore.cpp","src/sender.cpp"],
 [("inter-process lock held during queue access","src/sender.cpp sendCallThreadProc/sendRespThreadProc"),("separate signal semaphore","src/message_queue.cpp notifyRead")],None,["results of survivors' calls after a kill"])
p("C20","The message codec is exact and safe on every input and chunking",
 "Encoding any value and decoding the bytes yields the same value; decoding any byte string gives the same objects, the same consumed length, and the same acceptance or rejection whether it is decoded at once or streamed in any chunks, and agrees with the published format. No input makes the decoder read or write out of bounds, and a rejected or incomplete input never yields an object.",
 ["inputs"],"all byte strings, all chunkings, all values of the object model",
 "The vendored codec has no tests in this repository at all.",
 ["include/veigar/msgpack/v3/parse.hpp","include/veigar/msgpack/v3/unpack.hpp","include/veigar/msgpack/v2/create_object_visitor.hpp","include/veigar/msgpack/v1/pack.hpp","include/veigar/msgpack/v1/object.hpp","include/veigar/msgpack/v1/detail/cpp11_zone.hpp","include/veigar/msgpack/sysdep.hpp"],
 [("parser state machine","include/veigar/msgpack/v3/parse.hpp"),("packer","include/veigar/msgpack/v1/pack.hpp"),("zone allocator","include/veigar/msgpack/v1/detail/cpp11_zone.hpp")],None,["decoded objects compared with an independent decoder"])
p("C21","Messages on the wire follow the documented call and response format",
 "Every call is exactly one array [0, call id, caller channel, function name, array of arguments] and every response exactly one array [1, call id, error or nil, result or nil], with call ids unique per caller; so a peer written independently of the library can call its functions and serve its calls. A response answers exactly the call whose id it carries, goes to the caller channel named in that call, and carries either an error message or the result.",
 ["inputs","histories"],"all calls and all outcomes, with a foreign implementation on either side",
 "No test looks at the bytes exchanged or uses a foreign peer.",
 ["include/veigar/veigar.inl","src/response.cpp","include/veigar/detail/response.h","include/veigar/call_dispatcher.h"],
 [("call message","include/veigar/veigar.inl doAsyncCall/doAsyncCallWithCallback"),("response message","src/response.cpp getData")],None,["raw bytes taken from the queues, decoded by an independent decoder"])
p("C22","Late or foreign responses never complete another call",
 "A response that arrives after its call timed out or was released, a second response to one call, or a response to a call made by an earlier incarnation of the caller (even an earlier process with the same channel name) is discarded: it never completes or alters any other call, never invokes a callback again and does not disturb later responses. Releasing a call, at any time and any number of times, affects only that call.",
 ["histories","schedules","crash_points"],"all orders of responses, releases, timeouts and caller restarts",
 "Tests release only calls that are already finished and never restart a caller.",
 ["src/resp_dispatcher.cpp","src/uuid.cpp","src/veigar.cpp","include/veigar/veigar.inl"],
 [("call ids","src/veigar.cpp getNextCallId, src/uuid.cpp"),("pending call removal","src/resp_dispatcher.cpp releaseCall")],None,["results of calls issued around late responses"])
p("C23","Finished calls leave no resources behind",
 "After any number of calls of any style and outcome have completed (and promise calls have been released), memory, threads, file descriptors and shared objects in use by caller and callee return to a level independent of the number of calls made.",
 ["histories"],"all call histories of any length",
 "Tests make a few calls per process and never measure resources.",
 ["src/sender.cpp","src/resp_dispatcher.cpp","src/veigar.cpp","include/veigar/veigar.inl"],
 [("message buffer ownership","src/sender.cpp, src/veigar.cpp sendCall/sendResponse"),("pending call removal","src/resp_dispatcher.cpp releaseCall")],None,["allocated heap bytes, /proc/self/fd, thread count before and after batches"])
p("C24","Moving an idle instance keeps its bindings and makes the target fully usable",
 "Move-constructing or move-assigning an instance that is not initialised transfers its bindings and settings; the target then works exactly like an instance on which they were made directly (bind, init, call, be called, uninit), the source can be destroyed before or after, and nothing is leaked, freed twice or accessed after destruction.",
 ["histories","inputs"],"all sequences of moves, bindings and lifecycle calls",
 "No test moves an instance.",
 ["src/veigar.cpp","include/veigar/veigar.h"],
 [("move operations","src/veigar.cpp Veigar(Veigar&&), operator=")],None,["behaviour of the moved-to instance, sanitizer reports"])
p("C25","Shared memory segments have exact create, open and close semantics",
 "For every sequence of create, open and close on any number of handles of a name, open succeeds exactly while a segment of that name exists with at least the requested size, all handles of one segment see the same bytes at the full size, closing a handle that did not create the segment never removes it, closing the creating handle removes the name while existing handles keep working, and a handle can be reused after close. An operation that fails leaves no descriptor, mapping or newly created name behind.",
 ["histories","fault_sequences","inputs"],"all operation sequences over several handles, names and sizes, with failing system calls",
 "Three fixed sequences with one size are tested, contents are never read or written.",
 ["src/shared_memory.cpp","src/shared_memory.h"],
 [("create","src/shared_memory.cpp create"),("open","src/shared_memory.cpp open"),("close","src/shared_memory.cpp close")],
 [("shmCreator_","whether this handle created (and must remove) the segment","src/shared_memory.h")],["return values, mapped bytes, /dev/shm listing"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
