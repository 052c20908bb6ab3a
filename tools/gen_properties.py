#!/usr/bin/env python3
"""Source of truth for /verif/properties.jsonl (run this to regenerate it)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or []
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "A Task delivers its outcome to every awaiter exactly once",
 "A coroutine returning QCoro::Task runs eagerly up to its first real suspension, and whatever it finally produces (its returned value, or the exception that escaped it) is observed by every coroutine that co_awaits the task: each awaiter is resumed exactly once, never before the task finished, and always by the time the event loop goes idle after it finished. Awaiting an already finished task continues without suspending; awaiting a default-constructed or moved-from task suspends the awaiter for ever (never crashes), and isReady() is true exactly when the task is finished or not associated with a coroutine.",
 ["programs", "schedules", "histories"],
 "every program of nested/shared Task awaits (any tree or DAG of coroutines, any number of awaiters per task), every order in which the awaited events fire, normal and exceptional completion",
 "The unit tests await one or two tasks on one fixed timer schedule; they never vary the await graph, the number of awaiters, completion order or the mix of synchronous, asynchronous and exceptional completion.",
 ["qcoro/qcorotask.h", "qcoro/impl/taskfinalsuspend.h", "qcoro/impl/taskawaiterbase.h", "qcoro/impl/taskbase.h", "qcoro/impl/taskpromise.h", "qcoro/impl/taskpromisebase.h"],
 [("resuming the list of awaiting coroutines at final suspend", "qcoro/impl/taskfinalsuspend.h"), ("await_ready/await_suspend/await_resume of the task awaiter", "qcoro/impl/taskawaiterbase.h, qcoro/impl/taskbase.h"), ("result storage", "qcoro/impl/taskpromise.h")],
 ["co_await on Task", "Task::isReady()"])

prop("C02", "A Task coroutine's state is destroyed exactly once, at the right time",
 "Dropping, moving, overwriting or self-assigning Task objects in any order never stops, restarts or duplicates the coroutine: its body still runs to completion. Everything the coroutine owns (arguments, locals, stored result or exception) is destroyed exactly once: locals when the body is left, the rest once the coroutine has finished and no Task object refers to it any more, never earlier and without leaks.",
 ["histories", "schedules", "programs"],
 "all interleavings of creating, moving, move-assigning, self-assigning and destroying Task objects with the suspension, resumption and completion of the coroutines behind them, including while others await them",
 "Tests exercise a handful of hand-written lifetimes and mostly cannot see a leak or a late destruction; the property ranges over histories of handle operations interleaved with completions.",
 ["qcoro/qcorotask.h", "qcoro/impl/taskbase.h", "qcoro/impl/taskpromisebase.h", "qcoro/impl/taskfinalsuspend.h"],
 [("reference count shared by the Task object and the running coroutine", "qcoro/impl/taskpromisebase.h"), ("move operations and destructor", "qcoro/impl/taskbase.h")],
 ["destructors of user objects owned by the coroutine"])

prop("C03", "then() continuations follow the documented chaining rules",
 "For any chain of then() continuations on any task, each continuation callback runs exactly once after its predecessor succeeded (receiving its value if it accepts one), each error callback runs exactly once instead when the predecessor failed with a std::exception, and neither runs otherwise. The resulting task yields what the callback returned (awaiting it first when the callback is itself a coroutine), a default-constructed value when an error callback handled the failure, or else the exception propagated from the predecessor, from the callback or from the error callback.",
 ["programs", "inputs", "schedules"],
 "all chains of continuations mixing void/value results, callbacks with and without argument, plain and coroutine callbacks (completing now or later), error callbacks present or absent, throwing or not, on lvalue and rvalue tasks, for every base outcome",
 "Tests hard-code about fifteen two-link chains; the combinations (error handled upstream, void/value transitions, late coroutine callbacks, exceptions from error callbacks) multiply out far beyond them.",
 ["qcoro/impl/taskbase.h", "qcoro/qcorotask.h"],
 [("continuation coroutine wrapping the awaited task", "qcoro/impl/taskbase.h"), ("error callback dispatch and default value", "qcoro/impl/taskbase.h")],
 ["Task::then()"])

prop("C04", "waitFor() blocks until completion and returns the exact outcome",
 "QCoro::waitFor() on any awaitable (task given as lvalue or rvalue, lazy task, or any other awaitable type) returns exactly once the awaited operation has finished, yielding its value or rethrowing its exception, and keeps processing other events while blocked. This holds however the operation completes (before the call, synchronously, or later) and when waitFor() calls are nested inside each other through the event loop.",
 ["programs", "schedules", "inputs"],
 "all awaitable kinds, outcomes, completion delays and nestings of waitFor() inside event handlers and coroutines",
 "Tests call waitFor() with four fixed coroutines on one schedule and never nest it or vary the delay.",
 ["qcoro/impl/waitfor.h", "qcoro/qcorotask.h"],
 [("helper coroutine quitting a nested event loop", "qcoro/impl/waitfor.h"), ("finished flag checked before entering the loop", "qcoro/impl/waitfor.h")],
 ["QCoro::waitFor()"])

prop("C05", "QCoro::connect() invokes its callback exactly once iff context is alive",
 "QCoro::connect(task, context, callback) invokes the callback exactly once, with the task's value when the callback accepts it, when the task finishes successfully while the context object still exists. If the context was destroyed before the task finished, or the task finished with an exception, the callback is never invoked and nothing crashes; the same holds for other awaitables such as QFuture.",
 ["histories", "schedules", "programs"],
 "all orders of task completion and context destruction, all supported callback forms (functor, member function, with or without the value), void and valued tasks, tasks and other awaitables",
 "Tests check a few fixed orders for a few callback forms; the property quantifies over orders of completion, destruction and several connections sharing a context.",
 ["qcoro/impl/connect.h", "qcoro/qcorotask.h"],
 [("guarded pointer to the context checked when the continuation runs", "qcoro/impl/connect.h")],
 ["QCoro::connect()"])

prop("C06", "co_return delivers exactly the returned value and does not alter its source",
 "The value obtained by awaiting a Task or LazyTask equals the value the coroutine co_returned, for result types that are copyable, move-only, move- or copy-counting, or constructible from the co_returned expression. co_return of an lvalue that outlives the coroutine (member, global, referenced or const object) leaves that object unchanged, exactly like a return statement in a plain function.",
 ["inputs", "programs"],
 "all values and all value categories/type relations of the co_returned expression (prvalue, local, moved, referenced, const, converting), for eager and lazy tasks finishing now or later",
 "Tests return literals and locals of three types; none checks that the source object is left intact or that conversions preserve the value.",
 ["qcoro/impl/taskpromise.h", "qcoro/qcorotask.h", "qcoro/impl/lazytask.h"],
 [("overload set storing the returned value", "qcoro/impl/taskpromise.h"), ("handing the stored value to the awaiter", "qcoro/impl/taskbase.h")],
 ["co_return", "co_await"])

prop("C07", "A LazyTask runs only when awaited, once, and then behaves like a Task",
 "The body of a coroutine returning QCoro::LazyTask does not start until the task is awaited (directly, by waitFor(), or by an eager then() continuation; lazy continuation chains start nothing until the last link is awaited), and then runs exactly once with its result or exception reaching every awaiter. A LazyTask that is never awaited never runs and releases its arguments when destroyed; awaiting an empty or moved-from LazyTask suspends for ever instead of crashing, and continuations see the callbacks they were given whenever they eventually run.",
 ["programs", "schedules", "histories"],
 "all programs of lazy/eager tasks awaiting each other, all then() chains over lazy tasks, all histories of moving/dropping/awaiting (also repeatedly and concurrently), all completion orders",
 "Tests run seven fixed scenarios with at most one awaiter; none drops a lazy task unawaited, awaits one twice while running, or delays a continuation beyond the statement that created it with a stateful callback.",
 ["qcoro/qcorolazytask.h", "qcoro/impl/lazytask.h", "qcoro/impl/taskbase.h"],
 [("initial suspension and start on await", "qcoro/impl/lazytask.h"), ("continuation coroutine owning task and callbacks", "qcoro/impl/taskbase.h")],
 ["co_await on LazyTask", "LazyTask::then()"])

prop("C08", "A Generator yields exactly its sequence and owns its coroutine",
 "Iterating a QCoro::Generator observes exactly the values the coroutine co_yields, in order, computed on demand one at a time, followed by the end iterator when it returns or by its exception rethrown from begin() or ++ when it throws. Destroying, moving from or overwriting the generator object destroys the associated coroutine and everything it holds exactly once, at whatever point iteration stopped.",
 ["programs", "histories", "inputs"],
 "all producer scripts (finite, infinite, empty, throwing at any point), element categories, and all consumer histories of begin/increment/dereference/move/assign/destroy",
 "Tests iterate eight fixed generators to completion; they never move-assign over a live generator nor check when producer state is released.",
 ["qcoro/qcorogenerator.h"],
 [("promise holding the address of the yielded value", "qcoro/qcorogenerator.h"), ("iterator resuming the coroutine", "qcoro/qcorogenerator.h"), ("destructor and move operations", "qcoro/qcorogenerator.h")],
 ["Generator::begin()/end()", "GeneratorIterator"])

prop("C09", "An AsyncGenerator yields exactly its sequence, suspending only its consumer",
 "A consumer co_awaiting begin() and ++ on a QCoro::AsyncGenerator observes exactly the values the producer co_yields, in order and one per step, whether the producer suspends between values or not, then the end iterator, or the producer's exception rethrown from that co_await. QCORO_FOREACH visits the same sequence, an empty (default-constructed) generator yields nothing, and destroying, moving or overwriting the generator object between steps destroys the producer's state exactly once.",
 ["programs", "schedules", "histories"],
 "all producer scripts interleaving yields with synchronous and asynchronous awaits, all consumer scripts with their own awaits, all event orders, exceptions at any point, early destruction and moves",
 "Tests use fixed producers with fixed sleeps; orders of producer/consumer suspension, early exit and move assignment are not explored.",
 ["qcoro/qcoroasyncgenerator.h"],
 [("symmetric transfer between producer and consumer", "qcoro/qcoroasyncgenerator.h"), ("begin/increment awaitables", "qcoro/qcoroasyncgenerator.h"), ("ownership of the producer coroutine", "qcoro/qcoroasyncgenerator.h")],
 ["AsyncGenerator", "QCORO_FOREACH"])

prop("C10", "Awaiting a signal yields the arguments of its first emission after the await",
 "A coroutine awaiting qCoro(object, signal) is resumed exactly once, with copies of the arguments of the first emission that follows the await (a single value, a tuple, or nothing, with private-signal tags removed). With a timeout it gets an empty optional if and only if no emission happened before the timeout elapsed, never earlier than that, however long the timeout is; if the object is destroyed first, an await without timeout is never resumed.",
 ["histories", "schedules", "inputs"],
 "all sequences of emissions, awaits, timeouts, time passing and object destruction, for signals of different arities and with several coroutines awaiting the same signal",
 "Tests emit one signal per await on real timers; races of emission, timeout and destruction and multiple awaiters are sampled at one point each, if at all.",
 ["qcoro/core/qcorosignal.h", "qcoro/core/impl/isqprivatesignal.h"],
 [("single-shot queued connection storing the arguments", "qcoro/core/qcorosignal.h"), ("timeout timer", "qcoro/core/qcorosignal.h")],
 ["qCoro(QObject *, signal[, timeout])"])

prop("C11", "A signal listener delivers every emission once, in order, until it ends",
 "The generator returned by qCoroSignalListener() yields every emission of the signal since its creation exactly once, in emission order and with unchanged arguments, including emissions that happen while the consumer is busy awaiting something else. It ends only when a timeout was given and no emission arrived for that long while the consumer was waiting, its consumer is resumed only by its own awaits, and destroying it at any point stops the listening cleanly.",
 ["histories", "schedules"],
 "all interleavings of emissions with a consumer that waits, works asynchronously, stops early or destroys the listener, with and without timeouts, and sender destruction",
 "The tests emit fixed bursts on fixed timers and have no consumer that awaits anything else between values.",
 ["qcoro/core/qcorosignal.h", "qcoro/qcoroasyncgenerator.h"],
 [("queue filled by a queued connection", "qcoro/core/qcorosignal.h"), ("awaiter resumed when the queue becomes non-empty or on timeout", "qcoro/core/qcorosignal.h")],
 ["qCoroSignalListener()"])

prop("C12", "Timers and sleeps resume exactly once, at the right time",
 "Awaiting an active QTimer resumes each awaiter exactly once, at the timer's next timeout and not before, awaiting an inactive timer continues immediately, and a timer stopped meanwhile resumes nobody. sleepFor(d) and sleepUntil(t) suspend for d, respectively until clock t (on whichever clock t belongs to), for any duration including zero and points in the past, however many sleeps overlap.",
 ["schedules", "inputs", "histories"],
 "all sets of overlapping timers/sleeps with arbitrary durations, clocks, starts, restarts, stops and single-shot/repeating modes, any number of awaiters",
 "Tests use one timer at a time with one 100 ms duration on the steady clock, and real time lets them check only coarse bounds.",
 ["qcoro/core/qcorotimer.h", "qcoro/core/qcorotimer.cpp"],
 [("single-shot connection to the timeout signal", "qcoro/core/qcorotimer.cpp"), ("duration/time point conversion", "qcoro/core/qcorotimer.h")],
 ["co_await QTimer", "qCoro(QTimer).waitForTimeout()", "QCoro::sleepFor", "QCoro::sleepUntil"])

prop("C13", "Awaiting a QFuture yields its result or exception when it finishes",
 "A coroutine awaiting a QFuture (directly, or through result(), takeResult() or waitForFinished()) is resumed exactly once after the future has finished, never earlier, immediately if it is already finished, and obtains the future's result, or its exception rethrown. takeResult() hands over move-only results without copying, and any number of coroutines may await the same future.",
 ["schedules", "inputs", "histories"],
 "all orders of starting, awaiting, delivering results, failing and finishing for futures of void, copyable and move-only types, driven from the same and from other threads, any number of awaiters",
 "Tests use thread-pool jobs with fixed sleeps and one awaiter; finishing before/after the await and the exceptional paths are one sample each.",
 ["qcoro/core/qcorofuture.h"],
 [("QFutureWatcher resuming the awaiter", "qcoro/core/qcorofuture.h"), ("result extraction on resume", "qcoro/core/qcorofuture.h")],
 ["co_await QFuture", "qCoro(QFuture)"])

prop("C14", "Asynchronous reads return exactly the device's data, and end as documented",
 "Awaiting read(), readLine(), readAll() or the device itself returns data at once if any is available, otherwise waits for the next data, and returns exactly what the corresponding blocking-style QIODevice call would return then, so no byte is lost, duplicated or reordered over any sequence of reads. A read that times out before data arrives returns empty and waitForReadyRead() returns false, neither before the timeout elapsed; closing the device ends a pending wait with empty data or false instead of leaving it hanging, and every operation resumes its awaiter exactly once.",
 ["histories", "inputs", "schedules"],
 "all sequences of data arrival (any chunking), reads of any kind/size, timeouts, time passing, and device closing, at every relative order",
 "Tests read from a server sending fixed chunks at fixed real-time intervals; orders of arrival, timeout and close and mixed read kinds are not explored.",
 ["qcoro/core/qcoroiodevice.cpp", "qcoro/core/qcoroiodevice.h", "qcoro/core/qcoroiodevice_p.h", "qcoro/core/qcoroiodevice_p.cpp"],
 [("helper turning readyRead/aboutToClose into one event", "qcoro/core/qcoroiodevice_p.cpp"), ("read operations re-reading the device after the wait", "qcoro/core/qcoroiodevice.cpp")],
 ["qCoro(QIODevice)", "co_await QIODevice"])

prop("C15", "Asynchronous writes finish once the data is written and report how much was",
 "Awaiting write(data) hands all of data to the device unchanged and in order and finishes when the device has reported it written, returning the number of bytes, or immediately if the device writes synchronously; if the device is closed before that, it finishes with the amount confirmed so far instead of hanging. waitForBytesWritten() yields the size of the next written chunk, zero when nothing is pending, and an empty optional when it timed out (not earlier) or the device is not writable.",
 ["histories", "inputs", "schedules"],
 "all chunkings in which the device confirms writes, including several confirmations before the writer runs again, synchronous devices, timeouts and closing, at every relative order",
 "Tests write a few short strings over local sockets where the kernel confirms in one chunk; multi-chunk confirmations, synchronous devices, timeouts and closes are not reached.",
 ["qcoro/core/qcoroiodevice.cpp", "qcoro/core/qcoroiodevice_p.h", "qcoro/core/qcoroiodevice_p.cpp"],
 [("loop accumulating confirmed bytes", "qcoro/core/qcoroiodevice.cpp"), ("helper turning bytesWritten/aboutToClose into one event", "qcoro/core/qcoroiodevice_p.cpp")],
 ["qCoro(QIODevice).write()", "waitForBytesWritten()"])

prop("C16", "Thread waits report thread state truthfully; moveToThread switches threads",
 "qCoro(QThread).waitForStarted() and waitForFinished() return true if the thread is running (respectively has finished) or does so within the timeout, and false if the thread has already finished (respectively has not been started) or the timeout elapses first, never leaving the awaiter hanging. After co_await QCoro::moveToThread(t) the coroutine continues exactly once and on thread t, for any sequence of hops between running threads or a thread started only later, while awaiters elsewhere still get its result.",
 ["schedules", "histories"],
 "all orders of starting, finishing and waiting on threads, timeouts, and all sequences of hops of several coroutines across several threads",
 "Tests use one thread and one hop with fixed sleeps.",
 ["qcoro/core/qcorothread.h", "qcoro/core/qcorothread.cpp"],
 [("event posted to an object living in the target thread", "qcoro/core/qcorothread.cpp"), ("state check followed by waiting for the signal", "qcoro/core/qcorothread.cpp")],
 ["qCoro(QThread)", "QCoro::moveToThread()"])

prop("C17", "Process waits report start and exit truthfully and keep the process output",
 "qCoro(QProcess).start()/waitForStarted() return true exactly when the process started, false when it failed to start or the timeout elapsed first; waitForFinished() returns true when the running process finishes (by exit or crash) within the timeout and false when it times out or the process is not running, and none of them hangs once the process reached that state. Reading through the wrapper delivers exactly the bytes the process wrote and writing delivers exactly the bytes given to it.",
 ["schedules", "inputs", "fault_sequences"],
 "all programs (existing or not), exit codes, crashes, lifetimes relative to the waits and timeouts, and all byte sequences exchanged",
 "Tests run sleep/true/false with fixed delays; failing to start while waiting, crashing, and data exchange are not covered.",
 ["qcoro/core/qcoroprocess.h", "qcoro/core/qcoroprocess.cpp"],
 [("state check followed by waiting for started/finished", "qcoro/core/qcoroprocess.cpp")],
 ["qCoro(QProcess)"])

prop("C18", "QAbstractSocket operations track the connection through every outcome",
 "waitForConnected()/connectToHost() return true exactly when the connection is (or becomes) established and false when it fails or the timeout elapses first; waitForDisconnected() returns true when a connected socket disconnects within the timeout and false on timeout or if it is not connected. Reads and writes through the wrapper preserve the byte stream exactly and end (with what is available, or empty) instead of hanging when the peer or the local side disconnects.",
 ["histories", "schedules", "fault_sequences"],
 "all sequences of connection state changes (success, refusal, error, local/remote disconnect), data chunks, timeouts and pending operations, in every order",
 "Tests connect to a cooperative server over loopback; connection errors while waiting, disconnects during reads/writes and orders of these are sampled once or not at all.",
 ["qcoro/network/qcoroabstractsocket.h", "qcoro/network/qcoroabstractsocket.cpp", "qcoro/core/qcoroiodevice.cpp"],
 [("helper combining ready and state-change signals", "qcoro/network/qcoroabstractsocket.cpp"), ("state check before waiting", "qcoro/network/qcoroabstractsocket.cpp")],
 ["qCoro(QAbstractSocket)"])

prop("C19", "QLocalSocket operations track the connection and preserve the byte stream",
 "waitForConnected()/connectToServer() return true exactly when the connection is or becomes established and false when it fails or times out; waitForDisconnected() returns true when a connected socket disconnects within the timeout and false on timeout or if not connected. Bytes written and read through the wrapper arrive complete, in order and unduplicated for any chunking in both directions, and pending operations end instead of hanging when either side disconnects.",
 ["histories", "schedules", "inputs", "fault_sequences"],
 "all sequences of connects (to existing and missing servers), reads and writes of any kind and size on both ends, disconnects and timeouts",
 "Tests talk to one scripted server with fixed delays and one chunk size.",
 ["qcoro/network/qcorolocalsocket.h", "qcoro/network/qcorolocalsocket.cpp", "qcoro/core/qcoroiodevice.cpp"],
 [("helpers combining ready/connected and state-change signals", "qcoro/network/qcorolocalsocket.cpp")],
 ["qCoro(QLocalSocket)"])

prop("C20", "Every TCP connection is handed out exactly once by waitForNewConnection()",
 "On a listening QTcpServer, consecutive waitForNewConnection() calls return every incoming connection exactly once in arrival order, immediately when one is pending, otherwise as soon as one arrives. A call returns a null pointer only if the server is not listening or no connection arrived before its timeout elapsed, and connections arriving between calls or after a timed-out call are not lost.",
 ["histories", "schedules"],
 "all interleavings of client connections (single or in bursts), accept calls with and without timeout, pauses and closing",
 "Tests accept a single client per test.",
 ["qcoro/network/qcorotcpserver.h", "qcoro/network/qcorotcpserver.cpp"],
 [("pending check followed by waiting for newConnection", "qcoro/network/qcorotcpserver.cpp")],
 ["qCoro(QTcpServer)"])

prop("C21", "Awaiting a network reply resumes once it finished; its body reads back intact",
 "Awaiting a QNetworkReply, or waitForFinished() on it, resumes exactly once after the reply finished (successfully, with an error or aborted), immediately if it already has, never earlier, and waitForFinished() returns false only when its timeout elapses first. Asynchronous reads return the body bytes exactly once in order and end instead of hanging when the reply finishes or fails, also with several coroutines awaiting the same reply.",
 ["histories", "schedules", "fault_sequences"],
 "all sequences of header/body arrival in any chunking, completion, errors and aborts against pending waits and reads with and without timeouts",
 "Tests use a local HTTP server with fixed delays; errors and aborts during pending reads and concurrent waits are not explored.",
 ["qcoro/network/qcoronetworkreply.h", "qcoro/network/qcoronetworkreply.cpp", "qcoro/core/qcoroiodevice.cpp"],
 [("queued connection to finished", "qcoro/network/qcoronetworkreply.cpp"), ("helper combining readyRead, errorOccurred and finished", "qcoro/network/qcoronetworkreply.cpp")],
 ["co_await QNetworkReply", "qCoro(QNetworkReply)"])

prop("C22", "WebSocket generators yield all messages/frames in order; open/ping are truthful",
 "The text/binary message and frame generators of a connected QWebSocket yield every message (frame) received from the time the generator was created, exactly once, in order and unchanged, even those arriving while the consumer is busy, and end after a disconnect or when the timeout elapses with nothing received. open() returns true exactly when the connection gets established, false on failure or timeout, and ping() returns a round-trip time when answered and an empty value on timeout or when not connected.",
 ["histories", "inputs", "schedules", "fault_sequences"],
 "all sequences of text/binary messages of any content and size, pings, consumer pauses, disconnects, timeouts, reachable/unreachable servers",
 "Tests send two or three fixed messages with a consumer that is always waiting.",
 ["qcoro/websockets/qcorowebsocket.h", "qcoro/websockets/qcorowebsocket.cpp", "qcoro/core/qcorosignal.h"],
 [("watcher object forwarding socket signals into a signal listener", "qcoro/websockets/qcorowebsocket.cpp")],
 ["qCoro(QWebSocket)"])

prop("C23", "Every WebSocket connection is handed out exactly once by the server wrapper",
 "On a listening QWebSocketServer, consecutive nextPendingConnection() calls return every incoming connection exactly once, immediately when one is pending and otherwise as soon as one arrives; connections arriving between or after calls, or several at once, stay available to later calls. A call returns a null pointer only if the server is not listening, is closed while waiting, or no connection arrived before its timeout elapsed.",
 ["histories", "schedules"],
 "all interleavings of client connections (single or bursts), accept calls with and without timeout, idle periods between calls, and closing",
 "Tests accept a single client per server, so connections outside a pending wait never occur.",
 ["qcoro/websockets/qcorowebsocketserver.h", "qcoro/websockets/qcorowebsocketserver.cpp"],
 [("listener object translating newConnection/closed into one event", "qcoro/websockets/qcorowebsocketserver.cpp")],
 ["qCoro(QWebSocketServer)"])

prop("C24", "Awaiting a D-Bus call yields exactly its reply",
 "A coroutine awaiting a QDBusPendingCall or QDBusPendingReply (directly or with waitForFinished()) is resumed exactly once after that call finished and observes that call's own reply arguments or error, whatever order the replies to concurrent calls arrive in. An already finished call is returned without hanging.",
 ["schedules", "inputs", "fault_sequences"],
 "all sets of concurrent calls with any arguments, replies delayed and reordered, error replies, lost connections, calls finished before being awaited",
 "Tests make one call at a time against a cooperative service.",
 ["qcoro/dbus/qcorodbuspendingcall.h", "qcoro/dbus/qcorodbuspendingcall.cpp", "qcoro/dbus/qcorodbuspendingreply.h"],
 [("call watcher resuming the awaiter", "qcoro/dbus/qcorodbuspendingcall.cpp, qcoro/dbus/qcorodbuspendingreply.h")],
 ["co_await QDBusPendingCall/QDBusPendingReply", "waitForFinished()"])

prop("C25", "QmlTask passes a coroutine's result to QML exactly once",
 "For a QmlTask made from any task or awaitable convertible to a QVariant, each function given to then() is called exactly once with the coroutine's result after it finished, and each await() listener shows the intermediate value until then and the result afterwards, notifying the change. This holds for copies of the QmlTask, for tasks finished before or after the call, and a destroyed listener or JS engine, a callback that is not a function and a QmlTask without coroutine are ignored without a crash.",
 ["histories", "schedules", "inputs"],
 "all result types and values, all orders of completing the coroutine, copying the QmlTask, calling then()/await() on any copy and destroying listeners",
 "Tests run one QML document with one task per case and never call a method on a copied or shared task from C++.",
 ["qcoro/qml/qcoroqmltask.h", "qcoro/qml/qcoroqmltask.cpp", "qcoro/qml/qcoroqml.cpp"],
 [("shared private data holding the task", "qcoro/qml/qcoroqmltask.cpp"), ("continuation converting the QVariant for the JS engine", "qcoro/qml/qcoroqmltask.cpp")],
 ["QCoro::QmlTask"])

prop("C26", "An image provider answers each request once, with the coroutine's image",
 "For every image request made to a QCoro::ImageProvider, the provider's coroutine is called once with the requested id and size, and the response signals finished exactly once, after the coroutine returned, carrying exactly the image it returned. When the coroutine fails, with whatever exception, the response finishes without an image and reports the exception's message, and a response destroyed before is left alone. Concurrent requests finishing in any order, synchronously or later, do not disturb each other.",
 ["schedules", "inputs"],
 "all sets of overlapping requests with any ids/sizes/images and every completion order, including synchronous completion",
 "Tests load one image at a time.",
 ["qcoro/quick/qcoroimageprovider.h", "qcoro/quick/qcoroimageprovider.cpp"],
 [("continuation storing the image and emitting finished", "qcoro/quick/qcoroimageprovider.cpp")],
 ["QQuickImageResponse::finished", "textureFactory()"])

prop("C27", "QCORO_ test macros give the same verdict as their QtTest counterparts",
 "Inside a coroutine each QCORO_ test macro produces the same test verdict (pass, fail, skip, expected failure) and message (up to the spelling of forwarded operands and the wording about unexpected exceptions) as the corresponding QtTest macro does in a plain function for the same operands, and like it leaves the test coroutine immediately on failure or skip and continues it otherwise. The waiting variants keep processing events, succeed as soon as the condition holds within the timeout, and fail otherwise.",
 ["inputs", "programs"],
 "all macros, operand values, failure/skip/expected-failure combinations and positions in a test function, conditions becoming true at any time",
 "Tests only use the verify/compare macros on passing operands; no test observes a failing verdict or the waiting macros.",
 ["qcoro/test/qcorotest.h"],
 [("macros wrapping the QTest functions with co_return", "qcoro/test/qcorotest.h")],
 ["QtTest log"])

prop("C28", "Composed coroutines behave like sequential programs with blocking waits",
 "A program composed of coroutines that await any mixture of QCoro's awaitables (tasks and lazy tasks awaited directly, deferred or through then(), generators and asynchronous generators, timers and sleeps, signals with and without timeouts, signal listeners, futures, device reads) behaves like the sequential program in which each co_await is a blocking call: within every coroutine each statement is executed exactly once, in program order, as soon as what it waits for has completed, with that operation's value; exceptions propagate through all layers to the nearest handler; independent coroutines (spawned tasks, QCoro::connect()) make progress concurrently without affecting each other; and all locals and arguments are destroyed when their coroutine ends.",
 ["programs", "schedules", "inputs"],
 "all programs of nested and concurrent coroutines over all awaitables of the core module, all timings of the external events",
 "Each unit test awaits one kind of awaitable in one hand-written coroutine; no test combines them, nests them in loops, handlers and continuations or runs several concurrently.",
 ["qcoro/qcorotask.h", "qcoro/impl/taskbase.h", "qcoro/qcorolazytask.h", "qcoro/qcorogenerator.h", "qcoro/qcoroasyncgenerator.h", "qcoro/core/qcorosignal.h", "qcoro/core/qcorotimer.h", "qcoro/core/qcorofuture.h", "qcoro/core/qcoroiodevice.cpp"],
 [("awaiters and continuations of tasks", "qcoro/impl/taskbase.h, qcoro/impl/taskfinalsuspend.h"), ("wrappers of the awaitables", "qcoro/core/")],
 ["virtual time, order and value of every statement", "destructors of locals"])

prop("C29", "An awaited operation that has ended leaves nothing behind",
 "Once an operation of any kind has ended and its coroutine is gone - no matter whether it succeeded, failed, timed out, was given up by its caller, or the awaited object was closed or destroyed - nothing of it is left: no signal connection to the awaited object (timer, signal source, device, reply, socket, server, process, websocket), no helper QObject, watcher or running timer, no coroutine frame, result or other memory. A long-running program may therefore repeat any mixture of operations on the same objects as often as it likes without growing.",
 ["histories", "schedules", "inputs"],
 "all sequences of operations of all modules, all ways in which they end, any number of repetitions",
 "Leaks are invisible to tests that check results; the unit tests run each operation once and are not run with leak accounting, and helper objects with parents or queued deletions escape leak checkers.",
 ["qcoro/core/qcorosignal.h", "qcoro/core/qcorofuture.h", "qcoro/dbus/qcorodbuspendingcall.cpp", "qcoro/dbus/qcorodbuspendingreply.h", "qcoro/waitoperationbase_p.h", "qcoro/qcorotask.h", "qcoro/qcorogenerator.h", "qcoro/qcoroasyncgenerator.h", "qcoro/websockets/", "qcoro/network/", "qcoro/core/"],
 [("watchers", "qcoro/core/qcorofuture.h, qcoro/dbus/"), ("coroutine frames", "qcoro/impl/taskpromisebase.h, qcoro/impl/taskbase.h"), ("connections of the helper objects", "qcoro/network, qcoro/websockets, qcoro/core")],
 ["number of live QObjects, timers and allocated bytes", "receivers of the awaited object's signals"])

prop("C30", "A Task may finish in another thread than those awaiting or dropping it",
 "A coroutine may move between threads (QCoro::moveToThread(), or any awaitable that resumes it elsewhere) and finish in any of them while its Task is awaited, continued with then(), polled with isReady() or dropped in others at the same time. Every awaiter is still resumed exactly once with the task's value or exception, in its own thread if the task had already finished and otherwise in the thread in which the task finishes; no awaiter is lost, no result is read before it is there, and the state of the coroutine is destroyed exactly once, without data races. The same holds for LazyTasks and AsyncGenerators whose coroutines change threads while being awaited.",
 ["schedules", "programs", "histories"],
 "all programs of tasks executed by several threads, all interleavings of finishing, awaiting, polling and dropping",
 "The unit tests await tasks in one thread, or in a fixed order; a race between finishing and awaiting shows in few of the possible interleavings.",
 ["qcoro/impl/taskpromisebase.h", "qcoro/impl/taskawaiterbase.h", "qcoro/impl/taskfinalsuspend.h", "qcoro/impl/taskbase.h", "qcoro/qcorotask.h", "qcoro/impl/lazytask.h", "qcoro/qcoroasyncgenerator.h"],
 [("registration of awaiters versus finishing", "qcoro/impl/taskpromisebase.h, qcoro/impl/taskfinalsuspend.h"), ("reference count of the coroutine", "qcoro/impl/taskpromisebase.h")],
 ["ThreadSanitizer's happens-before relation", "outcome and thread of every await", "destruction of locals"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
print(len(P))
