#!/usr/bin/env python3
# Writes /verif/properties.jsonl.  Edit here, not there.
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
                     mechanism=[dict(name=a, where=b) for a,b in mech],
                     observe_at=list(observe), hook_needed=hook)))

ST="lager/store.hpp"; ND="lager/detail/nodes.hpp"; FU="lager/future.hpp"; EF="lager/effect.hpp"
LOOPS=["lager/event_loop/manual.hpp","lager/event_loop/queue.hpp","lager/event_loop/safe_queue.hpp","lager/event_loop/boost_asio.hpp"]

prop("C01","Every dispatched action is folded exactly once, in the order it was sent",
 "Every action dispatched into a store, from any thread the event loop accepts work from, from an effect, from a watcher or through a copy or restriction of the store's context, is applied by the reducer exactly once, and two actions dispatched by the same sender are applied in the order they were dispatched. Each application starts from the model the previous one produced, so the model is at all times the left fold of the reducer over the actions applied so far. No application starts while the loop is still running another reducer, effect or watcher of the same store.",
 ["schedules","histories"],
 "all interleavings of dispatching threads, the loop thread, effects and watchers that dispatch; all dispatch histories; manual, queue, thread-safe queue and asio loops",
 "The store tests dispatch a few actions from the loop thread; the one threaded test is not judged against an order model and its interleaving is whatever the OS chose.",
 [ST,"lager/context.hpp"]+LOOPS,
 [("dispatch posts one event per action","lager/store.hpp store_node::dispatch"),("queues preserve order","lager/event_loop/*.hpp post/step")],
 [("pending events","actions accepted but not folded yet","event loop queue")],["reducer arguments","store.get()"])
prop("C02","Store readers and watchers see only fold states, in order, up to the newest",
 "With the default (automatic) store, every value seen through the store, through readers derived from it or by a watcher is (a function of) the model after some prefix of the folded actions; successive observations never go back to an older prefix. Watchers run only inside the event loop, all readers of the store already show the new model when any watcher runs, and a watcher is not called while the value it watches is unchanged. Once the loop is idle, every reader and the last notification of every watcher show the result of all actions folded.",
 ["schedules","histories"],
 "all histories of dispatches, loop steps, watchers attached, detached and dispatching from inside callbacks",
 "Tests check the value after one or two actions; they do not explore coalesced updates, nested dispatch or watchers coming and going.",
 [ST,ND,"lager/watch.hpp"],
 [("update made visible by a later event, then notified","lager/store.hpp dispatch"),("two-phase propagation","lager/detail/nodes.hpp send_down/notify")],
 observe=["watch callbacks","reader get()"])
prop("C03","Effects run exactly once, in order, after their update is visible",
 "Every effect a reducer returns, including each part of a sequence and each effect lifted from a sub-reducer, is executed exactly once, on the event loop, never inside a reducer or another effect. Effects run in the order in which their actions were folded and the parts of a sequence run in sequence order, a part that returns a pending future holding back the next; when an effect runs, an automatic store's readers already show a model that includes its action. The context given to an effect dispatches to the same store, carries the store's dependencies and controls the store's event loop.",
 ["schedules","histories"],
 "all trees of actions and effects, all orders in which external completions arrive, automatic and transactional stores, with and without futures",
 "Tests run one effect at a time and check that it ran; order, visibility and exactly-once over nested histories are not explored.",
 [ST,EF,"lager/context.hpp","lager/deps.hpp"],
 [("effect posted as its own event","lager/store.hpp dispatch"),("sequence chains through futures","lager/effect.hpp sequence")],
 observe=["effect invocations"])
prop("C04","Transactional state stays invisible until commit; a commit publishes whole",
 "A value written to a transactional state or folded into a transactional store is not visible through it, through any reader derived from it or to any watcher until that state is committed. A commit publishes exactly the last written value of every state named in it, and does so for all of them before the first watcher runs. A second commit with nothing written in between publishes nothing and calls no watcher.",
 ["histories","schedules"],
 "all histories of writes through any cursor, partial and joint commits, reads and watchers over several states and stores",
 "Tests commit after single writes; partial commits of several roots with shared derived readers are not sampled.",
 ["lager/state.hpp","lager/commit.hpp",ST,ND],
 [("pending and published value kept apart","lager/detail/nodes.hpp current_/last_"),("commit sends all down, then notifies","lager/commit.hpp commit")],
 observe=["reader get()","watch callbacks"])
prop("C05","A throwing callback loses, repeats and reorders nothing else",
 "When an event, reducer or effect throws, or an allocation fails inside it, the exception reaches whoever is running the loop, every other event already accepted or posted meanwhile still runs exactly once and in order when the loop is run again, and the failed event is not repeated. An action whose reducer threw leaves the model as it was, triggers no effect and notifies no one; a dispatch that itself fails has not been accepted. After any such failure the store keeps processing new actions correctly.",
 ["fault_sequences","histories"],
 "all positions and repetitions of exceptions and allocation failures within all histories of events, on every loop that reports exceptions to its runner",
 "Tests throw from one reducer once per loop; they do not combine several failures with nested posts, and never fail an allocation.",
 LOOPS+[ST],
 [("processed prefix erased, rest kept on exception","lager/event_loop/queue.hpp step, safe_queue.hpp run_local_queue_, manual.hpp post"),("model assigned only after the reducer returned","lager/store.hpp dispatch")],
 [("loop queue","accepted events","event loop")],["events run","store.get()"])
prop("C06","A continuation runs exactly once, on the loop, however completion races it",
 "A callback attached to a pending future runs exactly once after the future completes and is always run through the associated event loop, whether it was attached before, after or concurrently with completion; it never runs if the future is not completed, and on a future with no loop it runs at once. The future returned by attaching completes only after the callback ran and, if the callback returned another future, after that one completed as well. Joining two futures completes only after both have.",
 ["schedules","histories"],
 "all interleavings of attaching and completing from different threads, all chains of continuations, all orders of completions",
 "Tests attach before or after completion on one thread; the racing cases and long chains are never explored.",
 [FU],
 [("done flag and callback under one lock","lager/future.hpp promise::operator(), future::then")],
 [("completion state","done flag, stored callback","lager/future.hpp promise_state")],["continuation calls"])
prop("C07","A dispatch's future completes once, after the reducer and all its effects",
 "With futures enabled, the future returned by a dispatch completes exactly once, on the event loop, and not before the action was folded, the update is visible (automatic store), its effect ran, and every future returned by the effect (directly, through sequences, or from dispatches and continuations it waited for) completed. It does complete once all of those have. Without futures enabled, attaching a callback to the result of a dispatch runs it immediately and nothing waits.",
 ["schedules","histories"],
 "all trees of actions, effects returning futures, sequences and continuations; all orders in which external completions arrive; dispatch and attachment from other threads",
 "Tests cover a handful of fixed chains completed immediately on one thread.",
 [ST,FU,EF],
 [("promise carried through reducer and effect events","lager/store.hpp dispatch"),("chaining","lager/future.hpp then")],
 observe=["continuation calls"])
prop("C08","Event loops run every posted callback exactly once, in order, on their owner",
 "Every callback posted to an event loop runs exactly once after it was posted, callbacks posted by the same thread run in the order posted, and none runs concurrently with or inside another callback of that loop. Callbacks run only on the thread that runs the loop; work posted from other threads is picked up by the owner's next run, and work the owner posts while running is done in the same run. A loop handed over to another thread keeps all work posted from elsewhere.",
 ["schedules","histories"],
 "all interleavings of posting threads with the running loop, nested posting, hand-over between threads; manual, queue, thread-safe queue and asio loops",
 "The loop tests post from one or two threads with uncontrolled timing and count the results.",
 LOOPS,
 [("owner check, locked shared queue, swap","lager/event_loop/safe_queue.hpp"),("executor post and work guard","lager/event_loop/boost_asio.hpp"),("root post drains","lager/event_loop/manual.hpp")],
 [("local and shared queues","work waiting","lager/event_loop/safe_queue.hpp")],["callback runs"])
prop("C09","Dispatching, posting and completing from other threads is free of data races",
 "Dispatching actions (also through contexts copied to other threads), posting work, completing promises, attaching continuations and asynchronous work started through the loop may all happen on other threads while the loop's owner runs: no data race, no access to freed memory and no deadlock results, under any interleaving. The same holds while the thread-safe queue is handed over to another owner. All work eventually runs once every thread has finished and the loop is run.",
 ["schedules"],
 "all interleavings, at the granularity of single memory accesses, of the operations documented as usable from other threads",
 "Uncontrolled threads in one test sample a few interleavings and do not check ordering of memory accesses.",
 [ST,FU,"lager/context.hpp","lager/event_loop/safe_queue.hpp","lager/event_loop/boost_asio.hpp"],
 [("locked shared queue","lager/event_loop/safe_queue.hpp"),("locked completion state","lager/future.hpp"),("executor strand or single thread","lager/event_loop/boost_asio.hpp")],
 observe=["memory accesses","locks"])
prop("C10","Derived readers always agree with their sources, also inside watchers",
 "After every propagation (an automatic write, a commit, a folded action) every derived reader equals its defining function applied to the published values of its sources, however many transformations, lenses, filters and joins lie between; a filtered reader equals the last source value that passed. This already holds for every reader in the program when the first watcher runs, so no watcher can see two readers that disagree.",
 ["programs","histories"],
 "all acyclic graphs of readers and cursors over several sources, built and dropped at any time, also from inside watchers; all histories of writes and commits",
 "Tests build small fixed graphs and check final values; they do not compare all readers with a model inside watchers.",
 [ND,"lager/detail/xform_nodes.hpp","lager/detail/lens_nodes.hpp","lager/detail/merge_nodes.hpp","lager/commit.hpp","lager/with.hpp"],
 [("all values propagate before anything is notified","lager/detail/nodes.hpp send_down then notify")],
 [("current and last value per node","pending and published","lager/detail/nodes.hpp")],["reader get() inside watch callbacks"])
prop("C11","A watcher is called once per change, with the new value, and never without one",
 "Each propagation that leaves a watched value different from before calls each of its watchers exactly once with the new value, which is also what reading yields at that moment; watchers of a reader are called in the order they were attached. A propagation that touches none of its sources does not call a watcher. This holds while watchers attach further watchers, drop or create other readers, or write from inside callbacks to other states or, for after the next commit, to the transactional ones just being committed (a watcher attached while a propagation runs may take part in it).",
 ["histories","programs"],
 "all histories of writes, commits and changes of the set of readers and watchers, including from inside callbacks",
 "Tests count calls for a few writes on fixed graphs; mutation of the graph during notification is covered by single examples.",
 [ND,"lager/watch.hpp","lager/detail/signal.hpp"],
 [("notify once flag per node","lager/detail/nodes.hpp notify"),("index loop over children, deferred collection","lager/detail/nodes.hpp notify/collect")],
 observe=["watch callbacks"])
prop("C12","Watchers live exactly as long as their reader object and follow its assignments",
 "A callback attached to a reader object is called for changes of whatever that object currently refers to: assigning another reader to the object moves all its callbacks to the new source and none stays with the old one, and callbacks attached before the object refers to anything start with its first assignment. Copies start without callbacks; destroying or unbinding the object ends its callbacks for good while other readers of the same value keep theirs. Binding calls the callback at once with the current value, and nudging calls each of the object's callbacks once with it. An object that was moved from can only be destroyed or assigned again.",
 ["histories"],
 "all histories of attach, bind, unbind, nudge, copy, move, assign, reset and destroy over several objects and sources, interleaved with changes",
 "Tests contain one example per operation, not their compositions.",
 ["lager/watch.hpp","lager/detail/signal.hpp","lager/reader.hpp","lager/cursor.hpp"],
 [("auto-unlinking forwarder per object","lager/watch.hpp watchable_base"),("connections owned by the object","lager/watch.hpp conns_")],
 observe=["watch callbacks"])
prop("C13","Writes through derived cursors compose and never lose sibling updates",
 "Setting a value through a cursor derived by lenses, joins or two-way transformations changes exactly the focused part of the pending value of its sources: earlier uncommitted writes made through any other cursor to other parts are preserved, and after a commit the cursor reads what was written last. Updating through a cursor applies the given function to the focused part of the pending value, so that successive updates through any cursors accumulate.",
 ["histories","programs"],
 "all sequences of set and update through overlapping and disjoint cursors of any depth over automatic and transactional sources, with and without commits between, also from watchers and from the update functions themselves",
 "Tests write through one cursor at a time and commit after each write.",
 ["lager/detail/lens_nodes.hpp","lager/detail/merge_nodes.hpp","lager/detail/xform_nodes.hpp","lager/writer.hpp","lager/with.hpp"],
 [("refresh from the sources' pending values before writing up","lager/detail/lens_nodes.hpp send_up; lager/with.hpp update")],
 [("pending value","uncommitted writes","lager/detail/nodes.hpp current_")],["state get() after commit"])
prop("C14","A setter cursor calls its function once per write and stays in step",
 "Every write through a cursor with a setter calls the setter function exactly once with the written value, in order, and the cursor's pending value is what was written (shown at once, to its watchers too, when automatic; after the source's next commit when transactional). When the underlying source publishes a different value afterwards, the cursor and everything derived from it show the source's value. Writes through cursors zoomed into it reach the setter as whole values, all other parts being those of the cursor's own pending value.",
 ["histories"],
 "all interleavings of writes through setter cursors and cursors derived from them with changes of the source, including setters that dispatch to a store processed later or write the source directly",
 "Tests write once and compare once.",
 ["lager/setter.hpp",ND],
 [("optimistic value, recomputed from the source","lager/setter.hpp setter_node")],
 [("recomputed flag","skip one recomputation","lager/setter.hpp")],["setter calls","cursor get()"])
prop("C15","Sensors are sampled once per commit and shown consistently",
 "A sensor's function is called once when the sensor is made and once each time the sensor is committed, in commit order, and never otherwise. Between commits the sensor and everything derived from it keep showing the last sample, whatever the outside value does meanwhile. A commit whose sample differs notifies watchers of the sensor once with that sample, an equal sample notifies no one.",
 ["histories"],
 "all interleavings of changes of the sampled environment (including a clock that jumps), commits (alone or together with states), reads and readers derived at any time",
 "Tests commit a sensor twice.",
 ["lager/sensor.hpp","lager/commit.hpp",ND],
 [("sampling in the recomputation step of a root","lager/sensor.hpp recompute")],
 observe=["sensor function calls","reader get()"])
prop("C16","Time travel shows exactly the recorded model and rewrites history consistently",
 "Under the debugger, after any sequence of user actions, undo, redo and jumps the visible model is the one recorded at the current position, and the recorded history is a chain in which each model results from its action and its predecessor. Undo and redo move by one and stop at the ends, a jump moves only to positions that exist, none of them runs user effects or changes the recorded history; a new user action discards the undone tail, is folded from the visible model and becomes the last step. Looking up any recorded position yields its action and model, other positions are refused.",
 ["histories"],
 "all histories of user actions and debugger commands arriving in any order from the user and the debugging interface",
 "Tests run one scripted sequence.",
 ["lager/debug/debugger.hpp"],
 [("truncate at cursor, append","lager/debug/debugger.hpp update"),("bounds on undo, redo, goto","lager/debug/debugger.hpp update")],
 [("cursor, history, init","position and recorded chain","lager/debug/debugger.hpp model")],["store.get()","debugger model lookup"])
prop("C17","Pausing defers actions and effects; resuming replays them all in order, once",
 "While the debugger is paused user actions neither change the visible model nor run effects; undo, redo and jumps still work. Resuming folds all deferred actions exactly once in the order they arrived, starting from the model visible at that time, then runs their effects once each in that order after the event loop has been resumed, and later actions follow. The event loop is paused and resumed exactly once per pause and resume command, and pausing twice or resuming while not paused loses nothing.",
 ["histories","schedules"],
 "all histories of user actions, pause, resume and navigation commands, linear and tree-shaped debugger, interleaved with the event loop's own progress",
 "No test defers more than one action, nor combines pausing with navigation.",
 ["lager/debug/debugger.hpp","lager/debug/tree_debugger.hpp"],
 [("pending list replayed on resume","lager/debug/debugger.hpp resume"),("effects sequenced after loop resume","lager/debug/debugger.hpp resume")],
 [("pending","deferred actions","lager/debug/debugger.hpp model")],["reducer calls","effect runs","loop pause/resume calls"])
prop("C18","The tree debugger keeps every branch and shows the model at its cursor",
 "Under the tree debugger the visible model is the one recorded at the cursor, each recorded model results from its action and its parent in the tree, and no command ever removes or alters a recorded step: an action at the tip of a branch extends it, an action anywhere else opens a new branch, and the cursor ends on the new step. Undo moves to the parent (from the first step of a branch to where it forked) and stops at the root, a jump moves only to positions that exist. The summary lists exactly the branches and steps recorded.",
 ["histories"],
 "all histories of user actions, undos and jumps to existing and non-existing positions",
 "Tests record one small tree.",
 ["lager/debug/tree_debugger.hpp"],
 [("append at tip or fork","lager/debug/tree_debugger.hpp do_append"),("cursor check","lager/debug/tree_debugger.hpp check")],
 [("cursor, branches","path to the visible step, recorded tree","lager/debug/tree_debugger.hpp model")],["store.get()","lookup","summary"])
prop("C19","The HTTP debugging interface answers every request correctly on a bad network",
 "However requests are chopped, delayed, pipelined or interleaved over any number of connections, and whichever connections are reset or closed midway, each completely received request is answered exactly once, in order on its connection, with the response the current debugger model calls for, and each command request dispatches exactly its command once. Requests not completely received cause no command. A broken or malicious connection affects no other connection, no reply ever contains a file from outside the resource directory, and from the start the model reported is the store's actual one.",
 ["fault_sequences","schedules","histories"],
 "all splittings and interleavings of request bytes over connections, resets and closes at any byte, any order of network events and store events",
 "The debug tests start the server but send it no request.",
 ["lager/debug/http_server.hpp","lager/debug/debugger.hpp"],
 [("one request at a time per session","lager/debug/http_server.hpp session"),("routes dispatch through the context","lager/debug/http_server.hpp init"),("model snapshot for readers","lager/debug/http_server.hpp model_")],
 [("model snapshot","last published debugger model","lager/debug/http_server.hpp model_")],["bytes on the connection","debugger actions folded"],
 "guarded socket type so that sessions run over an in-memory stream")
prop("C20","The HTTP debugging interface runs beside the application without races",
 "The debug server's own thread may serve requests at any time while the application thread dispatches, folds actions and notifies: reported models are always complete models the store published, never older on a later request than on an earlier one, and no data race or deadlock results. Shutting the server down while requests are in progress ends its thread.",
 ["schedules"],
 "all interleavings of the server thread serving requests with the application thread running the store",
 "No test serves a request, let alone concurrently.",
 ["lager/debug/http_server.hpp"],
 [("atomic model snapshot","lager/debug/http_server.hpp model_"),("commands dispatched through the thread-safe loop","lager/debug/http_server.hpp init")],
 observe=["responses","memory accesses"],
 hook="guarded socket type so that sessions run over an in-memory stream")
prop("C21","Dispatched thunks run exactly once with the store's context, in dispatch order",
 "With thunks enabled, dispatching a function runs it exactly once as an effect with a context that dispatches plain actions to the same store, leaves the model unchanged, and never runs it inside a reducer, an effect or another thunk. Plain actions are folded as without thunks and effects they return run as usual. Thunks run in the order dispatched among themselves and those effects, and each sees the effect of every action dispatched before it. Thunks may be dispatched from anywhere, also from thunks, effects and watchers. Futures of dispatched thunks complete after the thunk and whatever future it returned.",
 ["histories","schedules"],
 "all trees of thunks and actions dispatching each other, reducers with and without effects, all completion orders of futures thunks return",
 "Tests dispatch one or two thunks.",
 ["lager/extra/thunk.hpp",ST],
 [("variant of effect and action, thunk returned as effect","lager/extra/thunk.hpp with_thunk")],
 observe=["thunk runs","reducer calls"])
prop("C22","The SDL loop keeps frame pace, pause, and posted work under any clock and load",
 "On the SDL event loop every posted callback runs exactly once in order while the loop runs, also while paused, or posting reports failure; ordinary events and ticks are delivered while running and, by the loop that ticks, withheld while paused. Each tick is given as its time step the time since the last one, never negative nor above the configured maximum however the clock jumps, and ticks come no faster than the frame rate. A request to finish ends the run after a bounded number of further events whether running or paused, and so does a handler or tick that returns false.",
 ["schedules","fault_sequences","histories"],
 "all interleavings of posted work, input events, pauses, resumes, finish requests, delays, stalls and clock positions including large ones; event queue refusing events",
 "The only loop test runs manually; there is no test of the SDL loop.",
 ["lager/event_loop/sdl.hpp"],
 [("posted function travels in a user event","lager/event_loop/sdl.hpp post/run"),("frame limiter","lager/event_loop/sdl.hpp constant_fps_step"),("atomic flags","lager/event_loop/sdl.hpp done_/paused_")],
 [("done, paused","loop state","lager/event_loop/sdl.hpp")],["handler, tick and callback calls"])
prop("C23","Saved values load back equal; damaged or cut data never yields a broken value",
 "Any model built from the supported containers, variants, optionals, tuples, boxes and structs loads back equal to what was saved, in binary and JSON form, whatever the target object held before. If the data is cut at any byte, altered, or the stream fails midway, loading (of elements that occupy at least a byte each) either throws or yields some well-formed value; it never crashes, never loops and never touches memory outside the objects involved.",
 ["fault_sequences","inputs"],
 "all values of the supported shapes, all prior contents of the target, all cut points, flips and stream failures",
 "Tests round-trip single fixed values into fresh objects and never damage the data.",
 ["lager/extra/cereal"],
 [("size-prefixed element-wise loading","lager/extra/cereal/*.hpp")],
 observe=["loaded values","exceptions"])
prop("C24","Store contents survive moves and conversions; contexts keep addressing the store",
 "Moving a store, converting it to one with fewer dependencies, and copying or restricting its context keep everything working: all readers and watchers derived before continue to follow the same model, all earlier and later contexts dispatch to it, and dependencies obtained through any of them are the ones supplied, references staying references.",
 ["histories"],
 "all histories of moves, conversions and copies interleaved with dispatches, pending work and watchers",
 "Tests check the conversions compile and read one value.",
 [ST,"lager/context.hpp","lager/deps.hpp"],
 [("node shared by store, context and readers","lager/store.hpp"),("contravariant context conversion","lager/context.hpp")],
 observe=["store.get()","dispatch results","deps"])
prop("C25","Qt and QML loops run posted work once, in order, on their thread, every frame",
 "Callbacks, actions and effects posted through the Qt and QML event loops, from any thread, run exactly once, on the thread of the loop, in the order each thread posted them, never inside one another, and never after the receiving object is destroyed. On a QML item that is part of a window they run within a frame while the item is shown and has contents, and within a thirtieth of a second once it has been polished even if the window is hidden. Asynchronous work started on the Qt loop runs exactly once on a worker of the pool given to it and is over when the last owner of the loop (store, contexts, readers) is gone; finish ends the dispatcher.",
 ["schedules","histories"],
 "all interleavings of posting threads, pool workers, delivered events, timers, frames and window changes; all nestings of posts inside callbacks, reducers and effects",
 "Tests run one store on one thread and sleep for the worker; the QML item is only instantiated.",
 ["lager/event_loop/qt.hpp","lager/event_loop/qml.hpp"],
 [("queued invocation on the target object","lager/event_loop/qt.hpp post"),("polish requests, dirty content and timer keep the queue stepping","lager/event_loop/qml.hpp updatePolish/updatePaintNode"),("direct post on the own thread","lager/event_loop/qml.hpp post")],
 [("queue_, polished_","pending callbacks and frame state","lager/event_loop/qml.hpp")],["callback threads and order","frames"])
prop("C26","A Qt property tells every change once and reads and writes its reader or cursor",
 "A property declared with LAGER_QT_READER or LAGER_QT_CURSOR reads the value its reader shows, emits its change signal exactly once for each published change of that value and never otherwise, carrying the value it then reads, and setting it sets the cursor. Pointing the property at another reader or cursor makes it follow that one instead, and after the object is destroyed nothing is emitted.",
 ["histories"],
 "all histories of objects created, destroyed and pointed elsewhere, properties set, states set and committed, actions dispatched",
 "No test covers the header.",
 ["lager/extra/qt.hpp","lager/watch.hpp","lager/cursor.hpp"],
 [("watch installed with the member","lager/extra/qt.hpp LAGER_QT_SIGNAL_DETAIL")],
 observe=["signals","property reads"])
prop("C27","Whatever is dropped is given back: memory stays bounded over any history",
 "Once readers, cursors, watchers, contexts, futures and stores are dropped, the work they had under way has come to its end, and the sources they derived from have published their next change, all memory they took is released: a program that goes on making, using and dropping the same things, dispatching and running effects, does not grow, and when everything is destroyed nothing is left.",
 ["histories"],
 "all histories of derivations, watchers (also ones that drop readers while being told), copies, moves and assignments, writes, commits, dispatches, effects, futures fulfilled or abandoned",
 "Tests never look at memory, and none runs long enough for a leak to show.",
 ["lager/detail/nodes.hpp","lager/detail/signal.hpp","lager/store.hpp","lager/future.hpp","lager/watch.hpp"],
 [("expired children collected after notification","lager/detail/nodes.hpp notify/collect"),("callbacks unlinked and destroyed with their reader","lager/watch.hpp, lager/detail/signal.hpp"),("continuation dropped once called or with its promise","lager/future.hpp")],
 [("children_","weak references to derived nodes","lager/detail/nodes.hpp")],["blocks and bytes allocated at quiet points"])
prop("C28","A failure in user code reaches its caller and heals with the next change",
 "When a map function, filter, lens, setter or update function, sensor, reducer, effect or watcher throws, or an allocation fails, the exception reaches the caller who made the library run it; a write that fails before anything is published changes nothing; a derivation or watch that fails leaves nothing behind; nothing crashes or leaks. At the next change of the sources, every reader and cursor shows what its sources say and every watcher is told that value, once for each change published.",
 ["fault_sequences","histories"],
 "all histories of derivations, watchers, writes, updates, commits, dispatches and loop steps, with any call into user code or any allocation failing",
 "Only the loops' tests throw; no test fails user code or an allocation in readers, cursors or watchers.",
 ["lager/detail/nodes.hpp","lager/detail/xform_nodes.hpp","lager/detail/lens_nodes.hpp","lager/watch.hpp","lager/detail/signal.hpp","lager/commit.hpp"],
 [("flags cleared before callbacks are called","lager/detail/nodes.hpp notify"),("guards restore flags","lager/detail/nodes.hpp notifying_guard_t"),("callback connected before the reader is linked","lager/watch.hpp watch")],
 [("needs_send_down_, needs_notify_, has_news_","propagation state","lager/detail/nodes.hpp")],["exceptions","reader values and watcher calls at the next change"])
# not claimed
prop("N01","Lenses obey the lens laws",
 "For every lens the library builds (members, indices, keys, optionals, variants, boxes, tuples and their compositions): viewing after setting yields what was set, setting what was viewed changes nothing, and the second of two sets wins, within the documented exceptions for absent parts.",
 ["inputs"],"all wholes, parts and lens compositions",
 "Tests check single examples.",
 ["lager/lens.hpp","lager/lenses.hpp","lager/lenses"],[("getset construction","lager/lenses.hpp")])
prop("N02","Context, action-set and dependency conversions accept exactly compatible types",
 "A context, effect or dependency set converts to another exactly when the target's actions and dependencies are contained in the source's, and incompatible uses are rejected at compile time.",
 ["programs"],"all action sets and dependency specifications",
 "Build-failure tests cover a few combinations.",
 ["lager/context.hpp","lager/deps.hpp","lager/effect.hpp"],[("type-level conversion checks","lager/context.hpp are_compatible_actions_aux")])
prop("N03","Derived comparison, hashing and introspection cover every declared member",
 "For structs declared with the library's macros, equality, hashing and member introspection take every declared member into account and agree with each other.",
 ["inputs"],"all values of all declared structs",
 "Tests compare single values.",
 ["lager/extra/struct.hpp","lager/extra/derive"],[("member adaptation macros","lager/extra/derive")])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P),"properties")
