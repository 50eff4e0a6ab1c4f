# Which harness binaries exist and which scenarios decide which property.
QUICK_SECS = 30
THOROUGH_SECS = 600

BINARIES = {
    "store": dict(src="store.cpp", alloc=True,
                  real=["store", "context", "deps", "effect", "future", "reader/watch", "manual, queue, safe_queue and asio loops"],
                  stub=["clock (none used)", "external completions (promises fulfilled by the simulator)"]),
    "cycles": dict(src="cycles.cpp",
                   real=["stores (several at once)", "context, deps, effects, futures", "local states, with(), readers, watchers, commit", "manual, queue, safe_queue and asio loops"],
                   stub=[]),
    "graph": dict(src="graph.cpp", plain=True,
                  real=["states, sensors, constants, stores, setters", "readers, cursors, with(), lenses and transducer nodes", "commit", "watch and signals", "queue loop"],
                  stub=["sampled environment (a variable the simulator changes)"]),
    "lens": dict(src="lens.cpp", plain=True,
                  real=["states (automatic, transactional)", "cursors, zoom, xform, with()", "every lens of lager/lenses", "watchers", "commit"],
                  stub=[]),
    "debug": dict(src="debug.cpp",
                  real=["debugger", "tree_debugger", "with_debugger", "store, effects, deps, readers", "manual loop"],
                  stub=["debugging server (its handle only keeps the context and reader)", "pausable FIFO loop (in place of the SDL one)"]),
    "thunks": dict(src="thunks.cpp",
                   real=["store", "context", "deps", "effect", "future", "with_thunk", "readers and watchers", "manual, queue and safe_queue loops"],
                   stub=["external completions (promises fulfilled by the simulator)"]),
    "moves": dict(src="moves.cpp",
                  real=["store moves and conversions", "context copies, restrictions and converters", "deps bags", "effects, futures", "readers and watchers", "manual, queue and safe_queue loops"],
                  stub=[]),
    "cereal": dict(src="cereal.cpp", alloc=True,
                   real=["lager/extra/cereal loaders and savers", "LAGER_DERIVE, LAGER_STRUCT, LAGER_ENUM serializers", "cereal binary, portable binary and JSON archives", "immer containers", "debugger model"],
                   stub=["storage (a stream buffer that splits, cuts, alters and fails)", "memory limit (while damaged data is loaded, allocations above 1 MB are refused)"]),
    "sdl": dict(src="sdl.cpp", shim=True,
                   real=["sdl_event_loop, with_sdl_event_loop, constant_fps_step", "store"],
                   stub=["SDL: event queue, waiting, clock and sleep (simulated; virtual time)"]),
    "sdl_threads": dict(src="sdl_threads.cpp", threads=True, shim=True,
                   real=["sdl_event_loop, with_sdl_event_loop, constant_fps_step", "store", "std::thread callers"],
                   stub=["SDL: event queue, waiting, clock and sleep (simulated; virtual time)", "thread scheduler, mutexes, condition variables (simulated)"]),
    "churn": dict(src="churn.cpp", alloc=True,
                  real=["states, sensors, setters, readers, cursors, with()", "watchers, connections", "stores, contexts, effects, sequences, futures", "manual, queue and safe_queue loops"],
                  stub=["external completions (promises fulfilled or dropped by the simulator)"]),
    "faults": dict(src="faults.cpp", alloc=True,
                   real=["states, sensors, readers, cursors, lenses, with()", "watchers and commit", "store", "manual, queue and safe_queue loops"],
                   stub=[]),
    "qt_props": dict(src="qt_props.cpp", shim=True,
                   real=["LAGER_QT_CONST, LAGER_QT_READER, LAGER_QT_CURSOR", "states, cursors, readers, watchers, commit", "store", "queue loop"],
                   stub=["Qt: QObject; the signals moc would write"]),
    "qt_threads": dict(src="qt_threads.cpp", threads=True, shim=True,
                   real=["with_qt_event_loop, event_loop_quick_item, with_qml_event_loop", "queue loop", "store", "std::thread callers"],
                   stub=["Qt: event dispatcher, posted events, timers, window frames, thread pools (simulated; virtual time)", "thread scheduler, mutexes, condition variables (simulated)"]),
    "http": dict(src="http.cpp", shim=True,
                 real=["http_debug_server: router, sessions, listener", "Boost.Beast parser and serializer", "Boost.Asio io_context", "debugger", "store", "queue loop", "resource files"],
                 stub=["TCP sockets and acceptor (in memory)", "server thread (the simulator polls its io_context)"]),
    "http_threads": dict(src="http_threads.cpp", threads=True, shim=True,
                 real=["http_debug_server: router, sessions, listener, server thread", "Boost.Beast", "Boost.Asio io_context", "debugger", "store", "safe_queue loop", "immer::atom"],
                 stub=["TCP sockets and acceptor (in memory)", "thread scheduler, mutexes, condition variables, wake-ups and sleeps (simulated)"]),
    "loops": dict(src="loops.cpp", alloc=True,
                  real=["manual, queue, safe_queue and asio loops", "future and promise"],
                  stub=["external completions (fulfilled by the simulator)"]),
    "threads": dict(src="threads.cpp", threads=True,
                    real=["store", "context", "effects", "futures", "safe_queue and asio loops", "Boost.Asio", "std::thread/mutex callers"],
                    stub=["thread scheduler, mutexes, condition variables, epoll wake-ups and sleeps (simulated)"]),
}

R_STORE = "one run = one seeded history of dispatches, effects, futures, watchers and loop steps on one store; non-trivial: at least one action dispatched; distinct by event-log hash"
R_LOOP = "one run = one seeded history of posts, nested posts, throws and allocation failures on one loop; distinct by event-log hash"
R_TH = "one run = one seeded schedule of several threads at memory-access granularity; distinct by event-log hash, schedules by scheduler hash"
R_FUT = "one run = one seeded tree of promises, continuations and joins; distinct by event-log hash"

R_GRAPH = "one run = one seeded graph of sources and derived readers with a seeded history of writes, commits, samples, watchers and graph changes (also from inside watchers); non-trivial: some value was published; distinct by event-log hash"

R_LENS = "one run = one seeded nested model in two states, cursors through up to nine of 40 lens paths, and a seeded history of writes, updates, commits and watchers; distinct by event-log hash"

R_DBG = "one run = one seeded history of user actions, debugger commands, effects, throwing reducers and loop steps on one debugged store; distinct by event-log hash"

R_THUNK = "one run = one seeded tree of thunks, actions, effects and returned futures dispatched through one store; distinct by event-log hash"

R_MOVE = "one run = one seeded history of moves, conversions, context copies and restrictions, dispatches, loop steps and commits on several stores; distinct by event-log hash"

R_HTTP = "one run = one seeded history of requests from several clients (split, pipelined, half-closed, reset, slow, malformed), application actions and loop steps against one debug server; distinct by event-log hash"

R_CEREAL = "one run = one seeded value of one of 20 shapes saved and loaded over a seeded previous value through one archive format, with intact, damaged or failing storage or failing allocations; distinct by event-log hash"

R_SDL = "one run = one seeded history of posted callbacks, store actions, input events, pauses, resumes, finish requests, delays, stalls, clock jumps and refused events on one SDL loop; distinct by event-log hash"

R_CHURN = "one run = one seeded script of things made, used and dropped, played nine times over one world; distinct by event-log hash"

R_FAULT = "one run = one seeded history of derivations, watchers, writes, commits and loop steps in which user code throws or an allocation fails, each followed by the next change of every source; distinct by event-log hash"

R_QTP = "one run = one seeded history of objects created, destroyed and pointed elsewhere, properties set, states set, actions dispatched, loop steps and commits; distinct by event-log hash"

R_QT = "one run = one seeded history of events delivered, frames, timers, clock steps, window changes and receivers destroyed on the dispatcher's thread, with other threads and pool workers posting, dispatching and starting work"

# property -> scenarios (binary, scenario, share of the time)
CHECKS = {
    "C01": dict(scenarios=[("store", "store_history", 1), ("cycles", "store_cycles", 1), ("threads", "th_store", 1)], rule=R_STORE + "; " + R_TH),
    "C02": dict(scenarios=[("store", "store_history", 2), ("cycles", "store_cycles", 1), ("threads", "th_store", 1)], rule=R_STORE + "; " + R_TH),
    "C03": dict(scenarios=[("store", "store_history", 2), ("cycles", "store_cycles", 1)], rule=R_STORE),
    "C04": dict(scenarios=[("graph", "graph_history", 2), ("store", "store_history", 1), ("cycles", "store_cycles", 1)], rule=R_GRAPH + "; " + R_STORE),
    "C05": dict(scenarios=[("store", "store_history", 1), ("cycles", "store_cycles", 1), ("loops", "loop_history", 1)], rule=R_STORE + "; " + R_LOOP),
    "C06": dict(scenarios=[("loops", "future_history", 1), ("threads", "th_futures", 1)], rule=R_FUT + "; " + R_TH),
    "C07": dict(scenarios=[("store", "store_history", 1), ("cycles", "store_cycles", 1), ("threads", "th_store", 1)], rule=R_STORE + "; " + R_TH),
    "C08": dict(scenarios=[("loops", "loop_history", 1), ("threads", "th_loops", 1), ("threads", "th_adopt", 1)], rule=R_LOOP + "; " + R_TH),
    "C09": dict(scenarios=[("threads", "th_store", 1), ("threads", "th_loops", 1), ("threads", "th_adopt", 1), ("threads", "th_futures", 1)], rule=R_TH),
    "C10": dict(scenarios=[("graph", "graph_history", 2), ("lens", "lens_history", 1)], rule=R_GRAPH + "; " + R_LENS),
    "C11": dict(scenarios=[("graph", "graph_history", 2), ("lens", "lens_history", 1)], rule=R_GRAPH + "; " + R_LENS),
    "C12": dict(scenarios=[("graph", "graph_history", 1)], rule=R_GRAPH),
    "C13": dict(scenarios=[("graph", "graph_history", 1), ("lens", "lens_history", 1)], rule=R_GRAPH + "; " + R_LENS),
    "C14": dict(scenarios=[("graph", "graph_history", 1)], rule=R_GRAPH),
    "C15": dict(scenarios=[("graph", "graph_history", 1)], rule=R_GRAPH),
    "C16": dict(scenarios=[("debug", "dbg_history", 1)], rule=R_DBG),
    "C17": dict(scenarios=[("debug", "dbg_history", 1), ("debug", "tree_history", 1)], rule=R_DBG),
    "C18": dict(scenarios=[("debug", "tree_history", 1)], rule=R_DBG),
    "C19": dict(scenarios=[("http", "http_history", 1)], rule=R_HTTP),
    "C20": dict(scenarios=[("http_threads", "th_http", 1)], rule=R_TH),
    "C21": dict(scenarios=[("thunks", "thunk_history", 1)], rule=R_THUNK),
    "C22": dict(scenarios=[("sdl", "sdl_history", 2), ("sdl_threads", "th_sdl", 1)], rule=R_SDL + "; " + R_TH),
    "C23": dict(scenarios=[("cereal", "cereal_history", 1)], rule=R_CEREAL),
    "C27": dict(scenarios=[("churn", "churn_history", 1)], rule=R_CHURN),
    "C28": dict(scenarios=[("faults", "fault_history", 1)], rule=R_FAULT),
    "C26": dict(scenarios=[("qt_props", "qt_props", 1)], rule=R_QTP),
    "C25": dict(scenarios=[("qt_threads", "th_qt", 1)], rule=R_QT + "; " + R_TH),
    "C24": dict(scenarios=[("moves", "move_history", 1)], rule=R_MOVE),
}
