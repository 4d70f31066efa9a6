#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the lines stay readable)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=list(observe), hook_needed=hook)))


prop("C01", "Every dispatched action is folded into the model exactly once, in order",
     "Whatever mix of external code, effects and watchers dispatches actions to a store, its reducer is called exactly once per action, in dispatch order, on its own previous result, and once the event loop is idle the (committed) model is the fold of the reducer over those actions. Every model that is ever visible is a prefix of that fold, visible models never go back, and a watcher, on the store or on a reader derived from it, hears of each new visible model at most once, and of the latest one once the loop is idle. An action whose reducer throws leaves the model as it was and no other action is lost, repeated or reordered because of it.",
     ["histories", "programs", "fault_sequences"],
     "all sequences of dispatches, from outside, from effects and from watchers, over every event loop, automatic or transactional, with reducers and effects that may throw",
     "The tests dispatch one to three actions on a manual loop; interleavings of external, effect and watcher dispatches, several stores on one loop, and exceptions part way through are not sampled.",
     ["lager/store.hpp", "lager/effect.hpp", "lager/event_loop/queue.hpp", "lager/event_loop/manual.hpp"],
     [("actions are posted as tasks to the loop", "lager/store.hpp store_node::dispatch"),
      ("reducer invocation", "lager/effect.hpp invoke_reducer"),
      ("publication of the model", "lager/detail/nodes.hpp reader_node::push_down/send_down/notify")],
     [("current model", "latest reduced model, not necessarily visible", "lager/detail/nodes.hpp reader_node")],
     ["reducer calls", "store.get()", "watch callbacks"])

prop("C02", "Effects run exactly once, in order, after their update is visible",
     "Each non-empty effect returned by a reducer runs exactly once, on the event loop, in the order of the actions that returned them, with a context that reaches that store and its dependencies; empty effects are ignored. With an automatic store the model change of its action is visible before the effect runs. The parts of a sequenced effect run in order, each once, a later part only after the future of the earlier part has completed.",
     ["histories", "programs"],
     "all effect shapes (void, future-returning, sequenced, nested sequences, empty, throwing, of a narrower action or dependency set) returned by any action in any dispatch tree, on every loop",
     "Tests check single effects in isolation; ordering among the effects of many interleaved actions and sequences whose parts are still pending are not exercised.",
     ["lager/store.hpp", "lager/effect.hpp", "lager/future.hpp"],
     [("effect is posted after the reduction", "lager/store.hpp store_node::dispatch"),
      ("sequence()", "lager/effect.hpp"), ("effect conversions", "lager/effect.hpp effect, result")],
     observe=["effect bodies", "store.get() inside of effects"])

prop("C03", "A dispatch future completes exactly once, after all that it covers",
     "With futures enabled, the future of a dispatch completes exactly once, on the event loop, after its action was reduced, its update became visible (automatic store) and its effect, including the future the effect returned, was over; continuations run once and in order, a continuation attached after completion still runs, later, on the loop, and chained or combined futures complete only after all their parts. Without futures enabled dispatch gives an empty future whose continuations run at once.",
     ["histories", "programs"],
     "all trees of dispatches, effects awaiting other dispatches, chains of continuations, attached before or after completion",
     "Tests sample a few fixed chains; early completion, lost completion and double completion depend on the order of attachment and completion across the tree.",
     ["lager/future.hpp", "lager/store.hpp"],
     [("promise/future shared state", "lager/future.hpp promise::operator(), future::then"),
      ("store fulfils the promise", "lager/store.hpp store_node::dispatch")],
     [("promise_state", "callback and done flag", "lager/future.hpp")],
     ["continuation calls"])

prop("C04", "Dispatch, thunks and futures are safe from any thread",
     "Actions dispatched concurrently from many threads to a store whose loop may be posted to from other threads are each reduced exactly once, each thread's in its own order, and reducer, effects, watchers and continuations run only on the loop's thread, with no data race. Promises may be satisfied and continuations attached from different threads: every continuation runs exactly once and nothing is lost or raced.",
     ["schedules"],
     "all interleavings of producers posting to a thread-safe queue, asio executor or strand, Qt loop or SDL loop with the loop's own work; all interleavings of then() with fulfilment",
     "The only threaded tests post a handful of tasks from one extra thread and do not run under a race detector.",
     ["lager/event_loop/safe_queue.hpp", "lager/event_loop/boost_asio.hpp", "lager/event_loop/qt.hpp", "lager/event_loop/sdl.hpp", "lager/future.hpp", "lager/store.hpp"],
     [("shared queue behind a mutex, local queue for the owner", "lager/event_loop/safe_queue.hpp"),
      ("promise state behind a mutex", "lager/future.hpp")],
     observe=["thread id at each callback", "per-producer sequence numbers", "ThreadSanitizer"])

prop("C05", "Contexts deliver the dispatched action unchanged to the right store",
     "An action dispatched through any context obtained from a store's context, by copying, by narrowing to a subset of the actions or dependencies, or with an action converter, reaches that store exactly once, as the same action with the same payload after exactly the given conversions. What is asked of the event loop through such a context (posting, asynchronous work, finishing, pausing, resuming) is asked of that store's loop. The same holds for the contexts given to effects of a nested component, and for a store converted to a narrower store type.",
     ["programs", "inputs"],
     "all chains of context conversions (subsets, reordered action lists, converters, converters on top of converters, narrower dependencies)",
     "Tests convert once and dispatch one action; the choice of target alternative and conversion order over several actions with implicit conversions among them is not explored.",
     ["lager/context.hpp", "lager/effect.hpp", "lager/store.hpp"],
     [("dispatcher built per action type", "lager/context.hpp dispatcher"),
      ("find_convertible_action", "lager/context.hpp")],
     observe=["the action that the reducer gets"])

prop("C06", "Dependencies keep their identity and value through every conversion",
     "A value dependency is the value it was given, and a reference dependency (or one given as a reference wrapper or pointer-like) is the very same object, after any number of conversions to a subset of the dependencies, merges of two sets, or reordering; keyed dependencies are found by their key, optional ones that are missing report absence and fail when accessed. When two sets with the same key are merged the documented side's value is the one that is found, and dependencies computed by a function are computed when accessed.",
     ["programs", "inputs"],
     "all sets of keyed, optional, value, reference and computed dependencies, and all chains of conversion and merge among them",
     "The tests check individual accessors; composition of conversions and merges is not covered.",
     ["lager/deps.hpp", "lager/store.hpp"],
     [("deps storage and merge", "lager/deps.hpp deps::merge"), ("get", "lager/deps.hpp")],
     observe=["get<> of every key after every conversion"])

prop("C07", "Transactional writes are invisible until commit, and commit is atomic",
     "Whatever is written to transactional state, directly or through any derived cursor, no reader of any kind changes value and no watcher is called until a commit of the roots involved. A commit makes the last written value of every given root visible at once: every watcher called during it, and everything read from within that watcher, sees only the new values of all committed roots and never a mixture of old and new. What a watcher writes during a commit waits for the next one in the same way.",
     ["histories", "programs"],
     "all interleavings of writes to one or several roots through direct and derived cursors, reads and commits, on any graph of derived readers over those roots",
     "Tests commit one root with one or two derived nodes; atomicity over several roots and shared descendants seen from inside watchers is not examined.",
     ["lager/state.hpp", "lager/commit.hpp", "lager/detail/nodes.hpp", "lager/store.hpp"],
     [("send_down of all the roots precedes notify of any", "lager/commit.hpp commit"),
      ("current/last value pair", "lager/detail/nodes.hpp reader_node")],
     observe=["get() everywhere, inside and outside of watchers"])

prop("C08", "A derived reader always shows its function of the committed roots",
     "After every commit, and at every moment a watcher can look, a reader or cursor obtained by any composition of mapping, filtering, zooming with lenses, indexing by attribute or key, and combining several readers has the value of that composition applied to the visible values of the roots; a filtered reader shows the last value that passed. This includes readers derived after earlier changes and during notification.",
     ["programs", "histories"],
     "all graphs of derived nodes (chains, trees, diamonds) over any number of roots, all sequences of writes and commits, and nodes created and dropped at any time",
     "Tests cover fixed two or three node graphs; propagation order over shared sub-graphs, and nodes that come and go, are not sampled.",
     ["lager/with.hpp", "lager/detail/xform_nodes.hpp", "lager/detail/lens_nodes.hpp", "lager/detail/merge_nodes.hpp", "lager/detail/nodes.hpp", "lager/reader.hpp"],
     [("recompute on send_down", "lager/detail/nodes.hpp reader_node::send_down"),
      ("expression templates", "lager/with.hpp")],
     observe=["get() of every live node"])

prop("C09", "Watchers are called exactly when the value they watch changes",
     "For each commit or automatic change, a watcher on a reader whose visible value changed is called exactly once (when watchers write in turn, at most once for each change of one of its roots) with the new value, after that value is visible, and a watcher on a reader none of whose roots was written is not called; when a watched reader's value is recomputed to an equal value it is not called. The watchers of one reader object are called in the order they were added.",
     ["histories", "programs"],
     "all graphs, write sequences and placements of watchers, added before or after the writes, several per reader",
     "Tests count calls of one watcher on one node; suppression and exactly-once across diamonds and several roots are not explored.",
     ["lager/watch.hpp", "lager/detail/nodes.hpp", "lager/detail/signal.hpp"],
     [("needs_notify flag", "lager/detail/nodes.hpp reader_node::notify"),
      ("intrusive list of slots", "lager/detail/signal.hpp")],
     observe=["watch callbacks"])

prop("C10", "Writes through cursors change exactly what they focus on, and none is lost",
     "Setting a cursor, however it was derived (attribute, key, index, lens, mapped both ways, combination of several cursors), has the effect of putting that value in its place in the latest written root values, and nothing else in the roots changes. Several writes and updates through any cursors over the same roots before a commit accumulate: an update always starts from the latest written value, and the last write to each place wins.",
     ["histories", "programs"],
     "all sequences of set and update on any cursors of a graph between commits, including overlapping foci",
     "Tests write once or twice through a single derived cursor before committing.",
     ["lager/writer.hpp", "lager/cursor.hpp", "lager/detail/lens_nodes.hpp", "lager/detail/merge_nodes.hpp", "lager/detail/xform_nodes.hpp", "lager/with.hpp"],
     [("send_up with refresh", "lager/detail/lens_nodes.hpp send_up"),
      ("update transducer", "lager/with.hpp update")],
     observe=["root values after commit"])

prop("C11", "Automatic state shows writes at once, also when written from watchers",
     "A write to automatic state, directly or through a derived cursor, is visible in it and in everything derived from it, and has been notified, when the write returns. Watchers may themselves write, create or drop readers, or add watchers during notification: when the outermost write returns everything derived shows the last written value, every watched reader's last notification carried its current value, and nothing is corrupted.",
     ["histories", "programs"],
     "all reentrant write sequences issued from watchers at any depth, over any derived graph, with readers created and dropped during notification",
     "One or two regression tests cover specific reentrancies.",
     ["lager/state.hpp", "lager/detail/nodes.hpp", "lager/detail/signal.hpp"],
     [("send_down and notify within the write", "lager/state.hpp state_node::send_up"),
      ("index based iteration and delayed collection", "lager/detail/nodes.hpp reader_node::notify")],
     observe=["get() and callbacks"])

prop("C12", "A watcher lives and dies with the reader object that holds it",
     "Callbacks belong to the reader or cursor object on which they were installed: they are called for as long as it exists and are not unbound, follow it when another reader is assigned to it, do not travel with copies of it or with what it is moved into, and are never called again after it is destroyed or unbound, whichever of the watcher, the reader and the state is destroyed first. Binding calls the callback at once with the current value and nudging calls all of them; no operation order touches freed memory.",
     ["histories"],
     "all sequences of watch, bind, nudge, unbind, copy, move, assignment (also to and from unset readers), destruction, writes and commits over many reader objects and several states",
     "Tests exercise each operation once; sequences mixing assignment, moves, destruction and commits are unsampled and memory errors are invisible without sanitizers.",
     ["lager/watch.hpp", "lager/detail/signal.hpp", "lager/reader.hpp", "lager/cursor.hpp"],
     [("forwarder slot auto-unlinks", "lager/watch.hpp watchable_base"),
      ("connections own the slots", "lager/detail/signal.hpp")],
     observe=["callbacks", "AddressSanitizer"])

prop("C13", "Derived readers keep what they need alive, and nothing more",
     "A reader or cursor stays fully usable after every other handle on its sources, including the root state or store handle, is gone. Once all the handles that can reach a derived value are gone it is released, its functions are no longer called by later changes, and no memory or captured value stays alive, whatever the order of creation, change and destruction.",
     ["histories", "programs"],
     "all orders of creating, copying, dropping handles of a graph, interleaved with writes, commits and notifications",
     "Tests only observe values; leaks, stale recomputation and use-after-free need sanitizers and live counts over many histories.",
     ["lager/detail/nodes.hpp", "lager/watch.hpp", "lager/with.hpp"],
     [("children hold parents strongly, parents hold children weakly", "lager/detail/nodes.hpp inner_node, link"),
      ("collection of expired children", "lager/detail/nodes.hpp collect")],
     observe=["live counts of tracked values", "calls of the mapping functions", "AddressSanitizer, LeakSanitizer"])

prop("C14", "Setter cursors forward every write and otherwise follow their source",
     "Every write to a cursor made of a reader and a setter function calls the function exactly once with the written value; the automatic kind shows that value at once and notifies it, the transactional kind does not show it before a change of the source or a commit. Whenever the source changes the cursor shows the source's new value again, and reads through the setter cursor's own derived readers agree with it.",
     ["histories"],
     "all interleavings of writes through the setter, changes of the source (also made by the setter function, at once or later) and reads, for both kinds, on stores and states",
     "Two tests write once through each kind.",
     ["lager/setter.hpp", "lager/reader.hpp", "lager/with.hpp"],
     [("setter node", "lager/setter.hpp setter_node")],
     observe=["calls of the setter function", "get()", "watch callbacks"])

prop("C15", "Sensors sample only at commit, constants never change",
     "A sensor shows the value its function returned when it was created or last committed, calls the function once at creation and once per commit of it and at no other time, and it and all derived from it change and notify only if the sampled value differs. A constant always shows its initial value and never notifies.",
     ["histories"],
     "all sequences of external changes, reads, derived reads, commits alone or together with other roots",
     "Tests sample one commit.",
     ["lager/sensor.hpp", "lager/constant.hpp", "lager/commit.hpp"],
     [("sensor recompute", "lager/sensor.hpp sensor_node"), ("constant", "lager/constant.hpp")],
     observe=["calls of the sensor function", "get()", "watch callbacks"])

prop("C16", "Total lenses obey the lens laws, and so do their compositions",
     "For attribute, tuple element, zip, fan (over disjoint parts), get/set pair, unbox and identity lenses, any composition of them, and the same wrapped in a type-erased lens: what is viewed after a set is what was set, setting what is viewed changes nothing, of two sets the last wins, over is set of the function of the view, and parts out of focus stay the same. This holds for constant, copied and moved-in wholes, which for an lvalue whole is left unmodified.",
     ["programs", "inputs"],
     "all compositions of the total lenses over nested structures, all values, all value categories of whole and part",
     "Tests check each lens on one value; compositions and value categories (moves) are not sampled.",
     ["lager/lenses.hpp", "lager/lens.hpp", "lager/lenses/attr.hpp", "lager/lenses/tuple.hpp", "lager/lenses/unbox.hpp"],
     [("view, set, over", "lager/lenses.hpp"), ("type erased lens", "lager/lens.hpp"),
      ("zip, fan, element", "lager/lenses/tuple.hpp")],
     observe=["results of view, set and over"])

prop("C17", "Partial lenses read what is there, write only where they can",
     "Lenses onto a key, index, optional or variant alternative view the element if present and otherwise an empty optional (or the given default), and setting a value through them replaces exactly that element when its place exists and changes nothing when it does not. Lifted and composed optional lenses propagate absence, setting them never alters anything but the focus, wholes passed by rvalue give the same result as by lvalue, and the laws hold wherever the focus exists, with standard and persistent containers and with exceptions enabled or disabled.",
     ["programs", "inputs"],
     "all compositions of at, at-or-default, optional lifting and variant lenses over maps, vectors, arrays and optionals, with present and absent keys, with all value categories",
     "Tests check a few keys on lvalue wholes and in one build configuration.",
     ["lager/lenses/at.hpp", "lager/lenses/at_or.hpp", "lager/lenses/optional.hpp", "lager/lenses/variant.hpp"],
     [("at", "lager/lenses/at.hpp"), ("optional lifting", "lager/lenses/optional.hpp opt_impl"),
      ("alternative", "lager/lenses/variant.hpp")],
     observe=["results of view, set and over"])

prop("C18", "Event loops run every posted task once, in order, in spite of exceptions",
     "Each single-threaded loop runs every posted task exactly once, in posting order, including those posted by running tasks, and destroys it afterwards; the manual loop runs a task posted while idle immediately and one posted from a task after the current one, and the queued loops run tasks only when stepped, to exhaustion. If a task throws, the exception reaches whoever runs the loop, that task is not repeated and the remaining ones run, in order, the next time. Finishing a Boost.Asio loop calls the stop function it was given, once; its asynchronous work runs once each, outside of the loop's thread and before the loop runs out of work. A function object that the caller keeps is left as it was.",
     ["histories", "fault_sequences"],
     "all sequences of posts from inside and outside, steps and throwing tasks, on manual, queue, thread-safe queue and asio loops",
     "Tests post two or three tasks with at most one throwing.",
     ["lager/event_loop/manual.hpp", "lager/event_loop/queue.hpp", "lager/event_loop/safe_queue.hpp", "lager/event_loop/boost_asio.hpp"],
     [("queue with erase on exception", "lager/event_loop/*.hpp")],
     observe=["task executions", "live captures"])

prop("C19", "GUI event loops run every posted and asynchronous task, in order",
     "On the Qt, QML and SDL loops every task posted from the loop's thread or from another one runs exactly once, on the loop's thread, in the order posted by each thread; asynchronous work runs off that thread; and finishing stops the loop. The SDL loop keeps handing native events to the handlers in order, a handler that returns false stops it, and while paused the ticking loop delivers neither ticks nor native events, can still be finished, and time does not jump when resumed (a tick is at most the longest one allowed).",
     ["histories", "schedules"],
     "all mixes of posts from tasks, handlers and threads, native events, pause, resume and finish",
     "Tests run a counter for a few actions on Qt; SDL has no test at all.",
     ["lager/event_loop/qt.hpp", "lager/event_loop/qml.hpp", "lager/event_loop/sdl.hpp"],
     [("queued invocation", "lager/event_loop/qt.hpp"), ("user event with a function", "lager/event_loop/sdl.hpp")],
     observe=["task executions, thread ids"])

prop("C20", "The debugger's timeline is the exact history, and time travel is faithful",
     "With the debugger, the application's model is at any moment the fold of the reducer over the recorded actions up to the cursor; every action is recorded with the model it produced; going to a step, undo and redo move the cursor within bounds and change nothing else, out of range requests are ignored, and a new action discards the undone future. Recorded history reports its size, cursor, actions and models consistently.",
     ["histories"],
     "all sequences of actions and debugger commands",
     "One test goes through a fixed sequence of undo and goto.",
     ["lager/debug/debugger.hpp"],
     [("debugger model update", "lager/debug/debugger.hpp update")],
     observe=["store model, history lookup, cursor, size"])

prop("C21", "The debugger is transparent: pausing, effects and futures behave",
     "While not paused, a store with the debugger shows the same models and runs the same effects, once each and in the same order, as one without it, for the same actions, and the effects' dispatches come back as application actions. While paused actions change nothing and run no effects; resuming replays them once, in order, with their effects; time travel runs no effects.",
     ["histories"],
     "all sequences of actions with effects and debugger commands including nested pause and resume",
     "No test checks effects or pending actions under the debugger.",
     ["lager/debug/debugger.hpp", "lager/effect.hpp", "lager/context.hpp"],
     [("pending queue and replay", "lager/debug/debugger.hpp update")],
     observe=["effects, model"])

prop("C22", "The tree debugger keeps every branch and shows the branch under the cursor",
     "With the tree debugger, an action taken after going back adds a new branch and the history keeps all others, one taken at the end of a branch continues it; the model shown is always the one at the cursor, which after an action is that action's result, and any recorded position can be gone back to and shows the model recorded there. Pausing and resuming lose no action and no recorded position.",
     ["histories"],
     "all sequences of actions, goto of any recorded position, undo, pause and resume",
     "There is no test of the tree debugger beyond its construction.",
     ["lager/debug/tree_debugger.hpp"],
     [("append, goto, undo", "lager/debug/tree_debugger.hpp")],
     observe=["store model, history lookup"])

prop("C23", "The HTTP debug API reports the true history and obeys its commands",
     "The debug server answers the summary and each step with the program, size, cursor, paused state, actions and models that the store really has at that moment (from the start, before any action), and each command request has exactly the effect of the corresponding debugger command. A connection serves one request after another, also when several are sent at once, each answered in turn. Unknown steps, malformed numbers and unknown paths yield an error status and neither change the history nor stop the server, and only files below the resources directory are ever served, with the content type of their extension.",
     ["inputs", "histories"],
     "all sequences of application actions and HTTP requests, well formed and hostile",
     "No test starts the HTTP server.",
     ["lager/debug/http_server.hpp", "lager/debug/debugger.hpp"],
     [("request handlers", "lager/debug/http_server.hpp")],
     observe=["HTTP responses", "store model"])

prop("C24", "What is serialized loads back equal, whatever it is loaded into",
     "For every supported type (persistent vectors, flexible vectors, arrays, boxes, maps and sets, optional, variant, tuple-like, derived structs, of any nesting; maps from an element's own id to it are saved as their elements), saving and loading with binary, portable binary or JSON archives gives an equal value, also into a target that already had content; in JSON the members of derived and reflected types are found by their names (in camel case for a type that asks for that). Loading from truncated or corrupted input throws or gives some value but never touches invalid memory.",
     ["inputs", "fault_sequences"],
     "all values of the supported types, all archive kinds, all previous contents of the target, all truncations",
     "Tests round-trip one value of a few types into an empty target.",
     ["lager/extra/cereal/immer_array.hpp", "lager/extra/cereal/immer_vector.hpp", "lager/extra/cereal/immer_flex_vector.hpp", "lager/extra/cereal/immer_map.hpp", "lager/extra/cereal/immer_set.hpp", "lager/extra/cereal/immer_box.hpp", "lager/extra/cereal/struct.hpp", "lager/extra/cereal/inline.hpp", "lager/extra/derive/cereal.hpp"],
     [("load and save functions", "lager/extra/cereal")],
     observe=["loaded value", "AddressSanitizer"])

prop("C25", "Derived equality, hashing, comparison of enums and reflection agree",
     "For derived types, two values are equal exactly if all their members are, for plain, nested, templated and empty types; unequal is its negation; equal values hash equally, and every member takes part in the hash; reflection visits every member once in declaration order. Enumerations declared with names convert to the declared names.",
     ["inputs"],
     "all values of derived types",
     "Tests compare a couple of values.",
     ["lager/extra/derive.hpp", "lager/extra/derive/eq.hpp", "lager/extra/derive/hash.hpp", "lager/extra/derive/hana.hpp", "lager/extra/struct.hpp", "lager/extra/enum.hpp"],
     [("LAGER_DERIVE", "lager/extra/derive.hpp")],
     observe=["results"])

prop("C26", "Thunks and enhancers compose without losing actions or effects",
     "With thunk support a dispatched action behaves as without it, and a dispatched thunk runs exactly once, in dispatch order with respect to actions, on the loop, with a context from which it can dispatch, its future completing after the future it returns. Enhancers given to a store apply in the documented order and none of them changes how often or in which order actions are reduced and effects run, or undoes another: a transactional store stays so whatever it is given.",
     ["programs", "histories"],
     "all sequences of actions and thunks (void, future-returning, nested) and all combinations of reducer, dependency, future, thunk and tracing enhancers",
     "Tests dispatch a single thunk.",
     ["lager/extra/thunk.hpp", "lager/store.hpp", "lager/util.hpp"],
     [("with_thunk", "lager/extra/thunk.hpp"), ("enhancer composition", "lager/store.hpp make_store")],
     observe=["reducer calls, thunk calls, completions"])

prop("C27", "Qt properties mirror the cursors they are declared over",
     "A Qt property declared over a reader or cursor reads as the cursor's value at any time, emits its change signal exactly once when the value changes and not otherwise (in a transactional state, a value that went away and came back before the commit may signal), with the new value already readable, and writing a writable property has the effect of writing the cursor; read-only properties refuse writes. While the signals of its object are blocked it reads and writes as ever. It mirrors the new reader after another one is assigned to the member; the assignment itself need not signal.",
     ["histories"],
     "all sequences of writes through property and cursor, commits and reads",
     "A single test sets and reads a few properties.",
     ["lager/extra/qt.hpp"],
     [("LAGER_QT_READER, LAGER_QT_CURSOR", "lager/extra/qt.hpp")],
     observe=["property reads and change signals"])

prop("C28", "Handles name what they were given, and those that name nothing refuse",
     "Readers, cursors and writers are handles: copies, conversions from a state or cursor to a reader, cursor or writer, moves, swaps and assignments (also of a handle to itself, and inside containers that grow) name the place the original named, so what is written through one is what all others of that place read and update from; assigning a handle never changes a value. A handle that names nothing (made by default, or assigned from one such) refuses every read, set and update with an exception, calls no function and changes nothing, and can be assigned later; an update whose function throws lets the exception out and writes nothing.",
     ["histories", "programs"],
     "all programs of making, copying, converting, moving, swapping, assigning and dropping handles between reads and writes through any of them",
     "Tests make one default reader, writer and cursor and see each refuse once; assignment chains, moves, containers and conversions are not combined.",
     ["lager/reader.hpp", "lager/cursor.hpp", "lager/writer.hpp", "lager/watch.hpp", "lager/state.hpp"],
     [("node_() check", "lager/reader.hpp reader_mixin, lager/writer.hpp writer_mixin"),
      ("copy and assignment", "lager/watch.hpp watchable_base"),
      ("conversions", "lager/reader.hpp reader_base, lager/cursor.hpp cursor_base, lager/writer.hpp writer_base")],
     observe=["reads through handles", "exceptions"])

prop("C29", "match and visitor call what fits what the variants hold, with that very object",
     "lager::match(vs...)(fs...) calls exactly one of the functions, once: the one that overload resolution among them picks for the alternatives that the variants hold at that moment, for plain variants and for types derived from one, one or several at a time. The function is given the very objects that are held, constant or not and as lvalues or rvalues just as the variants were passed, so writes through it stay and what it does not move from is left alone; what it returns or throws comes out; the functions of the caller are not consumed; and a variant without a value is refused with std::bad_variant_access. lager::visitor is such an overload set for std::visit.",
     ["inputs"],
     "all variants (plain, derived, derived from derived), alternatives held, value categories, visitor sets, and combinations of up to three variants",
     "Tests visit three variants of two alternatives with functions that take copies, and look at the result only.",
     ["lager/util.hpp"],
     [("forward_variant", "lager/util.hpp"), ("matcher", "lager/util.hpp detail::matcher"),
      ("visitor", "lager/util.hpp")],
     observe=["calls of the visitors", "addresses and categories of arguments"])

prop("C30", "What functions and watchers throw comes out, and the graph goes on working",
     "When a mapping function, a setter of a lens or transducer, an updating function or a watcher throws, the exception comes out of the very set(), update() or commit() that ran it, and is neither swallowed nor kept. A write that is refused by an exception on its way up to a root writes nothing to it. Every root shows what was last written to it (an automatic one at once, a transactional one as of its commit), whatever was thrown below. And the graph stays usable: nodes whose sources were all sound and change again in a write or commit in which nothing throws show values that follow from the sources, and every watcher of a value that changes is called with it, just as if nothing had ever been thrown.",
     ["inputs", "histories", "faults"],
     "all graphs of maps, lenses, two-way functions and sums over one or two roots of either tag, all points at which a function, setter or watcher may throw, and all histories of writes and commits after it",
     "The tests never let a function or watcher throw.",
     ["lager/detail/nodes.hpp", "lager/detail/signal.hpp", "lager/commit.hpp", "lager/state.hpp"],
     [("notifying_guard_t", "lager/detail/nodes.hpp"), ("send_down/notify", "lager/detail/nodes.hpp reader_node"),
      ("commit", "lager/commit.hpp"), ("signal::operator()", "lager/detail/signal.hpp")],
     observe=["values of readers", "calls of watchers", "exceptions"])

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    ids = [p["id"] for p in P]
    assert len(set(ids)) == len(ids)
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        for f in p["anchors"]["files"]:
            if not os.path.exists("/repo/" + f):
                print("missing", p["id"], f)
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
