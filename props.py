"""What each check builds and runs; see DESIGN.md."""

STORE_SRCS = ["store_main.cpp"] + [
    ("store_one.cpp", ("-DFN=" + fn, "-DDRIVER=" + d))
    for fn, d in (("run_step", "StepLoop"), ("run_manual", "ManualDriver"),
                  ("run_queue", "QueueDriver"), ("run_safe_queue", "SafeQueueDriver"),
                  ("run_asio", "AsioDriver"))]


def store_part(quick, thorough):
    return dict(name="store", srcs=STORE_SRCS, cases=(quick, thorough), leaks=True)


STORE_RULE = (
    "one case is a random program on one or two stores: loop kind, automatic or "
    "transactional, futures on or off, a tree of actions whose effects dispatch "
    "more actions, watchers that dispatch, reducers and effects that throw; "
    "non-trivial when more than two actions were handled; distinct by the hash "
    "of its whole event trace")

PROPS = {
    "C01": dict(
        also=r"C05\.payload|C08\.store",
        parts=[store_part(40000, 600000)], rule=STORE_RULE,
        floors={"store_derived_reads": 100000, "store_watchers_judged": 10000,
                "throwing_watchers": 200,
                "reductions": 20000, "store_watch_calls": 500, "commits": 500,
                "exceptions_out_of_loop": 20},
    ),
    "C02": dict(
        parts=[store_part(40000, 600000)], rule=STORE_RULE,
        floors={"effects": 20000, "deps_checked": 2000},
    ),
    "C03": dict(
        parts=[store_part(40000, 600000),
               dict(name="futures", srcs=["futures.cpp"], cases=(60000, 1500000),
                    leaks=True)],
        rule=STORE_RULE + "; and random networks of futures (chained, combined, "
             "empty) of promises over loops of four kinds, completed in random "
             "orders",
        floors={"future_completions": 20000, "late_then": 1000,
                "continuations": 50000, "continuations_after_completion": 5000,
                "chained_futures": 5000, "combined_futures": 5000,
                "satisfied_again_refused": 100},
    ),
}


def graph_part(tag, quick, thorough):
    return dict(probes=tag == "transactional",
                name="graph_" + tag[:5], cases=(quick, thorough), leaks=True,
                flags=["-DFN=run_" + tag, "-DTAG=lager::" + tag + "_tag"],
                srcs=["graph_main.cpp", "graph_one.cpp", "graph_probes.cpp"])


GRAPH_RULE = (
    "one case is a random graph of up to 28 readers and cursors over three "
    "roots (attributes, keys, indices, optionals, tuples, maps, filters, "
    "two-way maps, combinations, diamonds) and 10-40 operations: writes and "
    "updates through any cursor, commits of the written roots with or without "
    "others in any order, new readers, new and dropped watchers, dropped "
    "readers; watchers do these too; distinct by the hash "
    "of its whole trace")

EXPRS_RULE = ("; and expressions: 96 of the chains that with() can say (stages "
              "one way, both ways, through lenses, made on the way, over 1-3 "
              "cursors, readers, writers or expressions), each driven by random "
              "writes and commits against the plain functions of its stages")
_X = dict(name="exprs", cases=(20000, 400000), leaks=True, opt="-O0",
          srcs=["exprs_main.cpp"] + [("exprs.cpp", ("-DPARTNO=%d" % i,))
                                     for i in range(6)])

_T = graph_part("transactional", 30000, 300000)
_A = graph_part("automatic", 24000, 200000)
PROPS.update({
    "C05": dict(
        parts=[dict(name="context", srcs=["context.cpp"], cases=(20000, 300000),
                    leaks=True), store_part(15000, 200000)],
        rule="random chains of context copies, narrowings and conversions (an "
             "own harness), and the store programs of C01",
        floors={"dispatches": 10000, "arrivals": 10000, "nested_effects": 500,
                "store_conversions": 500, "plain_dispatches": 1000}),
    "C06": dict(
        parts=[dict(name="deps", srcs=["deps.cpp"], cases=(20000, 400000),
                    leaks=True)],
        rule="random sets of dependencies and chains of conversions and merges",
        floors={"keys_verified": 50000, "merges": 5000, "conversions": 10000,
                "computed_accesses": 1000, "through_store": 500}),
    "C07": dict(parts=[_T], also=r"C08\.value|C09\.value|C10\.root", rule=GRAPH_RULE,
                floors={"commits": 20000, "watch_calls": 20000,
                        "graph_checks": 80000, "ops_in_commits": 5000}),
    "C08": dict(parts=[_T, _A, _X], also=r"C07\.mixture|C07\.visible|C11\.value|C11\.mixture",
                rule=GRAPH_RULE + EXPRS_RULE,
                floors={"expr_reads": 100000, "commits": 20000, "graph_checks": 80000,
                        "diamonds_made": 4000}),
    "C09": dict(parts=[_T, _A, _X],
                also=r"C07\.call|C11\.(not_not|last_c|stale|spur|unrel|expr_watch)",
                rule=GRAPH_RULE + EXPRS_RULE,
                floors={"expr_notified": 20000, "must_notify": 20000, "must_not_notify": 50000}),
    "C10": dict(parts=[_T, _A, _X], rule=GRAPH_RULE + EXPRS_RULE,
                floors={"expr_writes": 15000, "sets": 30000, "updates": 15000,
                        "composite_writes": 1000, "three_sources": 1000,
                        "filtered_writes": 1000}),
    "C11": dict(parts=[_A], also=r"C08|C09|C10", rule=GRAPH_RULE,
                floors={"reentrant_ops": 10000, "watch_calls": 50000}),
})

def lens_part(kind, n, quick, thorough, name=None, flags=()):
    return dict(name=name or "lens_" + kind, cases=(quick, thorough), leaks=True,
                flags=list(flags),
                srcs=["lens_%s_main.cpp" % kind] + [
                    ("lens_%s.cpp" % kind, ("-DPARTNO=%d" % i,)) for i in range(n)])


LENS_RULE = (
    "one case is one lens (plain or type-erased, single or composed) with four "
    "random wholes, parts and, where it has one, key or default; every way to "
    "call view, set and over with constant, lvalue and rvalue arguments is "
    "compared with a plain getter and setter; distinct by lens and values")

PROPS.update({
    "C16": dict(parts=[lens_part("total", 5, 40000, 1000000)], rule=LENS_RULE,
                floors={"lens_evaluations": 500000, "lenses": 80}),
    "C17": dict(parts=[
        lens_part("partial", 7, 30000, 800000),
        lens_part("partial", 7, 30000, 800000, name="lens_noexc",
                  flags=["-DLAGER_NO_EXCEPTIONS"])], rule=LENS_RULE,
                floors={"lens_evaluations": 1000000, "lenses": 100,
                        "focus_missing": 20000, "focus_exists": 20000}),
})

def life_part(quick, thorough):
    return dict(name="life", srcs=["life.cpp"], cases=(quick, thorough),
                leaks=True, probes=True)


LIFE_RULE = (
    "one case is a random program of 15-60 operations over up to 24 handles: "
    "automatic and transactional states and stores, sensors and constants as "
    "roots, readers and cursors derived, copied, moved, assigned (also to "
    "themselves) and destroyed, roots destroyed first, watchers added, bound, "
    "nudged and unbound, also from callbacks, setter cursors, writes and "
    "commits; one in 150 measures memory over repeated creation and release; "
    "distinct by the hash of its whole trace")
PROPS.update({
    "C12": dict(parts=[life_part(80000, 1500000)], rule=LIFE_RULE,
                also=r"C1[345]\.(calls|called|notified)",
                floors={"must_notify": 100000, "must_not_notify": 1000000,
                        "binds": 20000, "nudges": 20000, "unbinds": 20000,
                        "owner_ended_inside": 500}),
    "C13": dict(parts=[life_part(80000, 1500000)], rule=LIFE_RULE,
                also=r"C1[45]\.value",
                floors={"nodes_released": 500000, "nodes_live": 1000000,
                        "roots_dropped": 50000, "growth_runs": 200}),
    "C14": dict(parts=[life_part(80000, 1500000)], rule=LIFE_RULE,
                floors={"setter_calls": 50000, "setter_writes": 50000}),
    "C15": dict(parts=[life_part(80000, 1500000)], rule=LIFE_RULE,
                floors={"sensor_calls": 30000, "sensor_commits": 15000}),
})

PROPS.update({
    "C18": dict(
        parts=[dict(name="loops", srcs=["loops.cpp"], cases=(40000, 1000000),
                    leaks=True)],
        rule="one case posts random trees of tasks to two loops of one kind "
             "(manual, queue, thread-safe queue, Boost.Asio, Boost.Asio strand) "
             "from outside, from tasks, from the other loop's tasks, from "
             "joined threads and from the destructors of tasks; tasks throw; "
             "4% start asynchronous work of the Boost.Asio loop, from function "
             "objects of all kinds; distinct by the hash of the whole trace",
        floors={"asyncs": 2000, "tasks_run": 500000, "exceptions": 50000,
                "resumed_after_exception": 20000, "destruction_checks": 300000,
                "posted_by_destructors": 20000}),
    "C04": dict(
        parts=[dict(name="races", srcs=["races.cpp"], cases=(4000, 100000),
                    san="tsan", cxx="clang++", shards=4)],
        rule="one case runs 2-6 threads against a store (thread-safe queue, "
             "Boost.Asio, strand over a pool), a bare loop, or up to 170 "
             "promises satisfied by two threads while a third attaches to "
             "them, with random delays, under ThreadSanitizer; distinct by the "
             "interleaving observed (the sequence of threads whose work ran, "
             "or which futures were attached before, while, after)",
        floors={"thread_switches": 50000, "attached_while_satisfied": 5000,
                "attached_after": 5000, "attached_before": 5000,
                "continuations": 100000, "actions_reduced": 30000}),
})

DEBUG_RULE = (
    "one case is a random sequence of actions (with effects, futures and "
    "dispatches from effects) and commands to the debugger (goto, undo, redo, "
    "pause, resume, also nested and out of range), compared after each with an "
    "own timeline; distinct by the hash of the whole trace")

PROPS.update({
    "C20": dict(
        parts=[dict(name="debugger", srcs=["debugger.cpp"], cases=(24000, 600000),
                    leaks=True)],
        also=r"C21\.(extra_red|order|lost_red|pending|paused|transp)",
        rule=DEBUG_RULE,
        floors={"states_compared": 100000, "commands": 50000,
                "futures_discarded": 2000, "out_of_range": 500,
                "long_programs": 200}),
    "C21": dict(
        parts=[dict(name="debugger", srcs=["debugger.cpp"], cases=(24000, 600000),
                    leaks=True)],
        also=r"C20\.",
        rule=DEBUG_RULE,
        floors={"effects": 50000, "deferred": 10000, "resumed": 5000,
                "transparent_events": 20000}),
    "C22": dict(
        parts=[dict(name="tree_debugger", srcs=["tree_debugger.cpp"],
                    cases=(16000, 400000), leaks=True)],
        rule=DEBUG_RULE.replace("the debugger", "the tree debugger"),
        floors={"positions_checked": 50000, "branches_made": 5000,
                "third_branches_made": 500}),
    "C23": dict(
        parts=[dict(name="http", srcs=["http.cpp"], cases=(12000, 200000),
                    leaks=True),
               dict(name="http_concurrent", srcs=["http.cpp"],
                    flags=["-DCONCURRENT"], cases=(4000, 100000), san="tsan",
                    cxx="clang++", shards=4)],
        rule="one case starts a store with the debug server on a loopback "
             "port and mixes actions, API commands, reads of the summary and "
             "of every step, file requests, unknown, escaping, malformed and "
             "cut off requests, all answers compared with the own history; "
             "the concurrent cases do so from 1-3 clients and an application "
             "thread under ThreadSanitizer; distinct by the whole trace, or by "
             "which states the answers fell among",
        floors={"requests": 100000, "commands": 20000, "steps": 20000,
                "initial_steps": 5000, "unknown": 2000, "outside": 2000,
                "broken": 1000, "pipelines": 5000, "bursts": 2000, "answers_amid_changes": 10000}),
    "C24": dict(
        parts=[dict(name="cereal", cases=(36000, 1000000), leaks=True,
                    # rapidjson itself does shifts and clz that are undefined
                    flags=["-fno-sanitize=builtin,shift"],
                    srcs=["cereal_main.cpp"] + [
                        ("cereal.cpp", ("-DPARTNO=%d" % i,)) for i in range(5)])],
        rule="one case is a random value of one of 46 types, saved by one of "
             "three archives and loaded into a fresh and a used target, and "
             "then cut or corrupted six times; distinct by the bytes",
        floors={"loads_into_content": 20000, "truncated": 50000,
                "corrupted": 50000, "hostile_threw": 50000, "texts": 500,
                "shuffled": 5000, "type_and_archive": 140}),
})

QT_FLAGS = ["-fPIC", "-DQT_NO_KEYWORDS"]

PROPS.update({
    "C19": dict(
        parts=[dict(name="loops_qt", srcs=["gui_loops.cpp"], leaks=False,
                    flags=QT_FLAGS + ["-DLOOP_QT=1"],
                    pkgs=["Qt5Core", "Qt5Concurrent"], cases=(8000, 200000)),
               dict(name="loops_qml", srcs=["gui_loops.cpp"], leaks=False,
                    flags=QT_FLAGS + ["-DLOOP_QML=1"],
                    pkgs=["Qt5Core", "Qt5Concurrent", "Qt5Gui", "Qt5Qml",
                          "Qt5Quick"], cases=(3000, 60000)),
               dict(name="loops_sdl", srcs=["gui_loops.cpp"], leaks=False,
                    flags=["-DLOOP_SDL=1"], pkgs=["sdl2"], probes=True,
                    # a loop takes one of SDL's 32767 event types
                    cases=(8000, 120000))],
        rule="one case runs a real loop (Qt's exec, a Qt Quick window "
             "rendered off screen, SDL's queue) on a random tree of tasks "
             "posted from the loop and from threads, asynchronous work, "
             "native events, ticks, pause, resume, exceptions and finish, and "
             "judges each start of a task; distinct by the trace",
        floors={"tasks": 100000, "tasks_from_threads": 50000, "asyncs": 5000,
                "effects": 20000, "elsewhere": 500, "waited": 1000,
                "steps": 2000, "hidden": 50, "native": 10000, "ticks": 5000,
                "pauses": 1000, "finished_paused": 50, "refused": 500,
                "thrown": 200, "finished": 10000}),
    "C25": dict(
        parts=[dict(name="derive", srcs=["derive.cpp"], std="c++20",
                    cases=(48000, 1500000), leaks=True)],
        rule="one case is a pair of random values of one of the derived types "
             "or enumerations (equal, differing in one member, or unrelated), "
             "compared, hashed, visited, used as keys and converted; distinct "
             "by the values",
        floors={"equal_pairs": 20000, "unequal_pairs": 20000,
                "single_members": 20000, "member_hashes": 20000,
                "keys": 10000, "unknown_names": 1000, "enum_names": 1000}),
    "C26": dict(
        parts=[dict(name="thunk", cases=(40000, 1000000), leaks=True,
                    srcs=["thunk_main.cpp"] + [
                        ("thunk.cpp", ("-DLOOP=%s" % l,))
                        for l in ("Manual", "Queue", "Safe", "Asio")])],
        also=r"C0[23]\.",
        rule="one case is a store with a random stack of enhancers on one of "
             "four loops and a random script of actions and thunks (void, "
             "future returning, nested, throwing) dispatched from outside, "
             "from effects and from thunks; distinct by the trace",
        floors={"reductions": 100000, "thunks_run": 50000,
                "effects_run": 20000, "completions": 20000, "thrown": 500,
                "wrapped_calls": 20000, "watch_calls": 20000,
                "uncommitted_checks": 50000}),
    "C27": dict(
        parts=[dict(name="qtprops", srcs=["qtprops.cpp"], moc=["qtprops.cpp"],
                    flags=QT_FLAGS, pkgs=["Qt5Core"], cases=(40000, 1000000),
                    leaks=True)],
        rule="one case is a history of writes through cursors and properties "
             "(by setter, by name and by meta property), commits, assignments "
             "of other readers to the members, and destructions, over objects "
             "with a constant, reader and cursor property of each type; each "
             "signal and all reads after each step are judged; distinct by "
             "the trace",
        floors={"signals": 200000, "changes": 200000, "reads": 5000000,
                "property_writes": 50000, "refused": 30000,
                "assignments": 30000, "commits": 20000,
                "nested_writes": 1000, "deleted": 3000,
                "states_gone": 3000, "blocked_writes": 10000}),
    "C29": dict(
        parts=[dict(name="match", srcs=["match.cpp"], cases=(60000, 1500000),
                    leaks=True, opt="-O0")],
        rule="one case is one or two variants (plain, derived, derived twice; 1 "
             "to 13 alternatives; holding each of them, or nothing; passed as "
             "lvalue, constant or rvalue), alone or up to three at a time, "
             "visited by generic, overloaded, throwing, writing, taking and "
             "kept functions; distinct by kind, alternative and value",
        floors={"matches": 200000, "matches_of_several": 20000,
                "valueless": 1000}),
    "C30": dict(
        parts=[dict(name="throws", srcs=["throws.cpp"], cases=(40000, 1500000),
                    leaks=True)],
        rule="one case is one or two roots (automatic or transactional), 2 to 10 "
             "maps, lenses, two-way functions and sums below them, up to 12 "
             "watchers, and 6 to 16 writes and commits, a third of them with a "
             "function, setter or watcher armed to throw at once or later; after "
             "an exception the sources are changed until everything below has "
             "been computed again, and values and watchers are judged all along; "
             "distinct by the trace",
        floors={"throw_values": 2000000, "throw_watches_judged": 500000,
                "commits_that_threw": 5000, "writes_that_threw": 20000,
                "refused_writes": 10000, "settled": 30000}),
    "C28": dict(
        parts=[dict(name="handles", srcs=["handles.cpp"], cases=(60000, 1500000),
                    leaks=True)],
        rule="one case is a program of 20-80 steps over growing and shrinking "
             "containers of readers, cursors and writers of eight places "
             "(attributes of automatic and transactional state, a state, store, "
             "constant and sensor): make, copy, convert, move, swap, assign, "
             "also to itself, drop, read four ways, write five ways; every "
             "handle is compared with the number of the place it should name; "
             "distinct by the trace",
        floors={"assigned": 50000, "assigned_to_itself": 10000,
                "converted": 50000, "moved": 30000, "swapped": 30000,
                "reads": 2000000, "refused_reads": 200000,
                "refused_writes": 50000, "writes": 100000,
                "throwing_updates": 20000}),
})

NOT_APPLICABLE = {}
