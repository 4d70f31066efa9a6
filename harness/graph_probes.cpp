// Fixed histories that are outside of what the random graphs do, because the
// library is known to break there (see known-findings.txt)
#include "common.hpp"

#include <lager/commit.hpp>
#include <lager/cursor.hpp>
#include <lager/reader.hpp>
#include <lager/state.hpp>
#include <lager/watch.hpp>
#include <lager/with.hpp>

#include <zug/transducer/filter.hpp>
#include <zug/transducer/map.hpp>

namespace ge {
using vp::Case;

// committing one of two written roots shows the other's uncommitted value
// through what combines them
static void partial_commit(Case& c)
{
    auto a = lager::make_state(1);
    auto b = lager::make_state(10);
    lager::reader<int> s =
        lager::with(a, b).map([](int x, int y) { return x + y; });
    a.set(2);
    b.set(20);
    lager::commit(a);
    c.expect(s.get() == 12,
             "C07.partial_commit",
             "with a committed but b not, a+b shows ",
             s.get(),
             " instead of 12");
}

// the two branches of a diamond are updated one after the other
static void diamond_filter(Case& c)
{
    auto a                 = lager::make_state(1);
    lager::reader<int> x   = a.map([](int v) { return v; });
    lager::reader<int> y   = a.map([](int v) { return -v; });
    lager::reader<int> sum = lager::with(x, y).map(
        [](int p, int q) { return p + q; }); // always 0
    lager::reader<int> odd = sum.filter([](int v) { return v != 0; });
    a.set(5);
    lager::commit(a);
    c.expect(odd.get() == 0,
             "C08.diamond_filter",
             "x + -x filtered by not being 0 shows ",
             odd.get());
}

static void diamond_notify(Case& c)
{
    auto a                 = lager::make_state(1);
    lager::reader<int> x   = a.map([](int v) { return v; });
    lager::reader<int> y   = a.map([](int v) { return -v; });
    lager::reader<int> sum = lager::with(x, y).map(
        [](int p, int q) { return p + q; }); // always 0
    int calls = 0;
    lager::watch(sum, [&](int) { ++calls; });
    a.set(5);
    lager::commit(a);
    c.expect(calls == 0,
             "C09.diamond_notify",
             "the watcher of x + -x was called ",
             calls,
             " times");
}

// a watcher writes to another root of the same commit, whose watchers are then
// skipped until the next one
static void commit_write(Case& c)
{
    auto a    = lager::make_state(1);
    auto b    = lager::make_state(10);
    int calls = 0;
    lager::watch(a, [&](int) { b.set(30); });
    lager::watch(b, [&](int) { ++calls; });
    a.set(2);
    b.set(20);
    lager::commit(a, b);
    c.expect(calls == 1,
             "C09.commit_write",
             "b went to ",
             b.get(),
             " in a commit, but its watcher was called ",
             calls,
             " times");
}

vp::probe_ts graph_probes()
{
    return {{"partial_commit", partial_commit},
            {"diamond_filter", diamond_filter},
            {"diamond_notify", diamond_notify},
            {"commit_write", commit_write}};
}
} // namespace ge
