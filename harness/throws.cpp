// C30: what watchers and functions throw comes out of the write or commit that
// ran them, and leaves a graph that goes on working.
#include "common.hpp"

#include <lager/commit.hpp>
#include <lager/cursor.hpp>
#include <lager/lenses.hpp>
#include <lager/reader.hpp>
#include <lager/state.hpp>
#include <lager/watch.hpp>
#include <lager/with.hpp>

#include <deque>
#include <optional>
#include <stdexcept>

namespace {
using vp::Case;

struct Boom : std::runtime_error
{
    vp::Tracked t{1};
    Boom()
        : std::runtime_error{"boom"}
    {}
};

int wrap(long long x) { return (int) (unsigned) x; }

// what is going to throw
struct Fuse
{
    enum What { nothing, down, up, watcher };
    What what = nothing;
    int id    = -1;
    int skip  = 0; // times it still goes well
    long blown = 0;
    void pass(What w, int i)
    {
        if (what != w || id != i)
            return;
        if (skip-- > 0)
            return;
        ++blown;
        throw Boom{};
    }
};

struct Watch
{
    std::optional<lager::reader<int>> handle;
    int id    = 0;
    int node  = 0;
    int seen  = 0;
    long calls = 0;
};

struct Node
{
    int id = 0;
    std::string name;
    std::vector<int> from; // ids of nodes, none for a root
    std::function<int(const std::vector<int>&)> eval;
    lager::reader<int> r;
    // how often its sources must change before it shows the truth again
    int stale = 0;
    std::optional<lager::cursor<int>> c;
    // value to be written to the source, given its own
    std::function<int(int, int)> put;
};

template <typename Tag>
struct World
{
    static constexpr bool automatic = std::is_same_v<Tag, lager::automatic_tag>;
    Case& c;
    Fuse fuse;
    std::deque<lager::state<int, Tag>> roots;
    std::vector<int> todo, now;
    std::deque<Node> nodes;
    std::deque<Watch> watches;

    explicit World(Case& cc)
        : c{cc}
    {}

    int value(const std::vector<int>& roots_, int id)
    {
        std::vector<int> r = roots_, xs;
        for (int i = r.size(); i <= id; ++i) {
            xs.clear();
            for (auto f : nodes[i].from)
                xs.push_back(r[f]);
            r.push_back(nodes[i].eval(xs));
        }
        return r[id];
    }
    void put(int id, int v)
    {
        auto& n = nodes[id];
        if (n.from.empty())
            todo[id] = v;
        else
            put(n.from[0], n.put(value(todo, n.from[0]), v));
    }
    bool below(int id, int top)
    {
        if (id == top)
            return true;
        for (auto f : nodes[id].from)
            if (below(f, top))
                return true;
        return false;
    }

    void root()
    {
        int v = c.rng.range(-500, 500);
        roots.emplace_back(v);
        todo.push_back(v);
        now.push_back(v);
        Node n;
        n.id   = nodes.size();
        n.name = "root" + std::to_string(n.id);
        n.r    = roots.back();
        n.c    = roots.back();
        nodes.push_back(std::move(n));
    }
    void derive()
    {
        int id = nodes.size();
        int k  = c.rng.range(1, 9);
        Node n;
        n.id     = id;
        int from = c.rng.below(nodes.size());
        auto& s  = nodes[from];
        auto* f  = &fuse;
        auto how = c.rng.below(5);
        if (how >= 2 && how <= 3 && !s.c)
            how = 0;
        if (how == 4 && nodes.size() < 3)
            how = 0;
        n.from = {from};
        switch (how) {
        case 0:
            n.name = "map";
            n.eval = [k](auto& x) { return wrap(3ll * x[0] + k); };
            n.r    = s.r.map([f, id, k](int x) {
                f->pass(Fuse::down, id);
                return wrap(3ll * x + k);
            });
            break;
        case 1:
            // most changes do not go on
            n.name = "halves";
            n.eval = [k](auto& x) { return x[0] / (k * 40); };
            n.r    = s.r.map([f, id, k](int x) {
                f->pass(Fuse::down, id);
                return x / (k * 40);
            });
            break;
        case 2:
            n.name = "lens";
            n.eval = [](auto& x) { return x[0] & 0xff; };
            n.put  = [](int w, int v) { return (w & ~0xff) | (v & 0xff); };
            n.c    = s.c->zoom(lager::lenses::getset(
                [f, id](int x) {
                    f->pass(Fuse::down, id);
                    return x & 0xff;
                },
                [f, id](int w, int v) {
                    f->pass(Fuse::up, id);
                    return (w & ~0xff) | (v & 0xff);
                }));
            n.r    = *n.c;
            break;
        case 3:
            n.name = "both ways";
            n.eval = [k](auto& x) { return wrap(x[0] + (long long) k); };
            n.put  = [k](int, int v) { return wrap(v - (long long) k); };
            n.c    = s.c->xform(zug::map([f, id, k](int x) {
                                 f->pass(Fuse::down, id);
                                 return wrap(x + (long long) k);
                             }),
                             zug::map([f, id, k](int v) {
                                 f->pass(Fuse::up, id);
                                 return wrap(v - (long long) k);
                             }));
            n.r    = *n.c;
            break;
        default: {
            int other = c.rng.below(nodes.size());
            if (other == from)
                other = (from + 1) % nodes.size();
            n.from = {from, other};
            n.name = "sum";
            n.eval = [](auto& x) { return wrap((long long) x[0] + x[1]); };
            n.r    = lager::with(s.r, nodes[other].r)
                      .map([f, id](int a, int b) {
                          f->pass(Fuse::down, id);
                          return wrap((long long) a + b);
                      });
        }
        }
        n.name += std::to_string(id);
        c.note(n.name, " of ", vp::show(n.from));
        nodes.push_back(std::move(n));
    }
    void watch()
    {
        if (watches.size() >= 12)
            return;
        watches.emplace_back();
        auto& w  = watches.back();
        w.id     = watches.size() - 1;
        w.node   = c.rng.below(nodes.size());
        w.handle = nodes[w.node].r;
        w.seen   = w.handle->get();
        c.note("watcher ", w.id, " of ", nodes[w.node].name);
        lager::watch(*w.handle, [this, p = &w](int v) {
            ++p->calls;
            p->seen = v;
            vp::count("throw_watch_calls");
            fuse.pass(Fuse::watcher, p->id);
        });
    }

    // An exception cut a change short: what derived readers show is open,
    // until their sources change again.
    void shake()
    {
        for (auto& n : nodes)
            n.stale = n.from.size();
    }
    bool shaken() const
    {
        for (auto& n : nodes)
            if (n.stale)
                return true;
        return false;
    }
    // a change went all the way
    void turned(const std::vector<int>& was)
    {
        std::vector<int> id;
        for (auto& n : nodes)
            if (n.stale) {
                bool sound = true, changed = false;
                for (auto f : n.from) {
                    sound = sound && !nodes[f].stale;
                    changed |= value(was, f) != value(now, f);
                }
                if (sound && changed)
                    id.push_back(n.id);
            }
        for (auto i : id)
            --nodes[i].stale;
    }

    // ---- oracles
    void check_values(const char* when)
    {
        for (std::size_t i = 0; i < roots.size(); ++i)
            c.expect(roots[i].get() == now[i], "C30.root", when, ": root ", i,
                     " shows ", roots[i].get(), " and not ", now[i]);
        for (auto& n : nodes) {
            if (n.stale)
                continue;
            vp::count("throw_values");
            c.expect(n.r.get() == value(now, n.id), "C30.value", when, ": ",
                     n.name, " shows ", n.r.get(), " and not ",
                     value(now, n.id));
        }
    }

    // runs what may throw
    template <typename Fn>
    bool threw(const char* what, Fn&& fn)
    {
        auto blown  = fuse.blown;
        bool caught = false;
        try {
            fn();
        } catch (const Boom&) {
            caught = true;
        }
        c.expect(caught == (fuse.blown > blown), "C30.swallowed", what,
                 caught ? " threw by itself" : " swallowed an exception");
        return caught;
    }

    // every root, one after the other or all at once
    void commit(bool judge)
    {
        auto before = now;
        std::vector<long> calls;
        for (auto& w : watches)
            calls.push_back(w.calls);
        bool bad = false;
        if (c.rng.chance(50) && roots.size() == 2) {
            bad = threw("commit", [&] { lager::commit(roots[0], roots[1]); });
            if (bad) {
                // the second may have been left for later
                vp::count("commits_that_threw");
                shake();
                now[0] = roots[0].get() == todo[0] ? todo[0] : now[0];
                now[1] = roots[1].get() == todo[1] ? todo[1] : now[1];
                bool again = threw("commit", [&] {
                    fuse.what = Fuse::nothing;
                    lager::commit(roots[1], roots[0]);
                });
                c.expect(!again, "C30.swallowed", "threw with nothing to throw");
                now = todo;
                check_values("after committing again");
                return;
            }
        } else {
            // A reader of both shows what is committed of one and what is
            // pending of the other, so only the outcome is judged.
            for (std::size_t i = 0; i < roots.size(); ++i)
                if (threw("commit", [&] { lager::commit(roots[i]); })) {
                    vp::count("commits_that_threw");
                    bad = true;
                }
        }
        auto sound = stales();
        now        = todo;
        if (bad)
            shake();
        else {
            turned(before);
            if (judge)
                judge_calls(before, calls, sound);
        }
        check_values("after a commit");
    }
    std::vector<int> stales()
    {
        std::vector<int> r;
        for (auto& n : nodes)
            r.push_back(n.stale);
        return r;
    }
    void judge_calls(const std::vector<int>& before,
                     const std::vector<long>& calls,
                     const std::vector<int>& stale)
    {
        for (std::size_t i = 0; i < calls.size(); ++i) {
            auto& w = watches[i];
            if (stale[w.node])
                continue;
            int was = value(before, w.node), is = value(now, w.node);
            if (was == is)
                continue;
            vp::count("throw_watches_judged");
            c.expect(w.calls > calls[i] && w.seen == is, "C30.watch",
                     "watcher ", w.id, " of ", nodes[w.node].name, " was called ",
                     w.calls - calls[i], " times, last with ", w.seen,
                     ", as the value went from ", was, " to ", is);
        }
    }
    // with nothing that throws, every root changes, until all is sound
    void settle()
    {
        fuse.what = Fuse::nothing;
        for (int turn = 0; turn < 2 || (turn < 30 && shaken()); ++turn) {
            for (std::size_t i = 0; i < roots.size(); ++i) {
                int v = wrap(now[i] + 100000ll * (1 + (long) c.rng.below(30)) +
                             c.rng.range(1, 255));
                todo[i] = v;
                std::vector<long> calls;
                for (auto& w : watches)
                    calls.push_back(w.calls);
                auto was   = now;
                auto sound = stales();
                threw("set", [&] { roots[i].set(v); });
                if (automatic) {
                    now[i] = v;
                    turned(was);
                    judge_calls(was, calls, sound);
                    check_values("after a root was set");
                }
            }
            if (!automatic)
                commit(true);
        }
        vp::count(shaken() ? "not_settled" : "settled");
    }

    void arm()
    {
        fuse.skip = c.rng.chance(60) ? 0 : c.rng.below(3);
        switch (c.rng.below(3)) {
        case 0:
            fuse.what = Fuse::down;
            fuse.id   = c.rng.below(nodes.size());
            break;
        case 1:
            fuse.what = Fuse::up;
            fuse.id   = c.rng.below(nodes.size());
            break;
        default:
            if (watches.empty())
                return;
            fuse.what = Fuse::watcher;
            fuse.id   = c.rng.below(watches.size());
        }
        c.note("armed: ", fuse.what == Fuse::watcher ? "watcher " : fuse.what == Fuse::up ? "way back of " : "function of ",
               fuse.id);
    }

    void write()
    {
        int id = c.rng.below(nodes.size());
        for (int i = 0; i < 5 && !nodes[id].c; ++i)
            id = c.rng.below(nodes.size());
        auto& n = nodes[id];
        if (!n.c)
            return;
        int v      = c.rng.range(-3000, 3000);
        auto old   = todo;
        auto was   = now;
        auto blown = fuse.blown;
        std::vector<long> calls;
        for (auto& w : watches)
            calls.push_back(w.calls);
        // did the exception come before anything was written?
        bool update = c.rng.chance(40);
        bool own    = update && c.rng.chance(20);
        c.note(update ? "update " : "set ", n.name, " ", v);
        bool thrown = threw("write", [&] {
            if (update)
                n.c->update([&](int x) {
                    if (own) {
                        ++fuse.blown;
                        throw Boom{};
                    }
                    return wrap((long long) x + v);
                });
            else
                n.c->set(v);
        });
        auto by_fuse = fuse.what;
        if (!thrown) {
            if (shaken()) {
                // what it was computed from is open
                todo = old;
                for (std::size_t i = 0; i < roots.size(); ++i)
                    if (below(id, i)) {
                        // learn it
                        if (automatic)
                            todo[i] = now[i] = roots[i].get();
                    }
                if (!automatic)
                    unsure = true;
                return;
            }
            put(id, update ? wrap((long long) value(todo, id) + v) : v);
            if (automatic) {
                now = todo;
                check_values("after a write");
                judge_calls(was, calls, std::vector<int>(nodes.size()));
            }
            return;
        }
        vp::count("writes_that_threw");
        if (own || by_fuse == Fuse::up || !automatic) {
            // nothing was written
            if (automatic)
                for (std::size_t i = 0; i < roots.size(); ++i)
                    c.expect(roots[i].get() == now[i], "C30.half_written",
                             "root ", i, " is ", roots[i].get(), " and not ",
                             now[i], " though the way back threw");
            vp::count("refused_writes");
            return;
        }
        // an automatic root was written, or not yet, if reading threw
        shake();
        for (std::size_t i = 0; i < roots.size(); ++i)
            todo[i] = now[i] = roots[i].get();
    }
    bool unsure = false;

    void run()
    {
        root();
        if (c.rng.chance(60))
            root();
        for (int n = c.rng.range(2, 10); n > 0; --n)
            derive();
        for (int n = c.rng.range(1, 8); n > 0; --n)
            watch();
        check_values("at first");
        for (int n = c.rng.range(6, 16); n > 0 && c.fails.empty(); --n) {
            if (c.rng.chance(35))
                arm();
            write();
            if (unsure) {
                settle();
                unsure = false;
                continue;
            }
            if (!automatic && c.rng.chance(60))
                commit(true);
            if (shaken() || c.rng.chance(10))
                settle();
            if (c.rng.chance(10) && !shaken()) {
                fuse.what = Fuse::nothing;
                if (todo == now)
                    derive();
                watch();
            }
        }
        settle();
        c.nontrivial = fuse.blown > 0;
        vp::count("fuses_blown", fuse.blown);
    }
};
} // namespace

int main(int argc, char** argv)
{
    return vp::run_main(argc, argv, [](Case& c) {
        auto live = vp::Tracked::live().load();
        if (c.rng.chance(50)) {
            World<lager::automatic_tag> w{c};
            w.run();
        } else {
            World<lager::transactional_tag> w{c};
            w.run();
        }
        c.expect(vp::Tracked::live() == live, "C30.leak", "exceptions are kept");
    });
}
