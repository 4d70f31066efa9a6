// C26: thunks and enhancers.  A plan is a tree of actions and thunks that
// dispatch each other; the oracle is the order in which they were dispatched.
#pragma once
#include "common.hpp"

#include <lager/commit.hpp>
#include <lager/event_loop/boost_asio.hpp>
#include <lager/event_loop/manual.hpp>
#include <lager/event_loop/queue.hpp>
#include <lager/event_loop/safe_queue.hpp>
#include <lager/extra/thunk.hpp>
#include <lager/store.hpp>
#include <lager/util.hpp>

#include <deque>
#include <optional>

namespace te {
using vp::Case;
using vp::Tracked;

struct Plain
{
    int id;
    std::string tag;
};
struct Fx
{
    int id;
    std::string tag;
};
struct FxLater
{
    int id;
    std::string tag;
};
using Action = std::variant<Plain, Fx, FxLater>;
struct Model
{
    std::vector<int> log;
    Tracked t{0};
    bool operator==(const Model& o) const { return log == o.log; }
    bool operator!=(const Model& o) const { return log != o.log; }
};
struct Service
{
    int calls = 0;
};
struct Other
{
    int calls = 0;
};

enum Kind { k_plain, k_fx, k_fx_later, k_thunk, k_thunk_later, k_null_thunk, k_noop };
enum Gives { g_own, g_last_kid, g_promise, g_kid_and_promise };
struct Node
{
    int id     = 0;
    Kind kind  = k_plain;
    Gives gives = g_own;
    bool throws  = false;
    bool observe = false;
    bool via_ctx = false;
    bool named   = false; // a thunk that is an lvalue, or a temporary
    std::vector<std::unique_ptr<Node>> kids;
    bool is_thunk() const { return kind >= k_thunk; }
    bool runs() const { return kind != k_plain && kind != k_null_thunk && kind != k_noop; }
    bool later() const { return kind == k_fx_later || kind == k_thunk_later; }
    // what the oracle knows
    int reductions = 0, run_count = 0, completions = 0;
    bool dispatched = false, observed = false, done = false, threw = false;
    bool pending = false; // waits for a promise of ours
    std::vector<Node*> covers;
};

inline thread_local std::vector<int>* tracing = nullptr;

// Wraps the reducer it is given; a call leaves its number and a negative one.
inline auto trace(int k)
{
    return [k](auto next) {
        return [k, next](auto action, auto&& model, auto&& reducer, auto&& loop,
                         auto&& deps, auto&& tags) {
            return next(
                action, LAGER_FWD(model),
                [k, reducer = LAGER_FWD(reducer)](auto&& m, auto&& a) {
                    tracing->push_back(k);
                    struct leave
                    {
                        int k;
                        ~leave() { tracing->push_back(-k); }
                    } l{k};
                    return reducer(LAGER_FWD(m), LAGER_FWD(a));
                },
                LAGER_FWD(loop), LAGER_FWD(deps), LAGER_FWD(tags));
        };
    };
}

struct Loops
{
    lager::queue_event_loop queue;
    lager::safe_queue_event_loop safe;
    boost::asio::io_context io;
};
struct Manual
{
    static constexpr auto name   = "manual";
    static constexpr bool throws = false;
    static auto make(Loops&) { return lager::with_manual_event_loop{}; }
    static void run(Loops&) {}
};
struct Queue
{
    static constexpr auto name   = "queue";
    static constexpr bool throws = true;
    static auto make(Loops& l) { return lager::with_queue_event_loop{l.queue}; }
    static void run(Loops& l) { l.queue.step(); }
};
struct Safe
{
    static constexpr auto name   = "safe_queue";
    static constexpr bool throws = true;
    static auto make(Loops& l)
    {
        l.safe.adopt();
        return lager::with_safe_queue_event_loop{l.safe};
    }
    static void run(Loops& l)
    {
        l.safe.step();
    }
};
struct Asio
{
    static constexpr auto name   = "asio";
    static constexpr bool throws = true;
    static auto make(Loops& l)
    {
        return lager::with_boost_asio_event_loop<
            boost::asio::io_context::executor_type>{l.io.get_executor()};
    }
    static void run(Loops& l)
    {
        l.io.restart();
        l.io.poll();
    }
};

struct World
{
    Case& c;
    std::vector<std::unique_ptr<Node>> roots;
    std::map<int, Node*> by_id;
    std::vector<Node*> dispatched; // in this order
    std::size_t next_reduced = 0, next_run = 0;
    std::vector<int> reduced;
    std::vector<int> shown; // by a transactional store, since its last commit
    bool committing = false;
    void uncommitted(const char* when)
    {
        if (!transactional)
            return;
        vp::count("uncommitted_checks");
        c.expect(visible().log == shown, "C26.uncommitted",
                 "a transactional store shows ", vp::show(visible().log), when,
                 ", though what was last committed is ", vp::show(shown));
    }
    std::function<const Model&()> visible;
    std::vector<std::pair<Node*, lager::promise>> promises;
    std::function<std::pair<lager::promise, lager::future>()> promise;
    std::function<lager::future(Node&, const lager::context<Action>*)> dispatch;
    bool transactional = false, futures = false, thunks = true;
    Service service;
    Other other;
    int service_used = 0, other_used = 0;
    bool has_service = false, has_other = false;

    std::string str(Node& n)
    {
        static const char* ks[] = {"plain", "fx", "fx-later", "thunk",
                                   "thunk-later", "null-thunk", "noop"};
        return std::string{ks[n.kind]} + std::to_string(n.id);
    }
    void on_dispatch(Node& n)
    {
        c.note("dispatch ", str(n), n.throws ? " (throws)" : "");
        n.dispatched = true;
        dispatched.push_back(&n);
        vp::count(n.is_thunk() ? "thunks" : "actions");
    }
    void on_reduce(int id, const std::string& tag, const Model& m)
    {
        auto& n = *by_id.at(id);
        c.note("reduce ", str(n));
        c.expect(tag == "tag" + std::to_string(id), "C26.payload",
                 "the action arrived as ", tag);
        c.expect(++n.reductions == 1, "C26.reduced_twice", str(n), " is reduced twice");
        while (next_reduced < dispatched.size() && dispatched[next_reduced]->is_thunk())
            ++next_reduced;
        c.expect(next_reduced < dispatched.size() && dispatched[next_reduced] == &n,
                 "C26.order", str(n), " is reduced out of order");
        ++next_reduced;
        c.expect(m.log == reduced, "C26.fold", "the reducer gets ",
                 vp::show(m.log), " instead of ", vp::show(reduced));
        c.expect(m.t.get() == (int) reduced.size(), "C26.fold", "the model was moved from");
        reduced.push_back(id);
        vp::count("reductions");
    }
    // what runs, runs in the order in which it was dispatched
    void on_run(Node& n, const lager::context<Action>& ctx)
    {
        c.note("run ", str(n));
        c.expect(++n.run_count == 1, "C26.twice", str(n), " runs twice");
        while (next_run < dispatched.size() && !dispatched[next_run]->runs())
            ++next_run;
        c.expect(next_run < dispatched.size() && dispatched[next_run] == &n,
                 "C26.run_order", str(n), " runs out of order");
        ++next_run;
        vp::count(n.is_thunk() ? "thunks_run" : "effects_run");
        // all dispatched before it was reduced, and is to be seen
        auto& seen       = visible().log;
        std::size_t before = 0;
        for (auto d : dispatched) {
            if (d == &n) {
                before += !n.is_thunk();
                break;
            }
            before += !d->is_thunk();
        }
        c.expect(reduced.size() >= before, "C26.before", str(n),
                 " runs before an action dispatched before it is reduced");
        uncommitted(" in an effect");
        if (!transactional) {
            c.expect(seen.size() >= before && seen.size() <= reduced.size() &&
                         std::equal(seen.begin(), seen.end(), reduced.begin()),
                     "C26.visible", str(n), " sees ", vp::show(seen), " after ",
                     vp::show(reduced));
        }
        body(n, ctx);
        n.done = !n.throws;
        if (n.throws) {
            n.threw = true;
            c.note("throw ", str(n));
            throw std::runtime_error{"planned"};
        }
    }
    lager::future last;
    void body(Node& n, const lager::context<Action>& ctx)
    {
        lager::future f;
        auto got = false;
        for (auto& k : n.kids) {
            auto is_last = &k == &n.kids.back();
            auto kf      = dispatch(*k, k->via_ctx && !k->is_thunk() ? &ctx : nullptr);
            if (is_last && n.later() && !n.throws &&
                (n.gives == g_last_kid || n.gives == g_kid_and_promise)) {
                n.covers.push_back(k.get());
                f   = std::move(kf);
                got = true;
            } else if (futures && k->observe)
                observe(*k, std::move(kf));
        }
        if (n.later() && !n.throws && futures &&
            (n.gives == g_promise || n.gives == g_kid_and_promise)) {
            auto [p, pf] = promise();
            n.pending    = true;
            promises.emplace_back(&n, std::move(p));
            if (got)
                f = std::move(f).also(std::move(pf));
            else
                f = std::move(pf);
            got = true;
        }
        last = std::move(f);
    }
    void observe(Node& n, lager::future f)
    {
        n.observed = true;
        std::move(f).then([this, &n] {
            c.note("complete ", str(n));
            vp::count("completions");
            c.expect(++n.completions == 1, "C26.completed_twice", str(n),
                     " completes twice");
            c.expect(finished(n), "C26.early", str(n),
                     " completes before what it stands for");
        });
    }
    // itself and all it waits for
    bool finished(Node& n)
    {
        if (n.is_thunk() ? n.runs() && !n.done : !n.reductions)
            return false;
        if (n.runs() && !n.done)
            return false;
        if (n.pending)
            return false;
        for (auto k : n.covers)
            if (!finished(*k))
                return false;
        return true;
    }
};

inline std::unique_ptr<Node> make(World& w, vp::Rng& r, int& budget, int depth, bool throws)
{
    auto n   = std::make_unique<Node>();
    n->id    = (int) w.by_id.size();
    n->kind  = (Kind) (w.thunks ? r.below(7) : r.below(3));
    if (w.thunks && r.chance(30))
        n->kind = r.chance(50) ? k_thunk : k_thunk_later;
    n->gives   = (Gives) r.below(4);
    n->observe = r.chance(60);
    n->via_ctx = r.chance(60);
    n->named   = r.chance(50);
    n->throws  = throws && n->runs() && r.chance(8);
    w.by_id[n->id] = n.get();
    --budget;
    if (n->runs() && depth < 5)
        while (budget > 0 && r.chance(45))
            n->kids.push_back(make(w, r, budget, depth + 1, throws));
    return n;
}

struct plain_reducer
{
    World* w;
    Model operator()(Model m, Action a) const
    {
        std::visit([&](auto& x) { w->on_reduce(x.id, x.tag, m); m.log.push_back(x.id); }, a);
        m.t = Tracked{(int) m.log.size()};
        if (tracing)
            tracing->push_back(0);
        return m;
    }
};
template <typename Deps>
struct effect_reducer
{
    World* w;
    using ctx_t = lager::context<Action, Deps>;
    lager::result<Model, Action, Deps> operator()(Model m, Action a) const
    {
        m = plain_reducer{w}(std::move(m), a);
        if (auto f = std::get_if<Fx>(&a))
            return {std::move(m), [w = w, id = f->id](const ctx_t& ctx) {
                        use(ctx);
                        w->on_run(*w->by_id.at(id), ctx);
                    }};
        if (auto f = std::get_if<FxLater>(&a))
            return {std::move(m), [w = w, id = f->id](const ctx_t& ctx) -> lager::future {
                        use(ctx);
                        w->on_run(*w->by_id.at(id), ctx);
                        return std::move(w->last);
                    }};
        return m;
    }
    static void use(const ctx_t& ctx)
    {
        if constexpr (std::is_same_v<Deps, lager::deps<Service&>>)
            ++lager::get<Service>(ctx).calls;
    }
};

template <bool Thunks, typename Deps, typename Loop, typename Store>
void drive(Case& c, World& w, Loops& loops, Store& store)
{
    auto& r = c.rng;
    w.visible  = [&]() -> const Model& { return store.get(); };
    w.dispatch = [&](Node& n, const lager::context<Action>* ctx) -> lager::future {
        w.on_dispatch(n);
        auto tag = "tag" + std::to_string(n.id);
        if constexpr (Thunks) {
            using effect_t = lager::effect<Action, Deps>;
            using ctx_t    = lager::context<Action, Deps>;
            switch (n.kind) {
            case k_thunk: {
                auto t = [w = &w, n = &n](const ctx_t& ctx) {
                    effect_reducer<Deps>::use(ctx);
                    w->on_run(*n, ctx);
                };
                if (n.named)
                    return store.dispatch(t);
                return store.dispatch(effect_t{std::move(t)});
            }
            case k_thunk_later: {
                auto t = [w = &w, n = &n](const ctx_t& ctx) -> lager::future {
                    effect_reducer<Deps>::use(ctx);
                    w->on_run(*n, ctx);
                    return std::move(w->last);
                };
                if (n.named) {
                    effect_t e = t;
                    return store.dispatch(e);
                }
                return store.dispatch(effect_t{t});
            }
            case k_null_thunk: return store.dispatch(effect_t{});
            case k_noop: return store.dispatch(effect_t{lager::noop});
            default: break;
            }
        }
        auto go = [&](auto&& a) {
            if (ctx)
                return ctx->dispatch(LAGER_FWD(a));
            return store.dispatch(Action{LAGER_FWD(a)});
        };
        switch (n.kind) {
        case k_plain: return go(Plain{n.id, tag});
        case k_fx: return go(Fx{n.id, tag});
        default: return go(FxLater{n.id, tag});
        }
    };
    w.promise     = [&] {
        return lager::promise::with_post(
            [&](auto f) { lager::context<Action>{store}.loop().post(std::move(f)); });
    };
    lager::reader<Model> watched = store;
    int calls = 0;
    watched.watch([&](const Model& m) {
        ++calls;
        c.expect(std::equal(m.log.begin(), m.log.end(), w.reduced.begin()) &&
                     m.log.size() <= w.reduced.size(),
                 "C26.watch", "a watcher gets ", vp::show(m.log));
        if (w.transactional)
            c.expect(w.committing, "C26.uncommitted",
                     "a watcher of a transactional store is called without a commit");
    });
    auto pump = [&] {
        for (int k = 0; k < 10000; ++k)
            try {
                Loop::run(loops);
                return;
            } catch (const std::runtime_error&) {
                vp::count("thrown");
            }
    };
    auto commit = [&] {
        if constexpr (Store::is_transactional_)
            if (r.chance(60)) {
                w.committing = true;
                lager::commit(store.it);
                w.committing = false;
                w.shown      = w.reduced;
            }
        w.uncommitted(" then");
    };
    for (auto& n : w.roots) {
        auto f = w.dispatch(*n, nullptr);
        if (w.futures && n->observe)
            w.observe(*n, std::move(f));
        w.uncommitted(" after a dispatch");
        if (r.chance(40))
            pump();
        w.uncommitted(" after the loop ran");
        commit();
        if (!w.promises.empty() && r.chance(30)) {
            auto k  = r.below(w.promises.size());
            auto pr = std::move(w.promises[k]);
            w.promises.erase(w.promises.begin() + (long) k);
            pr.first->pending = false;
            pr.second();
        }
    }
    pump();
    auto overdue = [&](bool all) {
        for (auto n : w.dispatched) {
            if (!n->is_thunk())
                c.expect(n->reductions == 1, "C26.lost", w.str(*n), " is not reduced");
            if (n->runs())
                c.expect(n->run_count == 1, "C26.not_run", w.str(*n), " does not run");
            if (n->observed && w.finished(*n) && (all || !n->pending))
                c.expect(n->completions == 1, "C26.not_completed", w.str(*n),
                         " does not complete");
        }
    };
    overdue(false);
    while (!w.promises.empty()) {
        auto pr = std::move(w.promises.back());
        w.promises.pop_back();
        pr.first->pending = false;
        pr.second();
        pump();
    }
    overdue(true);
    w.uncommitted(" at the end");
    w.committing = true;
    if constexpr (Store::is_transactional_)
        lager::commit(store.it);
    c.expect(store.get().log == w.reduced, "C26.model", "the model is ",
             vp::show(store.get().log), ", reduced were ", vp::show(w.reduced));
    if (w.has_service) {
        int n = 0;
        for (auto d : w.dispatched)
            n += d->run_count;
        c.expect(w.service.calls == n, "C26.deps", "the service was used ",
                 w.service.calls, " times, in ", n, " effects");
    }
    c.nontrivial = w.dispatched.size() > 3;
    c.mix(w.dispatched.size());
    if (calls)
        vp::count("watch_calls", (unsigned) calls);
}

// The store, and what to know of it
template <typename S, bool T>
struct Wrap
{
    S it;
    static constexpr bool is_transactional_ = T;
    template <typename A>
    auto dispatch(A&& a)
    {
        return it.dispatch(LAGER_FWD(a));
    }
    const Model& get() const { return it.get(); }
    operator lager::reader<Model>() { return it; }
    template <typename A, typename D>
    operator lager::context<A, D>()
    {
        return it;
    }
};
template <bool T, typename S>
Wrap<S, T> wrap(S s)
{
    return {std::move(s)};
}

// Every entry of a wrapper is left, inside of those wrapped around it; the
// reducer itself is 0.
inline void check_trace(Case& c,
                        const std::vector<int>& t,
                        const std::vector<int>& all,
                        const std::vector<int>& around_thunks,
                        std::size_t reduced,
                        std::size_t thunks)
{
    std::vector<int> whole = all;
    whole.push_back(0);
    for (auto i = all.rbegin(); i != all.rend(); ++i)
        whole.push_back(-*i);
    std::vector<int> short_ = around_thunks;
    for (auto i = around_thunks.rbegin(); i != around_thunks.rend(); ++i)
        short_.push_back(-*i);
    std::size_t at = 0, n = 0, m = 0;
    auto starts = [&](const std::vector<int>& p) {
        return !p.empty() && at + p.size() <= t.size() &&
               std::equal(p.begin(), p.end(), t.begin() + (long) at);
    };
    while (at < t.size()) {
        if (starts(whole))
            ++n, at += whole.size();
        else if (starts(short_))
            ++m, at += short_.size();
        else {
            c.fail("C26.wrapping", "the wrapped reducers were called as ",
                   vp::show(t), ", not each as ", vp::show(whole));
            return;
        }
    }
    vp::count("wrapped_calls", n + m);
    c.expect(n == reduced && (around_thunks.empty() || m == thunks), "C26.wrapped",
             "the wrapped reducers were called ", n, " and ", m, " times for ",
             reduced, " actions and ", thunks, " thunks");
}

template <typename Loop, int Config>
void run(Case& c)
{
    auto live = Tracked::live().load();
    {
        World w{c};
        Loops loops;
        std::vector<int> traced;
        tracing   = &traced;
        w.thunks  = Config != 4;
        w.futures = Config != 0;
        w.transactional = Config == 5;
        c.note(Loop::name, " config ", Config);
        int budget = 4 + (int) c.rng.below(30);
        while (budget > 0)
            w.roots.push_back(make(w, c.rng, budget, 0, Loop::throws && c.rng.chance(50)));
        std::vector<int> all, around;
        using service_deps = lager::deps<Service&>;
        if constexpr (Config == 0) {
            // a reducer without effects, and no futures
            for (auto& p : w.by_id)
                if (!p.second->is_thunk())
                    p.second->kind = k_plain, p.second->throws = false;
            auto s = wrap<false>(lager::make_store<Action>(
                Model{}, Loop::make(loops), lager::with_reducer(plain_reducer{&w}),
                lager::with_thunk()));
            drive<true, lager::deps<>, Loop>(c, w, loops, s);
        } else if constexpr (Config == 1) {
            auto s = wrap<false>(lager::make_store<Action>(
                Model{}, Loop::make(loops),
                lager::with_reducer(effect_reducer<lager::deps<>>{&w}),
                lager::with_thunk(), lager::with_futures));
            drive<true, lager::deps<>, Loop>(c, w, loops, s);
        } else if constexpr (Config == 2) {
            w.has_service = true;
            auto s        = wrap<false>(lager::make_store<Action>(
                Model{}, Loop::make(loops), lager::with_futures,
                lager::with_deps(std::ref(w.service)),
                lager::with_reducer(effect_reducer<service_deps>{&w}),
                lager::with_thunk(), lager::with_deps(std::ref(w.other))));
            drive<true, service_deps, Loop>(c, w, loops, s);
        } else if constexpr (Config == 3) {
            // 2 is given the reducer as wrapped by 1, and 3 that for thunks
            all    = {4, 3, 2, 1};
            around = {4, 3};
            auto s = wrap<false>(lager::make_store<Action>(
                Model{}, Loop::make(loops),
                lager::with_reducer(effect_reducer<lager::deps<>>{&w}), trace(1),
                trace(2), lager::with_thunk(), lager::with_futures, trace(3),
                trace(4)));
            drive<true, lager::deps<>, Loop>(c, w, loops, s);
        } else if constexpr (Config == 4) {
            all           = {3, 2, 1};
            w.has_service = true;
            auto s        = wrap<false>(lager::make_store<Action>(
                Model{}, Loop::make(loops),
                lager::with_reducer(effect_reducer<service_deps>{&w}), trace(1),
                lager::with_deps(std::ref(w.service)), trace(2), lager::with_futures,
                lager::with_deps(std::ref(w.other)), trace(3)));
            drive<false, service_deps, Loop>(c, w, loops, s);
        } else {
            w.has_service = true;
            all           = {1};
            auto s        = wrap<true>(lager::make_store<Action, lager::transactional_tag>(
                Model{}, Loop::make(loops), lager::with_deps(std::ref(w.service)),
                lager::with_reducer(effect_reducer<service_deps>{&w}), trace(1),
                lager::with_thunk(), lager::with_futures));
            drive<true, service_deps, Loop>(c, w, loops, s);
        }
        if (!all.empty()) {
            std::size_t thunks = 0;
            for (auto d : w.dispatched)
                thunks += d->is_thunk();
            check_trace(c, traced, all, around, w.reduced.size(), thunks);
        }
        tracing = nullptr;
    }
    c.expect(Tracked::live().load() == live, "C26.leak", "models were not destroyed");
}

} // namespace te
