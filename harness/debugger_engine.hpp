// C20, C21, C22: random programs against stores with a debugger.  A spy
// between the debugger and the store sees every transition; an oracle of its
// own says what must have come out of it.
#pragma once
#include "common.hpp"

#include <lager/debug/debugger.hpp>
#include <lager/debug/tree_debugger.hpp>
#include <lager/reader.hpp>
#include <lager/store.hpp>
#include <lager/watch.hpp>

#include <deque>
#include <optional>
#include <variant>

namespace de {

using vp::Case;
using vp::Tracked;

struct Push
{
    int id;
    friend bool operator==(const Push& a, const Push& b) { return a.id == b.id; }
};
struct Fx
{
    int id;
    std::string tag;
    friend bool operator==(const Fx& a, const Fx& b)
    {
        return a.id == b.id && a.tag == b.tag;
    }
};
using Action = std::variant<Push, Fx>;

struct Model
{
    std::vector<int> applied;
    Tracked t{0};
    friend bool operator==(const Model& a, const Model& b)
    {
        return a.applied == b.applied && a.t == b.t;
    }
    friend bool operator!=(const Model& a, const Model& b) { return !(a == b); }
};

inline int id_of(const Action& a)
{
    return std::visit([](auto& x) { return x.id; }, a);
}

inline std::string show(const Model& m)
{
    return vp::show(m.applied) + "/" + std::to_string(m.t.get());
}

struct Service
{
    int touched = 0;
};

// ------------------------------------------------------------------ the loop
struct LoopState
{
    std::deque<std::function<void()>> q;
    std::function<void(int)> called; // -1 pause, -2 resume, -3 finish
};
struct with_step_loop
{
    LoopState* s;
    template <typename Fn>
    void post(Fn&& fn)
    {
        s->q.push_back(std::function<void()>{std::forward<Fn>(fn)});
    }
    template <typename Fn>
    void async(Fn&& fn)
    {
        post(std::forward<Fn>(fn));
    }
    void finish() { s->called(-3); }
    void pause() { s->called(-1); }
    void resume() { s->called(-2); }
};

struct reducer_error : std::runtime_error
{
    using std::runtime_error::runtime_error;
};

enum EffKind { e_none, e_void, e_dispatch_future, e_promise, e_kinds };
struct Plan
{
    EffKind eff = e_none;
    bool throws = false;
    std::vector<int> kids;
};

// ------------------------------------------------- what the application does
struct World
{
    Case& c;
    LoopState loop;
    Service service;
    std::map<int, Plan> plans;
    int next_id  = 1;
    bool futures = false;
    bool async_effects = false;
    int budget   = 60;
    std::vector<std::string> log; // for comparing two runs

    // judged by the driver
    std::function<void(const Model&, const Action&)> on_reduce;
    std::function<void(int)> on_effect;
    std::function<void(int)> on_effect_done;
    std::vector<std::pair<int, lager::promise>> promises;
    std::function<void(int, lager::future)> on_future;

    explicit World(Case& c_)
        : c{c_}
    {
        loop.called = [this](int what) { on_effect(what); };
    }

    Action make(int depth)
    {
        auto id = next_id++;
        Plan p;
        auto fx = c.rng.chance(55);
        if (fx) {
            p.eff = async_effects ? (EffKind) c.rng.below(e_kinds)
                                  : (c.rng.chance(85) ? e_void : e_none);
            if (p.eff != e_none && depth > 0)
                for (auto n = c.rng.below(3); n > 0 && budget > 0; --n, --budget)
                    p.kids.push_back(make_id(depth - 1));
            if (p.eff == e_dispatch_future && p.kids.empty())
                p.eff = e_void;
        }
        p.throws  = allow_throws && c.rng.chance(4);
        plans[id] = p;
        auto a = fx ? Action{Fx{id, "t" + std::to_string(id)}} : Action{Push{id}};
        actions[id] = a;
        return a;
    }
    bool allow_throws = false;
    std::map<int, Action> actions;
    int make_id(int depth) { return id_of(make(depth)); }

    Model fold(Model m, const Action& a) const
    {
        auto id = id_of(a);
        m.applied.push_back(id);
        m.t = Tracked{(m.t.get() % 1000003) * 3 + id};
        return m;
    }

    using deps_t   = lager::deps<Service&>;
    using effect_t = lager::effect<Action, deps_t>;
    using result_t = lager::result<Model, Action, deps_t>;
    // what make_store makes of them
    using store_deps_t =
        decltype(lager::deps<>{}.merge(lager::make_deps(std::ref(std::declval<Service&>()))));

    result_t reduce(Model m, const Action& a)
    {
        auto id = id_of(a);
        on_reduce(m, a);
        log.push_back("reduce " + std::to_string(id));
        auto& p = plans.at(id);
        if (p.throws)
            throw reducer_error{"reducer"};
        auto next = fold(std::move(m), a);
        if (p.eff == e_none)
            return {next, lager::noop};
        return {next, effect_t{[this, id](const auto& ctx) -> lager::future {
                    auto& p = plans.at(id);
                    on_effect(id);
                    log.push_back("effect " + std::to_string(id));
                    ++lager::get<Service>(ctx).touched;
                    auto last = lager::future{};
                    for (std::size_t i = 0; i < p.kids.size(); ++i) {
                        auto kid = p.kids[i];
                        auto& a  = actions.at(kid);
                        auto f   = std::holds_alternative<Push>(a) && kid % 2
                                       ? ctx.dispatch(std::get<Push>(a))
                                       : ctx.dispatch(a);
                        if (p.eff == e_dispatch_future && i == 0)
                            last = std::move(f);
                        else
                            on_future(kid, std::move(f));
                    }
                    if (p.eff == e_dispatch_future) {
                        if (!futures) {
                            on_effect_done(id);
                            return last;
                        }
                        return std::move(last).then(
                            [this, id] { on_effect_done(id); });
                    }
                    if (p.eff == e_promise && futures) {
                        auto [pr, fu] = lager::promise::with_post(
                            [this](auto fn) { loop.q.push_back(fn); });
                        promises.emplace_back(id, std::move(pr));
                        return std::move(fu);
                    }
                    on_effect_done(id);
                    return {};
                }}};
    }
};

// ----------------------------------------------------------------- the server
// Only keeps what the debugger hands to it, outside of the store.
template <typename Debugger>
struct Handed
{
    lager::context<typename Debugger::action> ctx;
    lager::reader<typename Debugger::model> data;
    int inits = 0;
};

template <typename Debugger>
struct Server
{
    Handed<Debugger>* handed;
    struct impl
    {
        Handed<Debugger>* handed;
        template <typename Ctx, typename Rd>
        void init(Ctx&& c, Rd&& r)
        {
            handed->ctx  = LAGER_FWD(c);
            handed->data = LAGER_FWD(r);
            ++handed->inits;
        }
    };
    template <typename D>
    std::shared_ptr<impl> make(D)
    {
        static_assert(std::is_same_v<D, Debugger>, "");
        return std::make_shared<impl>(impl{handed});
    }
};

template <typename W>
auto with_spy(W& w)
{
    return [&w](auto next) {
        return [&w, next](auto action,
                          auto&& model,
                          auto&& reducer,
                          auto&& loop,
                          auto&& deps,
                          auto&& tags) {
            return next(
                action,
                LAGER_FWD(model),
                [&w, reducer = LAGER_FWD(reducer)](auto&& m, auto&& a) {
                    w.before(m, a);
                    try {
                        auto r = reducer(LAGER_FWD(m), a);
                        w.after(r.first, a);
                        return r;
                    } catch (const reducer_error&) {
                        w.threw();
                        throw;
                    }
                },
                LAGER_FWD(loop),
                LAGER_FWD(deps),
                LAGER_FWD(tags));
        };
    };
}

// -------------------------------------------------------------- the programs
// The part of the monitor that both debuggers share.  O is the oracle of one
// debugger: what it records and where it goes.
template <typename O>
struct Driver
{
    using D      = typename O::debugger;
    using DModel = typename D::model;
    using DAct   = typename D::action;
    static constexpr const char* P = O::prefix;

    Case& c;
    World w{c};
    O o;
    bool paused = false;
    std::vector<Action> pending;
    // expected reductions of the transition going on
    std::deque<std::pair<int, Model>> reductions;
    bool in_resume = false, in_app = false;
    std::deque<int> effects; // expected, in order
    std::set<int> effect_ran, effect_over;
    std::set<int> was_deferred;
    long transitions = 0, app_reduced = 0, resumed = 0, time_travels = 0;
    Handed<D> handed;
    struct Fut
    {
        int id;
        bool app;
        bool valid;
        int calls = 0;
        bool dead = false; // its reducer threw
    };
    std::vector<std::unique_ptr<Fut>> futs;
    std::map<int, int> fut_of; // app action to its future, -1 if none
    std::set<int> threw_ids;

    explicit Driver(Case& c_)
        : c{c_}
        , o{c_, w}
    {
        w.on_reduce = [this](const Model& m, const Action& a) {
            ++app_reduced;
            auto id = id_of(a);
            vp::count("reductions");
            c.note("reduce ", id);
            if (!c.expect(!reductions.empty(), key("C21.extra_reduction"),
                          "action ", id, " is reduced, it should not be"))
                return;
            auto [want, model] = reductions.front();
            reductions.pop_front();
            c.expect(want == id, key("C21.order"), "action ", id,
                     " is reduced, next was ", want);
            // in a resume, the model is known once the one before is reduced
            if (in_resume)
                model = resume_model;
            c.expect(m == model, std::string(P) + ".fold", "action ", id,
                     " is applied to ", show(m), ", not ", show(model));
            resume_model = w.fold(m, a);
            if (in_resume)
                w.plans[id].throws = false;
        };
        w.on_effect = [this](int id) {
            vp::count("effects");
            c.note("effect ", id);
            auto it = std::find(effects.begin(), effects.end(), id);
            if (!c.expect(it != effects.end(), key("C21.extra_effect"),
                          "effect ", id, " (-1 pause, -2 resume) runs, ",
                          "expected ", vp::show(effects)))
                return;
            if (!w.async_effects)
                c.expect(it == effects.begin(), key("C21.effect_order"),
                         "effect ", id, " runs, expected ", vp::show(effects));
            effects.erase(it);
            if (id > 0)
                c.expect(effect_ran.insert(id).second, key("C21.effect_twice"),
                         "effect ", id, " runs again");
        };
        w.on_effect_done = [this](int id) { effect_over.insert(id); };
        w.on_future      = [this](int id, lager::future f) {
            observe(id, true, std::move(f));
        };
    }
    // the tree debugger's own property covers the same ground for it
    std::string key(const char* k) const
    {
        return std::string(P) == "C22" ? "C22." + std::string(k + 4) : k;
    }
    Model resume_model;

    void observe(int id, bool app, lager::future f)
    {
        auto fu   = std::make_unique<Fut>();
        fu->id    = id;
        fu->app   = app;
        fu->valid = f;
        c.expect((bool) f == w.futures, key("C21.future"), "the future of ", id,
                 " is valid: ", (bool) f);
        auto p = fu.get();
        futs.push_back(std::move(fu));
        if (!w.futures)
            return;
        std::move(f).then([this, p] {
            ++p->calls;
            vp::count("futures");
            w.log.push_back("future " + std::to_string(p->id));
            if (p->app && !was_deferred.count(p->id)) {
                c.expect(!threw_ids.count(p->id), key("C21.future"),
                         "the future of a failed action completes");
                if (w.plans[p->id].eff != e_none)
                    c.expect(effect_over.count(p->id), key("C21.future"),
                             "the future of ", p->id,
                             " completes before its effect");
            }
        });
    }

    // ---- the spy
    void before(const DModel& m, const DAct& a)
    {
        ++transitions;
        vp::count("transitions");
        in_resume = in_app = false;
        reductions.clear();
        o.compare(m, paused, pending, "given to the debugger");
        if (auto app = std::get_if<Action>(&a)) {
            in_app = true;
            if (!paused)
                reductions.emplace_back(id_of(*app), o.current());
        } else if (std::get_if<typename D::resume_action>(&a)) {
            in_resume    = true;
            resume_model = o.current();
            for (auto& p : pending)
                reductions.emplace_back(id_of(p), Model{});
        }
    }
    void threw()
    {
        vp::count("reducer_threw");
        for (auto& p : w.plans)
            if (p.second.throws && in_app)
                threw_ids.insert(p.first);
        reductions.clear();
    }
    void after(const DModel& m, const DAct& a)
    {
        c.expect(reductions.empty(), key("C21.lost_reduction"), "action ",
                 reductions.empty() ? 0 : reductions.front().first,
                 " is not reduced");
        if (auto app = std::get_if<Action>(&a)) {
            if (paused) {
                c.note("deferred ", id_of(*app));
                vp::count("deferred");
                pending.push_back(*app);
                was_deferred.insert(id_of(*app));
            } else
                applied(*app, m);
        } else if (auto g = std::get_if<typename D::goto_action>(&a)) {
            ++time_travels;
            o.go(g->cursor);
        } else if (std::get_if<typename D::undo_action>(&a)) {
            ++time_travels;
            o.undo(m);
        } else if (std::get_if<typename D::redo_action>(&a)) {
            ++time_travels;
            o.redo();
        } else if (std::get_if<typename D::pause_action>(&a)) {
            paused = true;
            effects.push_back(-1);
        } else {
            paused = false;
            effects.push_back(-2);
            auto ps = std::move(pending);
            pending.clear();
            resumed += (long) ps.size();
            vp::count("resumed", ps.size());
            o.resume_begin(m);
            for (auto& p : ps)
                applied(p, m);
            o.resume_end();
        }
        o.compare(m, paused, pending, "out of the debugger");
        in_resume = false;
    }
    void applied(const Action& a, const DModel& m)
    {
        o.applied(a, w.fold(o.current(), a), m);
        if (w.plans[id_of(a)].eff != e_none)
            effects.push_back(id_of(a));
    }

    void step()
    {
        auto f = std::move(w.loop.q.front());
        w.loop.q.pop_front();
        try {
            f();
        } catch (const reducer_error&) {
            c.note("threw");
        }
    }
    void drain()
    {
        for (int k = 0; k < 3000 && !w.loop.q.empty() && c.fails.empty(); ++k)
            step();
    }

    void run()
    {
        w.futures       = c.rng.chance(50);
        w.async_effects = c.rng.chance(40);
        w.allow_throws  = !w.futures && c.rng.chance(30);
        c.note(P, w.futures ? " futures" : "", w.async_effects ? " async" : "");
        Model init;
        init.applied = {-5};
        init.t       = Tracked{(int) c.rng.below(100)};
        o.init(init);
        if (w.futures)
            go(init, lager::with_futures);
        else
            go(init, lager::identity);
    }

    template <typename Fut_>
    void go(Model init, Fut_ fut)
    {
        Server<D> server{&handed};
        auto reducer = [this](Model m, Action a) { return w.reduce(std::move(m), a); };
        {
            auto store = lager::make_store<Action>(
                init,
                with_step_loop{&w.loop},
                lager::with_deps(std::ref(w.service)),
                lager::with_reducer(reducer),
                lager::with_debugger<O::template debugger_t>(server),
                fut,
                with_spy(*this));
            c.expect(handed.inits == 1, key("C21.init"), "the server is given ",
                     handed.inits, " stores");
            long watched = 0;
            store.watch([&](const DModel& m) {
                ++watched;
                vp::count("watch_calls");
                o.compare(m, paused, pending, "watched");
            });
            auto check_all = [&] {
                // what is visible is what the transitions gave, once the loop
                // has caught up
                if (w.loop.q.empty()) {
                    o.compare(store.get(), paused, pending, "of the store");
                    o.compare(handed.data.get(), paused, pending,
                              "given to the server");
                    vp::count("states_compared");
                }
            };
            check_all();
            auto lengthy = c.rng.chance(3);
            if (lengthy) {
                w.budget = 10;
                vp::count("long_programs");
            }
            auto n = lengthy ? 80 + c.rng.below(80) : 6 + c.rng.below(30);
            for (std::size_t i = 0; i < n && c.fails.empty(); ++i) {
                auto r = c.rng.below(100);
                if (lengthy && r >= 62 && c.rng.chance(75))
                    r = r % 55;
                if (r < 55) {
                    auto a  = w.make((int) c.rng.below(3));
                    auto id = id_of(a);
                    c.note("dispatch ", id);
                    auto how = c.rng.below(4);
                    if (how == 0)
                        observe(id, true, store.dispatch(a));
                    else if (how == 1)
                        observe(id, true, handed.ctx.dispatch(a));
                    else if (how == 2) {
                        lager::context<Action, World::deps_t> ctx{store};
                        observe(id, true, ctx.dispatch(a));
                    } else if (std::holds_alternative<Push>(a)) {
                        lager::context<lager::actions<Push>> ctx{store};
                        observe(id, true, ctx.dispatch(std::get<Push>(a)));
                    } else
                        observe(id, true, store.dispatch(DAct{a}));
                } else if (r < 90) {
                    DAct a;
                    auto k = c.rng.below(100);
                    if (k < 20) {
                        a = typename D::pause_action{};
                        c.note("pause");
                    } else if (k < 45) {
                        a = typename D::resume_action{};
                        c.note("resume");
                    } else if (k < 70) {
                        auto g = o.random_goto(c.rng);
                        c.note("goto ", O::show_cursor(g));
                        a = typename D::goto_action{g};
                    } else if (k < 88 || !O::has_redo) {
                        a = typename D::undo_action{};
                        c.note("undo");
                    } else {
                        a = typename D::redo_action{};
                        c.note("redo");
                    }
                    vp::count("commands");
                    if (c.rng.chance(50))
                        observe(0, false, handed.ctx.dispatch(a));
                    else
                        observe(0, false, store.dispatch(a));
                } else {
                    for (auto& p : w.promises) {
                        effect_over.insert(p.first);
                        p.second();
                    }
                    w.promises.clear();
                }
                if (c.rng.chance(60)) {
                    drain();
                } else
                    for (auto k = c.rng.below(4); k > 0 && !w.loop.q.empty(); --k)
                        step();
                check_all();
            }
            // everything that was paused gets its turn
            if (paused || c.rng.chance(30))
                store.dispatch(typename D::resume_action{});
            for (int k = 0; k < 200 && c.fails.empty(); ++k) {
                drain();
                if (w.promises.empty() && w.loop.q.empty()) {
                    if (!paused)
                        break;
                    store.dispatch(typename D::resume_action{});
                }
                auto ps = std::move(w.promises);
                w.promises.clear();
                for (auto& p : ps) {
                    effect_over.insert(p.first);
                    p.second();
                }
            }
            check_all();
            if (c.fails.empty()) {
                c.expect(effects.empty(), key("C21.lost_effect"), "effects ",
                         vp::show(effects), " never ran");
                for (auto& f : futs)
                    if (f->valid)
                        c.expect(f->calls == 1 || threw_ids.count(f->id),
                                 key("C21.future"), "the future of ", f->id,
                                 " completed ", f->calls, " times");
                c.expect((long) effect_ran.size() == (long) w.service.touched,
                         key("C21.deps"), "effects saw another dependency");
            }
            c.nontrivial = app_reduced > 2 && time_travels > 0;
            handed = {};
        }
        w.promises.clear();
    }
};

} // namespace de
