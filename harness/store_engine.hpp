// Random store programs + the monitors of C01 (fold), C02 (effects),
// C03 (futures) and C05 (contexts), over every single-threaded event loop.
#pragma once
#include "common.hpp"

#include <array>

#include <lager/commit.hpp>
#include <lager/context.hpp>
#include <lager/effect.hpp>
#include <lager/event_loop/boost_asio.hpp>
#include <lager/event_loop/manual.hpp>
#include <lager/event_loop/queue.hpp>
#include <lager/event_loop/safe_queue.hpp>
#include <lager/lenses/attr.hpp>
#include <lager/reader.hpp>
#include <lager/store.hpp>
#include <lager/util.hpp>

#include <boost/asio/io_context.hpp>
#include <deque>
#include <optional>
#include <stdexcept>
#include <variant>

namespace se {

using vp::Case;
using vp::Tracked;

// ---------------------------------------------------------------- actions
struct Push
{
    int id;
    std::string tag;
};
struct Nop
{
    int id;
    std::string tag;
};
struct Fx
{
    int id;
    std::string tag;
};
struct Boom
{
    int id;
    std::string tag;
};
using Action = std::variant<Push, Nop, Fx, Boom>;
// a child component's action type, converted by a user supplied function
struct Child
{
    std::variant<Push, Nop> what;
};

struct boom_error : std::runtime_error
{
    using std::runtime_error::runtime_error;
};

enum Kind { k_push, k_nop, k_fx, k_boom };
enum Flavour {
    f_void,
    f_return,
    f_also,
    f_promise,
    f_sequence,
    f_seq_noop,
    f_noop,
    f_throw,
    f_narrow,
    f_nested_sequence,
    f_count
};
enum Via { v_store, v_alt, v_context, v_subset, v_converter, v_other, v_count };

struct Plan
{
    int id       = 0;
    Kind kind    = k_push;
    Flavour fl   = f_void;
    Via via      = v_store;
    bool observe = false; // attach a continuation to the future
    bool late    = false; // ... but only later
    std::vector<std::unique_ptr<Plan>> kids;
};

struct Model
{
    std::vector<int> applied;
    Tracked t{0};
    friend bool operator==(const Model& a, const Model& b)
    {
        return a.applied == b.applied;
    }
};

struct ActionState
{
    bool reduced        = false;
    bool threw          = false;
    int reductions      = 0;
    int pos             = -1; // applied.size() right after its reduction
    bool expects_effect = false;
    int effects         = 0;
    bool effect_threw   = false;
    bool effect_done    = false; // the asynchronous part, too
    int parts_started[3]{};
    int completions = 0;
    bool observed   = false;
    bool valid_future = false;
    std::vector<int> covers;
    bool pending_promise = false;
};

struct World;
struct Token
{
    int v;
};

struct World
{
    Case& c;
    int wid;
    bool transactional = false, futures = false;
    int* next_id;
    std::map<int, Plan*>* plans;
    std::map<int, ActionState>* st;
    std::vector<int> dispatched, reduced;
    std::vector<int> applied; // of the latest reduced model
    std::vector<int> effects_due, effects_seen;
    std::size_t visible_floor = 0; // visible prefix length so far
    // readers derived from the store
    std::deque<lager::reader<std::size_t>> lengths;
    std::deque<lager::reader<std::vector<int>>> parts;
    // for each watcher of a reader: what it was told last
    std::vector<std::shared_ptr<std::size_t>> told;
    bool cut_off = false; // an exception came out of a watcher
    std::size_t committed     = 0;
    bool in_loop              = false;
    bool can_tell_loop        = true;
    int token                 = 0;
    std::function<const Model&()> visible;
    std::function<void(Plan&)> dispatch_other;
    std::function<void(std::function<void()>)> post;
    std::vector<std::pair<int, lager::future>> late;

    World(Case& cc)
        : c(cc)
    {}

    ActionState& of(int id) { return (*st)[id]; }
    std::string nm(int id) const { return "#" + std::to_string(id); }

    // What can be seen now is a prefix of the fold, and never goes back.
    void look(const Model& m, const char* where)
    {
        vp::count("visible_reads");
        auto n = m.applied.size();
        if (n > applied.size() ||
            !std::equal(m.applied.begin(), m.applied.end(), applied.begin()))
            c.fail("C01.visible_not_prefix",
                   "store ",
                   wid,
                   " at ",
                   where,
                   " shows ",
                   vp::show(m.applied),
                   " but the fold of what was dispatched is ",
                   vp::show(applied));
        if (n < visible_floor)
            c.fail("C01.visible_went_back",
                   "store ",
                   wid,
                   " at ",
                   where,
                   " shows ",
                   n,
                   " applied actions after showing ",
                   visible_floor);
        visible_floor = std::max(visible_floor, n);
        if (transactional && n != committed)
            c.fail("C01.visible_without_commit",
                   "store ",
                   wid,
                   " at ",
                   where,
                   " shows ",
                   n,
                   " applied actions, committed: ",
                   committed);
        for (auto& r : lengths) {
            vp::count("store_derived_reads");
            if (r.get() != n)
                c.fail("C08.store_derived", "store ", wid, " at ", where,
                       " shows ", n, " applied actions, a mapped reader ",
                       r.get());
        }
        for (auto& r : parts) {
            vp::count("store_derived_reads");
            if (r.get() != m.applied)
                c.fail("C08.store_derived", "store ", wid, " at ", where,
                       " shows ", vp::show(m.applied), ", a zoomed reader ",
                       vp::show(r.get()));
        }
    }
    // once nothing moves any more
    void look_told(std::size_t n)
    {
        if (cut_off)
            return;
        for (auto& t : told) {
            vp::count("store_watchers_judged");
            if (*t != n)
                c.fail("C01.watch_missed", "store ", wid, " shows ", n,
                       " applied actions and a watcher was last told of ", *t);
        }
    }
};

inline Action make_action(const Plan& p)
{
    auto tag = "payload-of-action-number-" + std::to_string(p.id);
    switch (p.kind) {
    case k_push:
        return Push{p.id, tag};
    case k_nop:
        return Nop{p.id, tag};
    case k_fx:
        return Fx{p.id, tag};
    default:
        return Boom{p.id, tag};
    }
}

inline void mark_complete(World* w, int id)
{
    auto& a = w->of(id);
    ++a.completions;
    w->c.note("done ", w->wid, "#", id);
    vp::count("future_completions");
    if (a.completions > 1)
        w->c.fail("C03.completed_twice", w->nm(id), " completed twice");
    if (w->can_tell_loop && !w->in_loop)
        w->c.fail("C03.off_loop",
                  w->nm(id),
                  " continuation ran outside of the event loop");
    if (!a.reduced)
        w->c.fail("C03.early_reduce",
                  w->nm(id),
                  " completed before its action was handled");
    if (a.expects_effect && a.effects != 1)
        w->c.fail("C03.early_effect",
                  w->nm(id),
                  " completed while its effect had run ",
                  a.effects,
                  " times");
    if (a.expects_effect && !a.effect_done)
        w->c.fail("C03.early_async",
                  w->nm(id),
                  " completed before its effect was over");
    for (auto k : a.covers)
        if (w->of(k).completions != 1)
            w->c.fail("C03.early_cover",
                      w->nm(id),
                      " completed before ",
                      w->nm(k),
                      " which its effect awaited");
    if (!w->transactional && a.pos >= 0 &&
        (int) w->visible().applied.size() < a.pos)
        w->c.fail("C03.early_visible",
                  w->nm(id),
                  " completed before its update was visible");
}

// Dispatches the plan through any context-like thing that takes Action.
// Returns the future, after having chained the monitor to it.
template <typename Ctx>
lager::future dispatch_plan(World* w, const Ctx& ctx, Plan& p)
{
    auto act = make_action(p);
    w->dispatched.push_back(p.id);
    w->st->emplace(p.id, ActionState{});
    w->c.note("dispatch ", w->wid, "#", p.id, " k", p.kind, " v", p.via);
    vp::count("dispatches");
    lager::future f;
    auto simple = p.kind == k_push || p.kind == k_nop;
    if (p.via == v_alt) {
        vp::count("dispatch_by_alternative");
        f = std::visit([&](auto a) { return ctx.dispatch(std::move(a)); },
                       std::move(act));
    } else if (p.via == v_context) {
        vp::count("dispatch_by_context_copy");
        lager::context<Action> narrow{ctx};
        auto again = narrow;
        f          = again.dispatch(std::move(act));
    } else if (p.via == v_subset && simple) {
        vp::count("dispatch_by_subset_context");
        // narrowing twice, in another order of the actions
        lager::context<lager::actions<Nop, Push>> sub{ctx};
        if (p.kind == k_push) {
            lager::context<Push> one{sub};
            f = one.dispatch(std::get<Push>(act));
        } else
            f = sub.dispatch(std::get<Nop>(act));
    } else if (p.via == v_converter && simple) {
        vp::count("dispatch_by_converter_context");
        auto conv = [](Child ch) -> Action {
            return std::visit([](auto a) -> Action { return a; }, ch.what);
        };
        lager::context<Child> sub{ctx, conv};
        if (p.kind == k_push)
            f = sub.dispatch(Child{std::get<Push>(act)});
        else
            f = sub.dispatch(Child{std::get<Nop>(act)});
    } else {
        f = ctx.dispatch(std::move(act));
    }
    auto& a = w->of(p.id);
    if (w->futures != bool(f))
        w->c.fail("C03.future_validity",
                  "dispatch returned a future that is ",
                  bool(f) ? "valid" : "invalid",
                  w->futures ? " with futures enabled"
                             : " without futures enabled");
    if (!w->futures) {
        // a continuation on an empty future runs right away
        if (p.observe) {
            bool ran = false;
            auto g   = std::move(f).then([&] { ran = true; });
            vp::count("invalid_future_then");
            if (!ran || bool(g))
                w->c.fail("C03.invalid_then",
                          "continuation of an empty future did not run at once");
        }
        return {};
    }
    a.valid_future = true;
    return f;
}

inline lager::future observe(World* w, int id, lager::future f)
{
    if (!f)
        return f;
    auto& a    = w->of(id);
    a.observed = true;
    bool now   = true;
    auto pnow  = std::make_shared<bool>(true);
    Tracked t{id};
    auto r = std::move(f).then([w, id, pnow, t] {
        if (t.get() != id)
            w->c.fail("C03.state", "continuation state was clobbered");
        if (*pnow && w->can_tell_loop)
            w->c.fail("C03.synchronous_then",
                      w->nm(id),
                      " continuation ran inside of then()");
        mark_complete(w, id);
    });
    *pnow  = false;
    (void) now;
    if (!r)
        w->c.fail("C03.then_invalid", "then() gave an empty future");
    return r;
}

template <typename Ctx>
void dispatch_free(World* w, const Ctx& ctx, Plan& p)
{
    if (p.via == v_other && w->dispatch_other) {
        vp::count("dispatch_to_other_store");
        p.via = v_store;
        w->dispatch_other(p);
        return;
    }
    auto f = dispatch_plan(w, ctx, p);
    if (f && p.observe) {
        if (p.late)
            w->late.emplace_back(p.id, std::move(f));
        else {
            auto r = observe(w, p.id, std::move(f));
            (void) r;
        }
    }
}

// dispatch whose completion the effect awaits
template <typename Ctx>
lager::future dispatch_awaited(World* w, const Ctx& ctx, Plan& p, int by)
{
    auto f = dispatch_plan(w, ctx, p);
    if (f) {
        w->of(by).covers.push_back(p.id);
        return observe(w, p.id, std::move(f));
    }
    return {};
}

template <typename Ctx>
void begin_effect(World* w, const Ctx& ctx, int id, int part = 0)
{
    auto& a = w->of(id);
    w->c.note("effect ", w->wid, "#", id, ".", part);
    vp::count("effects");
    if (part == 0) {
        ++a.effects;
        w->effects_seen.push_back(id);
        if (a.effects > 1)
            w->c.fail("C02.effect_twice", w->nm(id), " effect ran twice");
        if (!a.reduced || a.threw)
            w->c.fail("C02.effect_before_reduce",
                      w->nm(id),
                      " effect ran before the reducer returned");
        auto n = w->effects_seen.size();
        if (n > w->effects_due.size() || w->effects_due[n - 1] != id)
            w->c.fail("C02.effect_order",
                      "effects ran as ",
                      vp::show(w->effects_seen),
                      ", the order of their actions is ",
                      vp::show(w->effects_due));
        if (!w->transactional && (int) w->visible().applied.size() < a.pos)
            w->c.fail("C02.effect_before_visible",
                      w->nm(id),
                      " effect ran before its update was visible: ",
                      vp::show(w->visible().applied));
        if (w->can_tell_loop && !w->in_loop)
            w->c.fail("C02.effect_off_loop",
                      w->nm(id),
                      " effect ran outside of the event loop");
    }
    ++a.parts_started[part];
    if (a.parts_started[part] > 1)
        w->c.fail("C02.part_twice",
                  w->nm(id),
                  " part ",
                  part,
                  " of a sequence ran twice");
    w->look(w->visible(), "effect");
}

template <typename Ctx>
void check_deps(World* w, const Ctx& ctx)
{
    vp::count("deps_checked");
    World& got = lager::get<World>(ctx);
    if (&got != w || lager::get<Token>(ctx).v != w->token)
        w->c.fail("C02.deps",
                  "the effect's context does not carry the store's dependencies");
}

using deps_t = lager::deps<World&, Token>;
using eff_t  = lager::effect<Action, deps_t>;

inline eff_t make_effect(World* w, Plan& p, Case& c)
{
    auto id = p.id;
    auto pp = &p;
    Tracked t{id};
    switch (p.fl) {
    case f_void:
        return [w, pp, id, t](auto&& ctx) {
            begin_effect(w, ctx, id);
            check_deps(w, ctx);
            if (t.get() != id)
                w->c.fail("C02.state", "effect state was clobbered");
            for (auto& k : pp->kids)
                dispatch_free(w, ctx, *k);
            w->of(id).effect_done = true;
        };
    case f_return:
        return [w, pp, id, t](auto&& ctx) -> lager::future {
            begin_effect(w, ctx, id);
            check_deps(w, ctx);
            if (pp->kids.empty()) {
                w->of(id).effect_done = true;
                return {};
            }
            for (std::size_t i = 1; i < pp->kids.size(); ++i)
                dispatch_free(w, ctx, *pp->kids[i]);
            w->of(id).effect_done = true; // except for what it covers
            return dispatch_awaited(w, ctx, *pp->kids[0], id);
        };
    case f_also:
        return [w, pp, id, t](auto&& ctx) -> lager::future {
            begin_effect(w, ctx, id);
            lager::future f;
            for (auto& k : pp->kids)
                f = std::move(f).also(dispatch_awaited(w, ctx, *k, id));
            w->of(id).effect_done = true;
            return f;
        };
    case f_promise:
        return [w, pp, id, t](auto&& ctx) -> lager::future {
            begin_effect(w, ctx, id);
            auto [pr, f] = lager::promise::with_post(w->post);
            w->of(id).pending_promise = true;
            for (auto& k : pp->kids)
                dispatch_free(w, ctx, *k);
            // some work on the loop, whose end satisfies the promise
            w->post([w, id, pr = pr]() mutable {
                w->post([w, id, pr = std::move(pr)]() mutable {
                    w->of(id).effect_done = true;
                    pr();
                });
            });
            return std::move(f);
        };
    case f_sequence: {
        eff_t a = [w, pp, id, t](auto&& ctx) -> lager::future {
            begin_effect(w, ctx, id, 0);
            if (pp->kids.empty())
                return {};
            return dispatch_awaited(w, ctx, *pp->kids[0], id);
        };
        eff_t b = [w, pp, id, t](auto&& ctx) {
            begin_effect(w, ctx, id, 1);
            auto& st = w->of(id);
            if (st.parts_started[0] != 1)
                w->c.fail("C02.sequence_order",
                          w->nm(id),
                          " second effect ran without the first");
            if (w->futures)
                for (auto k : st.covers)
                    if (w->of(k).completions != 1)
                        w->c.fail("C02.sequence_not_awaited",
                                  w->nm(id),
                                  " second effect of a sequence ran before ",
                                  w->nm(k),
                                  " completed");
            for (std::size_t i = 1; i < pp->kids.size(); ++i)
                dispatch_free(w, ctx, *pp->kids[i]);
            st.effect_done = true;
        };
        return lager::sequence(a, b);
    }
    case f_seq_noop: {
        eff_t b = [w, pp, id, t](auto&& ctx) {
            begin_effect(w, ctx, id, 0);
            for (auto& k : pp->kids)
                dispatch_free(w, ctx, *k);
            w->of(id).effect_done = true;
        };
        // parts that are empty, in one way or the other
        auto e = c.rng.chance(50) ? eff_t{lager::noop} : eff_t{};
        switch (c.rng.below(4)) {
        case 0:
            return lager::sequence(e, b);
        case 1:
            return lager::sequence(b, e);
        case 2:
            return lager::sequence(e, b, eff_t{});
        default:
            return lager::sequence(eff_t{}, e, b);
        }
    }
    case f_nested_sequence: {
        eff_t a = [w, pp, id, t](auto&& ctx) -> lager::future {
            begin_effect(w, ctx, id, 0);
            if (pp->kids.empty())
                return {};
            return dispatch_awaited(w, ctx, *pp->kids[0], id);
        };
        eff_t b = [w, pp, id, t](auto&& ctx) -> lager::future {
            begin_effect(w, ctx, id, 1);
            auto& st = w->of(id);
            if (st.parts_started[0] != 1)
                w->c.fail("C02.sequence_order", w->nm(id), " second before first");
            if (w->futures)
                for (auto k : st.covers)
                    if (w->of(k).completions != 1)
                        w->c.fail("C02.sequence_not_awaited",
                                  w->nm(id),
                                  " second part ran before ",
                                  w->nm(k),
                                  " completed");
            if (pp->kids.size() < 2)
                return {};
            return dispatch_awaited(w, ctx, *pp->kids[1], id);
        };
        eff_t d = [w, pp, id, t](auto&& ctx) {
            begin_effect(w, ctx, id, 2);
            auto& st = w->of(id);
            if (st.parts_started[1] != 1)
                w->c.fail("C02.sequence_order", w->nm(id), " third before second");
            if (w->futures)
                for (auto k : st.covers)
                    if (w->of(k).completions != 1)
                        w->c.fail("C02.sequence_not_awaited",
                                  w->nm(id),
                                  " third part ran before ",
                                  w->nm(k),
                                  " completed");
            st.effect_done = true;
        };
        return lager::sequence(a, b, d);
    }
    case f_noop:
        return c.rng.chance(50) ? eff_t{lager::noop} : eff_t{};
    case f_throw:
        return [w, pp, id, t](auto&& ctx) {
            begin_effect(w, ctx, id);
            for (auto& k : pp->kids)
                dispatch_free(w, ctx, *k);
            w->of(id).effect_threw = true;
            throw boom_error{"effect"};
        };
    case f_narrow: {
        // an effect of a component: fewer actions, fewer dependencies
        lager::effect<lager::actions<Push, Nop>, lager::deps<Token>> e =
            [w, pp, id, t](auto&& ctx) {
                begin_effect(w, ctx, id);
                if (lager::get<Token>(ctx).v != w->token)
                    w->c.fail("C02.deps", "narrowed context lost a dependency");
                for (auto& k : pp->kids) {
                    if (k->kind != k_push && k->kind != k_nop)
                        continue;
                    auto act = make_action(*k);
                    w->dispatched.push_back(k->id);
                    w->st->emplace(k->id, ActionState{});
                    w->c.note("dispatch ", w->wid, "#", k->id, " narrow");
                    vp::count("dispatches");
                    vp::count("dispatch_by_narrow_effect");
                    if (k->kind == k_push)
                        ctx.dispatch(std::get<Push>(act));
                    else
                        ctx.dispatch(std::get<Nop>(act));
                }
                w->of(id).effect_done = true;
            };
        return e;
    }
    default:
        return lager::noop;
    }
}

// The reducer: records the call, and answers from the plan.
inline Model reduce_model(World* w, const Model& m, const Action& act)
{
    auto [id, kind, tag] = std::visit(
        [](auto& a) {
            using T = std::decay_t<decltype(a)>;
            Kind k  = std::is_same_v<T, Push>  ? k_push
                      : std::is_same_v<T, Nop> ? k_nop
                      : std::is_same_v<T, Fx>  ? k_fx
                                               : k_boom;
            return std::make_tuple(a.id, k, a.tag);
        },
        act);
    w->c.note("reduce ", w->wid, "#", id);
    vp::count("reductions");
    auto n = w->reduced.size();
    w->reduced.push_back(id);
    if (n >= w->dispatched.size() || w->dispatched[n] != id)
        w->c.fail("C01.order",
                  "the reducer got ",
                  vp::show(w->reduced),
                  " but the dispatches were ",
                  vp::show(w->dispatched));
    auto it = w->plans->find(id);
    if (it == w->plans->end() || it->second->kind != kind ||
        tag != "payload-of-action-number-" + std::to_string(id))
        w->c.fail("C05.payload",
                  "the reducer got an action that is not the one dispatched: #",
                  id,
                  " kind ",
                  kind,
                  " '",
                  tag,
                  "'");
    if (m.applied != w->applied)
        w->c.fail("C01.model_argument",
                  "the reducer got the model ",
                  vp::show(m.applied),
                  " instead of its previous result ",
                  vp::show(w->applied));
    if (w->can_tell_loop && !w->in_loop)
        w->c.fail("C01.off_loop", "the reducer ran outside of the event loop");
    auto& a = w->of(id);
    a.reduced = true;
    if (++a.reductions > 1)
        w->c.fail("C01.reduced_twice", w->nm(id), " was handled twice");
    if (kind == k_boom) {
        a.threw = true;
        throw boom_error{"reducer"};
    }
    Model r = m;
    if (kind != k_nop) {
        r.applied.push_back(id);
        r.t        = Tracked{id};
        w->applied = r.applied;
    }
    a.pos = r.applied.size();
    return r;
}

// ---------------------------------------------------------------- drivers
// step(): runs some work, and says whether there may be more. May throw.
struct StepLoop
{
    std::deque<std::function<void()>> q;
    struct iface
    {
        StepLoop* l;
        template <typename Fn>
        void async(Fn&& fn)
        {
            throw std::logic_error{"no async"};
        }
        template <typename Fn>
        void post(Fn&& fn)
        {
            l->q.emplace_back(std::forward<Fn>(fn));
        }
        void finish() {}
        void pause() {}
        void resume() {}
    };
    static constexpr const char* name   = "step";
    static constexpr bool can_tell_loop = true;
    static constexpr bool fine          = true;
    auto loop() { return iface{this}; }
    bool step()
    {
        if (q.empty())
            return false;
        auto f = std::move(q.front());
        q.pop_front();
        f();
        return true;
    }
};

struct ManualDriver
{
    static constexpr const char* name   = "manual";
    static constexpr bool can_tell_loop = false;
    static constexpr bool fine          = false;
    std::function<void()> flush;
    auto loop() { return lager::with_manual_event_loop{}; }
    bool step()
    {
        if (flush)
            flush();
        return false;
    }
};

struct QueueDriver
{
    static constexpr const char* name   = "queue";
    static constexpr bool can_tell_loop = true;
    static constexpr bool fine          = false;
    lager::queue_event_loop q;
    auto loop() { return lager::with_queue_event_loop{q}; }
    bool step()
    {
        q.step();
        return false;
    }
};

struct SafeQueueDriver
{
    static constexpr const char* name   = "safe_queue";
    static constexpr bool can_tell_loop = true;
    static constexpr bool fine          = false;
    lager::safe_queue_event_loop q;
    auto loop() { return lager::with_safe_queue_event_loop{q}; }
    bool step()
    {
        q.step();
        return false;
    }
};

struct AsioDriver
{
    static constexpr const char* name   = "asio";
    static constexpr bool can_tell_loop = true;
    static constexpr bool fine          = true;
    boost::asio::io_context io;
    auto loop()
    {
        return lager::with_boost_asio_event_loop{io.get_executor()};
    }
    bool step()
    {
        io.restart();
        return io.poll_one() > 0;
    }
};

// ---------------------------------------------------------------- programs
struct Gen
{
    Case& c;
    int next_id = 1;
    std::map<int, Plan*> plans;
    std::vector<std::unique_ptr<Plan>> roots;
    bool throwing;

    Plan* make(int depth)
    {
        auto p = std::make_unique<Plan>();
        auto r = p.get();
        roots.push_back(std::move(p));
        fill(*r, depth);
        return r;
    }
    void fill(Plan& p, int depth)
    {
        auto& g = c.rng;
        p.id    = next_id++;
        plans[p.id] = &p;
        auto x      = g.below(100);
        p.kind      = x < 35 ? k_push : x < 45 ? k_nop : x < 92 ? k_fx : k_boom;
        if (p.kind == k_boom && !throwing)
            p.kind = k_push;
        p.via     = (Via) g.below(v_count);
        p.observe = g.chance(70);
        p.late    = g.chance(25);
        if (p.kind == k_fx) {
            p.fl = (Flavour) g.below(f_count);
            if (p.fl == f_throw && !throwing)
                p.fl = f_void;
            if (depth > 0) {
                auto n = g.below(4);
                for (std::size_t i = 0; i < n; ++i) {
                    p.kids.push_back(std::make_unique<Plan>());
                    fill(*p.kids.back(), depth - 1);
                }
            }
            if (p.fl == f_narrow)
                for (auto& k : p.kids)
                    if (k->kind != k_push && k->kind != k_nop) {
                        k->kind = k_push;
                        k->kids.clear();
                    }
        }
    }
};

template <typename T>
struct opt_box
{
    std::optional<T> v;
};

// everything completes unless something below threw
inline bool must_complete(std::map<int, ActionState>& st,
                          int id,
                          int fuel = 64)
{
    if (fuel == 0)
        return false;
    auto it = st.find(id);
    if (it == st.end())
        return false;
    auto& a = it->second;
    if (a.threw || a.effect_threw)
        return false;
    for (auto k : a.covers)
        if (!must_complete(st, k, fuel - 1))
            return false;
    return true;
}

// Effectful: 0 no effects, 1 returned in a lager::result, 2 and 3 in a pair
// with a function of the reducer's own that returns a future or nothing
template <typename Driver, bool Transactional, bool Futures, int Effectful>
void run_case(Case& c)
{
    auto base_live = Tracked::live().load();
    {
        Gen gen{c};
        gen.throwing = c.rng.chance(25);
        std::map<int, ActionState> st;
        Driver drv;
        // two worlds on the same loop, except for the manual one whose copies
        // of the loop are independent
        const int n_worlds = c.rng.chance(40) ? 2 : 1;
        std::vector<std::unique_ptr<World>> worlds;
        bool in_loop = false;
        for (int i = 0; i < n_worlds; ++i) {
            auto w           = std::make_unique<World>(c);
            w->wid           = i;
            w->transactional = Transactional;
            w->futures       = Futures;
            w->next_id       = &gen.next_id;
            w->plans         = &gen.plans;
            w->st            = &st;
            w->can_tell_loop = Driver::can_tell_loop;
            w->token         = 1000 + (int) c.rng.below(1000);
            worlds.push_back(std::move(w));
        }
        c.note(Driver::name,
               Transactional ? " transactional" : " automatic",
               Futures ? " futures" : "",
               std::array<const char*, 4>{" pure",
                                          " effects",
                                          " future functions as effects",
                                          " functions as effects"}[Effectful],
               " stores=",
               n_worlds);

        auto make = [&](World* w) {
            auto reducer = [w, &c](const Model& m, Action act) {
                if constexpr (Effectful > 1) {
                    auto r   = reduce_model(w, m, act);
                    auto* fx = std::get_if<Fx>(&act);
                    eff_t e;
                    if (fx) {
                        auto& p = *(*w->plans)[fx->id];
                        if (Effectful == 3 && p.fl != f_throw &&
                            p.fl != f_seq_noop && p.fl != f_narrow &&
                            p.fl != f_noop)
                            p.fl = f_void; // nothing that gives a future
                        if (p.fl != f_noop) {
                            w->effects_due.push_back(fx->id);
                            w->of(fx->id).expects_effect = true;
                        }
                        e = make_effect(w, p, c);
                    }
                    vp::count("effects_as_functions");
                    if constexpr (Effectful == 2)
                        return std::make_pair(
                            std::move(r), [e](auto&& ctx) -> lager::future {
                                return e ? e(ctx) : lager::future{};
                            });
                    else
                        return std::make_pair(std::move(r),
                                              [e](auto&& ctx) -> void {
                                                  if (e)
                                                      e(ctx);
                                              });
                } else if constexpr (Effectful) {
                    auto r   = reduce_model(w, m, act);
                    auto* fx = std::get_if<Fx>(&act);
                    lager::result<Model, Action, deps_t> res{std::move(r)};
                    if (fx) {
                        auto& p = *(*w->plans)[fx->id];
                        if (p.fl != f_noop) {
                            w->effects_due.push_back(fx->id);
                            w->of(fx->id).expects_effect = true;
                        }
                        res.second = make_effect(w, p, c);
                    }
                    return res;
                } else {
                    return reduce_model(w, m, act);
                }
            };
            using tag_t = std::conditional_t<Transactional,
                                             lager::transactional_tag,
                                             lager::automatic_tag>;
            if constexpr (Futures)
                return lager::make_store<Action, tag_t>(
                    Model{},
                    drv.loop(),
                    lager::with_reducer(reducer),
                    lager::with_deps(std::ref(*w), Token{w->token}),
                    lager::with_futures);
            else
                return lager::make_store<Action, tag_t>(
                    Model{},
                    drv.loop(),
                    lager::with_reducer(reducer),
                    lager::with_deps(std::ref(*w), Token{w->token}));
        };
        using store_t = decltype(make(worlds[0].get()));
        {
            std::vector<std::unique_ptr<store_t>> stores;
            std::vector<lager::reader<Model>> readers;
            readers.reserve(32);
            for (auto& w : worlds) {
                stores.push_back(std::make_unique<store_t>(make(w.get())));
                auto* s    = stores.back().get();
                w->visible = [s]() -> const Model& { return s->get(); };
                w->post    = [s](std::function<void()> f) {
                    s->loop().post(std::move(f));
                };
            }
            if constexpr (std::is_same_v<Driver, ManualDriver>)
                drv.flush = [&] {
                    for (auto& s : stores)
                        s->loop().post([] {});
                };
            if (n_worlds == 2)
                for (int i = 0; i < 2; ++i) {
                    auto* s = stores[1 - i].get();
                    auto* w = worlds[1 - i].get();
                    worlds[i]->dispatch_other = [s, w](Plan& p) {
                        // a manual loop runs at once: what it throws must
                        // not become an exception of the caller's effect
                        try {
                            dispatch_free(w, *s, p);
                        } catch (const boom_error&) {
                            vp::count("exceptions_out_of_dispatch");
                        }
                    };
                }
            // run some of the loop's work
            auto step = [&]() -> bool {
                for (auto& w : worlds)
                    w->in_loop = true;
                bool more = true;
                try {
                    more = drv.step();
                } catch (const boom_error& e) {
                    vp::count("exceptions_out_of_loop");
                    c.note("threw ", e.what());
                    more = true;
                }
                for (auto& w : worlds) {
                    w->in_loop = false;
                    w->look(w->visible(), "between tasks");
                }
                return more;
            };
            // watchers: see only prefixes; may dispatch
            int watch_budget = c.rng.below(4);
            std::vector<int> watch_hits(64, 0);
            auto add_watch = [&](int wi) {
                if (readers.size() >= 30)
                    return;
                World* w = worlds[wi].get();
                readers.emplace_back(*stores[wi]);
                bool dispatches = watch_budget > 0 && c.rng.chance(50);
                // what effects and futures do then is left open
                int throws = Effectful == 0 && !Futures && c.rng.chance(50)
                                 ? 1 + c.rng.below(3)
                                 : 0;
                auto last = std::make_shared<std::size_t>(
                    w->visible().applied.size());
                w->told.push_back(last);
                if (c.rng.chance(25)) {
                    // on a derived reader
                    auto count_up = [w, last](std::size_t n) {
                        vp::count("store_derived_watch_calls");
                        w->look(w->visible(), "derived watch");
                        if (n <= *last)
                            w->c.fail("C01.watch_stale",
                                      "a watcher of a derived reader was told "
                                      "of ",
                                      n, " applied actions after ", *last);
                        *last = n;
                    };
                    if (c.rng.chance(50)) {
                        w->lengths.push_back(stores[wi]->map(
                            [](const Model& m) { return m.applied.size(); }));
                        w->lengths.back().watch(count_up);
                    } else {
                        w->parts.push_back(readers.back().zoom(
                            lager::lenses::attr(&Model::applied)));
                        w->parts.back().watch(
                            [count_up](auto& v) { count_up(v.size()); });
                    }
                    readers.pop_back();
                    return;
                }
                readers.back().watch([&, w, wi, dispatches, last, throws](
                                         const Model& m) mutable {
                    vp::count("store_watch_calls");
                    c.note("watch ", wi, " sees ", m.applied.size());
                    w->look(m, "watch");
                    if (m.applied.size() <= *last)
                        c.fail("C01.watch_stale",
                               "a watcher was told of ",
                               m.applied.size(),
                               " applied actions after ",
                               *last);
                    *last = m.applied.size();
                    if (dispatches && watch_budget > 0) {
                        --watch_budget;
                        vp::count("dispatch_from_watch");
                        try {
                            dispatch_free(w, *stores[wi], *gen.make(1));
                        } catch (const boom_error&) {
                            // it ends the notification
                            w->cut_off = true;
                            throw;
                        }
                    }
                    if (throws && c.rng.chance(40)) {
                        --throws;
                        w->cut_off = true;
                        vp::count("throwing_watchers");
                        throw boom_error{"watcher"};
                    }
                });
            };
            for (int wi = 0; wi < n_worlds; ++wi)
                if (c.rng.chance(60))
                    add_watch(wi);
            auto guarded = [&](auto&& fn) {
                try {
                    fn();
                } catch (const boom_error& e) {
                    // manual loop: exceptions surface in dispatch()
                    vp::count("exceptions_out_of_dispatch");
                    c.note("threw ", e.what());
                    if (Driver::can_tell_loop)
                        c.fail("C01.threw_in_dispatch",
                               "an exception surfaced in dispatch()");
                }
            };
            auto commit = [&](int wi) {
                auto* w      = worlds[wi].get();
                w->committed = w->applied.size();
                c.note("commit ", wi, " -> ", w->committed);
                try {
                    lager::commit(*stores[wi]);
                } catch (const boom_error& e) {
                    c.note("commit threw ", e.what());
                }
                vp::count("commits");
                // a watcher may have made more progress in a manual loop
                if (stores[wi]->get().applied.size() != w->committed)
                    c.fail("C01.commit_latest",
                           "after commit the store shows ",
                           stores[wi]->get().applied.size(),
                           " applied actions instead of ",
                           w->committed);
            };
            int n_ops = 3 + c.rng.below(12);
            for (int op = 0; op < n_ops; ++op) {
                auto wi = c.rng.below(n_worlds);
                auto* w = worlds[wi].get();
                auto x  = c.rng.below(100);
                if (x < 45) {
                    auto* p = gen.make(3);
                    guarded([&] { dispatch_free(w, *stores[wi], *p); });
                } else if (x < 80) {
                    auto k = Driver::fine ? 1 + c.rng.below(4) : 1;
                    while (k-- && step())
                        ;
                } else if (x < 88) {
                    if (Transactional)
                        commit(wi);
                } else if (x < 92) {
                    add_watch(wi);
                } else if (x < 97) {
                    if (!w->late.empty()) {
                        auto k = c.rng.below(w->late.size());
                        auto f = std::move(w->late[k]);
                        w->late.erase(w->late.begin() + k);
                        vp::count("late_then");
                        guarded([&] {
                            auto r = observe(w, f.first, std::move(f.second));
                            (void) r;
                        });
                    }
                } else {
                    // the store may be moved around
                    vp::count("store_moves");
                    auto moved  = std::make_unique<store_t>(
                        std::move(*stores[wi]));
                    *stores[wi] = std::move(*moved);
                }
                w->look(w->visible(), "after op");
            }
            auto drain = [&] {
                int idle = 0;
                for (int i = 0; i < 20000 && idle < 2; ++i)
                    idle = step() ? 0 : idle + 1;
                if (idle < 2)
                    c.fail("C01.no_quiescence",
                           "the loop did not go idle within 20000 steps");
            };
            drain();
            for (int wi = 0; wi < n_worlds; ++wi) {
                auto* w = worlds[wi].get();
                while (!w->late.empty()) {
                    auto f = std::move(w->late.back());
                    w->late.pop_back();
                    vp::count("late_then");
                    guarded([&] {
                        auto r = observe(w, f.first, std::move(f.second));
                        (void) r;
                    });
                }
            }
            drain();
            if (Transactional)
                for (int k = 0; k < 4; ++k) {
                    for (int wi = 0; wi < n_worlds; ++wi)
                        commit(wi);
                    drain();
                }
            watch_budget = 0;
            for (int wi = 0; wi < n_worlds; ++wi) {
                auto* w = worlds[wi].get();
                if (Transactional)
                    commit(wi);
                if (w->reduced != w->dispatched)
                    c.fail("C01.lost",
                           "dispatched ",
                           vp::show(w->dispatched),
                           " but handled ",
                           vp::show(w->reduced));
                if (stores[wi]->get().applied != w->applied)
                    c.fail("C01.final",
                           "the store shows ",
                           vp::show(stores[wi]->get().applied),
                           " instead of the fold ",
                           vp::show(w->applied));
                w->look(w->visible(), "the end");
                w->look_told(w->visible().applied.size());
                if (w->effects_seen != w->effects_due)
                    c.fail("C02.effect_lost",
                           "effects due ",
                           vp::show(w->effects_due),
                           " ran ",
                           vp::show(w->effects_seen));
            }
            for (auto& [id, a] : st) {
                if (a.valid_future && a.observed && must_complete(st, id) &&
                    a.completions != 1)
                    c.fail("C03.never_completed",
                           "#",
                           id,
                           " future completed ",
                           a.completions,
                           " times");
                auto& p = *gen.plans[id];
                if (Effectful && p.kind == k_fx &&
                    (p.fl == f_sequence || p.fl == f_nested_sequence) &&
                    a.effects == 1) {
                    bool ok = true;
                    for (auto k : a.covers)
                        ok = ok && must_complete(st, k);
                    if (ok && !a.effect_done)
                        c.fail("C02.sequence_incomplete",
                               "#",
                               id,
                               " the rest of a sequence never ran");
                }
            }
            if (!worlds[0]->reduced.empty() && worlds[0]->reduced.size() > 2)
                c.nontrivial = true;
        }
        // the stores are gone; only then the worlds
        for (auto& w : worlds) {
            w->lengths.clear();
            w->parts.clear();
        }
    }
    if (Tracked::live() != base_live)
        c.fail("C01.leak",
               Tracked::live() - base_live,
               " values are still alive after the store was destroyed");
}

template <typename Driver>
void run_driver(Case& c)
{
    switch (c.rng.below(10)) {
    case 0:
    case 1:
        return run_case<Driver, false, true, 1>(c);
    case 2:
    case 3:
        return run_case<Driver, false, false, 1>(c);
    case 4:
    case 5:
        return run_case<Driver, true, true, 1>(c);
    case 6:
        return run_case<Driver, true, false, 1>(c);
    case 7:
        return run_case<Driver, false, true, 2>(c);
    case 8:
        return c.rng.chance(50) ? run_case<Driver, true, true, 3>(c)
                                : run_case<Driver, false, false, 3>(c);
    default:
        switch (c.rng.below(3)) {
        case 0: return run_case<Driver, false, true, 0>(c);
        case 1: return run_case<Driver, false, false, 0>(c);
        default: return run_case<Driver, true, false, 0>(c);
        }
    }
}

void run_step(Case& c);
void run_manual(Case& c);
void run_queue(Case& c);
void run_safe_queue(Case& c);
void run_asio(Case& c);

} // namespace se
