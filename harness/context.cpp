// C05: chains of context conversions. Every dispatch records what must arrive;
// the reducer compares.
#include "common.hpp"
#include <deque>
#include <lager/context.hpp>
#include <lager/effect.hpp>
#include <lager/store.hpp>
#include <variant>

using vp::Case;
using vp::Tracked;

// leaf actions
struct La
{
    std::string s;
    Tracked t;
};
struct Lb
{
    std::string s;
    Tracked t;
};
struct Lc
{
    std::string s;
    Tracked t;
};
// a component's action: alternatives, and things that wrap them
using LeafAction = std::variant<La, Lb>;
struct MidL
{
    LeafAction a;
    int index;
};
struct MidOwn
{
    std::string s;
    Tracked t;
};
using MidAction = std::variant<MidL, MidOwn, Lc>;
struct RootMid
{
    MidAction a;
    std::string where;
};
struct RootOwn
{
    std::string s;
    Tracked t;
};
// plain values that convert to each other
using Plain = std::variant<int, double, bool, char>;
struct RootNum
{
    Plain x;
};
using RootAction = std::variant<RootMid, RootOwn, Lc, LeafAction, RootNum>;

inline std::string str(const La& x)
{
    return "La:" + x.s + ":" + std::to_string(x.t.get());
}
inline std::string str(const Lb& x)
{
    return "Lb:" + x.s + ":" + std::to_string(x.t.get());
}
inline std::string str(const Lc& x)
{
    return "Lc:" + x.s + ":" + std::to_string(x.t.get());
}
inline std::string str(const MidOwn& x)
{
    return "MidOwn:" + x.s + ":" + std::to_string(x.t.get());
}
inline std::string str(const RootOwn& x)
{
    return "RootOwn:" + x.s + ":" + std::to_string(x.t.get());
}
template <typename... Ts>
std::string str(const std::variant<Ts...>& v);
inline std::string str(const MidL& x)
{
    return "MidL" + std::to_string(x.index) + "(" + str(x.a) + ")";
}
inline std::string str(int x) { return "int:" + std::to_string(x); }
inline std::string str(double x) { return "double:" + std::to_string(x); }
inline std::string str(bool x) { return x ? "bool:1" : "bool:0"; }
inline std::string str(char x) { return "char:" + std::to_string((int) x); }
inline std::string str(const RootNum& x) { return "Num(" + str(x.x) + ")"; }
inline std::string str(const RootMid& x)
{
    return "RootMid@" + x.where + "(" + str(x.a) + ")";
}
template <typename... Ts>
std::string str(const std::variant<Ts...>& v)
{
    return std::visit([](auto& x) { return str(x); }, v);
}

struct Loop
{
    std::deque<std::function<void()>> q;
    int finished = 0, paused = 0, resumed = 0, asynced = 0;
    struct iface
    {
        Loop* l;
        template <typename Fn>
        void async(Fn&& fn)
        {
            ++l->asynced;
            l->q.emplace_back(std::forward<Fn>(fn));
        }
        template <typename Fn>
        void post(Fn&& fn)
        {
            l->q.emplace_back(std::forward<Fn>(fn));
        }
        void finish() { ++l->finished; }
        void pause() { ++l->paused; }
        void resume() { ++l->resumed; }
    };
    void run()
    {
        while (!q.empty()) {
            auto f = std::move(q.front());
            q.pop_front();
            f();
        }
    }
};

struct S1
{
    int v;
};
struct S2
{
    int v;
};
using rdeps = lager::deps<S1&, S2>;

struct W
{
    Case& c;
    Loop loop;
    std::deque<std::string> expected;
    std::vector<std::string> got;
    int conv_mid = 0, conv_root = 0, want_mid = 0, want_root = 0;
    S1 s1{0};
    int s2     = 0;
    int serial = 0;
    int store_id;
    std::map<std::string, std::function<void()>> on; // effects to run
    int completions = 0, want_completions = 0;
    int tasks = 0, want_tasks = 0; // posted through a context's loop

    std::string fresh()
    {
        return "payload-that-is-long-enough-" + std::to_string(store_id) + "-" +
               std::to_string(++serial);
    }
    void expect(std::string s)
    {
        c.note("expect ", s);
        vp::count("dispatches");
        expected.push_back(std::move(s));
    }
};

struct M
{
    int n = 0;
    bool operator==(const M& o) const { return n == o.n; }
};

// Dispatches a leaf action on anything that takes it.
template <typename T>
T make_leaf(W& w)
{
    auto s = w.fresh();
    return T{s, Tracked{w.serial}};
}

template <typename Ctx, typename T>
void send(W& w, const Ctx& ctx, T x, const std::string& expect)
{
    w.expect(expect);
    lager::future f;
    if (w.c.rng.chance(50)) {
        // an lvalue is not consumed
        auto before = str(x);
        f           = ctx.dispatch(x);
        if (str(x) != before)
            w.c.fail("C05.lvalue_consumed",
                     "dispatching an lvalue changed it: ",
                     before,
                     " became ",
                     str(x));
    } else
        f = ctx.dispatch(std::move(x));
    if (!f)
        w.c.fail("C05.future_lost",
                 "a context of a store with futures gave an empty future");
    else {
        ++w.want_completions;
        auto g = std::move(f).then([&w] { ++w.completions; });
    }
}

template <typename Ctx>
void check_rest(W& w, const Ctx& ctx)
{
    vp::count("context_checks");
    if (&lager::get<S1>(ctx) != &w.s1)
        w.c.fail("C05.deps", "a context lost or changed a dependency");
    // each thing asked of the loop through a context is asked of that loop
    auto was = [&w] {
        return std::vector<std::size_t>{(std::size_t) w.loop.finished,
                                        (std::size_t) w.loop.paused,
                                        (std::size_t) w.loop.resumed,
                                        (std::size_t) w.loop.asynced,
                                        w.loop.q.size()};
    };
    auto want = was();
    auto what = w.c.rng.below(5);
    switch (what) {
    case 0:
        ctx.loop().finish();
        ++want[0];
        break;
    case 1:
        ctx.loop().pause();
        ++want[1];
        break;
    case 2:
        ctx.loop().resume();
        ++want[2];
        break;
    case 3:
        ++w.want_tasks;
        ctx.loop().async([&w] { ++w.tasks; });
        ++want[3];
        ++want[4];
        break;
    default:
        ++w.want_tasks;
        ctx.loop().post([&w] { ++w.tasks; });
        ++want[4];
    }
    if (was() != want)
        w.c.fail("C05.loop", "a context does not ask the store's loop for ", what);
}

// leaf level: takes La and Lb; `wrap` says what the root must get
template <typename Ctx, typename Wrap>
void at_leaf(W& w, const Ctx& ctx, Wrap wrap)
{
    switch (w.c.rng.below(6)) {
    case 0: {
        auto x = make_leaf<La>(w);
        send(w, ctx, x, wrap(str(x)));
        break;
    }
    case 1: {
        auto x = make_leaf<Lb>(w);
        send(w, ctx, x, wrap(str(x)));
        break;
    }
    case 2: {
        // a further subset
        lager::context<lager::actions<Lb>> one{ctx};
        auto x = make_leaf<Lb>(w);
        send(w, one, x, wrap(str(x)));
        break;
    }
    case 3: {
        // reordered alternatives, narrower dependencies
        lager::context<lager::actions<Lb, La>, lager::deps<S1&>> two{ctx};
        check_rest(w, two);
        auto x = make_leaf<La>(w);
        send(w, two, x, wrap(str(x)));
        auto y = make_leaf<Lb>(w);
        send(w, two, y, wrap(str(y)));
        break;
    }
    case 4: {
        lager::context<lager::actions<La, Lb>> a{ctx};
        lager::context<lager::actions<Lb, La>> b{a};
        lager::context<La> d{b};
        auto x = make_leaf<La>(w);
        send(w, d, x, wrap(str(x)));
        break;
    }
    default: {
        // copies outlive the original
        auto cp =
            std::make_unique<lager::context<lager::actions<Lb, La>>>(ctx);
        auto cp2 = *cp;
        cp.reset();
        LeafAction x = make_leaf<La>(w);
        if (w.c.rng.chance(50))
            x = make_leaf<Lb>(w);
        auto e = wrap(str(x));
        std::visit([&](auto& y) { send(w, cp2, y, e); }, x);
        break;
    }
    }
}

template <typename Ctx>
void at_mid(W& w, const Ctx& ctx, const std::string& where);

template <typename Ctx, typename Wrap>
void mid_ops(W& w, const Ctx& ctx, Wrap wrap)
{
    switch (w.c.rng.below(5)) {
    case 0: {
        auto x = make_leaf<MidOwn>(w);
        send(w, ctx, x, wrap(str(x)));
        break;
    }
    case 1: {
        auto x = make_leaf<Lc>(w);
        send(w, ctx, MidAction{x}, wrap(str(x)));
        break;
    }
    case 2: {
        lager::context<lager::actions<Lc, MidOwn>, lager::deps<S1&>> sub{ctx};
        auto x = make_leaf<Lc>(w);
        send(w, sub, x, wrap(str(x)));
        auto y = make_leaf<MidOwn>(w);
        send(w, sub, y, wrap(str(y)));
        break;
    }
    default: {
        int index = w.c.rng.below(50);
        // converter to an alternative of the action, or to the action
        if (w.c.rng.chance(50)) {
            lager::context<LeafAction, lager::deps<S1&>> leaf{
                ctx, [&w, index](LeafAction a) {
                    ++w.conv_mid;
                    return MidL{std::move(a), index};
                }};
            check_rest(w, leaf);
            lager::context<lager::actions<La, Lb>, lager::deps<S1&>> two{
                leaf, lager::identity};
            auto wrap2 = [&, index](std::string s) {
                ++w.want_mid;
                return wrap("MidL" + std::to_string(index) + "(" + s + ")");
            };
            at_leaf(w, two, wrap2);
        } else {
            lager::context<lager::actions<La, Lb>, lager::deps<S1&>> leaf{
                ctx, [&w, index](auto a) -> MidAction {
                    ++w.conv_mid;
                    return MidL{std::move(a), index};
                }};
            check_rest(w, leaf);
            auto wrap2 = [&, index](std::string s) {
                ++w.want_mid;
                return wrap("MidL" + std::to_string(index) + "(" + s + ")");
            };
            at_leaf(w, leaf, wrap2);
            at_leaf(w, leaf, wrap2);
        }
    }
    }
}

// subsets and reorderings never turn an action into another one
template <typename... As>
void plain_chain(W& w, const lager::context<lager::actions<As...>>& ctx, int n)
{
    using lager::actions;
    Plain x;
    switch (w.c.rng.below(4)) {
    case 0:
        x = (int) w.c.rng.range(-300, 300);
        break;
    case 1:
        x = w.c.rng.range(-300, 300) / 4.0;
        break;
    case 2:
        x = w.c.rng.chance(50);
        break;
    default:
        x = (char) w.c.rng.range(2, 100);
    }
    auto want = "Num(" + str(x) + ")";
    ++w.want_root;
    vp::count("plain_dispatches");
    std::visit(
        [&](auto v) {
            using T = decltype(v);
            if (w.c.rng.chance(50))
                send(w, ctx, v, want);
            else {
                lager::context<T> one{ctx};
                send(w, one, v, want);
            }
        },
        x);
    if (n > 0) {
        switch (w.c.rng.below(4)) {
        case 0:
            return plain_chain(
                w,
                lager::context<actions<char, bool, double, int>>{ctx},
                n - 1);
        case 1:
            return plain_chain(
                w,
                lager::context<actions<bool, int, char, double>>{ctx},
                n - 1);
        case 2:
            return plain_chain(
                w,
                lager::context<actions<double, char, int, bool>>{ctx},
                n - 1);
        default: {
            // a converter that does nothing
            lager::context<actions<int, double, bool, char>> c2{
                ctx, [](auto a) { return a; }};
            return plain_chain(w, c2, n - 1);
        }
        }
    }
}

template <typename Ctx>
void root_ops(W& w, const Ctx& ctx)
{
    auto id = [](std::string s) { return s; };
    switch (w.c.rng.below(9)) {
    case 7: {
        lager::context<lager::actions<int, double, bool, char>> nums{
            ctx, [&w](auto a) {
                ++w.conv_root;
                return RootNum{Plain{a}};
            }};
        plain_chain(w, nums, 4);
        break;
    }
    case 0: {
        auto x = make_leaf<RootOwn>(w);
        send(w, ctx, x, str(x));
        break;
    }
    case 1: {
        auto x = make_leaf<Lc>(w);
        send(w, ctx, RootAction{x}, str(x));
        break;
    }
    case 2: {
        // RootAction can be made from a whole LeafAction
        lager::context<LeafAction, lager::deps<S1&>> leaf{ctx};
        lager::context<lager::actions<La, Lb>, lager::deps<S1&>> two{
            leaf, lager::identity};
        at_leaf(w, two, id);
        break;
    }
    case 3: {
        lager::context<lager::actions<RootOwn, Lc>> sub{ctx};
        auto x = make_leaf<Lc>(w);
        send(w, sub, x, str(x));
        auto y = make_leaf<RootOwn>(w);
        send(w, sub, y, str(y));
        break;
    }
    default: {
        auto where = "w" + std::to_string(w.c.rng.below(9));
        lager::context<MidAction, rdeps> mid{ctx, [&w, where](MidAction a) {
                                                 ++w.conv_root;
                                                 return RootMid{std::move(a),
                                                                where};
                                             }};
        check_rest(w, mid);
        if (lager::get<S2>(mid).v != w.s2)
            w.c.fail("C05.deps", "a converted context changed a dependency");
        auto n = 1 + w.c.rng.below(3);
        while (n--)
            mid_ops(w, mid, [&, where](std::string s) {
                ++w.want_root;
                return "RootMid@" + where + "(" + s + ")";
            });
    }
    }
}

struct Fxs
{
    std::deque<std::function<void(const lager::context<RootAction, rdeps>&)>> q;
};

void run_case(Case& c)
{
    auto live = Tracked::live().load();
    {
        std::vector<std::unique_ptr<W>> ws;
        int n_stores = 1 + c.rng.below(2);
        for (int i = 0; i < n_stores; ++i) {
            ws.push_back(std::unique_ptr<W>(new W{c}));
            ws.back()->store_id = i;
            ws.back()->s2       = 7 + i;
        }
        int effects_left = 6, nested_run = 0, nested_want = 0;
        auto make = [&](W& w) {
            using eff_t = lager::effect<RootAction, rdeps>;
            using res_t = lager::result<M, RootAction, rdeps>;
            return lager::make_store<RootAction>(
                M{},
                Loop::iface{&w.loop},
                lager::with_reducer([&](M m, RootAction a) -> res_t {
                    auto s = str(a);
                    w.got.push_back(s);
                    vp::count("arrivals");
                    if (w.expected.empty())
                        c.fail("C05.extra", "an action arrived twice: ", s);
                    else {
                        if (w.expected.front() != s)
                            c.fail("C05.payload",
                                   "store ",
                                   w.store_id,
                                   " got ",
                                   s,
                                   " instead of ",
                                   w.expected.front());
                        w.expected.pop_front();
                    }
                    ++m.n;
                    if (effects_left > 0 && c.rng.chance(25)) {
                        --effects_left;
                        ++nested_want;
                        vp::count("nested_effects");
                        switch (c.rng.below(4)) {
                        case 0:
                            return {m, eff_t{[&](auto&& ctx) {
                                        ++nested_run;
                                        root_ops(w, ctx);
                                    }}};
                        case 1: {
                            // the effect of a component with fewer actions
                            lager::effect<lager::actions<RootOwn, Lc>,
                                          lager::deps<S1&>>
                                e = [&](auto&& ctx) {
                                    ++nested_run;
                                    check_rest(w, ctx);
                                    auto x = make_leaf<Lc>(w);
                                    send(w, ctx, x, str(x));
                                    auto y = make_leaf<RootOwn>(w);
                                    send(w, ctx, y, str(y));
                                };
                            return {m, e};
                        }
                        case 2: {
                            lager::effect<Lc, lager::deps<S1&>> e1 =
                                [&](auto&& ctx) {
                                    ++nested_run;
                                    auto x = make_leaf<Lc>(w);
                                    send(w, ctx, x, str(x));
                                };
                            ++nested_want;
                            lager::effect<RootOwn, lager::deps<S2>> e2 =
                                [&](auto&& ctx) {
                                    ++nested_run;
                                    if (lager::get<S2>(ctx).v != w.s2)
                                        c.fail("C05.deps",
                                               "sequenced effects of "
                                               "components lost a dependency");
                                    auto x = make_leaf<RootOwn>(w);
                                    send(w, ctx, x, str(x));
                                };
                            return {m, lager::sequence(e1, e2)};
                        }
                        default: {
                            // the result of a nested reducer
                            lager::effect<LeafAction, lager::deps<S1&>> e =
                                [&](auto&& ctx) {
                                    ++nested_run;
                                    lager::context<lager::actions<La, Lb>,
                                                   lager::deps<S1&>>
                                        two{ctx, lager::identity};
                                    at_leaf(w, two, [](std::string s) {
                                        return s;
                                    });
                                };
                            lager::result<M, LeafAction, lager::deps<S1&>> r{
                                m, e};
                            return r;
                        }
                        }
                    }
                    return {m};
                }),
                lager::with_deps(std::ref(w.s1), S2{w.s2}),
                lager::with_futures);
        };
        {
            auto s0 = make(*ws[0]);
            std::vector<decltype(s0)> stores;
            stores.push_back(std::move(s0));
            if (n_stores > 1)
                stores.push_back(make(*ws[1]));
            int n = 2 + c.rng.below(6);
            for (int i = 0; i < n; ++i) {
                auto k  = c.rng.below(n_stores);
                auto& w = *ws[k];
                root_ops(w, stores[k]);
                if (c.rng.chance(40))
                    w.loop.run();
            }
            for (auto& w : ws)
                w->loop.run();
            // a store seen as one with fewer dependencies
            if (c.rng.chance(30)) {
                vp::count("store_conversions");
                auto& w = *ws[0];
                lager::store<RootAction, M, rdeps> full = std::move(stores[0]);
                lager::store<RootAction, M, lager::deps<S1&>> narrow =
                    std::move(full);
                auto x = make_leaf<RootOwn>(w);
                send(w, narrow, x, str(x));
                w.loop.run();
                if (narrow.get().n != (int) w.got.size())
                    c.fail("C05.converted_store",
                           "a converted store shows another model");
            }
            for (auto& w : ws) {
                w->loop.run();
                if (!w->expected.empty())
                    c.fail("C05.lost",
                           w->expected.size(),
                           " dispatched actions did not arrive, first ",
                           w->expected.front());
                if (w->conv_mid != w->want_mid || w->conv_root != w->want_root)
                    c.fail("C05.converter_calls",
                           "converters were called ",
                           w->conv_mid,
                           "/",
                           w->conv_root,
                           " times, expected ",
                           w->want_mid,
                           "/",
                           w->want_root);
                if (w->tasks != w->want_tasks)
                    c.fail("C05.loop", w->tasks, " tasks ran of ", w->want_tasks,
                           " posted to the loops of contexts");
                if (w->completions != w->want_completions)
                    c.fail("C05.future_lost",
                           w->completions,
                           " of ",
                           w->want_completions,
                           " futures completed");
                if (w->got.size() > 2)
                    c.nontrivial = true;
            }
            if (nested_run != nested_want)
                c.fail("C05.effect_lost",
                       "nested effects ran ",
                       nested_run,
                       " times instead of ",
                       nested_want);
        }
    }
    if (Tracked::live() != live)
        c.fail("C05.leak", "values left alive");
}

int main(int argc, char** argv)
{
    return vp::run_main(argc, argv, run_case);
}
