// C06: random walks over conversions and merges of dependency sets, against a
// shadow table of what every key must give.
#include "common.hpp"
#include <lager/deps.hpp>
#include <lager/context.hpp>
#include <lager/event_loop/manual.hpp>
#include <lager/store.hpp>
#include <optional>
#include <variant>

using vp::Case;
using vp::Tracked;
namespace dep = lager::dep;

struct A
{
    Tracked t;
};
struct Obj
{
    int v;
    Obj(int x)
        : v{x}
    {}
    Obj(const Obj&) = delete;
};
struct F
{
    int v;
};
struct k1
{};
struct k2
{};
struct k3
{};
struct k4
{};
struct k5
{};
using Fref = dep::key<k5, dep::fn<Obj&>>;
using Pref = dep::key<k5, Obj&>;

using D0 = lager::deps<A,
                       Obj&,
                       dep::key<k1, int>,
                       dep::key<k2, Obj&>,
                       dep::opt<dep::key<k3, int>>,
                       dep::opt<dep::key<k4, Obj&>>,
                       dep::fn<F>,
                       Fref>;
using D1 = lager::deps<A, Obj&>;
using D2 = lager::deps<Obj&, A>;
using D3 = lager::deps<dep::key<k1, int>, dep::key<k2, Obj&>>;
using D4 = lager::deps<dep::opt<A>, dep::opt<dep::key<k3, int>>>;
using D5 = lager::deps<dep::opt<Obj&>,
                       dep::opt<dep::key<k4, Obj&>>,
                       dep::opt<dep::key<k2, Obj&>>>;
using D6 = lager::deps<Pref>;
using D7 = lager::deps<Fref, dep::fn<F>>;
using D8 = lager::deps<>;
using D9 = lager::deps<dep::opt<dep::key<k1, int>>, A, dep::opt<dep::key<k3, int>>>;
using D10 = lager::deps<dep::opt<dep::key<k4, Obj&>>,
                        dep::key<k2, Obj&>,
                        A,
                        dep::opt<dep::key<k3, int>>,
                        dep::key<k1, int>>;

using State = std::variant<D0, D1, D2, D3, D4, D5, D6, D7, D8, D9, D10>;

// fresh sets to merge in; the merged-in side wins
using E0 = lager::deps<A>;
using E1 = lager::deps<dep::key<k1, int>, dep::key<k3, int>>;
using E2 = lager::deps<Obj&>;
using E3 = lager::deps<dep::key<k2, Obj&>, dep::fn<F>>;
using E4 = lager::deps<dep::opt<dep::key<k3, int>>, dep::key<k4, Obj&>>;

// what each key must give
struct Shadow
{
    // absent: in an optional position, without a value
    std::optional<int> a;
    Obj* obj = nullptr;
    std::optional<int> v1;
    Obj* o2  = nullptr;
    std::optional<int> v3;
    Obj* o4 = nullptr;
    // F
    int fbase                  = 0;
    std::shared_ptr<int> calls; // of the function
    // k5: a function that gives the objects of this list in turn
    std::shared_ptr<int> rcalls;
    std::vector<Obj*> ring;
    Obj* rfixed = nullptr; // if it was computed by a conversion
};

struct Pool
{
    std::vector<std::unique_ptr<Obj>> objs;
    int n = 100;
    int fresh() { return ++n; }
    Obj& obj()
    {
        objs.push_back(std::make_unique<Obj>(fresh()));
        return *objs.back();
    }
};

template <typename T>
struct type_is
{
    using type = T;
};

template <typename D, typename Spec>
struct has_spec : std::false_type
{};
template <typename... Ds, typename Spec>
struct has_spec<lager::deps<Ds...>, Spec>
    : std::disjunction<std::is_same<Ds, Spec>...>
{};

#define HAS(D_, S_) has_spec<D_, S_>::value

template <typename D>
void verify(Case& c, const D& d, Shadow& s, const char* where)
{
    auto bad = [&](const char* k) {
        c.fail(std::string("C06.") + k, "wrong ", k, " after ", where);
    };
    vp::count("keys_verified");
    auto one = [&](auto key, bool present, auto&& same, const char* nm) {
        using K = typename decltype(key)::type;
        vp::count(present ? "present_checked" : "absent_checked");
        if (d.template has<K>() != present || lager::has<K>(d) != present)
            bad("has");
        else if (present) {
            if (!same(d.template get<K>()) || !same(lager::get<K>(d)))
                bad(nm);
        } else {
            bool threw = false;
            try {
                (void) d.template get<K>();
            } catch (const lager::missing_dependency_error&) {
                threw = true;
            }
            if (!threw)
                bad("missing_access");
        }
    };
    if constexpr (HAS(D, A) || HAS(D, dep::opt<A>))
        one(type_is<A>{},
            bool(s.a),
            [&](const A& a) { return a.t.get() == *s.a; },
            "value");
    if constexpr (HAS(D, Obj&) || HAS(D, dep::opt<Obj&>))
        one(type_is<Obj>{},
            s.obj,
            [&](Obj& o) { return &o == s.obj; },
            "reference");
    using K1 = dep::key<k1, int>;
    if constexpr (HAS(D, K1) || HAS(D, dep::opt<K1>))
        one(type_is<k1>{},
            bool(s.v1),
            [&](int x) { return x == *s.v1; },
            "keyed_value");
    using K2 = dep::key<k2, Obj&>;
    if constexpr (HAS(D, K2) || HAS(D, dep::opt<K2>))
        one(type_is<k2>{},
            s.o2,
            [&](Obj& o) { return &o == s.o2; },
            "keyed_reference");
    using K3 = dep::key<k3, int>;
    if constexpr (HAS(D, K3) || HAS(D, dep::opt<K3>))
        one(type_is<k3>{},
            bool(s.v3),
            [&](int x) { return x == *s.v3; },
            "optional_value");
    using K4 = dep::key<k4, Obj&>;
    if constexpr (HAS(D, K4) || HAS(D, dep::opt<K4>))
        one(type_is<k4>{},
            s.o4,
            [&](Obj& o) { return &o == s.o4; },
            "optional_reference");
    if constexpr (HAS(D, dep::fn<F>)) {
        vp::count("computed_accesses");
        int before = *s.calls;
        F f        = d.template get<F>();
        if (*s.calls != before + 1 || f.v != s.fbase + *s.calls)
            bad("computed");
    }
    if constexpr (HAS(D, Fref)) {
        vp::count("computed_accesses");
        int before = *s.rcalls;
        Obj& o     = d.template get<k5>();
        if (*s.rcalls != before + 1 || &o != s.ring[before % s.ring.size()])
            bad("computed_reference");
    }
    if constexpr (HAS(D, Pref)) {
        int before = *s.rcalls;
        Obj& o     = d.template get<k5>();
        Obj& q     = d.template get<k5>();
        if (&o != s.rfixed || &q != s.rfixed || *s.rcalls != before)
            bad("computed_fixed");
    }
}

// converts d to To, if it can be, and updates the shadow
template <typename To, typename From>
bool convert(Case& c, From& d, Shadow& s, State& out)
{
    constexpr bool back = HAS(From, Pref) && HAS(To, Fref);
    if constexpr (!back && std::is_convertible_v<From, To>) {
        int before = *s.calls, rbefore = *s.rcalls;
        bool by_move = c.rng.chance(40);
        c.note(by_move ? "move-convert" : "copy-convert");
        vp::count("conversions");
        // conversion of a computed dependency to a plain one computes it
        constexpr bool fixes = HAS(From, Fref) && HAS(To, Pref);
        auto fix             = [&] {
            if constexpr (fixes) {
                vp::count("computed_by_conversion");
                if (*s.rcalls != rbefore + 1)
                    c.fail("C06.computed_at_conversion",
                           "computed ",
                           *s.rcalls - rbefore,
                           " times");
                s.rfixed = s.ring[rbefore % s.ring.size()];
            }
        };
        if (by_move) {
            From src = d;
            To t     = std::move(src);
            fix();
            out = std::move(t);
        } else {
            To t = d;
            fix();
            out = t;
        }
        if (*s.calls != before || (!fixes && *s.rcalls != rbefore))
            c.fail("C06.computed_early",
                   "a conversion called the function of a computed dependency");
        return true;
    } else
        return false;
}

template <typename From, std::size_t... Is>
bool convert_to(
    Case& c, From& d, Shadow& s, State& out, std::size_t k, std::index_sequence<Is...>)
{
    bool ok = false;
    ((Is == k ? (ok = convert<std::variant_alternative_t<Is, State>>(c, d, s, out),
                 0)
              : 0),
     ...);
    return ok;
}

template <typename R, std::size_t... Is>
bool convert_some(
    Case& c, R& r, Shadow& s, State& out, std::size_t k, std::index_sequence<Is...>)
{
    bool ok = false;
    ((Is == k ? (ok = convert<std::variant_alternative_t<Is, State>>(c, r, s, out),
                 0)
              : 0),
     ...);
    return ok;
}

D0 make_full(Case& c, Pool& p, Shadow& s)
{
    s        = {};
    s.a      = p.fresh();
    s.obj    = &p.obj();
    s.v1     = p.fresh();
    s.o2     = &p.obj();
    s.fbase  = p.fresh() * 1000;
    s.calls  = std::make_shared<int>(0);
    s.rcalls = std::make_shared<int>(0);
    for (int i = 0; i < 3; ++i)
        s.ring.push_back(&p.obj());
    using s3 = dep::opt<dep::key<k3, int>>::storage;
    using s4 = dep::opt<dep::key<k4, Obj&>>::storage;
    s3 x3;
    s4 x4;
    if (c.rng.chance(50)) {
        s.v3 = p.fresh();
        x3   = *s.v3;
    }
    if (c.rng.chance(50)) {
        auto& o = p.obj();
        s.o4    = &o;
        x4      = std::ref(o);
    }
    auto f = [calls = s.calls, b = s.fbase] {
        ++*calls;
        return F{b + *calls};
    };
    auto g = [calls = s.rcalls, ring = s.ring] {
        return std::ref(*ring[(*calls)++ % ring.size()]);
    };
    return D0::with(
        A{Tracked{*s.a}}, std::ref(*s.obj), *s.v1, std::ref(*s.o2), x3, x4, f, g);
}

template <typename D, typename E>
bool do_merge(Case& c, D& d, const E& e, Shadow& s, State& out, const char* nm)
{
    c.note("merge ", nm);
    vp::count("merges");
    auto r = d.merge(e);
    verify(c, r, s, nm);
    // then to one of a few sets
    std::size_t targets[] = {1, 3, 5, 10, 8, 9};
    auto k                = c.rng.below(6);
    bool ok               = false;
    switch (targets[k]) {
    case 1:
        ok = convert<D1>(c, r, s, out);
        break;
    case 3:
        ok = convert<D3>(c, r, s, out);
        break;
    case 5:
        ok = convert<D5>(c, r, s, out);
        break;
    case 10:
        ok = convert<D10>(c, r, s, out);
        break;
    case 9:
        ok = convert<D9>(c, r, s, out);
        break;
    default:
        ok = convert<D8>(c, r, s, out);
        break;
    }
    return ok;
}

template <typename D>
bool merge_some(Case& c, D& d, Pool& p, Shadow& s, State& out)
{
    switch (c.rng.below(5)) {
    case 0: {
        s.a = p.fresh();
        return do_merge(c, d, E0::with(A{Tracked{*s.a}}), s, out, "E0");
    }
    case 1: {
        s.v1 = p.fresh();
        s.v3 = p.fresh();
        return do_merge(c, d, E1::with(*s.v1, *s.v3), s, out, "E1");
    }
    case 2: {
        s.obj = &p.obj();
        return do_merge(c, d, E2::with(*s.obj), s, out, "E2");
    }
    case 3: {
        s.o2    = &p.obj();
        s.fbase = p.fresh() * 1000;
        s.calls = std::make_shared<int>(0);
        auto f  = [calls = s.calls, b = s.fbase] {
            ++*calls;
            return F{b + *calls};
        };
        return do_merge(c, d, E3::with(*s.o2, f), s, out, "E3");
    }
    default: {
        using s3 = dep::opt<dep::key<k3, int>>::storage;
        s3 x3;
        s.v3 = {};
        if (c.rng.chance(60)) {
            s.v3 = p.fresh();
            x3   = *s.v3;
        }
        auto& o = p.obj();
        s.o4    = &o;
        return do_merge(c, d, E4::with(x3, o), s, out, "E4");
    }
    }
}

// what is not in the source cannot be in what is made from it
template <typename D>
void forget(Shadow& s)
{
    using K1 = dep::key<k1, int>;
    using K2 = dep::key<k2, Obj&>;
    using K3 = dep::key<k3, int>;
    using K4 = dep::key<k4, Obj&>;
    if (!(HAS(D, A) || HAS(D, dep::opt<A>)))
        s.a = {};
    if (!(HAS(D, Obj&) || HAS(D, dep::opt<Obj&>)))
        s.obj = nullptr;
    if (!(HAS(D, K1) || HAS(D, dep::opt<K1>)))
        s.v1 = {};
    if (!(HAS(D, K2) || HAS(D, dep::opt<K2>)))
        s.o2 = nullptr;
    if (!(HAS(D, K3) || HAS(D, dep::opt<K3>)))
        s.v3 = {};
    if (!(HAS(D, K4) || HAS(D, dep::opt<K4>)))
        s.o4 = nullptr;
}

struct Act
{};
struct M
{
    int v = 0;
    bool operator==(const M& o) const { return v == o.v; }
};

void run_case(Case& c)
{
    auto live = Tracked::live().load();
    {
        Pool p;
        Shadow s;
        State st = make_full(c, p, s);
        std::visit([&](auto& d) { verify(c, d, s, "start"); }, st);
        int n = 4 + c.rng.below(8), done = 0;
        for (int i = 0; i < n; ++i) {
            State before = st;
            Shadow sb    = s;
            State next   = D8{};
            bool ok      = false;
            std::visit([&](auto& d) { forget<std::decay_t<decltype(d)>>(s); },
                       st);
            if (c.rng.chance(65)) {
                auto k = c.rng.below(std::variant_size_v<State>);
                // do not lose everything at once
                if (k == 8 && c.rng.chance(80))
                    k = 0;
                ok = std::visit(
                    [&](auto& d) {
                        return convert_to(
                            c,
                            d,
                            s,
                            next,
                            k,
                            std::make_index_sequence<std::variant_size_v<State>>{});
                    },
                    st);
                if (ok)
                    c.note("to D", k);
            } else {
                ok = std::visit(
                    [&](auto& d) {
                        using D = std::decay_t<decltype(d)>;
                        if constexpr (std::is_same_v<D, D0> ||
                                      std::is_same_v<D, D1> ||
                                      std::is_same_v<D, D3> ||
                                      std::is_same_v<D, D10>)
                            return merge_some(c, d, p, s, next);
                        else
                            return false;
                    },
                    st);
            }
            // the source is as it was
            std::visit([&](auto& d) { verify(c, d, sb, "source"); }, before);
            if (ok) {
                std::visit([&](auto& d) { verify(c, d, s, "step"); }, next);
                st = next;
                ++done;
            } else
                s = sb;
        }
        if (done >= 2)
            c.nontrivial = true;

        // through a store, its context, and narrower contexts
        if (c.rng.chance(20)) {
            vp::count("through_store");
            Shadow s2;
            auto full  = make_full(c, p, s2);
            auto store = lager::make_store<Act>(
                M{},
                lager::with_manual_event_loop{},
                lager::with_reducer([](M m, Act) { return m; }),
                [&](auto next) {
                    return [&, next](auto action,
                                     auto&& model,
                                     auto&& reducer,
                                     auto&& loop,
                                     auto&& deps,
                                     auto&& tags) {
                        return next(action,
                                    LAGER_FWD(model),
                                    LAGER_FWD(reducer),
                                    LAGER_FWD(loop),
                                    LAGER_FWD(deps).merge(full),
                                    LAGER_FWD(tags));
                    };
                });
            lager::context<Act, D10> c10{store};
            lager::context<Act, D1> c1{store};
            lager::context<Act, D9> c9{c10};
            verify<D9>(c, c9, s2, "context");
            lager::context<Act, D2> c2{c1};
            verify<D10>(c, c10, s2, "context");
            verify<D1>(c, c1, s2, "context");
            verify<D2>(c, c2, s2, "context");
        }
    }
    if (Tracked::live() != live)
        c.fail("C06.leak", "values left alive");
}

int main(int argc, char** argv)
{
    return vp::run_main(argc, argv, run_case);
}
