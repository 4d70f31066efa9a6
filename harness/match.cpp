// C29: match() and visitor call, once, the overload for what every variant
// holds, with that very object and its constness and category, and return what
// it returns.
#include "common.hpp"

#include <lager/util.hpp>

#include <optional>
#include <string>
#include <utility>
#include <variant>

namespace {
using vp::Case;

// What is moved from can be told.
template <int I>
struct alt
{
    int v = 0;
    std::unique_ptr<int> own; // only moves
    bool moved = false;

    explicit alt(int x)
        : v{x}
        , own{std::make_unique<int>(x)}
    {}
    alt(const alt& o)
        : v{o.v}
        , own{o.own ? std::make_unique<int>(*o.own) : nullptr}
    {
        vp::count("alternatives_copied");
    }
    alt(alt&& o) noexcept
        : v{o.v}
        , own{std::move(o.own)}
    {
        o.moved = true;
    }
    alt& operator=(alt&&) = default;
};

// throws on the way into a variant, which leaves that without a value
struct thorn
{
    int v = 0;
    bool sharp;
    explicit thorn(int x, bool s = false)
        : v{x}
        , sharp{s}
    {}
    thorn(const thorn& o)
        : v{o.v}
        , sharp{o.sharp}
    {
        if (sharp)
            throw std::runtime_error{"thorn"};
    }
    thorn(thorn&& o)
        : thorn{static_cast<const thorn&>(o)}
    {}
    thorn& operator=(thorn&&) = default;
};

template <int... Is>
using plain = std::variant<alt<Is>...>;

template <int... Is>
struct derived : plain<Is...>
{
    using plain<Is...>::variant;
    using base = plain<Is...>;
    std::string more = "more";
    derived(base b)
        : base{std::move(b)}
    {}
};
template <int... Is>
struct other_first
{
    virtual ~other_first() = default;
    long here              = 7;
};
template <int... Is>
struct deep
    : other_first<Is...>
    , derived<Is...>
{
    using base = plain<Is...>;
    deep(base b)
        : derived<Is...>{std::move(b)}
    {}
};

static_assert(lager::is_variant_v<plain<0, 1>>);
static_assert(lager::is_variant_v<derived<0, 1>>);
static_assert(lager::is_variant_v<deep<0, 1>>);
static_assert(!lager::is_variant_v<alt<0>>);
static_assert(!lager::is_variant_v<int>);
static_assert(std::is_same_v<lager::get_variant_t<deep<3, 1>>, plain<3, 1>>);
static_assert(std::is_same_v<lager::get_variant_t<derived<2>>, plain<2>>);

enum Cat { c_lvalue, c_const, c_rvalue, c_const_rvalue };

template <Cat C, typename T>
decltype(auto) as(T& x)
{
    if constexpr (C == c_lvalue)
        return static_cast<T&>(x);
    else if constexpr (C == c_const)
        return static_cast<const T&>(x);
    else if constexpr (C == c_rvalue)
        return static_cast<T&&>(x);
    else
        return static_cast<const T&&>(x);
}

template <typename X>
constexpr Cat cat_of()
{
    if constexpr (std::is_lvalue_reference_v<X>)
        return std::is_const_v<std::remove_reference_t<X>> ? c_const : c_lvalue;
    else
        return std::is_const_v<std::remove_reference_t<X>> ? c_const_rvalue
                                                           : c_rvalue;
}

template <typename T>
struct index_of;
template <int I>
struct index_of<alt<I>> : std::integral_constant<int, I>
{};

template <typename V, int... Is>
V make_variant(Case& c, int which, int v, std::integer_sequence<int, Is...>)
{
    std::optional<plain<Is...>> r;
    ((which-- == 0 ? (void) r.emplace(std::in_place_type<alt<Is>>, v) : void()),
     ...);
    return V{std::move(*r)};
}

const char* cat_name(Cat c)
{
    static const char* n[] = {"&", "const&", "&&", "const&&"};
    return n[c];
}

template <typename V>
const void* held(V& v)
{
    typename V::base& b = v;
    return std::visit([](auto& x) -> const void* { return &x; }, b);
}
template <typename... Ts>
const void* held(std::variant<Ts...>& b)
{
    return std::visit([](auto& x) -> const void* { return &x; }, b);
}
template <typename V>
int held_index(V& v)
{
    return (int) v.index();
}

// one variant, all that can be asked of it
template <template <int...> class K, Cat C, int... Is>
void one(Case& c)
{
    using V = K<Is...>;
    std::integer_sequence<int, Is...> ids;
    const int idv[] = {Is...};
    int which       = c.rng.below(sizeof...(Is));
    int val         = c.rng.range(-1000, 1000);
    auto v          = make_variant<V>(c, which, val, ids);
    c.note("one of ", sizeof...(Is), " ", cat_name(C), " holding ", which, " (", val, ")");
    auto* where = held(v);
    int calls   = 0;
    auto judge  = [&](int id, Cat got, const void* p, int x) {
        ++calls;
        c.expect(id == idv[which], "C29.alternative", "alternative ", id,
                 " was called for, ", idv[which], " is held");
        c.expect(got == C, "C29.category", "given as ", cat_name(got),
                 " and passed as ", cat_name(C));
        c.expect(p == where, "C29.object",
                 "the visitor was given another object");
        c.expect(x == val, "C29.value", "the visitor was given ", x,
                 " and not ", val);
    };
    // a generic function that returns a value
    int r = lager::match(as<C>(v))([&](auto&& x) {
        judge(index_of<std::decay_t<decltype(x)>>::value,
              cat_of<decltype(x)>(), &x, x.v);
        return x.v + 1;
    });
    c.expect(r == val + 1, "C29.result", "returned ", r);
    // an overload for the first, the rest by another
    using first = std::variant_alternative_t<0, plain<Is...>>;
    bool hit = false;
    lager::match(as<C>(v))(
        [&](const first& x) {
            hit = true;
            ++calls;
            c.expect(which == 0, "C29.overload",
                     "the first one's overload was called for another");
            c.expect(&x == where, "C29.object", "a copy was given");
        },
        [&](const auto& x) {
            ++calls;
            c.expect(which != 0, "C29.overload",
                     "the overload of the rest was called for the first");
            c.expect(&x == where, "C29.object", "a copy was given");
        });
    c.expect(hit == (which == 0), "C29.overload", "the wrong overload");
    // what it returns is returned, also what only moves
    auto made = lager::match(as<C>(v))(
        [&](auto&& x) { return std::make_unique<int>(x.v * 2); });
    c.expect(made && *made == val * 2, "C29.result", "what is returned is lost");
    // the overloads may be kept
    int state   = 0;
    auto counts = [&state](auto&&) { return ++state; };
    lager::visitor vis{counts};
    std::visit(vis, static_cast<plain<Is...>&>(v));
    lager::match(as<C>(v))(counts);
    c.expect(state == 2, "C29.kept", "a kept function was called ", state,
             " times");
    // and throw
    bool thrown = false;
    try {
        lager::match(as<C>(v))([&](auto&& x) -> int { throw x.v; });
    } catch (int e) {
        thrown = e == val;
    }
    c.expect(thrown, "C29.exception", "what the visitor throws is lost");
    // what was only looked at is as it was
    c.expect(held(v) == where && held_index(v) == which, "C29.changed",
             "the variant has changed");
    std::visit(
        [&](auto& x) {
            c.expect(x.v == val && x.own && *x.own == val && !x.moved,
                     "C29.changed", "what is held was moved away");
        },
        static_cast<plain<Is...>&>(v));
    // what is written or taken there is
    if constexpr (C == c_lvalue) {
        lager::match(v)([&](auto&& x) { x.v = val + 5; });
        std::visit(
            [&](auto& x) {
                c.expect(x.v == val + 5, "C29.write", "a write was lost");
            },
            static_cast<plain<Is...>&>(v));
    } else if constexpr (C == c_rvalue) {
        auto own = lager::match(std::move(v))(
            [&](auto&& x) { return std::move(x.own); });
        c.expect(own && *own == val, "C29.taken", "what was taken is lost");
        std::visit([&](auto& x) { c.expect(!x.own, "C29.taken", "copied"); },
                   static_cast<plain<Is...>&>(v));
    }
    c.expect(calls == 2, "C29.calls", calls, " calls and not 2");
    vp::count("matches", 6);
}

// two and three at once
template <template <int...> class K, template <int...> class L, Cat C, Cat D>
void two(Case& c)
{
    using V = K<0, 1, 2>;
    using W = L<5, 4>;
    int a = c.rng.below(3), b = c.rng.below(2);
    int x = c.rng.range(-9, 9), y = c.rng.range(-9, 9), z = c.rng.range(-9, 9);
    auto v = make_variant<V>(c, a, x, std::integer_sequence<int, 0, 1, 2>{});
    auto w = make_variant<W>(c, b, y, std::integer_sequence<int, 5, 4>{});
    auto u = make_variant<plain<8, 9>>(c, z & 1, z,
                                       std::integer_sequence<int, 8, 9>{});
    c.note("two: ", cat_name(C), " holding ", a, ", ", cat_name(D),
           " holding ", b);
    int calls = 0;
    auto pv = held(v), pw = held(w), pu = held(u);
    auto r = lager::match(as<C>(v), as<D>(w))([&](auto&& p, auto&& q) {
        ++calls;
        c.expect(index_of<std::decay_t<decltype(p)>>::value == a &&
                     index_of<std::decay_t<decltype(q)>>::value == 5 - b,
                 "C29.alternative", "called for the wrong pair");
        c.expect(&p == pv && &q == pw, "C29.object", "given other objects");
        c.expect(cat_of<decltype(p)>() == C && cat_of<decltype(q)>() == D,
                 "C29.category", "given as ", cat_name(cat_of<decltype(p)>()),
                 " and ", cat_name(cat_of<decltype(q)>()));
        return 100 * p.v + q.v;
    });
    c.expect(r == 100 * x + y, "C29.result", "returned ", r);
    auto s = lager::match(as<D>(w), as<C>(v), u)(
        [&](const alt<5>& p, const auto& q, auto&& t) {
            ++calls;
            c.expect(b == 0, "C29.overload", "the wrong overload");
            c.expect(&p == pw && &q == pv && &t == pu, "C29.object",
                     "given other objects");
            return 10000 * p.v + 100 * q.v + t.v;
        },
        [&](const alt<4>& p, const auto& q, auto&& t) {
            ++calls;
            c.expect(b == 1, "C29.overload", "the wrong overload");
            c.expect(&p == pw && &q == pv && &t == pu, "C29.object",
                     "given other objects");
            return 10000 * p.v + 100 * q.v + t.v;
        });
    c.expect(s == 10000 * y + 100 * x + z, "C29.result", "returned ", s);
    c.expect(calls == 2, "C29.calls", calls, " calls and not 2");
    vp::count("matches_of_several", 2);
}

struct thorny : std::variant<int, thorn>
{
    using std::variant<int, thorn>::variant;
};

template <typename V>
void valueless(Case& c)
{
    V v{3};
    try {
        v.template emplace<thorn>(thorn{1, true});
    } catch (const std::runtime_error&) {
    }
    if (!v.valueless_by_exception())
        return;
    bool refused = false, called = false;
    try {
        lager::match(v)([&](auto&&) { called = true; });
    } catch (const std::bad_variant_access&) {
        refused = true;
    }
    c.note("without a value");
    c.expect(refused && !called, "C29.valueless",
             "a variant without a value was visited");
    vp::count("valueless");
}

template <template <int...> class K, Cat C>
void some(Case& c)
{
    switch (c.rng.below(8)) {
    case 0: return one<K, C, 0>(c);
    case 1:
    case 2: return one<K, C, 1, 0>(c);
    case 3:
    case 4: return one<K, C, 3, 1, 0, 2>(c);
    case 5: return one<K, C, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12>(c);
    case 6: return two<K, plain, C, c_lvalue>(c);
    default:
        return c.rng.chance(50) ? two<K, derived, C, c_rvalue>(c)
                                : two<K, deep, C, c_const>(c);
    }
}
template <template <int...> class K>
void kind(Case& c)
{
    switch (c.rng.below(4)) {
    case 0: return some<K, c_lvalue>(c);
    case 1: return some<K, c_const>(c);
    case 2: return some<K, c_rvalue>(c);
    default: return some<K, c_const_rvalue>(c);
    }
}

} // namespace

int main(int argc, char** argv)
{
    return vp::run_main(argc, argv, [](Case& c) {
        c.nontrivial = true;
        switch (c.rng.below(20)) {
        case 0:
            return c.rng.chance(50)
                       ? valueless<std::variant<int, thorn>>(c)
                       : valueless<thorny>(c);
        case 1: case 2: case 3: case 4: case 5: return kind<plain>(c);
        case 6: case 7: case 8: case 9: case 10: case 11: case 12:
            return kind<derived>(c);
        default: return kind<deep>(c);
        }
    });
}
