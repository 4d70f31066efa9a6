// C25: what is derived for a type agrees with its members.  The members are
// listed here once more, by hand, for the oracle.
#include "common.hpp"

#include <lager/extra/derive.hpp>
#include <lager/extra/derive/eq.hpp>
#include <lager/extra/derive/hana.hpp>
#include <lager/extra/derive/hash.hpp>
#include <lager/extra/enum.hpp>
#include <lager/extra/struct.hpp>

#include <boost/hana/accessors.hpp>
#include <boost/hana/at_key.hpp>
#include <boost/hana/for_each.hpp>
#include <boost/hana/keys.hpp>
#include <boost/hana/members.hpp>
#include <boost/hana/size.hpp>
#include <boost/hana/unpack.hpp>

#include <immer/map.hpp>
#include <immer/set.hpp>
#include <immer/vector.hpp>

#include <cmath>
#include <limits>
#include <optional>

namespace hana = boost::hana;

namespace de {
using vp::Case;
using vp::Rng;

struct one
{
    int a = 0;
};
struct two
{
    int a   = 0;
    float b = 0;
};
struct many
{
    int a = 0;
    std::string b;
    bool c = false;
    double d = 0;
    char e = 0;
    long long f = 0;
    std::uint8_t g = 0;
    std::string h;
    int i = 0, j = 0, k = 0, l = 0;
};
struct holder
{
    two first;
    std::string second;
    one third;
};
struct empty
{};
// only compared and reflected
struct values
{
    immer::vector<int> v;
    std::optional<std::string> o;
    immer::map<int, std::string> m;
    std::vector<int> s;
};
template <typename A, typename B>
struct pairish
{
    A first{};
    B second{};
};
template <typename A>
struct trio
{
    A x{};
    A y{};
    std::string z;
};
template <typename A>
struct outer
{
    struct inner
    {
        A a{};
        int b = 0;
        std::string c;
        LAGER_DERIVE_NESTED((EQ, HANA), inner, a, b, c);
    };
    struct none
    {
        LAGER_DERIVE_NESTED((EQ, HANA), none);
    };
};
struct nested
{
    int a = 0;
    std::string b;
    LAGER_STRUCT_NESTED(nested, a, b);
};
// not in the order of declaration: what is named counts
struct reordered
{
    int a = 0, b = 0, c = 0;
};
enum class few
{
    none,
    some,
    many
};
enum class signs : std::int8_t
{
    low      = -100,
    minus_1  = -1,
    zero     = 0,
    top      = 127,
    alias    = 127
};
enum old_style
{
    old_a = 7,
    old_b = 3,
    old_c = 1 << 20
};
enum class single : std::uint64_t
{
    huge = 0xffffffffffffffffull
};
} // namespace de

LAGER_DERIVE((EQ, HANA, HASH), de, one, a);
LAGER_DERIVE((EQ, HANA, HASH), de, two, a, b);
LAGER_DERIVE((EQ, HANA, HASH), de, many, a, b, c, d, e, f, g, h, i, j, k, l);
LAGER_DERIVE((EQ, HANA, HASH), de, holder, first, second, third);
LAGER_DERIVE((EQ, HANA, HASH), de, empty);
LAGER_STRUCT(de, values, v, o, m, s);
LAGER_DERIVE_TEMPLATE((EQ, HANA, HASH), de, (class A, class B), (pairish<A, B>), first, second);
LAGER_DERIVE_TEMPLATE((HANA, EQ, HASH), de, (class A), (trio<A>), x, y, z);
LAGER_DERIVE((HASH, HANA, EQ), de, reordered, c, a, b);
LAGER_ENUM(de, few, none, some, many);
LAGER_ENUM(de, signs, low, minus_1, zero, top, alias);
LAGER_ENUM(de, old_style, old_a, old_b, old_c);
LAGER_ENUM(de, single, huge);

template <>
struct std::hash<de::few>
{
    std::size_t operator()(de::few x) const { return (std::size_t) x + 5; }
};

namespace de {

// ----------------------------------------------------------------- oracle
template <typename T>
struct M; // members: names and ties

#define DE_M(T, names_, ...)                                                   \
    template <>                                                                \
    struct M<T>                                                                \
    {                                                                          \
        static std::vector<std::string> names() { return names_; }             \
        template <typename X>                                                  \
        static auto tie(X& x)                                                  \
        {                                                                      \
            (void) x;                                                          \
            return std::tie(__VA_ARGS__);                                      \
        }                                                                      \
    }
#define DE_N(...)                                                              \
    std::vector<std::string> { __VA_ARGS__ }
using outer_i = outer<int>::inner;
using outer_p = outer<pairish<int, std::string>>::inner;
using outer_n = outer<int>::none;
using pair_if = pairish<int, float>;
using pair_sh = pairish<std::string, holder>;
using pair_pp = pairish<pairish<few, int>, pairish<int, few>>;
using trio_i  = trio<int>;
using trio_t  = trio<two>;
DE_M(one, DE_N("a"), x.a);
DE_M(two, (DE_N("a", "b")), x.a, x.b);
DE_M(many,
     (DE_N("a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l")),
     x.a, x.b, x.c, x.d, x.e, x.f, x.g, x.h, x.i, x.j, x.k, x.l);
DE_M(holder, (DE_N("first", "second", "third")), x.first, x.second, x.third);
DE_M(empty, DE_N());
DE_M(values, (DE_N("v", "o", "m", "s")), x.v, x.o, x.m, x.s);
DE_M(outer_i, (DE_N("a", "b", "c")), x.a, x.b, x.c);
DE_M(outer_p, (DE_N("a", "b", "c")), x.a, x.b, x.c);
DE_M(outer_n, DE_N());
DE_M(nested, (DE_N("a", "b")), x.a, x.b);
DE_M(reordered, (DE_N("c", "a", "b")), x.c, x.a, x.b);
using pair_is = pairish<int, std::string>;
using pair_fi = pairish<few, int>;
using pair_i_f = pairish<int, few>;
DE_M(pair_is, (DE_N("first", "second")), x.first, x.second);
DE_M(pair_fi, (DE_N("first", "second")), x.first, x.second);
DE_M(pair_i_f, (DE_N("first", "second")), x.first, x.second);
DE_M(pair_if, (DE_N("first", "second")), x.first, x.second);
DE_M(pair_sh, (DE_N("first", "second")), x.first, x.second);
DE_M(pair_pp, (DE_N("first", "second")), x.first, x.second);
DE_M(trio_i, (DE_N("x", "y", "z")), x.x, x.y, x.z);
DE_M(trio_t, (DE_N("x", "y", "z")), x.x, x.y, x.z);

template <typename T, typename = void>
struct has_members : std::false_type
{};
template <typename T>
struct has_members<T, std::void_t<decltype(M<T>::names())>> : std::true_type
{};

template <typename T>
bool same(const T& a, const T& b)
{
    if constexpr (has_members<T>::value) {
        auto ok = true;
        auto x = M<T>::tie(a), y = M<T>::tie(b);
        auto k = [&](auto... is) {
            ((ok = ok && same(std::get<is.value>(x), std::get<is.value>(y))), ...);
        };
        std::apply([&](auto&...) {}, x);
        [&]<std::size_t... is>(std::index_sequence<is...>) {
            k(std::integral_constant<std::size_t, is>{}...);
        }(std::make_index_sequence<std::tuple_size_v<decltype(x)>>{});
        return ok;
    } else
        return a == b;
}

void redraw(Rng& r, int& x) { x = r.chance(80) ? (int) r.below(3) : (int) r.next(); }
void redraw(Rng& r, bool& x) { x = r.chance(50); }
void redraw(Rng& r, char& x) { x = (char) r.below(3); }
void redraw(Rng& r, std::uint8_t& x) { x = (std::uint8_t) r.below(3); }
void redraw(Rng& r, long long& x) { x = (long long) (r.below(2) << 40) + (long long) r.below(2); }
template <typename F>
void redraw_float(Rng& r, F& x)
{
    static const F xs[] = {0, -F(0), 1, F(0.1), std::numeric_limits<F>::quiet_NaN(),
                           std::numeric_limits<F>::infinity(), -1,
                           std::numeric_limits<F>::denorm_min()};
    x = xs[r.below(8)];
}
void redraw(Rng& r, float& x) { redraw_float(r, x); }
void redraw(Rng& r, double& x) { redraw_float(r, x); }
void redraw(Rng& r, few& x) { x = (few) r.below(3); }
void redraw(Rng& r, std::string& x)
{
    static const char* xs[] = {"", "a", "b", "a longer text that is on the heap"};
    x = xs[r.below(4)];
}
void redraw(Rng& r, immer::vector<int>& x)
{
    x = {};
    for (auto n = r.below(3); n; --n)
        x = x.push_back((int) r.below(2));
}
void redraw(Rng& r, std::vector<int>& x) { x.assign(r.below(3), (int) r.below(2)); }
void redraw(Rng& r, std::optional<std::string>& x)
{
    x.reset();
    if (r.chance(60))
        redraw(r, x.emplace());
}
void redraw(Rng& r, immer::map<int, std::string>& x)
{
    x = {};
    for (auto n = r.below(3); n; --n)
        x = x.set((int) r.below(3), r.chance(50) ? "x" : "y");
}
template <typename T, std::enable_if_t<has_members<T>::value, int> = 0>
void redraw(Rng& r, T& x)
{
    std::apply([&](auto&... ms) { (redraw(r, ms), ...); }, M<T>::tie(x));
}

template <typename T, typename = void>
struct has_hash : std::false_type
{};
template <typename T>
struct has_hash<T, std::void_t<decltype(std::hash<T>{}(std::declval<T>()))>>
    : std::true_type
{};

template <std::size_t k, typename T, typename F>
void nth(T& x, F f)
{
    f(std::get<k>(M<T>::tie(x)));
}

// Nothing but a NaN differs from itself.
template <typename V>
bool same_bits(const V& a, const V& b)
{
    if constexpr (std::is_floating_point_v<V>)
        return a == b || (a != a && b != b);
    else if constexpr (has_members<V>::value) {
        auto ok = true;
        auto x = M<V>::tie(a), y = M<V>::tie(b);
        [&]<std::size_t... is>(std::index_sequence<is...>) {
            ((ok = ok && same_bits(std::get<is>(x), std::get<is>(y))), ...);
        }(std::make_index_sequence<std::tuple_size_v<decltype(x)>>{});
        return ok;
    } else
        return a == b;
}
template <typename A, typename B>
bool value_is(const A& a, const B& b)
{
    if constexpr (std::is_same_v<A, B>)
        return same_bits(a, b);
    else
        return false;
}

template <typename T>
void check(Case& c, const char* type)
{
    auto& r = c.rng;
    T a;
    redraw(r, a);
    constexpr auto n = std::tuple_size_v<decltype(M<T>::tie(a))>;
    // equality
    for (int k = 0; k < 8; ++k) {
        T b = a;
        if (k == 7)
            redraw(r, b);
        else if (n)
            [&]<std::size_t... is>(std::index_sequence<is...>) {
                for (auto j = r.below(3); j; --j) {
                    auto w = r.below(n);
                    ((is == w ? redraw(r, std::get<is>(M<T>::tie(b))) : (void) 0), ...);
                }
            }(std::make_index_sequence<n>{});
        auto eq = same(a, b);
        c.mix(eq);
        vp::count(eq ? "equal_pairs" : "unequal_pairs");
        const T &ca = a, &cb = b;
        c.expect((ca == cb) == eq && (cb == ca) == eq, "C25.equal", type,
                 ": == is ", ca == cb, " for members that are ", eq ? "" : "not ",
                 "all equal");
        c.expect((ca != cb) == !eq && (cb != ca) == !eq, "C25.unequal", type,
                 ": != is ", ca != cb, " for members that are ", eq ? "" : "not ",
                 "all equal");
        if constexpr (has_hash<T>::value) {
            if (eq) {
                vp::count("hashes");
                c.expect(std::hash<T>{}(ca) == std::hash<T>{}(cb), "C25.hash",
                         type, ": equal values hash differently");
            }
        }
    }
    // every single member counts
    [&]<std::size_t... is>(std::index_sequence<is...>) {
        auto each = [&](auto i) {
            T x = a;
            // values of this member only
            int others = 0, other_hashes = 0;
            for (int k = 0; k < 12; ++k) {
                T y = a;
                redraw(r, std::get<i.value>(M<T>::tie(y)));
                auto differ = !same(std::get<i.value>(M<T>::tie(x)),
                                    std::get<i.value>(M<T>::tie(y)));
                if (!differ)
                    continue;
                // a NaN elsewhere is not even equal to itself
                c.expect(!(x == y) && x != y, "C25.ignored", type, ": member ",
                         M<T>::names()[i.value], " does not count for equality");
                vp::count("single_members");
                if constexpr (has_hash<T>::value) {
                    using V = std::decay_t<decltype(std::get<i.value>(M<T>::tie(x)))>;
                    if (std::hash<V>{}(std::get<i.value>(M<T>::tie(x))) ==
                        std::hash<V>{}(std::get<i.value>(M<T>::tie(y))))
                        continue;
                    ++others;
                    other_hashes += std::hash<T>{}(x) != std::hash<T>{}(y);
                }
            }
            if (others > 2) {
                vp::count("member_hashes");
                c.expect(other_hashes > 0, "C25.hash_ignored", type, ": member ",
                         M<T>::names()[i.value], " does not count for the hash");
            }
        };
        (each(std::integral_constant<std::size_t, is>{}), ...);
    }(std::make_index_sequence<n>{});
    // reflection
    static_assert(hana::Struct<T>::value, "");
    static_assert(decltype(hana::size(hana::keys(a)))::value == n, "");
    std::vector<std::string> names;
    std::vector<const void*> where, expected;
    std::apply([&](auto&... ms) { (expected.push_back(&ms), ...); }, M<T>::tie(a));
    hana::for_each(hana::accessors<T>(), [&](auto p) {
        names.push_back(hana::first(p).c_str());
        where.push_back(&hana::second(p)(a));
    });
    c.expect(names == M<T>::names(), "C25.names", type, ": the members are ",
             vp::show(names));
    c.expect(where == expected, "C25.members", type,
             ": reflection leads to other members");
    names.clear();
    const T copy = a;
    std::size_t at = 0;
    hana::for_each(copy, [&](auto&& p) {
        names.push_back(hana::first(p).c_str());
        auto ok = false;
        [&]<std::size_t... is>(std::index_sequence<is...>) {
            ((is == at ? (void) (ok = value_is(hana::second(p),
                                               std::get<is>(M<T>::tie(copy))))
                       : (void) 0),
             ...);
        }(std::make_index_sequence<n>{});
        ++at;
        c.expect(ok, "C25.visit", type, ": visit ", at, " has another value");
    });
    c.expect(at == n && names == M<T>::names(), "C25.visit", type, ": visits ",
             vp::show(names));
    // and to write through
    hana::for_each(hana::keys(a), [&](auto k) {
        T x = a, y = a;
        std::size_t i = 0, w = 0;
        for (auto& s : M<T>::names()) {
            if (s == k.c_str())
                w = i;
            ++i;
        }
        auto seed = r.next();
        {
            Rng r1{seed};
            redraw(r1, hana::at_key(x, k));
        }
        [&]<std::size_t... is>(std::index_sequence<is...>) {
            Rng r2{seed};
            ((is == w ? redraw(r2, std::get<is>(M<T>::tie(y))) : (void) 0), ...);
        }(std::make_index_sequence<n>{});
        c.expect(same_bits(x, y), "C25.key", type, ": key ", k.c_str(),
                 " writes something else");
        vp::count("keys");
    });
    c.note(type);
    c.nontrivial = true;
}

template <typename E>
void enums(Case& c,
           const char* type,
           std::vector<std::pair<E, std::string>> all,
           std::vector<std::underlying_type_t<E>> none)
{
    std::map<long long, std::string> first;
    for (auto& p : all) {
        first.emplace((long long) p.first, p.second);
        c.expect(lager::to_enum<E>(p.second) == p.first, "C25.to_enum", type,
                 ": ", p.second, " is another value");
    }
    for (auto& p : all)
        c.expect(lager::to_string(p.first) == first[(long long) p.first],
                 "C25.to_string", type, ": ", p.second, " is called ",
                 lager::to_string(p.first));
    for (auto x : none)
        try {
            auto s = lager::to_string((E) x);
            c.fail("C25.unknown_value", type, ": ", (long long) x, " is called ", s);
        } catch (const std::runtime_error&) {
            vp::count("unknown_values");
        }
    for (int k = 0; k < 4; ++k) {
        auto s = all[c.rng.below(all.size())].second;
        switch (c.rng.below(6)) {
        case 0: s = ""; break;
        case 1: s += "x"; break;
        case 2: s = s.substr(0, s.size() - 1); break;
        case 3: s = " " + s; break;
        case 4: s[0] = (char) std::toupper(s[0]); break;
        default: s += std::string(1, '\0');
        }
        try {
            (void) lager::to_enum<E>(s);
            c.fail("C25.unknown_name", type, ": ", s, " is a value");
        } catch (const std::runtime_error&) {
            vp::count("unknown_names");
        }
    }
    vp::count("enum_names", all.size());
    c.note(type);
    c.mix(c.rng.next());
    c.nontrivial = true;
}

} // namespace de

int main(int argc, char** argv)
{
    using namespace de;
    std::vector<std::function<void(Case&)>> f;
#define T(...) f.push_back([](Case& c) { check<__VA_ARGS__>(c, #__VA_ARGS__); })
    T(one);
    T(two);
    T(many);
    T(holder);
    T(empty);
    T(values);
    T(outer_i);
    T(outer_p);
    T(outer_n);
    T(nested);
    T(reordered);
    T(pair_if);
    T(pair_sh);
    T(pair_pp);
    T(trio_i);
    T(trio_t);
    f.push_back([](Case& c) {
        enums<few>(c, "few",
                   {{few::none, "none"}, {few::some, "some"}, {few::many, "many"}},
                   {3, -1, 1000});
    });
    f.push_back([](Case& c) {
        enums<signs>(c, "signs",
                     {{signs::low, "low"},
                      {signs::minus_1, "minus_1"},
                      {signs::zero, "zero"},
                      {signs::top, "top"},
                      {signs::alias, "alias"}},
                     {1, -2, 100, -128});
    });
    f.push_back([](Case& c) {
        enums<old_style>(
            c, "old_style",
            {{old_a, "old_a"}, {old_b, "old_b"}, {old_c, "old_c"}}, {0, 1, 5});
    });
    f.push_back([](Case& c) {
        enums<single>(c, "single", {{single::huge, "huge"}}, {0, 1});
    });
    return vp::run_main(argc, argv, [&](Case& c) {
        vp::count("types", c.index == 0 ? f.size() : 0);
        f[c.index % f.size()](c);
    });
}
