// C24: what is saved loads back equal, into any target, by any archive; cut or
// corrupted input throws or gives some value.  Values are made and compared by
// Gen<T> only, and not by what lager derives.
#pragma once
#include "common.hpp"

#include <lager/extra/cereal/enum.hpp>
#include <lager/extra/cereal/immer_array.hpp>
#include <lager/extra/cereal/immer_box.hpp>
#include <lager/extra/cereal/immer_flex_vector.hpp>
#include <lager/extra/cereal/immer_map.hpp>
#include <lager/extra/cereal/immer_set.hpp>
#include <lager/extra/cereal/immer_vector.hpp>
#include <lager/extra/cereal/inline.hpp>
#include <lager/extra/cereal/json.hpp>
#include <lager/extra/cereal/struct.hpp>
#include <lager/extra/cereal/tuple.hpp>
#include <lager/extra/cereal/variant_with_name.hpp>
#include <lager/extra/derive.hpp>
#include <lager/extra/derive/cereal.hpp>
#include <lager/extra/derive/eq.hpp>
#include <lager/extra/derive/hana.hpp>
#include <lager/extra/derive/hash.hpp>
#include <lager/extra/enum.hpp>
#include <lager/extra/struct.hpp>

#include <cereal/archives/binary.hpp>
#include <cereal/archives/json.hpp>
#include <cereal/archives/portable_binary.hpp>
#include <cereal/types/optional.hpp>
#include <cereal/types/string.hpp>
#include <cereal/types/vector.hpp>

#include <rapidjson/document.h>
#include <rapidjson/stringbuffer.h>
#include <rapidjson/writer.h>

#include <cmath>
#include <limits>
#include <optional>

namespace ce {
using vp::Case;
using vp::Rng;

enum class color
{
    red,
    green,
    blue
};

// derived in each of the ways there are
struct plain
{
    int a = 0;
    std::string b;
};
struct empty
{};
template <typename A, typename B>
struct pairish
{
    A first_one{};
    B second_one{};
};
} // namespace ce
LAGER_DERIVE((EQ, HANA, CEREAL, HASH), ce, plain, a, b);
namespace ce {
struct nested
{
    double x = 0;
    plain p;
    LAGER_DERIVE_NESTED((EQ, HANA, CEREAL), nested, x, p);
};
struct key
{
    int a = 0;
    int b = 0;
};
// reflected, and serialized from that
struct reflected
{
    int a = 0;
    std::string long_name;
    immer::vector<int> vs;
};
struct reflected_camel
{
    static constexpr bool serialize_camel_case = true;
    int first_field                            = 0;
    std::string SECOND_FIELD;
    int x2_value_B = 0;
    LAGER_STRUCT_NESTED(
        reflected_camel, first_field, SECOND_FIELD, x2_value_B);
};
struct with_id
{
    std::string id;
    int v = 0;
};
// saves and loads only what is there: loading it into anything but a fresh
// value leaves what it does not have
struct sparse
{
    int n      = 0;
    int has    = 0;
    int extra  = 0;
    int more   = 0;
    std::string text;
    template <typename Archive>
    void save(Archive& ar) const
    {
        ar(n, has, more);
        if (has)
            ar(extra);
        if (more)
            ar(text);
    }
    template <typename Archive>
    void load(Archive& ar)
    {
        ar(n, has, more);
        if (has)
            ar(extra);
        if (more)
            ar(text);
    }
};
inline bool operator==(const sparse& a, const sparse& b)
{
    return a.n == b.n && a.has == b.has && a.extra == b.extra &&
           a.more == b.more && a.text == b.text;
}
inline bool operator!=(const sparse& a, const sparse& b) { return !(a == b); }
} // namespace ce

LAGER_ENUM(ce, color, red, green, blue);
LAGER_DERIVE((EQ, CEREAL), ce, empty);
LAGER_DERIVE_TEMPLATE((EQ, HANA, CEREAL, HASH),
                      ce,
                      (class A, class B),
                      (pairish<A, B>),
                      first_one,
                      second_one);
LAGER_DERIVE((EQ, HANA, CEREAL, HASH), ce, key, a, b);
LAGER_STRUCT(ce, reflected, a, long_name, vs);
LAGER_DERIVE((EQ, CEREAL), ce, with_id, id, v);

namespace ce {

inline std::size_t random_size(Rng& r, int depth)
{
    if (depth > 1)
        return r.below(4);
    switch (r.below(12)) {
    case 0:
    case 1:
    case 2: return 0;
    case 3: return 31 + r.below(4);
    case 4: return depth ? 2 : 60 + r.below(10);
    case 5: return depth ? 3 : r.below(1300);
    default: return r.below(7);
    }
}

template <typename T, typename = void>
struct Gen;

template <>
struct Gen<int>
{
    static int make(Rng& r, int)
    {
        return r.chance(20)   ? std::numeric_limits<int>::max()
               : r.chance(10) ? std::numeric_limits<int>::min()
                              : (int) r.range(-300, 300);
    }
    static bool same(int a, int b) { return a == b; }
};
template <>
struct Gen<std::int64_t>
{
    static std::int64_t make(Rng& r, int)
    {
        return r.chance(50) ? (std::int64_t) r.next() : r.range(-9, 9);
    }
    static bool same(std::int64_t a, std::int64_t b) { return a == b; }
};
template <>
struct Gen<bool>
{
    static bool make(Rng& r, int) { return r.chance(50); }
    static bool same(bool a, bool b) { return a == b; }
};
template <>
struct Gen<double>
{
    static double make(Rng& r, int)
    {
        static const double xs[] = {0, -0.5, 1.0 / 3, 1e300, -1e-300, 123456.789,
                                    2.5, 1e15, 3, -7};
        return r.chance(60) ? xs[r.below(10)]
                            : (double) (std::int64_t) r.next() / 1e7;
    }
    static bool same(double a, double b) { return a == b; }
};
template <>
struct Gen<std::string>
{
    static std::string make(Rng& r, int)
    {
        static const char* xs[] = {"", "a", "quoted \"x\" \\", "line\nnext\ttab",
                                   "caf\xc3\xa9 \xe2\x82\xac",
                                   "a longer text which is on the heap for sure",
                                   "null", "{\"type\": 1}", "0"};
        std::string s = xs[r.below(9)];
        if (r.chance(40))
            s += std::to_string(r.below(1000));
        return s;
    }
    static bool same(const std::string& a, const std::string& b)
    {
        return a == b;
    }
};
template <>
struct Gen<color>
{
    static color make(Rng& r, int) { return (color) r.below(3); }
    static bool same(color a, color b) { return a == b; }
};
template <>
struct Gen<std::monostate>
{
    static std::monostate make(Rng&, int) { return {}; }
    static bool same(std::monostate, std::monostate) { return true; }
};
#define CE_GEN(name, ...)                                                      \
    template <>                                                                \
    struct Gen<name>                                                           \
    {                                                                          \
        template <typename X>                                                  \
        static auto tie(X& x)                                                  \
        {                                                                      \
            return std::tie(__VA_ARGS__);                                      \
        }                                                                      \
        static name make(Rng& r, int d)                                        \
        {                                                                      \
            name n;                                                            \
            std::apply(                                                        \
                [&](auto&... ms) {                                             \
                    ((ms = Gen<std::decay_t<decltype(ms)>>::make(r, d + 1)),   \
                     ...);                                                     \
                },                                                             \
                tie(n));                                                       \
            return n;                                                          \
        }                                                                      \
        static bool same(const name& a, const name& b)                         \
        {                                                                      \
            return Gen<decltype(copy(tie(a)))>::same(copy(tie(a)),             \
                                                     copy(tie(b)));            \
        }                                                                      \
        template <typename... Ts>                                              \
        static std::tuple<std::decay_t<Ts>...> copy(const std::tuple<Ts...>& t) \
        {                                                                      \
            return t;                                                          \
        }                                                                      \
    }
template <typename T>
using el_t = std::decay_t<decltype(*std::declval<const T&>().begin())>;

template <typename T, typename F>
void fill(T& t, Rng& r, int d, F add)
{
    auto n = random_size(r, d);
    for (std::size_t i = 0; i < n; ++i)
        add(t, Gen<el_t<T>>::make(r, d + 1));
}
template <typename T>
bool same_sequence(const T& a, const T& b)
{
    if (a.size() != b.size())
        return false;
    auto j = b.begin();
    for (auto i = a.begin(); i != a.end(); ++i, ++j)
        if (!Gen<el_t<T>>::same(*i, *j))
            return false;
    return true;
}
#define CE_SEQ(T, add)                                                         \
    struct Gen<T>                                                              \
    {                                                                          \
        using S = T;                                                           \
        static S make(Rng& r, int d)                                           \
        {                                                                      \
            S s;                                                               \
            fill(s, r, d, [](S& v, auto x) { add; });                          \
            return s;                                                          \
        }                                                                      \
        static bool same(const S& a, const S& b)                               \
        {                                                                      \
            return same_sequence(a, b);                                        \
        }                                                                      \
    }
template <typename E>
CE_SEQ(immer::vector<E>, v = std::move(v).push_back(std::move(x)));
template <typename E>
CE_SEQ(immer::array<E>, v = std::move(v).push_back(std::move(x)));
template <typename E>
CE_SEQ(std::vector<E>, v.push_back(std::move(x)));
template <typename E>
struct Gen<immer::flex_vector<E>>
{
    using S = immer::flex_vector<E>;
    static S make(Rng& r, int d)
    {
        S s;
        fill(s, r, d, [](S& v, auto x) { v = std::move(v).push_back(x); });
        if (r.chance(50)) { // and not so regular inside
            S t;
            fill(t, r, d, [](S& v, auto x) { v = std::move(v).push_front(x); });
            s = s.take(r.below(s.size() + 1)) + t + s.drop(r.below(s.size() + 1));
        }
        return s;
    }
    static bool same(const S& a, const S& b) { return same_sequence(a, b); }
};
template <typename E>
struct Gen<immer::box<E>>
{
    static immer::box<E> make(Rng& r, int d) { return Gen<E>::make(r, d + 1); }
    static bool same(const immer::box<E>& a, const immer::box<E>& b)
    {
        return Gen<E>::same(*a, *b);
    }
};
template <typename E>
struct Gen<std::optional<E>>
{
    using S = std::optional<E>;
    static S make(Rng& r, int d)
    {
        if (r.chance(40))
            return std::nullopt;
        return Gen<E>::make(r, d + 1);
    }
    static bool same(const S& a, const S& b)
    {
        return a.has_value() == b.has_value() && (!a || Gen<E>::same(*a, *b));
    }
};
template <typename K, typename V>
struct Gen<immer::map<K, V>>
{
    using S = immer::map<K, V>;
    static S make(Rng& r, int d)
    {
        S s;
        auto n = random_size(r, d);
        for (std::size_t i = 0; i < n; ++i)
            if constexpr (std::is_same_v<V, with_id>) {
                auto v = Gen<V>::make(r, d + 1);
                s      = std::move(s).set(v.id, v);
            } else
                s = std::move(s).set(Gen<K>::make(r, d + 1),
                                     Gen<V>::make(r, d + 1));
        return s;
    }
    static bool same(const S& a, const S& b)
    {
        if (a.size() != b.size())
            return false;
        std::size_t n = 0;
        for (auto& kv : a) {
            ++n;
            auto* p = b.find(kv.first);
            if (!p || !Gen<V>::same(*p, kv.second))
                return false;
        }
        return n == a.size();
    }
};
template <typename K>
struct Gen<immer::set<K>>
{
    using S = immer::set<K>;
    static S make(Rng& r, int d)
    {
        S s;
        auto n = random_size(r, d);
        for (std::size_t i = 0; i < n; ++i)
            s = std::move(s).insert(Gen<K>::make(r, d + 1));
        return s;
    }
    static bool same(const S& a, const S& b)
    {
        if (a.size() != b.size())
            return false;
        for (auto& k : a)
            if (!b.count(k))
                return false;
        return true;
    }
};
template <typename... Ts>
struct Gen<std::tuple<Ts...>>
{
    using S = std::tuple<Ts...>;
    static S make(Rng& r, int d)
    {
        return S{Gen<Ts>::make(r, d + 1)...};
    }
    static bool same(const S& a, const S& b)
    {
        return same_(a, b, std::index_sequence_for<Ts...>{});
    }
    template <std::size_t... is>
    static bool same_(const S& a, const S& b, std::index_sequence<is...>)
    {
        return (Gen<Ts>::same(std::get<is>(a), std::get<is>(b)) && ...);
    }
};
template <typename... Ts>
struct Gen<std::variant<Ts...>>
{
    using S = std::variant<Ts...>;
    static S make(Rng& r, int d)
    {
        S s;
        auto k      = r.below(sizeof...(Ts));
        std::size_t i = 0;
        ((i++ == k ? (void) (s = Gen<Ts>::make(r, d + 1)) : (void) 0), ...);
        return s;
    }
    static bool same(const S& a, const S& b)
    {
        return a.index() == b.index() &&
               std::visit(
                   [&](auto& x) {
                       using X = std::decay_t<decltype(x)>;
                       return Gen<X>::same(x, std::get<X>(b));
                   },
                   a);
    }
};
template <typename A, typename B>
struct Gen<pairish<A, B>>
{
    using S = pairish<A, B>;
    static S make(Rng& r, int d)
    {
        return {Gen<A>::make(r, d + 1), Gen<B>::make(r, d + 1)};
    }
    static bool same(const S& a, const S& b)
    {
        return Gen<A>::same(a.first_one, b.first_one) &&
               Gen<B>::same(a.second_one, b.second_one);
    }
};
template <>
struct Gen<empty>
{
    static empty make(Rng&, int) { return {}; }
    static bool same(empty, empty) { return true; }
};
CE_GEN(plain, x.a, x.b);
CE_GEN(nested, x.x, x.p);
CE_GEN(key, x.a, x.b);
CE_GEN(reflected, x.a, x.long_name, x.vs);
CE_GEN(reflected_camel, x.first_field, x.SECOND_FIELD, x.x2_value_B);
CE_GEN(with_id, x.id, x.v);
template <>
struct Gen<sparse>
{
    static sparse make(Rng& r, int d)
    {
        sparse s;
        s.n   = Gen<int>::make(r, d + 1);
        s.has = r.chance(50);
        if (s.has)
            s.extra = Gen<int>::make(r, d + 1);
        s.more = r.chance(50);
        if (s.more)
            s.text = Gen<std::string>::make(r, d + 1);
        return s;
    }
    static bool same(const sparse& a, const sparse& b) { return a == b; }
};

// ------------------------------------------------------------------ archives
struct Binary
{
    static constexpr auto name = "binary";
    using Out                  = cereal::BinaryOutputArchive;
    using In                   = cereal::BinaryInputArchive;
    static Out out(std::ostream& os, Rng&) { return Out{os}; }
};
struct Portable
{
    static constexpr auto name = "portable";
    using Out                  = cereal::PortableBinaryOutputArchive;
    using In                   = cereal::PortableBinaryInputArchive;
    static Out out(std::ostream& os, Rng& r)
    {
        using O = Out::Options;
        return Out{os, r.chance(50) ? O::BigEndian() : O::LittleEndian()};
    }
};
struct Json
{
    static constexpr auto name = "json";
    using Out                  = cereal::JSONOutputArchive;
    using In                   = cereal::JSONInputArchive;
    static Out out(std::ostream& os, Rng& r)
    {
        return Out{os,
                   r.chance(50) ? Out::Options::Default()
                                : Out::Options::NoIndent()};
    }
};

template <typename Arch, typename T>
std::string save(const T& x, int after, Rng& r)
{
    std::ostringstream os;
    {
        auto ar = Arch::out(os, r);
        ar(x, after);
    }
    return os.str();
}
template <typename Arch, typename T>
void load(const std::string& s, T& x, int& after)
{
    std::istringstream is{s};
    typename Arch::In ar{is};
    ar(x, after);
}

template <typename T>
bool inhabited(const T& x)
{
    if constexpr (std::is_default_constructible_v<T>)
        return !Gen<T>::same(x, T{});
    return true;
}

// The same text with the members of its objects in another order; not where
// cereal has made up the names, as these are not looked for.
inline void shuffle(rapidjson::Value& v,
                    rapidjson::Document::AllocatorType& al,
                    Rng& r)
{
    if (v.IsArray())
        for (auto& x : v.GetArray())
            shuffle(x, al, r);
    if (!v.IsObject())
        return;
    std::vector<std::pair<rapidjson::Value, rapidjson::Value>> ms;
    auto named = true;
    for (auto& m : v.GetObject()) {
        shuffle(m.value, al, r);
        named = named && std::string{m.name.GetString()}.find("value") != 0;
        ms.emplace_back(rapidjson::Value{m.name, al},
                        rapidjson::Value{m.value, al});
    }
    auto is_item = ms.size() == 2 && v.HasMember("key") && v.HasMember("value");
    if (!named && !is_item)
        return;
    for (std::size_t i = ms.size(); i > 1; --i)
        std::swap(ms[i - 1], ms[r.below(i)]);
    v.RemoveAllMembers();
    for (auto& m : ms)
        v.AddMember(m.first, m.second, al);
}
inline std::string shuffled(const std::string& s, Rng& r)
{
    rapidjson::Document d;
    d.Parse<rapidjson::kParseFullPrecisionFlag | rapidjson::kParseNanAndInfFlag>(
        s.c_str());
    if (d.HasParseError())
        return "";
    shuffle(d, d.GetAllocator(), r);
    rapidjson::StringBuffer b;
    rapidjson::Writer<rapidjson::StringBuffer> w{b};
    d.Accept(w);
    return b.GetString();
}

// Cereal itself reads a bool from any byte, which is undefined for most; so
// what has one in it is only cut short, and not corrupted, in binary.
inline bool has_bool(const std::string& type)
{
    return type.find("bool") != std::string::npos ||
           type.find("optional") != std::string::npos;
}

// How many bytes to try is bounded; a long text is cut in a few places only.
template <typename T, typename Arch>
void one(Case& c, const char* type)
{
    auto& r    = c.rng;
    auto x     = Gen<T>::make(r, 0);
    auto after = Gen<int>::make(r, 0);
    auto s     = save<Arch>(x, after, r);
    c.note(type, " ", Arch::name, " ", s.size(), " bytes ",
           std::hash<std::string>{}(s));
    if (inhabited(x))
        c.nontrivial = true;
    for (int k = 0; k < 2; ++k) {
        auto target = k ? Gen<T>::make(r, 0) : T{};
        int a       = ~after;
        try {
            load<Arch>(s, target, a);
        } catch (const std::exception& e) {
            c.fail("C24.throws", type, " ", Arch::name, ": what was saved gives ",
                   e.what());
            continue;
        }
        vp::count(k ? "loads_into_content" : "loads_into_fresh");
        c.expect(Gen<T>::same(target, x), k ? "C24.target" : "C24.equal", type,
                 " ", Arch::name, ": a ", k ? "used" : "fresh",
                 " target is not what was saved: ", s.substr(0, 300));
        c.expect(a == after, "C24.rest", type, " ", Arch::name,
                 ": what comes after it was lost");
        if (k && !inhabited(x) && inhabited(target))
            vp::count("never");
    }
    if (std::is_same_v<Arch, Json>) {
        auto t      = shuffled(s, r);
        auto target = T{};
        int a       = ~after;
        try {
            load<Arch>(t, target, a);
            c.expect(Gen<T>::same(target, x) && a == after, "C24.named", type,
                     ": with its members in another order it is not the same: ",
                     t.substr(0, 300));
        } catch (const std::exception& e) {
            c.fail("C24.named", type, ": with its members in another order: ",
                   e.what(), ": ", t.substr(0, 300));
        }
        vp::count("shuffled");
    }
    // and hostile input
    auto hostile = [&](const std::string& t, const char* what) {
        auto target = r.chance(50) ? Gen<T>::make(r, 1) : T{};
        int a       = 0;
        try {
            load<Arch>(t, target, a);
            vp::count("hostile_gave_a_value");
        } catch (const std::exception&) {
            vp::count("hostile_threw");
        }
        vp::count(what);
        auto copy = target; // whatever it is, it is a value
        c.expect(Gen<T>::same(copy, target) || !Gen<T>::same(target, target),
                 "C24.value", type, " ", Arch::name, ": ", what,
                 " input leaves no value");
        target = x;
        c.expect(Gen<T>::same(x, target), "C24.value", type, " ", Arch::name,
                 ": ", what, " input leaves a target that takes no value");
    };
    if (s.size() < 6000) {
        for (int k = 0; k < 3; ++k)
            hostile(s.substr(0, r.below(s.size() + 1)), "truncated");
        if (!std::is_same_v<Arch, Json> && has_bool(type))
            return;
        for (int k = 0; k < 3; ++k) {
            auto t = s;
            for (auto n = 1 + r.below(3); n && !t.empty(); --n) {
                auto at = r.below(t.size());
                switch (r.below(4)) {
                case 0: t[at] = (char) r.next(); break;
                case 1: t[at] = (char) (t[at] ^ (1 << r.below(8))); break;
                case 2: t.erase(at, 1 + r.below(9)); break;
                default: t.insert(at, t.substr(r.below(t.size()), r.below(20)));
                }
            }
            hostile(t, "corrupted");
        }
    }
}

// to_json and from_json
template <typename T>
void text(Case& c, const char* type)
{
    auto x = Gen<T>::make(c.rng, 0);
    std::string s;
    try {
        s = lager::to_json(x);
        // cereal writes nothing at all when an array is the root and empty
        if (s.empty())
            return;
        auto has = [&](const char* name) {
            c.expect(s.find(std::string{"\""} + name + "\":") != std::string::npos,
                     "C24.names", type, " has no member ", name, ": ", s);
        };
        if constexpr (std::is_same_v<T, reflected_camel>) {
            has("firstField");
            has("secondField");
            has("x2ValueB");
        } else if constexpr (std::is_same_v<T, reflected>) {
            has("a");
            has("long_name");
            has("vs");
        }
        auto y = lager::from_json<T>(s);
        vp::count("texts");
        c.expect(Gen<T>::same(x, y), "C24.json", type,
                 " is not the same from its own text: ", s.substr(0, 300));
    } catch (const std::exception& e) {
        c.fail("C24.json_throws", type, ": ", e.what(), ": ", s.substr(0, 300));
    }
    auto t = s.substr(0, c.rng.below(s.size()));
    try {
        (void) lager::from_json<T>(t);
    } catch (const std::exception&) {
        vp::count("hostile_threw");
    }
    vp::count("truncated");
}

using fns = std::vector<std::function<void(Case&)>>;
template <typename T>
void all(fns& f, const char* type)
{
    f.push_back([=](Case& c) { one<T, Binary>(c, type); });
    f.push_back([=](Case& c) { one<T, Portable>(c, type); });
    f.push_back([=](Case& c) { one<T, Json>(c, type); });
}
#define CE_T(...) all<__VA_ARGS__>(f, #__VA_ARGS__)
#define CE_TEXT(...)                                                           \
    CE_T(__VA_ARGS__);                                                         \
    f.push_back([](Case& c) { text<__VA_ARGS__>(c, #__VA_ARGS__); })

} // namespace ce
