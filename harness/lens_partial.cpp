#include "lens_engine.hpp"
namespace le {
namespace ll = lager::lenses;
static const char* K = "C17.";

inline long index(vp::Rng& g)
{
    // mostly around the ends
    return g.chance(90) ? g.range(-1, 4)
                        : (g.chance(50) ? -1000000l : 1000000000l);
}

template <typename C>
auto look(const C& c, long k) -> const typename C::value_type*
{
    if (k < 0 || k >= (long) c.size())
        return nullptr;
    return &c[k];
}
template <typename C>
C put(C c, long k, typename C::value_type x)
{
    // element by element: the oracle shares no code with the containers' set
    std::vector<typename C::value_type> v(c.begin(), c.end());
    v[k] = std::move(x);
    return C(v.begin(), v.end());
}
static BA put(BA c, long k, B x)
{
    c[k] = std::move(x);
    return c;
}
static const B* look(const BM& c, std::string k)
{
    auto it = c.find(k);
    return it == c.end() ? nullptr : &it->second;
}
static BM put(BM c, std::string k, B x)
{
    c[k] = std::move(x);
    return c;
}
static const B* look(const IM& c, std::string k) { return c.find(k); }
static IM put(IM c, std::string k, B x)
{
    IM r;
    for (auto& p : c)
        r = r.set(p.first, p.first == k ? x : p.second);
    return r;
}
static const Row* look(const IT& c, int k) { return c.find(k); }
static IT put(IT c, int k, Row x)
{
    IT r;
    for (auto& p : c)
        r = r.insert(p.id == k ? x : p);
    return r;
}

template <typename C, typename Key, typename L>
auto at_edge(std::string n, Key k, L lens)
{
    using E = std::decay_t<decltype(*look(std::declval<C>(), k))>;
    using P = std::optional<E>;
    std::ostringstream os;
    os << n << "(" << k << ")";
    return edge<C, P>(
        os.str(),
        lens,
        [k](const C& c) {
            auto* x = look(c, k);
            return x ? P{*x} : P{};
        },
        [k](C c, const P& p) { return look(c, k) && p ? put(c, k, *p) : c; },
        [k](const C& c) { return look(c, k) != nullptr; });
}
template <typename C, typename Key>
auto at(Key k)
{
    return at_edge<C>("at", k, ll::at(k));
}
template <typename C, typename Key, typename D, typename L>
auto at_or_edge(std::string n, Key k, D def, L lens)
{
    using P = std::decay_t<decltype(*look(std::declval<C>(), k))>;
    std::ostringstream os;
    os << n << "(" << k << "," << str(def) << ")";
    return edge<C, P>(
        os.str(),
        lens,
        [k, def](const C& c) {
            auto* x = look(c, k);
            return x ? *x : def;
        },
        [k](C c, const P& p) { return look(c, k) ? put(c, k, p) : c; },
        [k](const C& c) { return look(c, k) != nullptr; });
}
template <typename C, typename Key, typename D>
auto at_or(Key k, D def)
{
    return at_or_edge<C>("at_or", k, def, ll::at_or(k, def));
}
template <typename C, typename Key>
auto at_or(Key k)
{
    using P = std::decay_t<decltype(*look(std::declval<C>(), k))>;
    return at_or_edge<C>("at_or", k, P{}, ll::at_or(k));
}

template <typename T>
struct unopt
{
    using type = T;
    static const T* get(const T& x) { return &x; }
};
template <typename T>
struct unopt<std::optional<T>>
{
    using type = T;
    static const T* get(const std::optional<T>& x) { return x ? &*x : nullptr; }
};

// lifting over an optional; the lens may itself be partial
template <typename E, typename L>
auto lifted(std::string n, E e, L lens)
{
    using W = std::optional<typename E::W>;
    using U = unopt<typename E::P>;
    using P = std::optional<typename U::type>;
    return edge<W, P>(
        n + "(" + e.name + ")",
        lens,
        [e](const W& w) -> P {
            if (!w)
                return {};
            auto p  = e.get(*w);
            auto* x = U::get(p);
            return x ? P{*x} : P{};
        },
        [e](W w, const P& p) -> W {
            if (!w || !p)
                return w;
            return W{e.set(*w, *p)};
        },
        [e](const W& w) { return w && e.there(*w); });
}
template <typename E>
auto e_with_opt(E e)
{
    return lifted("with_opt", e, ll::with_opt(e.lens));
}
template <typename E>
auto e_map_opt(E e)
{
    return lifted("map_opt", e, ll::map_opt(e.lens));
}
template <typename E>
auto e_bind_opt(E e)
{
    return lifted("bind_opt", e, ll::bind_opt(e.lens));
}
template <typename T, typename L>
auto value_or_edge(std::string n, T def, L lens)
{
    using W = std::optional<T>;
    return edge<W, T>(
        n,
        lens,
        [def](const W& w) { return w ? *w : def; },
        [](W, const T& p) { return W{p}; },
        [](const W& w) { return w.has_value(); });
}
template <typename T>
auto value_or(T def)
{
    return value_or_edge<T>("value_or(" + str(def) + ")", def, ll::value_or(def));
}
template <typename T>
auto value_or()
{
    return value_or_edge<T>("value_or()", T{}, ll::value_or());
}
template <typename T>
auto or_default()
{
    return value_or_edge<T>("or_default", T{}, ll::or_default);
}
template <typename T>
auto force_opt()
{
    using P = std::optional<T>;
    return edge<T, P>(
        "force_opt",
        ll::force_opt,
        [](const T& t) { return P{t}; },
        [](T t, const P& p) { return p ? *p : t; });
}
template <typename T>
auto alternative(std::string n)
{
    using P = std::optional<T>;
    return edge<VV, P>(
        "alternative<" + n + ">",
        ll::alternative<T>,
        [](const VV& v) -> P {
            if (auto* x = std::get_if<T>(&v))
                return *x;
            return {};
        },
        [](VV v, const P& p) -> VV {
            if (p && std::get_if<T>(&v))
                return VV{*p};
            return v;
        },
        [](const VV& v) { return std::get_if<T>(&v) != nullptr; });
}
inline std::string key(vp::Rng& g)
{
    return g.chance(90) ? keys[g.below(3)] : "nope";
}

#define AX attr("x", &A::x)
#define AY attr("y", &A::y)
#define AB attr("b", &A::b)
#define BS attr("s", &B::s)
#define BK attr("k", &B::k)
#define BN attr("n", &B::n)
#define RG [](vp::Rng & g)

#if PARTNO == 0
void partial_0(fns& r)
{
    regk(r, RG { return at<BV>(index(g)); }, K);
    regk(r, RG { return at<BM>(key(g)); }, K);
    regk(r, RG { return at<BA>(index(g)); }, K);
    regk(r, RG { return at<BA>((std::size_t) index(g)); }, K);
    regk(r, RG { return at<IT>((int) g.below(5)); }, K);
    r.push_back([](Case& c) {
        auto k = (int) c.rng.below(5);
        auto e = at<IT>(k);
        e.fit  = [k](std::optional<Row> p) {
            if (p)
                p->id = k;
            return p;
        };
        check_lens(c, e, K);
        check_lens(c, erased(e), K);
    });
    // the key of a row is part of it: only rows of that key are put there
    r.erase(r.end() - 2);
}
#elif PARTNO == 1
void partial_1(fns& r)
{
    regk(r, RG { return at<IV>(index(g)); }, K);
    regk(r, RG { return at<IF>(index(g)); }, K);
    regk(r, RG { return at<IA>(index(g)); }, K);
    regk(r, RG { return at<IM>(key(g)); }, K);
}
#elif PARTNO == 2
void partial_2(fns& r)
{
    regk(r, RG { return at_or<BV>(index(g)); }, K);
    regk(r, RG { return at_or<BV>(index(g), any<B>(g)); }, K);
    regk(r, RG { return at_or<BM>(key(g), any<B>(g)); }, K);
    regk(r, RG { return at_or<BM>(key(g)); }, K);
    regk(r, RG { return at_or<BA>(index(g), any<B>(g)); }, K);
    regk(r, RG { return at_or<IV>(index(g), any<B>(g)); }, K);
    regk(r, RG { return at_or<IV>(index(g)); }, K);
    regk(r, RG { return at_or<IF>(index(g), any<B>(g)); }, K);
    regk(r, RG { return at_or<IM>(key(g), any<B>(g)); }, K);
    regk(r, RG { return at_or<IM>(key(g)); }, K);
}
#elif PARTNO == 3
void partial_3(fns& r)
{
    regk(r, RG { return e_map_opt(AB); }, K);
    regk(r, RG { return e_with_opt(AB | BK); }, K);
    regk(r, RG { return value_or(any<B>(g)); }, K);
    regk(r, RG { return value_or<B>(); }, K);
    regk(r, RG { return or_default<B>(); }, K);
    regk(r, RG { return force_opt<B>(); }, K);
    regk(r, RG { return force_opt<std::string>(); }, K);
    regk(r, RG { return alternative<B>("B"); }, K);
    regk(r, RG { return alternative<int>("int"); }, K);
    regk(r, RG { return alternative<std::string>("string"); }, K);
    regk(r, RG { return e_with_opt(alternative<B>("B")); }, K);
    regk(r, RG { return e_bind_opt(alternative<std::string>("string")); }, K);
}
#elif PARTNO == 4
void partial_4(fns& r)
{
    regk(r, RG { return at<BV>(index(g)) | e_with_opt(BK); }, K);
    regk(r, RG { return at<BM>(key(g)) | e_map_opt(BS); }, K);
    regk(r, RG { return at<BM>(key(g)) | value_or(any<B>(g)) | BK; }, K);
    regk(r, RG { return at<IV>(index(g)) | e_with_opt(BK); }, K);
    regk(r, RG { return at<AV>(index(g)) | e_with_opt(AB) | e_with_opt(BS); }, K);
    regk(r, RG { return at_or<AV>(index(g), any<A>(g)) | AB | BK; }, K);
    regk(r, RG { return e_with_opt(AB | BS); }, K);
    regk(r, RG { return e_with_opt(AB) | e_with_opt(BS); }, K);
    regk(r, RG { return e_bind_opt(at<BV>(index(g))); }, K);
    regk(r, RG { return e_with_opt(at<BM>(key(g))) | e_map_opt(BK); }, K);
}
#elif PARTNO == 5
void partial_5(fns& r)
{
    regk(r, RG { return attr("v", &Q::v) | at<BV>(index(g)); }, K);
    regk(r, RG { return attr("m", &Q::m) | at_or<BM>(key(g), any<B>(g)); }, K);
    regk(
        r,
        RG { return attr("iv", &Q::iv) | at<IV>(index(g)) | e_with_opt(BK); },
        K);
    regk(
        r, RG { return attr("im", &Q::im) | erased(at<IM>(key(g))); }, K);
    regk(r, RG { return attr("o", &Q::o) | e_with_opt(BK); }, K);
    regk(r, RG { return attr("oa", &Q::oa) | e_map_opt(AB) | e_map_opt(BS); }, K);
    regk(
        r,
        RG { return attr("w", &Q::w) | alternative<B>("B") | e_with_opt(BS); },
        K);
    regk(
        r,
        RG {
            return attr("av", &Q::av) | at<AV>(index(g)) | e_with_opt(AB | BK) |
                   or_default<Tracked>();
        },
        K);
}
#elif PARTNO == 6
void partial_6(fns& r)
{
    regk(r, RG { return force_opt<A>() | e_with_opt(AB); }, K);
    regk(r, RG { return AB | force_opt<B>() | e_map_opt(BS); }, K);
    regk(
        r, RG { return force_opt<BV>() | e_bind_opt(at<BV>(index(g))); }, K);
    regk(
        r,
        RG { return alternative<B>("B") | e_with_opt(BK) | value_or<Tracked>(); },
        K);
    regk(
        r,
        RG {
            return at<AV>(index(g)) | erased(e_with_opt(AB)) | erased(e_map_opt(BK));
        },
        K);
    regk(r, RG { return value_or(any<A>(g)) | AB | force_opt<B>(); }, K);
}
#endif
} // namespace le
