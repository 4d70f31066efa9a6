#include "lens_engine.hpp"
namespace le {
namespace ll = lager::lenses;
static const char* K = "C16.";

template <std::size_t N, typename W>
auto elem(std::string name)
{
    using P = std::decay_t<decltype(std::get<N>(std::declval<W&>()))>;
    return edge<W, P>(
        name,
        ll::element<N>,
        [](const W& w) { return std::get<N>(w); },
        [](W w, const P& p) {
            std::get<N>(w) = p;
            return w;
        });
}
template <typename T>
auto ident()
{
    return edge<T, T>(
        "id",
        lager::identity,
        [](const T& x) { return x; },
        [](T, const T& y) { return y; });
}
template <typename E1, typename E2>
auto fan2(E1 a, E2 b)
{
    using W = typename E1::W;
    using P = std::tuple<typename E1::P, typename E2::P>;
    return edge<W, P>(
        "fan(" + a.name + "," + b.name + ")",
        ll::fan(a.lens, b.lens),
        [a, b](const W& w) { return P{a.get(w), b.get(w)}; },
        [a, b](W w, const P& p) {
            return b.set(a.set(w, std::get<0>(p)), std::get<1>(p));
        });
}
template <typename E1, typename E2>
auto zip2(E1 a, E2 b)
{
    using W = std::tuple<typename E1::W, typename E2::W>;
    using P = std::tuple<typename E1::P, typename E2::P>;
    return edge<W, P>(
        "zip(" + a.name + "," + b.name + ")",
        ll::zip(a.lens, b.lens),
        [a, b](const W& w) {
            return P{a.get(std::get<0>(w)), b.get(std::get<1>(w))};
        },
        [a, b](W w, const P& p) {
            return W{a.set(std::get<0>(w), std::get<0>(p)),
                     b.set(std::get<1>(w), std::get<1>(p))};
        });
}
template <typename E1, typename E2>
auto zip2p(E1 a, E2 b)
{
    using W = std::pair<typename E1::W, typename E2::W>;
    using P = std::pair<typename E1::P, typename E2::P>;
    return edge<W, P>(
        "zipp(" + a.name + "," + b.name + ")",
        ll::zip(a.lens, b.lens),
        [a, b](const W& w) { return P{a.get(w.first), b.get(w.second)}; },
        [a, b](W w, const P& p) {
            return W{a.set(w.first, p.first), b.set(w.second, p.second)};
        });
}

// of more than two
template <typename... Es>
auto fann(Es... es)
{
    using W = std::common_type_t<typename Es::W...>;
    using P = std::tuple<typename Es::P...>;
    std::string name;
    ((name += "," + es.name), ...);
    return edge<W, P>(
        "fan" + std::to_string(sizeof...(es)) + "(" + name.substr(1) + ")",
        ll::fan(es.lens...),
        [es...](const W& w) { return P{es.get(w)...}; },
        [es...](W w, const P& p) {
            return std::apply(
                [&](const auto&... ps) {
                    ((w = es.set(w, ps)), ...);
                    return w;
                },
                p);
        });
}
template <typename... Es>
auto zipn(Es... es)
{
    using W = std::tuple<typename Es::W...>;
    using P = std::tuple<typename Es::P...>;
    std::string name;
    ((name += "," + es.name), ...);
    return edge<W, P>(
        "zip" + std::to_string(sizeof...(es)) + "(" + name.substr(1) + ")",
        ll::zip(es.lens...),
        [es...](const W& w) {
            return std::apply([&](const auto&... ws) { return P{es.get(ws)...}; },
                              w);
        },
        [es...](const W& w, const P& p) {
            return std::apply(
                [&](const auto&... ws) {
                    return std::apply(
                        [&](const auto&... ps) { return W{es.set(ws, ps)...}; },
                        p);
                },
                w);
        });
}

static auto bx()
{
    return edge<immer::box<A>, A>(
        "unbox",
        ll::unbox,
        [](const immer::box<A>& b) { return b.get(); },
        [](immer::box<A>, const A& a) { return immer::box<A>{a}; });
}
static auto gs()
{
    // both ways around a sum
    return edge<A, int>(
        "getset",
        ll::getset([](auto&& a) { return a.x + a.b.n; },
                   [](auto&& a, int v) {
                       auto r = LAGER_FWD(a);
                       r.x    = v - r.b.n;
                       return r;
                   }),
        [](const A& a) { return a.x + a.b.n; },
        [](A a, int v) {
            a.x = v - a.b.n;
            return a;
        });
}
static auto gs2()
{
    return edge<B, std::string>(
        "getset",
        ll::getset([](const B& b) { return b.s + "!"; },
                   [](B b, std::string v) {
                       if (!v.empty())
                           v.pop_back();
                       b.s = v;
                       return b;
                   }),
        [](const B& b) { return b.s + "!"; },
        [](B b, std::string v) {
            if (!v.empty())
                v.pop_back();
            b.s = v;
            return b;
        });
}

// getters that take the whole by value: they must not consume one that is
// still to be set
static auto gv()
{
    return edge<B, std::string>(
        "getset by value",
        ll::getset([](B b) { return b.s; },
                   [](B b, std::string v) {
                       b.s = std::move(v);
                       return b;
                   }),
        [](const B& b) { return b.s; },
        [](B b, std::string v) {
            b.s = v;
            return b;
        });
}
static auto gvb()
{
    return edge<A, B>(
        "getset by value",
        ll::getset([](A a) { return std::move(a.b); },
                   [](A a, B v) {
                       a.b = std::move(v);
                       return a;
                   }),
        [](const A& a) { return a.b; },
        [](A a, B v) {
            a.b = v;
            return a;
        });
}
static auto gva()
{
    // one that gives a reference to what it is given, and one that does not
    return edge<S, A>(
        "getset by reference",
        ll::getset([](auto&& s) -> decltype(auto) { return (LAGER_FWD(s).a); },
                   [](auto&& s, auto&& v) {
                       auto r = LAGER_FWD(s);
                       r.a    = LAGER_FWD(v);
                       return r;
                   }),
        [](const S& s) { return s.a; },
        [](S s, A v) {
            s.a = v;
            return s;
        });
}

#define AX attr("x", &A::x)
#define AY attr("y", &A::y)
#define AB attr("b", &A::b)
#define BS attr("s", &B::s)
#define BK attr("k", &B::k)
#define BN attr("n", &B::n)
#define SA attr("a", &S::a)
#define SN attr("n", &S::n)
#define SS attr("s", &S::s)
#define ST attr("t", &S::t)
#define SP attr("pr", &S::pr)
#define SR attr("ar", &S::ar)
#define SB attr("bx", &S::bx)

#if PARTNO == 0
void total_0(fns& r)
{
    reg2(r, AX, K);
    reg2(r, AB, K);
    reg2(r, BK, K);
    reg2(r, AB | BS, K);
    reg2(r, AB | BK, K);
    reg2(r, SA | AB | BS, K);
    reg2(r, SA | AB | BK, K);
    reg2(r, SA | AX, K);
    reg2(r, SN, K);
    reg2(r, SS, K);
    reg(r, erased(SA) | AB | erased(BS), K);
    reg(r, SA | erased(AB) | BK, K);
    reg(r, erased(erased(SA) | erased(AB)) | BN, K);
    reg(r, ident<A>(), K);
    reg(r, erased(ident<A>()), K);
    reg(r, SA | ident<A>() | AY, K);
}
#elif PARTNO == 1
void total_1(fns& r)
{
    reg2(r, elem<0, TT>("#0"), K);
    reg2(r, elem<1, TT>("#1"), K);
    reg2(r, elem<0, PR>("first"), K);
    reg2(r, elem<1, PR>("second"), K);
    reg2(r, elem<2, BA>("#2"), K);
    reg2(r, ST | elem<1, TT>("#1") | AB | BK, K);
    reg2(r, SP | elem<0, PR>("first") | AY, K);
    reg2(r, SP | elem<1, PR>("second") | BK, K);
    reg2(r, SR | elem<0, BA>("#0") | BS, K);
    reg(r, erased(SR) | elem<1, BA>("#1"), K);
}
#elif PARTNO == 2
void total_2(fns& r)
{
    reg2(r, bx(), K);
    reg2(r, bx() | AB | BK, K);
    reg2(r, SB | bx() | AY, K);
    reg2(r, SB | bx() | AB, K);
    reg2(r, gs(), K);
    reg2(r, SA | gs(), K);
    reg2(r, SB | bx() | gs(), K);
    // gs2 is lossy on empty values, which are not generated
    reg(r, AB | gs2(), "C16.");
    reg2(r, SA | AB, K);
    reg2(r, gv(), K);
    reg2(r, gvb(), K);
    reg2(r, gva(), K);
    reg2(r, gvb() | gv(), K);
    reg2(r, gva() | gvb() | gv(), K);
    reg2(r, gva() | gvb() | BK, K);
    reg2(r, SA | gvb() | gv(), K);
    reg2(r, SB | bx() | gvb() | BS, K);
}
#elif PARTNO == 3
void total_3(fns& r)
{
    reg2(r, fan2(AX, AB), K);
    reg2(r, fan2(AY, AB | BK), K);
    reg2(r, SA | fan2(AY, AB), K);
    reg2(r, fan2(SA | AB | BS, SA | AX), K);
    reg2(r, fan2(SS, SB | bx()), K);
    reg(r, fan2(erased(SS), SP | elem<1, PR>("second")), K);
    auto m3 = edge<A, std::tuple<int, std::string, B>>(
        "attr3",
        ll::attr(&A::x, &A::y, &A::b),
        [](const A& a) {
            return std::tuple<int, std::string, B>{a.x, a.y, a.b};
        },
        [](A, const std::tuple<int, std::string, B>& p) {
            return A{std::get<0>(p), std::get<1>(p), std::get<2>(p)};
        });
    reg2(r, m3, K);
    reg2(r, SA | m3, K);
    auto m4 = edge<S, std::tuple<A, int, std::string, TT>>(
        "attr4",
        ll::attr(&S::a, &S::n, &S::s, &S::t),
        [](const S& s) {
            return std::tuple<A, int, std::string, TT>{s.a, s.n, s.s, s.t};
        },
        [](S s, const std::tuple<A, int, std::string, TT>& p) {
            std::tie(s.a, s.n, s.s, s.t) = p;
            return s;
        });
    reg2(r, m4, K);
    reg(r, m4 | elem<1, std::tuple<A, int, std::string, TT>>("#1"), K);
    auto m5 = edge<S, std::tuple<std::string, PR, TT, A, int>>(
        "attr5",
        ll::attr(&S::s, &S::pr, &S::t, &S::a, &S::n),
        [](const S& s) {
            return std::tuple<std::string, PR, TT, A, int>{
                s.s, s.pr, s.t, s.a, s.n};
        },
        [](S s, const std::tuple<std::string, PR, TT, A, int>& p) {
            std::tie(s.s, s.pr, s.t, s.a, s.n) = p;
            return s;
        });
    reg(r, m5, K);
    reg(r, fann(AX, AY, AB), K);
    reg(r, fann(SA | AX, SN, SS, SA | AY), K);
    reg(r, fann(SA | AB | BS, SP | elem<0, PR>("first"), SB | bx(), SA | AB | BK), K);
    reg(r, fann(SN, SR | elem<0, BA>("#0"), SS, SR | elem<1, BA>("#1"), SA), K);
}
#else
void total_4(fns& r)
{
    reg2(r, zip2(AX, BS), K);
    reg2(r, zip2(AB, AB | BK), K);
    reg2(r, zip2p(AY, BK), K);
    reg2(r, zip2(ident<A>(), bx()), K);
    reg2(r, SP | zip2p(AB | BS, BK), K);
    reg2(r, fan2(SA, SP | elem<1, PR>("second")) | zip2(AB, BS), K);
    reg(r, zip2(fan2(AX, AB), ident<int>()), K);
    reg2(r, zip2(gvb(), gv()), K);
    reg2(r, fan2(AY, gvb() | gv()), K);
    reg(r, zip2(erased(AX), erased(bx())), K);
    reg(r, zipn(AX, BS, bx()), K);
    reg(r, zipn(AB, ident<int>(), BK, AY), K);
    reg(r, zipn(AB | BS, gv(), gvb(), BK, AX), K);
}
#endif
} // namespace le
