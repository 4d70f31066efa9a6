// Lenses against plain getter/setter functions: C16 (total), C17 (partial).
// A lens is a compile-time composition; values and the chosen lens are random.
#pragma once
#include "common.hpp"

#include <array>
#include <lager/lens.hpp>
#include <lager/lenses.hpp>
#include <lager/lenses/at.hpp>
#include <lager/lenses/at_or.hpp>
#include <lager/lenses/attr.hpp>
#include <lager/lenses/optional.hpp>
#include <lager/lenses/tuple.hpp>
#include <lager/lenses/unbox.hpp>
#include <lager/lenses/variant.hpp>
#include <optional>
#include <variant>

#include <immer/array.hpp>
#include <immer/box.hpp>
#include <immer/flex_vector.hpp>
#include <immer/map.hpp>
#include <immer/table.hpp>
#include <immer/vector.hpp>

namespace le {

using vp::Case;
using vp::Tracked;

struct B
{
    std::string s;
    Tracked k;
    int n = 0;
    bool operator==(const B& o) const
    {
        return s == o.s && k == o.k && n == o.n;
    }
};
struct Row
{
    int id = 0;
    std::string v;
    bool operator==(const Row& o) const { return id == o.id && v == o.v; }
};
using BV  = std::vector<B>;
using BM  = std::map<std::string, B>;
using BA  = std::array<B, 3>;
using IV  = immer::vector<B>;
using IF  = immer::flex_vector<B>;
using IA  = immer::array<B>;
using IM  = immer::map<std::string, B>;
using IT  = immer::table<Row>;
using OB  = std::optional<B>;
using VV  = std::variant<int, B, std::string>;
struct A
{
    int x = 0;
    std::string y;
    B b;
    bool operator==(const A& o) const
    {
        return x == o.x && y == o.y && b == o.b;
    }
};
using AV = std::vector<A>;
using OA = std::optional<A>;
using TT = std::tuple<int, A, std::string>;
using PR = std::pair<A, B>;
struct S
{
    A a;
    int n = 0;
    std::string s;
    TT t;
    PR pr;
    BA ar;
    immer::box<A> bx;
    bool operator==(const S& o) const
    {
        return a == o.a && n == o.n && s == o.s && t == o.t && pr == o.pr &&
               ar == o.ar && bx == o.bx;
    }
};
// what may be missing
struct Q
{
    BV v;
    BM m;
    IV iv;
    IM im;
    IT it;
    OB o;
    OA oa;
    VV w;
    AV av;
    bool operator==(const Q& o2) const
    {
        return v == o2.v && m == o2.m && iv == o2.iv && im == o2.im &&
               it == o2.it && o == o2.o && oa == o2.oa && w == o2.w &&
               av == o2.av;
    }
};

inline std::string str(int x) { return std::to_string(x); }
inline std::string str(const std::string& x) { return "'" + x + "'"; }
inline std::string str(const Tracked& x) { return std::to_string(x.get()); }
inline std::string str(const B& b)
{
    return "B{" + b.s + "," + str(b.k) + "," + str(b.n) + "}";
}
inline std::string str(const Row& b) { return "R" + str(b.id) + ":" + b.v; }
inline std::string str(const A& a)
{
    return "A{" + str(a.x) + "," + a.y + "," + str(a.b) + "}";
}
template <typename T>
std::string str(const std::optional<T>& x);
template <typename T>
std::string str(const immer::box<T>& x);
template <typename... Ts>
std::string str(const std::tuple<Ts...>& x);
template <typename T, typename U>
std::string str(const std::pair<T, U>& x);
template <typename... Ts>
std::string str(const std::variant<Ts...>& x);
template <typename C>
auto seq(const C& c)
{
    std::string r = "[";
    for (auto& x : c)
        r += str(x) + " ";
    return r + "]";
}
inline std::string str(const BV& c) { return seq(c); }
inline std::string str(const AV& c) { return seq(c); }
inline std::string str(const BA& c) { return seq(c); }
inline std::string str(const IV& c) { return seq(c); }
inline std::string str(const IF& c) { return seq(c); }
inline std::string str(const IA& c) { return seq(c); }
inline std::string str(const BM& c) { return seq(c); }
inline std::string str(const IM& c)
{
    return seq(std::map<std::string, B>(c.begin(), c.end()));
}
inline std::string str(const IT& c)
{
    std::map<int, Row> m;
    for (auto& r : c)
        m[r.id] = r;
    return seq(m);
}
template <typename T>
std::string str(const std::optional<T>& x)
{
    return x ? "some " + str(*x) : "none";
}
template <typename T>
std::string str(const immer::box<T>& x)
{
    return "box " + str(x.get());
}
template <typename... Ts>
std::string str(const std::tuple<Ts...>& x)
{
    std::string r = "<";
    std::apply([&](auto&... y) { ((r += str(y) + " "), ...); }, x);
    return r + ">";
}
template <typename T, typename U>
std::string str(const std::pair<T, U>& x)
{
    return "(" + str(x.first) + " " + str(x.second) + ")";
}
template <typename... Ts>
std::string str(const std::variant<Ts...>& x)
{
    return "v" + std::to_string(x.index()) +
           std::visit([](auto& y) { return str(y); }, x);
}
inline std::string str(const S& s)
{
    return "S{" + str(s.a) + str(s.n) + str(s.s) + str(s.t) + str(s.pr) +
           str(s.ar) + str(s.bx) + "}";
}
inline std::string str(const Q& q)
{
    return "Q{" + str(q.v) + str(q.m) + str(q.iv) + str(q.im) + str(q.it) +
           str(q.o) + str(q.oa) + str(q.w) + str(q.av) + "}";
}

inline std::string word(vp::Rng& g)
{
    // long enough for a move to be noticed
    return "a-text-that-is-not-short-" + std::to_string(g.below(50));
}

template <typename T>
struct gen;
template <typename T>
T any(vp::Rng& g)
{
    return gen<T>{}(g);
}
template <>
struct gen<int>
{
    int operator()(vp::Rng& g) { return g.range(-20, 20); }
};
template <>
struct gen<std::string>
{
    std::string operator()(vp::Rng& g) { return word(g); }
};
template <>
struct gen<Tracked>
{
    Tracked operator()(vp::Rng& g) { return Tracked{(int) g.below(90)}; }
};
template <>
struct gen<B>
{
    B operator()(vp::Rng& g) { return {word(g), any<Tracked>(g), any<int>(g)}; }
};
template <>
struct gen<A>
{
    A operator()(vp::Rng& g) { return {any<int>(g), word(g), any<B>(g)}; }
};
template <>
struct gen<Row>
{
    Row operator()(vp::Rng& g) { return {(int) g.below(4), word(g)}; }
};
template <typename T>
struct gen<std::optional<T>>
{
    std::optional<T> operator()(vp::Rng& g)
    {
        if (g.chance(35))
            return std::nullopt;
        return any<T>(g);
    }
};
template <typename... Ts>
struct gen<std::tuple<Ts...>>
{
    std::tuple<Ts...> operator()(vp::Rng& g)
    {
        return std::tuple<Ts...>{any<Ts>(g)...};
    }
};
template <typename T, typename U>
struct gen<std::pair<T, U>>
{
    std::pair<T, U> operator()(vp::Rng& g)
    {
        auto t = any<T>(g);
        return {std::move(t), any<U>(g)};
    }
};
template <typename T>
struct gen<immer::box<T>>
{
    immer::box<T> operator()(vp::Rng& g) { return any<T>(g); }
};
template <>
struct gen<BA>
{
    BA operator()(vp::Rng& g) { return {any<B>(g), any<B>(g), any<B>(g)}; }
};
template <typename C>
struct gen_seq
{
    C operator()(vp::Rng& g)
    {
        std::vector<typename C::value_type> v;
        auto n = g.below(4);
        while (n--)
            v.push_back(any<typename C::value_type>(g));
        return C(v.begin(), v.end());
    }
};
template <typename T>
struct gen<std::vector<T>> : gen_seq<std::vector<T>>
{};
template <>
struct gen<IV> : gen_seq<IV>
{};
template <>
struct gen<IF> : gen_seq<IF>
{};
template <>
struct gen<IA> : gen_seq<IA>
{};
inline const char* const keys[] = {"a", "b", "c"};
template <>
struct gen<BM>
{
    BM operator()(vp::Rng& g)
    {
        BM m;
        for (auto k : keys)
            if (g.chance(50))
                m[k] = any<B>(g);
        return m;
    }
};
template <>
struct gen<IM>
{
    IM operator()(vp::Rng& g)
    {
        IM m;
        for (auto k : keys)
            if (g.chance(50))
                m = m.set(k, any<B>(g));
        return m;
    }
};
template <>
struct gen<IT>
{
    IT operator()(vp::Rng& g)
    {
        IT t;
        for (int i = 0; i < 4; ++i)
            if (g.chance(50))
                t = t.insert(Row{i, word(g)});
        return t;
    }
};
template <>
struct gen<VV>
{
    VV operator()(vp::Rng& g)
    {
        switch (g.below(3)) {
        case 0:
            return any<int>(g);
        case 1:
            return any<B>(g);
        default:
            return word(g);
        }
    }
};
template <>
struct gen<S>
{
    S operator()(vp::Rng& g)
    {
        return {any<A>(g),
                any<int>(g),
                word(g),
                any<TT>(g),
                any<PR>(g),
                any<BA>(g),
                any<immer::box<A>>(g)};
    }
};
template <>
struct gen<Q>
{
    Q operator()(vp::Rng& g)
    {
        return {any<BV>(g),
                any<BM>(g),
                any<IV>(g),
                any<IM>(g),
                any<IT>(g),
                any<OB>(g),
                any<OA>(g),
                any<VV>(g),
                any<AV>(g)};
    }
};

// ---------------------------------------------------------------- lenses

// A lens with what it must do.
template <typename W_, typename P_, typename L>
struct Edge
{
    using W = W_;
    using P = P_;
    std::string name;
    L lens;
    std::function<P(const W&)> get;
    std::function<W(W, const P&)> set;
    // the value is there: all laws hold
    std::function<bool(const W&)> there = [](const W&) { return true; };
    // makes any part one that may be put there
    std::function<P(P)> fit = [](P p) { return p; };
};

template <typename W, typename P, typename L, typename Get, typename Set>
Edge<W, P, std::decay_t<L>> edge(std::string name, L&& l, Get g, Set s)
{
    return {std::move(name), std::forward<L>(l), g, s};
}
template <typename W,
          typename P,
          typename L,
          typename Get,
          typename Set,
          typename There>
Edge<W, P, std::decay_t<L>>
edge(std::string name, L&& l, Get g, Set s, There t)
{
    return {std::move(name), std::forward<L>(l), g, s, t};
}

template <typename W, typename M, typename L1, typename P, typename L2>
auto operator|(Edge<W, M, L1> a, Edge<M, P, L2> b)
{
    auto oracle_get = [g1 = a.get, g2 = b.get](const W& w) -> P {
        return g2(g1(w));
    };
    auto oracle_set =
        [g1 = a.get, s1 = a.set, s2 = b.set](W w, const P& p) -> W {
        auto m = s2(g1(w), p);
        return s1(std::move(w), m);
    };
    auto there = [g1 = a.get, t1 = a.there, t2 = b.there](const W& w) {
        return t1(w) && t2(g1(w));
    };
    auto r = edge<W, P>(a.name + "|" + b.name,
                        zug::comp(a.lens, b.lens),
                        oracle_get,
                        oracle_set,
                        there);
    r.fit = b.fit;
    return r;
}

template <typename W, typename P, typename L>
auto erased(Edge<W, P, L> e)
{
    auto r = edge<W, P>("erased(" + e.name + ")",
                        lager::lens<W, P>{e.lens},
                        e.get,
                        e.set,
                        e.there);
    r.fit = e.fit;
    return r;
}

template <typename W, typename P>
auto attr(std::string name, P W::*m)
{
    return edge<W, P>(
        "." + name,
        lager::lenses::attr(m),
        [m](const W& w) { return w.*m; },
        [m](W w, const P& p) {
            w.*m = p;
            return w;
        });
}

template <typename W, typename P, typename L>
void check_lens(Case& c, const Edge<W, P, L>& e, const char* key)
{
    auto& g      = c.rng;
    const W w0   = any<W>(g);
    const P p0   = e.fit(any<P>(g));
    const P p1   = e.fit(any<P>(g));
    auto was     = str(w0);
    auto& l      = e.lens;
    c.note(e.name, " on ", was, " with ", str(p0));
    auto bad = [&](const char* what, const std::string& got, auto&& want) {
        c.fail(std::string(key) + what,
               e.name,
               " on ",
               was,
               ": ",
               got,
               " instead of ",
               want,
               " (value ",
               str(p0),
               ")");
    };
    auto same = [&](const char* what, const std::string& got, auto&& want) {
        vp::count("lens_evaluations");
        if (got != want)
            bad(what, got, want);
    };
    bool there = e.there(w0);
    vp::count(there ? "focus_exists" : "focus_missing");
    auto v = str(e.get(w0));
    auto s = str(e.set(w0, p0));
    auto kept = [&](const char* what, const W& w) {
        if (str(w) != was)
            bad(what, str(w), was);
    };
    // view
    {
        P x = lager::view(l, w0);
        same("view_const", str(x), v);
        W w = w0;
        P y = lager::view(l, w);
        same("view_lvalue", str(y), v);
        kept("lvalue_modified", w);
        P z = lager::view(l, std::move(w));
        same("view_rvalue", str(z), v);
        P q = lager::view(l, W(w0));
        same("view_temporary", str(q), v);
    }
    // set
    {
        W r1 = lager::set(l, w0, p0);
        same("set_const", str(r1), s);
        W w  = w0;
        P p  = p0;
        W r2 = lager::set(l, w, p);
        same("set_lvalue", str(r2), s);
        kept("lvalue_modified", w);
        if (str(p) != str(p0))
            bad("part_modified", str(p), str(p0));
        W r3 = lager::set(l, std::move(w), p);
        same("set_rvalue", str(r3), s);
        if (str(p) != str(p0))
            bad("part_modified", str(p), str(p0));
        W r4 = lager::set(l, w0, std::move(p));
        same("set_moved_part", str(r4), s);
        W w2 = w0;
        W r5 = lager::set(l, std::move(w2), P(p0));
        same("set_both_moved", str(r5), s);
        // the result replaces the whole
        W w3 = w0;
        w3   = lager::set(l, std::move(w3), p0);
        same("set_in_place", str(w3), s);
    }
    // over
    {
        auto pick = g.below(3);
        auto fn   = [&](const P& x) -> P {
            if (pick == 0)
                return p1;
            return pick == 1 ? x : (str(x) < str(p1) ? p1 : x);
        };
        auto o = str(e.set(w0, fn(e.get(w0))));
        W r1   = lager::over(l, w0, [&](const P& x) -> P { return fn(x); });
        same("over_const", str(r1), o);
        W w  = w0;
        W r2 = lager::over(l, w, [&](P x) -> P { return fn(x); });
        same("over_lvalue", str(r2), o);
        kept("lvalue_modified", w);
        W r3 = lager::over(l, std::move(w), [&](P x) -> P {
            auto y = fn(x);
            return y;
        });
        same("over_rvalue", str(r3), o);
        W w2 = w0;
        W r4 = lager::over(
            l, std::move(w2), [&](auto&& x) -> P { return fn(P(LAGER_FWD(x))); });
        same("over_generic", str(r4), o);
    }
    // the laws, in terms of the library alone
    {
        W put    = lager::set(l, w0, p0);
        P again  = lager::view(l, put);
        // an absent or defaulting focus keeps what it is
        if (there && str(e.get(e.set(w0, p0))) == str(p0))
            same("law_put_get", str(again), str(p0));
        P cur = lager::view(l, w0);
        W r   = lager::set(l, w0, cur);
        if (there)
            same("law_get_put", str(r), was);
        W once  = lager::set(l, w0, p1);
        W twice = lager::set(l, std::move(once), p0);
        auto want = str(e.set(e.set(w0, p1), p0));
        same("law_put_put", str(twice), want);
    }
    c.nontrivial = true;
}

using fns = std::vector<std::function<void(Case&)>>;

template <typename W, typename P, typename L>
void reg(fns& r, Edge<W, P, L> e, const char* key)
{
    r.push_back([e, key](Case& c) { check_lens(c, e, key); });
}
template <typename W, typename P, typename L>
void reg2(fns& r, Edge<W, P, L> e, const char* key)
{
    reg(r, e, key);
    reg(r, erased(e), key);
}

// the lens itself is random: a key, a default
template <typename Make>
void regk(fns& r, Make make, const char* key)
{
    r.push_back([make, key](Case& c) {
        auto e = make(c.rng);
        check_lens(c, e, key);
        check_lens(c, erased(e), key);
    });
}

} // namespace le
