// Random graphs of roots, derived readers and cursors, against an evaluator of
// the same expressions over shadow root values: C07 (transactions), C08
// (derived values), C09 (notification), C10 (writes), C11 (automatic, reentrant)
#pragma once
#include "common.hpp"

#include <lager/commit.hpp>
#include <lager/cursor.hpp>
#include <lager/lenses.hpp>
#include <lager/lenses/at.hpp>
#include <lager/lenses/at_or.hpp>
#include <lager/lenses/attr.hpp>
#include <lager/lenses/optional.hpp>
#include <lager/lenses/tuple.hpp>
#include <lager/reader.hpp>
#include <lager/state.hpp>
#include <lager/with.hpp>
#include <lager/writer.hpp>

#include <cmath>
#include <optional>
#include <zug/transducer/filter.hpp>
#include <zug/transducer/map.hpp>

namespace ge {

using vp::Case;
using vp::Tracked;

inline int wrap(long x) { return (int) (((x % 100003) + 100003) % 100003); }

// what is moved from is spoilt
struct P
{
    int a = 0, b = 0;
    P() = default;
    P(int x, int y)
        : a{x}
        , b{y}
    {}
    P(const P&) = default;
    P(P&& o) noexcept
        : a{std::exchange(o.a, -55555)}
        , b{std::exchange(o.b, -55556)}
    {}
    P& operator=(const P&) = default;
    P& operator=(P&& o) noexcept
    {
        a = std::exchange(o.a, -55555);
        b = std::exchange(o.b, -55556);
        return *this;
    }
    friend bool operator==(const P& x, const P& y)
    {
        return x.a == y.a && x.b == y.b;
    }
    friend bool operator!=(const P& x, const P& y) { return !(x == y); }
};
struct R
{
    P p;
    int n = 0;
    std::vector<int> v;
    std::map<std::string, int> m;
    std::optional<P> o;
    friend bool operator==(const R& x, const R& y)
    {
        return x.p == y.p && x.n == y.n && x.v == y.v && x.m == y.m &&
               x.o == y.o;
    }
    friend bool operator!=(const R& x, const R& y) { return !(x == y); }
};
using D  = double;
// has no equality: every write counts as a change
struct NC
{
    int v = 0;
};
using OI = std::optional<int>;
using TI = std::tuple<int, int>;

inline std::string str(int x) { return std::to_string(x); }
inline std::string str(const P& p)
{
    return "P(" + str(p.a) + "," + str(p.b) + ")";
}
inline std::string str(const NC& x) { return "NC" + str(x.v); }
inline std::string str(D x)
{
    char b[40];
    std::snprintf(b, sizeof b, "%.17g", x);
    return b;
}
inline std::string str(const OI& x) { return x ? "some " + str(*x) : "none"; }
inline std::string str(const TI& x)
{
    return "<" + str(std::get<0>(x)) + "," + str(std::get<1>(x)) + ">";
}
inline std::string str(const R& r)
{
    std::string s = "R{" + str(r.p) + " n=" + str(r.n) + " v=" + vp::show(r.v);
    for (auto& kv : r.m)
        s += " " + kv.first + "=" + str(kv.second);
    return s + " o=" + (r.o ? str(*r.o) : "none") + "}";
}

struct FilterShadow
{
    virtual ~FilterShadow()   = default;
    virtual void step()       = 0;
    virtual void save()       = 0;
    virtual void restore()    = 0;
    virtual std::string str() = 0;
};

// A write to a combination writes to each of its parts, in no particular
// order.  Writes whose outcome depends on that order are not judged (not made).
inline bool& reverse_parts()
{
    static bool r = false;
    return r;
}
template <typename F1, typename F2>
void both(F1&& f1, F2&& f2)
{
    if (reverse_parts()) {
        f2();
        f1();
    } else {
        f1();
        f2();
    }
}

// The shadow of the roots
struct Env
{
    R r;
    int i = 0;
    P p;
};

enum { root_r = 1, root_i = 2, root_p = 4 };

struct Graph;

struct WatchRec
{
    std::string name;
    int calls  = 0;    // in this transaction
    int total  = 0;
    int active = 0;    // being called right now
    bool fresh = false; // added during this transaction's notification
    bool writes = false;
    std::function<std::string()> expected; // of the node, in the visible env
    std::string last;                      // what the last call carried
    std::string before;                    // value when the transaction began
};

struct NodeBase
{
    std::string name;
    int roots    = 0;
    bool linear  = true; // no two ways from a root to it
    bool strict  = true; // a chain of plain maps and lenses
    int depth    = 0;
    virtual ~NodeBase()                                 = default;
    virtual std::string shown()                         = 0; // get()
    virtual std::string expected(const Env&)            = 0;
    virtual bool has_cursor() const                     = 0;
    virtual std::vector<std::shared_ptr<WatchRec>>& watchers() = 0;
    virtual void drop_watcher(std::size_t)              = 0;
};

template <typename T>
struct Node : NodeBase
{
    lager::reader<T> r;
    std::optional<lager::cursor<T>> c;
    std::function<T(const Env&)> eval;
    // applies a write to the pending roots; calls step() after each
    // elementary write
    std::function<void(Env&, const T&, const std::function<void()>&)> put;
    bool composite = false; // a write makes several elementary writes

    struct Obj
    {
        std::unique_ptr<lager::reader<T>> rd;
        std::unique_ptr<lager::cursor<T>> cu;
        std::vector<std::shared_ptr<WatchRec>> recs;
    };
    std::vector<std::unique_ptr<Obj>> objs;
    std::vector<std::shared_ptr<WatchRec>> all;

    std::string shown() override
    {
        auto a = str(r.get());
        if (c) {
            auto b = str(c->get());
            if (a != b)
                return a + " but the cursor " + b;
        }
        return a;
    }
    std::string expected(const Env& e) override { return str(eval(e)); }
    bool has_cursor() const override { return bool(c); }
    std::vector<std::shared_ptr<WatchRec>>& watchers() override { return all; }
    void drop_watcher(std::size_t k) override
    {
        // drops the whole object
        for (auto& rec : objs[k]->recs)
            all.erase(std::find(all.begin(), all.end(), rec));
        objs.erase(objs.begin() + k);
    }
    bool any_active(std::size_t k) const
    {
        for (auto& r : objs[k]->recs)
            if (r->active)
                return true;
        return false;
    }
};

template <typename T>
T small(vp::Rng& g);
template <>
inline int small<int>(vp::Rng& g)
{
    return g.range(0, 12);
}
template <>
inline P small<P>(vp::Rng& g)
{
    return {(int) g.range(0, 4), (int) g.range(0, 4)};
}
template <>
inline D small<D>(vp::Rng& g)
{
    return g.range(0, 12) * 1e-10;
}
template <>
inline NC small<NC>(vp::Rng& g)
{
    return {(int) g.range(0, 12)};
}
template <>
inline OI small<OI>(vp::Rng& g)
{
    if (g.chance(30))
        return {};
    return small<int>(g);
}
template <>
inline TI small<TI>(vp::Rng& g)
{
    return TI{small<int>(g), small<int>(g)};
}
template <>
inline R small<R>(vp::Rng& g)
{
    R r;
    r.p    = small<P>(g);
    r.n    = small<int>(g);
    auto n = g.below(4);
    while (n--)
        r.v.push_back(small<int>(g));
    for (auto k : {"a", "b", "c"})
        if (g.chance(50))
            r.m[k] = small<int>(g);
    if (g.chance(50))
        r.o = small<P>(g);
    return r;
}

template <typename T>
using NodeP = std::shared_ptr<Node<T>>;

template <typename Tag>
struct G
{
    static constexpr bool automatic =
        std::is_same_v<Tag, lager::automatic_tag>;

    Case& c;
    lager::state<R, Tag> sr;
    lager::state<int, Tag> si;
    lager::state<P, Tag> sp;
    Env visible, pending;
    int written     = 0; // roots written since the last commit
    int elementary  = 0; // number of elementary writes since then
    bool in_commit  = false;
    bool mixed_step = false; // in a composite automatic write
    int depth       = 0;
    int reentrant_budget = 0;
    bool plain_write = false; // an automatic write in one step, none nested
    int serial      = 0;
    std::vector<NodeP<int>> ints;
    std::vector<NodeP<P>> ps;
    std::vector<NodeP<R>> rs;
    std::vector<NodeP<OI>> ois;
    std::vector<NodeP<TI>> tis;
    std::vector<NodeP<D>> ds;
    std::vector<NodeP<NC>> ncs;
    std::vector<std::shared_ptr<FilterShadow>> filters;

    G(Case& cc, Env e)
        : c(cc)
        , sr{e.r}
        , si{e.i}
        , sp{e.p}
        , visible(e)
        , pending(e)
    {}

    vp::Rng& g() { return c.rng; }

    template <typename F>
    void each(F&& f)
    {
        for (auto& n : ints)
            f(*n);
        for (auto& n : ps)
            f(*n);
        for (auto& n : rs)
            f(*n);
        for (auto& n : ois)
            f(*n);
        for (auto& n : tis)
            f(*n);
        for (auto& n : ds)
            f(*n);
        for (auto& n : ncs)
            f(*n);
    }

    std::vector<NodeP<int>>& list(int*) { return ints; }
    std::vector<NodeP<P>>& list(P*) { return ps; }
    std::vector<NodeP<R>>& list(R*) { return rs; }
    std::vector<NodeP<OI>>& list(OI*) { return ois; }
    std::vector<NodeP<TI>>& list(TI*) { return tis; }
    std::vector<NodeP<D>>& list(D*) { return ds; }
    std::vector<NodeP<NC>>& list(NC*) { return ncs; }
    template <typename T>
    std::vector<NodeP<T>>& list()
    {
        return list(static_cast<T*>(nullptr));
    }

    template <typename T>
    NodeP<T> add(NodeP<T> n, const std::string& what)
    {
        n->name = "n" + std::to_string(++serial) + ":" + what;
        c.note("make ", n->name, n->c ? " cursor" : " reader");
        vp::count(n->c ? "cursors_made" : "readers_made");
        if (!n->linear)
            vp::count("diamonds_made");
        // right from the start
        auto s = n->shown(), e = n->expected(visible);
        if (s != e)
            c.fail("C08.initial",
                   n->name,
                   " shows ",
                   s,
                   " when created instead of ",
                   e);
        list<T>().push_back(n);
        return n;
    }

    template <typename T, typename Src>
    NodeP<T> node_from(std::initializer_list<const NodeBase*> parents)
    {
        auto n = std::make_shared<Node<T>>();
        int seen = 0;
        for (auto p : parents) {
            if (!p->linear || (seen & p->roots))
                n->linear = false;
            if (!p->strict)
                n->strict = false;
            seen |= p->roots;
            n->depth = std::max(n->depth, p->depth + 1);
        }
        n->roots = seen;
        if (parents.size() > 1)
            n->strict = false;
        return n;
    }

    // fills in the handles from whatever expression or cursor x is
    template <typename T, typename X>
    void as_reader(Node<T>& n, X&& x)
    {
        n.r = lager::reader<T>{std::forward<X>(x)};
    }
    template <typename T, typename X>
    void as_cursor(Node<T>& n, X&& x)
    {
        n.c.emplace(std::forward<X>(x));
        n.r = lager::reader<T>{*n.c};
    }

    void make_roots()
    {
        {
            auto n   = std::make_shared<Node<R>>();
            n->roots = root_r;
            n->eval  = [](const Env& e) { return e.r; };
            n->put   = [](Env& e, const R& v, auto& step) {
                e.r = v;
                step();
            };
            as_cursor(*n, sr);
            add<R>(n, "root");
        }
        {
            auto n   = std::make_shared<Node<int>>();
            n->roots = root_i;
            n->eval  = [](const Env& e) { return e.i; };
            n->put   = [](Env& e, const int& v, auto& step) {
                e.i = v;
                step();
            };
            as_cursor(*n, si);
            add<int>(n, "root");
        }
        {
            auto n   = std::make_shared<Node<P>>();
            n->roots = root_p;
            n->eval  = [](const Env& e) { return e.p; };
            n->put   = [](Env& e, const P& v, auto& step) {
                e.p = v;
                step();
            };
            as_cursor(*n, sp);
            add<P>(n, "root");
        }
    }

    // a derived node, by any lens
    template <typename T, typename S, typename Lens, typename Get, typename Set>
    NodeP<T> lensed(
        NodeP<S> s, Lens lens, Get get, Set set, const std::string& what)
    {
        auto n  = node_from<T, S>({s.get()});
        n->eval = [s, get](const Env& e) -> T { return get(s->eval(e)); };
        bool cur = s->c && g().chance(80);
        if (cur) {
            n->put = [s, set](Env& e, const T& v, auto& step) {
                s->put(e, set(s->eval(e), v), step);
            };
            n->composite = s->composite;
            switch (g().below(3)) {
            case 0:
                as_cursor(*n, (*s->c)[lens]);
                break;
            case 1:
                as_cursor(*n, s->c->zoom(lens));
                break;
            default:
                as_cursor(*n, lager::with(*s->c)[lens]);
            }
        } else {
            switch (g().below(3)) {
            case 0:
                as_reader(*n, s->r[lens]);
                break;
            case 1:
                as_reader(*n, s->r.zoom(lens));
                break;
            default:
                as_reader(*n, lager::with(s->r).zoom(lens));
            }
        }
        return add<T>(n, what + "(" + s->name + ")");
    }

    template <typename T, typename S, typename Member>
    NodeP<T> attr(NodeP<S> s, Member m, const std::string& what)
    {
        auto get = [m](const S& x) -> T { return x.*m; };
        auto set = [m](S x, const T& v) {
            x.*m = v;
            return x;
        };
        auto n  = node_from<T, S>({s.get()});
        n->eval = [s, get](const Env& e) -> T { return get(s->eval(e)); };
        if (s->c && g().chance(85)) {
            n->put = [s, set](Env& e, const T& v, auto& step) {
                s->put(e, set(s->eval(e), v), step);
            };
            n->composite = s->composite;
            if (g().chance(50))
                as_cursor(*n, (*s->c)[m]);
            else
                as_cursor(*n, s->c->zoom(lager::lenses::attr(m)));
        } else {
            if (g().chance(50))
                as_reader(*n, s->r[m]);
            else
                as_reader(*n, lager::with(s->r)[m]);
        }
        return add<T>(n, what + "(" + s->name + ")");
    }

    template <typename T, typename S, typename F>
    NodeP<T> mapped(NodeP<S> s, F f, const std::string& what)
    {
        auto n  = node_from<T, S>({s.get()});
        n->eval = [s, f](const Env& e) -> T { return f(s->eval(e)); };
        auto counted = [f](const S& x) {
            vp::count("map_calls");
            return f(x);
        };
        if (s->c && g().chance(40))
            as_reader(*n, s->c->map(counted));
        else if (g().chance(50))
            as_reader(*n, s->r.map(counted));
        else
            as_reader(*n, lager::with(s->r).map(counted));
        return add<T>(n, what + "(" + s->name + ")");
    }

    // a filtered reader shows the last value that passed
    template <typename T, typename Pred>
    NodeP<T> filtered(NodeP<T> s, Pred pred, const std::string& what)
    {
        struct FS : FilterShadow
        {
            G* g;
            std::weak_ptr<NodeBase> owner;
            NodeP<T> s;
            Pred pred;
            T last;
            FS(G* g_, NodeP<T> s_, Pred p_)
                : g{g_}
                , s{s_}
                , pred{p_}
                , last{}
            {
                step();
            }
            void step() override
            {
                auto v = s->eval(g->visible);
                if (pred(v))
                    last = v;
            }
            T saved{};
            void save() override { saved = last; }
            void restore() override { last = saved; }
            std::string str() override { return ge::str(last); }
        };
        auto fs = std::make_shared<FS>(this, s, pred);
        auto n  = node_from<T, T>({s.get()});
        n->eval = [fs](const Env&) -> T { return fs->last; };
        if (g().chance(50))
            as_reader(*n, s->r.filter(pred));
        else
            as_reader(*n, lager::with(s->r).filter(pred));
        filters.push_back(fs);
        return add<T>(n, what + "(" + s->name + ")");
    }

    template <typename S>
    NodeP<S> any(bool cursor = false)
    {
        auto& l = list<S>();
        for (int i = 0; i < 8; ++i) {
            if (l.empty())
                return nullptr;
            auto n = l[g().below(l.size())];
            if (n->depth < 7 && (!cursor || n->c))
                return n;
        }
        return nullptr;
    }

    void derive()
    {
        std::size_t total = 0;
        each([&](auto&) { ++total; });
        if (total > 28)
            return;
        int k   = g().range(1, 9);
        auto ks = std::to_string(k);
        switch (g().below(37)) {
        case 27:
        case 28:
            // to a tiny double, one or both ways
            if (auto s = any<int>()) {
                if (!s->c || g().chance(40)) {
                    mapped<D, int>(
                        s, [](int x) { return x * 1e-10; }, "tiny");
                    break;
                }
                auto n  = node_from<D, int>({s.get()});
                n->eval = [s](const Env& e) { return s->eval(e) * 1e-10; };
                n->put  = [s](Env& e, const D& v, auto& step) {
                    s->put(e, (int) std::lround(v * 1e10), step);
                };
                n->composite = s->composite;
                as_cursor(*n,
                          s->c->xform(zug::map([](int x) { return x * 1e-10; }),
                                      zug::map([](D x) {
                                          return (int) std::lround(x * 1e10);
                                      })));
                add<D>(n, "tinyrw(" + s->name + ")");
            }
            break;
        case 29:
            if (auto s = any<D>())
                mapped<D, D>(
                    s, [k](D x) { return x * k; }, "*" + ks);
            break;
        case 30:
            if (auto s = any<D>())
                mapped<int, D>(
                    s,
                    [](D x) { return wrap(std::lround(x * 1e10)); },
                    "round");
            break;
        case 31:
            // a type without equality
            if (auto s = any<int>()) {
                NodeP<NC> n;
                if (!s->c || g().chance(40)) {
                    n = mapped<NC, int>(
                        s, [](int x) { return NC{x}; }, "nc");
                } else {
                    n       = node_from<NC, int>({s.get()});
                    n->eval = [s](const Env& e) { return NC{s->eval(e)}; };
                    n->put  = [s](Env& e, const NC& v, auto& step) {
                        s->put(e, v.v, step);
                    };
                    n->composite = s->composite;
                    as_cursor(
                        *n,
                        s->c->xform(zug::map([](int x) { return NC{x}; }),
                                    zug::map([](NC x) { return x.v; })));
                    add<NC>(n, "ncrw(" + s->name + ")");
                }
                n->strict = false;
            }
            break;
        case 32:
            if (auto s = any<NC>()) {
                if (s->c && g().chance(60))
                    attr<int, NC>(s, &NC::v, ".v");
                else
                    mapped<int, NC>(
                        s, [k](NC x) { return x.v / k; }, "nc/" + ks);
            }
            break;
        case 0:
            if (auto s = any<R>())
                attr<int, R>(s, &R::n, ".n");
            break;
        case 1:
            if (auto s = any<R>())
                attr<P, R>(s, &R::p, ".p");
            break;
        case 2:
            if (auto s = any<P>())
                attr<int, P>(s, &P::a, ".a");
            break;
        case 3:
            if (auto s = any<P>())
                attr<int, P>(s, &P::b, ".b");
            break;
        case 4:
            if (auto s = any<int>())
                mapped<int, int>(
                    s, [k](int x) { return wrap(x + k); }, "+" + ks);
            break;
        case 5:
            if (auto s = any<int>())
                mapped<int, int>(
                    s, [k](int x) { return x / (k + 1); }, "/" + ks);
            break;
        case 6:
            if (auto s = any<int>())
                mapped<int, int>(
                    s, [k](int x) { return x % (k + 1); }, "%" + ks);
            break;
        case 7:
            if (auto s = any<P>())
                mapped<int, P>(
                    s, [k](const P& x) { return wrap(x.a * k + x.b); }, "dot");
            break;
        case 8:
            if (auto s = any<R>())
                mapped<int, R>(
                    s,
                    [](const R& x) {
                        long t = x.n + x.p.a * 3 + x.p.b * 5;
                        for (auto v : x.v)
                            t = t * 7 + v;
                        for (auto& kv : x.m)
                            t += kv.second * 11;
                        return wrap(t);
                    },
                    "digest");
            break;
        case 9:
            if (auto s = any<TI>())
                mapped<int, TI>(
                    s,
                    [k](const TI& x) {
                        return wrap((long) std::get<0>(x) * k + std::get<1>(x));
                    },
                    "tdot");
            break;
        case 10:
        case 11: {
            // with(a, b).map(...)
            auto a = any<int>();
            auto b = any<int>();
            if (!a || !b || a == b)
                break;
            auto n   = node_from<int, int>({a.get(), b.get()});
            n->eval  = [a, b, k](const Env& e) {
                return wrap((long) a->eval(e) * k + b->eval(e));
            };
            auto f = [k](int x, int y) {
                vp::count("map_calls");
                return wrap((long) x * k + y);
            };
            if (g().chance(50))
                as_reader(*n, lager::with(a->r, b->r).map(f));
            else
                as_reader(*n,
                          lager::with(a->r, b->r)
                              .make()
                              .map([f](const TI& t) { return std::apply(f, t); }));
            add<int>(n, "lin(" + a->name + "," + b->name + ")");
            break;
        }
        case 12: {
            // with(a, b): a combination; a cursor if both are
            auto a = any<int>();
            auto b = any<int>();
            if (!a || !b || a == b)
                break;
            auto n  = node_from<TI, int>({a.get(), b.get()});
            n->eval = [a, b](const Env& e) {
                return TI{a->eval(e), b->eval(e)};
            };
            if (a->c && b->c) {
                n->put = [a, b](Env& e, const TI& v, auto& step) {
                    both([&] { a->put(e, std::get<0>(v), step); },
                         [&] { b->put(e, std::get<1>(v), step); });
                };
                n->composite = true;
                as_cursor(*n, lager::with(*a->c, *b->c));
            } else
                as_reader(*n, lager::with(a->r, b->r));
            add<TI>(n, "pair(" + a->name + "," + b->name + ")");
            break;
        }
        case 13: {
            // with(a, b) to a P, both ways
            auto a = any<int>(true);
            auto b = any<int>(true);
            if (!a || !b || a == b)
                break;
            auto n  = node_from<P, int>({a.get(), b.get()});
            n->eval = [a, b](const Env& e) {
                return P{a->eval(e), b->eval(e)};
            };
            n->put = [a, b](Env& e, const P& v, auto& step) {
                both([&] { a->put(e, v.a, step); },
                     [&] { b->put(e, v.b, step); });
            };
            n->composite = true;
            as_cursor(*n,
                      lager::with(*a->c, *b->c)
                          .xform(zug::map([](int x, int y) { return P{x, y}; }),
                                 zug::map([](const P& p) {
                                     return std::make_tuple(p.a, p.b);
                                 })));
            add<P>(n, "mkP(" + a->name + "," + b->name + ")");
            break;
        }
        case 14:
            // mapped both ways
            if (auto s = any<int>(true)) {
                auto n  = node_from<int, int>({s.get()});
                n->eval = [s, k](const Env& e) { return s->eval(e) + k; };
                n->put  = [s, k](Env& e, const int& v, auto& step) {
                    s->put(e, v - k, step);
                };
                n->composite = s->composite;
                auto down    = zug::map([k](int x) { return x + k; });
                auto up      = zug::map([k](int x) { return x - k; });
                if (g().chance(50))
                    as_cursor(*n, s->c->xform(down, up));
                else
                    as_cursor(*n, lager::with(*s->c).xform(down, up));
                add<int>(n, "shift" + ks + "(" + s->name + ")");
            }
            break;
        case 15:
            // mapped both ways, in two stages of one expression
            if (auto s = any<int>(true)) {
                auto n  = node_from<int, int>({s.get()});
                n->eval = [s, k](const Env& e) { return -(s->eval(e) + k); };
                n->put  = [s, k](Env& e, const int& v, auto& step) {
                    s->put(e, -v - k, step);
                };
                n->composite = s->composite;
                as_cursor(*n,
                          s->c->xform(zug::map([k](int x) { return x + k; }),
                                      zug::map([k](int x) { return x - k; }))
                              .xform(zug::map([](int x) { return -x; }),
                                     zug::map([](int x) { return -x; })));
                add<int>(n, "negshift" + ks + "(" + s->name + ")");
            }
            break;
        case 16:
            // written by an update of what it comes from
            if (auto s = any<P>(true)) {
                auto n  = node_from<int, P>({s.get()});
                n->eval = [s](const Env& e) {
                    auto p = s->eval(e);
                    return p.a + p.b;
                };
                n->put = [s](Env& e, const int& v, auto& step) {
                    auto p = s->eval(e);
                    s->put(e, P{v - p.b, p.b}, step);
                };
                n->composite = s->composite;
                as_cursor(*n,
                          s->c->xform(
                              zug::map([](const P& p) { return p.a + p.b; }),
                              lager::update([](const P& p, int v) {
                                  return P{v - p.b, p.b};
                              })));
                add<int>(n, "sum(" + s->name + ")");
            }
            break;
        case 17: {
            // the same over two cursors
            auto a = any<int>(true);
            auto b = any<int>(true);
            if (!a || !b || a == b)
                break;
            auto n  = node_from<int, int>({a.get(), b.get()});
            n->eval = [a, b](const Env& e) {
                return a->eval(e) + b->eval(e);
            };
            n->put = [a, b](Env& e, const int& v, auto& step) {
                auto y = b->eval(e);
                both([&] { a->put(e, v - y, step); },
                     [&] { b->put(e, y, step); });
            };
            n->composite = true;
            as_cursor(*n,
                      lager::with(*a->c, *b->c)
                          .xform(zug::map([](int x, int y) { return x + y; }),
                                 lager::update([](const TI& t, int v) {
                                     return std::make_tuple(v - std::get<1>(t),
                                                            std::get<1>(t));
                                 })));
            add<int>(n, "sum2(" + a->name + "," + b->name + ")");
            break;
        }
        case 18:
            // a lens made of functions
            if (auto s = any<int>())
                lensed<int, int>(
                    s,
                    lager::lenses::getset(
                        [k](auto&& x) { return x - k; },
                        [k](auto&&, auto&& v) { return v + k; }),
                    [k](int x) { return x - k; },
                    [k](int, int v) { return v + k; },
                    "getset" + ks);
            break;
        case 19:
            if (auto s = any<R>()) {
                std::size_t ix = g().below(3);
                auto get       = [ix](const R& r) -> OI {
                    return ix < r.v.size() ? OI{r.v[ix]} : OI{};
                };
                auto set = [ix](R r, const OI& v) {
                    if (v && ix < r.v.size())
                        r.v[ix] = *v;
                    return r;
                };
                lensed<OI, R>(s,
                              zug::comp(lager::lenses::attr(&R::v),
                                        lager::lenses::at(ix)),
                              get,
                              set,
                              ".v[" + std::to_string(ix) + "]");
            }
            break;
        case 20:
            if (auto s = any<R>()) {
                std::string key(1, (char) ('a' + g().below(4)));
                auto get = [key](const R& r) -> OI {
                    auto i = r.m.find(key);
                    return i != r.m.end() ? OI{i->second} : OI{};
                };
                auto set = [key](R r, const OI& v) {
                    auto i = r.m.find(key);
                    if (v && i != r.m.end())
                        i->second = *v;
                    return r;
                };
                if (s->c && g().chance(50)) {
                    auto n  = node_from<OI, R>({s.get()});
                    n->eval = [s, get](const Env& e) { return get(s->eval(e)); };
                    n->put  = [s, set](Env& e, const OI& v, auto& step) {
                        s->put(e, set(s->eval(e), v), step);
                    };
                    n->composite = s->composite;
                    as_cursor(*n, (*s->c)[&R::m][key]);
                    add<OI>(n, ".m[" + key + "](" + s->name + ")");
                } else
                    lensed<OI, R>(s,
                                  zug::comp(lager::lenses::attr(&R::m),
                                            lager::lenses::at(key)),
                                  get,
                                  set,
                                  ".m[" + key + "]");
            }
            break;
        case 21:
            if (auto s = any<R>(true)) {
                // an attribute of an optional
                auto n  = node_from<OI, R>({s.get()});
                n->eval = [s](const Env& e) -> OI {
                    auto r = s->eval(e);
                    return r.o ? OI{r.o->a} : OI{};
                };
                n->put = [s](Env& e, const OI& v, auto& step) {
                    auto r = s->eval(e);
                    if (v && r.o)
                        r.o->a = *v;
                    s->put(e, r, step);
                };
                n->composite = s->composite;
                as_cursor(*n, (*s->c)[&R::o][&P::a]);
                add<OI>(n, ".o.a(" + s->name + ")");
            }
            break;
        case 22:
            if (auto s = any<OI>()) {
                auto get = [k](const OI& x) { return x ? *x : k; };
                auto set = [](const OI&, int v) { return OI{v}; };
                lensed<int, OI>(s,
                                lager::lenses::value_or(k),
                                get,
                                set,
                                "value_or" + ks);
            }
            break;
        case 23:
            if (auto s = any<TI>()) {
                auto get = [](const TI& x) { return std::get<1>(x); };
                auto set = [](TI x, int v) {
                    std::get<1>(x) = v;
                    return x;
                };
                lensed<int, TI>(s,
                                lager::lenses::element<1>,
                                get,
                                set,
                                "second");
            }
            break;
        case 24:
        case 25:
            // filters only where no intermediate value can be seen: the
            // other places are the probe "filter over a diamond"
            if (auto s = any<int>())
                if (s->linear && (s->roots & (s->roots - 1)) == 0)
                    filtered<int>(
                        s,
                        [k](const int& x) { return x % (k % 3 + 2) != 0; },
                        "filter" + ks);
            break;
        case 33:
        case 34: {
            // three or four cursors to an R, both ways
            auto a = any<int>(true);
            auto b = any<int>(true);
            auto d = any<int>(true);
            auto e = any<P>(true);
            if (!a || !b || !d || a == b || a == d || b == d)
                break;
            vp::count("three_sources");
            auto four = e && g().chance(50);
            auto n    = four ? node_from<R, int>({a.get(), b.get(), d.get(), e.get()})
                             : node_from<R, int>({a.get(), b.get(), d.get()});
            auto mk   = [](int x, int y, int z) {
                R r;
                r.n = x;
                r.p = P{y, z};
                return r;
            };
            auto mk4 = [mk](int x, int y, int z, const P& q) {
                auto r = mk(x, y, z);
                r.o    = q;
                return r;
            };
            n->eval = [=](const Env& v) {
                return four ? mk4(a->eval(v), b->eval(v), d->eval(v), e->eval(v))
                            : mk(a->eval(v), b->eval(v), d->eval(v));
            };
            n->put = [=](Env& v, const R& r, auto& step) {
                auto three = [&] {
                    both([&] { a->put(v, r.n, step); },
                         [&] {
                             both([&] { b->put(v, r.p.a, step); },
                                  [&] { d->put(v, r.p.b, step); });
                         });
                };
                if (four)
                    both(three, [&] { e->put(v, r.o.value_or(P{}), step); });
                else
                    three();
            };
            n->composite = true;
            auto un      = [](const R& r) {
                return std::make_tuple(r.n, r.p.a, r.p.b);
            };
            auto un4 = [un](const R& r) {
                return std::tuple_cat(un(r), std::make_tuple(r.o.value_or(P{})));
            };
            auto t = [](auto f) {
                return zug::map([f](const auto& t) { return std::apply(f, t); });
            };
            auto made = g().chance(50);
            if (four) {
                auto w = lager::with(*a->c, *b->c, *d->c, *e->c);
                if (made)
                    as_cursor(*n, std::move(w).make().xform(t(mk4), zug::map(un4)));
                else
                    as_cursor(*n,
                              std::move(w).xform(zug::map(mk4), zug::map(un4)));
            } else {
                auto w = lager::with(*a->c, *b->c, *d->c);
                if (made)
                    as_cursor(*n, std::move(w).make().xform(t(mk), zug::map(un)));
                else
                    as_cursor(*n, std::move(w).xform(zug::map(mk), zug::map(un)));
            }
            add<R>(n,
                   (four ? "mkR4(" : "mkR(") + a->name + "," + b->name + "," +
                       d->name + ")");
            break;
        }
        case 35:
            // writes that do not pass a filter change nothing
            if (auto s = any<int>(true)) {
                auto ok = [k](int x) { return x % (k % 3 + 2) != 0; };
                auto n  = node_from<int, int>({s.get()});
                n->eval = [s, k](const Env& e) { return s->eval(e) + k; };
                n->put  = [s, k, ok](Env& e, const int& v, auto& step) {
                    if (ok(v))
                        s->put(e, v - k, step);
                    else
                        vp::count("filtered_writes");
                };
                n->composite = s->composite;
                auto down    = zug::map([k](int x) { return x + k; });
                auto up      = zug::comp(zug::filter(ok),
                                    zug::map([k](int x) { return x - k; }));
                if (g().chance(50))
                    as_cursor(*n, s->c->xform(down, up));
                else
                    as_cursor(*n, lager::with(*s->c).xform(down, up));
                add<int>(n, "fshift" + ks + "(" + s->name + ")");
            }
            break;
        default: {
            // three sources
            auto a = any<int>();
            auto b = any<int>();
            auto d = any<P>();
            if (!a || !b || !d || a == b)
                break;
            auto n  = node_from<int, int>({a.get(), b.get(), d.get()});
            n->eval = [a, b, d](const Env& e) {
                auto p = d->eval(e);
                return wrap(a->eval(e) + 3l * b->eval(e) + 7l * p.a + 11l * p.b);
            };
            as_reader(*n,
                      lager::with(a->r, b->r, d->r)
                          .map([](int x, int y, const P& p) {
                              return wrap(x + 3l * y + 7l * p.a + 11l * p.b);
                          }));
            add<int>(n, "lin3(" + a->name + "," + b->name + "," + d->name + ")");
        }
        }
    }

    // ------------------------------------------------------------ watching
    template <typename T>
    void add_watch(NodeP<T> n)
    {
        using Obj = typename Node<T>::Obj;
        Obj* o    = nullptr;
        if (!n->objs.empty() && g().chance(50))
            o = n->objs[g().below(n->objs.size())].get();
        else {
            n->objs.push_back(std::make_unique<Obj>());
            o = n->objs.back().get();
            if (n->c && g().chance(50))
                o->cu = std::make_unique<lager::cursor<T>>(*n->c);
            else
                o->rd = std::make_unique<lager::reader<T>>(n->r);
        }
        auto rec     = std::make_shared<WatchRec>();
        rec->name    = n->name + "/w" + std::to_string(++serial);
        rec->fresh   = in_commit;
        rec->before  = n->shown();
        rec->last    = rec->before;
        rec->writes  = g().chance(automatic ? 25 : 12);
        auto* np     = n.get(); // nodes outlive the watchers on them
        rec->expected = [this, np] { return np->expected(visible); };
        auto cb = [this, rec, o, np](const T& v) { called(*rec, *o, np, str(v)); };
        c.note("watch ", rec->name);
        vp::count("watchers_added");
        if (o->cu)
            o->cu->watch(cb);
        else
            o->rd->watch(cb);
        o->recs.push_back(rec);
        n->all.push_back(rec);
    }

    template <typename O, typename N>
    void called(WatchRec& rec_, O& o, N* np, const std::string& v)
    {
        // the record may be dropped meanwhile
        std::shared_ptr<WatchRec> rec;
        for (auto& r : o.recs)
            if (r.get() == &rec_)
                rec = r;
        ++rec->calls;
        ++rec->total;
        ++rec->active;
        rec->last = v;
        vp::count("watch_calls");
        c.note("called ", rec->name, " ", v);
        if (!mixed_step) {
            auto e = rec->expected();
            if (v != e)
                c.fail(automatic ? "C11.stale_call" : "C09.value",
                       rec->name,
                       " was called with ",
                       v,
                       " instead of ",
                       e);
            if (!in_commit)
                c.fail(automatic ? "C11.spurious" : "C07.call_without_commit",
                       rec->name,
                       " was called outside of a commit or write");
            // everything that can be read is up to date
            check_all(automatic ? "C11.mixture" : "C07.mixture",
                      "inside of a watcher");
        }
        // in the order in which they were added to the same reader
        if (depth == 1 && !automatic) {
            bool after = false;
            for (auto& r : o.recs) {
                if (r == rec)
                    after = true;
                else if (!after && !r->fresh && r->calls < rec->calls)
                    c.fail("C09.order",
                           rec->name,
                           " was called before the earlier ",
                           r->name);
            }
        }
        if (rec->writes && reentrant_budget > 0 && !mixed_step) {
            --reentrant_budget;
            plain_write = false;
            vp::count(automatic ? "reentrant_ops" : "ops_in_commits");
            auto x = g().below(10);
            if (x < 6)
                write_some(false);
            else if (x < 7)
                derive();
            else if (x < 8)
                watch_some();
            else if (x < 9)
                drop_some_watch();
            else
                drop_some_node();
        }
        --rec->active;
        (void) np;
    }

    void watch_some()
    {
        std::vector<std::function<void()>> ops;
        each([&](auto& n) {
            if (n.all.size() < 4)
                ops.push_back([this, &n] { add_watch(find(n)); });
        });
        if (!ops.empty())
            ops[g().below(ops.size())]();
    }
    template <typename T>
    NodeP<T> find(Node<T>& n)
    {
        for (auto& x : list<T>())
            if (x.get() == &n)
                return x;
        return nullptr;
    }

    void drop_some_watch()
    {
        std::vector<std::function<void()>> ops;
        each([&](auto& n) {
            for (std::size_t k = 0; k < n.objs.size(); ++k)
                if (!n.any_active(k))
                    ops.push_back([this, &n, k] {
                        c.note("drop watchers of ", n.name);
                        n.drop_watcher(k);
                    });
        });
        if (!ops.empty())
            ops[g().below(ops.size())]();
    }

    void drop_some_node()
    {
        // dropping the handles of a node; derived ones keep working
        std::vector<std::function<void()>> ops;
        each([&](auto& n) {
            bool active = false;
            for (std::size_t k = 0; k < n.objs.size(); ++k)
                active = active || n.any_active(k);
            if (!active && n.depth > 0)
                ops.push_back([this, &n] {
                    c.note("drop ", n.name);
                    vp::count("nodes_dropped");
                    while (!n.objs.empty())
                        n.drop_watcher(0);
                    erase(n);
                });
        });
        if (!ops.empty())
            ops[g().below(ops.size())]();
    }
    template <typename T>
    void erase(Node<T>& n)
    {
        auto& l = list<T>();
        for (auto i = l.begin(); i != l.end(); ++i)
            if (i->get() == &n) {
                // the shadow expression lives on in what was derived from it,
                // the library's handles do not
                n.r = {};
                n.c.reset();
                graveyard.push_back(*i);
                l.erase(i);
                return;
            }
    }
    std::vector<std::shared_ptr<NodeBase>> graveyard;

    // ------------------------------------------------------------ checks
    void check_all(const char* key, const char* where)
    {
        vp::count("graph_checks");
        each([&](auto& n) {
            auto s = n.shown();
            auto e = n.expected(visible);
            if (s != e)
                c.fail(key, n.name, " shows ", s, " ", where, " instead of ", e);
        });
    }

    // how often each root changed in the outermost automatic write
    int root_changes[3]{};
    bool composite_change = false; // ... which may take other ways
    void count_changes(const Env& a, const Env& b)
    {
        root_changes[0] += !(a.r == b.r);
        root_changes[1] += !(a.i == b.i);
        root_changes[2] += !(a.p == b.p);
    }
    int changes_of(int roots) const
    {
        return (roots & root_r ? root_changes[0] : 0) +
               (roots & root_i ? root_changes[1] : 0) +
               (roots & root_p ? root_changes[2] : 0);
    }

    void begin_change()
    {
        for (auto& n : root_changes)
            n = 0;
        composite_change = false;
        each([&](auto& n) {
            for (auto& r : n.all) {
                r->calls  = 0;
                r->fresh  = false;
                r->before = n.expected(visible);
            }
        });
    }

    void step_filters()
    {
        for (auto& f : filters)
            f->step();
    }

    // ------------------------------------------------------------ writes
    // what a write leads to in the shadow, when it reaches the parts of
    // combinations in the given order; nothing is changed
    template <typename T>
    std::string outcome(NodeP<T> n, const T& val, const Env& from, bool reverse)
    {
        auto saved = visible;
        for (auto& f : filters)
            f->save();
        reverse_parts() = reverse;
        Env e           = from;
        std::function<void()> step = [&] {
            if (automatic) {
                visible = e;
                step_filters();
            }
        };
        n->put(e, val, step);
        auto s = str(e.r) + " " + str(e.i) + " " + str(e.p);
        for (auto& f : filters)
            s += " " + f->str();
        reverse_parts() = false;
        for (auto& f : filters)
            f->restore();
        visible = saved;
        return s;
    }

    template <typename T>
    void write(NodeP<T> n, bool composite_ok)
    {
        if (n->composite && !composite_ok && automatic)
            return;
        auto how  = g().below(6);
        auto pend = automatic ? visible : pending;
        auto cur  = n->eval(pend);
        auto val  = g().chance(12) ? cur : small<T>(g());
        // update: the function must get the latest written value
        bool upd = how >= 4;
        if (upd) {
            if constexpr (std::is_same_v<T, int>)
                val = wrap(cur + 1 + (int) g().below(3));
            else if constexpr (std::is_same_v<T, P>)
                val = P{cur.b + 1, cur.a};
        }
        if (n->composite &&
            outcome(n, val, pend, false) != outcome(n, val, pend, true)) {
            vp::count("order_dependent_writes_left_out");
            return;
        }
        c.note(upd ? "update " : "set ", n->name, " := ", str(val));
        vp::count(upd ? "updates" : "sets");
        written |= n->roots;
        int changes = 0;
        bool top    = depth == 0;
        if (automatic) {
            if (top) {
                begin_change();
                plain_write = !n->composite;
            }
            // in the shadow first: the watchers look at it
            Env e       = visible;
            auto before = visible;
            (void) before;
            bool saved = mixed_step;
            if (n->composite)
                mixed_step = composite_change = true;
            ++depth;
            in_commit = true;
            std::function<void()> step = [&] {
                count_changes(visible, e);
                visible = e;
                ++changes;
                step_filters();
            };
            n->put(e, val, step);
            count_changes(visible, e);
            visible = e;
            if (n->composite)
                vp::count("composite_writes");
            do_set(n, val, cur, upd, how);
            --depth;
            if (depth == 0)
                in_commit = false;
            mixed_step = saved;
            if (top)
                after_automatic();
        } else {
            std::function<void()> step = [&] { ++elementary; };
            n->put(pending, val, step);
            do_set(n, val, cur, upd, how);
            // nothing is visible yet
            check_all("C07.visible_before_commit", "before the commit");
        }
    }

    template <typename T>
    void do_set(NodeP<T> n, T val, T cur, bool upd, std::size_t how)
    {
        auto& cu = *n->c;
        if (upd) {
            bool called = false;
            auto fn     = [&](const T& x) {
                if (called)
                    c.fail("C10.update_twice", "the updater was called twice");
                called = true;
                if (str(x) != str(cur))
                    c.fail("C10.update_input",
                           n->name,
                           " update got ",
                           str(x),
                           " instead of the latest written ",
                           str(cur));
                return val;
            };
            if (how == 4)
                cu.update(fn);
            else {
                lager::writer<T> w{cu};
                w.update(fn);
            }
            if (!called)
                c.fail("C10.update_not_called", "the updater was not called");
        } else if (how == 0) {
            cu.set(val);
        } else if (how == 1) {
            T copy = val;
            cu.set(std::move(copy));
        } else if (how == 2) {
            lager::writer<T> w{cu};
            w.set(val);
        } else {
            lager::cursor<T> copy = cu;
            copy.set(T{val});
        }
        if constexpr (!automatic)
            (void) 0;
    }

    void write_some(bool composite_ok)
    {
        std::vector<std::function<void()>> ops;
        each([&](auto& n) {
            if (n.c)
                ops.push_back([this, &n, composite_ok] {
                    write(find(n), composite_ok);
                });
        });
        if (!ops.empty())
            ops[g().below(ops.size())]();
    }

    void after_automatic()
    {
        if (str(sr.get()) != str(visible.r) || si.get() != visible.i ||
            !(sp.get() == visible.p)) {
            c.fail("C10.root",
                   "after an automatic write the roots are ",
                   str(sr.get()),
                   " ",
                   si.get(),
                   " ",
                   str(sp.get()),
                   " instead of ",
                   str(visible.r),
                   " ",
                   visible.i,
                   " ",
                   str(visible.p));
        } else
            check_all("C11.value", "after a write");
        each([&](auto& n) {
            auto now = n.expected(visible);
            for (auto& r : n.all) {
                if (now != r->before && r->calls == 0 && !r->fresh)
                    c.fail("C11.not_notified",
                           r->name,
                           " was not called though its value went from ",
                           r->before,
                           " to ",
                           now);
                if (!r->fresh && !composite_change) {
                    vp::count("bounded_counts");
                    if (r->calls > changes_of(n.roots))
                        c.fail("C09.too_often",
                               r->name,
                               " was called ",
                               r->calls,
                               " times for ",
                               changes_of(n.roots),
                               " changes of what it shows");
                }
                if (plain_write && !r->fresh) {
                    vp::count("exact_counts");
                    if (r->calls > 1)
                        c.fail("C09.twice",
                               r->name,
                               " was called ",
                               r->calls,
                               " times for one write");
                    if (r->calls && now == r->before && n.strict)
                        c.fail("C09.unchanged",
                               r->name,
                               " was called though its value did not change: ",
                               now);
                }
                if (r->calls > 0 && r->last != now)
                    c.fail("C11.last_call",
                           r->name,
                           " was last called with ",
                           r->last,
                           " but its value is ",
                           now);
                if (r->calls > 0 && !(written & n.roots))
                    c.fail("C11.unrelated",
                           r->name,
                           " was called though none of its roots was written");
            }
        });
        written = 0;
    }

    // ------------------------------------------------------------ commit
    void commit_all()
    {
        begin_change();
        // all roots with pending writes, and some others, in any order
        int mask = written;
        if (g().chance(50))
            mask |= 1 + g().below(7);
        auto order = g().below(6);
        c.note("commit mask=", mask, " order=", order);
        vp::count("commits");
        visible   = pending;
        step_filters();
        // what the watchers write waits for the next commit
        auto written_    = written;
        auto elementary_ = elementary;
        written = elementary = 0;
        reentrant_budget     = (int) g().below(4);
        in_commit            = true;
        depth     = 1;
        switch (mask) {
        case 0:
            break;
        case 1:
            lager::commit(sr);
            break;
        case 2:
            lager::commit(si);
            break;
        case 3:
            order % 2 ? lager::commit(sr, si) : lager::commit(si, sr);
            break;
        case 4:
            lager::commit(sp);
            break;
        case 5:
            order % 2 ? lager::commit(sr, sp) : lager::commit(sp, sr);
            break;
        case 6:
            order % 2 ? lager::commit(sp, si) : lager::commit(si, sp);
            break;
        default:
            switch (order) {
            case 0:
                lager::commit(sr, si, sp);
                break;
            case 1:
                lager::commit(sr, sp, si);
                break;
            case 2:
                lager::commit(si, sr, sp);
                break;
            case 3:
                lager::commit(si, sp, sr);
                break;
            case 4:
                lager::commit(sp, sr, si);
                break;
            default:
                lager::commit(sp, si, sr);
            }
        }
        depth     = 0;
        in_commit = false;
        bool roots_ok = true;
        if (str(sr.get()) != str(visible.r) || si.get() != visible.i ||
            !(sp.get() == visible.p)) {
            roots_ok = false;
            c.fail("C10.root",
                   "after a commit the roots are ",
                   str(sr.get()),
                   " ",
                   si.get(),
                   " ",
                   str(sp.get()),
                   " instead of ",
                   str(visible.r),
                   " ",
                   visible.i,
                   " ",
                   str(visible.p));
        }
        if (roots_ok)
            check_all("C08.value", "after a commit");
        each([&](auto& n) {
            auto now = n.expected(visible);
            for (auto& r : n.all) {
                // one added by a watcher may already hear of this commit
                if (r->fresh)
                    continue;
                if (now != r->before) {
                    vp::count("must_notify");
                    if (r->calls != 1)
                        c.fail(r->calls ? "C09.twice" : "C09.missed",
                               r->name,
                               " was called ",
                               r->calls,
                               " times though its value went from ",
                               r->before,
                               " to ",
                               now);
                } else if (r->calls) {
                    // tolerated: a value that went away and came back, or an
                    // intermediate value of a combination
                    bool may = (n.roots & written_) &&
                               (elementary_ > 1 || !n.strict);
                    if (!may)
                        c.fail("C09.unchanged",
                               r->name,
                               " was called though its value did not change: ",
                               now);
                } else {
                    vp::count("must_not_notify");
                }
                if (r->calls && !(written_ & n.roots))
                    c.fail("C09.unrelated",
                           r->name,
                           " was called though none of its roots was written");
            }
        });
    }
};

template <typename Tag>
void run_graph(Case& c)
{
    Env e;
    e.r = small<R>(c.rng);
    e.i = small<int>(c.rng);
    e.p = small<P>(c.rng);
    G<Tag> g{c, e};
    c.note(G<Tag>::automatic ? "automatic" : "transactional");
    g.make_roots();
    int n = 6 + c.rng.below(16);
    for (int i = 0; i < n; ++i)
        g.derive();
    n = 2 + c.rng.below(8);
    for (int i = 0; i < n; ++i)
        g.watch_some();
    n = 10 + c.rng.below(30);
    for (int i = 0; i < n; ++i) {
        auto x = c.rng.below(100);
        if constexpr (G<Tag>::automatic) {
            g.reentrant_budget = c.rng.below(5);
            if (x < 60)
                g.write_some(true);
            else if (x < 72)
                g.derive();
            else if (x < 84)
                g.watch_some();
            else if (x < 92)
                g.drop_some_watch();
            else
                g.drop_some_node();
        } else {
            if (x < 45)
                g.write_some(true);
            else if (x < 70)
                g.commit_all();
            else if (x < 80)
                g.derive();
            else if (x < 88)
                g.watch_some();
            else if (x < 94)
                g.drop_some_watch();
            else
                g.drop_some_node();
        }
    }
    if constexpr (!G<Tag>::automatic)
        g.commit_all();
    c.nontrivial = true;
}

void run_transactional(Case& c);
void run_automatic(Case& c);

} // namespace ge
