// C08 and C10, over everything that lager::with() can say: a chain of stages
// over one, two or three sources behaves like the plain functions it is made
// of, whether its stages are composed in one expression or made on the way.
#include "common.hpp"

#include <lager/constant.hpp>
#include <lager/cursor.hpp>
#include <lager/lenses.hpp>
#include <lager/reader.hpp>
#include <lager/setter.hpp>
#include <lager/state.hpp>
#include <lager/watch.hpp>
#include <lager/with.hpp>
#include <lager/writer.hpp>

#include <array>

#ifndef PARTNO
#define PARTNO 0
#endif
#ifndef PARTS
#define PARTS 6
#endif
#ifndef PER_PART
#define PER_PART 16
#endif

namespace ex {
namespace { // each part has its own
using vp::Case;

// ---------------------------------------------------------------- stages
// The functions of each stage, used by the oracle and given to the library.

// int -> int stages, which wrap around
inline int wrap(long long x) { return (int) (unsigned) x; }
inline int up_shift(int x) { return wrap(x + 5ll); }
inline int down_shift(int v) { return wrap(v - 7ll); } // no inverse, on purpose
inline int up_tri(int x) { return wrap(3ll * x + 1); }
inline int down_tri(int v) { return wrap(v * 2ll); }
inline int once(int x) { return wrap(x * 2ll - 9); }
inline int low(int x) { return x & 0xff; }
inline int set_low(int x, int v) { return (x & ~0xff) | (v & 0xff); }
inline int neg(int x) { return wrap(-(long long) x + 2); }
inline int set_neg(int x, int v) { return wrap(x / 64 * 64 - (long long) v); }

inline auto lens_low() { return lager::lenses::getset(low, set_low); }
inline auto lens_neg() { return lager::lenses::getset(neg, set_neg); }

// sources -> int
template <int N>
using Src = std::array<int, N>;

template <int N>
int sum(const Src<N>& s)
{
    long long r = 0, w = 1;
    for (auto x : s) {
        r += x * w;
        w += 2;
    }
    return wrap(r);
}
template <int N>
Src<N> spread(int v)
{
    Src<N> r{};
    for (int i = 0; i < N; ++i)
        r[i] = wrap(v + 11ll * i);
    return r;
}
// as seen through a lens over the tuple
template <int N>
int diff(const Src<N>& s)
{
    long long r = s[0];
    for (int i = 1; i < N; ++i)
        r -= s[i];
    return wrap(r);
}
template <int N>
Src<N> set_diff(Src<N> s, int v)
{
    for (int i = 1; i < N; ++i)
        v = wrap((long long) v + s[i]);
    s[0] = v;
    if (N > 1)
        s[N - 1] ^= 1; // the last one is written as well
    return s;
}

template <int N, std::size_t... I>
auto to_tuple(const Src<N>& s, std::index_sequence<I...>)
{
    return std::make_tuple(s[I]...);
}
template <int N>
auto to_tuple(const Src<N>& s)
{
    return to_tuple<N>(s, std::make_index_sequence<N>{});
}
template <typename... Is>
auto from_tuple(const std::tuple<Is...>& t)
{
    return std::apply([](auto... x) { return Src<sizeof...(Is)>{x...}; }, t);
}
template <int N>
struct whole
{
    using t = decltype(to_tuple<N>(Src<N>{}));
};

// A chain's plain meaning.
template <int N>
struct Plain
{
    std::function<int(const Src<N>&)> get;
    std::function<Src<N>(const Src<N>&, int)> put; // none: reads only
    bool reads  = true;
    bool writes = true;
};

enum Head { h_sum, h_spread, h_lens, h_made, h_count };
enum Op { o_two, o_one, o_lens, o_lens2, o_wx2, o_make, o_map, o_count };
enum Tail { t_make, t_reader, t_cursor, t_writer, t_count };

// What a handle or expression is able to do.
template <typename X, typename = void>
struct can_write : std::false_type
{};
template <typename X>
struct can_write<X, std::void_t<decltype(std::declval<X&>().set(1))>>
    : std::true_type
{};
template <typename X, typename = void>
struct can_read : std::false_type
{};
template <typename X>
struct can_read<X, std::void_t<decltype(std::declval<X&>().get())>>
    : std::true_type
{};

template <int N>
void put_op(Plain<N>& p, int op)
{
    auto g = p.get;
    auto s = p.put;
    switch (op) {
    case o_two:
        p.get = [g](auto& e) { return up_shift(g(e)); };
        if (s)
            p.put = [s](auto& e, int v) { return s(e, down_shift(v)); };
        break;
    case o_wx2:
        p.get = [g](auto& e) { return up_tri(up_shift(g(e))); };
        if (s)
            p.put = [s](auto& e, int v) {
                return s(e, down_shift(down_tri(v)));
            };
        break;
    case o_one:
    case o_map:
        p.get    = [g](auto& e) { return once(g(e)); };
        p.put    = nullptr;
        p.writes = false;
        break;
    case o_lens:
        p.get = [g](auto& e) { return low(g(e)); };
        if (s)
            p.put = [g, s](auto& e, int v) { return s(e, set_low(g(e), v)); };
        break;
    case o_lens2:
        p.get = [g](auto& e) { return neg(low(g(e))); };
        if (s)
            p.put = [g, s](auto& e, int v) {
                return s(e, set_low(g(e), set_neg(low(g(e)), v)));
            };
        break;
    case o_make:
        break;
    }
}

// Only lenses and transformations that the library lets one write through.
template <int op, typename X, bool Writable>
auto apply_op(X&& x)
{
    if constexpr (op == o_two) {
        if constexpr (Writable)
            return std::forward<X>(x).xform(zug::map(up_shift),
                                            zug::map(down_shift));
        else
            return std::forward<X>(x).xform(zug::map(up_shift));
    } else if constexpr (op == o_wx2) {
        if constexpr (Writable)
            return std::forward<X>(x)
                .xform(zug::map(up_shift), zug::map(down_shift))
                .xform(zug::map(up_tri), zug::map(down_tri));
        else
            return std::forward<X>(x)
                .xform(zug::map(up_shift))
                .xform(zug::map(up_tri));
    } else if constexpr (op == o_one)
        return std::forward<X>(x).xform(zug::map(once));
    else if constexpr (op == o_map)
        return std::forward<X>(x).map(once);
    else if constexpr (op == o_lens)
        return std::forward<X>(x).zoom(lens_low());
    else if constexpr (op == o_lens2)
        return std::forward<X>(x).zoom(lens_low()).zoom(lens_neg());
    else
        return std::forward<X>(x).make();
}

constexpr bool op_writes(int op) { return op != o_one && op != o_map; }

template <int N, int head, bool Writable, typename W>
auto apply_head(W&& w)
{
    auto down = [](auto... x) { return sum<N>(Src<N>{x...}); };
    auto get  = [](const auto& t) {
        if constexpr (N == 1)
            return diff<1>(Src<1>{t});
        else
            return diff<N>(from_tuple(t));
    };
    auto set = [](auto t, int v) {
        if constexpr (N == 1)
            return set_diff<1>(Src<1>{t}, v)[0];
        else
            return to_tuple<N>(set_diff<N>(from_tuple(t), v));
    };
    auto up = [](int v) {
        if constexpr (N == 1)
            return spread<1>(v)[0];
        else
            return to_tuple<N>(spread<N>(v));
    };
    if constexpr (head == h_sum)
        return std::forward<W>(w).xform(zug::map(down));
    else if constexpr (head == h_spread) {
        if constexpr (Writable)
            return std::forward<W>(w).xform(zug::map(down), zug::map(up));
        else
            return std::forward<W>(w).xform(zug::map(down));
    } else if constexpr (head == h_lens)
        return std::forward<W>(w).zoom(lager::lenses::getset(get, set));
    else
        return std::forward<W>(w).make().zoom(
            lager::lenses::getset(get, set));
}

template <int N>
Plain<N> plain_head(int head)
{
    Plain<N> p;
    switch (head) {
    case h_sum:
        p.get    = [](auto& e) { return sum<N>(e); };
        p.writes = false;
        break;
    case h_spread:
        p.get = [](auto& e) { return sum<N>(e); };
        p.put = [](auto&, int v) { return spread<N>(v); };
        break;
    default:
        p.get = [](auto& e) { return diff<N>(e); };
        p.put = [](auto& e, int v) { return set_diff<N>(e, v); };
    }
    return p;
}

// What the chain is taken over.
enum Over {
    over_cursors,
    over_exprs,
    over_writers,
    over_readers,
    over_mixed,
    over_count
};

template <typename Tag>
using state_t = lager::state<int, Tag>;

template <int N, int over, typename Tag, std::size_t... I>
auto apply_with(std::array<std::unique_ptr<state_t<Tag>>, N>& roots,
                std::index_sequence<I...>)
{
    auto one = [&](auto i) {
        auto& s         = *roots[i];
        constexpr int n = decltype(i)::value;
        if constexpr (over == over_cursors)
            return lager::cursor<int>{s};
        else if constexpr (over == over_writers)
            return lager::writer<int>{s};
        else if constexpr (over == over_readers)
            return lager::reader<int>{s};
        else if constexpr (over == over_mixed) {
            if constexpr (n % 2 == N % 2)
                return lager::cursor<int>{s};
            else
                return lager::reader<int>{s};
        } else {
            // an expression that changes nothing, either way
            auto same = [](int x) { return x; };
            if constexpr (n % 2 == 0)
                return lager::with(s).xform(zug::map(same), zug::map(same));
            else
                return lager::with(s).zoom(lager::lenses::getset(
                    same, [](int, int v) { return v; }));
        }
    };
    return lager::with(one(std::integral_constant<int, I>{})...);
}

template <int over, int N>
constexpr bool over_writes =
    over == over_cursors || over == over_exprs || over == over_writers;

inline const char* op_name(int o)
{
    static const char* names[] = {
        "xform2", "xform1", "zoom", "zoom.zoom", "xform2.xform2", "make", "map"};
    return names[o];
}

template <int N, typename Tag, typename H>
void drive(Case& c,
           H& h,
           std::array<std::unique_ptr<state_t<Tag>>, N>& roots,
           Src<N> now,
           const Plain<N>& p)
{
    constexpr bool automatic = std::is_same_v<Tag, lager::automatic_tag>;
    // what has been written, and what has been committed
    auto todo   = now;
    long calls  = 0;
    int seen    = 0;
    bool writes = p.writes && can_write<H>::value;
    if constexpr (can_read<H>::value)
        lager::watch(h, [&](int v) {
            ++calls;
            seen = v;
        });
    auto commit = [&] {
        if constexpr (!automatic)
            for (auto& r : roots)
                lager::commit(*r);
        // one after the other, each is a commit
        now = todo;
    };
    auto check = [&](const char* when) {
        if constexpr (can_read<H>::value) {
            int want = p.get(now);
            c.expect(h.get() == want,
                     "C08.expr_value",
                     when, ": the expression reads ", h.get(),
                     ", its functions give ", want, " for ", vp::show(now));
            vp::count("expr_reads");
        }
    };
    check("at first");
    int ops = 6 + c.rng.below(8);
    for (int i = 0; i < ops && c.fails.empty(); ++i) {
        if (writes && c.rng.chance(45)) {
            const int by = c.rng.range(-300, 300);
            int v        = by;
            if constexpr (can_write<H>::value) {
                // for automatic roots the sources change one after the other
                auto before = can_read<H>::value ? p.get(now) : 0;
                (void) before;
                if (c.rng.chance(25) && can_read<H>::value) {
                    int from = p.get(todo);
                    c.note("update by ", v);
                    if constexpr (can_read<H>::value)
                        h.update([&](int x) {
                            from = x;
                            return wrap((long long) x + v);
                        });
                    v = wrap((long long) from + v);
                    c.expect(from == p.get(now) || from == p.get(todo),
                             "C10.expr_update",
                             "update() was given ", from,
                             ", neither what is committed (", p.get(now),
                             ") nor what was written last (", p.get(todo), ")");
                } else {
                    c.note("set ", v);
                    h.set(v);
                }
                todo = p.put(todo, v);
                if (automatic)
                    now = todo;
                vp::count("expr_writes");
            }
        } else {
            int i = c.rng.below(N);
            int v = c.rng.range(-2000, 2000);
            c.note("root ", i, " = ", v);
            roots[i]->set(v);
            todo[i] = v;
            if (automatic)
                now = todo;
        }
        if (!automatic && c.rng.chance(60)) {
            auto old = now;
            calls    = 0;
            commit();
            check("after a commit");
            if constexpr (can_read<H>::value) {
                int was = p.get(old), is = p.get(now);
                if (was != is) {
                    c.expect(calls > 0 && seen == is,
                             "C09.expr_watch",
                             "the watcher was told ", calls, " times, last of ",
                             seen, ", as the value went from ", was, " to ", is);
                    vp::count("expr_notified");
                } else if (N == 1)
                    c.expect(calls == 0,
                             "C09.expr_watch_unchanged",
                             "the watcher was called with ", seen,
                             " but the value stays ", is);
            }
        } else if (automatic) {
            check("after a write");
            if constexpr (can_read<H>::value)
                if (calls)
                    c.expect(seen == p.get(now), "C11.expr_watch",
                             "the watcher last saw ", seen, ", the value is ",
                             p.get(now));
        } else
            check("before a commit");
        if constexpr (automatic)
            for (int k = 0; k < N; ++k)
                c.expect(roots[k]->get() == todo[k],
                         "C10.expr_write",
                         "root ", k, " is ", roots[k]->get(), " and not ",
                         todo[k]);
    }
    commit();
    check("at last");
    for (int k = 0; k < N; ++k)
        c.expect(roots[k]->get() == todo[k],
                 "C10.expr_write",
                 "root ", k, " is ", roots[k]->get(), " and not ", todo[k]);
}

template <int N, int head, int over, int a, int b, int tail>
struct chain
{
    template <typename Tag>
    static void run_(Case& c)
    {
        constexpr bool w0 = over_writes<over, N>;
        constexpr bool w1 = w0 && head != h_sum;
        constexpr bool w2 = w1 && op_writes(a);
        constexpr bool w3 = w2 && op_writes(b);

        static const char* overs[] = {"cursors", "expressions", "writers",
                                      "readers", "readers and cursors"};
        static const char* heads[] = {"xform1", "xform2", "zoom", "make.zoom"};
        static const char* tails[] = {
            ".make", " as reader", " as cursor", " as writer"};
        c.note("with(", N, " ", overs[over], ").", heads[head], ".", op_name(a),
               ".", op_name(b), tails[tail]);
        std::array<std::unique_ptr<state_t<Tag>>, N> roots;
        Src<N> now{};
        for (int i = 0; i < N; ++i) {
            now[i]   = c.rng.range(-1000, 1000);
            roots[i] = std::make_unique<state_t<Tag>>(now[i]);
        }
        auto p = plain_head<N>(head);
        put_op<N>(p, a);
        put_op<N>(p, b);
        p.writes = w3;
        auto s1 = apply_head<N, head, w0>(
            apply_with<N, over>(roots, std::make_index_sequence<N>{}));
        auto s2 = apply_op<a, decltype(s1), w1>(std::move(s1));
        auto s3 = apply_op<b, decltype(s2), w2>(std::move(s2));
        vp::count("expr_chains");
        if constexpr (tail == t_writer && w3) {
            lager::writer<int> h = std::move(s3);
            drive<N, Tag>(c, h, roots, now, p);
        } else if constexpr (tail == t_make || over == over_writers) {
            auto h = std::move(s3).make();
            static_assert(can_write<decltype(h)>::value == w3);
            drive<N, Tag>(c, h, roots, now, p);
        } else if constexpr (tail == t_reader || !w3) {
            lager::reader<int> h = std::move(s3);
            drive<N, Tag>(c, h, roots, now, p);
        } else {
            lager::cursor<int> h = std::move(s3);
            drive<N, Tag>(c, h, roots, now, p);
        }
    }
    static void run(Case& c)
    {
        c.rng.chance(50) ? run_<lager::automatic_tag>(c)
                         : run_<lager::transactional_tag>(c);
    }
};

// A spread of all the chains there are: those whose number falls in this part.
// Odd parts have those that can be written through.
constexpr bool writable = PARTNO % 2;
constexpr int overs     = writable ? 3 : over_count;
constexpr int ops_a     = writable ? 5 : (int) o_count;
constexpr int total     = 3 * h_count * overs * ops_a * ops_a * t_count;

template <int code>
struct decode
{
    static constexpr int op(int x)
    {
        constexpr int only[] = {o_two, o_lens, o_lens2, o_wx2, o_make};
        return writable ? only[x] : x;
    }
    static constexpr int tail = code % t_count;
    static constexpr int b    = op(code / t_count % ops_a);
    static constexpr int a    = op(code / t_count / ops_a % ops_a);
    static constexpr int h    = code / t_count / ops_a / ops_a % h_count;
    static constexpr int rest = code / t_count / ops_a / ops_a / h_count;
    static constexpr int o    = rest % overs;
    static constexpr int n    = 1 + rest / overs;
    // a writer cannot be read, so it needs a way back all along
    static constexpr int over = !writable && o == over_writers ? over_cursors : o;
    static constexpr int head = writable && h == h_sum ? h_spread : h;
    using type                = chain<n, head, over, a, b, tail>;
};

// A stride that is prime to all the radices visits all kinds alike.
constexpr int stride = 1301;

template <std::size_t... I>
auto table(std::index_sequence<I...>)
{
    return std::vector<void (*)(Case&)>{
        &decode<(int) (((long) (I * PARTS + PARTNO) * stride) % total)>::type::
            run...};
}
}
} // namespace ex

#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
void CAT(exprs_, PARTNO)(vp::Case& c)
{
    static const auto t = ex::table(std::make_index_sequence<PER_PART>{});
    t[c.rng.below(t.size())](c);
}
