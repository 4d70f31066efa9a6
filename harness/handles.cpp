// C28: readers, cursors and writers as handles.  Random programs make, copy,
// convert, move, swap, assign and drop handles kept in containers that grow,
// and read and write through them; against a model in which a handle is the
// number of the place it names, or none.
#include "common.hpp"

#include <lager/commit.hpp>
#include <lager/constant.hpp>
#include <lager/cursor.hpp>
#include <lager/event_loop/manual.hpp>
#include <lager/lenses.hpp>
#include <lager/lenses/attr.hpp>
#include <lager/reader.hpp>
#include <lager/sensor.hpp>
#include <lager/setter.hpp>
#include <lager/state.hpp>
#include <lager/store.hpp>
#include <lager/with.hpp>
#include <lager/writer.hpp>

#include <zug/transducer/map.hpp>

#include <optional>
#include <utility>
#include <variant>

namespace {
using vp::Case;

struct Val
{
    int v = 0;
    std::string text; // so that what is read after a move is seen
    Val() = default;
    Val(int x)
        : v{x}
        , text(20, (char) ('a' + (unsigned) x % 26))
    {}
    friend bool operator==(const Val& a, const Val& b)
    {
        return a.v == b.v && a.text == b.text;
    }
    friend bool operator!=(const Val& a, const Val& b) { return !(a == b); }
};
std::ostream& operator<<(std::ostream& os, const Val& v)
{
    return os << v.v << v.text.substr(0, 1);
}

struct Pair
{
    Val x, y;
    friend bool operator==(const Pair& a, const Pair& b)
    {
        return a.x == b.x && a.y == b.y;
    }
    friend bool operator!=(const Pair& a, const Pair& b) { return !(a == b); }
};

struct Put
{
    Val to;
};
struct Refused
{};

using R = lager::reader<Val>;
using C = lager::cursor<Val>;
using W = lager::writer<Val>;

// 0 1: attributes of automatic state, 2 3: of transactional state, 4: automatic
// state, 5: a store's, 6: a constant, 7: a sensor
constexpr int n_places = 8;
constexpr bool writable(int p) { return p < 5; }
constexpr int none = -1, unknown = -2; // named by nothing; moved from

template <typename H>
struct Slot
{
    H h;
    int at = none;
};

struct Run
{
    Case& c;
    lager::state<Pair, lager::automatic_tag> a{Pair{0, 1}};
    lager::state<Pair, lager::transactional_tag> b{Pair{2, 3}};
    lager::state<Val, lager::automatic_tag> d{4};
    lager::store<Put, Val> store = lager::make_store<Put>(
        Val{5},
        lager::with_manual_event_loop{},
        lager::with_reducer([](Val, Put p) { return p.to; }));
    lager::constant<Val> k = lager::make_constant(Val{6});
    int sensed             = 7;
    lager::sensor<Val> s =
        lager::make_sensor(std::function<Val()>{[this] { return Val{sensed}; }});

    Val shown[n_places]   = {0, 1, 2, 3, 4, 5, 6, 7};
    Val written[n_places] = {0, 1, 2, 3, 4, 5, 6, 7};

    std::vector<Slot<R>> rs;
    std::vector<Slot<C>> cs;
    std::vector<Slot<W>> ws;

    int next = 100;

    explicit Run(Case& c_)
        : c{c_}
    {}

    C make_cursor(int p)
    {
        vp::count("made");
        switch (p) {
        case 0:
            return c.rng.chance(50) ? C{a[&Pair::x]}
                                    : C{a.zoom(lager::lenses::attr(&Pair::x))};
        case 1:
            return c.rng.chance(50) ? C{a[&Pair::y].make()}
                                    : C{lager::with(a)[&Pair::y].make()};
        case 2: return C{b[&Pair::x].make()};
        case 3: return C{b.zoom(lager::lenses::attr(&Pair::y)).make()};
        default: return C{d};
        }
    }
    W make_writer(int p)
    {
        vp::count("made");
        switch (p) {
        case 0: return W{a[&Pair::x].make()};
        case 1:
            return c.rng.chance(50) ? W{a[&Pair::y].make()}
                                    : W{lager::writer<Pair>{a}[&Pair::y]};
        case 2: {
            lager::writer<Pair> whole = b;
            if (c.rng.chance(50))
                return whole.zoom(lager::lenses::attr(&Pair::x));
            return b[&Pair::x];
        }
        case 3: return W{C{b[&Pair::y]}};
        default: return d;
        }
    }
    R make_reader(int p)
    {
        vp::count("made");
        switch (p) {
        case 0: return a[&Pair::x];
        case 1: return R{a[&Pair::y].make()};
        case 2: return b[&Pair::x].make();
        case 3: return b.zoom(lager::lenses::attr(&Pair::y));
        case 4: return d;
        case 5: return store;
        case 6: return k;
        default: return s;
        }
    }

    // ---------------------------------------------------------------- judging
    template <typename H>
    void read(const char* what, const H& h, int at)
    {
        // what throws takes long
        if (at == unknown || (at == none && c.rng.chance(90)))
            return;
        std::optional<Val> got;
        auto threw = false;
        auto how   = c.rng.below(4);
        LAGER_TRY {
            if (how == 0)
                got = h.get();
            else if (how == 1)
                got = *h;
            else if (how == 2)
                got = Val{*h.operator->()};
            else
                got = h.make().get();
        } LAGER_CATCH(const std::exception&) {
            threw = true;
        }
        if (at == none) {
            vp::count("refused_reads");
            c.expect(threw, "C28.read_of_none", what,
                     " that names nothing gives a value");
        } else {
            vp::count("reads");
            if (c.expect(!threw && got, "C28.read_throws", what, " of place ", at,
                         " throws"))
                c.expect(*got == shown[at], "C28.read", what, " of place ", at,
                         " reads ", *got, ", it is ", shown[at]);
        }
    }

    void wrote(int p, Val v)
    {
        written[p] = v;
        if (p != 2 && p != 3)
            shown[p] = v;
    }

    // 0 set, 1 set with a named value, 2 update, 3 update that throws, 4 update
    // that takes a copy
    template <typename H>
    void write(const char* what, H& h, int at)
    {
        if (at == unknown || (at == none && c.rng.chance(70)))
            return;
        auto how   = c.rng.below(5);
        Val v      = ++next;
        auto threw = false;
        std::optional<Val> given;
        c.note(what, " ", at, " how ", how);
        auto named = v;
        LAGER_TRY {
            if (how == 0)
                h.set(Val{v});
            else if (how == 1)
                h.set(named);
            else if (how == 2)
                h.update([&](const Val& x) { return given = x, v; });
            else if (how == 3)
                h.update([&](const Val& x) -> Val {
                    given = x;
                    throw Refused{};
                });
            else
                h.update([&](Val x) {
                    given  = x;
                    x.v    = v.v;
                    x.text = v.text;
                    return x;
                });
        } LAGER_CATCH(const std::exception&) {
            threw = true;
        } LAGER_CATCH(const Refused&) {
            threw = how == 3;
        }
        c.expect(named == v, "C28.argument", "what was set is now ", named);
        if (at == none) {
            vp::count("refused_writes");
            c.expect(threw, "C28.write_of_none", what,
                     " that names nothing takes a write");
            c.expect(!given, "C28.write_of_none", what,
                     " that names nothing calls the function with ",
                     given.value_or(Val{}));
            return;
        }
        vp::count("writes");
        if (how >= 2 &&
            c.expect(bool(given), "C28.update", what, " never calls the function"))
            c.expect(*given == written[at], "C28.update", what, " of place ", at,
                     " is given ", *given, ", written was ", written[at]);
        if (how == 3) {
            vp::count("throwing_updates");
            c.expect(threw, "C28.update", "what the function throws is lost");
        } else {
            c.expect(!threw, "C28.write_throws", what, " of place ", at, " throws");
            wrote(at, v);
        }
    }

    void check_roots()
    {
        c.expect(a.get() == Pair{shown[0], shown[1]}, "C28.roots",
                 "the automatic state is ", a->x, " ", a->y, ", should be ",
                 shown[0], " ", shown[1]);
        c.expect(b.get() == Pair{shown[2], shown[3]}, "C28.roots",
                 "the transactional state is ", b->x, " ", b->y, ", should be ",
                 shown[2], " ", shown[3]);
        c.expect(d.get() == shown[4] && store.get() == shown[5] &&
                     k.get() == shown[6] && s.get() == shown[7],
                 "C28.roots", "a root is not what was written");
    }

    // --------------------------------------------------------------- programs
    template <typename S>
    std::size_t pick(S& v)
    {
        if (v.empty() || (v.size() < 6 && c.rng.chance(30)))
            v.push_back({}); // names nothing; the others may move
        return c.rng.below(v.size());
    }

    // through an expression over the handle, which has other nodes
    template <typename H>
    H remade(const H& h)
    {
        if constexpr (std::is_same_v<H, W>) {
            switch (c.rng.below(3)) {
            case 0: return h.zoom(zug::identity);
            case 1: return lager::with(h).zoom(zug::identity).make();
            default:
                return H{h}.xform(zug::map([](Val v) { return v; }),
                                  zug::map([](Val v) { return v; }));
            }
        } else {
            switch (c.rng.below(4)) {
            case 0: return H{lager::with(h).make()};
            case 1: {
                auto x = h.zoom(zug::identity).make();
                return x;
            }
            case 2: return h.zoom(zug::identity);
            default: {
                auto x = lager::with(h.make()).zoom(zug::identity).make();
                H y{x};
                return y;
            }
            }
        }
    }

    // makes, converts, assigns; within one kind of handle
    template <typename H, typename Make>
    void handle(std::vector<Slot<H>>& v, const char* what, int places, Make make)
    {
        auto i = pick(v), j = pick(v);
        if (i >= v.size())
            return;
        switch (c.rng.below(15)) {
        case 0:
        case 1:
        case 10:
        case 11:
        case 12:
        case 13: {
            auto p = (int) c.rng.below((std::size_t) places);
            c.note(what, " ", i, " names ", p);
            v[i].h  = make(p);
            v[i].at = p;
            break;
        }
        case 2:
            c.note(what, " ", i, " = ", j);
            if (v[j].at != unknown || i == j) {
                const auto& from = v[j].h;
                v[i].h           = from; // may be itself
                v[i].at          = v[j].at;
                if (i == j)
                    vp::count("assigned_to_itself");
                vp::count("assigned");
            }
            break;
        case 3:
            if (i != j && v[j].at != unknown) {
                c.note(what, " ", i, " = moved ", j);
                v[i].h  = std::move(v[j].h);
                v[i].at = v[j].at;
                v[j].at = unknown;
                vp::count("moved");
            }
            break;
        case 4:
            if (i != j && v[i].at != unknown && v[j].at != unknown) {
                c.note(what, " swap ", i, " ", j);
                std::swap(v[i].h, v[j].h);
                std::swap(v[i].at, v[j].at);
                vp::count("swapped");
            }
            break;
        case 5:
            if (v[j].at != unknown && v.size() < 12) {
                c.note(what, " copy of ", j);
                H copy{v[j].h};
                v.push_back(Slot<H>{copy, v[j].at});
            }
            break;
        case 6:
            c.note(what, " erase ", i);
            v.erase(v.begin() + (long) i); // the later ones are moved down
            break;
        case 7: {
            c.note(what, " ", i, " = {}");
            v[i].h  = H{};
            v[i].at = none;
            break;
        }
        case 8:
            if (v[j].at >= 0) {
                c.note(what, " ", i, " = made of ", j);
                auto at = v[j].at;
                v[i].h  = remade(v[j].h);
                v[i].at = at;
                vp::count("remade");
            }
            break;
        case 14: {
            c.note(what, " reversed");
            auto ok = true;
            for (auto& s : v)
                ok = ok && s.at != unknown;
            if (ok)
                std::reverse(v.begin(), v.end());
            break;
        }
        default: {
            c.note(what, " grows");
            v.reserve(v.capacity() + 1);
            break;
        }
        }
    }

    void convert()
    {
        auto i = pick(cs), j = pick(rs), l = pick(ws);
        if (cs[i].at == unknown || (cs[i].at == none && c.rng.chance(70)))
            return;
        vp::count("converted");
        if (c.rng.chance(60)) {
            c.note("reader ", j, " = cursor ", i);
            if (c.rng.chance(50))
                rs[j].h = cs[i].h;
            else
                rs[j].h = R{cs[i].h};
            rs[j].at = cs[i].at;
        } else {
            c.note("writer ", l, " = cursor ", i);
            if (c.rng.chance(50))
                ws[l].h = cs[i].h;
            else
                ws[l].h = W{cs[i].h};
            ws[l].at = cs[i].at;
        }
        // the cursor itself stays what it is
        read("cursor converted", cs[i].h, cs[i].at);
    }

    void run()
    {
        auto n = 20 + c.rng.below(60);
        for (std::size_t t = 0; t < n && c.fails.empty(); ++t) {
            switch (c.rng.below(12)) {
            case 0:
            case 1:
                handle(rs, "reader", n_places, [&](int p) { return make_reader(p); });
                break;
            case 2:
            case 3:
                handle(cs, "cursor", 5, [&](int p) { return make_cursor(p); });
                break;
            case 4:
                handle(ws, "writer", 5, [&](int p) { return make_writer(p); });
                break;
            case 5: convert(); break;
            case 6:
            case 7: {
                auto i = pick(cs);
                write("cursor", cs[i].h, cs[i].at);
                break;
            }
            case 8: {
                auto i = pick(ws);
                write("writer", ws[i].h, ws[i].at);
                break;
            }
            case 9: {
                auto i = pick(rs);
                read("reader", rs[i].h, rs[i].at);
                break;
            }
            case 10:
                c.note("commit");
                lager::commit(b);
                shown[2] = written[2];
                shown[3] = written[3];
                break;
            default: {
                auto what = c.rng.below(4);
                if (what == 0) {
                    store.dispatch(Put{Val{++next}});
                    wrote(5, Val{next});
                } else if (what == 1) {
                    sensed = ++next;
                    lager::commit(s);
                    wrote(7, Val{next});
                } else if (what == 2) {
                    auto p = Pair{++next, next + 1};
                    ++next;
                    a.set(p);
                    wrote(0, p.x);
                    wrote(1, p.y);
                } else {
                    d.set(Val{++next});
                    wrote(4, Val{next});
                }
                c.note("root ", what);
            }
            }
            if (c.rng.chance(40)) {
                for (auto& r : rs)
                    read("reader", r.h, r.at);
                for (auto& r : cs)
                    read("cursor", r.h, r.at);
                check_roots();
            }
        }
        for (auto& r : rs)
            read("reader", r.h, r.at);
        for (auto& r : cs)
            read("cursor", r.h, r.at);
        check_roots();
        c.nontrivial = rs.size() + cs.size() + ws.size() > 3;
    }
};

} // namespace

int main(int argc, char** argv)
{
    return vp::run_main(argc, argv, [](Case& c) { Run{c}.run(); });
}
