// Reader, cursor, watcher and root lifetimes (C12, C13), setter cursors (C14),
// sensors and constants (C15): random programs over handles, against a model
// that knows which node every handle has, what is reachable and what is shown.
#include "common.hpp"
#include <utility>

#include <lager/commit.hpp>
#include <lager/constant.hpp>
#include <lager/cursor.hpp>
#include <lager/event_loop/manual.hpp>
#include <lager/lenses.hpp>
#include <lager/reader.hpp>
#include <lager/sensor.hpp>
#include <lager/setter.hpp>
#include <lager/state.hpp>
#include <lager/store.hpp>
#include <lager/watch.hpp>
#include <lager/with.hpp>

#include <zug/transducer/map.hpp>

#if defined(__SANITIZE_ADDRESS__)
#define HAVE_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define HAVE_ASAN 1
#endif
#endif

#ifdef HAVE_ASAN
extern "C" std::size_t __sanitizer_get_current_allocated_bytes();
#endif

namespace {
using vp::Case;

// a number that is lost where it is moved from, so that what the library
// shows, compares, or hands on after moving it is seen
constexpr int moved_from = -987654321;
struct Val
{
    int v = 0;
    Val() = default;
    Val(int x)
        : v{x}
    {}
    Val(const Val&) = default;
    Val(Val&& o) noexcept
        : v{std::exchange(o.v, moved_from)}
    {}
    Val& operator=(const Val&) = default;
    Val& operator=(Val&& o) noexcept
    {
        v = std::exchange(o.v, moved_from);
        return *this;
    }
    operator int() const { return v; }
    friend bool operator==(const Val& a, const Val& b) { return a.v == b.v; }
    friend bool operator!=(const Val& a, const Val& b) { return a.v != b.v; }
};

using Reader = lager::reader<Val>;
using Cursor = lager::cursor<Val>;
using IReader = lager::reader<int>;
using ICursor = lager::cursor<int>;

// what the functions given to the library report
struct Log
{
    Case& c;
    std::vector<char> alive;          // node id -> its function exists
    std::vector<long> calls;          // node id -> calls of its function
    std::vector<std::vector<int>> written; // node id -> what its setter got
    std::vector<char> cb_alive;       // callback id -> it exists
    std::function<void(int, int)> on_call;
    bool in_model = false;
};
struct Tok
{
    std::shared_ptr<Log> log;
    int id;
    bool cb;
    Tok(std::shared_ptr<Log> l, int i, bool c)
        : log{l}
        , id{i}
        , cb{c}
    {
        auto& v = cb ? log->cb_alive : log->alive;
        if ((int) v.size() <= id)
            v.resize(id + 1);
        v[id] = 1;
        if (!cb && (int) log->calls.size() <= id) {
            log->calls.resize(id + 1);
            log->written.resize(id + 1);
        }
    }
    Tok(const Tok&) = delete;
    ~Tok() { (cb ? log->cb_alive : log->alive)[id] = 0; }
};
using TokP = std::shared_ptr<Tok>;

int map_fn(int how, int k, int x)
{
    switch (how) {
    case 0:
        return x + k;
    case 1:
        return x / 3;
    default:
        return x & ~3;
    }
}
int comb_fn(int how, int a, int b) { return how == 0 ? a * 31 + b : std::max(a, b); }

struct MapFn
{
    TokP t;
    int how, k;
    Val operator()(int x) const
    {
        ++t->log->calls[t->id];
        return map_fn(how, k, x);
    }
};
struct CombFn
{
    TokP t;
    int how;
    Val operator()(int a, int b) const
    {
        ++t->log->calls[t->id];
        return comb_fn(how, a, b);
    }
};
struct SetterFn
{
    TokP t;
    Cursor to; // may be empty
    bool forward;
    int alter       = 0; // what it forwards is not quite what it got
    std::size_t own = 0;
    void operator()(int v)
    {
        t->log->written[t->id].push_back(v);
        t->log->c.expect(++own == t->log->written[t->id].size(),
                         "C14.state",
                         "the setter function of node ",
                         t->id,
                         " lost what it had stored in itself: it counted ",
                         own,
                         " of ",
                         t->log->written[t->id].size(),
                         " calls");
        vp::count("setter_calls");
        if (forward)
            to.set(v + alter);
    }
};
struct SensorFn
{
    TokP t;
    std::shared_ptr<int> env;
    long own = 0;
    Val operator()()
    {
        ++t->log->calls[t->id];
        vp::count("sensor_calls");
        t->log->c.expect(++own == t->log->calls[t->id],
                         "C15.state",
                         "the function of sensor ",
                         t->id,
                         " lost what it had stored in itself: it counted ",
                         own,
                         " of ",
                         t->log->calls[t->id],
                         " calls");
        return *env;
    }
};
struct Reducer
{
    TokP t;
    Val operator()(const Val&, int a) const
    {
        ++t->log->calls[t->id];
        return a;
    }
};
struct Callback
{
    TokP t;
    void operator()(int v) const
    {
        auto log = t->log;
        log->on_call(t->id, v);
    }
};

using StateA  = lager::state<Val, lager::automatic_tag>;
using StateT  = lager::state<Val, lager::transactional_tag>;
using Sensor  = lager::sensor<Val>;
using Const   = lager::constant<Val>;
auto new_store_a(int v, TokP t)
{
    return lager::make_store<int, lager::automatic_tag>(
        Val{v},
        lager::with_manual_event_loop{},
        lager::with_reducer(Reducer{t}));
}
auto new_store_t(int v, TokP t)
{
    return lager::make_store<int, lager::transactional_tag>(
        Val{v},
        lager::with_manual_event_loop{},
        lager::with_reducer(Reducer{t}));
}
using StoreA = decltype(new_store_a(0, {}));
using StoreT = decltype(new_store_t(0, {}));

enum Kind
{
    k_state_a,
    k_state_t,
    k_store_a,
    k_store_t,
    k_sensor,
    k_constant,
    k_map,
    k_comb,
    k_zoom,
    k_setter_a,
    k_setter_t
};
const char* kind_name[] = {"state:auto",
                           "state:trans",
                           "store:auto",
                           "store:trans",
                           "sensor",
                           "constant",
                           "map",
                           "comb",
                           "zoom",
                           "setter:auto",
                           "setter:trans"};

struct Node
{
    Kind kind;
    std::vector<int> parents;
    int how = 0, k = 0;
    bool forward = false;
    int alter    = 0;
    bool cursor  = false; // can be written to
    int last     = 0;     // shown
    int cur      = 0;     // latest written (roots, setters)
    std::set<int> roots;
    bool has_tok = true;
    bool below_setter = false, below_setter_t = false;
    std::vector<int> written;
    long sensor_calls = 0;
    // written or refreshed since it was last shown: it may be notified again
    // with the value it had
    bool pending = false;
};

struct Handle
{
    std::unique_ptr<Reader> r;
    std::unique_ptr<Cursor> c;
    int node   = -1;
    bool ghost = false; // moved from with callbacks
    std::vector<int> cbs;
    bool busy = false;
};

struct Root
{
    int node = -1;
    std::unique_ptr<StateA> sa;
    std::unique_ptr<StateT> st;
    std::unique_ptr<StoreA> oa;
    std::unique_ptr<StoreT> ot;
    std::unique_ptr<Sensor> se;
    std::unique_ptr<Const> co;
    std::shared_ptr<int> env;
    std::vector<int> cbs;
    template <typename F>
    auto with(F f)
    {
        if (sa)
            return f(*sa);
        if (st)
            return f(*st);
        if (oa)
            return f(*oa);
        if (ot)
            return f(*ot);
        if (se)
            return f(*se);
        return f(*co);
    }
};

struct Call
{
    int cb, value;
};

struct Engine
{
    Case& c;
    vp::Rng& g;
    std::shared_ptr<Log> log;
    std::vector<Node> nodes;
    std::vector<std::unique_ptr<Handle>> hs;
    std::vector<std::unique_ptr<Root>> roots;
    int dirty  = -1;
    int ncbs   = 0;
    int next_v = 1;
    std::vector<Call> got;
    std::map<int, int> must; // node -> value to notify
    std::set<int> may;       // callbacks that need not be called
    std::map<int, char> cb_live; // callbacks that should exist
    bool actions_on = false;
    bool in_direct  = false; // bind or nudge
    int action_budget = 0;

    explicit Engine(Case& cc)
        : c{cc}
        , g{cc.rng}
        , log{new Log{cc, {}, {}, {}, {}, {}, false}}
    {
        log->on_call = [this](int id, int v) { called(id, v); };
    }
    ~Engine()
    {
        actions_on = false;
        hs.clear();
        roots.clear();
    }

    Handle* owner(int cb)
    {
        for (auto& h : hs)
            for (auto x : h->cbs)
                if (x == cb)
                    return h.get();
        return nullptr;
    }
    Root* root_owner(int cb)
    {
        for (auto& h : roots)
            for (auto x : h->cbs)
                if (x == cb)
                    return h.get();
        return nullptr;
    }
    std::string key(int node, const char* what, const char* dflt)
    {
        if (node >= 0) {
            auto& n = nodes[node];
            if (n.below_setter)
                return std::string("C14.") + what;
            for (auto r : n.roots)
                if (nodes[r].kind == k_sensor || nodes[r].kind == k_constant)
                    return std::string("C15.") + what;
        }
        return std::string(dflt) + what;
    }

    // -------------------------------------------------------- callbacks
    void called(int cb, int v)
    {
        vp::count("watch_calls");
        got.push_back({cb, v});
        auto* h = owner(cb);
        auto* r = h ? nullptr : root_owner(cb);
        if (!c.expect(h || r,
                      "C12.called_dead",
                      "callback ",
                      cb,
                      " was called after it was unbound or its owner gone"))
            return;
        if (h && !h->ghost) {
            int shown = h->r ? h->r->get() : h->c->get();
            c.expect(shown == v,
                     key(h->node, "notified", "C12."),
                     "callback ",
                     cb,
                     " got ",
                     v,
                     " while its reader shows ",
                     shown);
        }
        if (!actions_on || action_budget <= 0 || !g.chance(20))
            return;
        --action_budget;
        vp::count("actions_in_callbacks");
        // also on the owner of the running callback
        switch (g.below(4)) {
        case 0:
            drop_handle(true);
            break;
        case 1:
            unbind(true);
            break;
        case 2:
            add_watch(true);
            break;
        default:
            copy_handle();
        }
        if (owner(cb) != h)
            vp::count("owner_ended_inside");
    }

    void check_calls(const char* what)
    {
        // per owner, in order
        auto wanted = [&](int node) -> const int* {
            auto it = must.find(node);
            return it == must.end() ? nullptr : &it->second;
        };
        auto check = [&](int node, bool ghost, const std::vector<int>& cbs) {
            if (altered && node >= 0 && nodes[node].below_setter && !ghost) {
                auto w = wanted(node);
                std::map<int, int> last;
                for (auto& x : got)
                    if (std::find(cbs.begin(), cbs.end(), x.cb) != cbs.end())
                        last[x.cb] = x.value;
                vp::count("altered_checks");
                for (auto x : cbs)
                    if (!may.count(x))
                        c.expect(!w || (last.count(x) && last[x] == *w),
                                 key(node, "last", "C12."),
                                 what,
                                 ": callback ",
                                 x,
                                 " was last given ",
                                 last.count(x) ? std::to_string(last[x])
                                               : "nothing",
                                 " instead of ",
                                 w ? *w : 0);
                return;
            }
            std::vector<int> seen;
            bool again = false;
            for (auto& x : got)
                if (std::find(cbs.begin(), cbs.end(), x.cb) != cbs.end()) {
                    seen.push_back(x.cb);
                    auto w = node >= 0 ? wanted(node) : nullptr;
                    if (w)
                        c.expect(*w == x.value,
                                 key(node, "notified", "C12."),
                                 what,
                                 ": callback ",
                                 x.cb,
                                 " got ",
                                 x.value,
                                 " instead of ",
                                 *w);
                    else if (node >= 0 && may_nodes.count(node) &&
                             may_nodes[node] == x.value)
                        again = true;
                    else if (!ghost)
                        c.fail(key(node, "called", "C12."),
                               what,
                               ": callback ",
                               x.cb,
                               " was called though its reader did not change");
                }
            if (ghost || again)
                return;
            bool w = node >= 0 && wanted(node);
            std::vector<int> want;
            if (w)
                for (auto x : cbs)
                    if (!may.count(x))
                        want.push_back(x);
            std::vector<int> sure;
            for (auto x : seen)
                if (!may.count(x))
                    sure.push_back(x);
            vp::count("owners_checked");
            if (w)
                vp::count("must_notify", want.size());
            else
                vp::count("must_not_notify", cbs.size());
            c.expect(sure == want,
                     key(node, "calls", "C12."),
                     what,
                     ": callbacks ",
                     vp::show(sure),
                     " were called instead of ",
                     vp::show(want));
        };
        for (auto& h : hs)
            check(h->node, h->ghost, h->cbs);
        for (auto& r : roots)
            check(r->node, false, r->cbs);
        must.clear();
        may.clear();
        may_nodes.clear();
        altered = false;
        got.clear();
    }

    // ------------------------------------------------------------ model
    int fn(const Node& n)
    {
        switch (n.kind) {
        case k_map:
            return map_fn(n.how, n.k, nodes[n.parents[0]].last);
        case k_comb:
            return comb_fn(
                n.how, nodes[n.parents[0]].last, nodes[n.parents[1]].last);
        case k_zoom:
            return nodes[n.parents[0]].last + n.k;
        default:
            return nodes[n.parents[0]].last;
        }
    }
    void propagate(int from, int v)
    {
        std::set<int> sent;
        auto show = [&](int i, int x) {
            auto& n = nodes[i];
            n.cur   = x;
            if (x != n.last) {
                n.last = x;
                must[i] = x;
                sent.insert(i);
            } else if (n.pending) {
                may_nodes[i] = x;
                sent.insert(i);
            }
            n.pending = false;
        };
        show(from, v);
        for (int i = from + 1; i < (int) nodes.size(); ++i)
            for (auto p : nodes[i].parents)
                if (sent.count(p)) {
                    show(i, fn(nodes[i]));
                    break;
                }
    }
    // what update() does before it reads
    void refresh(int i)
    {
        auto& n = nodes[i];
        if (n.kind != k_zoom)
            return;
        refresh(n.parents[0]);
        auto x = nodes[n.parents[0]].cur + n.k;
        if (x != n.cur) {
            n.cur     = x;
            n.pending = true;
        }
    }
    std::map<int, int> may_nodes;
    bool altered = false; // a setter wrote another value: both may be notified
    // its uncommitted value would show through a combination
    bool combined(int root)
    {
        for (auto& n : nodes)
            if (n.roots.size() > 1 && n.roots.count(root))
                return true;
        return false;
    }
    void write(int i, int v)
    {
        auto& n = nodes[i];
        switch (n.kind) {
        case k_state_a:
            n.cur = v;
            propagate(i, v);
            break;
        case k_state_t:
            n.pending |= n.cur != v;
            n.cur = v;
            dirty = i;
            break;
        case k_zoom:
            write(n.parents[0], v - n.k);
            break;
        case k_setter_a:
            n.written.push_back(v);
            if (n.forward)
                write(n.parents[0], v + n.alter);
            altered |= n.forward && n.alter;
            propagate(i, v);
            break;
        case k_setter_t:
            n.written.push_back(v);
            if (n.forward)
                write(n.parents[0], v + n.alter);
            altered |= n.forward && n.alter;
            nodes[i].pending |= nodes[i].cur != v;
            nodes[i].cur = v;
            break;
        default:
            c.fail("harness", "written to ", kind_name[n.kind]);
        }
    }
    void commit_model(int r)
    {
        auto& n = nodes[r];
        if (n.kind == k_state_t || n.kind == k_store_t)
            propagate(r, n.cur);
        if (dirty == r)
            dirty = -1;
    }

    // -------------------------------------------------------- invariants
    void check_all(const char* what)
    {
        check_calls(what);
        std::vector<char> reach(nodes.size());
        std::function<void(int)> mark = [&](int i) {
            if (i < 0 || reach[i])
                return;
            reach[i] = 1;
            for (auto p : nodes[i].parents)
                mark(p);
        };
        for (auto& h : hs)
            mark(h->node);
        for (auto& r : roots)
            mark(r->node);
        long live = 0, dead = 0;
        for (int i = 0; i < (int) nodes.size(); ++i) {
            auto& n = nodes[i];
            if (n.has_tok) {
                bool a = log->alive[i];
                ++(a ? live : dead);
                if (reach[i])
                    c.expect(a,
                             "C13.died",
                             what,
                             ": node ",
                             i,
                             " is still used but its function is gone");
                else
                    c.expect(!a,
                             "C13.kept",
                             what,
                             ": node ",
                             i,
                             " (",
                             kind_name[n.kind],
                             ") is out of reach but still alive");
            }
            if (n.kind == k_setter_a || n.kind == k_setter_t)
                c.expect(log->written[i] == n.written,
                         "C14.forwarded",
                         what,
                         ": setter ",
                         i,
                         " got ",
                         vp::show(log->written[i]),
                         " instead of ",
                         vp::show(n.written));
            if (n.kind == k_sensor)
                c.expect(log->calls[i] == n.sensor_calls,
                         "C15.samples",
                         what,
                         ": sensor ",
                         i,
                         " was called ",
                         log->calls[i],
                         " times instead of ",
                         n.sensor_calls);
        }
        vp::count("nodes_live", live);
        vp::count("nodes_released", dead);
        for (auto& h : hs) {
            if (h->node < 0)
                continue;
            int shown = h->r ? h->r->get() : h->c->get();
            vp::count("reads");
            c.expect(shown == nodes[h->node].last,
                     key(h->node, "value", "C13."),
                     what,
                     ": node ",
                     h->node,
                     " (",
                     kind_name[nodes[h->node].kind],
                     ") shows ",
                     shown,
                     " instead of ",
                     nodes[h->node].last);
        }
        for (auto& r : roots) {
            int shown = r->with([](auto& x) { return x.get(); });
            c.expect(shown == nodes[r->node].last,
                     key(r->node, "value", "C13."),
                     what,
                     ": root ",
                     r->node,
                     " shows ",
                     shown,
                     " instead of ",
                     nodes[r->node].last);
        }
        for (auto& p : cb_live)
            c.expect((bool) log->cb_alive[p.first] == (bool) p.second,
                     p.second ? "C12.callback_gone" : "C12.callback_kept",
                     what,
                     ": callback ",
                     p.first,
                     p.second ? " was destroyed early"
                              : " outlives its owner's end or unbind()");
    }

    // -------------------------------------------------------------- ops
    template <typename C>
    auto* pick(C& v)
    {
        using P = decltype(v[0].get());
        return v.empty() ? P{} : v[g.below(v.size())].get();
    }
    Handle* some(bool cursor = false, bool non_empty = true)
    {
        std::vector<Handle*> v;
        for (auto& h : hs)
            if ((!non_empty || h->node >= 0) && (!cursor || h->c))
                v.push_back(h.get());
        return v.empty() ? nullptr : v[g.below(v.size())];
    }
    Handle* add(int node, std::unique_ptr<Reader> r, std::unique_ptr<Cursor> cu)
    {
        auto h  = std::make_unique<Handle>();
        h->node = node;
        h->r    = std::move(r);
        h->c    = std::move(cu);
        hs.push_back(std::move(h));
        return hs.back().get();
    }
    TokP tok(int id) { return std::make_shared<Tok>(log, id, false); }

    int new_node(Node n)
    {
        for (auto p : n.parents) {
            auto& q = nodes[p];
            n.roots.insert(q.roots.begin(), q.roots.end());
            n.below_setter |= q.below_setter;
            n.below_setter_t |= q.below_setter_t;
        }
        if (n.parents.empty())
            n.roots.insert((int) nodes.size());
        else
            n.last = n.cur = fn(n);
        nodes.push_back(n);
        return (int) nodes.size() - 1;
    }

    void new_root()
    {
        auto id = (int) nodes.size();
        auto k  = Kind(g.below(6));
        auto r  = std::make_unique<Root>();
        Node n;
        n.kind = k;
        n.last = n.cur = next_v++;
        r->node        = id;
        c.note("root ", id, " ", kind_name[k], " = ", n.last);
        switch (k) {
        case k_state_a:
            r->sa.reset(new StateA{lager::make_state(Val{n.last}, lager::automatic_tag{})});
            n.has_tok = false;
            n.cursor  = true;
            break;
        case k_state_t:
            r->st.reset(
                new StateT{lager::make_state(Val{n.last}, lager::transactional_tag{})});
            n.has_tok = false;
            n.cursor  = true;
            break;
        case k_store_a:
            r->oa.reset(new StoreA{new_store_a(n.last, tok(id))});
            break;
        case k_store_t:
            r->ot.reset(new StoreT{new_store_t(n.last, tok(id))});
            break;
        case k_sensor:
            r->env         = std::make_shared<int>(n.last);
            n.sensor_calls = 1;
            r->se.reset(new Sensor{lager::make_sensor(SensorFn{tok(id), r->env})});
            break;
        default:
            r->co.reset(new Const{lager::make_constant(Val{n.last})});
            n.has_tok = false;
        }
        new_node(n);
        if (n.has_tok == false && (int) log->alive.size() <= id)
            grow(id);
        // a first handle
        from_root(r.get());
        roots.push_back(std::move(r));
    }
    void grow(int id)
    {
        log->alive.resize(id + 1);
        log->calls.resize(id + 1);
        log->written.resize(id + 1);
    }
    void from_root(Root* r)
    {
        c.note("handle on root ", r->node);
        if (r->sa && g.chance(60))
            add(r->node, {}, std::make_unique<Cursor>(*r->sa));
        else if (r->st && g.chance(60))
            add(r->node, {}, std::make_unique<Cursor>(*r->st));
        else
            add(r->node,
                r->with([](auto& x) { return std::make_unique<Reader>(x); }),
                {});
    }
    bool full() { return nodes.size() > 60 || hs.size() > 24; }

    void derive_map()
    {
        auto h = some();
        if (!h || full())
            return;
        Node n;
        n.kind    = k_map;
        n.parents = {h->node};
        n.how     = g.below(3);
        n.k       = g.range(1, 9);
        auto id   = (int) nodes.size();
        c.note("node ", id, " = map ", n.how, " of ", h->node);
        auto f = MapFn{tok(id), n.how, n.k};
        auto r = std::make_unique<Reader>();
        if (h->r)
            *r = h->r->map(std::move(f));
        else
            *r = h->c->map(std::move(f)).make();
        new_node(n);
        add(id, std::move(r), {});
    }
    void derive_comb()
    {
        auto a = some(), b = some();
        if (!a || full())
            return;
        auto &x = nodes[a->node], &y = nodes[b->node];
        for (auto r : x.roots)
            if (y.roots.count(r) || lost.count(r))
                return;
        for (auto r : y.roots)
            if (lost.count(r))
                return;
        if (x.below_setter_t || y.below_setter_t)
            return; // shows what was not committed: see C07.partial_commit
        Node n;
        n.kind    = k_comb;
        n.parents = {a->node, b->node};
        n.how     = g.below(2);
        auto id   = (int) nodes.size();
        c.note("node ", id, " = comb ", n.how, " of ", a->node, ",", b->node);
        auto f = CombFn{tok(id), n.how};
        Reader ra = a->r ? *a->r : Reader{*a->c};
        Reader rb = b->r ? *b->r : Reader{*b->c};
        auto r =
            std::make_unique<Reader>(lager::with(ra, rb).map(std::move(f)));
        new_node(n);
        add(id, std::move(r), {});
    }
    void derive_zoom()
    {
        auto h = some(true);
        if (!h || full())
            return;
        Node n;
        n.kind    = k_zoom;
        n.cursor  = true;
        n.parents = {h->node};
        n.k       = g.range(1, 9);
        auto id   = (int) nodes.size();
        c.note("node ", id, " = zoom ", n.k, " of ", h->node);
        auto t  = tok(id);
        auto ge = [t, k = n.k](const Val& x) {
            ++t->log->calls[t->id];
            return Val{x + k};
        };
        auto se = [t, k = n.k](const Val&, const Val& v) { return Val{v - k}; };
        t.reset();
        auto cu = std::make_unique<Cursor>(
            h->c->zoom(lager::lenses::getset(ge, se)));
        new_node(n);
        add(id, {}, std::move(cu));
    }
    void derive_setter()
    {
        auto h = some();
        if (!h || full())
            return;
        Node n;
        n.kind    = g.chance(50) ? k_setter_a : k_setter_t;
        n.cursor  = true;
        n.parents = {h->node};
        n.forward = h->c && g.chance(60);
        n.below_setter = true;
        n.below_setter_t = n.kind == k_setter_t;
        auto id = (int) nodes.size();
        c.note("node ",
               id,
               " = ",
               kind_name[n.kind],
               n.forward ? " forwarding to " : " of ",
               h->node);
        if (n.forward && g.chance(40))
            n.alter = g.range(1, 5);
        SetterFn f{tok(id), n.forward ? *h->c : Cursor{}, n.forward, n.alter};
        auto cu = std::make_unique<Cursor>();
        if (n.kind == k_setter_a) {
            if (h->c)
                *cu = Reader{*h->c}.setter<lager::automatic_tag>(std::move(f));
            else if (g.chance(50))
                *cu = h->r->setter<lager::automatic_tag>(std::move(f));
            else
                *cu = lager::with_setter(
                    *h->r, std::move(f), lager::automatic_tag{});
        } else {
            if (h->c)
                *cu = Reader{*h->c}.setter(std::move(f));
            else if (g.chance(50))
                *cu = h->r->setter(std::move(f));
            else
                *cu = lager::with_setter(*h->r, std::move(f));
        }
        new_node(n);
        add(id, {}, std::move(cu));
    }
    void copy_handle()
    {
        auto h = some(false, g.chance(90));
        if (!h || full())
            return;
        c.note("copy of a handle on ", h->node);
        if (h->c && g.chance(60))
            add(h->node, {}, std::make_unique<Cursor>(*h->c));
        else if (h->c)
            add(h->node, std::make_unique<Reader>(*h->c), {});
        else
            add(h->node, std::make_unique<Reader>(*h->r), {});
    }
    void move_handle()
    {
        auto h = some(false, g.chance(90));
        if (!h || full() || h->busy)
            return;
        c.note("move out of a handle on ",
               h->node,
               " with ",
               h->cbs.size(),
               " watchers");
        auto n = h->node;
        if (h->c)
            add(n, {}, std::make_unique<Cursor>(std::move(*h->c)));
        else
            add(n, std::make_unique<Reader>(std::move(*h->r)), {});
        moved(h);
    }
    void moved(Handle* h)
    {
        // whether its callbacks are still called is left open
        h->ghost = h->ghost || (h->node >= 0 && !h->cbs.empty());
        h->node  = -1;
    }
    void assign(bool mv)
    {
        auto a = some(false, false), b = some(false, false);
        if (!a || a->busy || b->busy)
            return;
        if (a->c && !b->c)
            return;
        if (mv && a == b)
            mv = false;
        c.note(mv ? "move " : "",
               a == b ? "self-assign " : "assign ",
               "to a handle on ",
               a->node,
               " with ",
               a->cbs.size(),
               " watchers, one on ",
               b->node);
        if (a == b && a->ghost)
            return;
        auto n = b->node;
        if (a->c) {
            if (mv)
                *a->c = std::move(*b->c);
            else
                *a->c = *b->c;
        } else if (b->r) {
            if (mv)
                *a->r = std::move(*b->r);
            else
                *a->r = *b->r;
        } else {
            if (mv)
                *a->r = std::move(*b->c);
            else
                *a->r = *b->c;
        }
        a->ghost = false;
        a->node  = n;
        if (mv)
            moved(b);
    }
    Callback new_cb(int& id)
    {
        id          = ncbs++;
        cb_live[id] = 1;
        return Callback{std::make_shared<Tok>(log, id, true)};
    }
    void add_watch(bool inside)
    {
        int id;
        if (!inside && g.chance(25)) {
            auto r = pick(roots);
            if (!r)
                return;
            auto cb = new_cb(id);
            c.note("watch ", id, " on root ", r->node);
            r->cbs.push_back(id);
            r->with([&](auto& x) {
                watch(x, std::move(cb));
                return 0;
            });
            return;
        }
        auto h = some(false, g.chance(85));
        if (!h || h->cbs.size() > 4)
            return;
        if (h->ghost)
            return;
        auto cb = new_cb(id);
        c.note(inside ? "(in callback) " : "", "watch ", id, " on ", h->node);
        h->cbs.push_back(id);
        if (inside)
            may.insert(id);
        if (h->c) {
            if (g.chance(50))
                h->c->watch(std::move(cb));
            else
                watch(*h->c, std::move(cb));
        } else
            h->r->watch(std::move(cb));
    }
    void bind()
    {
        auto h = some();
        if (!h || h->cbs.size() > 4)
            return;
        int id;
        auto cb = new_cb(id);
        c.note("bind ", id, " on ", h->node);
        h->cbs.push_back(id);
        actions_on = false;
        if (h->c)
            h->c->bind(std::move(cb));
        else
            h->r->bind(std::move(cb));
        c.expect(got.size() == 1 && got[0].cb == id &&
                     got[0].value == nodes[h->node].last,
                 "C12.bind",
                 "bind made ",
                 got.size(),
                 " calls",
                 got.size() ? " with " + std::to_string(got[0].value) : "");
        got.clear();
        vp::count("binds");
    }
    void nudge()
    {
        auto h = some();
        if (!h)
            return;
        c.note("nudge ", h->node, " with ", h->cbs.size(), " watchers");
        actions_on = false;
        if (h->c)
            h->c->nudge();
        else
            h->r->nudge();
        bool ok = got.size() == h->cbs.size();
        for (std::size_t i = 0; ok && i < got.size(); ++i)
            ok = got[i].cb == h->cbs[i] && got[i].value == nodes[h->node].last;
        c.expect(ok, "C12.nudge", "nudge made ", got.size(), " calls");
        got.clear();
        vp::count("nudges");
    }
    void gone(Handle* h)
    {
        for (auto x : h->cbs)
            cb_live[x] = 0;
        h->cbs.clear();
    }
    void unbind(bool inside)
    {
        auto h = some(false, g.chance(80));
        if (!h || h->busy)
            return;
        c.note(inside ? "(in callback) " : "", "unbind on ", h->node);
        gone(h);
        h->ghost = false;
        if (h->c)
            h->c->unbind();
        else
            h->r->unbind();
        vp::count("unbinds");
    }
    void drop_handle(bool inside)
    {
        if (hs.empty())
            return;
        auto i = g.below(hs.size());
        if (hs[i]->busy)
            return;
        c.note(inside ? "(in callback) " : "",
               "drop a handle on ",
               hs[i]->node,
               " with ",
               hs[i]->cbs.size(),
               " watchers");
        gone(hs[i].get());
        auto h = std::move(hs[i]);
        hs.erase(hs.begin() + i);
        h.reset();
        vp::count("handles_dropped");
    }
    void drop_root()
    {
        if (roots.empty())
            return;
        auto i = g.below(roots.size());
        auto n = roots[i]->node;
        if (dirty == n && combined(n) && !ending)
            return;
        c.note("drop root ", n);
        for (auto x : roots[i]->cbs)
            cb_live[x] = 0;
        roots[i]->cbs.clear();
        auto r = std::move(roots[i]);
        roots.erase(roots.begin() + i);
        r.reset();
        vp::count("roots_dropped");
        if (dirty == n) {
            // can never be committed: what was written is lost
            lost.insert(n);
            dirty = -1;
        }
    }
    std::set<int> lost; // roots that have uncommitted values for ever
    bool ending = false;

    void write_handle()
    {
        auto h = some(true);
        if (!h)
            return;
        auto n = h->node;
        // writes go to the root; one root is written but uncommitted at most
        for (auto r : nodes[n].roots)
            if ((dirty >= 0 && r != dirty) || lost.count(r))
                return;
        bool root_gone = true;
        for (auto& r : roots)
            root_gone &= !nodes[n].roots.count(r->node);
        for (auto r : nodes[n].roots)
            if (root_gone && nodes[r].kind == k_state_t && combined(r))
                return;
        auto v  = g.chance(15) ? nodes[n].last : (int) g.range(-20, 20);
        bool up = g.chance(30);
        if (up) {
            refresh(n);
            v = nodes[n].cur + 3;
        }
        c.note(up ? "update " : "set ", n, " to ", v);
        for (auto r : nodes[n].roots)
            if (root_gone && nodes[r].kind == k_state_t)
                lost.insert(r);
        write(n, v);
        if (root_gone)
            dirty = -1;
        if (dirty >= 0) {
            bool there = false;
            for (auto& r : roots)
                there |= r->node == dirty;
            if (!there) {
                lost.insert(dirty);
                dirty = -1;
            }
        }
        h->busy    = true;
        actions_on = true;
        if (up)
            h->c->update([](const Val& x) { return Val{x + 3}; });
        else if (g.chance(50))
            h->c->set(v);
        else {
            const Val w = v;
            h->c->set(w);
        }
        actions_on = false;
        h->busy    = false;
        vp::count("writes");
        if (nodes[n].below_setter)
            vp::count("setter_writes");
    }
    void write_root()
    {
        auto r = pick(roots);
        if (!r || (dirty >= 0 && dirty != r->node))
            return;
        auto& n    = nodes[r->node];
        auto v     = g.chance(15) ? n.last : (int) g.range(-20, 20);
        actions_on = true;
        if (r->oa) {
            c.note("dispatch ", v, " to ", r->node);
            n.cur = v;
            propagate(r->node, v);
            r->oa->dispatch(v);
        } else if (r->ot) {
            c.note("dispatch ", v, " to ", r->node, " and commit");
            r->ot->dispatch(v);
            check_all("before the commit");
            n.cur = v;
            commit_model(r->node);
            actions_on = true;
            lager::commit(*r->ot);
        } else if (r->se) {
            *r->env = v;
            c.note("sensor ", r->node, " would give ", v);
            check_all("before the sensor's commit");
            actions_on = true;
            if (g.chance(80)) {
                c.note("commit sensor ", r->node);
                ++n.sensor_calls;
                n.cur = v;
                propagate(r->node, v);
                vp::count("sensor_commits");
                lager::commit(*r->se);
            }
        } else if (r->co) {
            c.note("commit constant ", r->node);
            lager::commit(*r->co);
        } else if (r->sa) {
            c.note("set root ", r->node, " to ", v);
            write(r->node, v);
            r->sa->set(v);
        } else {
            c.note("set root ", r->node, " to ", v);
            write(r->node, v);
            r->st->set(v);
        }
        actions_on = false;
    }
    void commit()
    {
        if (dirty < 0)
            return;
        for (auto& r : roots)
            if (r->node == dirty) {
                if (nodes[dirty].cur == nodes[dirty].last) {
                    // what happens to a value that comes back before it was
                    // shown is left open
                    auto v = nodes[dirty].last + 1;
                    c.note("set root ", dirty, " to ", v);
                    write(dirty, v);
                    r->st->set(v);
                }
                c.note("commit ", dirty);
                commit_model(r->node);
                actions_on = true;
                if (g.chance(50) || !two(r.get()))
                    lager::commit(*r->st);
                actions_on = false;
                vp::count("commits");
                return;
            }
    }
    // together with another, unchanged, root
    bool two(Root* r)
    {
        for (auto& o : roots)
            if (o.get() != r && o->co) {
                lager::commit(*r->st, *o->co);
                return true;
            } else if (o.get() != r && o->st && !lost.count(o->node)) {
                lager::commit(*o->st, *r->st);
                return true;
            } else if (o.get() != r && o->se) {
                auto& n = nodes[o->node];
                ++n.sensor_calls;
                vp::count("sensor_commits");
                n.cur = *o->env;
                auto both = false;
                for (auto& m : nodes)
                    both |= m.roots.count(o->node) && m.roots.count(r->node);
                // combined: two steps would be seen
                if (both) {
                    *o->env = n.last;
                    n.cur   = n.last;
                } else
                    propagate(o->node, n.cur);
                lager::commit(*r->st, *o->se);
                return true;
            }
        return false;
    }
    void read_empty()
    {
        for (auto& h : hs)
            if (h->node < 0) {
                bool threw = false;
                try {
                    (void) (h->r ? h->r->get() : h->c->get());
                } catch (const std::runtime_error&) {
                    threw = true;
                }
                vp::count("empty_reads");
                c.expect(threw, "C12.empty", "reading an empty reader worked");
            }
    }

    void run()
    {
        new_root();
        check_all("start");
        auto steps = g.range(15, 60);
        for (int i = 0; i < steps && c.fails.empty(); ++i) {
            action_budget = g.chance(30) ? 2 : 0;
            auto p        = g.below(100);
            const char* w = "";
            if (p < 4) {
                if (roots.size() < 3 && !full())
                    new_root();
                w = "new root";
            } else if (p < 7)
                drop_root(), w = "drop root";
            else if (p < 14)
                derive_map(), w = "map";
            else if (p < 18)
                derive_comb(), w = "comb";
            else if (p < 22)
                derive_zoom(), w = "zoom";
            else if (p < 28)
                derive_setter(), w = "setter";
            else if (p < 31)
                copy_handle(), w = "copy";
            else if (p < 34)
                move_handle(), w = "move";
            else if (p < 38)
                assign(false), w = "assign";
            else if (p < 41)
                assign(true), w = "move-assign";
            else if (p < 51)
                add_watch(false), w = "watch";
            else if (p < 54)
                bind(), w = "bind";
            else if (p < 57)
                nudge(), w = "nudge";
            else if (p < 59)
                unbind(false), w = "unbind";
            else if (p < 66)
                drop_handle(false), w = "drop";
            else if (p < 82)
                write_handle(), w = "write";
            else if (p < 94)
                write_root(), w = "write root";
            else if (p < 99)
                commit(), w = "commit";
            else
                read_empty(), w = "read empty";
            if (p >= 4 && p < 31 && hs.empty() && !roots.empty())
                from_root(pick(roots));
            else if (g.chance(4) && !roots.empty() && !full())
                from_root(pick(roots));
            check_all(w);
        }
        c.nontrivial = nodes.size() > 2;
        ending = true;
        // the end, in any order
        while (!hs.empty() || !roots.empty()) {
            if (g.chance(70) || roots.empty())
                drop_handle(false);
            else
                drop_root();
            if (c.fails.empty())
                check_all("end");
        }
    }
};

// Derived readers made, watched, used and dropped again and again: memory
// stays bounded, whichever goes first.
void growth(Case& c)
{
#ifdef HAVE_ASAN
    auto& g    = c.rng;
    auto shape = g.below(6);
    auto n     = 150;
    // others that stay, on the same source
    auto stay  = g.chance(50) ? g.below(4) : g.below(60);
    auto burst = 1 + (int) g.below(40);
    c.note("growth of shape ", shape, " with ", stay, " that stay and ", burst, " at once");
    auto src = lager::make_state(0, lager::automatic_tag{});
    auto top = lager::reader<int>{src.map([](int x) { return x + 1; })};
    std::vector<IReader> others;
    for (std::size_t k = 0; k < stay; ++k)
        others.push_back(IReader{(k % 2 ? top : IReader{src}).map(
            [k](int x) { return x + (int) k; })});
    // a watcher that writes, so that notifications are nested
    IReader writes = src;
    if (g.chance(30))
        writes.watch([&](int x) {
            if (x % 2 == 0)
                src.set(x + 1);
        });
    auto step = [&](int i) {
        auto& s = src;
        if (shape == 5) {
            std::vector<IReader> many;
            for (int k = 0; k < burst; ++k)
                many.push_back((k % 3 ? IReader{s} : top).map(
                    [](int x) { return x * 2; }));
            if (i % 3)
                s.set(2 * i);
        } else if (shape == 0) {
            IReader r = s.map([](int x) { return x * 2; });
            r.watch([](int) {});
            s.set(i);
        } else if (shape == 1) {
            IReader r = top.map([](int x) { return x * 2; });
            IReader q = r.map([](int x) { return x * 2; });
            r        = IReader{};
            s.set(i);
        } else if (shape == 2) {
            ICursor q = s.zoom(lager::lenses::getset(
                [](int x) { return x + 1; }, [](int, int v) { return v - 1; }));
            q.set(i);
        } else if (shape == 3) {
            ICursor q = IReader{s}.setter<lager::automatic_tag>([](int) {});
            IReader r = q.map([](int x) { return x * 2; });
            r.watch([](int) {});
            q.set(i);
            s.set(i);
        } else {
            IReader r = lager::with(s, top).map([](int x, int y) { return x + y; });
            std::vector<IReader> copies;
            for (int k = 0; k < 5; ++k) {
                copies.push_back(r);
                copies.back().watch([](int) {});
            }
            s.set(i);
        }
        // what hangs from it was released before this change
        s.set(4 * i + 1000000);
    };
    for (int i = 0; i < 20; ++i)
        step(i);
    auto before = __sanitizer_get_current_allocated_bytes();
    for (int i = 0; i < n; ++i)
        step(i + 100);
    auto after = __sanitizer_get_current_allocated_bytes();
    vp::count("growth_runs");
    c.expect(after < before + 4000,
             "C13.memory",
             "after ",
             n,
             " readers were made and dropped ",
             after - before,
             " bytes more are in use (shape ",
             shape,
             ", ",
             stay,
             " stay)");
    c.nontrivial = true;
#endif
}

// ------------------------------------------------------------------ probes
void idle_growth(Case& c)
{
#ifdef HAVE_ASAN
    auto src  = lager::make_state(0, lager::automatic_tag{});
    auto step = [&] { IReader r = src.map([](int x) { return x * 2; }); };
    for (int i = 0; i < 20; ++i)
        step();
    auto before = __sanitizer_get_current_allocated_bytes();
    for (int i = 0; i < 1000; ++i)
        step();
    auto after = __sanitizer_get_current_allocated_bytes();
    c.expect(after < before + 20000,
             "C13.idle_growth",
             "while the source does not change, 1000 dropped readers keep ",
             after - before,
             " bytes");
#endif
}
void unbind_in_own_callback(Case& c)
{
    auto src  = lager::make_state(0, lager::automatic_tag{});
    IReader r  = src.map([](int x) { return x; });
    int calls = 0;
    r.watch([&](int) {
        ++calls;
        r.unbind();
    });
    src.set(1);
    src.set(2);
    c.expect(calls == 1, "C12.unbind_inside", "called ", calls, " times");
}
void destroy_in_own_callback(Case& c)
{
    auto src  = lager::make_state(0, lager::automatic_tag{});
    auto r    = std::make_unique<IReader>(src.map([](int x) { return x; }));
    int calls = 0;
    auto& rr  = r;
    r->watch([&](int) {
        ++calls;
        rr.reset();
    });
    src.set(1);
    src.set(2);
    c.expect(calls == 1, "C12.destroy_inside", "called ", calls, " times");
}
} // namespace

int main(int argc, char** argv)
{
    return vp::run_main(
        argc,
        argv,
        [](Case& c) {
            if (c.index % 150 == 7)
                return growth(c);
            Engine e{c};
            e.run();
        },
        {{"idle_growth", idle_growth},
         {"unbind_in_own_callback", unbind_in_own_callback},
         {"destroy_in_own_callback", destroy_in_own_callback}});
}
