// C04: stores, loops and futures used from many threads, under
// ThreadSanitizer.  The monitors' own records are plain memory on purpose:
// what must be serialized by the loop is only ever touched there, so that the
// race detector also judges the order between the things the loop runs.
#include "common.hpp"

#include <lager/context.hpp>
#include <lager/event_loop/boost_asio.hpp>
#include <lager/event_loop/safe_queue.hpp>
#include <lager/extra/thunk.hpp>
#include <lager/future.hpp>
#include <lager/store.hpp>
#include <lager/watch.hpp>

#include <boost/asio/io_context.hpp>
#include <boost/asio/strand.hpp>
#include <boost/asio/thread_pool.hpp>
#include <chrono>
#include <deque>
#include <optional>
#include <thread>

namespace {

using vp::Case;
using vp::Rng;

void delay(Rng& r)
{
    switch (r.below(12)) {
    case 0: std::this_thread::yield(); break;
    case 1:
        for (auto n = r.below(400); n; --n)
            std::atomic_signal_fence(std::memory_order_seq_cst);
        break;
    case 2:
        if (r.chance(25))
            std::this_thread::sleep_for(std::chrono::microseconds(r.below(150)));
        break;
    default: break;
    }
}

struct Start // lets threads start at once
{
    std::atomic<int> waiting;
    explicit Start(int n)
        : waiting{n}
    {}
    void wait()
    {
        --waiting;
        while (waiting > 0)
            std::this_thread::yield();
    }
};

// Who may run things: one thread, or (strands) one at a time.
struct Serial
{
    Case& c;
    std::atomic<int> inside{0};
    std::thread::id owner{};
    bool one_thread = true;
    struct Scope
    {
        Serial& s;
        bool outer;
        Scope(Serial& s_, const char* what)
            : s{s_}
        {
            auto me = std::hash<std::thread::id>{}(std::this_thread::get_id());
            int tag = (int) (me & 0x7fffffff) | 1;
            int was = 0;
            outer   = s.inside.compare_exchange_strong(was, tag);
            if (!outer && was != tag)
                s.c.fail("C04.parallel", what, " runs while the loop runs");
            if (s.one_thread && std::this_thread::get_id() != s.owner)
                s.c.fail("C04.thread", what, " runs off the loop's thread");
        }
        ~Scope()
        {
            if (outer)
                s.inside = 0;
        }
    };
};

// ------------------------------------------------------------------ drivers
struct SafeQueueD
{
    static constexpr const char* name = "safe_queue";
    static constexpr bool one_thread  = true;
    static constexpr bool async       = false;
    lager::safe_queue_event_loop q;
    Rng rng;
    explicit SafeQueueD(Case& c)
        : rng{c.rng.fork()}
    {}
    auto loop() { return lager::with_safe_queue_event_loop{q}; }
    // runs the loop here until the producers have ended and all is done
    template <typename Ended, typename Runs>
    void drive(Ended ended, Runs runs)
    {
        while (!ended()) {
            q.step();
            delay(rng);
        }
        for (int quiet = 0; quiet < 3;) {
            auto before = runs();
            q.step();
            quiet = runs() == before ? quiet + 1 : 0;
        }
    }
};
struct AsioD
{
    static constexpr const char* name = "asio";
    static constexpr bool one_thread  = true;
    static constexpr bool async       = true;
    boost::asio::io_context io;
    using ex_t = boost::asio::io_context::executor_type;
    explicit AsioD(Case&) {}
    auto loop()
    {
        return lager::with_boost_asio_event_loop<ex_t>{io.get_executor()};
    }
    template <typename Ended, typename Runs>
    void drive(Ended ended, Runs)
    {
        boost::asio::executor_work_guard<ex_t> work{io.get_executor()};
        while (!ended())
            io.run_for(std::chrono::microseconds(300));
        work.reset();
        if (io.stopped())
            io.restart();
        io.run();
    }
};
struct StrandD
{
    static constexpr const char* name = "asio_strand";
    static constexpr bool one_thread  = false;
    static constexpr bool async       = true;
    boost::asio::thread_pool pool{3};
    using ex_t = boost::asio::strand<boost::asio::thread_pool::executor_type>;
    ex_t strand{pool.get_executor()};
    explicit StrandD(Case&) {}
    auto loop() { return lager::with_boost_asio_event_loop<ex_t>{strand}; }
    template <typename Ended, typename Runs>
    void drive(Ended ended, Runs)
    {
        while (!ended())
            std::this_thread::sleep_for(std::chrono::microseconds(200));
        pool.join();
    }
};

// -------------------------------------------------------------- store case
enum Kind { plain, effect, effect_future, effect_async, effect_loop, n_kinds };
struct Action
{
    int id     = 0; // of what it belongs to
    int kind   = 0;
    int child  = -1;
    int child_kind = 0;
};
struct Model
{
    long count = 0;
    std::uint64_t hash = 1;
    friend bool operator==(const Model& a, const Model& b)
    {
        return a.count == b.count && a.hash == b.hash;
    }
};
Model fold(Model m, int id)
{
    return {m.count + 1, vp::mix64(m.hash ^ (std::uint64_t) id)};
}

struct Token
{
    static std::atomic<long>& live()
    {
        static std::atomic<long> n{0};
        return n;
    }
    Token() { ++live(); }
    Token(const Token&) { ++live(); }
    ~Token() { --live(); }
};

struct Record // touched on the loop only, unless said
{
    int thread  = -1;
    bool thunk  = false;
    bool effect = false;
    int reduced = 0, effects = 0, posted = 0;
    int expected = 0; // reductions, of what effects dispatched
    bool expect_posted = false;
    int cont = 0, cont2 = 0;
    bool wants_cont = false, wants_cont2 = false; // by the producer
    bool effect_done = false;
};

template <typename D>
void store_case(Case& c)
{
    D d{c};
    c.note("store ", D::name);
    auto nthreads = 2 + (int) c.rng.below(4);
    auto per      = 3 + (int) c.rng.below(14);
    auto maxrec   = nthreads * per * 2 + 8;
    std::vector<Record> rec((std::size_t) maxrec);
    std::vector<int> order;      // ids as reduced
    std::vector<int> thunk_order;
    std::vector<int> started;    // both, as they start on the loop
    std::vector<Model> seen;
    Serial serial{c};
    serial.one_thread = D::one_thread;
    serial.owner      = std::this_thread::get_id();
    std::atomic<long> runs{0};
    std::atomic<long> async_pending{0};
    Model model{};
    std::atomic<int> next_id{0};
    auto new_id = [&](int thread) {
        auto id = next_id++;
        rec[(std::size_t) id].thread = thread;
        return id;
    };

    using ctx_t = lager::context<Action>;
    auto reducer = [&](Model m, Action a) -> lager::result<Model, Action> {
        Serial::Scope s{serial, "the reducer"};
        ++runs;
        auto& r = rec[(std::size_t) a.id];
        ++r.reduced;
        order.push_back(a.id);
        started.push_back(a.id);
        auto next = fold(m, a.id);
        if (a.kind == plain)
            return next;
        r.effect = true;
        return {next, [&, a](const ctx_t& ctx) -> lager::future {
                    Serial::Scope s2{serial, "an effect"};
                    ++runs;
                    auto& r2 = rec[(std::size_t) a.id];
                    c.expect(r2.reduced == 1, "C04.effect_early",
                             "an effect runs before its action");
                    ++r2.effects;
                    r2.effect_done = true;
                    auto& k        = rec[(std::size_t) a.child];
                    ++k.expected;
                    auto kid       = Action{a.child, a.child_kind, -1, 0};
                    switch (a.kind) {
                    case effect_future:
                        r2.effect_done = false;
                        k.wants_cont   = true;
                        return ctx.dispatch(kid).then([&, id = a.id, child = a.child] {
                            Serial::Scope s3{serial, "a continuation"};
                            ++runs;
                            rec[(std::size_t) id].effect_done = true;
                            ++rec[(std::size_t) child].cont;
                        });
                    case effect_async:
                        if constexpr (D::async) {
                            ++async_pending;
                            ctx.loop().async(
                                [&, kid, ctx, t = Token{}] {
                                    (void) t;
                                    if (D::one_thread &&
                                        std::this_thread::get_id() ==
                                            serial.owner)
                                        c.fail("C04.async",
                                               "async work runs on the loop");
                                    ctx.dispatch(kid).then([&, kid] {
                                        Serial::Scope s3{serial,
                                                         "a continuation"};
                                        ++runs;
                                        ++rec[(std::size_t) kid.id].cont;
                                    });
                                    --async_pending;
                                });
                            k.wants_cont = true;
                            return {};
                        } else {
                            ctx.dispatch(kid);
                            return {};
                        }
                    case effect_loop:
                        k.expect_posted = true;
                        ctx.loop().post([&, kid] {
                            Serial::Scope s3{serial, "a posted task"};
                            ++runs;
                            ++rec[(std::size_t) kid.id].posted;
                        });
                        ctx.dispatch(kid);
                        return {};
                    default: ctx.dispatch(kid); return {};
                    }
                }};
    };

    auto store = lager::make_store<Action>(
        Model{},
        d.loop(),
        lager::with_reducer(reducer),
        lager::with_futures,
        lager::with_thunk());
    store.watch([&](const Model& m) {
        Serial::Scope s{serial, "a watcher"};
        ++runs;
        seen.push_back(m);
    });

    std::atomic<int> ended{0};
    Start start{nthreads};
    std::mutex box_m;
    std::deque<std::pair<int, lager::future>> box; // continuations to attach
    std::vector<std::thread> threads;
    std::vector<std::vector<int>> sent((std::size_t) nthreads);
    std::vector<std::uint64_t> seeds;
    for (int t = 0; t < nthreads; ++t)
        seeds.push_back(c.rng.next());
    c.note(nthreads, " threads of ", per);
    auto observe = [&](Rng& rng, int id, lager::future f) {
        auto& r      = rec[(std::size_t) id];
        r.wants_cont = true;
        auto cont    = [&, id] {
            Serial::Scope s{serial, "a continuation"};
            ++runs;
            auto& r = rec[(std::size_t) id];
            ++r.cont;
            if (!r.thunk)
                c.expect(r.reduced == 1 && (!r.effect || r.effect_done),
                         "C04.cont_early",
                         "a continuation runs before what it waits for");
            else
                c.expect(r.effects == 1, "C04.cont_early",
                         "a continuation runs before its thunk");
        };
        delay(rng);
        auto g = std::move(f).then(cont);
        if (rng.chance(30)) {
            r.wants_cont2 = true;
            delay(rng);
            std::move(g).then([&, id] {
                Serial::Scope s{serial, "a continuation"};
                ++runs;
                auto& r = rec[(std::size_t) id];
                c.expect(r.cont == 1, "C04.cont_early",
                         "a chained continuation runs before the first one");
                ++r.cont2;
            });
        }
    };
    for (int t = 0; t < nthreads; ++t)
        threads.emplace_back([&, t] {
            Rng rng{seeds[(std::size_t) t]};
            using any_t = lager::context<std::variant<lager::effect<Action>, Action>>;
            any_t whole{store};
            lager::context<Action> ctx{store};
            lager::context<long> conv{
                ctx, [](long x) { return Action{(int) x, plain, -1, 0}; }};
            start.wait();
            for (int i = 0; i < per; ++i) {
                auto id   = new_id(t);
                auto kind = (int) rng.below(n_kinds);
                auto f    = lager::future{};
                auto kid  = kind == plain ? -1 : new_id(-2);
                auto a    = Action{id, kind, kid, plain};
                sent[(std::size_t) t].push_back(id);
                switch (rng.below(4)) {
                case 0: f = store.dispatch(a); break;
                case 1: f = ctx.dispatch(a); break;
                case 2:
                    a.kind = plain;
                    rec[(std::size_t) id].thread = t;
                    f      = conv.dispatch((long) id);
                    break;
                default: {
                    rec[(std::size_t) id].thunk = true;
                    f = whole.dispatch(lager::effect<Action>{
                        [&, id, kid](const ctx_t& cx) -> lager::future {
                            Serial::Scope s{serial, "a thunk"};
                            ++runs;
                            auto& r = rec[(std::size_t) id];
                            ++r.effects;
                            started.push_back(id);
                            if (kid < 0)
                                return {};
                            ++rec[(std::size_t) kid].expected;
                            return cx.dispatch(Action{kid, plain, -1, 0});
                        }});
                }
                }
                delay(rng);
                switch (rng.below(4)) {
                case 0: observe(rng, id, std::move(f)); break;
                case 1: {
                    std::lock_guard<std::mutex> g{box_m};
                    box.emplace_back(id, std::move(f));
                    break;
                }
                case 2: {
                    auto got = std::optional<std::pair<int, lager::future>>{};
                    {
                        std::lock_guard<std::mutex> g{box_m};
                        if (!box.empty()) {
                            got = std::move(box.front());
                            box.pop_front();
                        }
                    }
                    if (got)
                        observe(rng, got->first, std::move(got->second));
                    break;
                }
                default: break;
                }
                delay(rng);
            }
            ++ended;
        });
    d.drive([&] { return ended == nthreads && async_pending == 0; },
            [&] { return runs.load(); });
    for (auto& t : threads)
        t.join();
    box.clear();
    while (Token::live() > 0) // detached threads
        std::this_thread::yield();

    // what was recorded
    auto total = next_id.load();
    std::vector<std::vector<int>> by_thread((std::size_t) nthreads);
    for (auto id : started)
        if (rec[(std::size_t) id].thread >= 0)
            by_thread[(std::size_t) rec[(std::size_t) id].thread].push_back(id);
    for (int t = 0; t < nthreads; ++t) {
        // thunks start one turn of the loop later than actions
        auto only = [&](std::vector<int> v, bool th) {
            v.erase(std::remove_if(v.begin(), v.end(),
                                   [&](int id) {
                                       return rec[(std::size_t) id].thunk != th;
                                   }),
                    v.end());
            return v;
        };
        for (auto th : {false, true})
            c.expect(only(by_thread[(std::size_t) t], th) ==
                         only(sent[(std::size_t) t], th),
                     "C04.order", "thread ", t, " sent ",
                     vp::show(only(sent[(std::size_t) t], th)), " handled ",
                     vp::show(only(by_thread[(std::size_t) t], th)));
    }
    Model expected;
    for (auto id : order)
        expected = fold(expected, id);
    c.expect(store.get() == expected, "C04.model",
             "the model is not the fold of the actions reduced");
    c.expect(order.empty() || (!seen.empty() && seen.back() == expected),
             "C04.watch", "the last value watched is not the model");
    long prev = 0;
    for (auto& m : seen) {
        c.expect(m.count > prev, "C04.watch", "watched values repeat");
        prev = m.count;
    }
    for (int id = 0; id < total; ++id) {
        auto& r    = rec[(std::size_t) id];
        if (r.thunk) {
            c.expect(r.effects == 1 && r.reduced == 0, "C04.thunk", "thunk ", id,
                     " ran ", r.effects, " times");
        } else if (r.thread >= 0) {
            c.expect(r.reduced == 1, "C04.once", "action ", id, " was reduced ",
                     r.reduced, " times");
            c.expect(r.effects == (r.effect ? 1 : 0), "C04.effects", "action ",
                     id, " had its effect run ", r.effects, " times");
        } else
            c.expect(r.reduced == r.expected, "C04.once", "child ", id,
                     " was reduced ", r.reduced, " times of ", r.expected);
        c.expect(r.posted == (r.expect_posted ? 1 : 0), "C04.posted",
                 "a task posted by an effect ran ", r.posted, " times");
        c.expect(r.cont == (r.wants_cont ? 1 : 0), "C04.continuation", "future ",
                 id, " called back ", r.cont, " times, ", r.wants_cont);
        c.expect(r.cont2 == (r.wants_cont2 ? 1 : 0), "C04.continuation",
                 "chained future ", id, " called back ", r.cont2, " times");
        if (r.wants_cont)
            vp::count("continuations");
        if (r.effects)
            vp::count("effects");
    }
    int switches = 0, last = -3;
    for (auto id : started) {
        auto t = rec[(std::size_t) id].thread;
        switches += t != last;
        last = t;
        c.mix((std::uint64_t) (t + 5));
    }
    vp::count("actions_reduced", order.size());
    vp::count("watch_calls", seen.size());
    vp::count("thread_switches", (std::uint64_t) switches);
    c.nontrivial = switches > nthreads;
    c.note("handled by thread, ", switches, " switches");
}

// ---------------------------------------------------------------- raw loop
template <typename D>
void loop_case(Case& c)
{
    D d{c};
    c.note("loop ", D::name);
    auto nthreads = 2 + (int) c.rng.below(5);
    auto per      = 10 + (int) c.rng.below(60);
    Serial serial{c};
    serial.one_thread = D::one_thread;
    serial.owner      = std::this_thread::get_id();
    std::vector<std::pair<int, int>> log;
    std::atomic<long> runs{0};
    std::atomic<int> ended{0};
    Start start{nthreads};
    auto loop = d.loop();
    std::vector<std::thread> threads;
    std::vector<std::uint64_t> seeds;
    for (int t = 0; t < nthreads; ++t)
        seeds.push_back(c.rng.next());
    int from_loop = 0, from_loop_run = 0;
    for (int t = 0; t < nthreads; ++t)
        threads.emplace_back([&, t] {
            Rng rng{seeds[(std::size_t) t]};
            auto mine = loop;
            start.wait();
            for (int i = 0; i < per; ++i) {
                auto nested = rng.chance(20);
                auto big    = std::string(rng.below(60), 'x');
                mine.post([&, t, i, nested, big] {
                    Serial::Scope s{serial, "a task"};
                    ++runs;
                    log.emplace_back(t, i);
                    if (big.find('y') != std::string::npos)
                        c.fail("C04.task", "a task's captures changed");
                    if (nested) {
                        auto n = from_loop++;
                        loop.post([&, n] {
                            Serial::Scope s2{serial, "a task"};
                            ++runs;
                            c.expect(from_loop_run == n, "C04.order",
                                     "tasks posted on the loop ran out of "
                                     "order");
                            ++from_loop_run;
                        });
                    }
                });
                delay(rng);
            }
            ++ended;
        });
    d.drive([&] { return ended == nthreads; }, [&] { return runs.load(); });
    for (auto& t : threads)
        t.join();
    std::vector<int> next((std::size_t) nthreads, 0);
    int switches = 0, last = -1;
    for (auto& x : log) {
        c.expect(next[(std::size_t) x.first] == x.second, "C04.order",
                 "thread ", x.first, " posted ", next[(std::size_t) x.first],
                 " next, but ", x.second, " ran");
        next[(std::size_t) x.first] = x.second + 1;
        switches += x.first != last;
        last = x.first;
        c.mix((std::uint64_t) x.first + 1);
    }
    for (int t = 0; t < nthreads; ++t)
        c.expect(next[(std::size_t) t] == per, "C04.lost", "of thread ", t,
                 " only ", next[(std::size_t) t], " of ", per, " tasks ran");
    c.expect(from_loop == from_loop_run, "C04.lost",
             "tasks posted on the loop did not run");
    vp::count("tasks_run", log.size());
    vp::count("thread_switches", (std::uint64_t) switches);
    c.nontrivial = switches > nthreads;
    c.note("ran by thread, ", switches, " switches");
}

// ----------------------------------------------------------------- futures
// Threads satisfy promises while others attach to the futures; the callbacks
// go through a loop that one more thread runs.
void future_case(Case& c)
{
    c.note("futures");
    struct Poster
    {
        std::mutex m;
        std::deque<std::function<void()>> q;
    } poster;
    auto post = [&](std::function<void()> f) {
        std::lock_guard<std::mutex> g{poster.m};
        poster.q.push_back(std::move(f));
    };
    Serial serial{c};
    serial.owner = std::this_thread::get_id();
    auto n       = 20 + c.rng.below(150);
    struct Item
    {
        std::optional<lager::promise> p, inner_p;
        std::optional<lager::future> f, inner_f;
        int depth = 1, mode = 0;
        bool satisfied_seen = false;
        std::atomic<bool> satisfied{false}, inner_satisfied{false};
        std::vector<int> calls; // on the loop only
    };
    std::vector<std::unique_ptr<Item>> items;
    for (std::size_t i = 0; i < n; ++i) {
        auto it     = std::make_unique<Item>();
        auto [p, f] = lager::promise::with_post(post);
        it->p       = std::move(p);
        it->f       = std::move(f);
        auto [p2, f2] = lager::promise::with_post(post);
        it->inner_p   = std::move(p2);
        it->inner_f   = std::move(f2);
        it->depth     = 1 + (int) c.rng.below(4);
        it->mode      = (int) c.rng.below(4);
        it->calls.assign((std::size_t) it->depth + 1, 0);
        items.push_back(std::move(it));
    }
    long runs = 0;
    std::uint64_t seeds[3] = {c.rng.next(), c.rng.next(), c.rng.next()};
    std::atomic<int> ended{0};
    std::vector<int> before(n), after(n);
    Start start{3};
    std::atomic<long> attached{0};
    auto pace = c.rng.chance(75);
    std::thread satisfier{[&] {
        Rng rng{seeds[0]};
        long at = 0;
        start.wait();
        for (auto& i : items) {
            // in step with the attacher, without synchronizing with it
            if (pace)
                for (int k = 0; k < 20000 && attached.load(std::memory_order_relaxed) < at; ++k)
                    std::this_thread::yield();
            ++at;
            delay(rng);
            i->satisfied.store(true, std::memory_order_relaxed);
            (*i->p)();
            i->p.reset();
        }
        ++ended;
    }};
    std::thread inner{[&] {
        Rng rng{seeds[1]};
        start.wait();
        for (auto& i : items) {
            delay(rng);
            i->inner_satisfied = true;
            (*i->inner_p)();
            i->inner_p.reset();
        }
        ++ended;
    }};
    std::thread attacher{[&] {
        Rng rng{seeds[2]};
        start.wait();
        for (std::size_t k = 0; k < n; ++k) {
            auto& i   = items[k];
            auto item = i.get();
            attached.store((long) k, std::memory_order_relaxed);
            delay(rng);
            before[k] = i->satisfied.load(std::memory_order_relaxed);
            auto f    = std::move(*i->f);
            i->f.reset();
            for (int d = 0; d < i->depth; ++d) {
                auto check = [&, item, d] {
                    Serial::Scope s{serial, "a continuation"};
                    ++runs;
                    ++item->calls[(std::size_t) d];
                    c.expect(item->satisfied, "C04.cont_early",
                             "called before the promise was satisfied");
                    if (d)
                        c.expect(item->calls[(std::size_t) d - 1] == 1,
                                 "C04.cont_early",
                                 "called before the one it follows");
                    if (d && item->mode == 1)
                        c.expect(item->inner_satisfied, "C04.cont_early",
                                 "called before the future that was returned");
                };
                if (item->mode == 1 && d == 0) {
                    f = std::move(f).then(
                        [check, fut = std::move(*item->inner_f)]() mutable {
                            check();
                            return std::move(fut);
                        });
                    item->inner_f.reset();
                } else if (item->mode == 2 && d == 0) {
                    f = std::move(f)
                            .also(std::move(*item->inner_f))
                            .then([item, &c, check] {
                                c.expect(item->inner_satisfied,
                                         "C04.cont_early",
                                         "called before both");
                                check();
                            });
                    item->inner_f.reset();
                } else
                    f = std::move(f).then(check);
                if (rng.chance(30))
                    delay(rng);
            }
            if (item->mode == 3) {
                // from the other one, too
                std::move(*item->inner_f).then([&, item] {
                    Serial::Scope s{serial, "a continuation"};
                    ++runs;
                    c.expect(item->inner_satisfied, "C04.cont_early",
                             "called before the promise was satisfied");
                    ++item->calls.back();
                });
                item->inner_f.reset();
            }
            after[k] = i->satisfied.load(std::memory_order_relaxed);
        }
        ++ended;
    }};
    auto drain = [&] {
        for (;;) {
            std::function<void()> f;
            {
                std::lock_guard<std::mutex> g{poster.m};
                if (poster.q.empty())
                    return;
                f = std::move(poster.q.front());
                poster.q.pop_front();
            }
            f();
        }
    };
    Rng rng = c.rng.fork();
    while (ended < 3) {
        drain();
        delay(rng);
    }
    satisfier.join();
    inner.join();
    attacher.join();
    drain();
    int races = 0;
    for (std::size_t k = 0; k < n; ++k) {
        auto& i = items[k];
        for (int d = 0; d < i->depth; ++d)
            c.expect(i->calls[(std::size_t) d] == 1, "C04.continuation",
                     "continuation ", d, " of future ", k, " ran ",
                     i->calls[(std::size_t) d], " times (mode ", i->mode, ")");
        if (i->mode == 3)
            c.expect(i->calls.back() == 1, "C04.continuation",
                     "the other continuation ran ", i->calls.back(), " times");
        c.mix((std::uint64_t) (before[k] * 2 + after[k]));
        races += before[k] != after[k];
        vp::count(before[k] ? "attached_after" : "attached_before");
    }
    vp::count("attached_while_satisfied", (std::uint64_t) races);
    vp::count("continuations", (std::uint64_t) runs);
    c.note("attached while being satisfied: ", races);
    c.nontrivial = true;
}

} // namespace

int main(int argc, char** argv)
{
    return vp::run_main(argc, argv, [](Case& c) {
        switch (c.rng.below(10)) {
        case 0: return loop_case<SafeQueueD>(c);
        case 1: return loop_case<AsioD>(c);
        case 2: return loop_case<StrandD>(c);
        case 3:
        case 4: return future_case(c);
        case 5:
        case 6: return store_case<SafeQueueD>(c);
        case 7:
        case 8: return store_case<AsioD>(c);
        default: return store_case<StrandD>(c);
        }
    });
}
