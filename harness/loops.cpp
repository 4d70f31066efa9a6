// C18: single-threaded event loops, driven directly.  The monitor keeps the
// list of posted tasks of each loop and judges every start of a task, every
// end of one and every return of whatever runs the loop.
#include "common.hpp"

#include <lager/event_loop/boost_asio.hpp>
#include <lager/event_loop/manual.hpp>
#include <lager/event_loop/queue.hpp>
#include <lager/event_loop/safe_queue.hpp>

#include <boost/asio/executor_work_guard.hpp>
#include <boost/asio/io_context.hpp>
#include <boost/asio/strand.hpp>
#include <array>
#include <chrono>
#include <deque>
#include <optional>
#include <stdexcept>
#include <thread>

namespace {

using vp::Case;

struct task_error : std::runtime_error
{
    int id;
    explicit task_error(int i)
        : std::runtime_error{"task"}
        , id{i}
    {}
};
struct foreign_error
{
    int id;
};

// ------------------------------------------------------------------ drivers
struct ManualD
{
    static constexpr const char* name = "manual";
    static constexpr bool immediate   = true;
    static constexpr bool threads     = false;
    lager::with_manual_event_loop loop;
    template <typename F>
    void post(F&& f)
    {
        loop.post(std::forward<F>(f));
    }
    void step() {}
};
struct QueueD
{
    static constexpr const char* name = "queue";
    static constexpr bool immediate   = false;
    static constexpr bool threads     = false;
    lager::queue_event_loop loop;
    bool handle = false;
    template <typename F>
    void post(F&& f)
    {
        handle = !handle;
        if (handle)
            lager::with_queue_event_loop{loop}.post(std::forward<F>(f));
        else
            loop.post(std::forward<F>(f));
    }
    void step() { loop.step(); }
};
struct SafeQueueD
{
    static constexpr const char* name = "safe_queue";
    static constexpr bool immediate   = false;
    static constexpr bool threads     = true;
    std::unique_ptr<lager::safe_queue_event_loop> loop;
    std::atomic<bool> handle{false};
    explicit SafeQueueD(bool elsewhere)
    {
        if (elsewhere) {
            std::thread{[&] {
                loop = std::make_unique<lager::safe_queue_event_loop>();
            }}.join();
            loop->adopt();
        } else
            loop = std::make_unique<lager::safe_queue_event_loop>();
    }
    template <typename F>
    void post(F&& f)
    {
        handle = !handle;
        if (handle)
            lager::with_safe_queue_event_loop{*loop}.post(std::forward<F>(f));
        else
            loop->post(std::forward<F>(f));
    }
    void step() { loop->step(); }
};
template <typename Ex>
struct AsioBase
{
    static constexpr bool immediate = false;
    static constexpr bool threads   = false;
    boost::asio::io_context io;
    lager::with_boost_asio_event_loop<Ex> loop;
    int flip    = 0;
    int stopped = 0, finished = 0;
    template <typename E>
    AsioBase(E mk)
        : loop{mk(io), [this] {
            ++stopped;
            io.stop();
        }}
    {}
    // through a copy, as a store has one
    void finish()
    {
        auto copy = loop;
        ++finished;
        copy.finish();
    }
    template <typename F>
    void post(F&& f)
    {
        loop.post(std::forward<F>(f));
    }
    void step()
    {
        if (io.stopped())
            io.restart();
        if (++flip % 3 == 0)
            io.poll();
        else
            io.run();
    }
};
using io_ex = boost::asio::io_context::executor_type;
struct AsioD : AsioBase<io_ex>
{
    static constexpr const char* name = "asio";
    AsioD()
        : AsioBase{[](auto& io) { return io.get_executor(); }}
    {}
};
struct StrandD : AsioBase<boost::asio::strand<io_ex>>
{
    static constexpr const char* name = "asio_strand";
    StrandD()
        : AsioBase{[](auto& io) {
            return boost::asio::strand<io_ex>{io.get_executor()};
        }}
    {}
};

// ------------------------------------------------------------------- plans
enum class Op { post, post_other, post_thread, step_other, throw_std, throw_own };
struct Plan;
struct Step
{
    Op op;
    std::shared_ptr<Plan> kid;
    bool guarded = false; // catches what comes out of it
};
struct Plan
{
    int id;
    int size  = 0;     // of the functor
    int twice = 0;     // the same lvalue is posted twice
    std::vector<Step> steps;
    std::shared_ptr<Plan> when_destroyed;
};

std::atomic<long> g_tokens{0};

template <typename D>
struct World
{
    Case& c;
    std::array<std::unique_ptr<D>, 2> loops;
    std::array<std::deque<int>, 2> local, shared;
    std::array<int, 2> running{{-1, -1}};
    std::array<bool, 2> stepping{{false, false}};
    std::array<std::weak_ptr<void>, 2> last;
    std::array<bool, 2> last_sole{{false, false}};
    bool armed = true;
    int next_id = 0;
    // the exception on its way
    int thrown      = -1;
    bool any_thrown = false;
    long runs       = 0;
    std::array<long, 2> shared_runs{{0, 0}};
    std::map<int, int> done, posts;

    explicit World(Case& c_)
        : c{c_}
    {}

    // ---- what tasks are
    template <int N>
    struct Task
    {
        World* w;
        std::shared_ptr<Plan> plan;
        std::shared_ptr<void> token;
        int where;
        std::array<long, N> pad{};
        void operator()()
        {
            for (auto x : pad)
                if (x != plan->id)
                    w->c.fail("C18.corrupted", "the task's captures changed");
            w->run(where, *plan, token);
        }
    };

    std::shared_ptr<Plan> make(int depth)
    {
        auto p   = std::make_shared<Plan>();
        p->id    = next_id++;
        p->size  = (int) c.rng.below(3);
        p->twice = c.rng.chance(8);
        auto n   = depth <= 0 ? 0 : c.rng.below(4);
        for (std::size_t i = 0; i < n; ++i) {
            auto r = c.rng.below(100);
            if (r < 60)
                p->steps.push_back({Op::post, make(depth - 1), true});
            else if (r < 75)
                p->steps.push_back({Op::post_other, make(depth - 1), true});
            else if (r < 85 && D::threads)
                p->steps.push_back({Op::post_thread, make(depth - 1), true});
            else if (r < 92)
                p->steps.push_back({Op::step_other, nullptr, true});
            else {
                p->steps.push_back(
                    {r & 1 ? Op::throw_std : Op::throw_own, nullptr});
            }
        }
        if (c.rng.chance(10)) {
            auto at = c.rng.below(p->steps.size() + 1);
            p->steps.insert(
                p->steps.begin() + (long) at,
                Step{c.rng.chance(50) ? Op::throw_std : Op::throw_own, nullptr});
        }
        if (depth > 0 && !p->twice && c.rng.chance(12))
            p->when_destroyed = make(0);
        return p;
    }

    std::shared_ptr<void> token(int where, const Plan& p)
    {
        ++g_tokens;
        auto kid = p.when_destroyed;
        return std::shared_ptr<void>{
            new int{p.id}, [this, where, kid](void* x) {
                delete static_cast<int*>(x);
                --g_tokens;
                if (kid && armed) {
                    // only if that does not run it at once
                    if (D::immediate && running[where] < 0 && !stepping[where])
                        return;
                    vp::count("posted_by_destructors");
                    post(where, kid, false);
                }
            }};
    }

    template <int N>
    void post_n(int where, std::shared_ptr<Plan> p, bool elsewhere)
    {
        auto t = Task<N>{this, p, token(where, *p), where, {}};
        t.pad.fill(p->id);
        auto& q = elsewhere ? shared[where] : local[where];
        auto& l = *loops[where];
        q.push_back(p->id);
        ++posts[p->id];
        vp::count("posts");
        c.note("post ", p->id, "@", where, elsewhere ? "t" : "");
        if (p->twice && !D::immediate) {
            q.push_back(p->id);
            ++posts[p->id];
            vp::count("posted_twice");
            l.post(t);
            const auto& ct = t;
            l.post(ct);
        } else if (p->twice) {
            l.post(t);
        } else if (p->size == 2) {
            l.post(std::function<void()>{std::move(t)});
        } else
            l.post(std::move(t));
    }

    void post(int where, std::shared_ptr<Plan> p, bool elsewhere)
    {
        if (elsewhere)
            vp::count("posted_from_threads");
        if (p->size == 0)
            post_n<1>(where, p, elsewhere);
        else
            post_n<9>(where, p, elsewhere);
    }

    // ---- the monitor
    void run(int where, const Plan& p, const std::shared_ptr<void>& tok)
    {
        ++runs;
        vp::count("tasks_run");
        c.note("run ", p.id, "@", where);
        c.expect(running[where] < 0, "C18.nested", "task ", p.id,
                 " starts inside task ", running[where]);
        c.expect(D::immediate || stepping[where], "C18.early", "task ", p.id,
                 " ran although nobody was running the loop");
        ++done[p.id];
        c.expect(done[p.id] <= posts[p.id], "C18.repeated", "task ", p.id,
                 " ran ", done[p.id], " times, was posted ", posts[p.id]);
        auto& l = local[where];
        auto& s = shared[where];
        if (!l.empty() && l.front() == p.id)
            l.pop_front();
        else if (!s.empty() && s.front() == p.id)
            s.pop_front(), ++shared_runs[where];
        else
            c.fail("C18.order", "task ", p.id, " ran, next was ",
                   l.empty() ? -1 : l.front(), " or ",
                   s.empty() ? -1 : s.front());
        if (last_sole[where]) {
            vp::count("destruction_checks");
            c.expect(last[where].expired(), "C18.destroyed",
                     "the task run before ", p.id, " still exists");
        }
        last[where]      = tok;
        last_sole[where] = !p.twice;
        struct Guard
        {
            World* w;
            int where;
            ~Guard() { w->running[where] = -1; }
        } guard{this, where};
        running[where] = p.id;
        for (auto& st : p.steps)
            step(where, p, st);
    }

    // runs f, which may run tasks of loop `where`, and judges what comes out
    template <typename F>
    void outside(int where, F&& f)
    {
        auto was        = stepping[where];
        stepping[where] = true;
        auto saved      = thrown;
        thrown          = -1;
        int got         = -1;
        try {
            f();
        } catch (const task_error& e) {
            got = e.id;
        } catch (const foreign_error& e) {
            got = e.id;
        } catch (const std::exception& e) {
            got = -2;
            c.fail("C18.exception", "unknown exception ", e.what());
        }
        stepping[where] = was;
        if (thrown >= 0)
            vp::count("exceptions");
        if (got >= 0)
            c.note("caught ", got);
        c.expect(got == thrown, "C18.exception", "task ", thrown,
                 " threw, what came out is from ", got);
        thrown = saved;
        last_got = got;
    }
    int last_got = -1;

    void step(int where, const Plan& p, const Step& st)
    {
        auto other = 1 - where;
        switch (st.op) {
        case Op::post:
            if (!loops[where])
                return;
            post(where, st.kid, false);
            break;
        case Op::post_thread:
            std::thread{[&] { post(where, st.kid, true); }}.join();
            break;
        case Op::post_other: {
            if (!loops[other])
                return;
            auto idle = running[other] < 0;
            if (D::immediate && idle)
                outside(other, [&] { post(other, st.kid, false); });
            else
                post(other, st.kid, false);
            vp::count("posts_to_other_loop");
            break;
        }
        case Op::step_other:
            if (!D::immediate && loops[other] && !stepping[other] &&
                running[other] < 0) {
                vp::count("steps_of_other_loop");
                drive(other);
            }
            break;
        case Op::throw_std:
            thrown = p.id;
            throw task_error{p.id};
        case Op::throw_own:
            thrown = p.id;
            throw foreign_error{p.id};
        }
    }

    void drive(int where)
    {
        auto before = shared[where].size();
        auto ran    = shared_runs[where];
        outside(where, [&] { loops[where]->step(); });
        if (last_got >= 0)
            return;
        c.expect(local[where].empty(), "C18.lost", "task ",
                 local[where].empty() ? -1 : local[where].front(),
                 " did not run when the loop ran");
        c.expect(shared_runs[where] - ran >= (long) before, "C18.lost",
                 "the loop ran ", shared_runs[where] - ran, " of the ", before,
                 " tasks that threads had posted");
        if (before && !shared[where].empty())
            vp::count("posted_by_threads_meanwhile");
        drained(where);
    }

    void drained(int where)
    {
        if (local[where].empty() && shared[where].empty() && last_sole[where]) {
            vp::count("destruction_checks");
            c.expect(last[where].expired(), "C18.destroyed",
                     "the last task still exists after the loop ran");
        }
    }
};

template <typename D>
std::unique_ptr<D> make_loop(Case& c)
{
    if constexpr (std::is_constructible_v<D, bool>)
        return std::make_unique<D>(c.rng.chance(40));
    else
        return std::make_unique<D>();
}

template <typename D, typename = void>
struct can_finish : std::false_type
{};
template <typename D>
struct can_finish<D, std::void_t<decltype(std::declval<D&>().finish())>>
    : std::true_type
{};

template <typename D>
void run_case(Case& c)
{
    auto tokens = g_tokens.load();
    {
        World<D> w{c};
        c.note(D::name);
        w.loops[0] = make_loop<D>(c);
        w.loops[1] = make_loop<D>(c);
        auto n     = 3 + c.rng.below(16);
        for (std::size_t i = 0; i < n; ++i) {
            auto where = (int) c.rng.below(2);
            auto p     = w.make((int) c.rng.below(5));
            if (D::threads && c.rng.chance(30)) {
                std::thread{[&] { w.post(where, p, true); }}.join();
            } else if (D::immediate) {
                auto before = w.local[where].size();
                if (before)
                    vp::count("resumed_after_exception");
                w.outside(where, [&] { w.post(where, p, false); });
                if (w.last_got < 0) {
                    c.expect(w.local[where].empty(), "C18.lost", "task ",
                             w.local[where].empty() ? -1 : w.local[where].front(),
                             " did not run although the loop was idle");
                    w.drained(where);
                }
            } else
                w.post(where, p, false);
            if constexpr (can_finish<D>::value)
                if (c.rng.chance(10)) {
                    auto& l = *w.loops[where];
                    l.finish();
                    c.note("finish ", where);
                    vp::count("finished");
                    c.expect(l.stopped == l.finished, "C18.finish",
                             "finished ", l.finished, " times, stopped ", l.stopped);
                }
            if (!D::immediate && c.rng.chance(35)) {
                w.drive(where);
                if (w.last_got >= 0 && !w.local[where].empty())
                    vp::count("resumed_after_exception");
            }
        }
        auto leave = c.rng.chance(25); // destroys tasks that never ran
        if (!leave)
            for (int k = 0; k < 4000 && c.fails.empty(); ++k) {
                if (w.local[0].empty() && w.shared[0].empty() &&
                    w.local[1].empty() && w.shared[1].empty())
                    break;
                auto where = k % 2;
                if (!D::immediate)
                    w.drive(where);
                else if (!w.local[where].empty()) {
                    auto p   = w.make(0);
                    p->twice = 0;
                    w.outside(where, [&] { w.post(where, p, false); });
                }
            }
        if (!leave) {
            for (int where = 0; where < 2; ++where)
                c.expect(w.local[where].empty() && w.shared[where].empty(),
                         "C18.lost", "tasks never ran");
            for (auto& kv : w.posts)
                c.expect(w.done[kv.first] == kv.second, "C18.lost", "task ",
                         kv.first, " ran ", w.done[kv.first], " times of ",
                         kv.second);
        } else
            vp::count("loops_destroyed_with_tasks");
        c.nontrivial = w.runs > 2;
        w.armed      = false;
        w.loops[0].reset();
        w.loops[1].reset();
    }
    c.expect(g_tokens == tokens, "C18.destroyed", g_tokens - tokens,
             " tasks survive their loop");
}

// ------------------------------------------------------- asynchronous work
// Boost.Asio runs it in threads of its own and the loop waits for it.
struct AsyncLog
{
    std::atomic<int> ran{0}, tasks{0}, wrong_thread{0}, live{0};
};
struct Alive
{
    std::shared_ptr<AsyncLog> log;
    explicit Alive(std::shared_ptr<AsyncLog> l)
        : log{std::move(l)}
    {
        ++log->live;
    }
    Alive(const Alive& o)
        : Alive{o.log}
    {}
    ~Alive() { --log->live; }
};

template <typename Ex>
void async_case(Case& c, std::function<Ex(boost::asio::io_context&)> mk)
{
    auto log = std::make_shared<AsyncLog>();
    boost::asio::io_context io;
    lager::with_boost_asio_event_loop<Ex> loop{mk(io)};
    // Asio's context stops when it runs out of work, also before run()
    auto guard = boost::asio::make_work_guard(io);
    auto home  = std::this_thread::get_id();
    int works = 0, tasks = 0;
    for (int n = c.rng.range(1, 5); n > 0; --n) {
        int kids = c.rng.below(4), naps = c.rng.below(3) * 40;
        auto fn  = [log, loop, home, kids, naps, alive = Alive{log}] {
            if (std::this_thread::get_id() == home)
                ++log->wrong_thread;
            auto copy = loop;
            for (int i = 0; i < kids; ++i) {
                if (naps)
                    std::this_thread::sleep_for(std::chrono::microseconds(naps));
                copy.post([log, home, alive = Alive{log}] {
                    if (std::this_thread::get_id() != home)
                        ++log->wrong_thread;
                    ++log->tasks;
                });
            }
            ++log->ran;
        };
        switch (c.rng.below(4)) {
        case 0:
            c.note("async, ", kids, " tasks");
            loop.async(std::move(fn));
            works += 1, tasks += kids;
            break;
        case 1: {
            c.note("async of an object that is kept, twice, ", kids, " tasks");
            std::function<void()> keep = fn;
            loop.async(keep);
            works += 1, tasks += kids;
            if (c.expect((bool) keep, "C18.async_taken",
                         "async() took a function object that is not its own")) {
                loop.async(keep);
                works += 1, tasks += kids;
            }
            break;
        }
        case 2: {
            c.note("async of a constant object, ", kids, " tasks");
            const auto keep = fn;
            loop.async(keep);
            works += 1, tasks += kids;
            break;
        }
        default: {
            c.note("async of an object that only moves, ", kids, " tasks");
            loop.async([fn, only = std::make_unique<int>(3)] {
                if (*only == 3)
                    fn();
            });
            works += 1, tasks += kids;
        }
        }
    }
    guard.reset();
    io.run();
    vp::count("asyncs", works);
    c.expect(log->ran == works, "C18.async_lost", "of ", works,
             " asynchronous works ", log->ran.load(),
             " had run when the loop stopped");
    c.expect(log->tasks == tasks, "C18.lost", "of ", tasks,
             " tasks posted by asynchronous work ", log->tasks.load(),
             " had run when the loop stopped");
    c.expect(log->wrong_thread == 0, "C18.async_thread", log->wrong_thread.load(),
             " ran on the wrong thread");
    // their threads end on their own
    for (int i = 0; i < 20000 && log->live; ++i)
        std::this_thread::sleep_for(std::chrono::microseconds(500));
    c.expect(log->live == 0, "C18.destroyed", log->live.load(),
             " asynchronous works are kept");
    c.nontrivial = true;
}

} // namespace

int main(int argc, char** argv)
{
    return vp::run_main(argc, argv, [](Case& c) {
        if (c.rng.chance(4)) {
            using strand = boost::asio::strand<io_ex>;
            return c.rng.chance(50)
                       ? async_case<io_ex>(
                             c, [](auto& io) { return io.get_executor(); })
                       : async_case<strand>(c, [](auto& io) {
                             return strand{io.get_executor()};
                         });
        }
        switch (c.rng.below(5)) {
        case 0: return run_case<ManualD>(c);
        case 1: return run_case<QueueD>(c);
        case 2: return run_case<SafeQueueD>(c);
        case 3: return run_case<AsioD>(c);
        default: return run_case<StrandD>(c);
        }
    });
}
