// C19: the Qt, QML and SDL event loops (-DLOOP_QT, -DLOOP_QML, -DLOOP_SDL).
// Every task knows who posted it and as which; the monitor judges each start.
#include "common.hpp"

#include <atomic>
#include <chrono>
#include <deque>
#include <optional>
#include <thread>

#if LOOP_SDL
#include <lager/event_loop/sdl.hpp>
#else
#include <lager/event_loop/qt.hpp>
#if LOOP_QML
#include <lager/event_loop/qml.hpp>
#include <QGuiApplication>
#include <QQuickWindow>
#endif
#include <QCoreApplication>
#include <QThread>
#include <QTimer>
#endif

#include <lager/store.hpp>

namespace {

using vp::Case;

void nap(vp::Rng& r)
{
    if (r.chance(30))
        std::this_thread::sleep_for(std::chrono::microseconds(r.below(300)));
    else if (r.chance(50))
        std::this_thread::yield();
}

// Who runs what, where and in which order.
struct Monitor
{
    Case& c;
    std::mutex m;
    std::thread::id loop_thread;
    std::map<int, long> posted, ran;
    long outstanding = 0, executed = 0, producers = 0;
    bool running  = false; // a task is
    bool finished = false;
    explicit Monitor(Case& cc)
        : c{cc}
    {}

    int producer()
    {
        std::lock_guard<std::mutex> g{m};
        posted[(int) producers] = 0;
        return (int) producers++;
    }
    long will_post(int who)
    {
        std::lock_guard<std::mutex> g{m};
        ++outstanding;
        return posted[who]++;
    }
    // started; the end is told by the destructor
    struct Running
    {
        Monitor& mon;
        ~Running()
        {
            std::lock_guard<std::mutex> g{mon.m};
            mon.running = false;
        }
    };
    Running start(int who, long seq)
    {
        vp::count("tasks");
        if (who)
            vp::count("tasks_from_threads");
        std::lock_guard<std::mutex> g{m};
        if (std::this_thread::get_id() != loop_thread)
            c.fail("C19.thread", "task ", seq, " of producer ", who,
                   " runs on another thread");
        if (running)
            c.fail("C19.nested", "task ", seq, " of producer ", who,
                   " runs within another one");
        if (seq < ran[who])
            c.fail("C19.twice", "task ", seq, " of producer ", who,
                   " runs again or late");
        else if (seq > ran[who])
            c.fail("C19.order", "task ", seq, " of producer ", who,
                   " runs before task ", ran[who]);
        ran[who] = seq + 1;
        running  = true;
        ++executed;
        return {*this};
    }
    // after the work of a task or a producer; true if nothing is left
    bool one_less()
    {
        std::lock_guard<std::mutex> g{m};
        c.mix(executed);
        return --outstanding == 0;
    }
    void all_ran()
    {
        std::lock_guard<std::mutex> g{m};
        for (auto& [who, n] : posted)
            if (ran[who] != n)
                c.fail("C19.lost", n - ran[who], " tasks of producer ", who,
                       " did not run");
    }
};

// Destroyed with the task that holds it.
struct Held
{
    vp::Tracked t;
};

#if !LOOP_SDL
//
// Qt and QML share the script: tasks that post more tasks, from the loop's
// thread and from others.
//
struct Action
{
    int who;
    long seq;
};
struct StoreModel
{
    std::map<int, long> next;
    bool operator==(const StoreModel& o) const { return next == o.next; }
    bool operator!=(const StoreModel& o) const { return !(*this == o); }
};

template <typename PostFn, typename AsyncFn>
struct Script : std::enable_shared_from_this<Script<PostFn, AsyncFn>>
{
    Case& c;
    Monitor mon;
    PostFn post_;
    AsyncFn async_;
    std::function<void()> finish_;
    std::function<void(Action)> dispatch_;
    std::mutex rm;
    vp::Rng r;
    std::atomic<long> budget;
    std::vector<std::thread> threads;

    Script(Case& cc, PostFn p, AsyncFn a)
        : c{cc}
        , mon{cc}
        , post_{std::move(p)}
        , async_{std::move(a)}
        , r{cc.rng.fork()}
        , budget{cc.rng.range(3, 40)}
    {}

    std::size_t below(std::size_t n)
    {
        std::lock_guard<std::mutex> g{rm};
        return r.below(n);
    }

    void post(int who)
    {
        auto seq  = mon.will_post(who);
        auto held = std::make_shared<Held>();
        post_([self = this->shared_from_this(), who, seq, held] {
            {
                auto running = self->mon.start(who, seq);
                self->some(0);
                self->c.expect(!!held, "C19.captures", "moved away");
            }
            self->done();
        });
    }
    void dispatch(int who)
    {
        auto seq = mon.will_post(who);
        vp::count("dispatches");
        dispatch_({who, seq});
    }
    void done()
    {
        if (mon.one_less()) {
            mon.finished = true;
            finish_();
        }
    }
    void some(int who)
    {
        auto n = below(4);
        for (; n && budget-- > 0; --n)
            switch (below(dispatch_ ? 5 : 4)) {
            case 0:
            case 1: post(who); break;
            case 2: thread(); break;
            case 3: async(); break;
            default: dispatch(who); break;
            }
    }
    // at the end of the work of another thread, a task that accounts for it
    void produce(int who, bool check_thread)
    {
        if (check_thread && std::this_thread::get_id() == mon.loop_thread)
            c.fail("C19.async_thread", "asynchronous work runs on the loop");
        vp::Rng mine{r.s + who * 77};
        for (auto n = mine.below(4); n && budget-- > 0; --n) {
            nap(mine);
            if (dispatch_ && mine.chance(25))
                dispatch(who);
            else
                post(who);
        }
        auto seq = mon.will_post(who);
        post_([self = this->shared_from_this(), who, seq] {
            {
                auto running = self->mon.start(who, seq);
            }
            self->done();
            self->done(); // the producer
        });
    }
    void thread()
    {
        auto who = mon.producer();
        {
            std::lock_guard<std::mutex> g{mon.m};
            ++mon.outstanding;
        }
        vp::count("threads");
        std::lock_guard<std::mutex> g{rm};
        threads.emplace_back([self = this->shared_from_this(), who] {
            self->produce(who, false);
        });
    }
    void async()
    {
        if constexpr (std::is_same_v<AsyncFn, std::nullptr_t>)
            post(0);
        else {
            auto who = mon.producer();
            {
                std::lock_guard<std::mutex> g{mon.m};
                ++mon.outstanding;
            }
            vp::count("asyncs");
            auto ran = std::make_shared<std::atomic<int>>(0);
            async_([self = this->shared_from_this(), who, ran] {
                if (++*ran > 1)
                    self->c.fail("C19.async_twice", "ran twice");
                self->produce(who, true);
            });
        }
    }
    void join()
    {
        // no thread is started any more, as nothing is outstanding
        for (auto& t : threads)
            t.join();
        threads.clear();
    }
};
#endif

#if LOOP_QT
// once tasks were lost, do not wait as long again
int patience = 30000;

void one(Case& c)
{
    auto before = vp::Tracked::live().load();
    {
        QThreadPool pool;
        pool.setMaxThreadCount(1 + c.rng.below(4));
        auto own_pool = c.rng.chance(50);
        // the loop's object lives here or in a thread of its own
        auto elsewhere = c.rng.chance(30);
        auto object    = std::make_unique<QObject>();
        QThread other;
        if (elsewhere)
            object->moveToThread(&other);

        auto loop = [&] {
            return own_pool ? lager::with_qt_event_loop{*object, pool}
                            : lager::with_qt_event_loop{*object};
        };
        auto* obj = object.get();
        auto* pl  = own_pool ? &pool : QThreadPool::globalInstance();
        // these must not wait for the pool when destroyed within a task, so
        // they outlive everything
        auto handle = std::make_shared<lager::with_qt_event_loop>(loop());
        auto post   = [h = handle.get()](auto f) { h->post(std::move(f)); };
        auto async  = [h = handle.get()](auto f) { h->async(std::move(f)); };
        auto script = std::make_shared<Script<decltype(post), decltype(async)>>(
            c, post, async);
        auto* s = script.get();
        s->mon.producer(); // the loop's thread

        // a store on a loop of the same object: its reductions are tasks too
        std::map<int, long> reduced;
        auto reducer = [s](StoreModel m, Action a)
            -> std::pair<StoreModel, lager::effect<Action>> {
            auto running = s->mon.start(a.who, a.seq);
            m.next[a.who] = a.seq + 1;
            return {m, [s, a](auto&& ctx) {
                        vp::count("effects");
                        if (std::this_thread::get_id() != s->mon.loop_thread)
                            s->c.fail("C19.thread", "an effect runs on "
                                                    "another thread");
                        s->done();
                    }};
        };
        auto store = lager::make_store<Action>(
            StoreModel{}, loop(), lager::with_reducer(reducer));
        s->dispatch_ = [&store](Action a) { store.dispatch(a); };

        // only the application's thread may stop it; from elsewhere through
        // a task for it
        auto* app  = QCoreApplication::instance();
        std::atomic<bool> stopping{false};
        s->finish_ = [&, h = handle.get()] {
            stopping = true;
            if (elsewhere && c.index % 2)
                QMetaObject::invokeMethod(app, [h] { h->finish(); },
                                          Qt::QueuedConnection);
            else
                h->finish();
        };
        if (elsewhere) {
            std::promise<std::thread::id> id;
            other.start();
            QMetaObject::invokeMethod(
                obj, [&] { id.set_value(std::this_thread::get_id()); },
                Qt::QueuedConnection);
            s->mon.loop_thread = id.get_future().get();
            vp::count("elsewhere");
        } else
            s->mon.loop_thread = std::this_thread::get_id();

        // started from a task of this very loop, so that nothing can finish
        // before it runs
        {
            auto seq = s->mon.will_post(0);
            QMetaObject::invokeMethod(
                app,
                [s, seq, post] {
                    post([s, seq] {
                        {
                            auto running = s->mon.start(0, seq);
                            s->some(0);
                            s->thread();
                        }
                        s->done();
                    });
                },
                Qt::QueuedConnection);
        }
        QTimer watchdog;
        watchdog.setSingleShot(true);
        bool timed_out = false;
        QObject::connect(&watchdog, &QTimer::timeout, [&] {
            timed_out = true;
            patience  = 1000;
            QCoreApplication::exit(1);
        });
        watchdog.start(patience);
        QCoreApplication::exec();
        if (timed_out)
            c.fail(stopping ? "C19.finish" : "C19.lost",
                   stopping ? "finishing did not stop the loop"
                            : "tasks did not run in 30 s");
        else {
            c.expect(stopping.load(), "C19.stopped", "the loop stopped by itself");
            vp::count("finished");
            s->mon.all_ran();
        }
        s->join();
        pl->waitForDone();
        if (elsewhere) {
            other.quit();
            other.wait();
        }
        // tasks may be pending when the object goes
        if (c.rng.chance(20) && !timed_out) {
            auto held = std::make_shared<Held>();
            handle->post([held, &c] {
                c.fail("C19.after_object", "a task of a destroyed object ran");
            });
            object.reset(new QObject);
            QCoreApplication::processEvents();
            vp::count("object_gone");
        }
        // and the destructor of the loop waits for the pool
        if (c.rng.chance(50)) {
            auto done = std::make_shared<std::atomic<bool>>(false);
            {
                auto l = loop();
                l.async([done] {
                    std::this_thread::sleep_for(std::chrono::microseconds(500));
                    *done = true;
                });
            }
            c.expect(*done, "C19.async_wait",
                     "asynchronous work outlives its loop");
            vp::count("waited");
        }
        c.nontrivial = true;
        c.note("tasks ", s->mon.executed, " producers ", s->mon.producers,
               " elsewhere ", elsewhere);
        s->dispatch_ = nullptr;
    }
    QCoreApplication::processEvents();
    if (c.fails.empty())
        c.expect(vp::Tracked::live() == before, "C19.retained",
                 "tasks are kept: ", vp::Tracked::live() - before);
}
#endif

#if LOOP_QML
struct Item : lager::event_loop_quick_item
{
    using base_t = lager::event_loop_quick_item;
    std::function<void()> on_step;
    int steps = 0;
    explicit Item(QQuickItem* p)
        : base_t{p}
    {}
    void step() override
    {
        ++steps;
        vp::count("steps");
        base_t::step();
        if (on_step)
            on_step();
    }
};

// once tasks were lost, do not wait as long again
int patience = 30000;

void one(Case& c)
{
    auto before = vp::Tracked::live().load();
    {
        QQuickWindow window;
        window.resize(20, 20);
        auto visible = c.rng.chance(80);
        auto item    = std::make_unique<Item>(window.contentItem());
        if (c.rng.chance(60)) {
            item->setFlag(QQuickItem::ItemHasContents);
            item->setSize({5, 5});
        }
        auto* it   = item.get();
        auto post  = [it](auto f) { it->post(std::move(f)); };
        auto script =
            std::make_shared<Script<decltype(post), std::nullptr_t>>(
                c, post, nullptr);
        auto* s = script.get();
        s->mon.producer();
        s->mon.loop_thread = std::this_thread::get_id();

        auto reducer = [s](StoreModel m, Action a)
            -> std::pair<StoreModel, lager::effect<Action>> {
            auto running  = s->mon.start(a.who, a.seq);
            m.next[a.who] = a.seq + 1;
            return {m, [s](auto&&) {
                        vp::count("effects");
                        s->done();
                    }};
        };
        std::optional<lager::store<Action, StoreModel>> store;
        store.emplace(lager::make_store<Action, lager::transactional_tag>(
            StoreModel{}, lager::with_qml_event_loop{*it},
            lager::with_reducer(reducer)));
        s->dispatch_ = [&store](Action a) { store->dispatch(a); };
        // hidden once it has begun: before, there is nothing to begin it
        long hide_at = visible ? -1 : 1 + (long) c.rng.below(4);
        it->on_step  = [&] {
            lager::commit(*store);
            if (it->steps == hide_at)
                QTimer::singleShot(0, &window, [&] {
                    window.hide();
                    vp::count("hidden");
                });
        };
        s->finish_   = [] { QCoreApplication::quit(); };
        window.show();
        // the first time is from the loop
        {
            auto seq = s->mon.will_post(0);
            QTimer::singleShot(0, it, [&, s, seq] {
                post([s, seq] {
                    {
                        auto running = s->mon.start(0, seq);
                        s->some(0);
                        s->thread();
                    }
                    s->done();
                });
            });
        }
        QTimer watchdog;
        watchdog.setSingleShot(true);
        bool timed_out = false;
        QObject::connect(&watchdog, &QTimer::timeout, [&] {
            timed_out = true;
            patience  = 1000;
            QCoreApplication::exit(1);
        });
        watchdog.start(patience);
        QCoreApplication::exec();
        if (timed_out)
            c.fail("C19.lost", "tasks did not run in 30 s");
        else
            s->mon.all_ran();
        s->join();
        vp::count("finished");
        c.nontrivial = true;
        c.note("tasks ", s->mon.executed, " producers ", s->mon.producers);
        // tasks may be pending when the item goes
        if (c.rng.chance(30)) {
            auto held = std::make_shared<Held>();
            it->post([held, &c] {
                c.fail("C19.after_object", "a task of a destroyed item ran");
            });
            vp::count("object_gone");
        }
        s->dispatch_ = nullptr;
        it->on_step  = nullptr;
        auto first   = c.rng.chance(50);
        if (first)
            store.reset();
        item.reset();
        store.reset();
    }
    QCoreApplication::processEvents();
    if (c.fails.empty())
        c.expect(vp::Tracked::live() == before, "C19.retained",
                 "tasks are kept: ", vp::Tracked::live() - before);
}
#endif

#if LOOP_SDL
std::uint32_t native_type()
{
    static const std::uint32_t t = SDL_RegisterEvents(1);
    return t;
}

struct task_error
{
    long id;
};

// Everything in the queue, when only the loop's thread feeds it: the order is
// known exactly.
struct Sdl
{
    Case& c;
    Monitor mon;
    std::unique_ptr<lager::sdl_event_loop> loop =
        std::make_unique<lager::sdl_event_loop>();
    struct Entry
    {
        bool native;
        long id;
    };
    std::deque<Entry> queue; // only without threads
    bool threaded   = false;
    bool ticking    = false;
    bool paused     = false;
    bool done       = false; // finish() has been called
    bool refused    = false; // a handler or a tick has returned false
    bool was_paused = false;
    bool throwing   = false;
    long thrown     = -1;
    long budget     = 0;
    std::map<int, long> native_posted, native_seen;
    std::vector<std::thread> threads;
    vp::Rng r;
    float max_dt    = 0;
    double sum_dt   = 0;
    Uint32 started  = 0;
    long ticks      = 0;
    float tpf       = 0;

    explicit Sdl(Case& cc)
        : c{cc}
        , mon{cc}
        , r{cc.rng.fork()}
    {}

    void native(int who)
    {
        auto id  = native_posted[who]++;
        auto ev  = SDL_Event{};
        SDL_zero(ev);
        ev.type       = native_type();
        ev.user.code  = who;
        ev.user.data1 = reinterpret_cast<void*>(id);
        if (!threaded)
            queue.push_back({true, id});
        if (SDL_PushEvent(&ev) != 1)
            std::abort();
    }

    template <typename F>
    void post(int who, F f)
    {
        auto seq = mon.will_post(who);
        if (!threaded)
            queue.push_back({false, seq});
        auto held = std::make_shared<Held>();
        auto fn   = [this, who, seq, held, f = std::move(f)]() mutable {
            auto running = mon.start(who, seq);
            no_more("a task");
            if (!threaded)
                took(false, seq);
            c.note("task ", who, ":", threaded ? 0 : seq);
            f();
            if (throwing && r.chance(10) && !refused && !done) {
                thrown = seq;
                vp::count("thrown");
                throw task_error{seq};
            }
        };
        if (r_chance(who, 50))
            loop->post(std::move(fn));
        else
            lager::with_sdl_event_loop{*loop}.post(std::move(fn));
    }
    bool r_chance(int who, int p) { return who ? (mon.posted[who] & 1) : r.chance(p); }

    void no_more(const char* what)
    {
        if (refused)
            c.fail("C19.after_stop", what, " after a handler returned false");
    }

    // the next thing in the queue, unless it is dropped for being paused
    void took(bool is_native, long id)
    {
        while (!queue.empty() && queue.front().native && paused && ticking) {
            vp::count("dropped_in_pause");
            ++native_seen[0];
            queue.pop_front();
        }
        if (queue.empty() || queue.front().native != is_native ||
            queue.front().id != id)
            c.fail("C19.queue_order", is_native ? "event " : "task ", id,
                   " is not the next one");
        else
            queue.pop_front();
    }

    bool handler(const SDL_Event& ev)
    {
        if (ev.type != native_type())
            return true;
        vp::count("native");
        auto who = ev.user.code;
        auto id  = reinterpret_cast<long>(ev.user.data1);
        no_more("an event");
        if (std::this_thread::get_id() != mon.loop_thread)
            c.fail("C19.thread", "a handler runs on another thread");
        if (ticking && paused)
            c.fail("C19.paused", "an event is handled while paused");
        if (!threaded)
            took(true, id);
        if (id != native_seen[who])
            c.fail("C19.native_order", "event ", id, " of ", who, " instead of ",
                   native_seen[who]);
        native_seen[who] = id + 1;
        c.note("event ", who, ":", threaded ? 0 : id);
        if (!threaded) {
            some();
            if (r.chance(4)) {
                refused = true;
                vp::count("refused");
                return false;
            }
        } else if (mon.one_less())
            finish();
        return true;
    }

    bool tick(float dt)
    {
        vp::count("ticks");
        no_more("a tick");
        if (paused)
            c.fail("C19.paused", "a tick while paused");
        if (std::this_thread::get_id() != mon.loop_thread)
            c.fail("C19.thread", "a tick on another thread");
        if (!(dt >= 0) || dt > max_dt * 1.0001f)
            c.fail("C19.tick_time", "a tick of ", dt, " ms of at most ", max_dt);
        sum_dt += dt;
        ++ticks;
        auto elapsed = SDL_GetTicks() - started;
        if (sum_dt > elapsed + 0.5)
            c.fail("C19.tick_time", "ticks add up to ", sum_dt, " ms in ",
                   elapsed);
        if (ticks > (elapsed + 2) / tpf + 3)
            c.fail("C19.tick_rate", ticks, " ticks in ", elapsed,
                   " ms, one takes ", tpf);
        if (!threaded) {
            some();
            if (queue.empty() && !done && (budget <= 0 || r.chance(5))) {
                c.note("tick stops");
                refused = true;
                vp::count("tick_refused");
                return false;
            }
        }
        return true;
    }

    void finish()
    {
        c.note("finish");
        done = true;
        if (r.chance(50))
            loop->finish();
        else
            lager::with_sdl_event_loop{*loop}.finish();
        vp::count("finished");
    }

    // from the loop's thread
    void some()
    {
        auto n = r.below(4);
        if (ticking && r.chance(2))
            SDL_Delay(10 + r.below(40));
        for (; n && budget > 0 && !done; --n) {
            --budget;
            switch (r.below(8)) {
            case 0:
            case 1:
            case 2: native(0); break;
            case 3:
            case 4:
            case 5:
                post(0, [this] { some(); });
                break;
            case 6:
                if (r.chance(40))
                    pause();
                else
                    post(0, [this] { some(); });
                break;
            default:
                if (r.chance(25)) {
                    finish();
                    return;
                }
                native(0);
                break;
            }
        }
        // the loop would wait for ever
        if (queue.empty() && !done && !(ticking && r.chance(90)))
            keep_going();
    }
    void keep_going()
    {
        if (budget-- > 0)
            post(0, [this] { some(); });
        else if (!last) {
            last = true;
            post(0, [this] { finish(); });
        }
    }
    bool last = false;

    void pause()
    {
        if (paused)
            return;
        c.note("pause");
        vp::count("pauses");
        paused = was_paused = true;
        loop->pause();
        for (auto n = r.below(4); n--;)
            if (r.chance(50))
                native(0);
            else
                post(0, [this] {});
        if (ticking && r.chance(15)) {
            // finished while paused: must stop all the same
            post(0, [this] {
                vp::count("finished_paused");
                finish();
            });
        } else {
            auto wait = r.below(3);
            post(0, [this, wait] {
                if (wait)
                    SDL_Delay(wait);
                if (ticking && r.chance(10))
                    SDL_Delay(30);
                c.note("resume");
                paused = false;
                loop->resume();
                some();
            });
        }
    }

    void run_once()
    {
        refused  = false;
        ticks    = 0;
        sum_dt   = 0;
        auto fps = r.chance(50) ? 1000 : 400;
        auto min = (int) r.range(30, 200);
        max_dt   = 1000.f / min;
        tpf      = 1000.f / fps;
        started  = SDL_GetTicks();
        try {
            if (ticking)
                loop->run([this](const SDL_Event& e) { return handler(e); },
                          [this](float dt) { return tick(dt); }, fps, min);
            else
                loop->run([this](const SDL_Event& e) { return handler(e); });
            thrown = -1;
            if (!refused && !done)
                c.fail("C19.stopped", "the loop stopped by itself");
        } catch (const task_error& e) {
            if (e.id != thrown)
                c.fail("C19.exception", "the exception of another task");
            thrown = -1;
        }
        vp::count("runs");
    }

    void alone()
    {
        ticking  = c.rng.chance(60);
        budget   = c.rng.range(3, 40);
        throwing = c.rng.chance(30);
        c.note("alone ticking ", ticking, " throwing ", throwing);
        mon.loop_thread = std::this_thread::get_id();
        mon.producer();
        for (auto n = r.below(3); n--;)
            native(0);
        post(0, [this] { some(); });
        for (int i = 0; i < 60 && !done && c.fails.empty(); ++i) {
            run_once();
            if (queue.empty() && !done)
                keep_going();
        }
        // after finish() nothing runs any more, if it runs again
        if (done && c.fails.empty()) {
            // (what was still in the queue stays there)
            vp::count("done");
        }
        auto drained = queue.empty();
        SDL_FlushEvents(SDL_USEREVENT, SDL_LASTEVENT);
        if (drained && c.fails.empty()) {
            loop.reset();
            vp::count("drained");
            c.expect(vp::Tracked::live() == 0, "C19.retained",
                     "tasks are kept: ", vp::Tracked::live().load());
        }
    }

    void with_threads()
    {
        threaded = true;
        ticking  = c.rng.chance(40);
        auto n   = 1 + c.rng.below(3);
        c.note("threads ", n, " ticking ", ticking);
        mon.loop_thread = std::this_thread::get_id();
        mon.producer();
        for (std::size_t i = 0; i < n; ++i) {
            native_posted[(int) i + 1] = native_seen[(int) i + 1] = 0;
            auto who = mon.producer();
            mon.posted[who];
            mon.ran[who];
            ++mon.outstanding;
            auto seed = r.next();
            auto k    = 3 + r.below(15);
            vp::count("threads");
            threads.emplace_back([this, who, seed, k] {
                vp::Rng mine{seed};
                for (std::size_t j = 0; j < k; ++j) {
                    nap(mine);
                    if (mine.chance(50)) {
                        {
                            std::lock_guard<std::mutex> g{mon.m};
                            ++mon.outstanding;
                        }
                        native(who);
                    } else
                        post(who, [this] {
                            if (r.chance(20) && budget++ < 10)
                                post(0, [this] { less(); });
                            less();
                        });
                }
                post(who, [this] {
                    less();
                    less();
                });
            });
        }
        run_once();
        for (auto& t : threads)
            t.join();
        mon.all_ran();
        for (auto& [who, k] : native_posted)
            if (native_seen[who] != k)
                c.fail("C19.lost_event", "events of ", who, " were lost: ",
                       k - native_seen[who]);
        SDL_FlushEvents(SDL_USEREVENT, SDL_LASTEVENT);
        loop.reset();
        if (c.fails.empty())
            c.expect(vp::Tracked::live() == 0, "C19.retained",
                     "tasks are kept: ", vp::Tracked::live().load());
    }
    void less()
    {
        if (mon.one_less())
            finish();
    }
};

void one(Case& c)
{
    SDL_FlushEvents(SDL_USEREVENT, SDL_LASTEVENT);
    vp::Tracked::live() = 0;
    {
        Sdl s{c};
        if (c.rng.chance(70))
            s.alone();
        else
            s.with_threads();
    }
    c.nontrivial = true;
}
#endif

} // namespace

#if LOOP_SDL
// More tasks at once than SDL's queue has room for.
void flood(Case& c)
{
    lager::sdl_event_loop loop;
    const long n = 70000;
    long ran = 0, wrong = 0;
    for (long i = 0; i < n; ++i)
        loop.post([&, i] { wrong += ran++ != i; });
    for (int frames = 3; frames-- > 0 && ran < n;)
        loop.run([](auto&&) { return true; }, [](float) { return false; }, 1000);
    c.expect(wrong == 0, "C19.order", wrong, " tasks ran out of order");
    c.expect(ran == n, "C19.flood", "of ", n, " tasks posted at once ", ran,
             " ran");
    c.note("flood ", ran);
}
#endif

int main(int argc, char** argv)
{
#if LOOP_SDL
    setenv("SDL_VIDEODRIVER", "dummy", 1);
    setenv("SDL_AUDIODRIVER", "dummy", 1);
    if (SDL_Init(SDL_INIT_EVENTS | SDL_INIT_TIMER))
        return 9;
    native_type();
#else
    setenv("QT_QPA_PLATFORM", "offscreen", 1);
    setenv("QT_QUICK_BACKEND", "software", 1);
    setenv("QSG_RENDER_LOOP", "basic", 1);
    setenv("XDG_RUNTIME_DIR", "/tmp", 0);
    int n = 1;
#if LOOP_QML
    QGuiApplication app{n, argv};
    app.setQuitOnLastWindowClosed(false);
#else
    QCoreApplication app{n, argv};
#endif
#endif
#if LOOP_SDL
    return vp::run_main(argc, argv, one, {{"flood", flood}});
#else
    return vp::run_main(argc, argv, one, {});
#endif
}
