// C20, C21 with the linear debugger
#include "debugger_engine.hpp"

#include <lager/event_loop/manual.hpp>

namespace de {

struct Linear
{
    static constexpr const char* prefix = "C20";
    static constexpr bool has_redo      = true;
    template <typename A, typename M, typename Dp>
    using debugger_t = lager::debugger<A, M, Dp>;
    using debugger   = lager::debugger<Action, Model, World::store_deps_t>;
    using DModel     = debugger::model;

    Case& c;
    World& w;
    Model init_;
    std::vector<std::pair<Action, Model>> hist;
    std::size_t cursor = 0;

    void init(const Model& m) { init_ = m; }
    const Model& current() const
    {
        return cursor ? hist[cursor - 1].second : init_;
    }
    void applied(const Action& a, Model m, const DModel&)
    {
        if (cursor < hist.size())
            vp::count("futures_discarded");
        hist.resize(cursor);
        hist.emplace_back(a, std::move(m));
        cursor = hist.size();
    }
    void go(std::size_t x)
    {
        if (x <= hist.size())
            cursor = x;
        else
            vp::count("out_of_range");
    }
    void undo(const DModel&)
    {
        if (cursor)
            --cursor;
        else
            vp::count("out_of_range");
    }
    void redo()
    {
        if (cursor < hist.size())
            ++cursor;
        else
            vp::count("out_of_range");
    }
    void resume_begin(const DModel&) {}
    void resume_end() {}
    std::size_t random_goto(vp::Rng& r)
    {
        switch (r.below(6)) {
        case 0: return hist.size() + r.below(4);
        case 1: return (std::size_t) -1 - r.below(3);
        case 2: return 0;
        default: return r.below(hist.size() + 1);
        }
    }
    static std::string show_cursor(std::size_t x) { return std::to_string(x); }

    void compare(const DModel& m,
                 bool paused,
                 const std::vector<Action>& pending,
                 const char* what)
    {
        auto k = [](const char* x) { return std::string("C20.") + x; };
        c.expect(m.cursor == cursor, k("cursor"), "the state ", what,
                 " is at ", m.cursor, ", not ", cursor);
        c.expect(m.cursor <= m.history.size(), k("bounds"), "cursor ", m.cursor,
                 " of ", m.history.size());
        c.expect(m.paused == paused, "C21.paused", "the state ", what,
                 " is paused: ", m.paused);
        c.expect(m.init == init_, k("init"), "the initial model of the state ",
                 what, " is ", show(m.init));
        if (c.expect(m.history.size() == hist.size() && m.summary() == hist.size(),
                     k("history"), "the state ", what, " has ",
                     m.history.size(), " steps, not ", hist.size())) {
            for (std::size_t i = 0; i < hist.size(); ++i) {
                auto& s = m.history[i];
                c.expect(s.action == hist[i].first, k("action"), "step ", i + 1,
                         " of the state ", what, " records action ",
                         id_of(s.action), ", not ", id_of(hist[i].first));
                c.expect(s.model == hist[i].second, k("model"), "step ", i + 1,
                         " of the state ", what, " records ", show(s.model),
                         ", not ", show(hist[i].second));
            }
        }
        auto l0 = m.lookup(0);
        c.expect(!l0.first && l0.second == init_, k("lookup"),
                 "lookup of the start gives ", show(l0.second));
        if (m.history.size() == hist.size() && !hist.empty()) {
            auto i  = (std::size_t) (transitions++ % hist.size());
            auto l  = m.lookup(i + 1);
            c.expect(l.first && *l.first == hist[i].first &&
                         l.second == hist[i].second,
                     k("lookup"), "lookup of ", i + 1, " gives ",
                     show(l.second));
        }
        auto thrown = false;
        try {
            m.lookup(m.history.size() + 1 + (std::size_t) transitions % 3);
        } catch (const std::runtime_error&) {
            thrown = true;
        }
        c.expect(thrown, k("lookup"), "lookup past the end gives something");
        if (m.cursor <= m.history.size()) {
            const Model& now = m;
            c.expect(now == current(), k("fold"), "the state ", what, " shows ",
                     show(now), ", not ", show(current()));
        }
        auto ok = m.pending.size() == pending.size();
        for (std::size_t i = 0; ok && i < pending.size(); ++i)
            ok = m.pending[i] == pending[i];
        c.expect(ok, "C21.pending", "the state ", what, " has ",
                 m.pending.size(), " pending actions, not ", pending.size());
    }
    unsigned long transitions = 0;
};

// ------------------------------------------------ with and without debugger
void transparent(Case& c)
{
    auto seed     = c.rng.next();
    auto futures  = c.rng.chance(50);
    auto async    = c.rng.chance(50);
    c.note("transparent ", futures, async);
    std::vector<std::string> logs[2];
    Model models[2];
    long steps[2]  = {0, 0};
    auto prefix    = c.rng.fork();
    auto with      = [&](int which, auto fut, auto&& dbg) {
        Case sub{seed, 0};
        World w{sub};
        w.futures       = futures;
        w.async_effects = async;
        w.on_reduce     = [](auto&&, auto&&) {};
        w.on_effect     = [](int) {};
        w.on_effect_done = [](int) {};
        w.on_future     = [&](int id, lager::future f) {
            if (f)
                std::move(f).then([&w, id] {
                    w.log.push_back("future " + std::to_string(id));
                });
        };
        auto reducer = [&w](Model m, Action a) { return w.reduce(std::move(m), a); };
        auto store   = lager::make_store<Action>(Model{},
                                               with_step_loop{&w.loop},
                                               lager::with_deps(std::ref(w.service)),
                                               lager::with_reducer(reducer),
                                               dbg,
                                               fut);
        auto step = [&] {
            auto f = std::move(w.loop.q.front());
            w.loop.q.pop_front();
            f();
            ++steps[which];
        };
        auto n = 3 + sub.rng.below(12);
        for (std::size_t i = 0; i < n; ++i) {
            auto a  = w.make((int) sub.rng.below(3));
            auto id = id_of(a);
            w.on_future(id, store.dispatch(a));
            for (auto k = sub.rng.below(6); k > 0 && !w.loop.q.empty(); --k)
                step();
            if (sub.rng.chance(20)) {
                auto ps = std::move(w.promises);
                w.promises.clear();
                for (auto& p : ps)
                    p.second();
            }
            const Model& m = store.get();
            w.log.push_back("model " + show(m));
        }
        while (!w.loop.q.empty() || !w.promises.empty()) {
            while (!w.loop.q.empty())
                step();
            auto ps = std::move(w.promises);
            w.promises.clear();
            for (auto& p : ps)
                p.second();
        }
        models[which] = static_cast<const Model&>(store.get());
        logs[which]   = w.log;
    };
    using D = Linear::debugger;
    Handed<D> handed;
    Server<D> server{&handed};
    auto dbg = lager::with_debugger(server);
    if (futures) {
        with(0, lager::with_futures, lager::identity);
        with(1, lager::with_futures, dbg);
    } else {
        with(0, lager::identity, lager::identity);
        with(1, lager::identity, dbg);
    }
    handed = {};
    vp::count("transparent_events", logs[0].size());
    c.expect(models[0] == models[1], "C21.transparent", "the models differ: ",
             show(models[0]), " with debugger ", show(models[1]));
    for (std::size_t i = 0; i < std::max(logs[0].size(), logs[1].size()); ++i) {
        auto a = i < logs[0].size() ? logs[0][i] : "nothing";
        auto b = i < logs[1].size() ? logs[1][i] : "nothing";
        if (a != b) {
            c.fail("C21.transparent", "event ", i, " is ", a,
                   ", with the debugger it is ", b);
            break;
        }
        c.mix(std::hash<std::string>{}(a));
    }
    c.nontrivial = logs[0].size() > 6;
}

} // namespace de

int main(int argc, char** argv)
{
    return vp::run_main(argc, argv, [](vp::Case& c) {
        if (c.rng.chance(25))
            return de::transparent(c);
        de::Driver<de::Linear> d{c};
        d.run();
    });
}
