// C03: futures and promises by themselves. Random networks of futures (chained
// with functions that return nothing or another future, combined, empty) over
// loops of several kinds are completed in random orders, against a model of
// when each of them is complete.
#include "common.hpp"

#include <lager/config.hpp>
#include <lager/util.hpp>

#include <cassert>
#include <functional>
#include <memory>
#include <stdexcept>

#include <lager/event_loop/manual.hpp>
#include <lager/event_loop/queue.hpp>
#include <lager/future.hpp>

#include <deque>
#include <set>

namespace {
using vp::Case;

enum LoopKind
{
    l_inline, // what is posted runs at once
    l_fifo,
    l_queue,
    l_manual,
    n_loops
};
const char* loop_name[] = {"inline", "fifo", "queue", "manual"};

enum Kind
{
    k_base,
    k_empty,
    k_then,
    k_then_future,
    k_also
};

struct Node
{
    Kind kind;
    int a = -1, b = -1; // what it comes from, what it is combined with
    bool empty    = false;
    int loop      = -1;
    bool sat      = false; // base
    int runs      = 0;     // then
    bool entered  = false;
    bool exited   = false;
    int ret       = -1; // then_future
    bool attached = false;
    bool late     = false; // attached when it was complete
};

struct Engine : std::enable_shared_from_this<Engine>
{
    Case& c;
    vp::Rng& g;
    std::vector<Node> nodes;
    std::map<int, lager::future> handles; // nobody took them yet
    struct Prom
    {
        int node;
        lager::promise p;
    };
    std::vector<Prom> proms;
    std::map<int, lager::promise> spent;

    std::deque<std::function<void()>> fifo;
    lager::queue_event_loop queue;
    lager::with_manual_event_loop manual;
    std::vector<int> in_loop; // loops whose tasks are running
    int attaching = -1;       // node whose function is being attached
    int depth     = 0;
    int budget    = 60;

    explicit Engine(Case& cc)
        : c{cc}
        , g{cc.rng}
    {}

    // every task knows on which loop it is
    std::function<void()> on(int loop, std::function<void()> f)
    {
        return [this, loop, f = std::move(f)] {
            in_loop.push_back(loop);
            f();
            in_loop.pop_back();
        };
    }
    void post(int loop, std::function<void()> f)
    {
        vp::count("posts");
        auto t = on(loop, std::move(f));
        switch (loop) {
        case l_inline:
            return t();
        case l_fifo:
            return fifo.push_back(std::move(t));
        case l_queue:
            return queue.post(std::move(t));
        default:
            return manual.post(std::move(t));
        }
    }
    bool on_loop(int l) { return !in_loop.empty() && in_loop.back() == l; }

    bool complete(int n)
    {
        if (n < 0)
            return true;
        auto& x = nodes[n];
        switch (x.kind) {
        case k_base:
            return x.sat;
        case k_empty:
            return true;
        case k_then:
            return x.exited;
        case k_then_future:
            return x.exited && complete(x.ret);
        default:
            return complete(x.a) && complete(x.b);
        }
    }

    int add(Node n, lager::future f)
    {
        nodes.push_back(n);
        auto id = (int) nodes.size() - 1;
        handles.emplace(id, std::move(f));
        return id;
    }
    int base()
    {
        Node n{k_base};
        n.loop    = g.below(n_loops);
        auto l    = n.loop;
        auto [p, f] =
            l == l_queue && g.chance(50)
                ? with_loop(l)
                : lager::promise::with_post(
                      [this, l](auto f) { post(l, std::move(f)); });
        auto id = add(n, std::move(f));
        c.note("f", id, " of a promise on the ", loop_name[n.loop], " loop");
        proms.push_back({id, std::move(p)});
        return id;
    }
    // through an object that has a post() like an event loop
    struct LoopView
    {
        Engine* e;
        int l;
        template <typename F>
        void post(F&& f)
        {
            e->post(l, std::forward<F>(f));
        }
    };
    std::map<int, LoopView> views;
    std::pair<lager::promise, lager::future> with_loop(int l)
    {
        views.emplace(l, LoopView{this, l});
        return lager::promise::with_loop(views.at(l));
    }
    int empty()
    {
        Node n{k_empty};
        n.empty = true;
        auto id = add(n, g.chance(50) ? lager::future{}
                                      : lager::promise::invalid().second);
        c.note("f", id, " empty");
        return id;
    }
    int pick()
    {
        if (handles.empty() || g.chance(15))
            return g.chance(85) ? base() : empty();
        auto it = handles.begin();
        std::advance(it, g.below(handles.size()));
        return it->first;
    }
    lager::future take(int id)
    {
        auto f = std::move(handles.at(id));
        handles.erase(id);
        return f;
    }

    // ------------------------------------------------ what functions do
    void enter(int id)
    {
        auto& n = nodes[id];
        vp::count("continuations");
        c.expect(++n.runs == 1, "C03.again", "the function of f", id, " ran ",
                 n.runs, " times");
        c.expect(complete(n.a), "C03.early", "the function of f", id,
                 " runs before f", n.a, " is complete");
        if (!nodes[n.a].empty) {
            c.expect(on_loop(nodes[n.a].loop), "C03.loop", "the function of f",
                     id, " does not run on the loop of f", n.a);
            if (nodes[n.a].loop == l_fifo || nodes[n.a].loop == l_queue)
                c.expect(attaching != id, "C03.at_once", "the function of f",
                         id, " runs inside of then(), not later on the loop");
        }
        n.entered = true;
        if (n.late)
            vp::count("continuations_after_completion");
    }
    void body(int id)
    {
        ++depth;
        for (auto k = g.below(3); k > 0 && depth < 4; --k)
            act(true);
        --depth;
        nodes[id].exited = true;
    }

    // ----------------------------------------------------------- actions
    void then_void()
    {
        auto from = pick();
        Node n{k_then};
        n.a     = from;
        n.loop  = nodes[from].loop;
        n.empty = nodes[from].empty;
        n.late  = complete(from);
        nodes.push_back(n);
        auto id = (int) nodes.size() - 1;
        c.note("f", id, " = f", from, ".then(function)", n.late ? " late" : "");
        auto f        = take(from);
        auto saved    = std::exchange(attaching, id);
        auto r        = std::move(f).then([this, id] {
            enter(id);
            body(id);
        });
        attaching     = saved;
        if (n.empty)
            c.expect(nodes[id].exited, "C03.empty_waits", "f", from,
                     " is empty but the function of f", id,
                     " did not run at once");
        handles.emplace(id, std::move(r));
    }
    void then_future()
    {
        auto from = pick();
        auto ret  = pick();
        if (ret == from || !handles.count(from))
            return;
        Node n{k_then_future};
        n.a     = from;
        n.ret   = ret;
        n.late  = complete(from);
        n.loop  = nodes[from].empty ? nodes[ret].loop : nodes[from].loop;
        n.empty = nodes[from].empty && nodes[ret].empty;
        nodes.push_back(n);
        auto id = (int) nodes.size() - 1;
        c.note("f", id, " = f", from, ".then(function giving f", ret, ")",
               n.late ? " late" : "");
        auto f     = take(from);
        auto rf    = std::make_shared<lager::future>(take(ret));
        auto saved = std::exchange(attaching, id);
        auto r     = std::move(f).then([this, id, rf] {
            enter(id);
            body(id);
            return std::move(*rf);
        });
        attaching  = saved;
        if (nodes[from].empty)
            c.expect(nodes[id].exited, "C03.empty_waits", "f", from,
                     " is empty but the function of f", id,
                     " did not run at once");
        vp::count("chained_futures");
        handles.emplace(id, std::move(r));
    }
    void also()
    {
        auto a = pick();
        auto b = pick();
        if (a == b || !handles.count(a))
            return;
        Node n{k_also};
        n.a     = a;
        n.b     = b;
        n.loop  = nodes[a].empty ? nodes[b].loop : nodes[a].loop;
        n.empty = nodes[a].empty && nodes[b].empty;
        nodes.push_back(n);
        auto id = (int) nodes.size() - 1;
        c.note("f", id, " = f", a, ".also(f", b, ")");
        auto fa = take(a);
        auto fb = take(b);
        auto r  = fa.also(std::move(fb));
        vp::count("combined_futures");
        handles.emplace(id, std::move(r));
    }
    void satisfy(bool from_task)
    {
        if (proms.empty())
            return;
        auto i = g.below(proms.size());
        auto n = proms[i].node;
        auto p = std::move(proms[i].p);
        proms.erase(proms.begin() + i);
        c.note("satisfy f", n, from_task ? " from a task" : "");
        auto doit = [this, n, p]() mutable {
            nodes[n].sat = true;
            vp::count("satisfied");
            auto copy = p;
            p();
            if (spent.size() < 4)
                spent.emplace(n, std::move(copy));
        };
        if (from_task)
            post(nodes[n].loop, std::move(doit));
        else
            doit();
    }
    void satisfy_again()
    {
        if (spent.empty())
            return;
        auto it = spent.begin();
        std::advance(it, g.below(spent.size()));
        // a loop that runs at once does so while the promise is being
        // satisfied
        if (nodes[it->first].loop == l_inline || depth)
            return;
        c.note("satisfy f", it->first, " once more");
        auto p = std::move(it->second);
        spent.erase(it);
        vp::count("satisfied_again");
        try {
            p();
            p();
        } catch (const std::runtime_error&) {
            vp::count("satisfied_again_refused");
        }
    }
    void step()
    {
        // one task, or all of the queue
        if (!fifo.empty() && g.chance(70)) {
            auto f = std::move(fifo.front());
            fifo.pop_front();
            f();
        } else {
            queue.step();
        }
    }
    void act(bool inside)
    {
        if (--budget < 0)
            return;
        switch (g.below(inside ? 8 : 12)) {
        case 0:
        case 1:
            return then_void();
        case 2:
            return then_future();
        case 3:
            return also();
        case 4:
        case 5:
            return satisfy(false);
        case 6:
            return satisfy(true);
        case 7:
            return satisfy_again();
        default:
            step();
        }
    }
    void drain()
    {
        for (int i = 0; i < 10000; ++i) {
            auto n = fifo.size();
            while (!fifo.empty()) {
                auto f = std::move(fifo.front());
                fifo.pop_front();
                f();
            }
            queue.step();
            if (fifo.empty() && !n)
                break;
        }
    }
    void judge(const char* when)
    {
        for (int i = 0; i < (int) nodes.size(); ++i) {
            auto& n = nodes[i];
            if (n.kind != k_then && n.kind != k_then_future)
                continue;
            vp::count("judged");
            c.expect(n.runs == (complete(n.a) ? 1 : 0), "C03.lost", when,
                     ": the function of f", i, " ran ", n.runs, " times, f",
                     n.a, complete(n.a) ? " is" : " is not", " complete");
        }
    }
    void run()
    {
        auto n = g.range(8, 40);
        for (int i = 0; i < n && c.fails.empty(); ++i)
            act(false);
        drain();
        judge("so far");
        // the rest, in some order
        budget = 40;
        while (!proms.empty() && c.fails.empty()) {
            satisfy(g.chance(30));
            if (g.chance(50))
                act(false);
            if (g.chance(50))
                drain();
        }
        // and what nobody looked at yet
        budget = 0;
        while (!handles.empty()) {
            then_void_on(handles.begin()->first);
        }
        drain();
        if (c.fails.empty())
            judge("at the end");
        c.nontrivial = nodes.size() > 4;
    }
    void then_void_on(int from)
    {
        Node n{k_then};
        n.a    = from;
        n.loop = nodes[from].loop;
        n.late = complete(from);
        nodes.push_back(n);
        auto id    = (int) nodes.size() - 1;
        auto f     = take(from);
        auto saved = std::exchange(attaching, id);
        std::move(f).then([this, id] {
            enter(id);
            nodes[id].exited = true;
        });
        attaching = saved;
    }
};
} // namespace

int main(int argc, char** argv)
{
    return vp::run_main(
        argc,
        argv,
        [](Case& c) {
            auto e = std::make_shared<Engine>(c);
            e->run();
            // what is left in the loops refers to it
            e->fifo.clear();
            for (auto& n : e->nodes)
                c.mix(n.kind * 16 + n.late * 8 + n.exited * 4 + n.empty);
        },
        {});
}
