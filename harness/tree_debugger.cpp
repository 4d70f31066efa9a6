// C22: the tree debugger.  The oracle does not know how branches are laid out:
// it remembers every position the debugger ever gave to an action, what was
// recorded there, and from which position it came.
#include "debugger_engine.hpp"

namespace de {

struct Tree
{
    static constexpr const char* prefix = "C22";
    static constexpr bool has_redo      = false;
    template <typename A, typename M, typename Dp>
    using debugger_t = lager::tree_debugger<A, M, Dp>;
    using debugger   = lager::tree_debugger<Action, Model, World::store_deps_t>;
    using DModel     = debugger::model;
    using cursor_t   = debugger::cursor_t;
    using pos_t      = std::vector<std::pair<std::size_t, std::size_t>>;

    Case& c;
    World& w;
    Model init_;
    struct Entry
    {
        Action action;
        Model model;
        pos_t parent;
    };
    std::map<pos_t, Entry> known;
    pos_t cursor; // empty for the start
    // a resume applies several actions before the positions can be seen
    std::vector<std::pair<Action, Model>> resuming;
    bool in_resume = false;
    std::vector<std::pair<Action, Model>> unplaced; // positions not seen
    std::set<int> unplaced_ids;
    unsigned long turn = 0;

    static pos_t pos(const cursor_t& x)
    {
        pos_t r;
        for (auto& p : x)
            r.emplace_back(p.branch, p.step);
        return r;
    }
    static cursor_t cur(const pos_t& x)
    {
        auto r = cursor_t{};
        for (auto& p : x)
            r = r.push_back({p.first, p.second});
        return r;
    }
    static std::string show_pos(const pos_t& p)
    {
        std::string s = "<";
        for (auto& x : p)
            s += std::to_string(x.first) + "." + std::to_string(x.second) + " ";
        return s + ">";
    }
    static std::string show_cursor(const cursor_t& x) { return show_pos(pos(x)); }

    void init(const Model& m) { init_ = m; }
    const Model& at(const pos_t& p) const
    {
        return p.empty() ? init_ : known.at(p).model;
    }
    const Model& current() const
    {
        return !resuming.empty() ? resuming.back().second : at(cursor);
    }
    void applied(const Action& a, Model model, const DModel& m)
    {
        if (in_resume) {
            resuming.emplace_back(a, std::move(model));
            return;
        }
        auto p = pos(m.cursor);
        c.expect(!p.empty() && !known.count(p), "C22.position", "action ",
                 id_of(a), " is recorded at ", show_pos(p), ", which is taken");
        if (!cursor.empty() || !known.empty()) {
            long kids = 0;
            for (auto& e : known)
                kids += e.second.parent == cursor;
            if (kids)
                vp::count("branches_made");
            if (kids > 1)
                vp::count("third_branches_made");
            if (!kids && !cursor.empty()) {
                auto next = cursor;
                ++next.back().second;
                vp::count("continued_branches");
                c.expect(p == next, "C22.branch", "an action at the end ",
                         show_pos(cursor), " of a branch is recorded at ",
                         show_pos(p), " and does not continue it");
            }
        }
        known[p] = {a, std::move(model), cursor};
        cursor   = p;
    }
    void resume_begin(const DModel& m)
    {
        in_resume = true;
        resuming.clear();
        after_resume = &m;
    }
    const DModel* after_resume = nullptr;
    void resume_end()
    {
        in_resume = false;
        if (resuming.empty())
            return;
        // the positions between are those that undo goes through
        auto at     = pos(after_resume->cursor);
        auto parent = cursor;
        auto chain  = std::vector<pos_t>{};
        for (std::size_t i = 0; i < resuming.size(); ++i) {
            chain.insert(chain.begin(), at);
            at = before(at);
        }
        c.expect(at == parent, "C22.resume", "the resumed actions start from ",
                 show_pos(at), ", not ", show_pos(parent));
        for (std::size_t i = 0; i < resuming.size(); ++i) {
            c.expect(!chain[i].empty() && !known.count(chain[i]), "C22.position",
                     "resumed action ", id_of(resuming[i].first),
                     " is recorded at ", show_pos(chain[i]),
                     ", which is taken");
            known[chain[i]] = {resuming[i].first, resuming[i].second,
                               i ? chain[i - 1] : parent};
        }
        cursor = chain.back();
        resuming.clear();
    }
    // where undo leads from there
    static pos_t before(pos_t p)
    {
        if (p.empty())
            return p;
        if (p.back().second > 0)
            --p.back().second;
        else
            p.pop_back();
        return p;
    }
    void go(const cursor_t& x)
    {
        auto p = pos(x);
        if (p.empty() || known.count(p))
            cursor = p;
        else
            vp::count("out_of_range");
    }
    void undo(const DModel& m)
    {
        // to where the action was taken
        auto to = cursor.empty() ? cursor : known.at(cursor).parent;
        c.expect(pos(m.cursor) == to, "C22.undo", "undo goes from ",
                 show_pos(cursor), " to ", show_pos(pos(m.cursor)), ", not ",
                 show_pos(to));
        cursor = to;
    }
    void redo() {}
    cursor_t random_goto(vp::Rng& r)
    {
        pos_t p;
        if (!known.empty()) {
            auto it = known.begin();
            std::advance(it, (long) r.below(known.size()));
            p = it->first;
        }
        switch (r.below(8)) {
        case 0: p.clear(); break;
        case 1: p.push_back({r.below(3), r.below(4)}); break;
        case 2:
            if (!p.empty())
                p.back().second += 1 + r.below(3);
            break;
        case 3:
            if (!p.empty())
                p.back().first += 1 + r.below(3);
            break;
        case 4:
            if (!p.empty() && r.chance(30))
                p[r.below(p.size())].first = (std::size_t) -1;
            break;
        default: break;
        }
        return cur(p);
    }

    std::size_t total(const debugger::summary_t& s)
    {
        std::size_t n = 0;
        for (auto& h : s)
            for (auto& st : h) {
                n += st->steps;
                if (!st->branches.empty())
                    n += 1 + total(st->branches);
            }
        return n;
    }

    void compare(const DModel& m,
                 bool paused,
                 const std::vector<Action>& pending,
                 const char* what)
    {
        auto k = [](const char* x) { return std::string("C22.") + x; };
        c.expect(m.paused == paused, k("paused"), "the state ", what,
                 " is paused: ", m.paused);
        auto ok = m.pending.size() == pending.size();
        for (std::size_t i = 0; ok && i < pending.size(); ++i)
            ok = m.pending[i] == pending[i];
        c.expect(ok, k("pending"), "the state ", what, " has ",
                 m.pending.size(), " pending actions, not ", pending.size());
        c.expect(m.init == init_, k("init"), "the initial model of the state ",
                 what, " is ", show(m.init));
        c.expect(pos(m.cursor) == cursor, k("cursor"), "the state ", what,
                 " is at ", show_pos(pos(m.cursor)), ", not ",
                 show_pos(cursor));
        if (!c.fails.empty())
            return;
        const Model& now = m;
        c.expect(now == at(cursor), k("fold"), "the state ", what, " shows ",
                 show(now), ", not ", show(at(cursor)));
        auto l0 = m.lookup({});
        c.expect(!l0.first && l0.second == init_, k("lookup"),
                 "lookup of the start gives ", show(l0.second));
        // all of it now and then, else some
        auto all = ++turn % 4 == 0;
        std::size_t i = 0;
        for (auto& e : known) {
            if (!all && (i++ + turn) % 5)
                continue;
            vp::count("positions_checked");
            auto x = cur(e.first);
            if (!c.expect(m.check(x), k("lost"), "position ", show_pos(e.first),
                          " of the state ", what, " is gone"))
                return;
            auto l = m.lookup(x);
            c.expect(l.first && *l.first == e.second.action, k("action"),
                     "position ", show_pos(e.first), " records another action");
            c.expect(l.second == e.second.model, k("model"), "position ",
                     show_pos(e.first), " records ", show(l.second), ", not ",
                     show(e.second.model));
        }
        c.expect(total(m.summary()) == known.size(), k("summary"),
                 "the summary has ", total(m.summary()), " steps, not ",
                 known.size());
    }
};

} // namespace de

int main(int argc, char** argv)
{
    return vp::run_main(argc, argv, [](vp::Case& c) {
        de::Driver<de::Tree> d{c};
        d.run();
    });
}
