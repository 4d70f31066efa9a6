// C27: Qt properties declared over readers and cursors.  The monitor keeps the
// values of two states and, for each property, what it is declared over, and
// judges every signal and every read.
#include <QCoreApplication>
#include <QMetaProperty>
#include <QObject>
#include <QString>
#include <QStringList>
#include <QVariant>

#include <lager/extra/qt.hpp>

#ifndef Q_MOC_RUN
#include "common.hpp"

#include <lager/lenses/attr.hpp>
#include <lager/state.hpp>
#include <optional>
#endif

struct Model
{
    int num = 0;
    QString txt;
    bool flag = false;
    QStringList list;
    double real = 0;
    int num2    = 0;
    QString txt2;
    bool operator==(const Model& o) const
    {
        return num == o.num && txt == o.txt && flag == o.flag &&
               list == o.list && real == o.real && num2 == o.num2 &&
               txt2 == o.txt2;
    }
    bool operator!=(const Model& o) const { return !(*this == o); }
};

class Props : public QObject
{
    Q_OBJECT

public:
    LAGER_QT_CONST(int, fixed)
    LAGER_QT_READER(int, rnum);
    LAGER_QT_CURSOR(int, cnum);
    LAGER_QT_READER(QString, rtxt);
    LAGER_QT_CURSOR(QString, ctxt);
    LAGER_QT_READER(bool, rflag);
    LAGER_QT_CURSOR(bool, cflag);
    LAGER_QT_READER(QStringList, rlist);
    LAGER_QT_CURSOR(QStringList, clist);
    LAGER_QT_READER(double, rreal);
    LAGER_QT_CURSOR(double, creal);
    LAGER_QT_READER(int, late);

    Props(lager::cursor<Model> m, int f, QObject* parent)
        : QObject{parent}
        , LAGER_QT(fixed){f}
        , LAGER_QT(rnum){m[&Model::num]}
        , LAGER_QT(cnum){m[&Model::num]}
        , LAGER_QT(rtxt){m[&Model::txt]}
        , LAGER_QT(ctxt){m[&Model::txt]}
        , LAGER_QT(rflag){m[&Model::flag]}
        , LAGER_QT(cflag){m[&Model::flag]}
        , LAGER_QT(rlist){m[&Model::list]}
        , LAGER_QT(clist){m[&Model::list]}
        , LAGER_QT(rreal){m[&Model::real]}
        , LAGER_QT(creal){m[&Model::real]}
    {}
};

// Receives the signals of any property, by the index its meta object declares.
class Sink : public QObject
{
    Q_OBJECT

public:
    std::function<void(int, QVariant)> fn;
    std::vector<int> which; // per signal index: property

    Q_SLOT void onInt(const int& v) { got(QVariant{v}); }
    Q_SLOT void onTxt(const QString& v) { got(QVariant{v}); }
    Q_SLOT void onBool(const bool& v) { got(QVariant{v}); }
    Q_SLOT void onList(const QStringList& v) { got(QVariant{v}); }
    Q_SLOT void onReal(const double& v) { got(QVariant{v}); }
    void got(QVariant v) { fn(senderSignalIndex(), std::move(v)); }
};

#include "qtprops.moc"

namespace {

using vp::Case;
enum
{
    RNUM,
    CNUM,
    RTXT,
    CTXT,
    RFLAG,
    CFLAG,
    RLIST,
    CLIST,
    RREAL,
    CREAL,
    LATE,
    NPROPS
};
const char* const names[NPROPS] = {"rnum",
                                   "cnum",
                                   "rtxt",
                                   "ctxt",
                                   "rflag",
                                   "cflag",
                                   "rlist",
                                   "clist",
                                   "rreal",
                                   "creal",
                                   "late"};
enum Kind
{
    INT,
    TXT,
    BOOL,
    LIST,
    REAL
};
const Kind kinds[NPROPS] = {
    INT, INT, TXT, TXT, BOOL, BOOL, LIST, LIST, REAL, REAL, INT};
bool writable(int p) { return p < LATE && p % 2; }

// which field of which state a property is over
struct Source
{
    int state = 0; // -1: none, 2: a sum over the state 0
    int field = 0; // 0..6, as declared in the model; 7: num + num2
};

QVariant field_of(const Model& m, int f)
{
    switch (f) {
    case 0: return m.num;
    case 1: return m.txt;
    case 2: return m.flag;
    case 3: return m.list;
    case 4: return m.real;
    case 5: return m.num2;
    case 6: return m.txt2;
    default: return m.num + m.num2;
    }
}
void set_field(Model& m, int f, const QVariant& v)
{
    switch (f) {
    case 0: m.num = v.toInt(); break;
    case 1: m.txt = v.toString(); break;
    case 2: m.flag = v.toBool(); break;
    case 3: m.list = v.toStringList(); break;
    case 4: m.real = v.toDouble(); break;
    case 5: m.num2 = v.toInt(); break;
    default: m.txt2 = v.toString(); break;
    }
}
Kind kind_of(int f)
{
    static const Kind k[] = {INT, TXT, BOOL, LIST, REAL, INT, TXT, INT};
    return k[f];
}

std::string str(const QVariant& v)
{
    if (v.canConvert<QStringList>() && v.type() == QVariant::StringList)
        return "[" + v.toStringList().join(",").toStdString() + "]";
    return v.toString().toStdString();
}

template <typename Tag>
struct Engine
{
    static constexpr bool transactional =
        std::is_same_v<Tag, lager::transactional_tag>;

    Case& c;
    std::array<std::optional<lager::state<Model, Tag>>, 2> states;
    std::array<lager::cursor<Model>, 2> cursors;
    std::array<Model, 2> current; // as the state's setters see it
    std::array<Model, 2> visible; // as its readers do
    struct Watched
    {
        std::unique_ptr<Props> props;
        std::unique_ptr<Sink> sink;
        std::array<Source, NPROPS> src;
        std::array<int, NPROPS> sources_of_signal;
        std::map<int, int> by_signal;
        std::array<int, NPROPS> due{};   // signals expected
        std::array<int, NPROPS> seen{};  // and received
        int fixed;
        int id;
        bool blocked = false; // its signals are
        std::vector<QMetaObject::Connection> conns;
        std::array<bool, NPROPS> by_functor{};
    };
    std::vector<std::unique_ptr<Watched>> objs;
    std::array<int, 2> writes{}; // since the last commit
    int serial     = 0;
    int write_from = -1; // a slot that writes the second state
    bool ready     = false;
    bool nested    = false;

    explicit Engine(Case& cc)
        : c{cc}
    {}

    QVariant random_value(Kind k)
    {
        switch (k) {
        case INT: return (int) c.rng.range(-2, 3);
        case TXT: return QString::number(c.rng.below(3));
        case BOOL: return c.rng.chance(50);
        case LIST: {
            QStringList l;
            for (auto n = c.rng.below(3); n--;)
                l << QString::number(c.rng.below(2));
            return l;
        }
        default: return c.rng.range(0, 3) / 2.0;
        }
    }

    QVariant expected(const Watched& w, int p)
    {
        auto& s = w.src[p];
        return field_of(visible[s.state], s.field);
    }

    QVariant direct(Watched& w, int p)
    {
        switch (p) {
        case RNUM: return w.props->rnum();
        case CNUM: return w.props->cnum();
        case RTXT: return w.props->rtxt();
        case CTXT: return w.props->ctxt();
        case RFLAG: return w.props->rflag();
        case CFLAG: return w.props->cflag();
        case RLIST: return w.props->rlist();
        case CLIST: return w.props->clist();
        case RREAL: return w.props->rreal();
        case CREAL: return w.props->creal();
        default: return w.props->late();
        }
    }

    void check_reads(Watched& w, const char* when)
    {
        for (int p = 0; p < NPROPS; ++p) {
            if (w.src[p].state < 0)
                continue;
            auto e = expected(w, p);
            auto d = direct(w, p);
            auto q = w.props->property(names[p]);
            if (d != e)
                c.fail("C27.read", "object ", w.id, " ", names[p], " reads ",
                       str(d), " instead of ", str(e), " ", when);
            if (q != e)
                c.fail("C27.read_meta", "object ", w.id, " property ",
                       names[p], " reads ", str(q), " instead of ", str(e),
                       " ", when);
            vp::count("reads");
        }
        if (w.props->fixed() != w.fixed ||
            w.props->property("fixed") != QVariant{w.fixed})
            c.fail("C27.read_const", "the constant property changed");
    }

    void on_signal(Watched& w, int p, const QVariant& v)
    {
        vp::count("signals");
        c.note("signal ", w.id, ".", names[p], "=", str(v));
        ++w.seen[p];
        if (w.blocked)
            c.fail("C27.signal_blocked", "object ", w.id, " signals ",
                   names[p], " though its signals are blocked");
        if (w.src[p].state < 0) {
            c.fail("C27.signal_extra", names[p], " has no reader");
            return;
        }
        if (w.seen[p] > w.due[p] && w.seen[p] == 1 && transactional &&
            writes[w.src[p].state] > 1)
            // the value went away and came back within one commit
            vp::count("came_back");
        else if (w.seen[p] > w.due[p])
            c.fail("C27.signal_extra", "object ", w.id, " signals ", names[p],
                   " = ", str(v), ", which did not change");
        auto e = expected(w, p);
        if (v != e)
            c.fail("C27.signal_value", "object ", w.id, " signals ", names[p],
                   " = ", str(v), ", its value is ", str(e));
        for (auto& o : objs)
            check_reads(*o, "during a signal");
        // a slot that writes the other state, as an application would
        if (!nested && !transactional && w.src[p].state == 0 &&
            write_from == p) {
            nested = true;
            vp::count("nested_writes");
            auto m = current[1];
            m.num  = (int) c.rng.range(-2, 3);
            change_all(1, m);
            nested = false;
        }
    }

    // A write that has become visible: signals are due for what it changed.
    void become(int s, const Model& m)
    {
        for (auto& w : objs)
            for (int p = 0; p < NPROPS; ++p)
                if (!w->blocked && w->src[p].state == s &&
                    field_of(visible[s], w->src[p].field) !=
                        field_of(m, w->src[p].field)) {
                    ++w->due[p];
                    vp::count("changes");
                }
        visible[s] = m;
    }
    // for automatic states: before the write is made
    void wrote(int s, const Model& m)
    {
        current[s] = m;
        ++writes[s];
        if (!transactional)
            become(s, m);
    }
    void settle(const char* when)
    {
        for (auto& w : objs) {
            for (int p = 0; p < NPROPS; ++p)
                if (w->seen[p] < w->due[p]) {
                    c.fail("C27.signal_missing", "object ", w->id, ": ",
                           names[p], " changed without signalling ", when);
                }
            w->seen = w->due = {};
            check_reads(*w, when);
        }
    }

    void change_all(int s, const Model& m)
    {
        c.note("write ", s, " num=", m.num, " txt=", m.txt.toStdString());
        wrote(s, m);
        cursors[s].set(m);
    }

    void write_state()
    {
        auto s = (int) c.rng.below(2);
        auto m = current[s];
        if (c.rng.chance(40)) {
            // several fields in one write
            for (auto n = c.rng.below(4); n--;) {
                auto f = (int) c.rng.below(7);
                auto v = random_value(kind_of(f));
                c.note("  ", f, "=", str(v));
                set_field(m, f, v);
            }
            c.note("update ", s);
            wrote(s, m);
            if (c.rng.chance(50))
                cursors[s].set(m);
            else
                cursors[s].update([&](Model) { return m; });
        } else {
            auto f = (int) c.rng.below(7);
            auto v = random_value(kind_of(f));
            set_field(m, f, v);
            c.note("field ", s, ".", f, "=", str(v));
            wrote(s, m);
            switch (f) {
            case 0: cursors[s][&Model::num].make().set(m.num); break;
            case 1: cursors[s][&Model::txt].make().set(m.txt); break;
            case 2: cursors[s][&Model::flag].make().set(m.flag); break;
            case 3: cursors[s][&Model::list].make().set(m.list); break;
            case 4: cursors[s][&Model::real].make().set(m.real); break;
            case 5: cursors[s][&Model::num2].make().set(m.num2); break;
            default: cursors[s][&Model::txt2].make().set(m.txt2); break;
            }
        }
    }

    void write_property()
    {
        if (objs.empty())
            return;
        auto& w = *c.rng.pick(objs);
        auto p  = (int) c.rng.below(NPROPS);
        auto v  = random_value(kinds[p]);
        if (!writable(p)) {
            // must be refused and change nothing
            if (w.src[p].state >= 0 && w.props->setProperty(names[p], v))
                c.fail("C27.readonly", names[p], " could be written");
            vp::count("refused");
            return;
        }
        auto& src = w.src[p];
        auto m    = current[src.state];
        set_field(m, src.field, v);
        wrote(src.state, m);
        auto how = c.rng.below(3);
        c.note("setprop ", w.id, ".", names[p], "=", str(v), " how ", how);
        vp::count("property_writes");
        if (how == 0) {
            if (!w.props->setProperty(names[p], v))
                c.fail("C27.write", "setProperty failed for ", names[p]);
        } else if (how == 1) {
            auto* mo = w.props->metaObject();
            auto mp  = mo->property(mo->indexOfProperty(names[p]));
            if (!mp.write(w.props.get(), v))
                c.fail("C27.write", "write failed for ", names[p]);
        } else {
            switch (p) {
            case CNUM: w.props->setcnum(v.toInt()); break;
            case CTXT: w.props->setctxt(v.toString()); break;
            case CFLAG: w.props->setcflag(v.toBool()); break;
            case CLIST: w.props->setclist(v.toStringList()); break;
            default: w.props->setcreal(v.toDouble()); break;
            }
        }
    }

    void do_commit()
    {
        if constexpr (transactional) {
            // before the commit the readers see the old values
            c.note("commit");
            vp::count("commits");
            if (c.rng.chance(50)) {
                auto s = (int) c.rng.below(2);
                become(s, current[s]);
                lager::commit(*states[s]);
                settle("after a commit");
                writes[s] = 0;
            } else {
                // one at a time as the monitor sees it, but all roots are
                // written before anybody is told
                for (int s = 0; s < 2; ++s)
                    become(s, current[s]);
                lager::commit(*states[0], *states[1]);
                settle("after a commit");
                writes = {};
            }
        }
    }

    void connect_property(Watched& w, int p)
    {
        auto* mo = w.props->metaObject();
        auto ix  = mo->indexOfProperty(names[p]);
        auto mp  = mo->property(ix);
        if (ix < 0 || !mp.hasNotifySignal() || mp.isConstant() ||
            mp.isWritable() != writable(p)) {
            c.fail("C27.declared", names[p], " is not declared as it should");
            return;
        }
        w.by_signal[mp.notifySignalIndex()] = p;
        auto* wp                            = &w;
        if (c.rng.chance(40)) {
            auto f = [this, wp, p](const auto& v) { on_signal(*wp, p, v); };
            switch (p) {
#define VP_CONNECT(x, y)                                                       \
    case x: QObject::connect(w.props.get(), &Props::y##Changed, f); break
                VP_CONNECT(RNUM, rnum);
                VP_CONNECT(CNUM, cnum);
                VP_CONNECT(RTXT, rtxt);
                VP_CONNECT(CTXT, ctxt);
                VP_CONNECT(RFLAG, rflag);
                VP_CONNECT(CFLAG, cflag);
                VP_CONNECT(RLIST, rlist);
                VP_CONNECT(CLIST, clist);
                VP_CONNECT(RREAL, rreal);
                VP_CONNECT(CREAL, creal);
                VP_CONNECT(LATE, late);
            }
        } else {
            static const char* slots_[] = {"onInt(int)",
                                           "onTxt(QString)",
                                           "onBool(bool)",
                                           "onList(QStringList)",
                                           "onReal(double)"};
            auto* so = w.sink->metaObject();
            auto si  = so->indexOfSlot(slots_[kinds[p]]);
            if (si < 0 ||
                !QObject::connect(w.props.get(), mp.notifySignal(),
                                  w.sink.get(), so->method(si)))
                c.fail("C27.declared", "cannot connect ", names[p]);
        }
    }

    void make_object()
    {
        auto w   = std::make_unique<Watched>();
        auto s   = (int) c.rng.below(2);
        w->id    = serial++;
        w->fixed = (int) c.rng.below(100);
        c.note("object ", w->id, " over ", s);
        for (int p = 0; p < NPROPS; ++p)
            w->src[p] = {s, p / 2};
        w->src[LATE].state = -1;
        w->props.reset(new Props{cursors[s], w->fixed, nullptr});
        w->sink.reset(new Sink);
        auto* wp    = w.get();
        w->sink->fn = [this, wp](int sig, QVariant v) {
            auto it = wp->by_signal.find(sig);
            if (it == wp->by_signal.end())
                c.fail("C27.declared", "unknown signal");
            else
                on_signal(*wp, it->second, v);
        };
        for (int p = 0; p < NPROPS; ++p)
            connect_property(*w, p);
        objs.push_back(std::move(w));
        vp::count("objects");
    }

    void assign()
    {
        if (objs.empty())
            return;
        auto& w = *c.rng.pick(objs);
        auto p  = (int) c.rng.below(NPROPS);
        auto s  = (int) c.rng.below(2);
        auto m  = cursors[s];
        auto& o = *w.props;
        auto two = c.rng.chance(50);
        Source src{s, p / 2};
        c.note("assign ", w.id, ".", names[p], " over ", s, " ", two);
        vp::count("assignments");
        // the assignment itself need not signal
        auto slack  = w.due;
        auto before = w.seen;
        ++w.due[p];
        w.src[p] = src;
        switch (p) {
        case RNUM:
            w.src[p].field = two ? 7 : 0;
            o.LAGER_QT(rnum) =
                two ? lager::reader<int>{m.map([](const Model& x) { return x.num + x.num2; })}
                    : lager::reader<int>{m[&Model::num]};
            break;
        case CNUM:
            w.src[p].field   = two ? 5 : 0;
            o.LAGER_QT(cnum) = m[two ? &Model::num2 : &Model::num];
            break;
        case RTXT:
            w.src[p].field   = two ? 6 : 1;
            o.LAGER_QT(rtxt) = m[two ? &Model::txt2 : &Model::txt];
            break;
        case CTXT: {
            w.src[p].field         = two ? 6 : 1;
            lager::cursor<QString> x = m[two ? &Model::txt2 : &Model::txt];
            o.LAGER_QT(ctxt)       = x;
            break;
        }
        case RFLAG: o.LAGER_QT(rflag) = m[&Model::flag]; break;
        case CFLAG: o.LAGER_QT(cflag) = m[&Model::flag]; break;
        case RLIST: o.LAGER_QT(rlist) = m[&Model::list]; break;
        case CLIST: o.LAGER_QT(clist) = m[&Model::list]; break;
        case RREAL: o.LAGER_QT(rreal) = m[&Model::real]; break;
        case CREAL: o.LAGER_QT(creal) = m[&Model::real]; break;
        default:
            w.src[p].field   = two ? 7 : 5;
            o.LAGER_QT(late) =
                two ? lager::reader<int>{m.map([](const Model& x) { return x.num + x.num2; })}
                    : lager::reader<int>{m[&Model::num2]};
            break;
        }
        w.due  = slack;
        w.seen = before;
    }

    void remake_values()
    {
        for (int s = 0; s < 2; ++s) {
            Model m;
            for (int f = 0; f < 7; ++f)
                set_field(m, f, random_value(kind_of(f)));
            current[s] = visible[s] = m;
            states[s].emplace(m);
            cursors[s] = *states[s];
        }
    }

    void run()
    {
        remake_values();
        if (c.rng.chance(40))
            write_from = (int) c.rng.below(NPROPS);
        auto steps = 5 + c.rng.below(25);
        make_object();
        bool lost = false;
        for (std::size_t i = 0; i < steps && c.fails.empty(); ++i) {
            auto x = c.rng.below(100);
            if (x < 35)
                write_state();
            else if (x < 60)
                write_property();
            else if (x < 75) {
                if (transactional)
                    do_commit();
                else
                    write_state();
            } else if (x < 85)
                assign();
            else if (x < 90 && objs.size() < 4)
                make_object();
            else if (x < 94 && objs.size() > 1) {
                auto k = c.rng.below(objs.size());
                c.note("delete ", objs[k]->id);
                vp::count("deleted");
                auto o = std::move(objs[k]);
                objs.erase(objs.begin() + k);
            } else if (x < 96 && !lost && !transactional) {
                // the states go, but their cursors and properties remain
                c.note("states gone");
                vp::count("states_gone");
                lost = true;
                for (auto& s : states)
                    s.reset();
            } else if (x < 98) {
                // leave and enter the event loop, which must change nothing
                QCoreApplication::processEvents();
            } else
                write_state();
            settle("at rest");
            // what is written meanwhile counts, but nobody is told
            if (c.rng.chance(6)) {
                for (auto& o : objs)
                    if (c.rng.chance(60)) {
                        c.note("block ", o->id);
                        o->blocked = true;
                        o->props->blockSignals(true);
                    }
                for (auto k = 1 + c.rng.below(2); k--;) {
                    vp::count("blocked_writes");
                    if (c.rng.chance(60))
                        write_property();
                    else
                        write_state();
                    if (transactional && c.rng.chance(60))
                        do_commit();
                    settle("with signals blocked");
                }
                for (auto& o : objs) {
                    o->blocked = false;
                    o->props->blockSignals(false);
                }
                settle("with signals unblocked");
            }
        }
        if (transactional && c.fails.empty()) {
            do_commit();
            settle("at the end");
        }
        c.nontrivial = true;
        // destruction in any order
        if (c.rng.chance(50))
            objs.clear();
    }
};

void one(Case& c)
{
    if (c.rng.chance(60)) {
        Engine<lager::automatic_tag> e{c};
        e.run();
    } else {
        Engine<lager::transactional_tag> e{c};
        e.run();
    }
}

} // namespace

int main(int argc, char** argv)
{
    int n = 1;
    QCoreApplication app{n, argv};
    return vp::run_main(argc, argv, one, {});
}
