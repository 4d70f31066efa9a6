// C23: the HTTP debug server.  The client speaks plain sockets on the loopback
// interface; the store runs on a Boost.Asio loop.  Two kinds of cases: one
// client at a time, judged exactly; and several clients together with a busy
// application, judged by whether each answer was true at some moment between
// its request and its arrival.
#include "common.hpp"

#include <lager/debug/debugger.hpp>
#include <lager/debug/http_server.hpp>
#include <lager/event_loop/boost_asio.hpp>
#include <lager/extra/struct.hpp>
#include <lager/store.hpp>

#include <rapidjson/document.h>
#include <cereal/types/string.hpp>
#include <cereal/types/vector.hpp>

#include <arpa/inet.h>
#include <atomic>
#include <chrono>
#include <filesystem>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <optional>
#include <poll.h>
#include <sys/socket.h>
#include <thread>

namespace he {

struct Inc
{
    int by;
    LAGER_STRUCT_NESTED(Inc, by);
};
struct Say
{
    std::string text;
    int times;
    LAGER_STRUCT_NESTED(Say, text, times);
};
struct Kick
{
    LAGER_STRUCT_NESTED(Kick);
};
using Action = std::variant<Inc, Say, Kick>;
struct Model
{
    int n = 0;
    std::string text;
    std::vector<int> v;
    LAGER_STRUCT_NESTED(Model, n, text, v);
};

Model fold(Model m, const Action& a)
{
    if (auto i = std::get_if<Inc>(&a))
        m.n += i->by, m.v.push_back(i->by);
    else if (auto s = std::get_if<Say>(&a))
        for (int k = 0; k < s->times; ++k)
            m.text += s->text;
    else
        m.n += 1000, m.text += "kick";
    return m;
}

// ------------------------------------------------------------------- client
struct Answer
{
    bool ok    = false; // a whole response came
    int status = 0;
    std::string type, body;
};

struct Client
{
    int fd = -1;
    std::string in;
    // Whether this connection has been answered, and nothing wrong was asked on
    // it; whether such a one was found closed by the server.
    bool kept    = false;
    bool dropped = false;
    std::chrono::steady_clock::time_point last;
    ~Client() { close(); }
    void close()
    {
        if (fd >= 0)
            ::close(fd);
        fd   = -1;
        kept = false;
        in.clear();
    }
    bool connect(int port)
    {
        close();
        fd = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
        int one = 1;
        ::setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
        sockaddr_in a{};
        a.sin_family      = AF_INET;
        a.sin_port        = htons((std::uint16_t) port);
        a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        if (::connect(fd, (sockaddr*) &a, sizeof a) == 0)
            return true;
        close();
        return false;
    }
    bool send(const std::string& s)
    {
        std::size_t at = 0;
        while (at < s.size()) {
            auto n = ::send(fd, s.data() + at, s.size() - at, MSG_NOSIGNAL);
            if (n <= 0)
                return false;
            at += (std::size_t) n;
        }
        return true;
    }
    bool more()
    {
        pollfd p{fd, POLLIN, 0};
        if (::poll(&p, 1, 20000) <= 0)
            return false;
        char b[4096];
        auto n = ::recv(fd, b, sizeof b, 0);
        if (n <= 0)
            return false;
        in.append(b, (std::size_t) n);
        return true;
    }
    Answer receive()
    {
        Answer a;
        std::size_t end;
        while ((end = in.find("\r\n\r\n")) == std::string::npos)
            if (!more())
                return a;
        auto head = in.substr(0, end);
        std::size_t length = 0;
        if (std::sscanf(head.c_str(), "HTTP/1.1 %d", &a.status) != 1)
            return a;
        std::istringstream is{head};
        for (std::string l; std::getline(is, l);) {
            if (!l.empty() && l.back() == '\r')
                l.pop_back();
            auto colon = l.find(": ");
            if (colon == std::string::npos)
                continue;
            auto k = l.substr(0, colon);
            for (auto& c : k)
                c = (char) std::tolower(c);
            if (k == "content-length")
                length = std::strtoul(l.c_str() + colon + 2, 0, 10);
            if (k == "content-type")
                a.type = l.substr(colon + 2);
        }
        while (in.size() < end + 4 + length)
            if (!more())
                return a;
        a.body = in.substr(end + 4, length);
        in.erase(0, end + 4 + length);
        a.ok = true;
        return a;
    }
    Answer ask(int port, const std::string& method, const std::string& target,
               const std::string& body = "")
    {
        return ask_all(port, {text(method, target, body)})[0];
    }
    static std::string text(const std::string& method,
                            const std::string& target,
                            const std::string& body = "")
    {
        auto len = body.empty() && method == "GET"
                       ? ""
                       : "Content-Length: " + std::to_string(body.size()) +
                             "\r\n";
        return method + " " + target + " HTTP/1.1\r\nHost: localhost\r\n" +
               len + "\r\n" + body;
    }
    // Sends them all, then takes the answers one by one.
    std::vector<Answer> ask_all(int port, const std::vector<std::string>& texts)
    {
        std::string all;
        for (auto& t : texts)
            all += t;
        std::vector<Answer> r;
        for (int attempt = 0; attempt < 2; ++attempt) {
            if (fd < 0 && !connect(port))
                break;
            r.clear();
            if (send(all))
                while (r.size() < texts.size()) {
                    auto a = receive();
                    if (!a.ok)
                        break;
                    r.push_back(std::move(a));
                }
            auto now = std::chrono::steady_clock::now();
            if (r.size() == texts.size()) {
                kept = r.back().status == 200;
                last = now;
                return r;
            }
            if (!r.empty() || (kept && now - last < std::chrono::seconds{5}))
                dropped = true;
            close();
            // what was answered has been done: it is not asked again
            if (!r.empty())
                break;
        }
        r.resize(texts.size());
        return r;
    }
};

// ------------------------------------------------------------------ the rest
using loop_t = lager::with_boost_asio_event_loop<
    boost::asio::io_context::executor_type>;
using D      = lager::debugger<Action, Model, lager::deps<>>;
using impl_t = lager::detail::http_debug_server_impl<D>;

// Holds the server outside of the store, so that it can be taken down.
struct Holder
{
    std::vector<const char*> argv;
    std::string resources;
    std::shared_ptr<impl_t> impl;
    int port = 0;
    struct Handle
    {
        Holder* h;
        void init(impl_t::context_t ctx, impl_t::reader_t rd)
        {
            static std::atomic<int> next{(int) (::getpid() * 97 % 30000)};
            for (int k = 0; k < 400; ++k) {
                h->port = 20000 + next++ % 40000;
                lager::http_debug_server server{(int) h->argv.size(),
                                                h->argv.data(),
                                                (std::uint16_t) h->port,
                                                h->resources};
                auto impl = server.make(D{});
                try {
                    impl->init(ctx, rd);
                } catch (const boost::system::system_error&) {
                    continue;
                }
                h->impl = impl;
                return;
            }
            std::abort();
        }
    };
    template <typename D_>
    std::shared_ptr<Handle> make(D_)
    {
        static_assert(std::is_same_v<D_, D>, "");
        return std::make_shared<Handle>(Handle{this});
    }
};

template <typename W>
auto with_spy(W& w)
{
    return [&w](auto next) {
        return [&w, next](auto action, auto&& model, auto&& reducer, auto&& loop,
                          auto&& deps, auto&& tags) {
            return next(
                action, LAGER_FWD(model),
                [&w, reducer = LAGER_FWD(reducer)](auto&& m, auto&& a) {
                    auto r = reducer(LAGER_FWD(m), a);
                    w(r.first);
                    return r;
                },
                LAGER_FWD(loop), LAGER_FWD(deps), LAGER_FWD(tags));
        };
    };
}

namespace fs = std::filesystem;
const char* secret_text = "the-secret-outside";

struct Files
{
    fs::path dir;
    Files()
    {
        char t[] = "/tmp/vp_http_XXXXXX";
        if (!::mkdtemp(t))
            std::abort();
        dir = t;
        fs::create_directories(dir / "res" / "gui" / "sub");
        fs::create_directories(dir / "res" / "gui" / "a.b");
        put("res/gui/index.html", "index page");
        put("res/gui/app.js", "var x;");
        put("res/gui/sub/a.css", "css here");
        put("res/gui/data.json", "{\"a\": 1}");
        put("res/gui/sub/page.HTM", "a page");
        put("res/gui/readme.txt", "read me");
        put("res/gui/logo.min.svg", "<svg/>");
        put("res/gui/a.b/pic.PNG", "not really a picture");
        put("res/gui/p.jpeg", "neither");
        put("res/gui/empty.gif", "");
        put("res/gui/feed.xml", "<a/>");
        put("res/gui/.htaccess..ico", "icon");
        put("secret.txt", secret_text);
        put("gui-secret", secret_text);
        fs::create_directories(dir / "other" / "gui");
        put("other/gui/x.txt", secret_text);
    }
    void put(const char* name, const std::string& text)
    {
        std::ofstream{dir / name} << text;
    }
    ~Files()
    {
        std::error_code ec;
        fs::remove_all(dir, ec);
    }
};
Files& files()
{
    static Files f;
    return f;
}

using rapidjson_doc = rapidjson::Document;

bool same_model(const rapidjson::Value& j, const Model& m)
{
    if (!j.IsObject() || !j.HasMember("n") || !j.HasMember("text") ||
        !j.HasMember("v"))
        return false;
    if (!j["n"].IsInt() || j["n"].GetInt() != m.n || !j["text"].IsString() ||
        std::string{j["text"].GetString(), j["text"].GetStringLength()} != m.text)
        return false;
    auto& v = j["v"];
    if (!v.IsArray() || v.Size() != m.v.size())
        return false;
    for (unsigned i = 0; i < v.Size(); ++i)
        if (!v[i].IsInt() || v[i].GetInt() != m.v[i])
            return false;
    return true;
}
bool same_action(const rapidjson::Value& j, const Action& a)
{
    if (!j.IsObject() || !j.HasMember("type") || !j.HasMember("data") ||
        !j["type"].IsString() || !j["data"].IsObject())
        return false;
    std::string type = j["type"].GetString();
    auto& d          = j["data"];
    if (auto i = std::get_if<Inc>(&a))
        return type == "he::Inc" && d.HasMember("by") && d["by"].IsInt() &&
               d["by"].GetInt() == i->by;
    if (auto s = std::get_if<Say>(&a))
        return type == "he::Say" && d.HasMember("text") &&
               d["text"].IsString() &&
               std::string{d["text"].GetString(),
                           d["text"].GetStringLength()} == s->text &&
               d.HasMember("times") && d["times"].IsInt() &&
               d["times"].GetInt() == s->times;
    return type == "he::Kick";
}

Model random_model(vp::Rng& r)
{
    Model m;
    m.n    = (int) r.range(-2000000000, 2000000000);
    m.n    = r.chance(50) ? m.n % 7 : m.n / 4;
    auto k = r.below(4);
    for (std::size_t i = 0; i < k; ++i)
        m.v.push_back((int) r.range(-5, 1000));
    static const char* texts[] = {"", "plain", "with \"quotes\" \\ and /",
                                  "line\nbreak\ttab", "caf\xc3\xa9 \xe2\x82\xac",
                                  "<b>&amp;</b>"};
    m.text = texts[r.below(6)];
    return m;
}
Action random_action(vp::Rng& r)
{
    switch (r.below(5)) {
    case 0:
    case 1: return Inc{(int) r.range(-1000, 1000)};
    case 2:
    case 3: {
        auto m = random_model(r);
        return Say{m.text, (int) r.below(3)};
    }
    default: return Kick{};
    }
}

struct State // what the store really has; the oracle's own
{
    Model init;
    std::vector<std::pair<Action, Model>> hist;
    std::size_t cursor = 0;
    bool paused        = false;
    std::vector<Action> pending;
    const Model& now() const { return cursor ? hist[cursor - 1].second : init; }
    void app(const Action& a)
    {
        if (paused)
            pending.push_back(a);
        else {
            auto m = fold(now(), a);
            hist.erase(hist.begin() + (long) cursor, hist.end());
            hist.emplace_back(a, m);
            cursor = hist.size();
        }
    }
    void resume()
    {
        paused  = false;
        auto ps = std::move(pending);
        pending.clear();
        for (auto& a : ps)
            app(a);
    }
};

// ------------------------------------------------------- one client at a time
void sequential(vp::Case& c)
{
    boost::asio::io_context io;
    Holder holder;
    auto nargs = 1 + c.rng.below(3);
    static const char* args[] = {"program", "--flag", "with space"};
    std::string program;
    for (std::size_t i = 0; i < nargs; ++i) {
        holder.argv.push_back(args[i]);
        program += (i ? " " : "") + std::string{args[i]};
    }
    holder.resources = (files().dir / "res").string();
    State st;
    st.init = random_model(c.rng);
    long effects = 0;
    auto reducer = [&](Model m, Action a) -> lager::result<Model, Action> {
        auto r = fold(m, a);
        if (std::holds_alternative<Kick>(a))
            return {r, [&](auto&&) { ++effects; }};
        return r;
    };
    {
        auto store = lager::make_store<Action>(
            st.init,
            loop_t{io.get_executor()},
            lager::with_reducer(reducer),
            lager::with_debugger(holder));
        // what the store has been asked for and has not done yet
        std::vector<std::function<void()>> asked;
        auto run = [&] {
            io.restart();
            io.poll();
            if (asked.size() > 1)
                vp::count("bursts");
            for (auto& f : asked)
                f();
            asked.clear();
        };
        Client client;
        auto ask = [&](const std::string& m, const std::string& t,
                       const std::string& body = "") {
            if (c.rng.chance(15))
                client.close();
            auto a = client.ask(holder.port, m, t, body);
            vp::count("requests");
            c.expect(a.ok, "C23.alive", m, " ", t, " gets no answer");
            c.expect(!client.dropped, "C23.kept", m, " ", t,
                     " finds a connection closed that had served a request");
            return a;
        };
        auto judge_summary = [&](const Answer& a) {
            rapidjson_doc j;
            j.Parse(a.body.c_str());
            if (!c.expect(a.status == 200 && !j.HasParseError() && j.IsObject() &&
                              j.HasMember("program") && j.HasMember("summary") &&
                              j.HasMember("cursor") && j.HasMember("paused"),
                          "C23.summary", "the summary is ", a.status, " ", a.body))
                return;
            vp::count("summaries");
            c.expect(j["program"].IsString() && program == j["program"].GetString(),
                     "C23.program", "the summary is ", a.body);
            c.expect(j["summary"].IsUint() && j["summary"].GetUint() == st.hist.size(),
                     "C23.size", "the history has ", st.hist.size(),
                     " steps, the summary is ", a.body);
            c.expect(j["cursor"].IsUint() && j["cursor"].GetUint() == st.cursor,
                     "C23.cursor", "the cursor is at ", st.cursor,
                     ", the summary is ", a.body);
            c.expect(j["paused"].IsBool() && j["paused"].GetBool() == st.paused,
                     "C23.paused", "paused is ", st.paused, ", the summary is ",
                     a.body);
        };
        auto check_summary = [&] {
            judge_summary(ask("GET", c.rng.chance(50) ? "/api" : "/api/"));
        };
        auto judge_step = [&](std::size_t k, const Answer& a) {
            if (k > st.hist.size()) {
                c.expect(a.status >= 400, "C23.unknown_step", "step ", k, " of ",
                         st.hist.size(), " gives ", a.status, " ", a.body);
                vp::count("unknown_steps");
                return;
            }
            rapidjson_doc j;
            j.Parse(a.body.c_str());
            if (!c.expect(a.status == 200 && !j.HasParseError() && j.IsObject() &&
                              j.HasMember("model"),
                          "C23.step", "step ", k, " is ", a.status, " ", a.body))
                return;
            vp::count(k ? "steps" : "initial_steps");
            auto& m = k ? st.hist[k - 1].second : st.init;
            c.expect(same_model(j["model"], m), "C23.model", "step ", k, " is ",
                     a.body, ", n should be ", m.n, ", text ", m.text);
            if (k)
                c.expect(j.HasMember("action") &&
                             same_action(j["action"], st.hist[k - 1].first),
                         "C23.action", "step ", k, " is ", a.body);
            else
                c.expect(!j.HasMember("action"), "C23.action",
                         "the start has an action: ", a.body);
        };
        auto check_step = [&](std::size_t k) {
            auto zeros = std::string(c.rng.chance(20) ? c.rng.below(30) : 0, '0');
            judge_step(k, ask("GET", "/api/step/" + zeros + std::to_string(k)));
        };
        // several requests sent at once on one connection
        auto pipeline = [&] {
            struct Q
            {
                int kind; // 0 summary, 1 step, 2 undo, 3 redo, 4 file
                std::size_t step;
            };
            std::vector<Q> qs;
            std::vector<std::string> texts;
            for (auto n = 2 + c.rng.below(5); n; --n) {
                Q q{(int) c.rng.below(5), c.rng.below(st.hist.size() + 1)};
                auto body =
                    std::string(c.rng.chance(20) ? c.rng.below(3000) : 0, 'b');
                qs.push_back(q);
                texts.push_back(
                    q.kind == 0   ? Client::text("GET", "/api")
                    : q.kind == 1 ? Client::text("GET", "/api/step/" +
                                                            std::to_string(q.step))
                    : q.kind == 2 ? Client::text("POST", "/api/undo", body)
                    : q.kind == 3 ? Client::text("POST", "/api/redo", body)
                                  : Client::text("GET", "/sub/a.css"));
            }
            c.note("pipeline of ", qs.size());
            auto as = client.ask_all(holder.port, texts);
            vp::count("pipelines");
            for (std::size_t i = 0; i < qs.size(); ++i) {
                auto& a = as[i];
                if (!c.expect(a.ok, "C23.pipeline", "request ", i, " of ",
                              qs.size(), " sent at once gets no answer"))
                    return;
                if (qs[i].kind == 0)
                    judge_summary(a);
                else if (qs[i].kind == 1)
                    judge_step(qs[i].step, a);
                else if (qs[i].kind == 4)
                    c.expect(a.status == 200 && a.body == "css here", "C23.file",
                             "the file is ", a.status, " ", a.body);
                else {
                    c.expect(a.status == 200, "C23.command", "a command gives ",
                             a.status);
                    asked.push_back([&st, k = qs[i].kind] {
                        if (k == 2 && st.cursor)
                            --st.cursor;
                        else if (k == 3 && st.cursor < st.hist.size())
                            ++st.cursor;
                    });
                }
            }
        };
        auto check_store = [&] {
            auto& m = store.get();
            c.expect(m.cursor == st.cursor && m.paused == st.paused &&
                         m.history.size() == st.hist.size() &&
                         m.pending.size() == st.pending.size(),
                     "C23.effect", "the store has cursor ", m.cursor, " paused ",
                     m.paused, " steps ", m.history.size(), " pending ",
                     m.pending.size(), ", expected ", st.cursor, " ", st.paused,
                     " ", st.hist.size(), " ", st.pending.size());
            const Model& now = m;
            c.expect(now == st.now(), "C23.effect", "the store shows another model");
        };
        // the paths of what exists and does not
        auto odd = [&] {
            struct Get
            {
                const char *first, *second, *type;
            };
            static const Get gets[] = {
                {"/", "index page", "text/html"},
                {"/index.html", "index page", "text/html"},
                {"/app.js", "var x;", "application/javascript"},
                {"/sub/a.css", "css here", "text/css"},
                {"/data.json", "{\"a\": 1}", "application/json"},
                {"/sub/page.HTM", "a page", "text/html"},
                {"/readme.txt", "read me", "text/plain"},
                {"/logo.min.svg", "<svg/>", "image/svg+xml"},
                {"/a.b/pic.PNG", "not really a picture", "image/png"},
                {"/p.jpeg", "neither", "image/jpeg"},
                {"/empty.gif", "", "image/gif"},
                {"/feed.xml", "<a/>", "application/xml"},
                {"/.htaccess..ico", "icon", "image/vnd.microsoft.icon"}};
            static const char* unknown[] = {
                "GET /nothing", "GET /api/step/", "GET /api/step/x",
                "GET /api/step/-1", "GET /api/step/1x", "GET /api/step/1/2",
                "GET /api/step/99999999999999999999999", "GET /api/foo",
                "GET /api/undo", "POST /api/goto/", "POST /api/goto/x",
                "POST /api/goto/-1", "POST /api/goto/99999999999999999999999",
                "POST /api/nothing", "POST /", "POST /api", "PUT /api/undo",
                "DELETE /api/step/0", "POST /api/undo/1", "POST /api/step/0",
                "GET /sub", "GET /sub/", "GET /sub/nothing.css",
                "GET /API/step/0", "POST /api/UNDO", "GET /api//step/0",
                "GET /gui/index.html", "GET /index.html?x=1", "GET /%2e%2e/x"};
            static const char* outside[] = {
                "/../../secret.txt", "/../../gui-secret", "/./../../secret.txt",
                "/sub/../../../secret.txt", "/..//../secret.txt",
                "//../../secret.txt", "/../../other/gui/x.txt",
                "/sub/../../../other/gui/x.txt", "../../secret.txt",
                "/../../res/../secret.txt", "/../../../../../../../../etc/passwd",
                "/%2e%2e/%2e%2e/secret.txt"};
            auto k = c.rng.below(10);
            if (k < 3) {
                auto& g = gets[c.rng.below(std::size(gets))];
                auto a  = ask("GET", g.first);
                c.expect(a.status == 200 && a.body == g.second, "C23.file",
                         g.first, " gives ", a.status, " ", a.body);
                c.expect(a.type.rfind(g.type, 0) == 0, "C23.type", g.first,
                         " is a ", a.type);
                vp::count("files");
            } else if (k < 7) {
                std::string u = unknown[c.rng.below(std::size(unknown))];
                auto sp       = u.find(' ');
                auto a        = ask(u.substr(0, sp), u.substr(sp + 1));
                c.note(u, " ", a.status);
                c.expect(a.status >= 400, "C23.unknown", u, " gives ", a.status,
                         " ", a.body.substr(0, 100));
                vp::count("unknown");
            } else if (k < 9) {
                auto o = outside[c.rng.below(std::size(outside))];
                auto a = ask("GET", o);
                c.note(o, " ", a.status);
                c.expect(a.body.find(secret_text) == std::string::npos &&
                             a.body.find("root:") == std::string::npos,
                         "C23.outside", o, " gives ", a.body.substr(0, 100));
                c.expect(a.status >= 400, "C23.outside_status", o, " gives ",
                         a.status, " ", a.body.substr(0, 100));
                vp::count("outside");
            } else {
                // not even HTTP, or cut off
                static const char* raw[] = {
                    "\r\n\r\n", "GET\r\n\r\n", "GET / HTTP/9.9\r\n\r\n",
                    "\x01\x02\x03\x04\r\n\r\n", "GET /api/step/0 HTTP/1.1\r\nHost",
                    "POST /api/undo HTTP/1.1\r\nContent-Length: 100\r\n\r\nabc",
                    "POST /api/undo HTTP/1.1\r\nContent-Length: x\r\n\r\n",
                    "POST /api/undo HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n"};
                Client other;
                if (c.expect(other.connect(holder.port), "C23.alive",
                             "no connection is accepted")) {
                    std::string s = raw[c.rng.below(std::size(raw))];
                    if (c.rng.chance(20))
                        s = "GET /" + std::string(2000 + c.rng.below(20000), 'a') +
                            " HTTP/1.1\r\n\r\n";
                    other.send(s);
                    if (c.rng.chance(30))
                        ::shutdown(other.fd, SHUT_WR);
                }
                other.close();
                vp::count("broken");
            }
        };
        c.note("start n=", st.init.n);
        if (c.rng.chance(60)) {
            check_summary();
            check_step(0);
        }
        auto n = 5 + c.rng.below(20);
        for (std::size_t i = 0; i < n && c.fails.empty(); ++i) {
            auto r = c.rng.below(100);
            if (r < 40) {
                auto a = random_action(c.rng);
                c.note("action ", a.index());
                store.dispatch(a);
                asked.push_back([&st, a] { st.app(a); });
            } else if (r < 75) {
                auto k = c.rng.below(5);
                Answer a;
                auto body = std::string(c.rng.chance(20) ? c.rng.below(2000) : 0, 'b');
                if (k == 0) {
                    auto to = c.rng.chance(20) ? st.hist.size() + 1 + c.rng.below(3)
                              : c.rng.chance(10) ? (std::size_t) -1 - c.rng.below(2)
                                                 : c.rng.below(st.hist.size() + 1);
                    c.note("goto ", to);
                    a = ask("POST", "/api/goto/" + std::to_string(to), body);
                    asked.push_back([&st, to] {
                        if (to <= st.hist.size())
                            st.cursor = to;
                    });
                } else if (k == 1) {
                    c.note("undo");
                    a = ask("POST", "/api/undo", body);
                    asked.push_back([&st] {
                        if (st.cursor)
                            --st.cursor;
                    });
                } else if (k == 2) {
                    c.note("redo");
                    a = ask("POST", "/api/redo", body);
                    asked.push_back([&st] {
                        if (st.cursor < st.hist.size())
                            ++st.cursor;
                    });
                } else if (k == 3) {
                    c.note("pause");
                    a = ask("POST", "/api/pause", body);
                    asked.push_back([&st] { st.paused = true; });
                } else {
                    c.note("resume");
                    a = ask("POST", "/api/resume", body);
                    asked.push_back([&st] { st.resume(); });
                }
                vp::count("commands");
                c.expect(a.status == 200, "C23.command", "a command gives ",
                         a.status);
            } else if (r < 85)
                pipeline();
            else
                odd();
            if (!c.rng.chance(25))
                run();
            check_store();
            if (c.rng.chance(50))
                check_summary();
            if (c.rng.chance(50))
                check_step(c.rng.below(st.hist.size() + 3));
        }
        run();
        check_store();
        check_summary();
        for (std::size_t k = 0; k <= st.hist.size() && c.fails.empty(); ++k)
            check_step(k);
        c.nontrivial = st.hist.size() > 2;
        client.close();
        holder.impl.reset();
    }
}

// --------------------------------------------------------------- all at once
void concurrent(vp::Case& c)
{
    boost::asio::io_context io;
    Holder holder;
    holder.argv      = {"busy"};
    holder.resources = (files().dir / "res").string();
    struct Snap
    {
        std::size_t size, cursor;
        bool paused;
        Model now;
    };
    // Every state the store went through; written by the loop's thread, read
    // by all once the numbers below say they are there.
    std::vector<Snap> states(4096);
    std::vector<std::vector<Model>> models(4096);
    std::atomic<std::size_t> made{1}, shown{1};
    Model init = random_model(c.rng);
    states[0]  = {0, 0, false, init};
    models[0]  = {init};
    auto spy   = [&](const D::model& m) {
        auto k           = made.load();
        const Model& now = m;
        states[k]        = {m.history.size(), m.cursor, m.paused, now};
        models[k]        = {m.init};
        for (auto& s : m.history)
            models[k].push_back(s.model);
        made = k + 1;
    };
    {
        auto reducer = [](Model m, Action a) { return fold(m, a); };
        auto store   = lager::make_store<Action>(init,
                                               loop_t{io.get_executor()},
                                               lager::with_reducer(reducer),
                                               lager::with_debugger(holder),
                                               with_spy(spy));
        // shown once all who watch have been told, whatever the order
        store.watch([&](auto&&) {
            boost::asio::post(io, [&shown, n = made.load()] { shown = n; });
        });
        auto work = boost::asio::make_work_guard(io);
        std::thread app{[&] { io.run(); }};
        auto nclients = 1 + c.rng.below(3);
        std::vector<std::thread> threads;
        std::vector<std::uint64_t> seeds;
        for (std::size_t t = 0; t < nclients + 1; ++t)
            seeds.push_back(c.rng.next());
        std::atomic<long> answers{0}, commands{0};
        std::atomic<std::uint64_t> seen{0};
        threads.emplace_back([&] {
            vp::Rng r{seeds[nclients]};
            lager::context<Action> ctx{store};
            for (auto n = 10 + r.below(60); n; --n) {
                ctx.dispatch(random_action(r));
                if (r.chance(50))
                    std::this_thread::sleep_for(
                        std::chrono::microseconds(r.below(400)));
            }
        });
        for (std::size_t t = 0; t < nclients; ++t)
            threads.emplace_back([&, t] {
                vp::Rng r{seeds[t]};
                Client client;
                for (auto n = 6 + r.below(30); n; --n) {
                    if (r.chance(35)) {
                        static const char* cmds[] = {"undo", "redo", "pause",
                                                     "resume", "goto/3",
                                                     "goto/1", "resume"};
                        auto a = client.ask(holder.port, "POST",
                                            std::string("/api/") +
                                                cmds[r.below(std::size(cmds))]);
                        c.expect(a.ok && a.status == 200, "C23.command",
                                 "a command gives ", a.status);
                        ++commands;
                        continue;
                    }
                    auto step = r.chance(50) ? (long) r.below(6) : -1l;
                    auto from = shown.load() - 1;
                    auto a    = client.ask(holder.port, "GET",
                                        step < 0 ? "/api/"
                                                 : "/api/step/" +
                                                       std::to_string(step));
                    auto to   = made.load();
                    ++answers;
                    c.expect(!client.dropped, "C23.kept",
                             "a connection that had served is closed");
                    seen += (from * 4099 + to) * (2 * n + 1) * (t + 1);
                    if (!c.expect(a.ok, "C23.alive", "no answer"))
                        continue;
                    rapidjson_doc j;
                    j.Parse(a.body.c_str());
                    auto ok = false;
                    for (auto k = from; k < to && !ok; ++k) {
                        if (step < 0)
                            ok = a.status == 200 && !j.HasParseError() &&
                                 j.IsObject() && j.HasMember("summary") &&
                                 j["summary"].GetUint() == states[k].size &&
                                 j["cursor"].GetUint() == states[k].cursor &&
                                 j["paused"].GetBool() == states[k].paused;
                        else if ((std::size_t) step >= models[k].size())
                            ok = a.status >= 400;
                        else
                            ok = a.status == 200 && !j.HasParseError() &&
                                 j.IsObject() && j.HasMember("model") &&
                                 same_model(j["model"],
                                            models[k][(std::size_t) step]);
                    }
                    c.expect(ok, "C23.moment", step < 0 ? "the summary" : "a step",
                             " is ", a.status, " ", a.body.substr(0, 200),
                             ", which was not so in any of the states ", from,
                             " to ", to - 1);
                    if (to - from > 1)
                        vp::count("answers_amid_changes");
                }
            });
        for (auto& t : threads)
            t.join();
        work.reset();
        app.join();
        vp::count("concurrent_answers", (std::uint64_t) answers.load());
        vp::count("concurrent_commands", (std::uint64_t) commands.load());
        c.note("concurrent ", nclients, " clients, ", made.load(), " states");
        c.mix(made.load());
        c.mix(seen.load());
        c.nontrivial = answers > 3 && made > 5;
        holder.impl.reset();
    }
}

} // namespace he

int main(int argc, char** argv)
{
    return vp::run_main(argc, argv, [](vp::Case& c) {
#ifdef CONCURRENT
        he::concurrent(c);
#else
        he::sequential(c);
#endif
    });
}
