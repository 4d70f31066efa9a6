// Shared driver for all harnesses: seeded cases, traces, oracles' verdicts,
// measured statistics.  Nothing here depends on lager.
#pragma once

#include <algorithm>
#include <atomic>
#include <cassert>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <tuple>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace vp {

inline std::uint64_t mix64(std::uint64_t z)
{
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

struct Rng
{
    std::uint64_t s;
    explicit Rng(std::uint64_t seed = 1)
        : s{seed}
    {}
    std::uint64_t next()
    {
        s += 0x9e3779b97f4a7c15ull;
        auto z = s;
        z      = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z      = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    // uniform in [0, n)
    std::size_t below(std::size_t n) { return n ? next() % n : 0; }
    // uniform in [a, b]
    long range(long a, long b)
    {
        return a + static_cast<long>(next() % (std::uint64_t)(b - a + 1));
    }
    bool chance(int percent) { return (int) (next() % 100) < percent; }
    template <typename C>
    auto& pick(C& c)
    {
        return c[below(c.size())];
    }
    Rng fork() { return Rng{next()}; }
};

// Process-wide event counters: what the monitors really observed.
struct Counters
{
    std::mutex m;
    std::map<std::string, std::uint64_t> v;
    void add(const char* name, std::uint64_t n = 1)
    {
        std::lock_guard<std::mutex> g{m};
        v[name] += n;
    }
};
inline Counters& counters()
{
    static Counters* c = new Counters;
    return *c;
}
inline void count(const char* name, std::uint64_t n = 1)
{
    counters().add(name, n);
}

struct Case
{
    std::uint64_t seed;
    std::uint64_t index;
    Rng rng;
    std::mutex m;
    std::vector<std::string> trace;
    std::uint64_t sig = 0xcbf29ce484222325ull;
    bool nontrivial   = false;
    bool verbose      = false;
    // the violations, first of each key
    std::vector<std::pair<std::string, std::string>> fails;

    Case(std::uint64_t s, std::uint64_t i)
        : seed{s}
        , index{i}
        , rng{mix64(s * 0x2545f4914f6cdd1dull) ^ mix64(i + 0x1234567)}
    {}

    void mix(std::uint64_t x) { sig = mix64(sig ^ x) * 0x100000001b3ull; }

    template <typename... Ts>
    void note(const Ts&... xs)
    {
        std::ostringstream os;
        ((os << xs), ...);
        auto str = os.str();
        std::lock_guard<std::mutex> g{m};
        mix(std::hash<std::string>{}(str));
        if (verbose)
            std::cerr << "  | " << str << "\n";
        if (trace.size() < 400)
            trace.push_back(std::move(str));
    }

    template <typename... Ts>
    void fail(const std::string& key, const Ts&... xs)
    {
        std::ostringstream os;
        ((os << xs), ...);
        std::lock_guard<std::mutex> g{m};
        for (auto& f : fails)
            if (f.first == key)
                return;
        if (verbose)
            std::cerr << "  ! FAIL " << key << ": " << os.str() << "\n";
        fails.emplace_back(key, os.str());
    }
    // returns the condition so that one can bail out
    template <typename... Ts>
    bool expect(bool ok, const std::string& key, const Ts&... xs)
    {
        if (!ok)
            fail(key, xs...);
        return ok;
    }
};

inline std::string jstr(const std::string& s)
{
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            o += '\\';
            o += c;
        } else if (c < 0x20 || c >= 0x7f) {
            char b[8];
            std::snprintf(b, sizeof b, "\\u%04x", c);
            o += b;
        } else
            o += c;
    }
    return o + "\"";
}

template <typename C>
std::string show(const C& c)
{
    std::ostringstream os;
    os << "[";
    bool first = true;
    for (auto&& x : c) {
        if (!first)
            os << ",";
        first = false;
        os << x;
    }
    os << "]";
    return os.str();
}

using case_fn  = std::function<void(Case&)>;
using probe_ts = std::vector<std::pair<std::string, case_fn>>;

// A value with a live-instance count and a "poisoned once destroyed" state.
struct Tracked
{
    static std::atomic<long>& live()
    {
        static std::atomic<long> n{0};
        return n;
    }
    int* cell;
    explicit Tracked(int v = 0)
        : cell{new int{v}}
    {
        ++live();
    }
    Tracked(const Tracked& o)
        : cell{new int{*o.cell}}
    {
        ++live();
    }
    Tracked(Tracked&& o) noexcept
        : cell{new int{-7777}}
    {
        std::swap(cell, o.cell);
        ++live();
    }
    Tracked& operator=(const Tracked& o)
    {
        *cell = *o.cell;
        return *this;
    }
    Tracked& operator=(Tracked&& o) noexcept
    {
        std::swap(cell, o.cell);
        return *this;
    }
    ~Tracked()
    {
        delete cell;
        cell = nullptr;
        --live();
    }
    int get() const { return *cell; }
    friend bool operator==(const Tracked& a, const Tracked& b)
    {
        return *a.cell == *b.cell;
    }
    friend bool operator!=(const Tracked& a, const Tracked& b)
    {
        return !(a == b);
    }
    friend std::ostream& operator<<(std::ostream& os, const Tracked& t)
    {
        return os << "T" << *t.cell;
    }
};

struct Options
{
    std::uint64_t seed = 1, start = 0, end = 0, step = 1;
    std::string out, status;
    bool probes  = false;
    bool verbose = false;
    std::string probe;
};

inline Options& options()
{
    static Options o;
    return o;
}

inline int run_main(int argc,
                    char** argv,
                    const case_fn& fn,
                    const probe_ts& probes = {})
{
    auto& o = options();
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val      = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--seed")
            o.seed = std::strtoull(val().c_str(), 0, 10);
        else if (a == "--start")
            o.start = std::strtoull(val().c_str(), 0, 10);
        else if (a == "--end")
            o.end = std::strtoull(val().c_str(), 0, 10);
        else if (a == "--step")
            o.step = std::strtoull(val().c_str(), 0, 10);
        else if (a == "--out")
            o.out = val();
        else if (a == "--status")
            o.status = val();
        else if (a == "--probes")
            o.probes = true;
        else if (a == "--probe") {
            o.probes = true;
            o.probe  = val();
        } else if (a == "--verbose")
            o.verbose = true;
        else {
            std::cerr << "unknown argument " << a << "\n";
            return 3;
        }
    }
    int status_fd = -1;
    if (!o.status.empty())
        status_fd = ::open(o.status.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
    auto put_status = [&](const std::string& s) {
        if (status_fd < 0)
            return;
        auto t = s + "\n";
        t.resize(64, ' ');
        if (::pwrite(status_fd, t.data(), t.size(), 0) < 0)
            std::perror("status");
    };
    std::ofstream out;
    if (!o.out.empty())
        out.open(o.out, std::ios::app);
    auto emit = [&](const std::string& line) {
        if (out.is_open())
            out << line << "\n" << std::flush;
        else
            std::cout << line << "\n" << std::flush;
    };
    std::uint64_t evals = 0, nfail = 0;
    std::unordered_set<std::uint64_t> sigs;
    std::vector<std::string> samples;
    auto finish_case = [&](Case& c, const std::string& name) {
        for (auto& f : c.fails) {
            ++nfail;
            std::string tr = "[";
            auto n         = c.trace.size();
            for (std::size_t i = n > 120 ? n - 120 : 0; i < n; ++i)
                tr += (tr.size() > 1 ? "," : "") + jstr(c.trace[i]);
            tr += "]";
            emit("{\"type\":\"fail\",\"key\":" + jstr(f.first) +
                 ",\"msg\":" + jstr(f.second) + ",\"case\":" + jstr(name) +
                 ",\"trace\":" + tr + "}");
        }
    };
    if (o.probes) {
        for (auto& p : probes) {
            if (!o.probe.empty() && o.probe != p.first)
                continue;
            put_status("probe " + p.first);
            Case c{o.seed, 0};
            c.verbose = o.verbose;
#ifdef __cpp_exceptions
            try {
                p.second(c);
            } catch (const std::exception& e) {
                c.fail("probe." + p.first + ".exception",
                       "unexpected exception: ",
                       e.what());
            }
#else
            p.second(c);
#endif
            ++evals;
            finish_case(c, "probe:" + p.first);
        }
    }
    for (auto i = o.start; i < o.end; i += o.step) {
        put_status(std::to_string(i));
        Case c{o.seed, i};
        c.verbose = o.verbose;
#ifdef __cpp_exceptions
        try {
            fn(c);
        } catch (const std::exception& e) {
            c.fail("exception", "unexpected exception: ", e.what());
        }
#else
        fn(c);
#endif
        ++evals;
        finish_case(c, std::to_string(i));
        if (c.nontrivial) {
            if (sigs.insert(c.sig).second && samples.size() < 2 &&
                (evals % 7 == 1 || evals > 50)) {
                std::string tr;
                for (std::size_t k = 0; k < c.trace.size() && k < 60; ++k)
                    tr += (k ? " ; " : "") + c.trace[k];
                if (tr.size() > 1500)
                    tr = tr.substr(0, 1500) + " ...";
                samples.push_back("case " + std::to_string(i) + ": " + tr);
            }
        }
        if (nfail > 200)
            break;
    }
    if (!o.out.empty()) {
        std::ofstream sf(o.out + ".sigs", std::ios::binary | std::ios::app);
        for (auto s : sigs)
            sf.write(reinterpret_cast<const char*>(&s), sizeof s);
    }
    std::string st = "{\"type\":\"stats\",\"evaluations\":" +
                     std::to_string(evals) +
                     ",\"distinct\":" + std::to_string(sigs.size()) +
                     ",\"fails\":" + std::to_string(nfail) + ",\"counters\":{";
    bool first = true;
    for (auto& kv : counters().v) {
        st += (first ? "" : ",") + jstr(kv.first) + ":" +
              std::to_string(kv.second);
        first = false;
    }
    st += "},\"samples\":[";
    for (std::size_t i = 0; i < samples.size(); ++i)
        st += (i ? "," : "") + jstr(samples[i]);
    st += "]}";
    emit(st);
    put_status("done");
    return 0;
}

} // namespace vp
