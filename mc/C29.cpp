// C29: a call that is cut short leaves nothing behind.
// Fault injection: every single allocation of a parse or query fails in turn,
// every single callback throws in turn (values of five types); then the object
// is used again and compared with one that never saw the failure.  Runs under
// address and undefined-behaviour checking with live allocations counted.
#include <new>
#include "grand.hpp"
#include "rich.hpp"

static long g_live = 0, g_fuse = -1;
static bool g_blown = false;
void* operator new(size_t n) {
    if (g_fuse >= 0 && g_fuse-- == 0) {
        g_blown = true;
        throw std::bad_alloc();
    }
    void* p = malloc(n ? n : 1);
    if (!p) { throw std::bad_alloc(); }
    ++g_live;
    return p;
}
void operator delete(void* p) noexcept {
    if (p) { --g_live; }
    free(p);
}
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void* operator new[](size_t n) { return operator new(n); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }

using namespace mc;

// runs f with the k-th allocation failing; false if f made fewer
static bool withFault(long k, const std::function<void()>& f) {
    g_blown = false;
    g_fuse = k;
    try { f(); }
    catch (const std::exception&) { g_fuse = -1; }
    g_fuse = -1;
    return g_blown;
}

// ---- one object with its definitions, ready for a parse
struct Subject {
    const char* text;
    std::function<void(Rich&)> define;
    Strs names;
    std::vector<Strs> lines;
};
static std::vector<Subject> subjects() {
    std::vector<Subject> r;
    for (auto& c : richCases()) {
        Subject s;
        s.text = c.text;
        s.define = c.define;
        s.names = c.names;
        s.lines = c.lines;
        // long texts, so that values live on the heap
        Strs wide;
        for (auto& t : c.lines[1]) { wide.push_back(t.size() > 1 && t[0] != '-' ? t + std::string(30, '0') : t); }
        s.lines.push_back(wide);
        Strs more = c.lines[1];
        more.insert(more.end(), c.lines[3].begin(), c.lines[3].end());
        s.lines.push_back(more);
        r.push_back(s);
    }
    return r;
}
// every kind alone with its neighbours
static std::vector<Subject> plain() {
    static std::vector<Cfg> cfgs;
    static std::vector<std::string> texts;
    std::vector<Subject> r;
    if (cfgs.empty()) {
        for (Kind k : everyOption()) {
            for (int v = 0; v < 2; ++v) {
                Cfg c = grandCfg(k, v ? std::vector<Kind>{K_POSINF} : std::vector<Kind>{K_POSNUM, K_POS}, v, 0, v);
                if (v) { c.args.back().defaults = S({"a default text beyond the buffer"}); }
                cfgs.push_back(c);
                texts.push_back(cppCfg(c));
            }
        }
    }
    for (size_t i = 0; i < cfgs.size(); ++i) {
        Subject s;
        s.text = texts[i].c_str();
        const Cfg& c = cfgs[i];
        s.define = [&c](Rich& w) { build(w.a, c); };
        s.names = namesOf(c);
        s.lines = grandLines(c, false);
        size_t n = s.lines.size();
        for (size_t l = 5; l < n; l += 3) {
            Strs t = s.lines[l];
            for (auto& x : t) {
                if (!x.empty() && x[0] != '-') { x += " and a text beyond the small buffer"; }
            }
            s.lines.push_back(t);
        }
        r.push_back(s);
    }
    return r;
}
static void start(Rich& w, const Subject& s) {
    w.a.setHelpException();
    w.a.setVersionException();
    s.define(w);
    try { // the help option exists from here on
        Argv v(S({"-h"}));
        w.a.parseArguments(v.argc(), v.argv());
    }
    catch (const blet::Args::Exception&) {}
    catch (const std::exception&) {}
    w.forget();
}
static void parseRaw(Rich& w, Argv& v) { w.a.parseArguments(v.argc(), v.argv()); }

static void decide(Rich& w, const Subject& s, size_t next, std::string& fresh) {
    if (fresh.empty()) {
        Rich x;
        start(x, s);
        fresh = richParse(x, s.lines[next], s.names);
    }
    w.forget();
    std::string got = richParse(w, s.lines[next], s.names);
    ++C().comparisons;
    steps(3);
    validated();
    state(got);
    if (got != fresh) { fail("the object behaves differently after a call that was cut short\n" + firstDiff(fresh, got, "never interrupted", "interrupted      ")); }
    sample();
}
static void leakFree(const std::function<void()>& f) { // twice: what is set up once for the process is no leak
    long before = g_live;
    f();
    if (g_live == before) { return; }
    before = g_live;
    f();
    if (g_live != before) { fail(str(g_live - before) + " allocations are not released after a call that was cut short"); }
}

// ---- allocation failures in parses
static void parses(const Subject& s, bool two) {
    size_t n = s.lines.size();
    std::vector<std::string> fresh(n);
    for (size_t l = 0; l < n; ++l) {
        long points = 0;
        {
            Rich w;
            start(w, s);
            Argv v(s.lines[l]);
            while (withFault(points, [&] { parseRaw(w, v); })) { ++points; }
        }
        bump("fault points", (uint64_t)points);
        for (long k = 0; k < points; ++k) {
            for (size_t next = 0; next < n; ++next) {
                if (!two && !thorough() && (next + k + l) % 3) { continue; }
                if (!take()) { continue; }
                C().describe = [&]() {
                    return std::string(s.text) + "\nparse [-h]\n// allocation number " + str(k) + " of this call fails:\n" + cppParse(s.lines[l]) + "\n" + cppParse(s.lines[next]) + "\n// compared with the last parse alone";
                };
                if (fresh[next].empty()) {
                    Rich x;
                    start(x, s);
                    fresh[next] = richParse(x, s.lines[next], s.names);
                }
                {
                    Argv v(s.lines[l]);
                    leakFree([&] {
                        Rich w;
                        start(w, s);
                        withFault(k, [&] { parseRaw(w, v); });
                    });
                }
                Rich w;
                start(w, s);
                {
                    Argv v(s.lines[l]);
                    withFault(k, [&] { parseRaw(w, v); });
                }
                if (two) { // and the next one too, at a related point
                    Argv v(s.lines[next]);
                    withFault(k * 2 / 3, [&] { parseRaw(w, v); });
                }
                decide(w, s, next, fresh[next]);
                C().describe = nullptr;
            }
        }
    }
}

// ---- allocation failures in queries
struct Query {
    const char* text;
    std::function<void(Rich&, const std::string&)> f;
};
static std::vector<Query> queries() {
    using namespace blet;
    std::vector<Query> r;
#define QU(...) r.push_back({#__VA_ARGS__, [](Rich& w, const std::string& x) { (void)w; (void)x; __VA_ARGS__; }})
    QU(w.a.getUsage());
    QU(w.a.getArgument(x).getString());
    QU(std::string t = w.a.getArgument(x));
    QU(Strs t = w.a.getArgument(x).operator Strs());
    QU(std::vector<Strs> t = w.a.getArgument(x).operator std::vector<Strs>());
    QU(args::Argument t(w.a.getArgument(x)));
    QU(std::ostringstream t; t << w.a.getArgument(x));
    QU(w.a.getArgument(x).getNumber());
    QU(w.a.getArgument(x).at(0).getString() + std::string(40, 'x'));
    QU(w.a.getArgument("--no-argument-has-this-name"));
    QU(w.a.updateArgument("--no-argument-has-this-name"));
    QU(w.a.argumentExists(x + " and more than a small buffer"));
#undef QU
    return r;
}
static void others(const Subject& s) {
    std::vector<Query> qs = queries();
    size_t n = s.lines.size();
    std::vector<std::string> fresh(n);
    for (auto& q : qs) {
        for (auto& x : s.names) {
            for (size_t l = 0; l < n; ++l) {
                if (!thorough() && l % 2) { continue; }
                for (long k = 0;; ++k) {
                    bool more;
                    {
                        Rich w;
                        start(w, s);
                        richParse(w, s.lines[l], s.names, false);
                        more = withFault(k, [&] { q.f(w, x); });
                    }
                    if (!more) { break; }
                    if (!take()) { continue; }
                    C().describe = [&]() {
                        return std::string(s.text) + "\nparse [-h]\n" + cppParse(s.lines[l]) + "\n// allocation number " + str(k) + " of this call fails:\n" + q.text + "\n// x is " + x;
                    };
                    Rich w;
                    start(w, s);
                    std::string before = richParse(w, s.lines[l], s.names, false), now;
                    before = dump(w.a, s.names);
                    leakFree([&] { withFault(k, [&] { q.f(w, x); }); });
                    now = dump(w.a, s.names);
                    ++C().comparisons;
                    if (now != before) { fail("the object changed although the call was cut short\n" + firstDiff(before, now, "before", "after ")); }
                    decide(w, s, (l + k) % n, fresh[(l + k) % n]);
                    C().describe = nullptr;
                }
            }
        }
    }
}

// ---- callbacks that throw
struct Odd {
    int x;
};
static void throwOne(int type) {
    switch (type) {
        case 0: throw Odd{42};
        case 1: throw std::runtime_error("a runtime error of the user, long enough for the heap");
        case 2: throw std::bad_alloc();
        case 3: throw blet::Args::ParseArgumentException("user", "an own parse error");
        case 4: throw 17;
        case 5: throw blet::Args::HelpException("own help");
        default: throw blet::Args::ArgumentException("an own definition error");
    }
}
static std::string thrownBy(const std::function<void()>& f) {
    try { f(); }
    catch (const Odd& e) { return "odd " + str(e.x); }
    catch (int e) { return "int " + str(e); }
    catch (const std::bad_alloc&) { return "bad_alloc"; }
    catch (const blet::Args::HelpException& e) { return std::string("help ") + e.what(); }
    catch (const blet::Args::ParseArgumentValidException& e) { return std::string("valid ") + e.argument() + ": " + e.what(); }
    catch (const blet::Args::ParseArgumentException& e) { return std::string("parse ") + e.argument() + ": " + e.what(); }
    catch (const blet::Args::ArgumentException& e) { return std::string("argument ") + e.argument() + ": " + e.what(); }
    catch (const std::exception& e) { return std::string("std ") + e.what(); }
    return "nothing";
}
static void callbacks(const Subject& s) {
    size_t n = s.lines.size();
    std::vector<std::string> fresh(n);
    for (size_t l = 0; l < n; ++l) {
        long calls = 0;
        {
            Rich w;
            start(w, s);
            richHook() = [&]() { ++calls; };
            richParse(w, s.lines[l], s.names, false);
            richHook() = nullptr;
        }
        bump("callback calls", (uint64_t)calls);
        for (long k = 0; k < calls; ++k) {
            for (int type = 0; type < 7; ++type) {
                for (size_t next = 0; next < n; ++next) {
                    if (!take()) { continue; }
                    C().describe = [&]() {
                        return std::string(s.text) + "\nparse [-h]\n// callback number " + str(k) + " throws value number " + str(type) + ":\n" + cppParse(s.lines[l]) + "\n" + cppParse(s.lines[next]);
                    };
                    std::string want = thrownBy([&] { throwOne(type); }), got;
                    {
                        Argv v(s.lines[l]);
                        leakFree([&] {
                            Rich w;
                            start(w, s);
                            long c = 0;
                            richHook() = [&]() { if (c++ == k) { throwOne(type); } };
                            try { parseRaw(w, v); }
                            catch (...) {}
                            richHook() = nullptr;
                        });
                    }
                    Rich w;
                    start(w, s);
                    {
                        Argv v(s.lines[l]);
                        long c = 0;
                        richHook() = [&]() { if (c++ == k) { throwOne(type); } };
                        got = thrownBy([&] { parseRaw(w, v); });
                        richHook() = nullptr;
                    }
                    eqs(got, want, "what the caller of parseArguments catches");
                    decide(w, s, next, fresh[next]);
                    C().describe = nullptr;
                }
            }
        }
    }
}

void explore() {
    std::vector<Subject> rich = subjects(), kinds = plain();
    for (auto& s : rich) {
        callbacks(s);
        parses(s, false);
        parses(s, true);
        others(s);
    }
    for (auto& s : kinds) {
        parses(s, false);
        others(s);
    }
}
