// C10: a parse does not depend on what the object parsed before.
// Every history of parses over an alphabet of command lines (failing ones
// included), with definition edits in between, against a fresh object.
#include "observe.hpp"
#include "grand.hpp"
#include "rich.hpp"
using namespace mc;

struct Edit {
    const char* text;
    std::function<void(blet::Args&)> f;
};

static std::string after(blet::Args& a, const Strs& t, const Strs& names) {
    Outcome o = parseOnly(a, t);
    return dump(o) + dump(a, names);
}

static Cfg cfg(Kind k, int variant) {
    Cfg c;
    Spec x = kit(k);
    if (variant & 1) { x.defaults = someDefaults(x, 2); }
    if (variant & 2) { x.required = true; }
    c.args = {x, kit(k == K_BOOL ? K_RBOOL : K_BOOL)};
    if (!isPos(k)) {
        c.args.push_back(kit(variant & 1 ? K_POSINF : K_POS));
        if (variant & 1) { c.args.back().defaults = S({"P1", "P2", "P3"}); }
    }
    else {
        c.args.push_back(kit(K_SIMPLE));
    }
    c.strict = variant == 3;
    return c;
}

static std::vector<Strs> lines(const Cfg& c) {
    const Spec& x = c.args[0];
    std::vector<Strs> r = {{}, {"p1"}, {"p1", "p2", "p3"}, {"--", "-b"}, {"-u"}, {"-h"}, {"-b"}};
    if (isPos(x.kind)) {
        r.push_back({"a", "-b", "b"});
        r.push_back({"a", "b", "c", "d"});
        r.push_back({"-s"});
        r.push_back({"-s7", "--simple=", "3x"});
        return r;
    }
    r.push_back({shortOf(x)});
    r.push_back({shortOf(x), "1", "2"});
    r.push_back({shortOf(x), "q1", "q2", "q3"});
    r.push_back({longOf(x) + "=5", "p"});
    r.push_back({shortOf(x) + "g", longOf(x) + "=h"});
    r.push_back({shortOf(x), "1", "2", "--", "x"});
    r.push_back({shortOf(x), "m", "n", longOf(x), "o", "p", "-b"});
    r.push_back({shortOf(x), "1", "2", "-u"});
    return r;
}

// parses only
static void histories() {
    std::vector<Kind> ks = optionKinds();
    ks.insert(ks.end(), posKinds().begin(), posKinds().end());
    for (auto k : ks) {
        for (int variant = 0; variant < 4; ++variant) {
            Cfg c = cfg(k, variant);
            Strs names = namesOf(c);
            std::vector<Strs> ls = lines(c);
            size_t n = ls.size();
            std::vector<std::string> fresh(n);
            for (size_t i = 0; i < n; ++i) {
                blet::Args a;
                build(a, c);
                fresh[i] = after(a, ls[i], names);
            }
            for (size_t depth = 2; depth <= (thorough() ? 4u : variant % 3 ? 2u : 3u); ++depth) {
                uint64_t total = 1;
                for (size_t i = 0; i < depth; ++i) { total *= n; }
                if (skipBlock(total)) { continue; }
                for (uint64_t x = 0; x < total; ++x) {
                    if (!take()) { continue; }
                    std::vector<size_t> h(depth);
                    uint64_t y = x;
                    for (size_t i = depth; i-- > 0; y /= n) { h[i] = y % n; }
                    C().describe = [&]() {
                        std::string r = cppCfg(c);
                        for (auto i : h) { r += cppParse(ls[i]) + "\n"; }
                        return r + "// compared with the last call alone on a fresh object";
                    };
                    blet::Args a;
                    build(a, c);
                    for (size_t i = 0; i + 1 < depth; ++i) { parseOnly(a, ls[h[i]]); }
                    std::string got = after(a, ls[h[depth - 1]], names);
                    ++C().comparisons;
                    steps(depth);
                    validated();
                    state(got);
                    if (got != fresh[h[depth - 1]]) {
                        fail("the last parse differs\n" + firstDiff(fresh[h[depth - 1]], got, "fresh object", "this object "));
                    }
                    sample();
                    C().describe = nullptr;
                }
            }
        }
    }
}

// definition edits between the parses
static std::vector<Edit> edits(const Cfg& c) {
    const std::string x = c.args[0].names[0];
    std::vector<Edit> e;
    e.push_back({"(no edit)", [](blet::Args&) {}});
    e.push_back({"addArgument(\"--new\").defaults(\"n\")", [](blet::Args& a) { a.addArgument("--new").defaults("n"); }});
    e.push_back({"addArgument(\"-u\").action(STORE_TRUE)", [](blet::Args& a) { a.addArgument("-u").action(blet::Args::STORE_TRUE); }});
    e.push_back({"addArgument(\"NEWPOS\")", [](blet::Args& a) { a.addArgument("NEWPOS"); }});
    e.push_back({"addArgument(\"REQPOS\").required()", [](blet::Args& a) { a.addArgument("REQPOS").required(); }});
    e.push_back({"removeArguments(x)", [x](blet::Args& a) { a.removeArguments(x); }});
    e.push_back({"removeArguments(\"-b\")", [](blet::Args& a) { if (a.argumentExists("-b")) { a.removeArguments("-b"); } }});
    e.push_back({"setAlternative()", [](blet::Args& a) { a.setAlternative(); }});
    e.push_back({"setStrict(toggle)", [](blet::Args& a) { a.setStrict(!a.isStrict()); }});
    e.push_back({"x.required()", [x](blet::Args& a) { a.updateArgument(x).required(); }});
    e.push_back({"x.defaults({})", [x](blet::Args& a) { a.updateArgument(x).defaults(blet::Args::vector()); }});
    e.push_back({"x.defaults(2 values), refusals caught", [x](blet::Args& a) {
                     try { a.updateArgument(x).defaults(blet::Args::vector("N1", "N2")); }
                     catch (const blet::Args::ArgumentException&) {}
                 }});
    e.push_back({"x.nargs(2), refusals caught", [x](blet::Args& a) {
                     try { a.updateArgument(x).nargs(2); }
                     catch (const blet::Args::ArgumentException&) {}
                 }});
    e.push_back({"x.action(INFINITE), refusals caught", [x](blet::Args& a) {
                     try { a.updateArgument(x).action(blet::Args::INFINITE); }
                     catch (const blet::Args::ArgumentException&) {}
                 }});
    if (!isPos(c.args[0].kind)) {
        e.push_back({"x.flag(\"--p1\")", [x](blet::Args& a) { a.updateArgument(x).flag("--p1"); }});
        e.push_back({"x.action(STORE_TRUE)", [x](blet::Args& a) { a.updateArgument(x).action(blet::Args::STORE_TRUE); }});
        e.push_back({"x.action(HELP), refusals caught", [x](blet::Args& a) {
                         try { a.updateArgument(x).action(blet::Args::NONE); }
                         catch (const blet::Args::ArgumentException&) {}
                     }});
    }
    e.push_back({"addArgument(\"-w\").action(VERSION), refusals caught", [](blet::Args& a) {
                     try { a.addArgument("-w").action(blet::Args::VERSION); }
                     catch (const blet::Args::ArgumentException&) {}
                 }});
    return e;
}

static void edited() {
    std::vector<Kind> ks = optionKinds();
    ks.insert(ks.end(), posKinds().begin(), posKinds().end());
    for (auto k : ks) {
        for (int variant = 0; variant < (thorough() ? 4 : 2); ++variant) {
            Cfg c = cfg(k, variant);
            Strs names = namesOf(c);
            for (auto n : {"--new", "-u", "NEWPOS", "REQPOS", "--p1", "-w"}) { names.push_back(n); }
            std::vector<Strs> ls = lines(c);
            if (!thorough()) {
                for (size_t i = 0; i < 3 && ls.size() > 10; ++i) { ls.erase(ls.begin() + 3 + i); }
            }
            std::vector<Edit> es = edits(c);
            for (size_t e1 = 0; e1 < es.size(); ++e1) {
                for (size_t e2 = 0; e2 < es.size(); ++e2) {
                    if (e2 != 0 && (e1 == 0 || (e1 == e2 && e1 <= 4))) { continue; }
                    std::vector<std::string> fresh(ls.size());
                    for (auto& s : fresh) { s.clear(); }
                    for (size_t p1 = 0; p1 < ls.size(); ++p1) {
                        for (size_t p2 = 0; p2 < ls.size(); ++p2) {
                            if (e2 != 0 && !thorough() && p1 != 2 && p1 != 8) { continue; } // two edits: fewer first lines
                            if (!take()) { continue; }
                            C().describe = [&]() {
                                return cppCfg(c) + cppParse(ls[p1]) + "\n" + es[e1].text + "\n" +
                                       (e2 ? cppParse(ls[p2]) + "\n" + es[e2].text + "\n" : "") + cppParse(ls[p2]) +
                                       "\n// compared with: definitions and edits first, then the last parse";
                            };
                            auto guarded = [&](blet::Args& a, size_t e) {
                                try { es[e].f(a); }
                                catch (const blet::Args::ArgumentException&) {}
                            };
                            if (fresh[p2].empty()) {
                                blet::Args a;
                                build(a, c);
                                guarded(a, e1);
                                guarded(a, e2);
                                fresh[p2] = after(a, ls[p2], names);
                            }
                            blet::Args a;
                            build(a, c);
                            parseOnly(a, ls[p1]);
                            guarded(a, e1);
                            if (e2) {
                                parseOnly(a, ls[p2]);
                                guarded(a, e2);
                            }
                            std::string got = after(a, ls[p2], names);
                            ++C().comparisons;
                            steps(4);
                            validated();
                            state(got);
                            if (got != fresh[p2]) {
                                fail("the last parse differs\n" + firstDiff(fresh[p2], got, "definitions first", "edited later     "));
                            }
                            sample();
                            C().describe = nullptr;
                        }
                    }
                }
            }
        }
    }
}

// arguments with destinations, conversions and validators: the same histories
static void rich() {
    std::vector<RichCase> cs = richCases();
    for (auto& c : cs) {
        Strs names = c.names;
        for (auto n : {"-u", "-s", "LIST", "-b"}) { names.push_back(n); }
        std::vector<RichEdit> es = richEdits(c);
        size_t n = c.lines.size(), m = es.size();
        auto start = [&](Rich& w) {
            w.a.setHelpException();
            w.a.setVersionException();
            c.define(w);
        };
        // every edit pair between, with up to two parses before the last
        for (size_t e1 = 0; e1 < m; ++e1) {
            for (size_t e2 = 0; e2 < m; ++e2) {
                if (e1 == 0 && e2 != 0) { continue; }
                if (skipBlock(n * n * n)) { continue; }
                Strs fresh(n);
                for (size_t x = 0; x < n * n * n; ++x) {
                    size_t p1 = x / (n * n), p2 = x / n % n, p3 = x % n;
                    if (e2 && !thorough() && p2 % 3 != (e1 + e2 + p1) % 3) { continue; }
                    if (!take()) { continue; }
                    C().describe = [&]() {
                        return std::string(c.text) + "\n" + cppParse(c.lines[p1]) + "\n" + es[e1].text + "\n" + cppParse(c.lines[p2]) + "\n" + es[e2].text + "\n" + cppParse(c.lines[p3]) +
                               "\n// x is " + c.names[0] + ", y is " + c.names[1] + "; compared with: definitions and edits first, then the last parse alone";
                    };
                    if (fresh[p3].empty()) {
                        Rich w;
                        start(w);
                        richEdit(es[e1], w);
                        richEdit(es[e2], w);
                        fresh[p3] = richParse(w, c.lines[p3], names);
                    }
                    Rich w;
                    start(w);
                    richParse(w, c.lines[p1], names, false);
                    richEdit(es[e1], w);
                    richParse(w, c.lines[p2], names, false);
                    richEdit(es[e2], w);
                    w.forget(); // whether a list destination is emptied first is left open
                    std::string got = richParse(w, c.lines[p3], names);
                    ++C().comparisons;
                    steps(6);
                    validated();
                    state(got);
                    if (got != fresh[p3]) { fail("the last parse differs\n" + firstDiff(fresh[p3], got, "definitions first", "edited later     ")); }
                    sample();
                    C().describe = nullptr;
                }
            }
        }
    }
}

// the common sweep after other parses on the same object
static void noisy(const Case& k) {
    static const std::vector<Strs> noise = {{"-k", "n1", "n2", "n3", "--kind", "n4", "n5", "-b", "--", "n6"}, {"-a", "n1", "--zeta", "n2", "n3", "n4", "n5"}, {"n1", "n2", "-nope"}, {"-h", "n"}};
    if (!k.before.empty()) { return grandCheck(k); }
    for (size_t i = 0; i < noise.size(); ++i) {
        bool pair = k.c.args[0].names[0] == "-a" || k.c.args[0].names[0] == "AAA";
        if (i < 2 && (i == 1) != pair) { continue; }
        std::vector<Strs> before(1, noise[i]);
        grandCheck(Case{k.c, k.m, before, k.line});
    }
}

// big lines before: many values, uses, surplus words and clusters, accepted or
// refused at the end, and the same amounts growing and shrinking from parse to parse
static void big() {
    std::vector<Kind> ks = optionKinds();
    ks.insert(ks.end(), posKinds().begin(), posKinds().end());
    std::vector<size_t> amounts;
    for (size_t n = 4; n <= 40; ++n) { amounts.push_back(n); }
    for (size_t n : {63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 513, 1000, 1025, 4097}) { amounts.push_back(n); }
    for (auto k : ks) {
        for (int variant = 0; variant < 4; ++variant) {
            Cfg c = cfg(k, variant);
            Strs names = namesOf(c);
            std::vector<Strs> ls = lines(c);
            std::vector<std::string> fresh(ls.size());
            for (size_t n : amounts) {
                for (int shape = 0; shape < 5; ++shape) {
                    if (!take()) { continue; }
                    Strs first;
                    std::string sh = isPos(k) ? "-s" : shortOf(c.args[0]);
                    for (size_t i = 0; i < n; ++i) {
                        switch (shape) {
                            case 0: first.push_back("w" + str(i)); break;
                            case 1:
                                if (i == 0) { first.push_back(sh); }
                                first.push_back("v" + str(i));
                                break;
                            case 2:
                                first.push_back(sh);
                                if (!valueless(k)) { first.push_back("v" + str(i)); }
                                if (k == K_NUMBER || grouped(k)) { first.push_back("w" + str(i)); }
                                break;
                            case 3:
                                if (i == 0) { first = S({"--"}); }
                                first.push_back(i % 3 ? "-x" + str(i) : "--");
                                break;
                            default: first = Strs(1, "-" + std::string(n, 'b')); break;
                        }
                    }
                    Strs failing = first;
                    failing.insert(failing.begin(), "-u");
                    Strs late = first;
                    late.push_back("-u");
                    for (size_t i = 0; i < ls.size(); ++i) {
                        if (n > 40 && i % 3 != n % 3) { continue; }
                        C().describe = [&]() { return cppCfg(c) + "// a line of " + str(first.size()) + " tokens: " + q(Strs(first.begin(), first.begin() + std::min<size_t>(first.size(), 6))) + ", ... (also with -u in front and behind)\n" + cppParse(ls[i]) + "\n// compared with the last call alone on a fresh object"; };
                        if (fresh[i].empty()) {
                            blet::Args a;
                            build(a, c);
                            fresh[i] = after(a, ls[i], names);
                        }
                        blet::Args a;
                        build(a, c);
                        if ((n + i) % 3 == 1) { parseOnly(a, failing); }
                        parseOnly(a, (n + i) % 3 == 2 ? late : first);
                        std::string got = after(a, ls[i], names);
                        ++C().comparisons;
                        steps(first.size() + ls[i].size());
                        validated();
                        if (got != fresh[i]) { fail("the last parse differs\n" + firstDiff(fresh[i], got, "fresh object", "this object ")); }
                        C().describe = nullptr;
                    }
                    bump("big lines before");
                }
            }
        }
    }
}
// very many parses on one object
static void often() {
    std::vector<Kind> ks = optionKinds();
    ks.insert(ks.end(), posKinds().begin(), posKinds().end());
    for (auto k : ks) {
        for (int variant = 0; variant < 4; ++variant) {
            if (!take()) { continue; }
            Cfg c = cfg(k, variant);
            Strs names = namesOf(c);
            std::vector<Strs> ls = lines(c);
            std::vector<std::string> fresh(ls.size());
            for (size_t i = 0; i < ls.size(); ++i) {
                blet::Args a;
                build(a, c);
                fresh[i] = after(a, ls[i], names);
            }
            blet::Args a;
            build(a, c);
            size_t total = thorough() ? 70000 : 1100;
            for (size_t n = 0; n < total; ++n) {
                size_t i = (n * 7 + n / ls.size()) % ls.size();
                if (n % 64 > 20 && n < total - 50) {
                    parseOnly(a, ls[i]);
                    continue;
                }
                C().describe = [&]() { return cppCfg(c) + str(n) + " parses of other lines, then " + cppParse(ls[i]); };
                std::string got = after(a, ls[i], names);
                ++C().comparisons;
                if (got != fresh[i]) { fail("the parse differs\n" + firstDiff(fresh[i], got, "fresh object", "this object ")); }
                C().describe = nullptr;
            }
            steps(total);
            validated();
            bump("objects that parse very often");
        }
    }
}
void explore() {
    histories();
    big();
    often();
    edited();
    rich();
    grand(grandLevel(0), noisy);
    grand(grandLevel(), grandCheck, G_HISTORY);
}
