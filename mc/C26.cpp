// C26: all ways to write a definition are equivalent.
#include "forms.hpp"
using namespace mc;

static std::string parseAndShow(Args& a, const Strs& t, const Strs& names) {
    Outcome o = parseOnly(a, t);
    return dump(o) + dump(a, names);
}
static bool accepts(Args::IValid& v, Strs& x) {
    try { return v.isValid(x); }
    catch (const Args::ParseArgumentValidException&) { return false; }
}

template<size_t N>
static void forms() {
    for (int order = 0; order < 3; ++order) {
        for (int form = 0; form < FORMS; ++form) {
            auto each = [&](int kind, const char* what, std::function<void(const Strs&, const char* const*)> f) {
                if (!take()) { return; }
                Strs e = elements(N, kind, order);
                std::vector<const char*> p;
                for (auto& s : e) { p.push_back(s.c_str()); }
                C().describe = [&]() { return std::string(what) + " with " + q(e) + " given as " + kForms[form]; };
                f(e, &p[0]);
                steps(N);
                validated();
                state(C().describe());
                sample();
                C().describe = nullptr;
            };
            each(0, "addArgument", [&](const Strs& e, const char* const* p) {
                Args a, b;
                withForm<N>(form, p, [&](auto&& v) { a.addArgument(v).action(Args::EXTEND).help("h"); });
                b.addArgument(e[0]);
                for (size_t i = 1; i < N; ++i) { b.updateArgument(e[0]).flag(e[i].c_str()); }
                b.updateArgument(e[0]).action(Args::EXTEND).help("h");
                eqs(a.getArgument(e[0]).getNameOrFlags(), sortedFlags(e), "getNameOrFlags()");
                Strs t;
                for (size_t i = 0; i < N; ++i) {
                    t.push_back(e[i]);
                    t.push_back("v" + str(i));
                }
                std::string x = parseAndShow(a, t, e), y = parseAndShow(b, t, e);
                ++C().comparisons;
                if (x != y) { fail("differs from adding the flags one by one\n" + firstDiff(x, y, "list      ", "one by one")); }
                withForm<N>(form, p, [&](auto&& v) { a.removeArguments(v); });
                for (auto& n : e) { check(!a.argumentExists(n), "a removed flag still exists"); }
            });
            each(1, "defaults", [&](const Strs& e, const char* const* p) {
                Args a;
                withForm<N>(form, p, [&](auto&& v) {
                    a.addArgument("-i").action(Args::INFINITE).defaults(v);
                    a.addArgument("LIST").nargs(N).action(N == 1 ? Args::INFINITE : Args::NONE).defaults(v);
                    a.addArgument("-n").nargs(N).defaults(v);
                });
                eqs(a.getArgument("-i").getDefaults(), e, "getDefaults()");
                eqs(a.getArgument("-n").getDefaults(), e, "getDefaults()");
                Outcome o = parseOnly(a, Strs());
                eq(o.status, (int)OK, "outcome");
                eqs(a.getArgument("-i").operator std::vector<std::string>(), e, "values after the parse");
                eqs(a.getArgument("LIST").operator std::vector<std::string>(), e, "values after the parse");
                eqs(a.getArgument("-n").operator std::vector<std::string>(), e, "values after the parse");
            });
            each(2, "ValidChoise", [&](const Strs& e, const char* const* p) {
                Vector given;
                withForm<N>(form, p, [&](auto&& v) { given = Vector(v); });
                eqs(Strs(given), e, "the list");
                Args::ValidChoise c(given);
                for (size_t i = 0; i < MAXN + 2; ++i) {
                    std::string s = "choice" + str(i);
                    Strs one(1, s), two = {e[0], s};
                    bool in = std::find(e.begin(), e.end(), s) != e.end();
                    eq(accepts(c, one), in, ("choice " + s).c_str());
                    eq(accepts(c, two), in, ("choice after another " + s).c_str());
                    eqs(one[0], s, "the value after the check");
                }
            });
        }
    }
}
template<size_t... I>
static void allForms(std::index_sequence<I...>) {
    int dummy[] = {(forms<I + 1>(), 0)...};
    (void)dummy;
}
// spelled out in the source, as users write it
static void literals() {
    auto same = [&](const char* text, const std::function<void(Args&)>& f, const Strs& flags, const Strs& defaults) {
        if (!take()) { return; }
        C().describe = [&]() { return std::string(text); };
        Args a;
        f(a);
        eqs(a.getArgument(flags[0]).getNameOrFlags(), flags[0][0] == '-' ? sortedFlags(flags) : flags, "getNameOrFlags()");
        for (auto& n : flags) { check(&a.getArgument(n) == &a.getArgument(flags[0]), "a flag leads elsewhere"); }
        eqs(a.getArgument(flags[0]).getDefaults(), defaults, "getDefaults()");
        steps(1);
        validated();
        C().describe = nullptr;
    };
    const char* cp = "-c";
    const char* const ccp = "-c";
    std::string st = "-s";
    const std::string cst = "--cst";
    char buf[16] = "--buf";
    same("\"-a\"", [](Args& a) { a.addArgument("-a").defaults("x"); }, S({"-a"}), S({"x"}));
    same("\"NAME\"", [](Args& a) { a.addArgument("NAME").defaults("x"); }, S({"NAME"}), S({"x"}));
    same("const char*", [&](Args& a) { a.addArgument(cp).defaults(cp); }, S({"-c"}), S({"-c"}));
    same("std::string", [&](Args& a) { a.addArgument(st).defaults(cst); }, S({"-s"}), S({"--cst"}));
    same("std::string(const char* const)", [&](Args& a) { a.addArgument(std::string(ccp)).defaults(std::string("y")); }, S({"-c"}), S({"y"}));
    same("char[16]", [&](Args& a) { a.addArgument(buf).defaults(buf); }, S({"--buf"}), S({"--buf"}));
    same("{\"-a\"}", [](Args& a) { a.addArgument({"-a"}).defaults({"x"}); }, S({"-a"}), S({"x"}));
    same("{\"-a\", \"-b\"}", [](Args& a) { a.addArgument({"-a", "-b"}).nargs(2).defaults({"x", "y"}); }, S({"-a", "-b"}), S({"x", "y"}));
    same("{\"-a\", \"--bb\", \"-c\"}", [](Args& a) { a.addArgument({"-a", "--bb", "-c"}).nargs(3).defaults({"x", "y", "z"}); }, S({"-a", "--bb", "-c"}), S({"x", "y", "z"}));
    same("Vector() + \"-a\" + \"-b\"", [](Args& a) { a.addArgument(Vector() + "-a" + "-b" + "--cc").nargs(3).defaults(Vector("x") + "yy" + "zzz"); }, S({"-a", "-b", "--cc"}), S({"x", "yy", "zzz"}));
    same("Vector + mixed", [&](Args& a) { a.addArgument(Vector() + cp + st + cst + "--dd").nargs(4).defaults(Vector() + cp + "" + cst + std::string("w")); }, S({"-c", "-s", "--cst", "--dd"}), S({"-c", "", "--cst", "w"}));
    same("args.vector", [](Args& a) { a.addArgument(a.vector("-a", "--long")).nargs(2).defaults(a.vector("x", "y")); }, S({"-a", "--long"}), S({"x", "y"}));
    same("args.vector() of one", [](Args& a) { a.addArgument(a.vector("-a")).defaults(a.vector("x")); }, S({"-a"}), S({"x"}));
    same("defaults(args.vector())", [](Args& a) { a.addArgument("-a").defaults(a.vector()); }, S({"-a"}), Strs());
    same("static const char* const []", [](Args& a) {
        static const char* const f[] = {"-z", "--zz"};
        static const char* d[] = {"1", "2"};
        a.addArgument(f).nargs(2).defaults(d);
    }, S({"-z", "--zz"}), S({"1", "2"}));
    same("std::string []", [](Args& a) {
        std::string f[] = {"--y", "-y"};
        const std::string d[] = {"1", "2"};
        a.addArgument(f).nargs(2).defaults(d);
    }, S({"-y", "--y"}), S({"1", "2"}));
}

// a setter called with (a part of) the current text of the same object
static void ownTexts() {
    Strs texts = {"", "x", "help", "fifteen letters", "sixteen letters!", "a text that does not fit into the object itself", std::string(300, 'w') + "end"};
    struct Text {
        const char* what;
        std::function<const std::string&(Args&)> get;
        std::function<void(Args&, const char*)> set;
    };
    std::vector<Text> all = {
        {"help", [](Args& a) -> const std::string& { return a.getArgument("-a").getHelp(); }, [](Args& a, const char* s) { a.updateArgument("-a").help(s); }},
        {"metavar", [](Args& a) -> const std::string& { return a.getArgument("-a").getMetavar(); }, [](Args& a, const char* s) { a.updateArgument("-a").metavar(s); }},
        {"setVersion", [](Args& a) -> const std::string& { return a.getVersion(); }, [](Args& a, const char* s) { a.setVersion(s); }},
        {"setBinaryName", [](Args& a) -> const std::string& { return a.getBinaryName(); }, [](Args& a, const char* s) { a.setBinaryName(s); }},
        {"setDescription", [](Args& a) -> const std::string& { return a.getDescription(); }, [](Args& a, const char* s) { a.setDescription(s); }},
        {"setEpilog", [](Args& a) -> const std::string& { return a.getEpilog(); }, [](Args& a, const char* s) { a.setEpilog(s); }},
    };
    for (auto& x : all) {
        for (auto& t : texts) {
            for (auto& before : texts) {
                for (size_t at = 0; at <= t.size(); at += t.size() > 60 ? 25 : 1) {
                    if (!take()) { continue; }
                    C().describe = [&]() { return std::string(x.what) + "(" + q(before) + "), then with " + q(t) + ", then with its own text from " + str(at); };
                    Args a;
                    a.addArgument("-a");
                    x.set(a, before.c_str());
                    eqs(std::string(x.get(a)), before, "the text read back");
                    x.set(a, t.c_str());
                    eqs(std::string(x.get(a)), t, "the text read back");
                    x.set(a, x.get(a).c_str() + at);
                    eqs(std::string(x.get(a)), t.substr(at), "the text read back");
                    steps(3);
                    validated();
                    C().describe = nullptr;
                }
            }
        }
    }
}

// every permutation of independent setter calls gives the same argument
struct Accept : Args::IValid {
    bool isValid(Strs& v) {
        for (auto& s : v) { s += "*"; }
        return true;
    }
};
static std::string permuted(bool pos, const std::vector<int>& order, bool viaUpdate, std::string& trace) {
    Args a;
    Strs dest;
    std::string n = pos ? "P" : "-p";
    a.addArgument("-a").required();
    if (pos) { a.addArgument("Q"); }
    blet::args::Argument* g = &a.addArgument(n);
    a.addArgument("--zz").defaults("zd");
    a.addArgument("R").nargs(2);
    for (int k : order) {
        if (viaUpdate) { g = &a.updateArgument(n); }
        switch (k) {
            case 0: g = &g->help("help text"); trace += ".help()"; break;
            case 1: g = &g->metavar("META"); trace += ".metavar()"; break;
            case 2: g = &g->required(); trace += ".required()"; break;
            case 3: g = &g->action(pos ? Args::INFINITE : Args::EXTEND); trace += ".action()"; break;
            case 4: g = &g->defaults("one"); trace += ".defaults()"; break;
            case 5: g = &g->dest(dest); trace += ".dest()"; break;
            case 6: g = &g->valid(new Accept()); trace += ".valid()"; break;
            default: g = &g->flag("--pp"); trace += ".flag()"; break;
        }
    }
    Strs names = {n, "--pp", "-a", "--zz", "Q", "R"};
    std::string r = dump(a, names);
    r += parseAndShow(a, pos ? S({"-a", "1", "q", "r", "s"}) : S({"-a", "1", "-p", "x", "y", "--pp=z"}), names) + q(dest);
    dest.clear();
    r += parseAndShow(a, S({"-a", "2"}), names) + q(dest);
    dest.clear();
    r += parseAndShow(a, S({"-p"}), names) + q(dest);
    return r;
}
static void permutations() {
    for (int pos = 0; pos < 2; ++pos) {
        std::vector<int> o;
        for (int i = 0; i < (pos ? 7 : 8); ++i) { o.push_back(i); }
        std::string none, want = permuted(pos, o, false, none);
        do {
            if (!take()) { continue; }
            bool via = C().next % 2;
            std::string trace;
            C().describe = [&]() { return std::string(pos ? "positional" : "option") + trace; };
            std::string got = permuted(pos, o, via, trace);
            ++C().comparisons;
            if (got != want) { fail("another order of the setter calls gives another result\n" + firstDiff(got, want, "this order", "reference ")); }
            steps(o.size());
            validated();
            state(trace);
            sample();
            C().describe = nullptr;
        } while (std::next_permutation(o.begin(), o.end()));
    }
}
// setters of the parser: every order, interleaved with definitions
static void parserSetters() {
    std::vector<int> o = {0, 1, 2, 3, 4, 5, 6};
    Strs names = S({"-v", "-s", "POS"});
    std::string want;
    do {
        if (!take() && !want.empty()) { continue; }
        Args a;
        std::string trace;
        for (int k : o) {
            switch (k) {
                case 0: a.setVersion("v 1"); a.setBinaryName("bin"); trace += " version/binary"; break;
                case 1: a.setAlternative(); a.setStrict(); trace += " alternative/strict"; break;
                case 2: a.setHelpException(); a.setVersionException(); trace += " exceptions"; break;
                case 3: a.setDescription("descr text"); a.setEpilog("epi text"); trace += " texts"; break;
                case 4: a.setUsageWidth(3, 9, 1, 14); trace += " widths"; break;
                case 5: a.addArgument(vec(S({"-s", "--simple"}))).help("some help words").required(); a.addArgument("POS"); trace += " arguments"; break;
                default: a.addArgument("-v").action(Args::VERSION); trace += " version option"; break;
            }
        }
        C().describe = [&]() { return "setter order:" + trace; };
        std::string got = dump(a, names);
        for (auto& t : {S({"-v"}), S({"--help"}), S({"-simple", "x", "p"}), S({"-s", "1", "p", "q"}), S({})}) { got += parseAndShow(a, t, names); }
        if (want.empty()) { want = got; }
        ++C().comparisons;
        if (got != want) { fail("another order of the setter calls gives another result\n" + firstDiff(got, want, "this order", "reference ")); }
        steps(o.size());
        validated();
        state(trace);
        C().describe = nullptr;
    } while (std::next_permutation(o.begin(), o.end()));
}
// what was set last is read back
static void readBack() {
    Strs texts = {"", "a", " b ", "two words", "line\nbreak", "x=y", "--flag", "\xE9", "ends\n", "\n", "\n\nstarts", " ", "\t", "trail \t ", "cr\r\n", "--", "-", "0", std::string(40000, 'L'), std::string(300, 'l'), "per%cent \\ \"quote\""};
    for (auto& x : texts) {
        for (auto& y : texts) {
            for (int parsed = 0; parsed < 2; ++parsed) {
                if (!take()) { continue; }
                C().describe = [&]() { return "setters given " + q(x) + " then " + q(y) + (parsed ? ", read after a parse" : ""); };
                Args a;
                a.setVersion(x); a.setVersion(y);
                a.setBinaryName(x.c_str()); a.setBinaryName(("b" + y).c_str());
                a.setDescription(x.c_str()); a.setDescription(y.c_str());
                a.setEpilog(x.c_str()); a.setEpilog(y.c_str());
                a.addArgument("-s").help(x.c_str()).metavar(x.c_str()).defaults(x);
                a.updateArgument("-s").help(y.c_str()).metavar(y.c_str()).defaults(y);
                a.addArgument("POS").help(y.c_str()).metavar(x.c_str());
                if (parsed) { parseOnly(a, S({"-s", "v"})); }
                const blet::args::Argument& g = a.getArgument("-s");
                eqs(a.getVersion(), y, "getVersion()");
                eqs(a.getBinaryName(), "b" + y, "getBinaryName()");
                eqs(a.getDescription(), y, "getDescription()");
                eqs(a.getEpilog(), y, "getEpilog()");
                eqs(g.getHelp(), y, "getHelp()");
                eqs(g.getMetavar(), y, "getMetavar()");
                eqs(g.getDefaults(), Strs(1, y), "getDefaults()");
                eqs(g.getDefault(), y, "getDefault()");
                eqs(a.getArgument("POS").getHelp(), y, "getHelp()");
                eqs(a.getArgument("POS").getMetavar(), x, "getMetavar()");
                if (!y.empty()) { // a usage text of one's own is shown as it is
                    a.setUsage(x.c_str());
                    a.setUsage(y.c_str());
                    eqs(a.getUsage(), y, "getUsage() after setUsage()");
                    a.setHelpException();
                    Outcome o = parseOnly(a, S({"--help"}));
                    eq(o.status, (int)HELP, "outcome of --help");
                    eqs(o.what, y, "text of the help exception");
                }
                steps(10);
                validated();
                C().describe = nullptr;
            }
        }
    }
    for (int seq = 0; seq < 81; ++seq) { // on, off, default argument; three calls
        for (int which = 0; which < 5; ++which) {
            if (!take()) { continue; }
            Args a;
            a.addArgument("-s");
            bool v[5] = {false, false, false, false, false};
            int x = seq;
            for (int i = 0; i < 4; ++i, x /= 3) {
                bool val = x % 3 != 1;
                int w = i == 3 ? (which + 1) % 5 : which;
                v[w] = val;
                switch (w) {
                    case 0: x % 3 == 2 ? a.setAlternative() : a.setAlternative(val); break;
                    case 1: x % 3 == 2 ? a.setStrict() : a.setStrict(val); break;
                    case 2: x % 3 == 2 ? a.setHelpException() : a.setHelpException(val); break;
                    case 3: x % 3 == 2 ? a.setVersionException() : a.setVersionException(val); break;
                    default: x % 3 == 2 ? a.updateArgument("-s").required() : a.updateArgument("-s").required(val); break;
                }
                eq(a.isAlternative(), v[0], "isAlternative()");
                eq(a.isStrict(), v[1], "isStrict()");
                eq(a.isHelpException(), v[2], "isHelpException()");
                eq(a.isVersionException(), v[3], "isVersionException()");
                eq(a.getArgument("-s").isRequired(), v[4], "isRequired()");
            }
            steps(4);
            validated();
        }
    }
}
// flags given twice in a list count once
static void duplicates() {
    Strs pool = S({"-a", "--aa", "-b", "--b"});
    for (size_t n = 2; n <= (thorough() ? 6u : 5u); ++n) {
        uint64_t total = 1;
        for (size_t i = 0; i < n; ++i) { total *= pool.size(); }
        for (uint64_t x = 0; x < total; ++x) {
            if (!take()) { continue; }
            Strs l, once;
            uint64_t y = x;
            for (size_t i = 0; i < n; ++i, y /= pool.size()) { l.push_back(pool[y % pool.size()]); }
            for (auto& s : l) {
                if (std::find(once.begin(), once.end(), s) == once.end()) { once.push_back(s); }
            }
            C().describe = [&]() { return "addArgument(" + q(l) + ")"; };
            Args a, b;
            a.addArgument(vec(l)).action(Args::EXTEND);
            b.addArgument(vec(once)).action(Args::EXTEND);
            eqs(a.getArgument(l[0]).getNameOrFlags(), sortedFlags(once), "getNameOrFlags()");
            Strs t = {"--b", "1", "-a=2", "-b", "3"};
            std::string ra = parseAndShow(a, t, pool), rb = parseAndShow(b, t, pool);
            ++C().comparisons;
            if (ra != rb) { fail("differs from the list without duplicates\n" + firstDiff(ra, rb, "with   ", "without")); }
            a.removeArguments(vec(Strs(1, l[0])));
            if (once.size() > 1) { eqs(a.getArgument(once[1]).getNameOrFlags(), sortedFlags(Strs(once.begin() + 1, once.end())), "flags after one was removed"); }
            else { check(!a.argumentExists(l[0]), "the argument is still known after its only flag was removed"); }
            steps(n);
            validated();
            state(C().describe());
            C().describe = nullptr;
        }
    }
}

void explore() {
    ownTexts();
    allForms(std::make_index_sequence<MAXN>());
    literals();
    permutations();
    parserSetters();
    readBack();
    duplicates();
}
