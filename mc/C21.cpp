// C21: clear() returns the object to the state of a new one.
#include "observe.hpp"
#include "grand.hpp"
#include "child.hpp"
using namespace mc;
typedef blet::Args Args;

static const Strs kNames = S({"-s", "--simple", "-b", "-x", "-h", "--help", "-v", "-t", "POS", "LIST", "NUM"});
static long g_alive = 0;
struct V : Args::IValid {
    bool refuse;
    explicit V(bool r) : refuse(r) { ++g_alive; }
    ~V() { --g_alive; }
    bool isValid(Strs& v) {
        for (auto& s : v) { s += "~"; }
        return !refuse;
    }
};
struct Dst {
    std::string s;
    Strs v;
    std::vector<Strs> vv;
    int i;
    bool b;
    char c[4];
    const char* p;
    std::vector<int> vi;
    std::vector<std::vector<double> > vvd;
    Dst() : i(-3), b(true), p("p") { strcpy(c, "c"); }
    std::string show() const {
        std::string r = q(s) + q(v) + q(vv) + str(i) + str(b) + q(c) + str((const void*)p);
        for (int x : vi) { r += " " + str(x); }
        for (auto& g : vvd) { r += " /" + str(g.size()); }
        return r;
    }
};
static void convS(std::string& d, bool e, const std::string& v) { d = v + str(e); }
static void convV(Strs& d, bool e, const Strs& v) {
    d = v;
    d.push_back(str(e));
}
static void convVV(std::vector<Strs>& d, bool e, const std::vector<Strs>& v) {
    d = v;
    d.push_back(Strs(1, str(e)));
}
static std::string parse(Args& a, const Strs& t, const char* prog = "prog") {
    Argv v(t, prog);
    Outcome o;
    try { a.parseArguments(v.argc(), v.argv()); }
    catch (const Args::HelpException& e) { o.status = HELP; o.what = e.what(); }
    catch (const Args::VersionException& e) { o.status = VERSION; o.what = e.what(); }
    catch (const Args::ParseArgumentException& e) { o.status = TOKEN_ERROR; o.name = e.argument(); o.what = e.what(); }
    return dump(o) + dump(a, kNames);
}
struct Op {
    const char* text;
    std::function<void(Args&, Dst&)> f;
};
static std::vector<Op> ops() {
    std::vector<Op> o;
#define OP(...) o.push_back({#__VA_ARGS__, [](Args& a, Dst& d) { (void)d; __VA_ARGS__; }})
    OP(a.setVersion("9.9"));
    OP(a.setAlternative());
    OP(a.setStrict());
    OP(a.setHelpException(false));
    OP(a.setVersionException(false));
    OP(a.setBinaryName("dir/name"));
    OP(a.setDescription("a description"));
    OP(a.setEpilog("an epilog"));
    OP(a.setUsage("a usage"));
    OP(a.setUsageWidth(7, 0, 20, 20));
    OP(a.setUsageWidth(2, 20, 2, 30));
    OP(a.setUsageWidth(0, 20, 2, 56));
    OP(a.setUsageWidth(2, 20, 5, 56));
    OP(a.setUsageWidth(3, 31, 4, 80));
    OP(a.setUsageWidth(1, 13, 1, 41));
    OP(a.addArgument(vec(S({"-s", "--simple"}))).defaults("d").dest(d.s).required());
    OP(a.addArgument("-b").action(Args::STORE_FALSE));
    OP(a.addArgument(vec(S({"-h", "-t"}))).action(Args::HELP));
    OP(a.addArgument("-v").action(Args::VERSION).valid(new V(false)));
    OP(a.addArgument("POS").valid(new V(false)));
    OP(a.addArgument("LIST").action(Args::INFINITE).dest(d.v).valid(new V(true)));
    OP(a.addArgument("-x").action(Args::EXTEND).nargs(2).defaults(vec(S({"1", "2"}))).dest(d.vv));
    OP(a.addArgument("NUM").nargs(2).required());
    OP(a.removeArguments("-h"));
    OP(parse(a, S({"-s", "1", "p", "extra", "more"})));
    OP(parse(a, S({"-x", "1", "2", "--", "-b"}), "other/prog"));
    OP(parse(a, S({"-nope"})));
    OP(parse(a, S({"-v", "-h"})));
    OP(a.clear(); a.setHelpException(); a.setVersionException());
#undef OP
    return o;
}
// destinations of other shapes, bundled validators, texts, refused definitions
static std::vector<Op> moreOps() {
    std::vector<Op> o;
#define OP(...) o.push_back({#__VA_ARGS__, [](Args& a, Dst& d) { (void)d; __VA_ARGS__; }})
    OP(a.addArgument(vec(S({"-s", "--simple"}))).valid(new Args::ValidNumber()).dest(d.i).metavar("NUMBER").help("a help"));
    OP(a.addArgument(vec(S({"-s", "--simple"}))).valid(new Args::ValidPath(Args::ValidPath::IS_DIR)).dest(d.s, convS).defaults("/"));
    OP(a.addArgument("-b").action(Args::STORE_TRUE).dest(d.b).help("flag"));
    OP(a.addArgument(vec(S({"-b", "-t"}))).action(Args::STORE_TRUE).dest(d.c).valid(new V(false)));
    OP(a.addArgument("-x").action(Args::APPEND).dest(d.v, convV).valid(new V(false)).metavar("M"));
    OP(a.addArgument("-x").action(Args::APPEND).nargs(2).dest(d.vvd).valid(new Args::ValidMinMax(9, 1)));
    OP(a.addArgument("-x").action(Args::EXTEND).nargs(2).dest(d.vv, convVV).defaults(vec(S({"1", "2", "3", "4"}))));
    OP(a.addArgument("POS").dest(d.p).valid(new Args::ValidChoise(vec(S({"p", "q"})))));
    OP(a.addArgument("LIST").action(Args::INFINITE).dest(d.vi).required().metavar("L"));
    OP(a.addArgument("NUM").nargs(2).action(Args::INFINITE).dest(d.vv).valid(new V(false)));
    OP(a.addArgument(vec(S({"-h"}))); a.addArgument("--help").action(Args::HELP).help("own help"));
    OP(a.addArgument(vec(S({"-v", "--version"}))).action(Args::VERSION); a.setVersion("1"); a.removeArguments("-v"));
    OP(a.removeArguments("--help"));
    OP(a.addArgument("-s").flag("-t").nargs(2).dest(d.s));
    OP(a.addArgument(vec(S({"NAME", "OTHER"}))));
    OP(a.addArgument(vec(S({"-t", "-s"}))));
    OP(a.updateArgument("-s").required().dest(d.v).defaults("u"));
    OP(a.updateArgument("-x").flag("--simple").valid(new V(true)));
    OP(a.setUsage(""); a.setDescription(""); a.setEpilog(""));
    OP(a.setUsage("one\ntwo"); a.setUsageWidth(0, 0, 0, 0));
    OP(parse(a, S({"-s", "12", "-b", "-x", "3", "4", "p", "5", "6"})));
    OP(parse(a, S({"-s=/", "-x1", "2", "q"}), "/"));
    OP(parse(a, S({"-s", "word", "-t"}), ""));
    OP(parse(a, S({})));
#undef OP
    return o;
}
// scripts of definitions and command lines; each returns all it can see
static std::string probe(Args& a, int k) {
    std::string r = dump(a, kNames);
    switch (k) {
        case 0: break;
        case 1:
            a.setHelpException();
            r += parse(a, S({"p", "q"}), "x/y") + parse(a, S({"-help"})) + parse(a, S({"--help"}));
            break;
        case 2:
            a.setHelpException();
            a.setVersionException();
            a.addArgument(vec(S({"-s", "--simple"}))).help("some help");
            a.addArgument(vec(S({"-v"}))).action(Args::VERSION);
            a.addArgument("POS");
            r += parse(a, S({"-simple", "1"})) + parse(a, S({"-s", "1", "p", "q"})) + parse(a, S({"-v"})) + parse(a, S({"-h"})) + parse(a, S({}));
            break;
        case 3:
            a.setHelpException();
            a.addArgument("-b").action(Args::HELP);
            a.addArgument("LIST").action(Args::INFINITE).defaults("q");
            a.addArgument("-x").nargs(2).required();
            a.setUsageWidth(1, 4, 1, 10);
            r += parse(a, S({"-x", "1", "2", "l", "m"})) + parse(a, S({"l"})) + parse(a, S({"-b"}));
            break;
        case 4:
            a.setHelpException();
            a.addArgument(vec(S({"-s", "--simple"}))).defaults("3").valid(new Args::ValidMinMax(1, 5));
            a.addArgument("-t").action(Args::STORE_TRUE);
            a.addArgument("-x").action(Args::EXTEND).nargs(2).metavar("PAIR");
            a.addArgument("LIST").action(Args::INFINITE).valid(new Args::ValidChoise(vec(S({"1", "2", "z"}))));
            r += parse(a, S({"-s", "4", "-t", "-x", "1", "2", "z"})) + parse(a, S({"-s9"})) + parse(a, S({"-ts2", "q"})) + parse(a, S({"-x=1", "2", "-x", "3", "4", "1", "2"})) + parse(a, S({"--help"}));
            break;
        default:
            a.setStrict();
            a.setAlternative();
            a.addArgument(vec(S({"-h", "--help"})));
            a.addArgument("NUM").nargs(2);
            r += parse(a, S({"-help", "z", "1", "2"})) + parse(a, S({"1", "2", "3"}));
            break;
    }
    r += a.getUsage();
    // every width shows in texts that need many lines
    static const std::string text = []() {
        std::string t;
        for (int i = 0; i < 60; ++i) { t += std::string(1 + i * 7 % 9, (char)('a' + i % 26)) + " "; }
        return t;
    }();
    if (!a.argumentExists("-w")) { a.addArgument(vec(S({"-w", "--wide"}))).help(text.c_str()); }
    if (!a.argumentExists("--twelve-chars")) { a.addArgument("--twelve-chars").help("short"); }
    a.setDescription(text.c_str());
    a.setEpilog(text.c_str());
    return r + a.getUsage();
}
enum { PROBES = 6 };

// the common sweep on an object that was used for something else and cleared
static void recycled(const Case& k) {
    static Cfg other, same;
    static bool done = false;
    if (!done) {
        done = true;
        for (Kind x : optionKinds()) { other.args.push_back(kit(x)); }
        other.args.push_back(kit(K_POS, true));
        other.args.push_back(Spec(S({"-h"}), K_HELP));
        other.alternative = other.strict = true;
        other.version = "other";
    }
    for (int v = 0; v < 2; ++v) {
        C().describe = [&]() { return std::string("// after ") + (v ? "the same definitions and a parse" : "other definitions and two parses") + ", then clear()\n" + cppCase(k); };
        Args a;
        build(a, v ? k.c : other);
        if (v) { parseOnly(a, S({"-k", "n1", "n2", "n3", "-b", "n4", "-a", "n5"})); }
        else {
            parseOnly(a, S({"-s", "1", "-m2", "-x", "1", "2", "-b", "p", "--", "q"}));
            parseOnly(a, S({"-h"}));
        }
        a.clear();
        build(a, k.c);
        runBefore(a, k);
        grandCheckOn(a, k);
        C().describe = nullptr;
    }
}

// what a cleared object prints when help or version ends the process
static std::string ending(Args& a, int k) {
    if (k) {
        a.setVersion("the version");
        a.addArgument("-v").action(Args::VERSION).help("show it");
        a.addArgument(vec(S({"-s", "--simple"}))).help("a help");
    }
    return parse(a, k == 1 ? S({"-v"}) : S({"-s", "--help"}));
}
static std::string printed(const std::vector<Op>* o, const std::vector<int>& h, int k) {
    return child([&]() {
        Args* a = new Args();
        Dst* d = new Dst();
        if (o) {
            a->setHelpException();
            a->setVersionException();
            for (int x : h) {
                if ((!a->isHelpException() || !a->isVersionException()) && (*o)[x].text[0] == 'p') { continue; }
                try { (*o)[x].f(*a, *d); }
                catch (const Args::ArgumentException&) {}
            }
            a->clear();
        }
        std::string r = ending(*a, k);
        if (write(1, r.data(), r.size()) < 0) { _exit(78); }
    });
}
static void endings(const std::vector<Op>& o) {
    Strs fresh;
    for (int k = 0; k < 3; ++k) { fresh.push_back(printed(0, std::vector<int>(), k)); }
    for (size_t x = 0; x < o.size() * (o.size() + 1); ++x) {
        if (!take()) { continue; }
        std::vector<int> h(1, (int)(x % o.size()));
        if (x / o.size()) { h.push_back((int)(x / o.size()) - 1); }
        C().describe = [&]() {
            std::string r;
            for (int k : h) { r += std::string(o[k].text) + "\n"; }
            return r + "a.clear(), then help or version without the exceptions";
        };
        int k = (int)(x % 3);
        std::string got = printed(&o, h, k);
        ++C().comparisons;
        if (got != fresh[k]) { fail("the cleared object ends differently from a new one\n" + firstDiff(got, fresh[k], "cleared", "new    ")); }
        bump("forked executions");
        steps(h.size() + 2);
        validated();
        C().describe = nullptr;
    }
}

static void histories(const std::vector<Op>& o, size_t depth) {
    Strs fresh;
    for (int k = 0; k < PROBES; ++k) {
        Args a;
        fresh.push_back(probe(a, k));
    }
    for (size_t len = 0; len <= depth; ++len) {
        uint64_t total = 1;
        for (size_t i = 0; i < len; ++i) { total *= o.size(); }
        if (skipBlock(total)) { continue; }
        for (uint64_t x = 0; x < total; ++x) {
            if (!take()) { continue; }
            std::vector<int> h(len);
            uint64_t y = x;
            for (size_t i = len; i-- > 0; y /= o.size()) { h[i] = (int)(y % o.size()); }
            int at = 0;
            C().describe = [&]() {
                std::string r;
                for (int k : h) { r += std::string(o[k].text) + "\n"; }
                return r + "a.clear(), then probe " + str(at);
            };
            auto history = [&](Args& a, Dst& d) {
                a.setHelpException();
                a.setVersionException();
                for (int k : h) {
                    // without the exceptions a help or version use would end the process
                    bool toggled = !a.isHelpException() || !a.isVersionException();
                    if (toggled && o[k].text[0] == 'p') { continue; }
                    try { o[k].f(a, d); }
                    catch (const Args::ArgumentException&) {}
                }
            };
            for (at = 0; at < PROBES; ++at) {
                Dst d;
                Args a;
                history(a, d);
                a.clear();
                eq(g_alive, 0L, "validators alive after clear()");
                std::string d0 = d.show();
                std::string got = probe(a, at);
                ++C().comparisons;
                if (got != fresh[at]) { fail("the cleared object differs from a new one\n" + firstDiff(got, fresh[at], "cleared", "new    ")); }
                check(d0 == d.show(), "a destination of an argument from before clear() is written");
            }
            {
                Args a; // clearing twice, and clearing after the probe, change nothing more
                Dst d;
                history(a, d);
                a.clear();
                a.clear();
                eqs(probe(a, 2), fresh[2], "after clear() twice");
                a.clear();
                eqs(probe(a, 3), fresh[3], "after a second round and clear()");
            }
            steps(len + 2);
            validated(PROBES + 1);
            state(C().describe());
            sample();
            C().describe = nullptr;
        }
    }
}

void explore() {
    std::vector<Op> o = ops(), more = moreOps();
    histories(o, thorough() ? 4 : 3);
    histories(more, thorough() ? 4 : 3);
    o.insert(o.end(), more.begin(), more.end());
    histories(o, thorough() ? 3 : 2);
    endings(o);
    grand(grandLevel(0), recycled);
}
