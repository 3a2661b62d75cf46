// C27: queries change nothing and are never out of date.
// Every history of definition, parse and removal calls, once with all queries
// made after every call and once with none before the end.
#include "observe.hpp"
#include "grand.hpp"
using namespace mc;
typedef blet::Args Args;
typedef blet::args::Argument Argument;

static const Strs kNames = S({"-s", "--simple", "-b", "-x", "-m", "-h", "--help", "-v", "-t", "POS", "LIST", "NUM", "--zz"});

// everything that can be asked, more than once and in several orders
static void ask(const Args& a, int round) {
    if (round & 1) { a.getUsage(); }
    for (auto& n : kNames) {
        a.argumentExists(n);
        try {
            const Argument& g = a[n];
            Argument copy(g); // a copy is a value of its own
            dump(copy);
            if (round & 2) { dump(g); }
            std::ostringstream o;
            o << g << copy;
            try { volatile double d = g; (void)d; }
            catch (const Args::Exception&) {}
            try { a.getArgument(n).operator std::vector<std::string>(); }
            catch (const Args::Exception&) {}
            g.getNumber();
        }
        catch (const Args::Exception&) {}
    }
    a.getUsage();
    std::vector<std::string> extra = a.getAdditionalArguments();
    extra.push_back("changed");
    a.getBinaryName(); a.getVersion(); a.getDescription(); a.getEpilog();
    if (round & 4) { dump(a, kNames); }
}
struct Dst {
    std::string s;
    int i;
    bool b;
    Strs v;
    std::vector<Strs> vv;
    Dst() : i(-1), b(false) {}
    std::string show() const { return q(s) + str(i) + str(b) + q(v) + q(vv); }
};
struct Suffix : Args::IValid { // may look at the whole object while it is being parsed
    const Args* a;
    const bool* look;
    Suffix(const Args* x, const bool* l) : a(x), look(l) {}
    bool isValid(Strs& v) {
        if (*look) { ask(*a, 7); }
        for (auto& x : v) {
            if (x == "no") { return false; }
            x += "+";
        }
        return true;
    }
};
static const Args* g_looked = 0;
static void conv(std::string& d, bool e, const std::string& v) {
    if (g_looked) { ask(*g_looked, 3); }
    d = v + str(e);
}
static std::string parse(Args& a, const Strs& t, const char* prog = "prog") {
    Argv v(t, prog);
    std::string r;
    try {
        a.parseArguments(v.argc(), v.argv());
        r = "accepted";
    }
    catch (const Args::HelpException& e) { r = std::string("help ") + e.what(); }
    catch (const Args::VersionException& e) { r = std::string("version ") + e.what(); }
    catch (const Args::ParseArgumentException& e) { r = std::string("refused ") + e.argument() + " " + e.what(); }
    return r + "\n";
}
struct World {
    Args a;
    Dst d;
    bool look;
    std::string log;
    World() : look(false) {
        a.setHelpException();
        a.setVersionException();
    }
};
struct Op {
    const char* text;
    std::function<void(World&)> f;
};
static std::vector<Op> ops() {
    std::vector<Op> o;
#define OP(...) o.push_back({#__VA_ARGS__, [](World& w) { Args& a = w.a; Dst& d = w.d; (void)a; (void)d; __VA_ARGS__; }})
    OP(a.addArgument(vec(S({"-s", "--simple"}))).help("a help").dest(d.s, conv).valid(new Suffix(&a, &w.look)));
    OP(a.addArgument("-b").action(Args::STORE_TRUE).dest(d.b));
    OP(a.addArgument("-x").action(Args::EXTEND).nargs(2).defaults(vec(S({"1", "2"}))).dest(d.vv));
    OP(a.addArgument("-m").action(Args::APPEND).valid(new Suffix(&a, &w.look)).dest(d.v));
    OP(a.addArgument("-v").action(Args::VERSION); a.setVersion("v1"));
    OP(a.addArgument(vec(S({"-t", "-h"}))).action(Args::HELP));
    OP(a.addArgument("POS").required().dest(d.i));
    OP(a.addArgument("LIST").action(Args::INFINITE).valid(new Suffix(&a, &w.look)));
    OP(a.addArgument("NUM").nargs(2).defaults(vec(S({"3", "4"}))));
    OP(a.updateArgument("-s").required().defaults("dd"));
    OP(a.updateArgument("-x").flag("--zz").metavar("META").help("other"));
    OP(a.updateArgument("-m").action(Args::STORE_TRUE));
    OP(a.updateArgument("LIST").nargs(2).defaults(vec(S({"5", "6", "7", "8"}))));
    OP(a.updateArgument("POS").action(Args::INFINITE).required(false));
    OP(a.updateArgument("-s").nargs(3).action(Args::HELP));
    OP(a.removeArguments("-s"));
    OP(a.removeArguments(vec(S({"-h", "POS"}))));
    OP(a.setDescription("described"); a.setUsageWidth(1, 8, 2, 24));
    OP(a.setEpilog("the end"); a.setBinaryName("dir/name"));
    OP(a.setUsage("own"));
    OP(a.setAlternative(); a.setStrict(!a.isStrict()));
    OP(a.clear(); a.setHelpException(); a.setVersionException());
    OP(w.log += parse(a, S({"p"})));
    OP(w.log += parse(a, S({"-s", "1", "7", "-x", "a", "b", "-m2", "8", "9", "-b"})));
    OP(w.log += parse(a, S({"-simple", "no", "q", "-x", "1"}), "path/prog"));
    OP(w.log += parse(a, S({"-bv", "-u"})));
    OP(w.log += parse(a, S({"4", "--", "-s", "no"})));
    OP(w.log += parse(a, S({"-h", "--zz", "c", "d"})));
#undef OP
    return o;
}
static void apply(const Op& o, World& w) {
    try { o.f(w); }
    catch (const Args::Exception& e) { w.log += std::string("throws ") + e.what() + "\n"; }
}
static std::string finish(World& w) {
    std::string r = w.log + dump(w.a, kNames) + w.d.show() + "\n";
    // and what happens next
    w.log.clear();
    w.log += parse(w.a, S({"-s", "2", "5", "-b"})) + parse(w.a, S({"9", "8", "7", "-x", "y", "z"}));
    return r + w.log + dump(w.a, kNames) + w.d.show();
}
static void histories(size_t depth) {
    std::vector<Op> o = ops();
    for (size_t len = 0; len <= depth; ++len) {
        uint64_t total = 1;
        for (size_t i = 0; i < len; ++i) { total *= o.size(); }
        if (skipBlock(total)) { continue; }
        for (uint64_t x = 0; x < total; ++x) {
            if (!take()) { continue; }
            std::vector<int> h(len);
            uint64_t y = x;
            for (size_t i = len; i-- > 0; y /= o.size()) { h[i] = (int)(y % o.size()); }
            C().describe = [&]() {
                std::string r;
                for (int k : h) { r += std::string(o[k].text) + "\n"; }
                return r + "// with every query after each call, against none";
            };
            std::string quiet;
            {
                World w;
                for (int k : h) { apply(o[k], w); }
                quiet = finish(w);
            }
            for (int round = 0; round < 8; round += 1 + (len > 2) * 3) { // 0..7, or 0 and 4
                World w;
                w.look = round != 0;
                g_looked = round ? &w.a : 0;
                ask(w.a, round);
                for (int k : h) {
                    apply(o[k], w);
                    ask(w.a, round);
                    if (round & 1) {
                        std::string once = dump(w.a, kNames), twice = dump(w.a, kNames);
                        eqs(twice, once, "the same queries once more");
                    }
                }
                std::string asked = finish(w);
                g_looked = 0;
                ++C().comparisons;
                if (asked != quiet) { fail("queries change what follows\n" + firstDiff(quiet, asked, "never asked", "asked      ")); }
                validated();
            }
            state(quiet);
            steps(len + 2);
            sample();
            C().describe = nullptr;
        }
    }
}

// the common sweep with queries between all calls
static void curious(const Case& k) {
    C().describe = [&]() { return "// with queries between all calls\n" + cppCase(k); };
    static Strs names;
    names = namesOf(k.c);
    auto look = [&](const Args& a) {
        if (k.before.empty() && k.line.size() > 2) {
            a.getUsage();
            for (auto& n : names) {
                const Argument& g = a[n];
                Argument copy(g);
                copy.getString();
                g.isNumber();
            }
            return;
        }
        dump(a, names);
    };
    Args a;
    build(a, k.c);
    look(a);
    for (auto& b : k.before) {
        parseOnly(a, b);
        look(a);
    }
    grandCheckOn(a, k);
    std::string one = k.line.size() > 2 ? "" : dump(a, names);
    if (!one.empty()) { eqs(dump(a, names), one, "the same queries once more"); }
    C().describe = nullptr;
}

void explore() {
    histories(thorough() ? 4 : 3);
    grand(grandLevel(0), curious);
}
