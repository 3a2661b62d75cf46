// C24: several parsers in one program do not influence each other.
#include "observe.hpp"
#include "grand.hpp"
#include <sys/wait.h>
#include <unistd.h>
using namespace mc;
typedef blet::Args Args;

static const Strs kNames = S({"-s", "--simple", "-b", "-x", "-i", "POS", "LIST", "-h", "-v", "-t"});

// one object with its destinations; every call returns what it shows
struct Unit {
    Args* a;
    std::string sdest;
    Strs vdest;
    std::vector<Strs> vvdest;
    int idest;
    bool bdest;
    std::vector<int> videst;
    std::vector<std::vector<double> > vvddest;
    Unit() : a(new Args()), idest(-1), bdest(true) {}
    ~Unit() { delete a; }
    std::string show() {
        if (!a) { return "destroyed"; }
        return dump(*a, kNames) + q(sdest) + q(vdest) + q(vvdest) + str(idest) + str(bdest) + numbers();
    }
    std::string numbers() {
        std::string r;
        for (int x : videst) { r += " " + str(x); }
        for (auto& g : vvddest) {
            r += " /";
            for (double x : g) { r += " " + str(x); }
        }
        return r;
    }
    std::string refused(const std::function<void(Args&)>& f) { // what a definition call throws
        try { f(*a); }
        catch (const Args::ArgumentException& e) { return std::string(e.argument()) + ": " + e.what() + ";"; }
        catch (const Args::AccessDeniedException& e) { return std::string(e.argument()) + " denied: " + e.what() + ";"; }
        return "accepted;";
    }
    std::string parse(const Strs& t, const char* prog = "prog") {
        Argv v(t, prog);
        Outcome o;
        try { a->parseArguments(v.argc(), v.argv()); }
        catch (const Args::HelpException& e) { o.status = HELP; o.what = e.what(); }
        catch (const Args::VersionException& e) { o.status = VERSION; o.what = e.what(); }
        catch (const Args::ParseArgumentException& e) { o.status = TOKEN_ERROR; o.name = e.argument(); o.what = e.what(); }
        return dump(o);
    }
};
struct Suffix : Args::IValid { // keeps its calls to itself
    std::string s;
    explicit Suffix(const std::string& t) : s(t) {}
    bool isValid(Strs& v) {
        for (auto& x : v) {
            if (x == "bad") { return false; }
            x += s;
        }
        return true;
    }
};
static void convS(std::string& d, bool e, const std::string& v) { d = v + str(e) + "S"; }
static void convB(bool& d, bool e, const std::string& v) { d = e && v.empty(); }
static void convV(Strs& d, bool e, const Strs& v) {
    d = v;
    d.push_back(str(e));
}
struct Call {
    const char* text;
    std::function<std::string(Unit&)> f;
};
typedef std::vector<Call> Script;

static Script script(int k) {
    Script s;
#define ADD(...) s.push_back({#__VA_ARGS__, [](Unit& u) -> std::string { std::string r; __VA_ARGS__; return r; }})
    switch (k) {
        case 0:
            ADD(u.a->addArgument(vec(S({"-s", "--simple"}))).defaults("d0").dest(u.sdest));
            ADD(u.a->addArgument("POS").valid(new Suffix("!")));
            ADD(r = u.parse(S({"-s", "v0", "p0", "extra0"})));
            ADD(r = u.parse(S({"-q"})));
            ADD(r = u.a->getUsage());
            break;
        case 1:
            ADD(u.a->setAlternative().setStrict().setHelpException());
            ADD(u.a->addArgument(vec(S({"--simple", "-t"}))).action(Args::EXTEND).dest(u.vdest));
            ADD(u.a->setUsageWidth(1, 5, 1, 9); u.a->setDescription("d1"); u.a->setBinaryName("b1"));
            ADD(r = u.parse(S({"-simple", "a1", "b1", "-t=c1"})));
            ADD(r = u.parse(S({"surplus"})));
            break;
        case 2:
            ADD(u.a->addArgument("-x").action(Args::APPEND).nargs(2).defaults(vec(S({"1", "2"}))).dest(u.vvdest));
            ADD(u.a->addArgument("-i").action(Args::INFINITE).valid(new Suffix("?")));
            ADD(r = u.parse(S({"-x", "3", "4", "-i", "5", "6", "-x", "7", "8"})));
            ADD(u.a->removeArguments("-i"));
            ADD(r = u.parse(S({"-i"})));
            break;
        case 3:
            ADD(u.a->setHelpException(); u.a->setVersionException(); u.a->setVersion("v3"));
            ADD(u.a->addArgument("-v").action(Args::VERSION));
            ADD(u.a->addArgument(vec(S({"-h", "-b"}))).action(Args::HELP));
            ADD(r = u.parse(S({"-v"})));
            ADD(r = u.parse(S({"-vb"})));
            break;
        case 4:
            ADD(u.a->addArgument("-b").action(Args::STORE_FALSE).required());
            ADD(u.a->addArgument("POS").required());
            ADD(u.a->addArgument("LIST").nargs(2).action(Args::INFINITE).dest(u.vvdest));
            ADD(r = u.parse(S({"-b"})));
            ADD(r = u.parse(S({"p4", "a4", "b4", "-b"})));
            break;
        case 5:
            ADD(u.a->addArgument("-s").dest(u.idest).valid(new Args::ValidMinMax(0, 50)));
            ADD(r = u.parse(S({"-s", "42"})));
            ADD(u.a->clear());
            ADD(u.a->addArgument("-s").action(Args::STORE_TRUE));
            ADD(r = u.parse(S({"-ss", "add5"})));
            break;
        case 6:
            ADD(u.a->setUsageWidth(0, 0, 0, 0); u.a->setDescription("seven d7"); u.a->setEpilog("e7"));
            ADD(r = u.a->getUsage());
            ADD(u.a->addArgument(vec(S({"-s", "--simple", "--long-option-seven"}))).help("some help 7").required().dest(u.idest));
            ADD(u.a->addArgument("LIST").action(Args::INFINITE).help("list\nseven"));
            ADD(r = u.parse(S({"--long-option-seven", "7", "l7"}), "a/prog7") + u.a->getUsage());
            break;
        case 7:
            ADD(u.a->setAlternative(); u.a->setUsageWidth(9, 2, 7, 120); u.a->setVersion("8"));
            ADD(u.a->addArgument("-s").valid(new Args::ValidNumber()).defaults("88").dest(u.idest));
            ADD(u.a->addArgument("-x").valid(new Args::ValidPath(Args::ValidPath::IS_DIR)).metavar("PATH-EIGHT"));
            ADD(r = u.parse(S({"-x", "/", "-s", "word8"})));
            ADD(r = u.parse(S({"-x", "/nowhere8"})) + u.a->getUsage());
            break;
        case 8:
            ADD(u.a->addArgument(vec(S({"-b", "--zz", "-t"}))).action(Args::STORE_TRUE).dest(u.bdest, convB).help("flag 8"); u.a->addArgument("-x").nargs(2).dest(u.videst).valid(new Args::ValidMinMax(90, 1)).metavar("PAIR8"));
            ADD(r = u.refused([](Args& a) { a.addArgument(vec(S({"-q", "-x"}))); }) + u.refused([](Args& a) { a.addArgument("--=8"); }) + u.refused([](Args& a) { a.updateArgument("-x").defaults("8"); }) + u.refused([](Args& a) { a.updateArgument("none8"); }) + u.refused([](Args& a) { a.updateArgument("-x").flag("eight"); }) + u.refused([](Args& a) { a.updateArgument("-b").nargs(2); }));
            ADD(r = u.parse(S({"-tx", "81", "82"})));
            ADD(r = u.refused([](Args& a) { a.removeArguments("-h"); }) + u.parse(S({"-x", "8", "word8"})) + u.parse(S({"-x", "99", "8"})));
            ADD(u.a->setUsage("usage 8"); r = u.a->getUsage() + u.parse(S({"-x8", "9", "--zz", "-b"}), "dir8/prog8"));
            break;
        case 9:
            ADD(u.a->setHelpException(); u.a->addArgument("-h").action(Args::HELP).help("h9"); u.a->addArgument("LIST").nargs(2).action(Args::INFINITE).dest(u.vvddest).defaults(vec(S({"9", "91"}))));
            ADD(u.a->addArgument("-s").dest(u.sdest, convS).valid(new Args::ValidPath(Args::ValidPath::IS_FILE)); u.a->addArgument("-i").action(Args::EXTEND).dest(u.vdest, convV).defaults("i9"));
            ADD(r = u.parse(S({"-s/etc/passwd", "9", "92", "-i", "93"})) + u.parse(S({"-s", "/"})) + u.parse(S({"--help"})));
            ADD(u.a->removeArguments("-i"); u.a->setStrict());
            ADD(r = u.parse(S({"-h"})) + u.parse(S({"9", "2.5"})) + u.parse(S({"9"})));
            break;
        default:
            ADD(u.a->addArgument(vec(S({"-s", "--simple"}))).action(Args::APPEND).valid(new Args::ValidChoise(S({"c6", "d6"}))));
            ADD(r = u.parse(S({"-sc6", "-s", "d6"})));
            ADD(r = u.parse(S({"-s", "no"})));
            ADD(u.a->updateArgument("-s").flag("-t").metavar("M6"));
            ADD(delete u.a; u.a = 0);
            break;
    }
#undef ADD
    return s;
}
enum { SCRIPTS = 11 };

// what each call returns and shows when the script runs alone
static Strs run(const Script& s) {
    Unit u;
    Strs r;
    for (auto& c : s) {
        std::string x = c.f(u);
        r.push_back(x + u.show());
    }
    return r;
}
// f() evaluated in a process of its own: whatever it leaves behind is gone
static std::string isolated(std::function<std::string()> f) {
    int p[2];
    if (pipe(p) != 0) { return "pipe failed"; }
    pid_t pid = fork();
    if (pid == 0) {
        alarm(60);
        close(p[0]);
        std::string r = f();
        for (size_t at = 0; at < r.size();) {
            ssize_t n = write(p[1], r.data() + at, r.size() - at);
            if (n <= 0) { break; }
            at += n;
        }
        _exit(0);
    }
    close(p[1]);
    std::string r;
    char buf[4096];
    ssize_t n;
    while ((n = read(p[0], buf, sizeof(buf))) > 0) { r.append(buf, n); }
    close(p[0]);
    waitpid(pid, 0, 0);
    bump("isolated executions");
    return r;
}
static std::vector<Strs> g_alone;
static void isolate() { // before this process uses the library itself
    for (int k = 0; k < SCRIPTS; ++k) {
        std::string all = isolated([k]() {
            std::string r;
            for (auto& x : run(script(k))) { r += x + '\0'; }
            return r;
        });
        Strs w;
        for (size_t at = 0; at < all.size();) {
            size_t e = all.find('\0', at);
            w.push_back(all.substr(at, e - at));
            at = e == std::string::npos ? all.size() : e + 1;
        }
        w.resize(script(k).size(), "no result");
        g_alone.push_back(w);
    }
}
static const Strs& alone(int k) { return g_alone[k]; }
static void interleave(int i, int j) {
    Script a = script(i), b = script(j);
    Strs wa = alone(i), wb = alone(j);
    size_t n = a.size() + b.size();
    for (unsigned mask = 0; mask < (1u << n); ++mask) {
        if ((size_t)__builtin_popcount(mask) != a.size()) { continue; }
        if (!take()) { continue; }
        std::string trace;
        C().describe = [&]() {
            std::string r;
            size_t x = 0, y = 0;
            for (size_t k = 0; k < n; ++k) { r += (mask >> k & 1) ? std::string("first: ") + a[x++].text + "\n" : std::string("second: ") + b[y++].text + "\n"; }
            return r;
        };
        Unit ua, ub;
        size_t x = 0, y = 0;
        for (size_t k = 0; k < n; ++k) {
            bool first = mask >> k & 1;
            std::string r = first ? a[x++].f(ua) : b[y++].f(ub);
            std::string sa = ua.show(), sb = ub.show();
            if (first) { sa = r + sa; }
            else { sb = r + sb; }
            if (x) {
                std::string want = wa[x - 1];
                C().comparisons++;
                if (first ? sa != want : want.size() < sa.size() || want.compare(want.size() - sa.size(), sa.size(), sa) != 0) { fail("after step " + str(k + 1) + " the first object differs from running alone\n" + firstDiff(sa, want, "together", "alone   ")); }
            }
            if (y) {
                std::string want = wb[y - 1];
                C().comparisons++;
                if (!first ? sb != want : want.size() < sb.size() || want.compare(want.size() - sb.size(), sb.size(), sb) != 0) { fail("after step " + str(k + 1) + " the second object differs from running alone\n" + firstDiff(sb, want, "together", "alone   ")); }
            }
            state(sa);
            state(sb);
        }
        steps(n);
        validated();
        sample();
        C().describe = nullptr;
    }
}

// three objects, the first calls of three scripts
static void three(int i, int j, int l, size_t calls) {
    Script sc[3] = {script(i), script(j), script(l)};
    Strs want[3] = {alone(i), alone(j), alone(l)};
    for (int o = 0; o < 3; ++o) { sc[o].resize(calls); }
    size_t n = 3 * calls;
    std::vector<int> order(n);
    for (size_t k = 0; k < n; ++k) { order[k] = (int)(k / calls); }
    do {
        if (!take()) { continue; }
        size_t at[3] = {0, 0, 0};
        C().describe = [&]() {
            std::string r;
            size_t x[3] = {0, 0, 0};
            for (int o : order) { r += "object " + str(o) + ": " + sc[o][x[o]++].text + "\n"; }
            return r;
        };
        Unit u[3];
        for (int o : order) {
            std::string r = sc[o][at[o]].f(u[o]);
            r += u[o].show();
            eqs(r, want[o][at[o]], "an object differs from running alone");
            ++at[o];
        }
        for (int o = 0; o < 3; ++o) {
            std::string x = u[o].show(), w = want[o][calls - 1];
            ++C().comparisons;
            if (w.size() < x.size() || w.compare(w.size() - x.size(), x.size(), x) != 0) { fail("at the end an object differs from running alone"); }
        }
        steps(n);
        validated();
        C().describe = nullptr;
    } while (std::next_permutation(order.begin(), order.end()));
}

// a callback of the outer parse runs a step of another object's script
static std::function<void()> g_hook;
struct Hook : Args::IValid {
    bool isValid(Strs& v) {
        g_hook();
        for (auto& s : v) { s += "+"; }
        return true;
    }
};
static void hookS(std::string& d, bool e, const std::string& v) {
    g_hook();
    d = v + str(e);
}
static void hookV(Strs& d, bool e, const Strs& v) {
    g_hook();
    d = v;
    d.push_back(str(e));
}
static void hookVV(std::vector<Strs>& d, bool e, const std::vector<Strs>& v) {
    g_hook();
    d = v;
    d.push_back(Strs(1, str(e)));
}
static std::string outer(int where, const Strs& t) {
    Unit u;
    u.a->addArgument(vec(S({"-s", "--simple"}))).dest(u.sdest);
    u.a->addArgument("-x").action(Args::APPEND).nargs(2).dest(u.vvdest);
    u.a->addArgument("-i").action(Args::INFINITE).defaults(vec(S({"q", "w"}))).dest(u.vdest);
    u.a->addArgument("POS").valid(new Suffix("#"));
    u.a->addArgument("LIST").action(Args::INFINITE);
    switch (where) {
        case 0: u.a->updateArgument("-s").valid(new Hook()); break;
        case 1: u.a->updateArgument("-x").valid(new Hook()); break;
        case 2: u.a->updateArgument("LIST").valid(new Hook()); break;
        case 3: u.a->updateArgument("-s").dest(u.sdest, hookS); break;
        case 4: u.a->updateArgument("-i").dest(u.vdest, hookV); break;
        case 5: u.a->updateArgument("-x").dest(u.vvdest, hookVV); break;
        default: break;
    }
    std::string r = u.parse(t);
    r += u.show();
    return r;
}
static void nested() {
    std::vector<Strs> lines = {S({"-s", "v", "-x", "1", "2", "p", "l", "m"}), S({"-x", "1", "2", "-x", "3", "4", "-i", "9", "-s=8", "--", "-s", "-x"}), S({"-i", "-s1", "p", "bad"}), S({"bad"}), S({"p", "-q"})};
    for (auto& t : lines) {
        for (int where = 0; where < 6; ++where) {
            g_hook = []() {};
            std::string plain = isolated([&]() { return outer(where, t); });
            for (int k = 0; k < SCRIPTS; ++k) {
                Script s = script(k);
                Strs want = alone(k);
                for (size_t pre = 0; pre <= s.size(); ++pre) {
                    for (size_t len = 0; pre + len <= s.size(); ++len) {
                        if (!take()) { continue; }
                        C().describe = [&]() {
                            std::string r = "another object runs from within callback " + str(where) + " of an object that parses " + q(t) + "\n";
                            for (size_t i = pre; i < pre + len; ++i) { r += std::string(s[i].text) + "\n"; }
                            return r;
                        };
                        Unit b;
                        size_t at = 0;
                        auto step = [&]() {
                            std::string x = s[at].f(b);
                            x += b.show();
                            eqs(x, want[at], "the other object differs from running alone");
                            ++at;
                        };
                        while (at < pre) { step(); }
                        bool done = false;
                        g_hook = [&]() {
                            if (done) { return; }
                            done = true;
                            for (size_t i = 0; i < len; ++i) { step(); }
                        };
                        std::string now = outer(where, t);
                        g_hook = []() {};
                        ++C().comparisons;
                        if (now != plain) { fail("the outer object differs from running alone\n" + firstDiff(now, plain, "nested", "alone ")); }
                        while (at < s.size()) { step(); }
                        steps(s.size() + 2);
                        validated(2);
                        state(now);
                        sample();
                        C().describe = nullptr;
                    }
                }
            }
        }
    }
}
// each script, then every other one, in the same process: nothing stays behind
static void sequence() {
    for (int i = 0; i < SCRIPTS; ++i) {
        Strs want = alone(i);
        for (int j = 0; j < SCRIPTS; ++j) {
            for (int k = 0; k < SCRIPTS; ++k) {
                if (!take()) { continue; }
                C().describe = [&]() { return "scripts " + str(j) + " and " + str(k) + " before script " + str(i); };
                run(script(j));
                run(script(k));
                eqs(run(script(i)), want, "a script after others");
                steps(15);
                validated();
                C().describe = nullptr;
            }
        }
    }
}

// the common sweep with a second object that works in between
static void neighbour(const Case& k) {
    static Cfg other;
    static Strs names;
    if (other.args.empty()) {
        for (Kind x : optionKinds()) { other.args.push_back(kit(x)); }
        other.args.push_back(Spec(S({"-k", "--kind"}), K_MULTI));
        other.args.push_back(kit(K_POS, true));
        other.args.push_back(kit(K_POSINF));
        other.alternative = true;
        names = namesOf(other);
    }
    C().describe = [&]() { return "// with a second object defined and parsed before, between and after\n" + cppCase(k); };
    static const Strs l1 = S({"-s", "1", "-m2", "-x", "1", "2", "-bk", "v", "p", "q"}), l2 = S({"--kind=w", "z", "-i", "a", "b"});
    blet::Args b;
    blet::Args a;
    build(b, other);
    build(a, k.c);
    parseOnly(b, l1);
    runBefore(a, k);
    bool full = !k.before.empty();
    auto look = [&]() {
        if (full) { return dump(b, names); }
        Outcome o;
        readAll(b, other, o);
        return canon(o) + q(b.getBinaryName()) + str(b.isAlternative()) + str(b.isStrict());
    };
    std::string before = look();
    grandCheckOn(a, k);
    std::string after = look();
    if (before != after) { fail("the other object changed\n" + firstDiff(before, after, "before", "after ")); }
    Outcome w = parseOnly(b, l2);
    check(w.status == OK, "the other object's next parse fails");
    C().describe = nullptr;
}

// objects of the same shape that differ in one letter of every name, value and
// text: what they show differs in that letter only, and holds no other's
static std::string ren(const std::string& t, char l) {
    std::string r = t;
    if (r.empty() || r == "-" || r == "--") { return r; }
    if (r[0] != '-') { return r + l; }
    for (auto w : {"kind", "other", "bool"}) {
        size_t p = r.find(w);
        if (p != std::string::npos) { return r.insert(p + strlen(w), 1, l); }
    }
    for (auto& c : r) {
        if (c == 'k') { c = l; }
    }
    return r;
}
static Strs ren(const Strs& v, char l) {
    Strs r;
    for (auto& t : v) { r.push_back(ren(t, l)); }
    return r;
}
struct Twin {
    char l;
    Cfg c;
    Strs names;
    std::vector<Strs> lines;
    Args* a;
    int alive;
    std::string shown;
    Twin(const Cfg& base, const std::vector<Strs>& ls, char letter, int texts) : l(letter), c(base), a(new Args()), alive(0) {
        for (auto& x : c.args) {
            x.names = ren(x.names, l);
            x.defaults = ren(x.defaults, l);
            if (texts) {
                x.help = std::string("help ") + l + " of " + x.names[0];
                if (texts > 1) { x.metavar = std::string("META") + l; }
            }
        }
        names = namesOf(c);
        for (auto& t : ls) { lines.push_back(ren(t, l)); }
        c.version = std::string("version ") + l;
    }
    ~Twin() { delete a; }
    void add() {
        build(*a, c);
        a->setDescription((std::string("about ") + l).c_str());
        a->setEpilog((std::string("end ") + l).c_str());
        for (size_t i = 0; i < c.args.size(); ++i) {
            if (i % 2 == 0 && !valueless(c.args[i].kind)) { a->updateArgument(c.args[i].names[0]).valid(new Suffix(std::string("+") + l)); }
        }
    }
    void usage() { take(a->getUsage()); }
    void parse(size_t i) {
        Argv v(lines[i % lines.size()], (std::string("prog") + l).c_str());
        Outcome o;
        try { a->parseArguments(v.argc(), v.argv()); }
        catch (const Args::HelpException& e) { o.status = HELP; o.what = e.what(); }
        catch (const Args::VersionException& e) { o.status = VERSION; o.what = e.what(); }
        catch (const Args::ParseArgumentException& e) { o.status = TOKEN_ERROR; o.name = e.argument(); o.what = e.what(); }
        take(dump(o));
        take(dump(*a, names));
    }
    void take(const std::string& t) {
        for (char o : {'J', 'Q', 'W'}) {
            if (o != l && t.find(o) != std::string::npos) { fail(std::string("text of object ") + o + " appears in object " + l + ":\n" + t); }
        }
        for (char x : t) { shown += x == l ? '@' : x; }
        shown += "\n";
    }
};
static void twins() {
    for (Kind k : everyOption()) {
        for (auto& pl : grandPositionals()) {
            for (int variant = 0; variant < 6; ++variant) {
                Cfg c = grandCfg(k, pl, variant & 1, variant == 5, variant % 3);
                std::vector<Strs> ls = grandLines(c, false);
                for (size_t l = 0; l < ls.size(); ++l) {
                    for (int how = 0; how < 5; ++how) {
                        if (!mc::take()) { continue; }
                        C().describe = [&]() {
                            return "objects with J, Q and W in every name, value and text, definitions of object J:\n" + cppCfg(Twin(c, ls, 'J', variant % 3).c) + "getUsage, then parse " + q(ren(ls[l], 'J')) + " and the line after it, interleaved in way " + str(how);
                        };
                        Twin a(c, ls, 'J', variant % 3), b(c, ls, 'Q', variant % 3), w(c, ls, 'W', variant % 3);
                        std::vector<Twin*> all = {&a, &b, &w};
                        if (how == 1) { std::reverse(all.begin(), all.end()); }
                        if (how < 2) { // one after the other
                            for (auto x : all) {
                                x->add();
                                x->usage();
                                x->parse(l);
                                x->parse(l + 1);
                                x->usage();
                            }
                        }
                        else {
                            for (auto x : all) { x->add(); }
                            if (how != 3) { for (auto x : all) { x->usage(); } }
                            for (auto x : all) { x->parse(l); }
                            if (how == 4) { std::reverse(all.begin(), all.end()); }
                            for (auto x : all) { x->parse(l + 1); }
                            if (how == 3) { for (auto x : all) { x->usage(); } }
                            for (auto x : all) { x->usage(); }
                        }
                        C().comparisons += 2;
                        if (a.shown != b.shown) { fail("objects J and Q differ in more than the letter\n" + firstDiff(a.shown, b.shown, "J", "Q")); }
                        if (a.shown != w.shown) { fail("objects J and W differ in more than the letter\n" + firstDiff(a.shown, w.shown, "J", "W")); }
                        steps(12);
                        validated(3);
                        state(a.shown);
                        sample();
                        C().describe = nullptr;
                    }
                }
            }
        }
    }
}

void explore() {
    isolate();
    twins();
    for (int i = 0; i < SCRIPTS; ++i) {
        for (int j = 0; j < SCRIPTS; ++j) { interleave(i, j); }
    }
    nested();
    sequence();
    for (int i = 0; i < SCRIPTS; ++i) {
        for (int j = i; j < SCRIPTS; ++j) {
            for (int l = j; l < SCRIPTS; ++l) { three(i, j, l, thorough() ? 3 : 2); }
        }
    }
    grand(grandLevel(0), neighbour, G_STRUCT | G_HISTORY | G_PAIRS);
}
