// C22: parsing never modifies argv and a failing parse writes no destination.
#include "kit.hpp"
#include "grand.hpp"
using namespace mc;

static uint64_t g_calls = 0;
static std::string g_log;
template<typename T>
static void note(T& d, bool e, const std::string& v) {
    (void)d;
    ++g_calls;
    g_log += str(e) + v + "\n";
}
template<typename T>
static void noteV(std::vector<T>& d, bool e, const Strs& v) {
    (void)d;
    ++g_calls;
    g_log += str(e) + q(v) + "\n";
}
static void noteVV(std::vector<Strs>& d, bool e, const std::vector<Strs>& v) {
    (void)d;
    ++g_calls;
    g_log += str(e) + q(v) + "\n";
}

// destinations of one shape for every argument
struct Dest {
    std::string s;
    const char* cp;
    char ca[6];
    bool b;
    int i;
    double d;
    Strs vs;
    std::vector<const char*> vc;
    std::vector<long> vl;
    std::vector<Strs> vvs;
    std::vector<std::vector<int> > vvi;
    int custom;
    Strs customV;
    std::vector<Strs> customVV;
    Dest() : s("keep"), cp("kept"), b(true), i(-77), d(-7.5), vs(2, "keep"), vc(1, "kept"), vl(3, -9), vvs(1, Strs(2, "keep")), vvi(2, std::vector<int>(1, 4)), custom(3), customV(1, "k"), customVV(1) {
        memcpy(ca, "guard", 6);
    }
    std::string text() const {
        std::string r = q(s) + q(std::string(cp)) + q(std::string(ca, 6)) + str(b) + str(i) + "/" + str(d) + q(vs);
        for (auto p : vc) { r += q(std::string(p)); }
        for (auto l : vl) { r += str(l) + ","; }
        r += q(vvs) + str(custom) + q(customV) + q(customVV);
        for (auto& v : vvi) {
            r += "[";
            for (int x : v) { r += str(x) + ","; }
            r += "]";
        }
        return r;
    }
};
struct V : blet::Args::IValid {
    bool isValid(Strs& v) {
        for (auto& s : v) {
            if (s == "bad") { return false; }
        }
        return true;
    }
};
static const char* const kShapes[] = {"scalar", "vector", "vector of vectors", "custom scalar", "custom vector", "custom vector of vectors", "other scalar", "other vector"};

static void attach(blet::Args& a, const Spec& s, int shape, int n, Dest& d) {
    blet::args::Argument& g = a.updateArgument(s.names[0]);
    bool list = flatList(s.kind) || grouped(s.kind);
    switch (shape) {
        case 0:
            if (list) { g.dest(d.vs); }
            else if (n % 3 == 0) { g.dest(d.s); }
            else if (n % 3 == 1) { g.dest(d.ca); }
            else { g.dest(d.cp); }
            break;
        case 1: g.dest(d.vs); break;
        case 2: g.dest(d.vvs); break;
        case 3:
            if (list) { g.dest(d.customV, noteV<std::string>); }
            else { g.dest(d.custom, note<int>); }
            break;
        case 4: g.dest(d.customV, noteV<std::string>); break;
        case 5: g.dest(d.customVV, noteVV); break;
        case 6:
            if (list) { g.dest(d.vl); }
            else if (valueless(s.kind)) { g.dest(d.b); }
            else if (n % 2) { g.dest(d.i); }
            else { g.dest(d.d); }
            break;
        default:
            if (valueless(s.kind)) { g.dest(d.b); }
            else if (grouped(s.kind)) { g.dest(d.vvi); }
            else { g.dest(d.vc); }
            break;
    }
}
static bool isCustom(int shape) { return shape >= 3 && shape <= 5; }

static void one(const Cfg& c, Machine& m, const Strs& t, int shape, bool validators, const std::vector<Strs>& earlier = std::vector<Strs>()) {
    C().describe = [&]() { return cppCfg(c) + "every argument has a destination (" + kShapes[shape] + ")" + (validators ? " and a validator refusing 'bad'" : "") + "\n" + cppCase(Case{c, m, earlier, t}).substr(cppCfg(c).size()); };
    Outcome w = m.run(t);
    blet::Args a;
    build(a, c);
    std::vector<Dest> d(c.args.size());
    for (size_t i = 0; i < c.args.size(); ++i) {
        attach(a, c.args[i], shape, (int)i, d[i]);
        if (validators && !valueless(c.args[i].kind)) { a.updateArgument(c.args[i].names[0]).valid(new V()); }
    }
    for (auto& b : earlier) { parseOnly(a, b); }
    for (auto& x : d) { x = Dest(); }
    std::string before = Dest().text();
    g_calls = 0;
    g_log.clear();
    // argv with guard bytes between the strings
    std::vector<char> mem(1, '\x7f');
    std::vector<size_t> at;
    Strs all(1, "path/prog");
    all.insert(all.end(), t.begin(), t.end());
    for (auto& s : all) {
        at.push_back(mem.size());
        mem.insert(mem.end(), s.begin(), s.end());
        mem.push_back(0);
        mem.push_back('\x7f');
    }
    std::vector<char*> argv(1, (char*)&mem);
    for (size_t o : at) { argv.push_back(&mem[o]); }
    argv.push_back(0);
    argv.push_back((char*)&argv);
    std::vector<char> mem0 = mem;
    std::vector<char*> argv0 = argv;
    Outcome o;
    try { a.parseArguments((int)all.size(), &argv[1]); }
    catch (const blet::Args::HelpException&) { o.status = HELP; }
    catch (const blet::Args::VersionException&) { o.status = VERSION; }
    catch (const blet::Args::ParseArgumentRequiredException& e) { o.status = MISSING; o.name = e.argument(); }
    catch (const blet::Args::ParseArgumentValidException& e) { o.status = INVALID; o.name = e.argument(); }
    catch (const blet::Args::ParseArgumentException& e) { o.status = TOKEN_ERROR; o.name = e.argument(); }
    check(mem == mem0, "a byte of an argv string changed");
    check(argv == argv0, "the argv array changed");
    eqs(t, Strs(all.begin() + 1, all.end()), "tokens");
    if (o.status == INVALID) {
        check(validators && w.status == OK, "refused although nothing can be refused");
        for (size_t i = 0; i < c.args.size(); ++i) {
            if (frontName(c.args[i]) == o.name) {
                eqs(d[i].text(), before, "destination of the refused argument");
            }
        }
    }
    else {
        // C01 decides whether this is the right outcome; the relevant one here is the observed one
        if (o.status != OK) {
            for (size_t i = 0; i < d.size(); ++i) { eqs(d[i].text(), before, ("destination of " + c.args[i].names[0] + " after: " + statusName(o.status)).c_str()); }
            if (g_calls) { fail(str(g_calls) + " custom conversions called although the parse failed: " + statusName(o.status)); }
        }
        else if (isCustom(shape)) { eq(g_calls, (uint64_t)c.args.size(), "custom conversions called"); }
        else {
            std::string now;
            for (auto& x : d) { now += x.text(); }
            std::string none;
            for (size_t i = 0; i < d.size(); ++i) { none += before; }
            bool due = false; // a list may be empty
            for (auto& s : c.args) { due = due || scalar(s.kind) || valueless(s.kind); }
            if (due && shape < 3 && now == none) { fail("an accepted command line wrote no destination"); }
        }
    }
    steps(t.size() + 1);
    validated();
    state(canon(w) + str(shape));
    sample();
    C().describe = nullptr;
}

static void sweep(const Case& k) {
    for (int shape = 0; shape < 8; ++shape) { one(k.c, k.m, k.line, shape, shape % 2, k.before); }
}

void explore() {
    std::vector<Kind> kinds = {K_BOOL, K_RBOOL, K_SIMPLE, K_NUMBER, K_INF, K_MULTI, K_MULTINUM, K_EXT, K_EXTNUM, K_POS, K_POSNUM, K_POSINF, K_POSINFNUM};
    // each kind with a required option behind it in listing order, help and version
    for (Kind k : kinds) {
        Cfg c;
        c.args.push_back(kit(k));
        if (!valueless(k) && !isPos(k)) { c.args[0].defaults = someDefaults(c.args[0], 1); }
        c.args.push_back(Spec(S({"-q"}), K_SIMPLE, 1, true));
        c.args.push_back(kit(K_VERSION));
        c.args.push_back(Spec(S({"zlast"}), K_POS, 1));
        Machine m(c);
        std::string f = isPos(k) ? "%" : shortOf(c.args[0]);
        Strs alphabet = {f, "%", "bad", "-q", "-q=%", "-v", "-h", "-?", "--", isPos(k) ? "-q%" : longOf(c.args[0]) + "=bad"};
        for (int shape = 0; shape < 8; ++shape) {
            for (int val = 0; val < 2; ++val) {
                size_t depth = thorough() ? 4 : 3;
                sequences(alphabet, 0, depth, [&](const Strs& t) { one(c, m, t, shape, val); });
            }
        }
    }
    // all kinds together
    Cfg c;
    for (Kind k : kinds) {
        if (!isPos(k)) { c.args.push_back(kit(k)); }
    }
    c.args.push_back(kit(K_VERSION));
    c.args.push_back(Spec(S({"REQ"}), K_POS, 1, true));
    c.args.push_back(kit(K_POSINFNUM));
    Strs alphabet = {"%", "bad", "-b", "-s", "-i", "-x", "-m%", "-n", "--group", "-e=%", "-v", "-h", "-?", "--", "--simple=bad"};
    for (int strict = 0; strict < 2; ++strict) {
        c.strict = strict;
        Machine m(c);
        for (int shape = 0; shape < 8; ++shape) {
            for (int val = 0; val < 2; ++val) { sequences(alphabet, 0, thorough() ? 4 : 3, [&](const Strs& t) { one(c, m, t, shape, val); }); }
        }
    }
    // argv bytes of every kind of token, accepted or not
    Strs pieces = {"-b=", "-sx=y=", "--simple=", "--simple==", "-bsv", "-br", "--bool=1", "-=", "-", "", "--", "a=b", "-xq", "---", "-m=", "-e-b"};
    for (int shape = 0; shape < 8; ++shape) {
        Machine m(c);
        sequences(pieces, 0, thorough() ? 4 : 3, [&](const Strs& t) { one(c, m, t, shape, false); });
    }
    grand(grandLevel(0), sweep);
}
