// C09: help and version outcomes, precedence and the automatic help option.
#include "kit.hpp"
#include "grand.hpp"
using namespace mc;

struct Refuse : public blet::Args::IValid {
    static int calls;
    bool isValid(std::vector<std::string>&) { ++calls; return false; }
};
int Refuse::calls = 0;

struct World {
    Cfg c;
    int validOn; // index of the argument with a refusing validator, -1 none
    const std::string* usage = nullptr; // a usage text of one's own
};

static void make(blet::Args& a, const World& w, bool helpExc, bool verExc) {
    for (size_t i = 0; i < w.c.args.size(); ++i) {
        blet::args::Argument& g = define(a, w.c.args[i]);
        if ((int)i == w.validOn) { g.valid(new Refuse()); }
    }
    if (helpExc) { a.setHelpException(); }
    if (verExc) { a.setVersionException(); }
    if (w.c.alternative) { a.setAlternative(); }
    if (w.c.strict) { a.setStrict(); }
    a.setVersion(w.c.version);
    a.setDescription("the description");
    if (w.usage) { a.setUsage(w.usage->c_str()); }
}

// run the parse in a child that may end in exit(0); returns status and stdout
static int inChild(const World& w, const Strs& t, bool he, bool ve, std::string& out, Outcome& oc) {
    int p[2], r[2];
    if (pipe(p) || pipe(r)) { _exit(98); }
    pid_t pid = fork();
    if (pid == 0) {
        dup2(p[1], 1);
        close(p[0]); close(p[1]); close(r[0]);
        blet::Args* a = new blet::Args();
        make(*a, w, he, ve);
        Outcome o = parseOnly(*a, t);
        std::string s(1, (char)('0' + o.status));
        s += o.name;
        ssize_t n = write(r[1], s.data(), s.size());
        (void)n;
        _exit(77); // the parse came back
    }
    close(p[1]); close(r[1]);
    char buf[4096];
    ssize_t n;
    while ((n = read(p[0], buf, sizeof buf)) > 0) { out.append(buf, n); }
    std::string res;
    while ((n = read(r[0], buf, sizeof buf)) > 0) { res.append(buf, n); }
    close(p[0]); close(r[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    if (!res.empty()) {
        oc.status = res[0] - '0';
        oc.name = res.substr(1);
    }
    return st;
}

static void expectText(const World& w, const Strs& t, int mode, Machine& m) {
    bool he = mode & 1, ve = mode & 2;
    C().describe = [&]() {
        return cppCfg(w.c) + "// help exception " + str(he) + ", version exception " + str(ve) + ", refusing validator on argument " +
               str(w.validOn) + "\n" + cppParse(t);
    };
    Outcome want = m.run(t);
    // a refusing validator
    if (want.status == OK && w.validOn >= 0 && want.args[w.validOn].exist) {
        want = Outcome();
        want.status = INVALID;
        want.name = frontName(w.c.args[w.validOn]);
    }
    bool exits = (want.status == HELP && !he) || (want.status == VERSION && !ve);
    state(canon(want) + str(mode));
    steps(t.size());
    validated();
    std::string usage;
    {
        blet::Args a;
        make(a, w, true, true);
        Outcome o = parseOnly(a, t);
        if (o.status == OK) { readAll(a, w.c, o); }
        usage = a.getUsage();
        // automatic help option
        bool hasHelp = false;
        std::set<std::string> own;
        for (auto& s : w.c.args) {
            hasHelp = hasHelp || s.kind == K_HELP;
            own.insert(s.names.begin(), s.names.end());
        }
        bool both = !hasHelp && own.count("-h") && own.count("--help");
        Refuse::calls = 0;
        if (both && o.status == OK && want.status != OK) {
            bool nothing = o.additional.empty();
            for (auto& g : o.args) { nothing = nothing && !g.exist; }
            if (nothing) {
                fail("nothing was parsed: " + show(want, w.c), "own -h and own --help without a help action: parseArguments does nothing");
                C().describe = nullptr;
                return;
            }
        }
        if (!exits) {
            ++C().comparisons;
            Outcome exc = o;
            std::string d = diff(exc, want, w.c, M_ALL);
            if (!d.empty()) {
                bool nothing = o.status == OK && o.additional.empty();
                for (auto& g : o.args) { nothing = nothing && !g.exist; }
                if (both && nothing) {
                    fail(d, "own -h and own --help without a help action: parseArguments does nothing");
                    C().describe = nullptr;
                    return;
                }
                fail(d);
            }
            if (want.status == HELP) { eqs(o.what, usage, "text of the help exception"); }
            if (want.status == VERSION) { eqs(o.what, w.c.version, "text of the version exception"); }
        }
        for (const char* f : {"-h", "--help"}) {
            bool exists = own.count(f) || !hasHelp;
            eq(a.argumentExists(f), exists, f);
            if (!hasHelp && !own.count(f)) {
                eq((int)a.getArgument(f).getAction(), (int)blet::Args::HELP, "action of the automatic help option");
            }
        }
    }
    if (mode != 3) {
        Outcome o;
        std::string out;
        int st = inChild(w, t, he, ve, out, o);
        if (exits) {
            if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) { fail("exit status is not 0 but " + str(WEXITSTATUS(st)) + " (77: no exit)"); }
            eqs(out, (want.status == HELP ? usage : w.c.version) + "\n", "text on stdout");
        }
        else {
            if (!WIFEXITED(st) || WEXITSTATUS(st) != 77) { fail("the program was ended although neither help nor version is due"); }
            eqs(out, std::string(), "text on stdout");
            eq(std::string(statusName(o.status)), std::string(statusName(want.status)), "outcome");
        }
        bump("forked executions");
    }
    sample();
    C().describe = nullptr;
}

static std::vector<World> worlds() {
    std::vector<std::vector<Spec> > helps = {
        {},
        {Spec(S({"-h", "--help"}), K_HELP)},
        {Spec(S({"-h"}), K_HELP)},
        {Spec(S({"--aide"}), K_HELP)},
        {Spec(S({"-x", "--help"}), K_HELP)},
        {Spec(S({"-h"}), K_BOOL)},
        {Spec(S({"--help"}), K_SIMPLE)},
        {Spec(S({"-h", "--host"}), K_SIMPLE)},
        {Spec(S({"-h"}), K_BOOL), Spec(S({"--help"}), K_MULTI)},
        {Spec(S({"-h"}), K_BOOL), Spec(S({"-x"}), K_HELP)},
    };
    std::vector<std::vector<Spec> > versions = {{}, {Spec(S({"-v", "--version"}), K_VERSION)}, {Spec(S({"-V"}), K_VERSION)}, {Spec(S({"-v"}), K_BOOL)}};
    std::vector<std::vector<Spec> > others;
    others.push_back({Spec(S({"-s"}), K_SIMPLE), Spec(S({"P"}), K_POS)});
    others.push_back({Spec(S({"-s"}), K_SIMPLE, 1, true), Spec(S({"P"}), K_POS, 1, true)});
    others.push_back({Spec(S({"-i"}), K_INF), Spec(S({"-b"}), K_BOOL)});
    others.push_back({});
    std::vector<World> r;
    for (auto& h : helps) {
        for (auto& v : versions) {
            for (size_t o = 0; o < others.size(); ++o) {
                for (int va = 0; va < (o >= 2 ? 1 : 2); ++va) {
                    World w;
                    w.c.args = others[o];
                    w.c.args.insert(w.c.args.end(), h.begin(), h.end());
                    w.c.args.insert(w.c.args.end(), v.begin(), v.end());
                    w.c.strict = o == 1 || (o == 3 && h.size() == 2);
                    w.c.alternative = o == 2;
                    w.validOn = va ? 0 : -1;
                    r.push_back(w);
                }
            }
        }
    }
    return r;
}

// What is shown is the text set, whatever it looks like.
static void oddTexts() {
    static const Strs texts = {"", " ", "\n", "v", "1.2.3\n", "\n1.2.3", "two\nlines", " 1.2 ", "%s %d %n %%", "tab\there", "\xC3\xA9\xFF", "-h", "--version", std::string(300, 'v'), std::string(70000, 'w'), std::string(5000, '\n')};
    for (auto& base : {Spec(S({"-v", "--version"}), K_VERSION), Spec(S({"-V"}), K_VERSION)}) {
        for (auto& text : texts) {
            for (int own = 0; own < 2; ++own) {
                World w;
                w.c.args = {base, Spec(S({"-b"}), K_BOOL)};
                w.c.version = text;
                w.validOn = -1;
                if (own) {
                    if (text.empty()) { continue; } // none of one's own
                    w.usage = &text;
                }
                Machine m(w.c);
                for (int mode = 0; mode < 4; ++mode) {
                    sequences(S({"-v", "-V", "--version", "-h", "--help", "-bv", "-b"}), 0, thorough() ? 3 : 2, [&](const Strs& t) { if (mode == 3 || t.size() < 2 || thorough()) { expectText(w, t, mode, m); } });
                }
            }
        }
    }
}

void explore() {
    oddTexts();
    for (auto& w : worlds()) {
        Machine m(w.c);
        Strs alpha = S({"%", "-h", "--help", "-v", "-u", "--"});
        std::set<std::string> have(alpha.begin(), alpha.end());
        for (auto& s : w.c.args) {
            for (auto& f : s.names) {
                if (f[0] == '-' && have.insert(f).second) { alpha.push_back(f); }
            }
        }
        if (!m.reg.count("--version")) { alpha.push_back("--version"); }
        Strs one = alpha;
        for (const char* x : {"-hv", "-vh", "-bh", "-hb", "-sh", "--help=1", "-h=1", "-xh", "-hh", "-vv", "-hu", "-help", "-version", "-ih", "--version=", "-vVh", "-bvh", "-x1", ""}) {
            one.push_back(x);
        }
        sequences(one, 0, 2, [&](const Strs& t) { expectText(w, t, 3, m); });
        sequences(alpha, 3, thorough() ? 4 : 3, [&](const Strs& t) { expectText(w, t, 3, m); });
        for (int mode = 0; mode < 3; ++mode) {
            sequences(one, 0, 1, [&](const Strs& t) { expectText(w, t, mode, m); });
            if (thorough()) {
                sequences(alpha, 2, 3, [&](const Strs& t) { expectText(w, t, mode, m); });
            }
            else if (w.validOn < 0) {
                sequences(alpha, 2, 2, [&](const Strs& t) { expectText(w, t, mode, m); });
                sequences(S({"-h", "-v", "%"}), 3, 3, [&](const Strs& t) { expectText(w, t, mode, m); });
            }
        }
    }
    grand(grandLevel(), grandCheck);
}
