// C16: the usage text lists every argument once, correctly and in order.
#include "observe.hpp"
#include "usage.hpp"
#include "grand.hpp"
using namespace mc;

static void same(blet::Args& a, const std::vector<Spec>& specs, const std::string& binary, const std::string& desc = "", const std::string& epi = "") {
    Strs want = expectedUsage(specs, binary, desc, epi);
    std::string normal = a.getUsage();
    a.setUsageWidth(2, 1500, 2, 9000);
    std::string wide = a.getUsage();
    a.setUsageWidth(2, 20, 2, 56);
    ++C().comparisons;
    if (linesOf(wide) != want) {
        fail("usage text at a large width\n" + firstDiff(joined(want), joined(linesOf(wide)), "expected", "observed") + "\n--- observed\n" + wide);
    }
    ++C().comparisons;
    if (squeeze(normal) != squeeze(joined(want))) {
        fail("words of the usage text at the default width\n  expected: " + squeeze(joined(want)) + "\n  observed: " + squeeze(normal) + "\n--- observed\n" + normal);
    }
    state(joined(want));
    validated();
}

static std::vector<Spec> pool() {
    std::vector<Spec> p;
    auto add = [&](const Strs& names, Kind k, unsigned n, bool req, const Strs& def, const char* help, const char* mv = "") {
        Spec s(names, k, n, req, def);
        s.help = help;
        s.metavar = mv;
        p.push_back(s);
    };
    add(S({"-b"}), K_BOOL, 0, false, Strs(), "flag b");
    add(S({"--bool"}), K_BOOL, 0, true, Strs(), "flag bool", "IGNORED");
    add(S({"-B"}), K_RBOOL, 0, false, Strs(), "");
    add(S({"--zz", "-z", "--aa"}), K_SIMPLE, 1, false, S({"dz"}), "three flags");
    add(S({"-s"}), K_SIMPLE, 1, true, S({"hidden"}), "required simple");
    add(S({"-a", "--simple"}), K_SIMPLE, 1, false, Strs(), "", "META VAR");
    add(S({"--number", "-n"}), K_NUMBER, 2, false, S({"d1", "d2"}), "two");
    add(S({"-N"}), K_NUMBER, 5, true, Strs(), "five", "FIVE");
    add(S({"-i", "--in-f"}), K_INF, 1, false, S({"x", "y", "z"}), "list");
    add(S({"--inf"}), K_INF, 1, true, Strs(), "list", "L");
    add(S({"-m"}), K_MULTI, 1, false, S({"m1"}), "multi");
    add(S({"--multi2"}), K_MULTINUM, 2, false, S({"a", "b", "c", "d"}), "groups");
    add(S({"-e", "-E", "--ext"}), K_EXT, 1, false, S({"e1", "e2"}), "extend");
    add(S({"--Xtn"}), K_EXTNUM, 3, true, Strs(), "extend groups");
    add(S({"-v", "--version"}), K_VERSION, 0, false, Strs(), "version");
    add(S({"-?", "--usage"}), K_HELP, 0, false, Strs(), "help");
    // first and last flag order these differently
    add(S({"--alpha", "--zulu"}), K_SIMPLE, 1, true, Strs(), "alpha or zulu");
    add(S({"--gamma", "--beta"}), K_BOOL, 0, true, Strs(), "beta or gamma");
    add(S({"-y", "-c"}), K_BOOL, 0, false, Strs(), "c or y");
    add(S({"-x", "-d"}), K_SIMPLE, 1, false, Strs(), "d or x");
    add(S({"one"}), K_POS, 1, false, S({"p"}), "positional");
    add(S({"TWO"}), K_POSNUM, 2, true, Strs(), "positional pair", "IGNORED");
    add(S({"three"}), K_POSINF, 1, false, S({"q", "r"}), "positional list");
    add(S({"FOUR"}), K_POSINFNUM, 2, false, S({"s", "t", "u", "v"}), "");
    add(S({"five"}), K_POS, 1, true, Strs(), "");
    return p;
}
static std::string describeAll(const std::vector<Spec>& v, const std::string& tail) {
    Cfg c;
    c.helpExc = c.verExc = false;
    c.args = v;
    return cppCfg(c) + tail + "args.getUsage();";
}

static void sets() {
    std::vector<Spec> p = pool();
    size_t n = p.size();
    std::vector<std::vector<size_t> > picks(1);
    for (size_t len = 0, from = 0; len < (thorough() ? 4u : 3u); ++len) {
        size_t to = picks.size();
        for (; from < to; ++from) {
            for (size_t i = 0; i < n; ++i) {
                if (std::find(picks[from].begin(), picks[from].end(), i) == picks[from].end()) {
                    std::vector<size_t> x = picks[from];
                    x.push_back(i);
                    picks.push_back(x);
                }
            }
        }
    }
    for (auto& pick : picks) {
        for (int variant = 0; variant < (pick.size() < 3 ? 8 : 2); ++variant) {
            if (!take()) { continue; }
            bool parsed = variant & 1, texts = variant & 2, flip = variant & 4;
            std::vector<Spec> v;
            for (auto i : pick) {
                v.push_back(p[i]);
                if (flip) { v.back().required = !v.back().required; }
            }
            std::string desc = texts ? "the description" : "", epi = texts ? "the epilog" : "", binary = texts ? "/a/b.c/prog-x" : "prog";
            C().describe = [&]() { return describeAll(v, parsed ? "args.parseArguments(1, {" + q(binary) + "}); // exceptions caught\n" : "args.setBinaryName(" + q(binary) + ");\n"); };
            Cfg c;
            c.args = v;
            blet::Args a;
            build(a, c);
            if (texts) {
                a.setDescription(desc.c_str());
                a.setEpilog(epi.c_str());
            }
            if (parsed) { // adds the automatic help option
                char* argv[] = {(char*)binary.c_str(), 0};
                try { a.parseArguments(1, argv); }
                catch (const blet::Args::Exception&) {}
                bool help = false;
                for (auto& s : v) { help = help || s.kind == K_HELP; }
                if (!help) {
                    v.push_back(Spec(S({"-h", "--help"}), K_HELP, 0));
                    v.back().help = "show this help message and exit";
                }
            }
            else { a.setBinaryName(binary.c_str()); }
            same(a, v, binary, desc, epi);
            steps(v.size() + 1);
            sample();
            C().describe = nullptr;
        }
    }
}

// many arguments at once, defined in every rotation and direction
static void many() {
    std::vector<Spec> p = pool();
    for (size_t rot = 0; rot < p.size(); ++rot) {
        for (int rev = 0; rev < 2; ++rev) {
            for (size_t len = 4; len <= p.size(); ++len) {
                if (!take()) { continue; }
                std::vector<Spec> v;
                for (size_t i = 0; i < len; ++i) { v.push_back(p[(rot + (rev ? len - 1 - i : i)) % p.size()]); }
                C().describe = [&]() { return describeAll(v, ""); };
                Cfg c;
                c.args = v;
                blet::Args a;
                build(a, c);
                a.setBinaryName("x");
                same(a, v, "x");
                steps(len);
                C().describe = nullptr;
            }
        }
    }
    for (unsigned n = 1; n <= 60; ++n) { // flags in all numbers, names of all lengths, arities
        for (int kind = 0; kind < 4; ++kind) {
            if (kind >= 2 && n == '+') { continue; } // 43 means "any number"
            if (!take()) { continue; }
            std::vector<Spec> v;
            Spec s;
            s.help = "text";
            if (kind == 0) {
                for (unsigned i = 0; i < n; ++i) { s.names.push_back(i % 2 ? std::string("-") + (char)('A' + i % 58) : "--flag" + str((i * 7) % 60)); }
                std::set<std::string> u(s.names.begin(), s.names.end());
                s.names.assign(u.begin(), u.end());
                s.kind = K_SIMPLE;
            }
            else if (kind == 1) { s = Spec(Strs(1, "--" + std::string(n, 'n')), K_SIMPLE, 1, false, Strs(1, std::string(n, 'd'))); }
            else if (kind == 2) { s = Spec(S({"-n"}), n == 1 ? K_SIMPLE : K_NUMBER, n); }
            else { s = Spec(S({"pos"}), n == 1 ? K_POS : K_POSNUM, n); }
            v.push_back(s);
            C().describe = [&]() { return describeAll(v, ""); };
            Cfg c;
            c.args = v;
            blet::Args a;
            build(a, c);
            same(a, v, "");
            steps(n);
            C().describe = nullptr;
        }
    }
}

struct Edit {
    const char* text;
    std::function<void(blet::Args&)> real;
    std::function<void(std::vector<Spec>&)> model;
};
static void edits() {
    std::vector<Spec> base;
    {
        Spec s(S({"-s", "--simple"}), K_SIMPLE, 1, false, S({"d"}));
        s.help = "simple help";
        Spec t(S({"--tt"}), K_SIMPLE, 1);
        t.help = "tt help";
        Spec u(S({"P"}), K_POS, 1);
        u.help = "P help";
        Spec w(S({"Q"}), K_POS, 1, true);
        base = {s, t, u, w};
    }
    auto at = [](std::vector<Spec>& v, const char* n) -> Spec* {
        for (auto& s : v) {
            if (std::find(s.names.begin(), s.names.end(), n) != s.names.end()) { return &s; }
        }
        return 0;
    };
    typedef std::vector<Spec> V;
    auto on = [at](const char* n, std::function<void(Spec&)> f) {
        return [=](V& v) {
            if (Spec* s = at(v, n)) { f(*s); }
        };
    };
    auto upd = [](const char* n, std::function<void(blet::args::Argument&)> f) {
        return [=](blet::Args& a) {
            if (a.argumentExists(n)) { f(a.updateArgument(n)); }
        };
    };
    typedef blet::args::Argument G;
    static std::string keep;
    static std::vector<std::string> keepList;
    std::vector<Edit> es = {
        {"--simple required", upd("--simple", [](G& g) { g.required(); }), on("--simple", [](Spec& s) { s.required = true; })},
        {"--simple not required", upd("--simple", [](G& g) { g.required(false); }), on("--simple", [](Spec& s) { s.required = false; })},
        {"P required", upd("P", [](G& g) { g.required(); }), on("P", [](Spec& s) { s.required = true; })},
        {"Q not required", upd("Q", [](G& g) { g.required(false); }), on("Q", [](Spec& s) { s.required = false; })},
        {"--tt gets the flag -t", upd("--tt", [](G& g) { try { g.flag("-t"); } catch (const blet::Args::Exception&) {} }), [at](V& v) { Spec* s = at(v, "--tt"); if (s && !at(v, "-t")) { s->names.push_back("-t"); } }},
        {"-s removed", [](blet::Args& a) { if (a.argumentExists("-s")) { a.removeArguments("-s"); } },
         [at](V& v) { Spec* s = at(v, "-s"); if (!s) { return; } s->names.erase(std::find(s->names.begin(), s->names.end(), "-s")); if (s->names.empty()) { v.erase(v.begin() + (s - &v[0])); } }},
        {"--simple removed", [](blet::Args& a) { if (a.argumentExists("--simple")) { a.removeArguments("--simple"); } },
         [at](V& v) { Spec* s = at(v, "--simple"); if (!s) { return; } s->names.erase(std::find(s->names.begin(), s->names.end(), "--simple")); if (s->names.empty()) { v.erase(v.begin() + (s - &v[0])); } }},
        {"P removed", [](blet::Args& a) { if (a.argumentExists("P")) { a.removeArguments("P"); } }, [at](V& v) { if (Spec* s = at(v, "P")) { v.erase(v.begin() + (s - &v[0])); } }},
        {"-a added", [](blet::Args& a) { if (!a.argumentExists("-a")) { a.addArgument("-a").action(blet::Args::STORE_TRUE).help("added"); } },
         [at](V& v) { if (!at(v, "-a")) { v.push_back(Spec(S({"-a"}), K_BOOL, 0)); v.back().help = "added"; } }},
        {"P added again", [](blet::Args& a) { if (!a.argumentExists("P")) { a.addArgument("P").help("again").required(); } },
         [at](V& v) { if (!at(v, "P")) { v.push_back(Spec(S({"P"}), K_POS, 1, true)); v.back().help = "again"; } }},
        {"--tt action APPEND, nargs 2, defaults", upd("--tt", [](G& g) { g.action(blet::Args::APPEND).nargs(2).defaults(vec(S({"1", "2"}))); }), on("--tt", [](Spec& s) { s.kind = K_MULTINUM; s.n = 2; s.defaults = S({"1", "2"}); })},
        {"--tt back to a simple option", upd("--tt", [](G& g) { g.defaults(blet::args::Vector()).action(blet::Args::NONE).nargs(1); }), on("--tt", [](Spec& s) { s.kind = K_SIMPLE; s.n = 1; s.defaults.clear(); })},
        {"--tt action INFINITE", upd("--tt", [](G& g) { g.defaults(blet::args::Vector()).action(blet::Args::INFINITE); }), on("--tt", [](Spec& s) { s.kind = K_INF; s.n = 1; s.defaults.clear(); })},
        {"--simple metavar MV", upd("--simple", [](G& g) { g.metavar("MV"); }), on("--simple", [](Spec& s) { s.metavar = "MV"; })},
        {"--simple no metavar, new help", upd("--simple", [](G& g) { g.metavar("").help("new help"); }), on("--simple", [](Spec& s) { s.metavar = ""; s.help = "new help"; })},
        {"--simple defaults e", upd("--simple", [](G& g) { g.defaults("e"); }), on("--simple", [](Spec& s) { s.defaults = S({"e"}); })},
        {"--simple no defaults", upd("--simple", [](G& g) { g.defaults(blet::args::Vector()); }), on("--simple", [](Spec& s) { s.defaults.clear(); })},
        {"--simple gets a destination", upd("--simple", [](G& g) { g.dest(keep); }), [](V&) {}},
        {"P gets a destination", upd("P", [](G& g) { g.dest(keep); }), [](V&) {}},
        {"a parse with values", [](blet::Args& a) { if (a.argumentExists("-h")) { parseOnly(a, S({"x", "y", "--simple=z"})); } else { parseOnly(a, S({"x", "y", "--simple=z"})); } },
         [at](V& v) { if (!at(v, "-h")) { v.push_back(Spec(S({"-h", "--help"}), K_HELP, 0)); v.back().help = "show this help message and exit"; } }},
    };
    uint64_t n = es.size();
    for (int depth = 1; depth <= (thorough() ? 5 : 4); ++depth) {
        uint64_t total = 1;
        for (int i = 0; i < depth; ++i) { total *= n; }
        if (skipBlock(total)) { continue; }
        for (uint64_t x = 0; x < total; ++x) {
            if (!take()) { continue; }
            std::vector<const Edit*> h(depth);
            uint64_t y = x;
            for (int i = depth; i-- > 0; y /= n) { h[i] = &es[y % n]; }
            C().describe = [&]() {
                std::string r = describeAll(base, "");
                for (auto e : h) { r += "\n// " + std::string(e->text); }
                return r;
            };
            Cfg c;
            c.args = base;
            V v = base;
            blet::Args a;
            build(a, c);
            a.setBinaryName("bin");
            for (auto e : h) {
                e->real(a);
                e->model(v);
            }
            same(a, v, "bin");
            steps(depth);
            C().describe = nullptr;
        }
    }
}

static void binaries() {
    for (auto b : {"prog", "/usr/bin/prog", "./prog", "a/b/", "/", "", "prog.x y", "\\win\\prog", "..", "../x/..", "a//b"}) {
        for (auto set : {(const char*)0, "mine", "/x/mine", ""}) {
            for (int given = 0; given < 3; ++given) {
                if (!take()) { continue; }
                C().describe = [&]() { return std::string("setBinaryName(") + (set ? q(std::string(set)) : "") + "), argv[0] = " + q(std::string(b)) + " parsed " + str(given) + " times"; };
                blet::Args a;
                a.addArgument("-h").action(blet::Args::HELP);
                if (set) { a.setBinaryName(set); }
                for (int i = 0; i < given; ++i) {
                    std::string x = i == 0 ? b : "second";
                    char* argv[] = {(char*)x.c_str(), 0};
                    a.parseArguments(1, argv);
                }
                std::string want = set && *set ? set : given ? b : "";
                if (want.empty() && given == 2) { want = "second"; }
                eqs(a.getBinaryName(), want, "getBinaryName()");
                std::vector<Spec> v;
                v.push_back(Spec(S({"-h"}), K_HELP, 0));
                same(a, v, want);
                // a usage text set by hand replaces the generated one, verbatim
                std::string gen = a.getUsage();
                a.setUsage("my  usage\n");
                eqs(a.getUsage(), std::string("my  usage\n"), "usage set by setUsage()");
                a.setUsage("");
                eqs(a.getUsage(), gen, "usage after setUsage(\"\")");
                steps(given + 1);
                C().describe = nullptr;
            }
        }
    }
}

// names of every shape beside each other, all subsets of a set of flags, and
// default lists of every length
static void shown(const std::vector<Spec>& v) {
    C().describe = [&]() { return describeAll(v, ""); };
    Cfg c;
    c.args = v;
    blet::Args a;
    build(a, c);
    a.setBinaryName("x");
    same(a, v, "x");
    steps(v.size());
    C().describe = nullptr;
}
static void naming() {
    std::vector<Strs> lists;
    for (auto& l : grandNameLists(1)) {
        if (l[0].size() < 300) { lists.push_back(l); }
    }
    for (auto f : {"--log_level", "--log_file", "--log-level", "--log-file", "--log", "--log2", "--log10", "--logs", "--Log", "--alpha", "--alphA", "--z", "-Z", "-a", "--a b"}) { lists.push_back(S({f})); }
    size_t n = lists.size();
    for (size_t len = 2; len <= 3; ++len) {
        uint64_t total = len == 2 ? n * n * 4 : n * n * n;
        if (skipBlock(total)) { continue; }
        for (uint64_t x = 0; x < total; ++x) {
            std::vector<size_t> pick;
            uint64_t y = x;
            unsigned mask = len == 2 ? y % 4 : (y / n + y) % 8;
            if (len == 2) { y /= 4; }
            for (size_t i = 0; i < len; ++i, y /= n) { pick.push_back(y % n); }
            bool clash = len == 3 && !thorough() && (pick[0] + pick[1] + pick[2]) % 4 != 0;
            std::set<std::string> seen;
            for (auto i : pick) {
                for (auto& f : lists[i]) { clash = !seen.insert(f).second || clash; }
            }
            if (!take() || clash) { continue; }
            std::vector<Spec> v;
            for (size_t i = 0; i < len; ++i) { v.push_back(Spec(lists[pick[i]], i == 1 ? K_BOOL : K_SIMPLE, i == 1 ? 0 : 1, mask >> i & 1)); }
            shown(v);
        }
    }
    Strs flags = S({"-o", "--bbbb", "--aa", "-O", "--c", "--b", "--bb", "--a-b", "--a_b", "--longest-of-all"});
    for (unsigned mask = 1; mask < 1u << flags.size(); ++mask) {
        for (int how = 0; how < 6; ++how) {
            if (!take()) { continue; }
            Strs names;
            for (size_t i = 0; i < flags.size(); ++i) {
                if (mask >> i & 1) { names.push_back(flags[i]); }
            }
            if (how & 1) { std::reverse(names.begin(), names.end()); }
            std::vector<Spec> v(1, Spec(names, how < 2 ? K_SIMPLE : how < 4 ? K_NUMBER : K_EXT, how < 2 || how > 3 ? 1 : 3));
            v.push_back(Spec(S({"--before"}), K_INF, 1));
            shown(v);
        }
    }
    // flags of one argument, and arguments, that share a long beginning
    for (size_t len = 1; len <= 40; ++len) {
        std::string head = "--" + std::string(len, 'm');
        for (size_t mid = 0; mid <= 2; ++mid) {
            if (mid == 1) { head[2 + len / 2] = '-'; }
            if (mid == 2) { head[1 + len] = '_'; }
            for (auto& tails : std::vector<Strs>{S({"a-long-one", "b"}), S({"-a-long-one", "-b"}), S({"", "a", "-"}), S({"zzz", "zz", "z", "a"}), S({"A", "a", "_", "-", "0"}), S({"10", "9", "09", "2"}), S({"bb", "b-", "ba-long", "b"})}) {
                for (int how = 0; how < 3; ++how) {
                    if (!take()) { continue; }
                    Strs names;
                    for (auto& t : tails) { names.push_back(head + t); }
                    if (how == 1) { std::reverse(names.begin(), names.end()); }
                    std::vector<Spec> v;
                    if (how < 2) { v.push_back(Spec(names, K_SIMPLE)); }
                    else {
                        for (auto& f : names) { v.push_back(Spec(Strs(1, f), v.size() % 2 ? K_SIMPLE : K_BOOL, v.size() % 2)); }
                    }
                    shown(v);
                }
            }
        }
    }
    for (Kind k : {K_SIMPLE, K_NUMBER, K_INF, K_MULTI, K_MULTINUM, K_EXT, K_EXTNUM, K_POS, K_POSNUM, K_POSINF, K_POSINFNUM}) {
        for (unsigned m = 1; m <= 40; ++m) {
            for (unsigned uses = 0; uses <= 20; ++uses) {
                Spec s = kit(k);
                bool number = k == K_NUMBER || k == K_POSNUM;
                if (number || grouped(k)) { s.n = m + 1; }
                else if (m > 1) { continue; }
                if ((scalar(k) || number) && uses > 1) { continue; }
                if (!take()) { continue; }
                s.defaults = uses ? someDefaults(s, uses) : Strs();
                s.help = "h";
                std::vector<Spec> v(1, s);
                shown(v);
            }
        }
    }
}

// default texts of every shape, in every kind of argument that shows them
static void defaultTexts() {
    Strs odd = S({"0", "1", "00", "-1", "+1", "0.0", "1e5", "0x10", "nan", "inf", "false", "true", "no", "none", "null", "NULL", "(null)", "nullptr", "-", "--", "-x", "--zz", "=", "a=b", ",", ", ", "(", ")", "()", "(a)", "((",
                  ".", "...", "[", "]", "{}", "\"", "'", "%", "%s", "%d", "%%", "$HOME", "~", "*", "?", "/", "/tmp/a", "a/b", "\\", "\\n", "#", "@", "default", "required", "(required)", "default: x", "a", "A", "two words", "\xC3\xA9", "\xFF", "\x01", "\x1b[1m", "\t"});
    for (Kind k : {K_SIMPLE, K_NUMBER, K_INF, K_MULTI, K_MULTINUM, K_EXT, K_EXTNUM, K_POS, K_POSNUM, K_POSINF, K_POSINFNUM}) {
        for (auto& t : odd) {
            for (size_t at = 0; at < 3; ++at) {
                for (int look = 0; look < 6; ++look) {
                    Spec s = kit(k);
                    s.defaults = scalar(k) ? Strs(1, "d") : someDefaults(s, 2);
                    if (at >= s.defaults.size()) { continue; }
                    if (!take()) { continue; }
                    if (look % 3 == 2) { s.defaults.assign(s.defaults.size(), t); }
                    else { s.defaults[at == 2 ? s.defaults.size() - 1 : at] = t; }
                    s.help = look % 3 ? "help" : "";
                    s.required = look == 5;
                    std::vector<Spec> v(1, s);
                    if (look > 2) {
                        Spec o(S({"--other"}), K_SIMPLE, 1, look == 4, Strs(1, t));
                        o.metavar = t;
                        o.help = t == "\t" ? "" : t;
                        v.insert(v.begin() + look % 2, o);
                    }
                    shown(v);
                }
            }
        }
    }
}

void explore() {
    defaultTexts();
    naming();
    binaries();
    many();
    edits();
    sets();
}
