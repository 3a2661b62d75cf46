// C30: the library behaves the same in every language standard it is built in.
// Ten builds of it live in one process; every program is executed by each and
// the complete transcripts are compared.
#include "world.hpp"
#include "grand.hpp"
using namespace mc;

#define WORLDS(X) X(gcc11) X(gcc98) X(gcc14) X(gcc17) X(gcc20) X(gcc23) X(gccO3) X(clang98) X(clang11) X(clang20)
#define DECLARE(w) std::string run_##w(const WProg&) __attribute__((weak));
WORLDS(DECLARE)
struct Build {
    const char* name;
    World run;
};
static std::vector<Build> worlds() {
    std::vector<Build> r;
#define LIST(w) if (run_##w) { r.push_back({#w, run_##w}); }
    WORLDS(LIST)
    return r;
}
static const std::vector<Build>& all() {
    static const std::vector<Build> v = worlds();
    return v;
}

static std::string text(const WProg& p) {
    std::string r;
    for (auto& d : p.defs) {
        r += "argument " + q(d.names) + " " + kindName((Kind)d.kind) + " " + str(d.n) + (d.required ? " required" : "");
        if (!d.defaults.empty()) { r += " defaults " + q(d.defaults); }
        if (!d.help.empty()) { r += " help " + q(d.help); }
        if (!d.metavar.empty()) { r += " metavar " + q(d.metavar); }
        r += " dest " + str(d.dest) + " valid " + str(d.valid) + "\n";
    }
    r += std::string(p.alternative ? "alternative " : "") + (p.strict ? "strict " : "") + "lists in form " + str(p.form) + " then " + str(p.then) + "\n";
    if (p.layout) { r += "setUsageWidth " + str(p.width[0]) + " " + str(p.width[1]) + " " + str(p.width[2]) + " " + str(p.width[3]) + "\n"; }
    if (!p.description.empty()) { r += "description " + q(p.description) + " epilog " + q(p.epilog) + "\n"; }
    for (auto& l : p.lines) { r += "parse " + q(l) + "\n"; }
    return r;
}
static void compare(const WProg& p, bool standards = false) {
    C().describe = [&]() { return text(p); };
    std::string want;
    for (auto& w : all()) {
        if (standards && !thorough() && (w.name[0] != 'g' || w.name[3] == 'O')) { continue; } // one compiler, every standard
        std::string got = w.run(p);
        if (want.empty()) { want = got; }
        ++C().comparisons;
        if (got != want) { fail(std::string("the builds ") + all()[0].name + " and " + w.name + " differ\n" + firstDiff(want, got, all()[0].name, w.name)); }
    }
    steps(all().size() * (p.lines.size() + p.defs.size()));
    validated(all().size());
    state(want);
    sample();
    C().describe = nullptr;
}
static WProg blank() {
    WProg p;
    p.alternative = p.strict = p.layout = false;
    p.form = p.then = 0;
    for (int& w : p.width) { w = 0; }
    return p;
}
static WDef def(const Spec& s, int dest = 0, int valid = 0) {
    WDef d;
    d.names = s.names;
    d.kind = s.kind;
    d.n = s.n;
    d.required = s.required;
    d.defaults = s.defaults;
    d.help = s.help;
    d.metavar = s.metavar;
    d.dest = dest;
    d.valid = valid;
    return d;
}
// destinations that make sense for a kind
static std::vector<int> dests(Kind k) {
    std::vector<int> r = {0};
    if (valueless(k) || scalar(k)) {
        for (int i = 1; i <= 17; ++i) { r.push_back(i); }
        if (valueless(k)) { return r; }
    }
    if (!grouped(k)) {
        for (int i = 18; i <= 23; ++i) { r.push_back(i); }
    }
    else {
        r.push_back(18);
        r.push_back(23);
        for (int i = 24; i <= 27; ++i) { r.push_back(i); }
    }
    return r;
}

// the common sweep in every build
static void sweep(const Case& k) {
    WProg p = blank();
    uint64_t h = fnv(cppParse(k.line));
    for (auto& s : k.c.args) {
        std::vector<int> ds = dests(s.kind);
        bool words = false; // only destinations for texts here
        int d = ds[h % ds.size()];
        words = d == 0 || d == 1 || (d >= 13 && d <= 18) || d == 21 || d == 23 || d == 24 || d == 27;
        p.defs.push_back(def(s, words ? d : 0, valueless(s.kind) ? 0 : h % 3 == 0 ? 6 : 0));
        h = h * 31 + 7;
    }
    p.alternative = k.c.alternative;
    p.strict = k.c.strict;
    p.form = (int)(h % 4);
    p.then = (int)(h / 4 % 3);
    p.lines = k.before;
    p.lines.push_back(k.line);
    compare(p, true);
}

// values of every kind into every destination, through every validator
static void values() {
    // whole numbers fit every type; fractions are small and positive, so that
    // every conversion is defined
    const Strs texts = S({"", "0", "1", "7", "42", "127", "1.5", "2.5e1", "1e2", ".5", "5.", "+3", "0x10", "010", " 9", "9 ", "1e", "1e+", "1 2", "v0", "p1", "-", "3-4", "inf", "nan", "true", "/", "/dev/null", "a text longer than sixteen bytes", "\xC3\xA9", "0.1", "12345678901", "9007199254740993", "1e400", "1e-320"});
    std::vector<Kind> ks = optionKinds();
    for (Kind k : posKinds()) { ks.push_back(k); }
    for (Kind k : ks) {
        for (int d : dests(k)) {
            for (int v = 0; v < WVALIDS; ++v) {
                if (valueless(k) && v) { continue; }
                for (int variant = 0; variant < 2; ++variant) {
                    if (k == K_HELP || k == K_VERSION) { continue; }
                    for (size_t t = 0; t < texts.size(); ++t) {
                        if (!take()) { continue; }
                        const std::string& x = texts[t];
                        const bool wide = x == "inf" || x == "nan" || x.size() == 11 || x.size() == 16 || x == "1e400";
                        // out of range for the type: what a conversion gives is not defined
                        if (wide) {
                            if (d && d != 1 && !(d >= 11 && d <= 18) && d != 20 && d != 21 && d != 23 && d != 24 && d < 26) { continue; }
                        }
                        const std::string& y = wide ? x : texts[(t * 7 + 3) % 20];
                        WProg p = blank();
                        Spec s = kit(k, variant == 1);
                        if (variant == 0 && !valueless(k)) { s.defaults = someDefaults(s, 2); }
                        p.defs.push_back(def(s, d, v));
                        p.defs.push_back(def(Spec(S({"-z"}), K_BOOL)));
                        size_t n = valueless(k) ? 0 : k == K_NUMBER || k == K_POSNUM || grouped(k) ? s.n : 1;
                        Strs l;
                        bool pos = isPos(k);
                        if (pos) { l.push_back("--"); }
                        for (int use = 0; use < 2; ++use) {
                            if (!pos) { l.push_back(s.names[0]); }
                            for (size_t i = 0; i < n; ++i) { l.push_back(i % 2 == (size_t)use ? x : y); }
                            if (pos && k != K_POSINF && k != K_POSINFNUM) { break; }
                        }
                        p.lines = {l, {}, {"-z"}};
                        p.lines.push_back(pos ? Strs(1, x) : Strs(1, s.names[0] + (t % 2 ? "=" : "") + x));
                        p.form = (int)(t % 4);
                        compare(p);
                    }
                }
            }
        }
    }
}
// layouts
static void usages() {
    const Strs texts = {"", "word", "two words", "a line\nand another one", "  blanks  inside ", std::string(55, 'a') + " b", std::string(56, 'a') + " b", std::string(57, 'a') + " b c", std::string(30, 'a') + " " + std::string(26, 'b') + " c"};
    const std::vector<int> widths = {0, 1, 5, 20, 56};
    for (auto& t : texts) {
        for (int w0 : {0, 2}) {
            for (int w1 : widths) {
                for (int w2 : {0, 3}) {
                    for (int w3 : widths) {
                        for (int v = 0; v < 2; ++v) {
                            if (!take()) { continue; }
                            WProg p = blank();
                            for (Kind k : optionKinds()) {
                                Spec s = kit(k, v);
                                s.help = t;
                                if (k == K_MULTI || k == K_EXTNUM) { s.metavar = t; }
                                p.defs.push_back(def(s));
                            }
                            for (Kind k : {K_POS, K_POSNUM, K_POSINF}) {
                                Spec s = kit(k, v);
                                s.help = t;
                                p.defs.push_back(def(s));
                            }
                            p.description = t;
                            p.epilog = t + "\nend";
                            p.layout = w0 || w1 != 20 || w2 || w3 != 56;
                            p.width[0] = w0;
                            p.width[1] = w1;
                            p.width[2] = w2;
                            p.width[3] = w3;
                            p.form = v ? 3 : 1;
                            p.then = v + 1;
                            p.lines = {S({"-h"}), S({"p", "-v"})};
                            compare(p);
                        }
                    }
                }
            }
        }
    }
}
// lists of every length in every form, refused definitions included
static void forms() {
    for (size_t n = 1; n <= 12; ++n) {
        for (int form = 0; form < 4; ++form) {
            for (int bad = 0; bad < 8; ++bad) {
                for (int kind : {(int)K_NUMBER, (int)K_EXTNUM, (int)K_EXT, (int)K_POSNUM, (int)K_INF, (int)K_BOOL}) {
                    if (!take()) { continue; }
                    WProg p = blank();
                    p.form = form;
                    WDef d = def(Spec(Strs(), (Kind)kind, (unsigned)n));
                    for (size_t i = 0; i < n; ++i) {
                        d.names.push_back(i % 3 ? std::string("--n") + str(n - i) : std::string("-") + (char)('z' - i));
                        if (kind != K_BOOL) { d.defaults.push_back("default " + str(i)); }
                    }
                    if (kind == K_POSNUM) { d.names = Strs(1, "POS"); }
                    if (bad == 1) { d.names.back() = ""; }
                    if (bad == 2) { d.names.push_back("--x=y"); }
                    if (bad == 3) { d.defaults.push_back("one more"); }
                    if (bad == 4) { d.names.push_back("-ab"); }
                    if (bad == 5) { d.required = true; }
                    p.defs.push_back(d);
                    if (bad == 6) { p.defs.push_back(d); }
                    if (bad == 7) { p.defs.push_back(def(Spec(S({"-h", "--hh"}), K_HELP))); }
                    p.defs.push_back(def(Spec(S({"-Z", "--zz"}), K_SIMPLE), 13));
                    Strs l(1, kind == K_POSNUM ? "v" : d.names[0]);
                    for (size_t i = 0; i < n; ++i) { l.push_back("v" + str(i)); }
                    p.lines = {S({}), l, S({"-Z", "1"}), S({"--hh"})};
                    p.then = (int)(n + form) % 3;
                    if (std::find(d.names.begin(), d.names.end(), "") != d.names.end() && form == 3) { continue; }
                    compare(p);
                }
            }
        }
    }
}

void explore() {
    if (all().empty() || std::string(all()[0].name) != "gcc11") {
        fail("the reference build is missing");
        return;
    }
    values();
    usages();
    forms();
    grand(thorough() ? 1 : 0, sweep, thorough() ? G_ALL : G_STRUCT | G_HISTORY);
}
