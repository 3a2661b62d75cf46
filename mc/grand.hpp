// The common sweep: one finite space of definition sets, histories and command
// lines that every parsing property is decided on.  A property supplies the
// visitor, which executes one case and checks it in its own way.
#ifndef MC_GRAND_HPP
#define MC_GRAND_HPP
#include "observe.hpp"
#include "readers.hpp"

namespace mc {

struct Case {
    const Cfg& c;
    Machine& m;
    const std::vector<Strs>& before; // command lines parsed earlier on the same object
    const Strs& line;
};
typedef std::function<void(const Case&)> Visit;
enum Part { G_STRUCT = 1, G_ZOO = 2, G_HISTORY = 4, G_SCALE = 8, G_PAIRS = 16, G_CROWD = 32, G_NAMES = 64, G_SAME = 128, G_BYTES = 256, G_ALL = 511 };

inline std::string cppCase(const Case& k) {
    std::string r = cppCfg(k.c);
    for (auto& b : k.before) { r += cppParse(b) + " // any outcome\n"; }
    return r + cppParse(k.line);
}

// ------------------------------------------------------------- the sets
inline Spec named(Kind k, const Strs& names, bool required = false, const Strs& def = Strs()) {
    Spec s = kit(k, required, def);
    s.names = names;
    return s;
}
inline std::vector<Kind> everyOption() {
    std::vector<Kind> v = optionKinds();
    v.push_back(K_HELP);
    return v;
}
// one option under test (-k, --kind, --other), a flag, and positionals
inline Cfg grandCfg(Kind k, const std::vector<Kind>& pl, int alt, int strict, int variant) {
    Cfg c;
    Spec x = named(k, S({"--kind", "-k", "--other"}), variant == 2);
    if (variant == 1) { x.defaults = someDefaults(x, 2); }
    c.args.push_back(x);
    c.args.push_back(k == K_BOOL ? named(K_RBOOL, S({"-b", "--bool"})) : named(K_BOOL, S({"-b", "--bool"})));
    for (size_t i = 0; i < pl.size(); ++i) {
        Spec p = kit(pl[i]);
        if (variant == 2 && i == 0) { p.required = true; }
        if (variant == 1) { p.defaults = someDefaults(p, 2); }
        c.args.push_back(p);
    }
    c.alternative = alt;
    c.strict = strict;
    return c;
}
inline Strs grandTokens() {
    return S({"%", "-k", "--kind", "-b", "--", "--kind=%", "-k%", "-u", "-bk", "--bool", "-kind", "%=%", "-k=%", "", "-", "--other", "---", "--=", "-=", "=", "--unknown=%", "-k=", "--kind=", "--kin", "-kind=%",
              "-kb", "-bu", "-b=%", "-h", "--help", "-1", "-other", "--k"});
}

// a few whole command lines of every outcome class
inline std::vector<Strs> grandLines(const Cfg& c, bool few) {
    const Spec& x = c.args[0];
    size_t n = valueless(x.kind) ? 0 : x.kind == K_NUMBER || grouped(x.kind) ? x.n : 1;
    std::vector<Strs> r = {{}, {"p1"}, {"-u"}, {"-h"}, {"-b", "a", "b", "c", "d"}};
    Strs once(1, "-k"), twice(1, "--kind"), glued;
    for (size_t i = 0; i < n; ++i) { once.push_back("v" + str(i)); }
    for (size_t i = 0; i < n; ++i) { twice.push_back("w" + str(i)); }
    r.push_back(once);
    Strs both = once;
    both.insert(both.end(), twice.begin(), twice.end());
    both.push_back("-b");
    r.push_back(both);
    Strs short1 = once;
    short1.pop_back();
    r.push_back(short1); // too few values, or nothing
    if (n == 1 || valueless(x.kind)) { r.push_back({valueless(x.kind) ? "-kb" : "-kglued", "tail"}); }
    Strs behind = once;
    behind.push_back("--");
    behind.push_back("-k");
    behind.push_back("z");
    r.push_back(behind);
    if (!few) {
        Strs wide = once;
        for (int i = 0; i < 4; ++i) { wide.push_back("x" + str(i)); }
        r.push_back(wide);
        Strs bad = once;
        bad.push_back("-u");
        r.push_back(bad);
        Strs three = both;
        three.insert(three.end(), once.begin(), once.end());
        r.push_back(three);
        r.push_back({"a", "b"});
    }
    return r;
}
inline std::vector<std::vector<Kind> > grandPositionals() {
    return {{}, {K_POS}, {K_POSINF}, {K_POSNUM, K_POS}, {K_POSINFNUM}};
}
inline const Strs& zooTexts() {
    static const Strs z = S({"v", "", " ", "-", "a=b", "=", "==", "a=b=c", "=a", "a=", "-1", "-5.5", "+3", "0", "00", "1e3", "1.", ".5", "0x10", "--x", "-x", "---", "-=", "--=", "--=v", "-b", "--bool", "--kind", "-k",
                             "-kv", "--kind=v", "-b=1", "--bool=1", "a b", " lead", "trail ", "a\tb", "a\nb", "\xC3\xA9", "\xFF", "a,b", "(a)", "a, b", "true", "false", "NaN", "%d%s", "\\", "\"", "'", "--help", "-h",
                             "POS", "kind", "b", "k", "--b", "-bool"});
    return z;
}

inline void grandStruct(int level, const Visit& visit) {
    Strs full = grandTokens(), core(full.begin(), full.begin() + 11);
    if (level == 0) { full.resize(17); }
    const std::vector<Strs> none;
    for (Kind k : everyOption()) {
        for (auto& pl : grandPositionals()) {
            for (int alt = 0; alt < 2; ++alt) {
                for (int variant = 0; variant < (level ? 3 : 1); ++variant) {
                    for (int strict = 0; strict < (level ? 2 : 1); ++strict) {
                        Cfg c = grandCfg(k, pl, alt, strict, variant);
                        Machine m(c);
                        sequences(full, 0, 2, [&](const Strs& t) { visit(Case{c, m, none, t}); });
                        if (variant == 0 && strict == 0 && (pl.size() != 2 || level > 1)) {
                            sequences(core, 3, level == 0 ? 3 : pl.empty() || level > 1 ? 4 : 3, [&](const Strs& t) { visit(Case{c, m, none, t}); });
                        }
                        if (level > 1) { sequences(full, 3, 3, [&](const Strs& t) { visit(Case{c, m, none, t}); }); }
                    }
                }
            }
        }
    }
}

// every text as a value, given in every way, before every other text
inline void grandZoo(int level, const Visit& visit) {
    const Strs& z = zooTexts();
    const std::vector<Strs> none;
    for (Kind k : everyOption()) {
        for (int alt = 0; alt < 2; ++alt) {
            for (auto& pl : grandPositionals()) {
                if (pl.size() > 1 || (level == 0 && !pl.empty())) { continue; }
                Cfg c = grandCfg(k, pl, alt, 0, 0);
                Machine m(c);
                for (auto& x : z) {
                    for (int how = 0; how < 9; ++how) {
                        if (alt && how != 3 && how != 4 && how != 0) { continue; }
                        for (size_t y = 0; y <= z.size(); ++y) {
                            if (level == 0 && y % 19 && y != z.size()) { continue; }
                            if (level == 1 && y % 4 && y != z.size()) { continue; }
                            if (!take()) { continue; }
                            Strs t;
                            if (how == 0) { t = {"-k", x}; }
                            if (how == 1) { t = {"--kind=" + x}; }
                            if (how == 2) { t = {"-k" + x}; }
                            if (how == 3) { t = {alt ? "-kind=" + x : "-k=" + x}; }
                            if (how == 4) { t = {alt ? "-other" : "--other", x}; }
                            if (how == 5) { t = {"-bk" + x}; }
                            if (how == 6) { t = {"--", x}; }
                            if (how == 7) { t = {x, "-k"}; }
                            if (how == 8) { t = {"-bk=" + x, "-b"}; }
                            if (y < z.size()) { t.push_back(z[y]); }
                            visit(Case{c, m, none, t});
                        }
                    }
                }
            }
        }
    }
}

inline void grandHistory(int level, const Visit& visit) {
    for (Kind k : everyOption()) {
        for (auto& pl : grandPositionals()) {
            for (int variant = 0; variant < 3; ++variant) {
                Cfg c = grandCfg(k, pl, variant == 1, variant == 2 && pl.empty(), variant);
                Machine m(c);
                std::vector<Strs> ls = grandLines(c, level < 2);
                for (size_t n = 1; n <= (level ? 2u : 1u); ++n) {
                    uint64_t total = 1;
                    for (size_t i = 0; i <= n; ++i) { total *= ls.size(); }
                    if (skipBlock(total)) { continue; }
                    for (uint64_t x = 0; x < total; ++x) {
                        if (!take()) { continue; }
                        uint64_t y = x;
                        std::vector<Strs> before(n);
                        const Strs& line = ls[y % ls.size()];
                        y /= ls.size();
                        for (size_t i = n; i-- > 0; y /= ls.size()) { before[i] = ls[y % ls.size()]; }
                        visit(Case{c, m, before, line});
                    }
                }
                // many parses before
                for (size_t i = 0; i < ls.size(); ++i) {
                    for (size_t j = 0; j < ls.size(); ++j) {
                        for (size_t n : {3, 4, 5, 8, 17}) {
                            if (level == 0 && n > 4) { continue; }
                            if (!take()) { continue; }
                            std::vector<Strs> before(n, ls[i]);
                            visit(Case{c, m, before, ls[j]});
                        }
                    }
                }
            }
        }
    }
}

// numbers of occurrences, values and tokens around powers of two
inline void grandScale(int level, const Visit& visit) {
    const std::vector<Strs> none;
    std::vector<unsigned> occs = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 31, 32, 33, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 65535, 65536, 65537};
    for (Kind k : everyOption()) {
        for (auto& pl : grandPositionals()) {
            if (pl.size() > 1) { continue; }
            for (unsigned o : occs) {
                if (level == 0 && o > 40 && o != 1025) { continue; }
                if (o > 300 && !pl.empty() && (pl[0] != K_POSINF || k != K_BOOL)) { continue; }
                for (int how = 0; how < 8; ++how) {
                    if (o > 5000 && (level < 2 || grouped(k) || k == K_NUMBER || isPos(k)) && !(how == 0 && k == K_MULTI) && !(how == 2 && k == K_INF) && !(how == 4 && k == K_BOOL) && !(how == 3 && k == K_SIMPLE) && !(how == 5 && k == K_BOOL)) { continue; }
                    if (!take()) { continue; }
                    Cfg c = grandCfg(k, pl, 0, 0, 0);
                    Spec& x = c.args[0];
                    if ((how == 6 || how == 7) && (k == K_NUMBER || grouped(k)) && o > 1 && o != 43) { x.n = o; }
                    size_t n = valueless(k) ? 0 : k == K_NUMBER || grouped(k) ? x.n : 1;
                    Strs t;
                    if (how == 0 || how == 1) { // separate occurrences
                        for (unsigned i = 0; i < o; ++i) {
                            t.push_back(i % 3 == 0 ? "-k" : i % 3 == 1 ? "--kind" : "--other");
                            for (size_t j = 0; j < n; ++j) { t.push_back("v" + str(i) + "-" + str(j)); }
                            if (how == 1 && i % 2) { t.push_back("-b"); }
                        }
                    }
                    else if (how == 2) { // one occurrence with many values
                        t.push_back("-k");
                        for (unsigned i = 0; i < o; ++i) { t.push_back("v" + str(i)); }
                    }
                    else if (how == 3) { // one long value
                        t = {"--kind=" + std::string(o, 'q'), std::string(o, 'r')};
                    }
                    else if (how == 4) { // a long cluster
                        t = {"-" + std::string(o, 'b') + "k" + std::string(o, 's')};
                        t.push_back(std::string(o, 't'));
                    }
                    else if (how == 5) { // behind the separator, and surplus
                        t = {"--"};
                        for (unsigned i = 0; i < o; ++i) { t.push_back(i % 4 ? "v" + str(i) : "-k"); }
                    }
                    else { // wide arities, exactly filled and one short
                        t.push_back("--kind");
                        for (size_t i = 0; i + (how == 7) < n; ++i) { t.push_back("v" + str(i)); }
                        if (how == 6) { t.push_back("tail"); }
                    }
                    Machine m(c);
                    visit(Case{c, m, none, t});
                }
            }
        }
    }
}

// two arguments of every kind, required and defaulted in every way, after a flag
inline void grandPairs(int level, const Visit& visit) {
    std::vector<Kind> ks = everyOption();
    ks.insert(ks.end(), posKinds().begin(), posKinds().end());
    const std::vector<Strs> none;
    for (Kind k1 : ks) {
        for (Kind k2 : ks) {
            if (k1 == k2 && (k1 == K_HELP || k1 == K_VERSION)) { continue; }
            for (int req = 0; req < 4; ++req) {
                for (int def = 0; def < (req == 0 || level > 1 ? 3 : 1); ++def) {
                    if (level == 0 && def == 2) { continue; }
                    Cfg c;
                    Spec a = named(k1, isPos(k1) ? S({"AAA"}) : S({"-a", "--alpha"}), req & 1), b = named(k2, isPos(k2) ? S({"ZZZ"}) : S({"--zeta", "-z"}), req & 2);
                    if (k2 == K_NUMBER || grouped(k2) || k2 == K_POSNUM) { b.n = 3; }
                    if (def & 1) { a.defaults = someDefaults(a, 1); }
                    if (def & 2) { b.defaults = someDefaults(b, 2); }
                    if (req == 3) { b.defaults = someDefaults(b, 1); }
                    c.args = {a, b};
                    c.strict = req == 1;
                    c.alternative = req == 2;
                    Machine m(c);
                    Strs alpha = S({"%", "--"});
                    if (!isPos(k1)) { alpha.push_back("-a"); }
                    if (!isPos(k2)) { alpha.push_back("-z"); }
                    if (isPos(k1) && isPos(k2)) { alpha.push_back("-h"); }
                    if (isPos(k1) != isPos(k2)) { alpha.push_back(isPos(k1) ? "--zeta=%" : "-a%"); }
                    sequences(alpha, 0, level == 0 ? 3 : level == 1 ? 4 : 5, [&](const Strs& t) { visit(Case{c, m, none, t}); });
                }
            }
        }
    }
}

// many arguments at once
inline void grandCrowd(int level, const Visit& visit) {
    const std::string letters = "abcdefgijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
    const std::vector<Strs> none;
    for (size_t n : {1, 2, 3, 4, 5, 7, 8, 9, 10, 12, 15, 16, 17, 20, 31, 32, 33, 40, 61}) {
        if (level == 0 && n > 20) { continue; }
        for (size_t np : {0, 1, 3, 4, 5, 8, 12, 20}) {
            for (int req = 0; req < 2; ++req) {
                Cfg c;
                for (size_t i = 0; i < n; ++i) {
                    Kind k = optionKinds()[(i * 7 + np) % optionKinds().size()];
                    if (k == K_VERSION) { k = K_BOOL; }
                    Strs names;
                    names.push_back(std::string("-") + letters[(i * 13 + 5) % letters.size()]);
                    names.push_back("--option-" + str(i));
                    if (i % 3 == 0) { names.push_back("--" + std::string(1 + i, 'l')); }
                    c.args.push_back(named(k, names, req && i % 2 == 0));
                }
                for (size_t i = 0; i < np; ++i) {
                    c.args.push_back(named(i + 1 == np && req ? K_POSINF : i % 4 == 3 ? K_POSNUM : K_POS, Strs(1, "P" + str(i)), req && i % 3 == 1));
                }
                Machine m(c);
                auto phrase = [&](size_t i, size_t flag) {
                    const Spec& s = c.args[i];
                    Strs t(1, s.names[flag % s.names.size()]);
                    size_t v = valueless(s.kind) ? 0 : s.kind == K_NUMBER || grouped(s.kind) ? s.n : 1;
                    for (size_t j = 0; j < v; ++j) { t.push_back("v" + str(i) + "." + str(j)); }
                    return t;
                };
                auto add = [](Strs& t, const Strs& u) { t.insert(t.end(), u.begin(), u.end()); };
                Strs positionals;
                for (size_t i = 0; i < 2 * np + 1; ++i) { positionals.push_back("p" + str(i)); }
                for (size_t skip = 0; skip <= n; ++skip) { // all but one; one alone
                    for (int how = 0; how < 6; ++how) {
                        if (!take()) { continue; }
                        Strs t;
                        if (how == 0) {
                            for (size_t i = 0; i < n; ++i) { if (i != skip) { add(t, phrase(i, i)); } }
                            add(t, positionals);
                        }
                        if (how == 1) {
                            add(t, positionals);
                            for (size_t i = n; i-- > 0;) { if (i != skip) { add(t, phrase(i, i + 1)); } }
                        }
                        if (how == 2 && skip < n) { add(t, phrase(skip, 0)); }
                        if (how == 3 && skip < n) {
                            add(t, phrase(skip, 1));
                            t.push_back("--");
                            add(t, positionals);
                        }
                        if (how == 4) {
                            for (size_t i = 0; i < n; ++i) { add(t, phrase(i, 2)); }
                            positionals.resize(2 * np + 1);
                            t.insert(t.end(), positionals.begin(), positionals.begin() + (skip < positionals.size() ? skip : positionals.size()));
                        }
                        if (how == 5) {
                            for (size_t i = 0; i < n; ++i) {
                                add(t, phrase(i, i));
                                if (i < positionals.size()) { t.push_back(positionals[i]); }
                            }
                            if (skip < n) { add(t, phrase(skip, 1)); }
                        }
                        visit(Case{c, m, none, t});
                    }
                }
            }
        }
    }
}

// names of every length and shape, used in every spelling
inline std::vector<Strs> grandNameLists(int level) {
    std::vector<Strs> r;
    for (unsigned n : {1, 2, 3, 5, 6, 7, 8, 12, 13, 14, 15, 16, 17, 29, 30, 31, 32, 33, 61, 62, 63, 64, 65, 80, 126, 127, 128, 254, 255, 256, 511, 1023, 4095}) {
        if (level == 0 && n % 2 && n > 20) { continue; }
        r.push_back(S({}));
        r.back().push_back("--" + std::string(n - 1, 'n') + "m");
    }
    for (auto& f : {"--two-words", "--two_words", "--UPPER", "--Camel", "--1", "--007", "---", "----x", "--.", "--a.b", "--a:b", "--with blank", "-- ", "--\xC3\xA9", "--%s", "--kind-", "--no-bool", "--boo", "--boolean", "--b",
                    "--bb", "--help-me", "--hel", "--v", "--\"q\"", "-1", "-0", "-.", "- ", "-\xE9", "-?", "-%", "-A", "-B", "-_", "-,", "-+", "-\t", "-/", "-H", "-V", "-[", "-z"}) {
        r.push_back(S({f}));
    }
    r.push_back(S({"-1", "--1"}));
    r.push_back(S({"--aa", "--aaa"}));
    r.push_back(S({"--aaa", "-a", "--a"}));
    r.push_back(S({"-x", "-y", "-z"}));
    r.push_back(S({"-X", "-x", "--X", "--x"}));
    r.push_back(S({"-m", "--mm", "-M", "--MM", "--mM", "-n", "--Mm", "--m-m", "-o", "--oo", "-p", "--pp"}));
    return r;
}
inline void grandNames(int level, const Visit& visit) {
    const std::vector<Strs> none;
    for (auto& names : grandNameLists(level)) {
        for (Kind k : everyOption()) {
            for (int alt = 0; alt < 2; ++alt) {
                for (int pos = 0; pos < 2; ++pos) {
                    if (pos == alt && level < 2) { continue; }
                    Cfg c;
                    c.args.push_back(named(k, names, alt));
                    c.args.push_back(named(K_BOOL, S({"-b", "--bool"})));
                    if (pos) { c.args.push_back(kit(K_POSINF)); }
                    c.alternative = alt;
                    Machine m(c);
                    Strs alpha = S({"%", "-b", "--"});
                    for (size_t i = 0; i < names.size(); ++i) {
                        if (i > 1 && i + 1 != names.size()) { continue; }
                        const std::string& f = names[i];
                        alpha.push_back(f);
                        alpha.push_back(f + "=%");
                        alpha.push_back(f + "%");
                        if (i > 0) { continue; }
                        alpha.push_back(shortFlag(f) ? "-b" + f.substr(1) : f.substr(1));
                        alpha.push_back(shortFlag(f) ? "-" + f : f.substr(1) + "=%");
                        alpha.push_back(f + "=");
                        alpha.push_back(f.substr(0, f.size() - 1));
                    }
                    sequences(alpha, 0, 2, [&](const Strs& t) { visit(Case{c, m, none, t}); });
                    Strs few = {names[0], "%", names.back(), "-b"};
                    sequences(few, 3, level > 1 ? 4 : 3, [&](const Strs& t) { visit(Case{c, m, none, t}); });
                }
            }
        }
    }
    // positionals with odd names
    for (auto& n : {"a b", "p", "POS=1", "1", "b", "bool", "h", "help", " ", "\xC3\xA9", "%s", "=", "x-y", "FILE..."}) {
        for (Kind k : posKinds()) {
            for (int req = 0; req < 2; ++req) {
                Cfg c;
                c.args.push_back(named(k, S({n}), req));
                c.args.push_back(named(K_BOOL, S({"-b", "--bool"})));
                c.args.push_back(named(K_POS, S({"LAST"}), req));
                Machine m(c);
                Strs alpha = S({"%", "-b", "--"});
                alpha.push_back(n);
                sequences(alpha, 0, 4, [&](const Strs& t) { visit(Case{c, m, none, t}); });
            }
        }
    }
}

// values equal to each other, to the defaults, and to nothing
inline void grandSame(int level, const Visit& visit) {
    const std::vector<Strs> none;
    std::vector<Kind> ks = valueKinds();
    ks.insert(ks.end(), posKinds().begin(), posKinds().end());
    for (Kind k : ks) {
        for (unsigned uses = 0; uses < 4; ++uses) {
            for (int other = 0; other < 2; ++other) { // a second argument with the same defaults
                Cfg c;
                Spec x = isPos(k) ? kit(k) : named(k, S({"--kind", "-k"}));
                if (uses > 1 && scalar(k)) { continue; }
                if (uses > 1 && (k == K_NUMBER || k == K_POSNUM)) { x.n = uses + 1; }
                x.defaults = uses ? someDefaults(x, uses) : Strs();
                c.args.push_back(x);
                Kind o = isPos(k) ? K_MULTI : uses % 2 ? K_POSINF : K_POS;
                Spec y = named(o, isPos(o) ? S({"REST"}) : S({"-o"}));
                if (other) { y.defaults = someDefaults(y, 1); }
                c.args.push_back(y);
                Machine m(c);
                Strs alpha = isPos(k) ? S({"D0", "D1", "D0", "-o", "-oD0", "--"}) : S({"D0", "D1", "-k", "--kind=D0", "-kD1", "--kind=", "--"});
                if (isPos(k)) { alpha[2] = ""; }
                sequences(alpha, 0, level == 0 ? 3 : level == 1 ? 4 : 5, [&](const Strs& t) { visit(Case{c, m, none, t}); });
                sequences(isPos(k) ? S({"D0", "D1"}) : S({"-k", "D0", "D1"}), 5, level == 0 ? 5 : 6, [&](const Strs& t) { visit(Case{c, m, none, t}); });
            }
        }
    }
}

// every byte, alone and at every end of a text, in every place
inline void grandBytes(int level, const Visit& visit) {
    const std::vector<Strs> none;
    static const Kind kinds[] = {K_SIMPLE, K_MULTI, K_INF, K_EXTNUM, K_BOOL, K_NUMBER, K_EXT, K_MULTINUM};
    for (int ki = 0; ki < (level == 0 ? 4 : 8); ++ki) {
        for (int pi = 0; pi < 3; ++pi) {
            std::vector<Kind> pl;
            if (pi) { pl.push_back(pi == 1 ? K_POSINF : K_POS); }
            Cfg c = grandCfg(kinds[ki], pl, pi == 2, 0, 0);
            Machine m(c);
            for (int b = 1; b < 256; ++b) {
                if (level == 0 && (ki + pi) % 2 && b > 32 && b < 127 && isalnum(b)) { continue; }
                for (int form = 0; form < (level == 0 ? 3 : 6); ++form) {
                    std::string y(1, (char)b);
                    std::string x = form == 0 ? y : form == 1 ? "x" + y : form == 2 ? y + "x" : form == 3 ? "x" + y + "1" : form == 4 ? y + y : "x " + y + " ";
                    for (int how = 0; how < 7; ++how) {
                        if (!take()) { continue; }
                        Strs t;
                        if (how == 0) { t = {x}; }
                        if (how == 1) { t = {"--", x, "p"}; }
                        if (how == 2) { t = {"-k", x, "p"}; }
                        if (how == 3) { t = {"--kind=" + x}; }
                        if (how == 4) { t = {"-k" + x}; }
                        if (how == 5) { t = {"-k", "x", x, x}; }
                        if (how == 6) { t = {"-" + x, "--" + x, "p"}; }
                        visit(Case{c, m, none, t});
                    }
                }
            }
        }
    }
}

inline void grand(int level, const Visit& visit, int parts = G_ALL) {
    if (parts & G_BYTES) { grandBytes(level, visit); }
    if (parts & G_SAME) { grandSame(level, visit); }
    if (parts & G_NAMES) { grandNames(level, visit); }
    if (parts & G_SCALE) { grandScale(level, visit); }
    if (parts & G_CROWD) { grandCrowd(level, visit); }
    if (parts & G_ZOO) { grandZoo(level, visit); }
    if (parts & G_HISTORY) { grandHistory(level, visit); }
    if (parts & G_PAIRS) { grandPairs(level, visit); }
    if (parts & G_STRUCT) { grandStruct(level, visit); }
}

// ------------------------------------------------- the standard visitor
// One case on the real object: outcome, names, values, and every reader.
inline void runBefore(blet::Args& a, const Case& k) {
    for (auto& b : k.before) { parseOnly(a, b); }
}
// compares what `a`, which has the definitions and the earlier parses behind
// it, does with the line
inline void grandCheckOn(blet::Args& a, const Case& k) {
    Outcome want = k.m.run(k.line), got = parseOnly(a, k.line);
    if (got.status == OK) { readAll(a, k.c, got); }
    ++C().comparisons;
    std::string d = diff(got, want, k.c, M_ALL);
    if (!d.empty()) { fail(d); }
    if (want.status == OK) {
        for (size_t i = 0; i < k.c.args.size(); ++i) {
            const Spec& s = k.c.args[i];
            const blet::args::Argument& g = a.getArgument(s.names.back());
            readers(g, s.kind, want.args[i]);
            eqs(g.getDefaults(), s.defaults, "declared defaults");
            eq(g.isRequired(), s.required, "isRequired()");
        }
    }
    else if (want.status == HELP) { eqs(got.what, a.getUsage(), "text of the help exception"); }
    else if (want.status == VERSION) { eqs(got.what, k.c.version, "text of the version exception"); }
    else {
        check(!got.what.empty(), "the error has no message");
        if (want.status == MISSING) {
            bool p = false;
            for (auto& s : k.c.args) {
                if (frontName(s) == want.name) { p = isPos(s.kind); }
            }
            eqs(got.what, std::string(p ? "argument is required" : "option is required"), "message of the error");
        }
    }
    steps(k.line.size() + 1 + k.before.size());
    validated();
    state(canon(want));
    sample();
}
inline void grandCheck(const Case& k) {
    C().describe = [&]() { return cppCase(k); };
    blet::Args a;
    build(a, k.c);
    runBefore(a, k);
    grandCheckOn(a, k);
    C().describe = nullptr;
}
// Arities no command line can satisfy, up to the largest number: same outcome
// as for an arity of 1000.
inline void hugeArities() {
    static const std::size_t big[] = {1001, 1023, 1024, 2048, 4096, 5000, 9999, 10001, 32767, 65535, 65536, 2147483647, 2147483648u, 4294967295u, (std::size_t)4294967296ull, (std::size_t)4294967297ull, (std::size_t)4294967298ull,
                                      ~(std::size_t)0 / 2, ~(std::size_t)0 / 2 + 1, ~(std::size_t)0 - 3, ~(std::size_t)0 - 2, ~(std::size_t)0 - 1, ~(std::size_t)0};
    for (auto k : {K_NUMBER, K_MULTINUM, K_EXTNUM, K_POSNUM, K_POSINFNUM}) {
        for (int strict = 0; strict < 2; ++strict) {
            Cfg c;
            c.strict = strict;
            c.args.push_back(named(k, isPos(k) ? S({"NUM"}) : S({"-n", "--number"})));
            c.args[0].n = 1000;
            c.args.push_back(named(K_BOOL, S({"-b"})));
            if (strict) { c.args.push_back(named(K_POS, S({"P"}))); }
            Machine m(c);
            for (auto n : big) {
                sequences(S({"-n", "--number", "-bn", "-n=1", "%", "-b", "--"}), 0, thorough() ? 5 : 3, [&](const Strs& t) {
                    const std::vector<Strs> none;
                    const Case x = {c, m, none, t};
                    C().describe = [&]() { return cppCase(x) + "// with nargs(" + str(n) + ") in place of 1000\n"; };
                    blet::Args a;
                    build(a, c);
                    a.updateArgument(c.args[0].names[0]).nargs(n);
                    grandCheckOn(a, x);
                    if (t.size() < 3) { // reached from another arity
                        blet::Args b;
                        build(b, c);
                        b.updateArgument(c.args[0].names[0]).nargs(1).nargs(n);
                        grandCheckOn(b, x);
                    }
                    C().describe = nullptr;
                });
            }
        }
    }
}
inline int grandLevel(int quick = 1) { return thorough() ? 2 : quick; }

} // namespace mc
#endif
