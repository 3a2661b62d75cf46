// C13: validators decide exactly as documented; transforms reach every reader.
#include <limits.h>

#include "observe.hpp"
#include "grand.hpp"
using namespace mc;

enum Mode { ACCEPT, REFUSE, THROW, NAMED, REWRITE, NUMBERS, EMPTY, MODES };
static const char* modeName(int m) {
    static const char* n[] = {"accepts", "returns false", "throws ParseArgumentValidException(\"no way\")", "throws ParseArgumentValidException(\"--else\", \"no way\")", "prefixes every value with 'T'",
                              "replaces the i-th value by 10+i", "replaces every value by an empty text"};
    return n[m];
}
struct Recorder : public blet::args::IValid {
    int mode;
    std::vector<Strs> calls;
    const blet::Args* look; // an object to read while the validator runs
    std::string name;
    explicit Recorder(int m) : mode(m), look(0) {}
    bool isValid(std::vector<std::string>& v) {
        calls.push_back(v);
        if (look) {
            const blet::args::Argument& g = look->getArgument(name);
            std::string all = dump(g);
            std::ostringstream o;
            o << g << g.operator std::string();
        }
        if (mode == NAMED) { throw blet::args::ParseArgumentValidException("--else", "no way"); }
        if (mode == THROW) { throw blet::args::ParseArgumentValidException("no way"); }
        if (mode == REWRITE) {
            for (auto& x : v) { x = "T" + x; }
        }
        if (mode == NUMBERS) {
            for (size_t i = 0; i < v.size(); ++i) { v[i] = str(10 + i); }
        }
        if (mode == EMPTY) {
            for (auto& x : v) { x.clear(); }
        }
        return mode != REFUSE;
    }
};
static Strs flatten(const ArgState& a, Kind k) {
    if (!grouped(k)) { return a.flat; }
    Strs r;
    for (auto& g : a.groups) { r.insert(r.end(), g.begin(), g.end()); }
    return r;
}
static void rewrite(ArgState& a, Kind k, int mode) {
    size_t n = 0;
    auto f = [&](std::string& x) { x = mode == EMPTY ? std::string() : mode == REWRITE ? "T" + x : str(10 + n); ++n; };
    if (mode < REWRITE) { return; }
    for (auto& x : a.flat) { f(x); }
    for (auto& g : a.groups) {
        for (auto& x : g) { f(x); }
    }
}

struct Dests {
    std::string s;
    double d;
    Strs l;
    std::vector<double> dl;
    std::vector<Strs> ll;
};

// The validator sits on argument 0; `how` says in which order dest/valid are called.
static void withRecorder(const Cfg& c, Machine& m, const Strs& t, int mode, int how) {
    C().describe = [&]() {
        return cppCfg(c) + "// " + c.args[0].names[0] + " has a validator that " + modeName(mode) +
               (how == 1 ? " and a dest() added before" : how == 2 ? " and a dest() added after" : how == 3 ? " replacing a refusing one" : how == 4 ? " (kept by the caller)" : how == 5 ? " and reads the argument before" : "") +
               "\n" + cppParse(t);
    };
    Kind k = c.args[0].kind;
    Outcome want = m.run(t);
    Recorder keep(mode), keepRefuse(REFUSE);
    Dests x;
    x.s = "untouched";
    x.d = -77;
    blet::Args a;
    build(a, c);
    const std::string& nm = c.args[0].names[0];
    auto dest = [&]() {
        if (grouped(k)) { a.updateArgument(nm).dest(x.ll); }
        else if (scalar(k)) {
            if (mode == NUMBERS) { a.updateArgument(nm).dest(x.d); }
            else { a.updateArgument(nm).dest(x.s); }
        }
        else if (mode == NUMBERS) { a.updateArgument(nm).dest(x.dl); }
        else { a.updateArgument(nm).dest(x.l); }
    };
    if (how == 1) { dest(); }
    if (how == 3) { a.updateArgument(nm).valid(&keepRefuse, false); }
    if (how == 5) {
        keep.look = &a;
        keep.name = c.args[0].names.back();
    }
    a.updateArgument(nm).valid(&keep, false);
    if (how == 2) { dest(); }
    Outcome got = parseOnly(a, t);
    bool occurs = want.status == OK && want.args[0].exist;
    Strs seen = occurs ? flatten(want.args[0], k) : Strs();
    if (occurs && (mode == REFUSE || mode == THROW || mode == NAMED)) {
        want = Outcome();
        want.status = INVALID;
        want.name = frontName(c.args[0]);
    }
    else if (occurs) { rewrite(want.args[0], k, mode); }
    if (got.status == OK) { readAll(a, c, got); }
    ++C().comparisons;
    std::string d = diff(got, want, c, M_ALL);
    if (!d.empty()) { fail(d); }
    if (want.status == INVALID) {
        check(!got.what.empty(), "validation error with an empty message");
        if (mode == THROW || mode == NAMED) { eqs(got.what, std::string("no way"), "message of the validation error"); }
    }
    if (want.status == OK || want.status == INVALID) {
        eq(keep.calls.size(), (size_t)(occurs ? 1 : 0), "calls of the validator");
        if (occurs) { eqs(keep.calls[0], seen, "values seen by the validator"); }
        eq(keepRefuse.calls.size(), (size_t)0, "calls of the validator that was replaced");
    }
    if (want.status == OK) { // every reader and the destination
        const blet::args::Argument& g = a[nm];
        const ArgState& w = want.args[0];
        Strs fl = flatten(w, k);
        std::string text;
        if (scalar(k)) { text = fl[0]; }
        else if (grouped(k)) {
            for (auto& gr : w.groups) {
                text += text.empty() ? "(" : ", (";
                for (size_t i = 0; i < gr.size(); ++i) { text += (i ? ", " : "") + gr[i]; }
                text += ")";
            }
            std::vector<Strs> vv = g;
            check(vv == w.groups, "conversion to groups shows other values");
        }
        else {
            for (size_t i = 0; i < fl.size(); ++i) { text += (i ? ", " : "") + fl[i]; }
        }
        eqs(g.getString(), text, "getString()");
        eqs(str(g), text, "stream output");
        eqs(g.operator std::string(), text, "conversion to a string");
        eqs(g.operator std::vector<std::string>(), fl, "conversion to vector");
        if (occurs && mode == NUMBERS) {
            if (scalar(k)) { eq(g.getNumber(), 10.0, "getNumber()"); }
            else {
                size_t n = 0;
                for (size_t i = 0; i < g.size(); ++i) {
                    if (grouped(k)) {
                        for (size_t j = 0; j < g[i].size(); ++j) { eq(g[i][j].getNumber(), 10.0 + n, "getNumber() of an element"); ++n; }
                    }
                    else { eq(g[i].getNumber(), 10.0 + n, "getNumber() of an element"); ++n; }
                }
            }
        }
        if (how == 1 || how == 2) {
            if (grouped(k)) { check(x.ll == w.groups, "destination shows other groups"); }
            else if (scalar(k) && mode != NUMBERS) { eqs(x.s, fl[0], "destination"); }
            else if (scalar(k)) {
                if (occurs) { eq(x.d, 10.0, "destination"); }
            }
            else if (mode == NUMBERS) {
                eq(x.dl.size(), fl.size(), "size of the destination");
                for (size_t i = 0; occurs && i < fl.size(); ++i) { eq(x.dl[i], 10.0 + i, "element of the destination"); }
            }
            else { eqs(x.l, fl, "destination"); }
        }
    }
    steps(t.size() + 2);
    validated();
    state(canon(want) + modeName(mode));
    sample();
    C().describe = nullptr;
}

static void recorders() {
    std::vector<Kind> ks = valueKinds();
    ks.insert(ks.end(), posKinds().begin(), posKinds().end());
    for (auto k : ks) {
        for (int variant = 0; variant < 4; ++variant) { // defaults, required
            Cfg c;
            c.args.push_back(kit(k, variant == 1 || variant == 3));
            if (variant >= 2) { c.args[0].defaults = someDefaults(c.args[0], 2); }
            c.args.push_back(kit(K_BOOL));
            if (!isPos(k)) { c.args.push_back(kit(K_POS)); }
            Machine m(c);
            Strs alpha = S({"%", "-b", ""});
            if (isPos(k)) { alpha.push_back("--"); }
            else {
                alpha.push_back(shortOf(c.args[0]));
                alpha.push_back(longOf(c.args[0]));
                if (k != K_NUMBER && k != K_MULTINUM && k != K_EXTNUM) {
                    alpha.push_back(longOf(c.args[0]) + "=%");
                    alpha.push_back(shortOf(c.args[0]) + "%");
                }
            }
            for (int mode = 0; mode < MODES; ++mode) {
                for (int how = 0; how < 6; ++how) {
                    size_t len = thorough() ? 5 : variant == 0 && how < 3 ? 4 : 3;
                    sequences(alpha, 0, len, [&](const Strs& t) { withRecorder(c, m, t, mode, how); });
                }
            }
        }
    }
}

// several validators, two of them possibly refusing
static void several() {
    std::vector<Kind> ks = {K_SIMPLE, K_INF, K_MULTINUM, K_POSINF};
    Cfg c;
    for (auto k : ks) { c.args.push_back(kit(k)); }
    c.args.push_back(kit(K_BOOL));
    Machine m(c);
    for (int modes = 0; modes < 81; ++modes) {
        sequences(S({"-s%", "-i", "-g", "%", "-b"}), 0, thorough() ? 6 : 4, [&](const Strs& t) {
            std::vector<Recorder> rs;
            int mm = modes;
            for (size_t i = 0; i < ks.size(); ++i, mm /= 3) { rs.push_back(Recorder(mm % 3 == 0 ? ACCEPT : mm % 3 == 1 ? REWRITE : i % 2 ? NAMED : THROW)); }
            C().describe = [&]() {
                std::string r = cppCfg(c);
                for (size_t i = 0; i < ks.size(); ++i) { r += "// " + c.args[i].names[0] + " has a validator that " + modeName(rs[i].mode) + "\n"; }
                return r + cppParse(t);
            };
            blet::Args a;
            build(a, c);
            for (size_t i = 0; i < ks.size(); ++i) { a.updateArgument(c.args[i].names[0]).valid(&rs[i], false); }
            Outcome want = m.run(t), got = parseOnly(a, t);
            std::set<std::string> refused;
            std::vector<Strs> seen(ks.size());
            if (want.status == OK) {
                for (size_t i = 0; i < ks.size(); ++i) {
                    if (!want.args[i].exist) { continue; }
                    seen[i] = flatten(want.args[i], ks[i]);
                    if (rs[i].mode == THROW || rs[i].mode == NAMED) { refused.insert(frontName(c.args[i])); }
                    rewrite(want.args[i], ks[i], rs[i].mode);
                }
            }
            if (!refused.empty()) {
                eqs(std::string(statusName(got.status)), std::string(statusName(INVALID)), "outcome");
                check(refused.count(got.name) == 1, ("the error names " + q(got.name) + ", not an argument that was refused").c_str());
            }
            else {
                if (got.status == OK) { readAll(a, c, got); }
                std::string d = diff(got, want, c, M_ALL);
                if (!d.empty()) { fail(d); }
            }
            if (want.status == OK) {
                for (size_t i = 0; i < ks.size(); ++i) {
                    if (refused.empty()) { eq(rs[i].calls.size(), (size_t)(want.args[i].exist ? 1 : 0), "calls of a validator"); }
                    for (auto& call : rs[i].calls) { eqs(call, seen[i], "values seen by a validator"); }
                }
            }
            steps(t.size() + 2);
            validated();
            state(canon(want) + str(refused.size()));
            C().describe = nullptr;
        });
    }
}

// ------------------------------------------------------- bundled validators
// is the whole text [sign] digits [. digits] [e [sign] digits] with a digit in the mantissa
static bool decimal(const std::string& s) {
    size_t i = 0, n = s.size(), digits = 0;
    if (i < n && (s[i] == '+' || s[i] == '-')) { ++i; }
    while (i < n && isdigit((unsigned char)s[i])) { ++i; ++digits; }
    if (i < n && s[i] == '.') {
        ++i;
        while (i < n && isdigit((unsigned char)s[i])) { ++i; ++digits; }
    }
    if (!digits) { return false; }
    if (i < n && s[i] == 'e') {
        ++i;
        if (i < n && (s[i] == '+' || s[i] == '-')) { ++i; }
        size_t e = 0;
        while (i < n && isdigit((unsigned char)s[i])) { ++i; ++e; }
        if (!e) { return false; }
    }
    return i == n;
}

// asks the validator itself, then through every kind of argument
static void ask(blet::args::IValid& v, const Strs& values, bool want, const std::string& what, bool parse) {
    C().describe = [&]() { return what + " on " + q(values); };
    Strs copy = values;
    bool got = true;
    std::string msg;
    try { got = v.isValid(copy); }
    catch (const blet::Args::ParseArgumentValidException& e) {
        got = false;
        msg = e.what();
        check(!msg.empty(), "refusal with an empty message");
    }
    eq(got, want, "isValid()");
    eqs(copy, values, "a bundled validator rewrites the values");
    state(what + q(values));
    steps(values.size() + 1);
    validated();
    if (!parse) { C().describe = nullptr; return; }
    for (auto k : {K_SIMPLE, K_NUMBER, K_INF, K_MULTI, K_EXT, K_MULTINUM, K_EXTNUM, K_POS, K_POSNUM, K_POSINF, K_POSINFNUM}) {
        if (scalar(k) ? values.size() != 1 : values.empty()) { continue; }
        Cfg c;
        c.args.push_back(kit(k));
        Spec& s = c.args[0];
        if (k == K_NUMBER || k == K_POSNUM) { s.n = (unsigned)values.size(); }
        if ((k == K_NUMBER || k == K_POSNUM || grouped(k)) && s.n < 2) { continue; }
        if (grouped(k) && values.size() % s.n) { continue; }
        Strs t;
        if (isPos(k)) {
            t.push_back("--");
            t.insert(t.end(), values.begin(), values.end());
        }
        else if (k == K_MULTI) {
            for (auto& x : values) { t.push_back("--multi=" + x); }
        }
        else if (k == K_EXT || k == K_INF) {
            if (values.size() != 1) { t.push_back(s.names[1]); t.insert(t.end(), values.begin(), values.end()); }
            else { t.push_back(s.names[1] + "=" + values[0]); }
        }
        else {
            for (size_t i = 0; i < values.size(); ++i) {
                if (i % s.n == 0 && (i == 0 || k == K_MULTINUM)) { t.push_back(s.names[0]); }
                t.push_back(values[i]);
            }
        }
        Machine m(c);
        Outcome w = m.run(t);
        if (w.status != OK || flatten(w.args[0], k) != values) { continue; } // the line means something else
        C().describe = [&]() { return cppCfg(c) + "// " + s.names[0] + " has the validator " + what + "\n" + cppParse(t); };
        blet::Args a;
        build(a, c);
        a.updateArgument(s.names[0]).valid(&v, false);
        Outcome g = parseOnly(a, t);
        eqs(std::string(statusName(g.status)), std::string(statusName(want ? OK : INVALID)), "outcome of the parse");
        if (want) {
            readAll(a, c, g);
            std::string d = diff(g, w, c, M_ALL);
            if (!d.empty()) { fail(d); }
        }
        else {
            eqs(g.name, frontName(s), "name in the validation error");
            eqs(g.what, msg, "message of the validation error");
        }
        // absent: not consulted
        blet::Args b;
        build(b, c);
        Strs def = values;
        b.updateArgument(s.names[0]).valid(&v, false).defaults(vec(def));
        eqs(std::string(statusName(parseOnly(b, Strs()).status)), std::string("ok"), "outcome when the argument is absent");
        steps(t.size() + 2);
        validated();
    }
    C().describe = nullptr;
}

static void numbers() {
    blet::args::ValidNumber v;
    const char* alpha = "015-+.ea";
    uint64_t k = strlen(alpha);
    for (size_t len = 0; len <= (thorough() ? 6u : 5u); ++len) {
        uint64_t total = 1;
        for (size_t i = 0; i < len; ++i) { total *= k; }
        if (skipBlock(total)) { continue; }
        for (uint64_t x = 0; x < total; ++x) {
            if (!take()) { continue; }
            std::string s(len, ' ');
            uint64_t y = x;
            for (size_t i = len; i-- > 0; y /= k) { s[i] = alpha[y % k]; }
            ask(v, Strs(1, s), decimal(s), "ValidNumber", len <= 3);
            sample();
        }
    }
    // every position of a list
    Strs texts = S({"1", "-2.5", "3e2", "x", "", "1x", "--", "-", "12345678901234567890", "0.0000001", "-+1", "1.2.3"});
    for (size_t len = 2; len <= (thorough() ? 4u : 3u); ++len) {
        sequences(texts, len, len, [&](const Strs& t) {
            bool ok = true;
            for (auto& x : t) { ok = ok && decimal(x); }
            ask(v, t, ok, "ValidNumber", true);
        });
    }
    for (unsigned n = 1; n <= 40; ++n) { // one bad value anywhere in a long list
        for (unsigned bad = 0; bad <= n; ++bad) {
            if (!take()) { continue; }
            Strs t(n, "7");
            if (bad < n) { t[bad] = "7a"; }
            ask(v, t, bad == n, "ValidNumber", n < 12 || n % 10 == 0);
        }
    }
}

static void intervals() {
    std::vector<double> b = {-1000000, -10, -1.5, -1, -0.5, 0, 0.25, 0.5, 1, 2, 10, 255, 1e9};
    Strs texts = S({"0", "-0", "+0", "1", "+1", "1.0", "1e0", "10e-1", "01", "-1", "-1.0", "0.999999", "1.000001", "-1.000001", "0.25", ".25", "0.5", ".5", "0.249999",
                    "0.500001", "-.5", "-0.5", "-0.499999", "-0.500001", "2", "2.0", "1.999999", "2.000001", "10", "9.999999", "10.00001", "1e1", "-10", "-10.0001", "-9.9999", "-1.5",
                    "-1.50001", "-1.49999", "255", "256", "254.5", "255.0001", "1000000000", "1e9", "1000000001", "999999999", "-1000000", "-1000001", "-999999", "-1e6", "1e300", "-1e300", "",
                    "a", "-", "+", ".", "a1", "--1", "e5", "-a"});
    auto in = [](const std::string& s, double lo, double hi) {
        if (!decimal(s)) { return false; }
        double d = strtod(s.c_str(), 0);
        return d >= lo && d <= hi;
    };
    for (size_t i = 0; i < b.size(); ++i) {
        for (size_t j = 0; j < b.size(); ++j) {
            double lo = std::min(b[i], b[j]), hi = std::max(b[i], b[j]);
            blet::args::ValidMinMax v(b[i], b[j]);
            std::string what = "ValidMinMax(" + str(b[i]) + ", " + str(b[j]) + ")";
            for (auto& t : texts) {
                if (take()) { ask(v, Strs(1, t), in(t, lo, hi), what, thorough() || (i + j) % 3 == 0); }
            }
            Strs few = S({"0", "1", "-1", "0.25", "2", "10", "x"});
            sequences(few, 2, thorough() ? 3 : 2, [&](const Strs& t) {
                bool ok = true;
                for (auto& x : t) { ok = ok && in(x, lo, hi); }
                ask(v, t, ok, what, (i + j) % 3 == 1);
            });
        }
    }
}

static void choices() {
    Strs words = S({"", "a", "A", "ab", "b", "a b", "-x", "1"});
    std::vector<Strs> lists(1);
    for (size_t i = 0; i < words.size(); ++i) {
        lists.push_back({words[i]});
        for (size_t j = 0; j < words.size(); ++j) {
            lists.push_back({words[i], words[j]});
            for (size_t k = 0; thorough() && k < words.size(); ++k) { lists.push_back({words[i], words[j], words[k]}); }
        }
    }
    for (unsigned n = 3; n <= 30; ++n) {
        Strs l;
        for (unsigned i = 0; i < n; ++i) { l.push_back("c" + str(i)); }
        lists.push_back(l);
    }
    const Strs nuls = {std::string("a\0b", 3), std::string("\0", 1), std::string("b\0", 2), "a\n", "a\tb", "\xFF", std::string(300, 'w'), std::string(299, 'w'), "%s", "\"", "A"};
    lists.push_back(nuls);
    for (auto& x : nuls) { lists.push_back(Strs(1, x)); }
    for (auto& l : lists) {
        blet::args::ValidChoise v((std::vector<std::string>)l);
        std::string what = "ValidChoise(" + q(l) + ")";
        Strs ask1 = words;
        for (const char* x : {"aa", " a", "a ", "abc", "c0", "c", "c29", "c1", "c10", "c2"}) { ask1.push_back(x); }
        if (l.size() > 2) { ask1.insert(ask1.end(), l.begin(), l.end()); }
        bool odd = std::find(nuls.begin(), nuls.end(), l.empty() ? std::string() : l[0]) != nuls.end();
        if (odd) { ask1.insert(ask1.end(), nuls.begin(), nuls.end()); }
        auto ok = [&](const std::string& x) { return std::find(l.begin(), l.end(), x) != l.end(); };
        for (auto& x : ask1) {
            if (take()) { ask(v, Strs(1, x), ok(x), what, x.find('\0') == std::string::npos); }
            for (auto& y : words) {
                if (take()) { ask(v, {x, y}, ok(x) && ok(y), what, false); }
            }
        }
    }
}

static void paths() {
    std::string d = C().scratch + "/paths-" + str(getpid());
    mkdir(d.c_str(), 0755);
    if (chdir(d.c_str()) != 0) { _exit(3); }
    auto touch = [](const char* p) { FILE* f = fopen(p, "w"); fputs("x", f); fclose(f); };
    touch("file");
    touch("with space");
    touch("-b");
    mkdir("dir", 0755);
    touch("dir/inner");
    mkdir("dir/sub", 0755);
    touch("shut");
    chmod("shut", 0);
    FILE* f = fopen("empty", "w");
    fclose(f);
    int r = 0;
    r |= symlink("file", "lfile");
    r |= symlink("dir", "ldir");
    r |= symlink("nowhere", "dangling");
    r |= symlink("loop", "loop");
    r |= mkfifo("fifo", 0600);
    if (r) { _exit(3); }
    struct P { std::string path; char type; }; // f file, d dir, o other, n none
    std::vector<P> ps = {{"file", 'f'}, {"with space", 'f'}, {"-b", 'f'}, {"dir", 'd'}, {"dir/", 'd'}, {"dir/inner", 'f'}, {"dir/sub", 'd'}, {"shut", 'f'}, {"empty", 'f'}, {"lfile", 'f'},
                         {"ldir", 'd'}, {"ldir/inner", 'f'}, {"dangling", 'n'}, {"loop", 'n'}, {"fifo", 'o'}, {".", 'd'}, {"..", 'd'}, {"./file", 'f'}, {"/", 'd'}, {"/dev/null", 'o'},
                         {"", 'n'}, {"nothing", 'n'}, {"file/", 'n'}, {"file/x", 'n'}, {"dir/none", 'n'}, {"File", 'n'}, {" file", 'n'}, {d, 'd'}, {d + "/file", 'f'}, {std::string(300, 'x'), 'n'}};
    for (int mode = 0; mode < 3; ++mode) {
        blet::args::ValidPath v(mode == 0 ? blet::args::ValidPath::ALL : mode == 1 ? blet::args::ValidPath::IS_FILE : blet::args::ValidPath::IS_DIR);
        std::string what = mode == 0 ? "ValidPath(ALL)" : mode == 1 ? "ValidPath(IS_FILE)" : "ValidPath(IS_DIR)";
        auto ok = [&](const P& p) { return mode == 0 ? p.type != 'n' : mode == 1 ? p.type == 'f' : p.type == 'd'; };
        for (auto& p : ps) {
            if (take()) { ask(v, Strs(1, p.path), ok(p), what, true); }
            for (auto& s : ps) {
                if (take()) { ask(v, {p.path, s.path}, ok(p) && ok(s), what, true); }
                if (thorough()) {
                    for (auto& u : ps) {
                        if (take()) { ask(v, {p.path, s.path, u.path}, ok(p) && ok(s) && ok(u), what, false); }
                    }
                }
            }
        }
    }
    blet::args::ValidPath def;
    if (take()) { ask(def, S({"fifo"}), true, "ValidPath()", true); }
    if (take()) { ask(def, S({"nothing"}), false, "ValidPath()", true); }
}

// the common sweep with a validator and a destination on every argument
static void everywhere(const Case& k, int mode, int only) {
    const Cfg& c = k.c;
    C().describe = [&]() { return "// every argument that takes values has a destination and a validator that " + std::string(modeName(mode)) + (only >= 0 ? ", only on argument " + str(only) : "") + "\n" + cppCase(k); };
    std::vector<Recorder> r(c.args.size(), Recorder(mode));
    std::vector<Dests> d(c.args.size());
    blet::Args a;
    build(a, c);
    for (size_t i = 0; i < c.args.size(); ++i) {
        Kind x = c.args[i].kind;
        if (valueless(x)) { continue; }
        if (only >= 0 && (int)i != only) { r[i].mode = ACCEPT; }
        blet::args::Argument& g = a.updateArgument(c.args[i].names[0]);
        if (k.before.empty()) {
            if (scalar(x)) { g.dest(d[i].s); }
            else if (grouped(x)) { g.dest(d[i].ll); }
            else { g.dest(d[i].l); }
        }
        a.updateArgument(c.args[i].names[0]).valid(&r[i], false);
        if (mode == NUMBERS && k.line.size() < 4) {
            r[i].look = &a;
            r[i].name = c.args[i].names.back();
        }
    }
    runBefore(a, k);
    for (auto& x : r) { x.calls.clear(); }
    Outcome want = k.m.run(k.line), parsed = want, got = parseOnly(a, k.line);
    std::vector<int> called(c.args.size(), 0);
    if (want.status == OK) {
        for (size_t j : k.m.order) {
            if (j >= c.args.size() || valueless(c.args[j].kind) || !parsed.args[j].exist) { continue; }
            called[j] = 1;
            if (r[j].mode == REFUSE || r[j].mode == THROW || r[j].mode == NAMED) {
                want = Outcome();
                want.status = INVALID;
                want.name = frontName(c.args[j]);
                break;
            }
            rewrite(want.args[j], c.args[j].kind, r[j].mode);
        }
    }
    if (got.status == OK) { readAll(a, c, got); }
    ++C().comparisons;
    std::string df = diff(got, want, c, M_ALL);
    if (!df.empty()) { fail(df); }
    if (want.status == OK || want.status == INVALID) {
        for (size_t i = 0; i < c.args.size(); ++i) {
            if (want.status == INVALID && !called[i]) { continue; } // behind the refused one
            eq(r[i].calls.size(), (size_t)called[i], ("calls of the validator of " + c.args[i].names[0]).c_str());
            if (called[i]) { eqs(r[i].calls[0], flatten(parsed.args[i], c.args[i].kind), "values seen by the validator"); }
        }
    }
    if (want.status == OK) {
        for (size_t i = 0; i < c.args.size(); ++i) {
            Kind x = c.args[i].kind;
            readers(a.getArgument(c.args[i].names.back()), x, want.args[i]);
            if (valueless(x) || !k.before.empty()) { continue; }
            if (scalar(x)) { eqs(d[i].s, want.args[i].flat[0], "destination"); }
            else if (grouped(x)) { check(d[i].ll == want.args[i].groups, "destination holds other groups"); }
            else { eqs(d[i].l, want.args[i].flat, "destination"); }
        }
    }
    steps(k.line.size() + 1 + k.before.size());
    validated();
    state(canon(want) + str(mode));
    C().describe = nullptr;
}
static void sweep(const Case& k) {
    everywhere(k, ACCEPT, -1);
    everywhere(k, REWRITE, -1);
    everywhere(k, NUMBERS, -1);
    everywhere(k, EMPTY, -1);
    for (size_t i = 0; i < k.c.args.size(); ++i) {
        if (k.c.args.size() <= 4 && !valueless(k.c.args[i].kind)) { everywhere(k, i % 2 ? NAMED : REFUSE, (int)i); }
    }
}

void explore() {
    paths();
    choices();
    intervals();
    numbers();
    several();
    recorders();
    grand(grandLevel(0), sweep);
}
