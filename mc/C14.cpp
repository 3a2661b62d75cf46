// C14: destinations receive exactly the parsed value, converted and bounded.
#include <math.h>

#include <limits>

#include "observe.hpp"
#include "grand.hpp"
using namespace mc;

template<typename T> std::string show(const T& v) { return str(v); }
template<> std::string show<char>(const char& v) { return str((int)v); }
template<> std::string show<signed char>(const signed char& v) { return str((int)v); }
template<> std::string show<unsigned char>(const unsigned char& v) { return str((int)v); }
template<> std::string show<float>(const float& v) { char b[64]; snprintf(b, sizeof b, "%.20g", (double)v); return b; }
template<> std::string show<double>(const double& v) { char b[64]; snprintf(b, sizeof b, "%.25g", v); return b; }
template<> std::string show<long double>(const long double& v) { char b[64]; snprintf(b, sizeof b, "%.30Lg", v); return b; }
template<> std::string show<std::string>(const std::string& v) { return q(v); }
typedef const char* CStr;
template<> std::string show<CStr>(const CStr& v) { return v ? q(std::string(v)) : "NULL"; }
template<typename T> bool same(const T& a, const T& b) { return a == b; }
template<> bool same<CStr>(const CStr& a, const CStr& b) { return a && b && std::string(a) == b; }

// ------------------------------------------------------------ scalar kinds
enum How { SEPARATE, EQUAL, GLUED, LONG_SEP, POSITIONAL, DEFAULT, POS_DEFAULT, SECOND_PARSE, OVER_DEFAULT, HOWS };
struct Line {
    Cfg c;
    std::vector<Strs> lines; // parsed one after the other
};
static Line lineFor(int how, const std::string& v) {
    Line l;
    if (v == "--" && (how == SEPARATE || how == LONG_SEP || how == OVER_DEFAULT)) { how = EQUAL; } // ends the options instead
    if (how == GLUED && v[0] == '=') { how = EQUAL; }
    l.c.args.push_back(kit(how == POSITIONAL || how == POS_DEFAULT ? K_POS : K_SIMPLE));
    switch (how) {
        case SEPARATE: l.lines.push_back({"-s", v}); break;
        case EQUAL: l.lines.push_back({"-s=" + v}); break;
        case GLUED: l.lines.push_back({"-s" + v}); break;
        case LONG_SEP: l.lines.push_back({"--simple", v}); break;
        case POSITIONAL: l.lines.push_back({"--", v}); break;
        case SECOND_PARSE: l.lines.push_back({"-s", "7"}); l.lines.push_back({"--simple=" + v}); break;
        case OVER_DEFAULT: l.c.args[0].defaults = S({"9"}); l.lines.push_back({"-s", "8", "-s", v}); break;
        default: l.c.args[0].defaults = {v}; l.lines.push_back({}); break;
    }
    return l;
}
static void parseAll(blet::Args& a, const Line& l) {
    for (auto& t : l.lines) {
        Outcome o = parseOnly(a, t);
        if (o.status != OK) { fail("unexpected outcome: " + std::string(statusName(o.status)) + " " + o.what); }
        steps(t.size() + 1);
    }
}
static std::string describeLine(const Line& l, const std::string& dest) {
    std::string r = cppCfg(l.c) + "args.updateArgument(" + q(l.c.args[0].names[0]) + ").dest(" + dest + ");\n";
    for (auto& t : l.lines) { r += cppParse(t) + "\n"; }
    return r;
}

template<typename T>
static void scalar1(const char* tn, const std::string& text, const T& want, int how) {
    if (how == GLUED && text.empty()) { return; }
    Line l = lineFor(how, text);
    C().describe = [&]() { return describeLine(l, tn); };
    struct { unsigned char pre[16]; T v; unsigned char post[16]; } x;
    memset(x.pre, 0x5a, 16);
    memset(x.post, 0xa5, 16);
    x.v = T();
    {
        blet::Args a;
        build(a, l.c);
        a.updateArgument(l.c.args[0].names[0]).dest(x.v);
        parseAll(a, l);
        ++C().comparisons;
        if (!same(x.v, want)) { fail(std::string("destination of type ") + tn + "\n  expected: " + show(want) + "\n  observed: " + show(x.v)); }
        eqs(a[l.c.args[0].names[0]].getString(), text, "getString()");
    }
    for (int i = 0; i < 16; ++i) {
        check(x.pre[i] == 0x5a && x.post[i] == 0xa5, "memory next to the destination is changed");
    }
    validated();
    state(std::string(tn) + text + str(how));
    sample();
    C().describe = nullptr;
}
template<typename T>
static void everywhere(const char* tn, const std::string& text, const T& want) {
    for (int how = 0; how < HOWS; ++how) {
        if (take()) { scalar1<T>(tn, text, want, how); }
    }
}

template<typename T>
static std::string dec(T v) { return str((typename std::conditional<sizeof(T) == 1, int, T>::type)v); }

template<typename T>
static void integers(const char* tn) {
    typedef std::numeric_limits<T> L;
    std::set<T> vs;
    for (int d = 0; d <= 20; ++d) {
        vs.insert((T)(L::max() - d));
        vs.insert((T)(L::min() + d));
    }
    for (int b = 0; b < L::digits; ++b) {
        for (int d = -2; d <= 2; ++d) {
            T p = (T)((T)1 << b);
            if (d < 0 && !L::is_signed && p < (T)-d) { continue; }
            T v = (T)(p + d);
            vs.insert(v);
            if (L::is_signed && v != L::min()) { vs.insert((T)-v); }
        }
    }
    T p10 = 1;
    for (int k = 0; k < L::digits10; ++k, p10 = (T)(p10 * 10)) {
        for (int d = 1; d <= 9; ++d) {
            T v = (T)(p10 * d);
            vs.insert(v);
            vs.insert((T)(v - 1));
            vs.insert((T)(v + 1));
            if (L::is_signed) { vs.insert((T)-v); }
        }
    }
    for (auto v : vs) {
        std::string t = dec<T>(v);
        everywhere<T>(tn, t, v);
        if (t[0] != '-') {
            if (take()) { scalar1<T>(tn, "+" + t, v, EQUAL); }
            if (take()) { scalar1<T>(tn, "0" + t, v, SEPARATE); }
            if (take()) { scalar1<T>(tn, "000" + t, v, POSITIONAL); }
        }
        else if (take()) { scalar1<T>(tn, "-0" + t.substr(1), v, SEPARATE); }
        if (v <= (T)100 && (!L::is_signed || v + 100 >= 0)) {
            if (take()) { scalar1<T>(tn, t + ".0", v, EQUAL); }
            if (take()) { scalar1<T>(tn, t + "e0", v, DEFAULT); }
        }
    }
    for (auto p : std::vector<std::pair<const char*, int> >{{"1e2", 100}, {"12e1", 120}, {"1.2e1", 12}, {"120e-1", 12}, {"1.00", 1}, {"5.", 5}, {".1e1", 1}, {"0e5", 0}, {"1E1", 10}, {"1e+1", 10}}) {
        everywhere<T>(tn, p.first, (T)p.second);
    }
}
template<typename T>
static void allIntegers(const char* tn) { // every value of a small type
    for (long v = std::numeric_limits<T>::min(); v <= std::numeric_limits<T>::max(); ++v) {
        if (take()) { scalar1<T>(tn, dec<T>((T)v), (T)v, (v & 1) ? SEPARATE : EQUAL); }
        if (thorough() && take()) { scalar1<T>(tn, dec<T>((T)v), (T)v, (v & 1) ? POSITIONAL : DEFAULT); }
    }
}
template<typename T>
static void floats(const char* tn) {
    int digits = std::numeric_limits<T>::digits;
    std::vector<long double> mant = {0, 1, 3, 5, 7, 9, 10, 11, 13, 255, 12345};
    for (int b : {digits - 1, digits, digits / 2, digits / 2 + 1}) {
        long double p = 1;
        for (int i = 0; i < b; ++i) { p *= 2; }
        mant.push_back(p - 1);
        mant.push_back(p);
        mant.push_back(p / 2 + 1);
    }
    for (auto m : mant) {
        for (int e = thorough() ? -60 : -20; e <= (thorough() ? 60 : 20); ++e) {
            long double v = ldexpl(m, e);
            char buf[400];
            snprintf(buf, sizeof buf, "%.*Lf", e < 0 ? -e : 0, v);
            for (int neg = 0; neg < 2; ++neg) {
                T want = (T)(neg ? -v : v);
                std::string t = (neg ? "-" : "") + std::string(buf);
                for (int how : {(int)SEPARATE, (int)EQUAL, (int)POSITIONAL, (int)DEFAULT}) {
                    if (take()) { scalar1<T>(tn, t, want, how); }
                }
            }
        }
    }
    for (auto p : std::vector<std::pair<const char*, double> >{{"1.5e3", 1500}, {"25e-2", .25}, {"-4e0", -4}, {"1E3", 1000}, {"+.5", .5}, {"-.5", -.5}, {"5.", 5}, {"0.0", 0}, {"1e+2", 100}, {"00.5", .5}}) {
        everywhere<T>(tn, p.first, (T)p.second);
    }
}

static Strs texts() {
    Strs t = S({"", "a", "ab", "true", "false", "0", "-", "--", "-s", "=", "a=b", " ", "a b", " a ", "\t", "a\nb", "\xc3\xa9", "\xff\xfe", "\"q\"", "\\", "%s%n", "longer than the small buffer of std::string"});
    for (size_t n : {(size_t)15, (size_t)16, (size_t)255, (size_t)256, (size_t)4096}) { t.push_back(std::string(n, 'x') + "end"); }
    return t;
}

template<size_t N>
static void chars1(const std::string& text, int how, int flag) { // flag: -1 value, 0/1 BOOL given, 2/3 RBOOL
    Line l;
    std::string want = text;
    if (flag < 0) { l = lineFor(how, text); }
    else {
        l.c.args.push_back(kit(flag < 2 ? K_BOOL : K_RBOOL));
        l.lines.push_back(flag % 2 ? Strs(1, l.c.args[0].names[0]) : Strs());
        want = (flag == 1 || flag == 2) ? "true" : "false";
    }
    C().describe = [&]() { return describeLine(l, "char[" + str(N) + "]"); };
    struct { char pre[16]; char v[N]; char post[16]; } x;
    memset(&x, 0x5a, sizeof x);
    blet::Args a;
    build(a, l.c);
    a.updateArgument(l.c.args[0].names[0]).dest(x.v);
    parseAll(a, l);
    for (int i = 0; i < 16; ++i) { check(x.pre[i] == 0x5a && x.post[i] == 0x5a, "memory outside the char array is written"); }
    check(memchr(x.v, 0, N) != 0, "char array without terminating NUL");
    eqs(std::string(x.v), want.substr(0, N - 1), ("text in char[" + str(N) + "]").c_str());
    validated();
    state(str(N) + want + str(how));
    C().describe = nullptr;
}
template<size_t N>
static void chars() {
    std::vector<size_t> lens;
    for (size_t n = 0; n <= N + 3 || n < 8; ++n) { lens.push_back(n); }
    lens.push_back(1000);
    if (N > 16) { lens = {0, 1, 2, N / 2, N - 3, N - 2, N - 1, N, N + 1, N + 2, 2 * N, 4000}; }
    for (auto n : lens) {
        std::string t;
        for (size_t i = 0; i < n; ++i) { t += (char)('a' + i % 26); }
        for (int how = 0; how < HOWS; ++how) {
            if (how == GLUED && t.empty()) { continue; }
            if (take()) { chars1<N>(t, how, -1); }
        }
    }
    for (auto& t : texts()) {
        if (take()) { chars1<N>(t, SEPARATE, -1); }
        if (take()) { chars1<N>(t, DEFAULT, -1); }
    }
    for (int f = 0; f < 4; ++f) {
        if (take()) { chars1<N>("", 0, f); }
    }
}

template<typename T>
static void flags(const char* tn, const T& yes, const T& no) {
    for (auto k : {K_BOOL, K_RBOOL}) {
        for (int given = 0; given < 4; ++given) {
            if (!take()) { continue; }
            Line l;
            l.c.args.push_back(kit(k));
            std::string sf = l.c.args[0].names[0], lf = l.c.args[0].names[1];
            l.lines.push_back(given == 0 ? Strs() : given == 1 ? Strs{sf} : given == 2 ? Strs{lf, sf} : Strs{sf});
            if (given == 3) { l.lines.push_back(Strs()); }
            bool on = (given == 1 || given == 2) == (k == K_BOOL);
            C().describe = [&]() { return describeLine(l, tn); };
            T v = on ? no : yes;
            blet::Args a;
            build(a, l.c);
            a.updateArgument(sf).dest(v);
            parseAll(a, l);
            ++C().comparisons;
            if (!same(v, on ? yes : no)) { fail(std::string("flag destination of type ") + tn + "\n  expected: " + show(on ? yes : no) + "\n  observed: " + show(v)); }
            validated();
            state(std::string(tn) + kindName(k) + str(given));
            C().describe = nullptr;
        }
    }
}

// ------------------------------------------------------------------ vectors
template<typename T>
static void vec1(const char* tn, const Cfg& c, Machine& m, const Strs& t, const std::map<std::string, T>& val, bool early) {
    C().describe = [&]() { return cppCfg(c) + "args.updateArgument(" + q(c.args[0].names[0]) + ").dest(std::vector<" + tn + ">);" + (early ? " // called first" : "") + "\n" + cppParse(t); };
    Outcome want = m.run(t);
    if (want.status == OK) { // a flag taken verbatim as a value has no value of type T
        Strs all = want.args[0].flat;
        for (auto& g : want.args[0].groups) { all.insert(all.end(), g.begin(), g.end()); }
        for (auto& x : all) {
            if (!val.count(x)) { C().describe = nullptr; return; }
        }
    }
    std::vector<T> v;
    std::vector<std::vector<T> > vv;
    Kind k = c.args[0].kind;
    for (int shape = 0; shape < (grouped(k) ? 2 : 1); ++shape) {
        blet::Args a;
        if (early) {
            Cfg bare = c;
            Spec& b = bare.args[0];
            b.kind = isPos(k) ? K_POS : K_SIMPLE;
            b.n = 1;
            b.defaults.clear();
            build(a, bare);
        }
        else { build(a, c); }
        const std::string& nm = c.args[0].names[0];
        if (shape) { a.updateArgument(nm).dest(vv); }
        else { a.updateArgument(nm).dest(v); }
        if (early) { // same definition, made through the object dest() left in place
            blet::args::Argument& g = a.updateArgument(nm);
            if (k == K_NUMBER || k == K_POSNUM) { g.nargs(c.args[0].n); }
            if (k == K_INF || k == K_POSINF) { g.action(blet::Args::INFINITE); }
            if (k == K_MULTI) { g.action(blet::Args::APPEND); }
            if (k == K_EXT) { g.action(blet::Args::EXTEND); }
            if (k == K_MULTINUM) { g.action(blet::Args::APPEND).nargs(c.args[0].n); }
            if (k == K_EXTNUM) { g.action(blet::Args::EXTEND).nargs(c.args[0].n); }
            if (k == K_POSINFNUM) { g.nargs(c.args[0].n).action(blet::Args::INFINITE); }
            if (!c.args[0].defaults.empty()) { g.defaults(vec(c.args[0].defaults)); }
        }
        Outcome got = parseOnly(a, t);
        if (got.status == OK) { readAll(a, c, got); }
        std::string d = diff(got, want, c, M_ALL);
        ++C().comparisons;
        if (!d.empty()) { fail(d); }
        if (want.status == OK) {
            std::vector<Strs> groups = want.args[0].groups;
            Strs flat = want.args[0].flat;
            if (grouped(k)) {
                for (auto& g : groups) { flat.insert(flat.end(), g.begin(), g.end()); }
            }
            if (shape) {
                eq(vv.size(), groups.size(), "number of groups in the destination");
                for (size_t i = 0; i < groups.size(); ++i) {
                    eq(vv[i].size(), groups[i].size(), "size of a group in the destination");
                    for (size_t j = 0; j < groups[i].size(); ++j) {
                        if (!same((T)vv[i][j], val.at(groups[i][j]))) { fail("element of the destination\n  expected: " + show(val.at(groups[i][j])) + "\n  observed: " + show((T)vv[i][j])); }
                    }
                }
            }
            else {
                eq(v.size(), flat.size(), "size of the destination");
                for (size_t i = 0; i < flat.size(); ++i) {
                    if (!same((T)v[i], val.at(flat[i]))) { fail("element " + str(i) + " of the destination\n  expected: " + show(val.at(flat[i])) + "\n  observed: " + show((T)v[i])); }
                }
            }
        }
        else { check(v.empty() && vv.empty(), "destination written by a failing parse"); }
    }
    steps(t.size() + 1);
    validated();
    state(tn + canon(want) + kindName(k));
    sample();
    C().describe = nullptr;
}
template<typename T>
static void vectors(const char* tn, const std::map<std::string, T>& val) {
    Strs words;
    for (auto& p : val) { words.push_back(p.first); }
    std::vector<Kind> ks = {K_NUMBER, K_INF, K_MULTI, K_EXT, K_MULTINUM, K_EXTNUM, K_POSNUM, K_POSINF, K_POSINFNUM};
    for (auto k : ks) {
        for (int variant = 0; variant < 4; ++variant) { // defaults, early dest
            Cfg c;
            c.args.push_back(kit(k));
            if (variant % 2) {
                unsigned n = k == K_NUMBER || k == K_POSNUM || grouped(k) ? c.args[0].n : 3;
                for (unsigned i = 0; i < n; ++i) { c.args[0].defaults.push_back(words[i % words.size()]); }
            }
            Machine m(c);
            Strs alpha = words;
            if (isPos(k)) { alpha.push_back("--"); }
            else {
                alpha.push_back(c.args[0].names[0]);
                alpha.push_back(c.args[0].names[1]);
            }
            sequences(alpha, 0, thorough() ? 5 : 4, [&](const Strs& t) { vec1<T>(tn, c, m, t, val, variant >= 2); });
            if (!isPos(k)) {
                for (unsigned uses = 1; uses <= 20; ++uses) { // long accumulations
                    if (!take()) { continue; }
                    Strs t;
                    for (unsigned i = 0; i < uses; ++i) {
                        t.push_back(c.args[0].names[i % 2]);
                        for (unsigned j = 0; j < c.args[0].n; ++j) { t.push_back(words[(i + j) % words.size()]); }
                    }
                    vec1<T>(tn, c, m, t, val, variant >= 2);
                }
            }
        }
    }
}

// ------------------------------------------------------- custom conversions
struct Mine { int calls; bool exists; Strs v; };
struct Point { int x; };
static Mine g_s, g_v, g_vv;
static std::vector<Strs> g_groups;
static void one(Point& p, bool e, const std::string& s) { ++g_s.calls; g_s.exists = e; g_s.v = {s}; p.x = (int)s.size() + 1000; }
static void many(std::vector<Point>& p, bool e, const std::vector<std::string>& s) { ++g_v.calls; g_v.exists = e; g_v.v = s; p.resize(s.size()); }
static void groups(std::vector<std::vector<Point> >& p, bool e, const std::vector<std::vector<std::string> >& s) { ++g_vv.calls; g_vv.exists = e; g_groups = s; p.resize(s.size()); }
static void oneBool(bool& b, bool e, const std::string&) { ++g_s.calls; g_s.exists = e; b = e; }

static void custom() {
    std::vector<Kind> ks = {K_BOOL, K_RBOOL};
    ks.insert(ks.end(), valueKinds().begin(), valueKinds().end());
    ks.insert(ks.end(), posKinds().begin(), posKinds().end());
    for (auto k : ks) {
        for (int def = 0; def < (valueless(k) ? 1 : 2); ++def) {
            Cfg c;
            c.args.push_back(kit(k));
            if (def) { c.args[0].defaults = someDefaults(c.args[0], 2); }
            Machine m(c);
            Strs alpha = S({"%", "", "-u"});
            if (isPos(k)) { alpha.push_back("--"); }
            else {
                alpha.push_back(c.args[0].names[0]);
                alpha.push_back(c.args[0].names[1]);
                alpha.push_back(c.args[0].names[1] + "=%");
            }
            sequences(alpha, 0, thorough() ? 5 : 4, [&](const Strs& t) {
                C().describe = [&]() { return cppCfg(c) + "args.updateArgument(" + q(c.args[0].names[0]) + ").dest(object, function);\n" + cppParse(t) + " // twice"; };
                Outcome want = m.run(t);
                Point p = {-5};
                bool b = false;
                std::vector<Point> pv;
                std::vector<std::vector<Point> > pvv;
                blet::Args a;
                build(a, c);
                blet::args::Argument& g = a.updateArgument(c.args[0].names[0]);
                if (valueless(k)) { g.dest(b, &oneBool); }
                else if (scalar(k)) { g.dest(p, &one); }
                else if (grouped(k)) { g.dest(pvv, &groups); }
                else { g.dest(pv, &many); }
                for (int round = 0; round < 2; ++round) {
                    g_s = g_v = g_vv = Mine{0, false, Strs()};
                    g_groups.clear();
                    Outcome got = parseOnly(a, t);
                    eqs(std::string(statusName(got.status)), std::string(statusName(want.status)), "outcome");
                    Mine& x = valueless(k) || scalar(k) ? g_s : grouped(k) ? g_vv : g_v;
                    eq(g_s.calls + g_v.calls + g_vv.calls, want.status == OK ? 1 : 0, "calls of the conversion");
                    if (want.status != OK) { continue; }
                    eq(x.exists, want.args[0].exist, "existence flag given to the conversion");
                    if (grouped(k)) {
                        check(g_groups == want.args[0].groups, "groups given to the conversion differ");
                        eq(pvv.size(), g_groups.size(), "object passed to the conversion");
                    }
                    else if (!valueless(k)) { eqs(x.v, want.args[0].flat, "values given to the conversion"); }
                    if (scalar(k)) { eq(p.x, (int)want.args[0].flat[0].size() + 1000, "object passed to the conversion"); }
                }
                steps(t.size() + 1);
                validated();
                state("custom" + canon(want) + kindName(k));
                C().describe = nullptr;
            });
        }
    }
}

// many destinations at once: each gets its own argument's value
static void together() {
    Strs pieces = S({"-a1", "--bb=2", "-c", "-d", "-e", "five", "7"});
    for (unsigned mask = 0; mask < 128; ++mask) {
        for (int rev = 0; rev < 2; ++rev) {
            if (!take()) { continue; }
            Strs t;
            if (mask & 1) { t.push_back("-a1"); }
            if (mask & 2) { t.push_back("--bb=2.5"); }
            if (mask & 4) { t.push_back("-c"); }
            if (mask & 8) { t.push_back("-d"); t.push_back("four"); }
            if (mask & 16) { t.push_back("-e"); t.push_back("5"); t.push_back("6"); }
            if (mask & 32) { t.push_back("-fx"); t.push_back("-fy"); }
            if (rev) {
                Strs r;
                for (size_t i = t.size(); i-- > 0;) {
                    size_t s = i;
                    while (s > 0 && t[s][0] != '-') { --s; }
                    r.insert(r.end(), t.begin() + s, t.begin() + i + 1);
                    i = s;
                }
                t = r;
            }
            if (mask & 64) { t.push_back("word"); }
            int ia = -1;
            double db = -1;
            bool bc = false;
            const char* sd = 0;
            std::vector<int> le;
            std::vector<std::string> lf;
            char pos[4] = "";
            C().describe = [&]() { return "seven arguments -a -b/--bb -c -d -e -f POS, each with its destination\n" + cppParse(t); };
            blet::Args a;
            a.addArgument("-a").defaults("11").dest(ia);
            a.addArgument(vec(S({"-b", "--bb"}))).defaults("1.25").dest(db);
            a.addArgument("-c").action(blet::Args::STORE_TRUE).dest(bc);
            a.addArgument("-d").defaults("dd").dest(sd);
            a.addArgument("-e").nargs(2).defaults(vec(S({"8", "9"}))).dest(le);
            a.addArgument("-f").action(blet::Args::APPEND).dest(lf);
            a.addArgument("POS").defaults("po").dest(pos);
            Outcome o = parseOnly(a, t);
            eqs(std::string(statusName(o.status)), std::string("ok"), "outcome");
            eq(ia, mask & 1 ? 1 : 11, "int destination");
            eq(db, mask & 2 ? 2.5 : 1.25, "double destination");
            eq(bc, (bool)(mask & 4), "bool destination");
            eqs(std::string(sd), std::string(mask & 8 ? "four" : "dd"), "const char* destination");
            check(le == (mask & 16 ? std::vector<int>{5, 6} : std::vector<int>{8, 9}), "vector<int> destination");
            eqs(lf, !(mask & 32) ? Strs() : rev ? S({"y", "x"}) : S({"x", "y"}), "vector<string> destination");
            eqs(std::string(pos), std::string(mask & 64 ? "wor" : "po"), "char[4] destination");
            steps(t.size() + 1);
            validated();
            state("together" + str(mask));
            C().describe = nullptr;
        }
    }
}

// the common sweep with a destination of every shape on every argument
struct Bound {
    std::string s;
    const char* cp;
    char c4[4];
    bool b;
    Strs v;
    std::vector<const char*> vc;
    std::vector<Strs> vv;
    std::vector<std::vector<const char*> > vvc;
    int calls;
    bool exists;
    Strs seen;
    std::vector<Strs> seenGroups;
    Bound() : s("before"), cp("before"), b(false), calls(0), exists(false) { strcpy(c4, "bef"); }
};
static void ownS(Bound& b, bool e, const std::string& x) { ++b.calls; b.exists = e; b.seen.assign(1, x); }
static std::vector<Bound*> g_bound; // by element count of the destination vector
static void ownV(std::vector<size_t>& b, bool e, const Strs& x) { Bound& o = *g_bound[b[0]]; ++o.calls; o.exists = e; o.seen = x; }
static void ownVV(std::vector<std::vector<size_t> >& b, bool e, const std::vector<Strs>& x) { Bound& o = *g_bound[b[0][0]]; ++o.calls; o.exists = e; o.seenGroups = x; }

static void bound(const Case& k, int shape) {
    static const char* const kinds[] = {"its natural type", "std::vector<std::string>", "std::vector<std::vector<std::string>>", "char arrays", "an object with its own conversion"};
    const Cfg& c = k.c;
    C().describe = [&]() { return std::string("// every argument has a destination: ") + kinds[shape] + "\n" + cppCase(k); };
    std::vector<Bound> d(c.args.size());
    std::vector<std::vector<size_t> > iv(c.args.size());
    std::vector<std::vector<std::vector<size_t> > > ivv(c.args.size());
    g_bound.clear();
    blet::Args a;
    build(a, c);
    for (size_t i = 0; i < c.args.size(); ++i) {
        Kind x = c.args[i].kind;
        blet::args::Argument& g = a.updateArgument(c.args[i].names[0]);
        g_bound.push_back(&d[i]);
        iv[i].push_back(i);
        ivv[i].push_back(std::vector<size_t>(1, i));
        bool list = flatList(x) || grouped(x);
        switch (shape) {
            case 0:
                if (valueless(x)) { g.dest(d[i].b); }
                else if (scalar(x)) { g.dest(d[i].s); }
                else if (grouped(x)) { g.dest(d[i].vv); }
                else { g.dest(d[i].v); }
                break;
            case 1: g.dest(d[i].v); break;
            case 2: g.dest(d[i].vv); break;
            case 3:
                if (grouped(x)) { g.dest(d[i].vvc); }
                else if (list) { g.dest(d[i].vc); }
                else if (i % 2 || valueless(x)) { g.dest(d[i].c4); }
                else { g.dest(d[i].cp); }
                break;
            default:
                if (grouped(x)) { g.dest(ivv[i], &ownVV); }
                else if (list) { g.dest(iv[i], &ownV); }
                else { g.dest(d[i], &ownS); }
                break;
        }
    }
    runBefore(a, k);
    if (!k.before.empty()) { // lists append to what a vector holds
        for (size_t i = 0; i < d.size(); ++i) { d[i] = Bound(); }
    }
    Outcome want = k.m.run(k.line), got = parseOnly(a, k.line);
    if (got.status == OK) { readAll(a, c, got); }
    ++C().comparisons;
    std::string df = diff(got, want, c, M_ALL);
    if (!df.empty()) { fail(df); }
    for (size_t i = 0; want.status == OK && i < c.args.size(); ++i) {
        Kind x = c.args[i].kind;
        const ArgState& w = want.args[i];
        const Bound& o = d[i];
        std::string nm = "destination of " + c.args[i].names[0];
        bool list = flatList(x) || grouped(x), on = x == K_RBOOL ? !w.exist : w.exist;
        std::string text = valueless(x) ? (on ? "true" : "false") : scalar(x) ? w.flat[0] : "";
        if (!w.exist && scalar(x) && c.args[i].defaults.empty() && shape) { continue; } // nothing to give
        Strs all = valueless(x) ? Strs(1, text) : w.flat;
        std::vector<Strs> rows = w.groups;
        for (auto& g : w.groups) { all.insert(all.end(), g.begin(), g.end()); }
        if (!grouped(x)) {
            for (auto& e : all) { rows.push_back(Strs(1, e)); }
        }
        switch (shape) {
            case 0:
                if (valueless(x)) { eq(o.b, on, nm.c_str()); }
                else if (scalar(x)) { eqs(o.s, text, nm.c_str()); }
                else if (grouped(x)) { check(o.vv == w.groups, nm.c_str()); }
                else { eqs(o.v, w.flat, nm.c_str()); }
                break;
            case 1:
                if (x == K_HELP || x == K_VERSION) { break; }
                eqs(o.v, all, nm.c_str());
                break;
            case 2:
                if (x == K_HELP || x == K_VERSION) { break; }
                if (o.vv != rows) { fail(nm + "\n  expected: " + q(rows) + "\n  observed: " + q(o.vv)); }
                break;
            case 3:
                if (grouped(x)) {
                    eq(o.vvc.size(), rows.size(), nm.c_str());
                    for (size_t j = 0; j < rows.size(); ++j) { eqs(Strs(o.vvc[j].begin(), o.vvc[j].end()), rows[j], nm.c_str()); }
                }
                else if (list) { eqs(Strs(o.vc.begin(), o.vc.end()), w.flat, nm.c_str()); }
                else if (x == K_HELP || x == K_VERSION) { break; }
                else if (i % 2 || valueless(x)) { eqs(std::string(o.c4), text.substr(0, 3), nm.c_str()); }
                else { eqs(std::string(o.cp), text, nm.c_str()); }
                break;
            default:
                eq(o.calls, 1, ("calls of the conversion of " + c.args[i].names[0]).c_str());
                eq(o.exists, w.exist, "existence flag given to the conversion");
                if (grouped(x)) { check(o.seenGroups == w.groups, "groups given to the conversion"); }
                else if (!valueless(x)) { eqs(o.seen, w.flat, "values given to the conversion"); }
                break;
        }
    }
    steps(k.line.size() + 1 + k.before.size());
    validated();
    state(canon(want) + str(shape));
    C().describe = nullptr;
}
static void boundAll(const Case& k) {
    for (int shape = 0; shape < 5; ++shape) { bound(k, shape); }
}

void explore() {
    together();
    custom();
    flags<bool>("bool", true, false);
    flags<char>("char", 1, 0);
    flags<unsigned char>("unsigned char", 1, 0);
    flags<short>("short", 1, 0);
    flags<unsigned short>("unsigned short", 1, 0);
    flags<int>("int", 1, 0);
    flags<unsigned int>("unsigned int", 1, 0);
    flags<long>("long", 1, 0);
    flags<unsigned long>("unsigned long", 1, 0);
    flags<long long>("long long", 1, 0);
    flags<unsigned long long>("unsigned long long", 1, 0);
    flags<float>("float", 1, 0);
    flags<double>("double", 1, 0);
    flags<long double>("long double", 1, 0);
    flags<std::string>("std::string", "true", "false");
    flags<const char*>("const char*", "true", "false");
    for (auto& t : texts()) {
        everywhere<std::string>("std::string", t, t);
        everywhere<const char*>("const char*", t, t.c_str());
    }
    for (auto v : {"0", "0.0", "-0", "00", "+0", "0e5", "1", "1.0", "+1", "01", "1e0", "0.5", "-0.1", ".25", "1e-9", "0.000", "-0.0e3", "2", "256", "-1", "65536", "4294967296", "0.99", "+.5"}) { everywhere<bool>("bool", v, strtod(v, 0) != 0); }
    chars<1>();
    chars<2>();
    chars<3>();
    chars<4>();
    chars<5>();
    chars<6>();
    chars<7>();
    chars<8>();
    chars<16>();
    chars<64>();
    chars<256>();
    integers<char>("char");
    integers<unsigned char>("unsigned char");
    integers<short>("short");
    integers<unsigned short>("unsigned short");
    integers<int>("int");
    integers<unsigned int>("unsigned int");
    integers<long>("long");
    integers<unsigned long>("unsigned long");
    integers<long long>("long long");
    integers<unsigned long long>("unsigned long long");
    allIntegers<char>("char");
    allIntegers<unsigned char>("unsigned char");
    allIntegers<short>("short");
    allIntegers<unsigned short>("unsigned short");
    floats<float>("float");
    floats<double>("double");
    floats<long double>("long double");
    vectors<std::string>("std::string", {{"", ""}, {"a b", "a b"}, {"x,y", "x,y"}});
    vectors<const char*>("const char*", {{"", ""}, {"a b", "a b"}, {"long enough to be stored on the heap", "long enough to be stored on the heap"}});
    vectors<int>("int", {{"0", 0}, {"-2147483648", (int)-2147483648LL}, {"2147483647", 2147483647}});
    vectors<unsigned long>("unsigned long", {{"0", 0}, {"18446744073709551615", ~0ul}, {"9007199254740993", 9007199254740993ul}});
    vectors<long>("long", {{"-9223372036854775807", -9223372036854775807l}, {"9007199254740993", 9007199254740993l}, {"12", 12}});
    vectors<double>("double", {{"0.5", 0.5}, {"-1e3", -1000}, {"9007199254740991", 9007199254740991.0}});
    vectors<bool>("bool", {{"0", false}, {"1", true}, {"0.5", true}});
    vectors<unsigned char>("unsigned char", {{"0", 0}, {"255", 255}, {"65", 65}});
    vectors<float>("float", {{"0.5", 0.5f}, {"16777215", 16777215.f}});
    grand(grandLevel(0), boundAll);
}
