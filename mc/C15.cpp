// C15: all readers of an argument agree with each other.
#include <cmath>

#include "observe.hpp"
#include "readers.hpp"
#include "grand.hpp"
using namespace mc;


static Strs texts() {
    return S({"5", "-2.5", "+7", "abc", "", "0", "1e2", "5x", "-", "a, b", "(x)", " ", "5e", "5 6", "1E-2", ".5", "5.", ".", "-.", "+", "1.2.3", "--", "5euros", "3e+", "1,5", "00012", "9007199254740993"});
}

// one argument that gets the given values (present or as defaults)
static void given(Kind k, const Strs& values, int how, unsigned group = 0) { // how: 0 present, 1 absent with defaults, 2 present, then absent with defaults, 3 other values first
    Cfg c;
    c.args.push_back(kit(k));
    Spec& s = c.args[0];
    ArgState w;
    if (k == K_NUMBER || k == K_POSNUM) { s.n = (unsigned)values.size(); }
    if ((k == K_NUMBER || k == K_POSNUM) && s.n < 2) { return; }
    if (group) { s.n = group; }
    if (scalar(k) && values.size() != 1) { return; }
    if (grouped(k) && values.size() % s.n) { return; }
    Strs t, other;
    auto line = [&](const Strs& v) {
        Strs r;
        if (isPos(k)) {
            r.push_back("--");
            r.insert(r.end(), v.begin(), v.end());
        }
        else if (k == K_SIMPLE) { r.push_back("-s=" + v[0]); }
        else if (k == K_MULTI) {
            for (auto& x : v) { r.push_back("--multi=" + x); }
        }
        else {
            for (size_t i = 0; i < v.size(); ++i) {
                if (i == 0 || (k == K_MULTINUM && i % s.n == 0) || (k == K_EXT && i == 2)) { r.push_back(s.names[1]); }
                r.push_back(v[i]);
            }
        }
        return r;
    };
    Strs o = values;
    for (size_t i = 0; i < o.size(); ++i) { o[i] = i % 2 ? "word" : "1" + str(i); }
    if (k == K_INF || k == K_EXT || !scalar(k)) { other = line(o); }
    else { other = line(o); }
    bool absent = how == 1 || how == 2;
    if (absent) { s.defaults = values; }
    t = absent ? Strs() : line(values);
    std::vector<Strs> lines;
    if (how >= 2) { lines.push_back(other); }
    lines.push_back(t);
    C().describe = [&]() {
        std::string r = cppCfg(c);
        for (auto& l : lines) { r += cppParse(l) + "\n"; }
        return r;
    };
    Machine m(c);
    Outcome want = m.run(t);
    if (want.status == OK) { // otherwise the line means something else ("--" taken as end of options)
        blet::Args a;
        build(a, c);
        for (auto& l : lines) {
            Outcome got = parseOnly(a, l);
            if (&l == &lines.back() && got.status != OK) { fail("unexpected outcome " + std::string(statusName(got.status)) + " " + got.what); }
        }
        readers(a[s.names[0]], k, want.args[0]);
        readers(a.updateArgument(s.names.back()), k, want.args[0]);
    }
    steps(lines.size() + t.size());
    validated();
    state(canon(want) + kindName(k));
    sample();
    C().describe = nullptr;
}

static void lists() {
    Strs all = texts(), few = S({"5", "-2.5", "abc", "", "5x", "a, b", "(x)"});
    std::vector<Kind> ks = valueKinds();
    ks.insert(ks.end(), posKinds().begin(), posKinds().end());
    for (auto k : ks) {
        for (int how = 0; how < 4; ++how) {
            sequences(all, 0, thorough() ? 3 : 2, [&](const Strs& v) {
                if (v.empty() && scalar(k)) { return; }
                given(k, v, how);
            });
            if (!scalar(k)) { sequences(few, 3, thorough() ? 5 : 4, [&](const Strs& v) { given(k, v, how); }); }
            for (unsigned n = 5; n <= 40; ++n) {
                if (!take()) { continue; }
                Strs v;
                for (unsigned i = 0; i < n; ++i) { v.push_back(i % 3 ? str(i) + ".5" : "w" + str(i)); }
                given(k, v, how);
            }
            if (scalar(k)) { continue; }
            // long lists and large groups
            for (unsigned n : {63u, 64u, 65u, 100u, 127u, 128u, 129u, 255u, 256u, 257u, 1000u}) {
                if (!take()) { continue; }
                Strs v;
                for (unsigned i = 0; i < n; ++i) { v.push_back(i % 3 ? str(i) + ".5" : "w" + str(i)); }
                given(k, v, how);
            }
            if (!grouped(k)) { continue; }
            for (unsigned g = 3; g <= 70; ++g) {
                for (unsigned n = 1; n <= 3; ++n) {
                    if (g == 43 || !take()) { continue; } // 43 is '+'
                    Strs v;
                    for (unsigned i = 0; i < n * g; ++i) { v.push_back(i % 3 ? str(i) + ".5" : "w" + str(i)); }
                    given(k, v, how, g);
                }
            }
        }
    }
}

static void numbers() {
    const char* alpha = "015-+.ea";
    for (size_t len = 0; len <= (thorough() ? 6u : 5u); ++len) {
        uint64_t total = 1, k = strlen(alpha);
        for (size_t i = 0; i < len; ++i) { total *= k; }
        if (skipBlock(total)) { continue; }
        for (uint64_t x = 0; x < total; ++x) {
            if (!take()) { continue; }
            std::string s(len, ' ');
            uint64_t y = x;
            for (size_t i = len; i-- > 0; y /= k) { s[i] = alpha[y % k]; }
            given(K_SIMPLE, Strs(1, s), 0);
            if (len <= 4) {
                given(K_SIMPLE, Strs(1, s), 3);
                given(K_POS, Strs(1, s), 1);
                given(K_INF, {s, "3", s}, 0);
                given(K_MULTINUM, {"x", s, s, "4"}, 0);
            }
        }
    }
}

// every kind in any command line, including those never mentioned
static void lines() {
    std::vector<Kind> ks = optionKinds();
    ks.insert(ks.end(), posKinds().begin(), posKinds().end());
    for (auto k : ks) {
        for (int def = 0; def < (valueless(k) ? 1 : 2); ++def) {
            Cfg c;
            c.args.push_back(kit(k));
            if (def) { c.args[0].defaults = someDefaults(c.args[0], 2); }
            c.args.push_back(kit(K_RBOOL, false));
            if (k == K_RBOOL) { c.args.pop_back(); }
            c.args.push_back(Spec(S({"-q"}), K_MULTI));
            Machine m(c);
            Strs alpha = S({"%", "12", "-r", "-q1"});
            if (k == K_RBOOL) { alpha.erase(alpha.begin() + 2); }
            if (!isPos(k)) {
                alpha.push_back(c.args[0].names[0]);
                alpha.push_back(c.args[0].names[1]);
            }
            sequences(alpha, 0, thorough() ? 6 : 5, [&](const Strs& t) {
                C().describe = [&]() { return cppCfg(c) + cppParse(t); };
                Outcome want = m.run(t);
                blet::Args a;
                build(a, c);
                Outcome got = parseOnly(a, t);
                if (got.status != want.status) { fail("outcome " + std::string(statusName(got.status)) + " instead of " + statusName(want.status)); }
                if (want.status == OK) {
                    for (size_t i = 0; i < c.args.size(); ++i) { readers(a[c.args[i].names[0]], c.args[i].kind, want.args[i]); }
                }
                steps(t.size() + 1);
                validated();
                state(canon(want) + kindName(k));
                C().describe = nullptr;
            });
        }
    }
}

void explore() {
    refusals() = true;
    lines();
    lists();
    numbers();
    grand(grandLevel(0), grandCheck);
    refusals() = false;
    grand(grandLevel(), grandCheck, G_STRUCT | G_HISTORY | G_PAIRS);
}
