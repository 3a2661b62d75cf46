// C02: all spellings of an option use are equivalent.
// Abstract command lines (sequences of uses and plain tokens) are rendered in
// every documented spelling; all renderings must have the outcome the model
// gives to the plainest one.
#include "grand.hpp"
using namespace mc;

struct Item {
    int arg; // index in cfg, -1: plain token
    Strs values;
    int rank; // which of several equal uses (for plain tokens: text)
};

// Is the attached / glued / separate form of this value documented as the same?
static bool canSeparate(const Machine& m, const Spec& s, const std::string& v) {
    if (v == "--") {
        return false;
    }
    if (s.kind == K_INF || s.kind == K_EXT) {
        return !m.known(v);
    }
    return true;
}

struct Renderer {
    const Cfg& c;
    const Machine& m;
    const std::vector<Item>& items;
    bool allFlags;
    std::set<Strs> out;

    // lastShort: the last token is a cluster of value-less short options and may grow
    void go(size_t i, Strs toks, bool lastShort) {
        if (i == items.size()) {
            out.insert(toks);
            return;
        }
        const Item& it = items[i];
        if (it.arg < 0) {
            toks.push_back(it.values[0]);
            go(i + 1, toks, false);
            return;
        }
        const Spec& s = c.args[it.arg];
        size_t used = 0;
        for (auto& f : s.names) {
            bool sh = shortFlag(f);
            if (!allFlags && used >= 2 && !sh) {
                continue;
            }
            ++used;
            Strs heads;
            heads.push_back(f);
            if (c.alternative && !sh) {
                heads.push_back(f.substr(1));
            }
            for (auto& h : heads) {
                bool cluster = sh && h == f;
                for (int merge = 0; merge < 2; ++merge) {
                    if (merge && !(cluster && lastShort)) {
                        continue;
                    }
                    Strs base = toks;
                    if (merge) {
                        base.back() += h.substr(1);
                        if (c.alternative && m.find("-" + base.back()) >= 0) {
                            continue; // reads as a long option
                        }
                    }
                    else {
                        base.push_back(h);
                    }
                    if (valueless(s.kind)) {
                        go(i + 1, base, cluster);
                        continue;
                    }
                    if (it.values.size() != 1 || s.kind == K_NUMBER || grouped(s.kind)) {
                        Strs t = base;
                        t.insert(t.end(), it.values.begin(), it.values.end());
                        go(i + 1, t, false);
                        continue;
                    }
                    const std::string& v = it.values[0];
                    bool open = s.kind == K_INF || s.kind == K_EXT;
                    bool nextPlain = i + 1 < items.size() && items[i + 1].arg < 0;
                    if (canSeparate(m, s, v) && !(open && nextPlain)) {
                        Strs t = base;
                        t.push_back(v);
                        go(i + 1, t, false);
                    }
                    Strs t = base;
                    t.back() += "=" + v;
                    go(i + 1, t, false);
                    if (cluster && !v.empty() && v[0] != '=') {
                        t = base;
                        t.back() += v;
                        if (!(c.alternative && m.find("-" + Machine::head(t.back())) >= 0)) {
                            go(i + 1, t, false);
                        }
                    }
                }
            }
        }
    }
};

static uint64_t g_renderings = 0;

static void explore1(const Cfg& c, const std::vector<Item>& items, bool allFlags) {
    Machine m(c);
    Renderer r = {c, m, items, allFlags, {}};
    r.go(0, Strs(), false);
    // plainest spelling: long flag with '=' (values) -- built from the items themselves
    Strs plain;
    for (auto& it : items) {
        if (it.arg < 0) {
            plain.push_back(it.values[0]);
            continue;
        }
        const Spec& s = c.args[it.arg];
        std::string l = longOf(s);
        if (valueless(s.kind)) {
            plain.push_back(l);
        }
        else if (it.values.size() == 1 && s.kind != K_NUMBER && !grouped(s.kind)) {
            plain.push_back(l + "=" + it.values[0]);
        }
        else {
            plain.push_back(l);
            plain.insert(plain.end(), it.values.begin(), it.values.end());
        }
    }
    Outcome want = m.run(plain);
    state(canon(want));
    for (auto& t : r.out) {
        C().describe = [&]() { return cppCfg(c) + cppParse(t) + "\n// must equal\n" + cppParse(plain); };
        Outcome got = observe(c, t);
        ++C().comparisons;
        steps(t.size());
        validated();
        ++g_renderings;
        // the option name in an error is the spelling that was used: not compared
        std::string d = diff(got, want, c, M_ALL & ~M_NAME);
        if (!d.empty()) {
            fail(d);
        }
    }
    sample();
    C().describe = nullptr;
    bump("spellings", r.out.size());
}

static Spec multiFlag(Kind k) {
    Spec s = kit(k);
    char u = (char)toupper(s.names[0][1]);
    s.names.push_back(std::string("-") + u);
    s.names.push_back(s.names[1] + "-alias");
    s.names.push_back("-" + std::string(1, (char)('0' + k)));
    return s;
}

static Strs texts() {
    Strs v = S({"v", "", "a b", "k=v", "=", "==x", "-z", "-b", "--bool", "--zz=1", "-", "--", "x-", "b", "-5", "\xc3\xa9", "a=b=c", "-b=1", " "});
    v.push_back(std::string(40, 'L'));
    if (thorough()) {
        // every text of length <= 3 over structural characters
        const char* ch = "-=bs ";
        for (int n = 1; n <= 3; ++n) {
            int tot = n == 1 ? 5 : n == 2 ? 25 : 125;
            for (int x = 0; x < tot; ++x) {
                std::string s;
                for (int y = x, i = 0; i < n; ++i, y /= 5) {
                    s += ch[y % 5];
                }
                if (std::find(v.begin(), v.end(), s) == v.end()) {
                    v.push_back(s);
                }
            }
        }
    }
    return v;
}

// all uses of an argument (value texts by position)
static std::vector<Item> uses(int arg, const Spec& s, const Strs& vals) {
    std::vector<Item> r;
    if (valueless(s.kind)) {
        r.push_back({arg, {}, 0});
    }
    else if (s.kind == K_NUMBER || s.kind == K_MULTINUM || s.kind == K_EXTNUM) {
        for (auto& v : vals) {
            if (v == "--") {
                continue;
            }
            r.push_back({arg, {v, "w"}, 0});
            r.push_back({arg, {"w", v}, 0});
        }
    }
    else {
        for (auto& v : vals) {
            r.push_back({arg, {v}, 0});
        }
    }
    return r;
}

// Many uses of one option: every spelling of every use, values that are empty,
// new, repeated or the default; with and without default.
static void repeats() {
    for (auto k : {K_SIMPLE, K_MULTI, K_EXT, K_INF}) {
        for (int def = 0; def < 2; ++def) {
            for (int form = 0; form < 4; ++form) {
                Cfg c;
                c.alternative = form == 2;
                c.strict = form == 3;
                Spec s = kit(k);
                if (def) { s.defaults = S({"d"}); }
                s.required = form == 1 && !def;
                c.args = {s, kit(K_BOOL), kit(K_POS)};
                Machine m(c);
                std::string sh = shortOf(s), lo = longOf(s);
                const Strs alpha = {sh + "|", sh + "|%", lo + "|d", lo + "=", sh + "=%", sh + "d", "-b" + sh.substr(1) + "|"};
                sequences(alpha, 3, thorough() ? 6 : 5, [&](const Strs& u) {
                    Strs t;
                    for (size_t i = 0; i < u.size(); ++i) {
                        std::string x = u[i];
                        size_t bar = x.find('|');
                        t.push_back(x.substr(0, bar));
                        if (bar != std::string::npos) { t.push_back(x.substr(bar + 1)); }
                    }
                    C().describe = [&]() { return cppCfg(c) + cppParse(t); };
                    Outcome want = m.run(t);
                    Outcome got = observe(c, t);
                    ++C().comparisons;
                    steps(t.size());
                    validated();
                    std::string d = diff(got, want, c, M_ALL);
                    if (!d.empty()) { fail(d); }
                    state(canon(want));
                    C().describe = nullptr;
                });
            }
        }
    }
}

void explore() {
    repeats();
    Strs vals = texts();
    for (int alt = 0; alt < 2; ++alt) {
        // one option of every kind with every value text, surrounded by flags and plain tokens
        for (auto k : optionKinds()) {
            Cfg c;
            c.alternative = alt;
            c.args.push_back(multiFlag(k));
            if (k != K_BOOL) {
                c.args.push_back(multiFlag(K_BOOL));
            }
            if (k != K_RBOOL) {
                c.args.push_back(multiFlag(K_RBOOL));
            }
            c.args.push_back(kit(K_POS));
            Machine m(c);
            std::vector<Item> us = uses(0, c.args[0], vals);
            std::vector<std::vector<Item> > around = {{}, {{1, {}, 0}}, {{-1, {"p"}, 0}}, {{1, {}, 0}, {2 < (int)c.args.size() - 1 ? 2 : 1, {}, 0}}};
            for (auto& before : around) {
                for (auto& after : around) {
                    if (!thorough() && !before.empty() && !after.empty() && (&before != &after || before.size() > 1)) {
                        continue;
                    }
                    for (auto& u : us) {
                        if (!take()) {
                            continue;
                        }
                        // an EXTNUM first value that names a registered option is not a value
                        if (c.args[0].kind == K_EXTNUM && m.known(u.values[0])) {
                            continue;
                        }
                        if ((k == K_EXTNUM) && !after.empty() && after[0].arg < 0) {
                            continue;
                        }
                        std::vector<Item> items = before;
                        items.push_back(u);
                        items.insert(items.end(), after.begin(), after.end());
                        explore1(c, items, false);
                    }
                }
            }
        }
        // two uses of two kinds (or the same), all flags
        Strs few = thorough() ? S({"v", "", "k=v", "-b", "--bool"}) : S({"v", "k=v"});
        for (auto k1 : optionKinds()) {
            for (auto k2 : optionKinds()) {
                Cfg c;
                c.alternative = alt;
                c.args.push_back(multiFlag(k1));
                if (k1 != k2) {
                    c.args.push_back(multiFlag(k2));
                }
                c.args.push_back(kit(K_POS));
                Machine m(c);
                for (auto& u1 : uses(0, c.args[0], few)) {
                    for (auto& u2 : uses(k1 == k2 ? 0 : 1, c.args[k1 == k2 ? 0 : 1], few)) {
                        for (int mid = 0; mid < 2; ++mid) {
                            if (!take()) {
                                continue;
                            }
                            if (mid && k1 == K_EXTNUM) {
                                continue;
                            }
                            if ((k1 == K_EXTNUM && m.known(u1.values[0])) || (k2 == K_EXTNUM && m.known(u2.values[0]))) {
                                continue;
                            }
                            std::vector<Item> items = {u1};
                            if (mid) {
                                items.push_back({-1, {"p"}, 0});
                            }
                            items.push_back(u2);
                            explore1(c, items, true);
                        }
                    }
                }
            }
        }
        // clusters: every sequence of value-less uses, optionally ended by a value
        for (int len = 1; len <= (thorough() ? 6 : 5) - alt; ++len) {
            for (int bits = 0; bits < (1 << len); ++bits) {
                for (int last = 0; last < 4; ++last) {
                    if (!take()) {
                        continue;
                    }
                    Cfg c;
                    c.alternative = alt;
                    c.args = {kit(K_BOOL), kit(K_RBOOL), kit(K_SIMPLE), kit(K_MULTI)};
                    std::vector<Item> items;
                    for (int i = 0; i < len; ++i) {
                        items.push_back({bits >> i & 1, {}, 0});
                    }
                    if (last == 1) {
                        items.push_back({2, {"val"}, 0});
                    }
                    if (last == 2) {
                        items.push_back({3, {"b=r"}, 0});
                    }
                    if (last == 3) {
                        items.push_back({3, {"one"}, 0});
                        items.push_back({3, {"two"}, 0});
                    }
                    explore1(c, items, true);
                }
            }
        }
    }
    grand(grandLevel(), grandCheck);
}
