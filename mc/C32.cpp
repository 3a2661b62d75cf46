// C32: what the synopsis of the usage text shows can be typed.
// The usage text of the real object is read back as a grammar; every command
// line the grammar derives (options in and out, repetitions, orders) is parsed
// by the same definitions and must give exactly the derived values; a line that
// leaves out what the synopsis does not bracket must be refused.
#include "grand.hpp"
using namespace mc;

namespace {
struct Seg { // placeholders, once or repeated
    size_t words;
    bool repeat, more; // more: zero times is possible (something of it stands before)
};
struct Item {
    std::string name; // flag or positional
    bool option, optional;
    std::vector<Seg> segs;
};
struct Synopsis {
    std::vector<Item> items;
    bool dashes;
};
} // namespace

static Strs lexed(const std::string& s) {
    Strs r;
    std::string w;
    auto flush = [&]() {
        if (!w.empty()) { r.push_back(w); }
        w.clear();
    };
    for (size_t i = 0; i < s.size(); ++i) {
        char c = s[i];
        if (c == ' ' || c == '\n') { flush(); }
        else if (c == '[' || c == ']' || c == '{') {
            flush();
            r.push_back(std::string(1, c));
        }
        else if (c == '}') {
            flush();
            if (s.compare(i, 4, "}...") != 0) { fail("the synopsis has '}' without '...'"); }
            r.push_back("}...");
            i += 3;
        }
        else { w += c; }
    }
    flush();
    return r;
}
static void bad(const std::string& why, const std::string& usage) { fail(why + "\n" + usage); }
static bool dots(const std::string& w) { return w.size() > 3 && w.compare(w.size() - 3, 3, "...") == 0; }

static Synopsis readSynopsis(const std::string& usage) {
    Synopsis r;
    r.dashes = false;
    std::string head = "usage: prog", t = usage.substr(0, usage.find("\n\n"));
    if (t.compare(0, head.size(), head) != 0) { bad("the usage does not start with the program", usage); }
    Strs w = lexed(t.substr(head.size()));
    for (auto& x : w) { r.dashes = r.dashes || x == "--"; }
    bool opts = true;
    if (!r.dashes) {
        for (auto& x : w) {
            if (x == "[") { continue; }
            opts = x[0] == '-';
            break;
        }
    }
    for (size_t i = 0; i < w.size();) {
        if (w[i] == "--") {
            if (!opts) { bad("the synopsis has two '--'", usage); }
            opts = false;
            ++i;
            continue;
        }
        Item it;
        it.option = opts;
        it.optional = w[i] == "[";
        if (it.optional) { ++i; }
        if (opts) {
            if (i >= w.size() || w[i][0] != '-') { bad("the synopsis has no flag where an option starts", usage); }
            it.name = w[i++];
        }
        // up to the bracket, the next flag, or (positional, no bracket) another name
        while (i < w.size()) {
            if (w[i] == "]") { break; }
            if (w[i] == "[" || w[i] == "--") {
                if (it.optional) { bad("the synopsis has an open bracket", usage); }
                break;
            }
            if (opts && w[i][0] == '-') { break; }
            if (w[i] == "{") {
                size_t n = 0;
                std::string first = i + 1 < w.size() ? w[i + 1] : "";
                if (!opts && !it.optional && !it.name.empty() && first != it.name) { break; }
                for (++i; i < w.size() && w[i] != "}..."; ++i, ++n) {
                    if (!opts && it.name.empty()) { it.name = w[i]; }
                }
                if (i >= w.size()) { bad("the synopsis has an open brace", usage); }
                ++i;
                it.segs.push_back(Seg{n, true, !it.segs.empty()});
                continue;
            }
            if (!opts) {
                if (it.name.empty()) { it.name = w[i]; }
                else if (w[i] != it.name) {
                    if (it.optional) { bad("the synopsis has two names in one bracket", usage); }
                    break;
                }
            }
            it.segs.push_back(Seg{1, dots(w[i]), false});
            ++i;
        }
        if (it.optional) {
            if (i >= w.size() || w[i] != "]") { bad("the synopsis has an open bracket", usage); }
            ++i;
        }
        r.items.push_back(it);
    }
    return r;
}

struct Line {
    Strs tokens;
    std::map<size_t, Strs> values; // item -> values typed for it
    std::vector<size_t> order;     // items in the order typed
};
// every way to type one item: the numbers of values
static std::vector<size_t> amounts(const Item& it) {
    std::vector<size_t> r(1, 0);
    for (auto& s : it.segs) {
        std::vector<size_t> n;
        for (size_t x : r) {
            if (!s.repeat) { n.push_back(x + s.words); }
            else {
                for (size_t k = s.more ? 0 : 1; k <= 3; ++k) { n.push_back(x + k * s.words); }
            }
        }
        r = n;
    }
    std::sort(r.begin(), r.end());
    r.erase(std::unique(r.begin(), r.end()), r.end());
    return r;
}
static bool unbounded(const Item& it) {
    for (auto& s : it.segs) {
        if (s.repeat) { return true; }
    }
    return false;
}
static const Spec* specOf(const Cfg& c, const std::string& name) {
    for (auto& s : c.args) {
        for (auto& n : s.names) {
            if (n == name) { return &s; }
        }
    }
    return 0;
}

// texts a user may type for a placeholder that takes a known number of values
static std::string valueText(size_t n, int style) {
    static const char* odd[] = {"v", "-9", "a=b", "", "two words", "-", "--unknown", "=x"};
    if (style == 0) { return "v" + str(n); }
    if (style == 2) { return n % 2 ? "-h" : "--"; } // verbatim behind "--" and in options with a fixed number of values
    return odd[n % 8] + (n % 8 == 3 ? std::string() : str(n));
}

static void judge(const Cfg& c, const Synopsis& g, const Line& l, bool fresh, blet::Args& used, const std::string& usage) {
    blet::Args own;
    if (fresh) { build(own, c); }
    blet::Args& a = fresh ? own : used;
    C().describe = [&]() { return cppCfg(c) + (fresh ? "" : "args.parseArguments(1, {\"prog\"}); // and other lines before\n") + cppParse(l.tokens) + "\n// the usage says\n" + usage.substr(0, usage.find("\n\n")); };
    Outcome o = parseOnly(a, l.tokens);
    ++C().comparisons;
    int want = OK;
    for (size_t i : l.order) {
        const Spec* s = specOf(c, g.items[i].name);
        if (!s || s->kind == K_HELP) { want = HELP; }
        else if (s->kind == K_VERSION && want == OK) { want = VERSION; }
    }
    if (o.status != want) { fail(std::string("a line of the synopsis gives ") + statusName(o.status) + " (" + o.name + ": " + o.what + "), not " + statusName(want)); }
    steps(l.tokens.size() + 1);
    validated();
    if (want != OK) { return; }
    if (!a.getAdditionalArguments().empty()) { fail("a line of the synopsis leaves additional arguments " + q(a.getAdditionalArguments())); }
    for (size_t i = 0; i < g.items.size(); ++i) {
        const Item& it = g.items[i];
        const Spec* s = specOf(c, it.name);
        if (!s) { continue; } // the automatic help option
        bool typed = std::find(l.order.begin(), l.order.end(), i) != l.order.end();
        ArgState st = readArg(a.getArgument(it.name), s->kind);
        if (st.exist != typed) { fail(it.name + (typed ? " is typed but does not exist" : " is not typed but exists")); }
        if (!typed) { continue; }
        Strs got = st.flat;
        for (auto& x : st.groups) { got.insert(got.end(), x.begin(), x.end()); }
        const Strs& v = l.values.at(i);
        if (!valueless(s->kind) && got != v) { fail(it.name + " holds " + q(got) + ", typed was " + q(v)); }
        if (it.option && st.count != 1) { fail(it.name + " was typed once and counts " + str(st.count)); }
        if (valueless(s->kind) && !v.empty()) { fail("the synopsis shows values for " + it.name); }
    }
}

// all lines of one definition set
static void decide(const Cfg& c, const int* width) {
    if (!take()) { return; }
    blet::Args used;
    build(used, c);
    if (width) { used.setUsageWidth(width[0], width[1], width[2], width[3]); }
    C().describe = [&]() { return cppCfg(c) + "args.getUsage();"; };
    parseOnly(used, Strs()); // defines the help option
    const std::string usage = used.getUsage();
    Synopsis g = readSynopsis(usage);
    // every argument is there, once, and nothing else but the help option
    std::set<size_t> seen;
    for (auto& it : g.items) {
        const Spec* s = specOf(c, it.name);
        if (!s) {
            if (it.name != "-h" && it.name != "--help") { fail("the synopsis shows " + it.name + "\n" + usage); }
            continue;
        }
        if (!seen.insert(s - &c.args[0]).second) { fail("the synopsis shows " + it.name + " twice\n" + usage); }
        if (it.optional == s->required) { fail("the brackets of " + it.name + " are wrong\n" + usage); }
    }
    if (seen.size() != c.args.size()) { fail("the synopsis does not show every argument\n" + usage); }
    size_t n = g.items.size(), tail = n;
    for (size_t i = 0; i < n; ++i) {
        if (!g.items[i].option) {
            if (tail == n) { tail = i; }
        }
    }
    uint64_t lines = 0;
    state(usage + (c.alternative ? "a" : "") + (c.strict ? "s" : ""));
    // options: all subsets (help and version only with nothing else optional), all amounts
    std::vector<size_t> chosen;
    std::vector<size_t> amount(n, 0);
    std::function<void(size_t)> pick;
    auto emit = [&]() {
        for (int style = 0; style < 3; ++style) {
            for (int backwards = 0; backwards < 2; ++backwards) {
                Line l;
                size_t v = 0;
                std::vector<size_t> opts, poss;
                for (size_t i : chosen) { (g.items[i].option ? opts : poss).push_back(i); }
                if (backwards) {
                    if (opts.size() < 2) { continue; }
                    std::reverse(opts.begin(), opts.end());
                }
                auto put = [&](size_t i) {
                    const Item& it = g.items[i];
                    if (it.option) { l.tokens.push_back(it.name); }
                    Strs& vs = l.values[i];
                    l.order.push_back(i);
                    for (size_t k = 0; k < amount[i]; ++k) {
                        // an unbounded list ends at an option; EXTEND takes more than the synopsis shows
                        const Spec* s = specOf(c, it.name);
                        bool plain = it.option && s && (unbounded(it) || s->kind == K_EXT || s->kind == K_EXTNUM || s->kind == K_INF);
                        vs.push_back(valueText(++v, plain ? 0 : style));
                        if (it.option && vs.back() == "--") { vs.back() = "--help"; }
                        l.tokens.push_back(vs.back());
                    }
                };
                for (size_t i : opts) { put(i); }
                if (g.dashes) { l.tokens.push_back("--"); }
                bool clash = false;
                size_t before = l.tokens.size();
                for (size_t i : poss) { put(i); }
                if (!g.dashes) { // without "--" a word like an option is one
                    for (size_t k = before; k < l.tokens.size(); ++k) { clash = clash || l.tokens[k][0] == '-'; }
                }
                if (clash) { continue; }
                judge(c, g, l, true, used, usage);
                judge(c, g, l, false, used, usage);
                ++lines;
                // leaving out what is not bracketed is refused
                bool special = false;
                for (size_t i : chosen) {
                    const Spec* s = specOf(c, g.items[i].name);
                    special = special || !s || s->kind == K_HELP || s->kind == K_VERSION;
                }
                if (special || style) { continue; }
                for (size_t i : chosen) {
                    const Item& it = g.items[i];
                    if (it.optional || (!it.option && i != chosen.back())) { continue; }
                    Line m;
                    for (size_t j : opts) {
                        if (j == i) { continue; }
                        m.tokens.push_back(g.items[j].name);
                        m.tokens.insert(m.tokens.end(), l.values[j].begin(), l.values[j].end());
                    }
                    if (g.dashes) { m.tokens.push_back("--"); }
                    for (size_t j : poss) {
                        if (j != i) { m.tokens.insert(m.tokens.end(), l.values[j].begin(), l.values[j].end()); }
                    }
                    blet::Args a;
                    build(a, c);
                    C().describe = [&]() { return cppCfg(c) + cppParse(m.tokens) + "\n// the usage says\n" + usage.substr(0, usage.find("\n\n")); };
                    Outcome o = parseOnly(a, m.tokens);
                    ++C().comparisons;
                    std::string name = it.name;
                    if (o.status != MISSING) { fail("leaving out " + name + " gives " + statusName(o.status)); }
                    if (name.find(o.name.substr(o.name.find_first_not_of('-'))) == std::string::npos) { fail("leaving out " + name + " is blamed on " + o.name); }
                    steps(m.tokens.size());
                }
                // one value less in the last place is refused, one more too when no list takes it
                if (!chosen.empty() && amount[chosen.back()]) {
                    size_t last = poss.empty() ? opts.back() : poss.back();
                    const Item& it = g.items[last];
                    const Spec* s = specOf(c, it.name);
                    size_t cut = l.tokens.size() - 1;
                    bool dashLast = l.tokens[cut] == "--";
                    std::vector<size_t> ams = amounts(it);
                    if (amount[last] && std::find(ams.begin(), ams.end(), amount[last] - 1) == ams.end() && (it.option ? s->kind != K_INF && s->kind != K_EXT : amount[last] > 1)) { // a list may be empty
                        Strs t = l.tokens;
                        if (dashLast) { t.pop_back(); }
                        t.pop_back();
                        blet::Args a;
                        build(a, c);
                        C().describe = [&]() { return cppCfg(c) + cppParse(t) + "\n// the usage says\n" + usage.substr(0, usage.find("\n\n")); };
                        Outcome o = parseOnly(a, t);
                        ++C().comparisons;
                        if (o.status != TOKEN_ERROR) { fail("one value less for " + it.name + " gives " + statusName(o.status)); }
                    }
                    if (c.strict && !unbounded(it) && s->kind != K_EXT && s->kind != K_EXTNUM && tail + poss.size() == n) {
                        Strs t = l.tokens;
                        t.push_back("surplus");
                        blet::Args a;
                        build(a, c);
                        C().describe = [&]() { return cppCfg(c) + cppParse(t) + "\n// the usage says\n" + usage.substr(0, usage.find("\n\n")); };
                        Outcome o = parseOnly(a, t);
                        ++C().comparisons;
                        if (o.status != TOKEN_ERROR || o.name != "surplus") { fail(std::string("one word more in strict mode gives ") + statusName(o.status) + " naming " + o.name); }
                    }
                }
            }
        }
    };
    pick = [&](size_t i) {
        if (i == n) {
            emit();
            return;
        }
        const Item& it = g.items[i];
        bool stop = false; // nothing can follow: a positional before it is left out or unbounded
        if (!it.option && i > tail) {
            const Item& p = g.items[i - 1];
            stop = std::find(chosen.begin(), chosen.end(), i - 1) == chosen.end() || unbounded(p);
        }
        if (it.optional || stop) { pick(i + 1); }
        if (stop) { return; }
        for (size_t am : amounts(it)) {
            amount[i] = am;
            chosen.push_back(i);
            pick(i + 1);
            chosen.pop_back();
        }
        amount[i] = 0;
    };
    // a required positional behind an unbounded one cannot be typed: such sets have no line
    for (size_t i = tail; i + 1 < n; ++i) {
        if (unbounded(g.items[i]) && !g.items[i + 1].optional) { return; }
    }
    pick(0);
    bump("command lines derived", lines);
    C().describe = [&]() { return cppCfg(c) + "args.getUsage();\n// " + usage.substr(0, usage.find("\n\n")) + "\n// and the " + str(lines) + " lines it derives"; };
    sample();
    C().describe = nullptr;
}

static const int* widths(int i) {
    static const int w[3][4] = {{2, 20, 2, 56}, {0, 1, 1, 1}, {1, 9, 1, 14}};
    return i ? w[i] : 0;
}
static Spec shaped(Spec s, int shape) {
    switch (shape) {
        case 1: s.names = Strs(1, shortOf(s)); break;
        case 2: s.names = Strs(1, longOf(s)); break;
        case 3: std::reverse(s.names.begin(), s.names.end()); s.names.push_back("--another-" + longOf(s).substr(2)); break;
        case 4:
            if (!valueless(s.kind)) {
                s.metavar = "META";
                for (size_t i = 1; i < (s.kind == K_NUMBER || grouped(s.kind) ? s.n : 1); ++i) { s.metavar += " VAR"; }
                if (s.kind == K_INF) { s.metavar = "M..."; }
            }
            break;
        case 5: s.defaults = someDefaults(s, 2); break;
    }
    return s;
}

void explore() {
    std::vector<Kind> os = everyOption();
    std::vector<std::vector<Kind> > pls = {{}, {K_POS}, {K_POSNUM}, {K_POSINF}, {K_POSINFNUM}, {K_POS, K_POSNUM}, {K_POSNUM, K_POS}, {K_POS, K_POSINF}, {K_POSNUM, K_POSINFNUM}, {K_POSINF, K_POS}};
    // one option of every kind and shape, number of values, with every positional list
    for (Kind k : os) {
        for (unsigned n : {2u, 3u, 5u}) {
            if (n != 2 && k != K_NUMBER && !grouped(k)) { continue; }
            for (int shape = 0; shape < 6; ++shape) {
                for (auto& pl : pls) {
                    for (int bits = 0; bits < 64; ++bits) {
                        for (int w = 0; w < 3; ++w) {
                            Cfg c;
                            Spec s = kit(k, bits & 1);
                            s.n = valueless(k) ? 0 : k == K_NUMBER || grouped(k) ? n : 1;
                            c.args.push_back(shaped(s, shape));
                            if (pl.size() < 2 && (bits & 8)) { continue; }
                            if (pl.empty() && (bits & 4)) { continue; }
                            for (size_t i = 0; i < pl.size(); ++i) {
                                Spec p = kit(pl[i], (bits >> (2 + i)) & 1);
                                if (p.kind == K_POSNUM || p.kind == K_POSINFNUM) { p.n = n; }
                                c.args.push_back(p);
                            }
                            c.alternative = (bits >> 1) & 1;
                            c.strict = (bits >> 4) & 1;
                            if (bits & 32) { std::reverse(c.args.begin(), c.args.end()); }
                            if ((bits & 32) && pl.size() > 1 && pl[0] == K_POSINF) { continue; }
                            decide(c, widths(w));
                        }
                    }
                }
            }
        }
    }
    // large numbers of values
    for (Kind k : {K_NUMBER, K_MULTINUM, K_EXTNUM, K_POSNUM, K_POSINFNUM}) {
        for (unsigned n : {7u, 8u, 9u, 10u, 11u, 12u, 15u, 16u, 17u, 20u, 31u, 32u, 33u, 40u, 42u, 44u, 64u, 65u, 100u, 129u, 256u, 257u}) {
            if (n > 44 && (k == K_EXTNUM || k == K_POSINFNUM) && !thorough() && n != 129) { continue; }
            for (int bits = 0; bits < 16; ++bits) {
                Cfg c;
                Spec s = kit(k, bits & 1);
                s.n = n;
                c.args.push_back(s);
                Spec other = kit(isPos(k) ? K_SIMPLE : K_POS, bits & 2);
                c.args.push_back(other);
                c.alternative = bits & 4;
                c.strict = bits & 8;
                decide(c, widths(bits % 3));
            }
        }
    }
    // every pair and triple of kinds
    for (size_t x = 0; x < os.size(); ++x) {
        for (size_t y = 0; y < os.size(); ++y) {
            if (x == y) { continue; }
            for (auto& pl : pls) {
                for (int bits = 0; bits < 16; ++bits) {
                    Cfg c;
                    c.args.push_back(kit(os[x], bits & 1));
                    for (size_t i = 0; i < pl.size(); ++i) { c.args.push_back(kit(pl[i], bits & 4)); }
                    c.args.push_back(shaped(kit(os[y], bits & 2), (int)(x + y) % 6));
                    c.alternative = (x + bits) & 1;
                    c.strict = (bits >> 3) & 1;
                    decide(c, widths((int)(x + y + bits) % 3));
                }
            }
        }
    }
    for (size_t x = 0; x < os.size(); ++x) {
        for (size_t y = x + 1; y < os.size(); ++y) {
            for (size_t z = y + 1; z < os.size(); ++z) {
                for (auto& pl : pls) {
                    if (pl.size() > 1 && !thorough()) { continue; }
                    for (int bits = 0; bits < 8; ++bits) {
                        if (!thorough() && bits != 0 && bits != 5) { continue; }
                        Cfg c;
                        c.args.push_back(kit(os[z], bits & 1));
                        c.args.push_back(kit(os[x], bits & 2));
                        c.args.push_back(shaped(kit(os[y], bits & 4), (int)(x + y + z) % 6));
                        for (size_t i = 0; i < pl.size(); ++i) { c.args.push_back(kit(pl[i], bits & 1)); }
                        c.strict = true;
                        decide(c, widths((int)(x + y + z) % 3));
                    }
                }
            }
        }
    }
}
