// C28: the order of definitions matters only between positionals, and an
// argument that was added and removed again leaves no trace.
// All permutations of all small sets of definitions x command lines.
#include "observe.hpp"
#include "grand.hpp"
using namespace mc;
typedef blet::Args Args;

struct Dst {
    std::string s;
    int i;
    bool b;
    Strs v;
    std::vector<Strs> vv;
    Dst() : i(-1), b(false) {}
    std::string show() const { return q(s) + str(i) + str(b) + q(v) + q(vv); }
};
struct Suffix : Args::IValid {
    bool isValid(Strs& v) {
        for (auto& x : v) {
            if (x == "no") { return false; }
            x += "+";
        }
        return true;
    }
};
struct Item {
    const char* text;
    Strs names;
    int owns; // 1: help, 2: version, 4: positional
    std::function<void(Args&, Dst&)> f;
    Strs use; // one way to use it
};
static std::vector<Item> pool() {
    std::vector<Item> p;
#define DEF(...) #__VA_ARGS__
#define ITEM(names, owns, use, ...) p.push_back({#__VA_ARGS__, names, owns, [](Args& a, Dst& d) { (void)d; __VA_ARGS__; }, use})
    ITEM(S({"-s", "--simple"}), 0, S({"-s", "1"}), a.addArgument(vec(S({"-s", "--simple"}))).dest(d.s).defaults("ds"));
    ITEM(S({"-b", "--bool"}), 0, S({"-b"}), a.addArgument(vec(S({"--bool", "-b"}))).action(Args::STORE_TRUE).dest(d.b));
    ITEM(S({"-n"}), 0, S({"-n", "2", "3"}), a.addArgument("-n").nargs(2).required());
    ITEM(S({"-i", "--inf"}), 0, S({"--inf", "a", "b"}), a.addArgument(vec(S({"-i", "--inf"}))).action(Args::INFINITE).valid(new Suffix()));
    ITEM(S({"-m"}), 0, S({"-m4"}), a.addArgument("-m").action(Args::APPEND).dest(d.v));
    ITEM(S({"--ext", "-e", "-x"}), 0, S({"-x", "c", "d"}), a.addArgument(vec(S({"--ext", "-e", "-x"}))).action(Args::EXTEND).nargs(2).defaults(vec(S({"1", "2"}))).dest(d.vv));
    ITEM(S({"-r"}), 0, S({"-r"}), a.addArgument("-r").action(Args::STORE_FALSE).required());
    ITEM(S({"--long", "-l"}), 0, S({"--long=no"}), a.addArgument(vec(S({"--long", "-l"}))).valid(new Suffix()).help("long help").metavar("LONG").required());
    ITEM(S({"-h", "--hh"}), 1, S({"-h"}), a.addArgument(vec(S({"-h", "--hh"}))).action(Args::HELP));
    ITEM(S({"-v", "--version"}), 2, S({"-v"}), a.addArgument(vec(S({"-v", "--version"}))).action(Args::VERSION));
    ITEM(S({"ZPOS"}), 4, S({"p"}), a.addArgument("ZPOS").dest(d.i));
    ITEM(S({"APOS"}), 4, S({"q"}), a.addArgument("APOS").required().valid(new Suffix()));
    ITEM(S({"MNUM"}), 4, S({"5", "6"}), a.addArgument("MNUM").nargs(2).defaults(vec(S({"7", "8"}))));
    ITEM(S({"LIST"}), 4, S({"t", "u"}), a.addArgument("LIST").action(Args::INFINITE));
#undef ITEM
    return p;
}
static std::string show(Args& a, Dst& d, const Strs& t, const Strs& names) {
    Outcome o = parseOnly(a, t);
    return dump(o) + dump(a, names) + d.show();
}
static void modes(Args& a) {
    a.setHelpException();
    a.setVersionException();
    a.setVersion("ver");
}
static std::vector<Strs> linesFor(const std::vector<Item>& p, const std::vector<int>& set) {
    auto add = [](Strs& t, const Strs& u) { t.insert(t.end(), u.begin(), u.end()); };
    std::vector<Strs> r(1);
    Strs all, back;
    for (size_t i = 0; i < set.size(); ++i) {
        add(all, p[set[i]].use);
        add(back, p[set[set.size() - 1 - i]].use);
        Strs but;
        for (size_t j = 0; j < set.size(); ++j) {
            if (j != i) { add(but, p[set[j]].use); }
        }
        r.push_back(p[set[i]].use);
        r.push_back(but);
    }
    r.push_back(all);
    r.push_back(back);
    Strs more = all;
    add(more, S({"extra", "--", "-s", "-b"}));
    r.push_back(more);
    r.push_back(S({"1", "2", "3", "4", "5"}));
    r.push_back(S({"-bs", "-u"}));
    return r;
}
static void permuted(size_t size) {
    std::vector<Item> p = pool();
    for (unsigned mask = 0; mask < (1u << p.size()); ++mask) {
        if ((size_t)__builtin_popcount(mask) != size) { continue; }
        std::vector<int> set;
        Strs names;
        for (size_t i = 0; i < p.size(); ++i) {
            if (mask >> i & 1) {
                set.push_back((int)i);
                names.insert(names.end(), p[i].names.begin(), p[i].names.end());
            }
        }
        names.push_back("-h");
        names.push_back("--help");
        std::vector<Strs> lines = linesFor(p, set);
        uint64_t perms = 1;
        for (size_t i = 2; i <= size; ++i) { perms *= i; }
        if (skipBlock(perms)) { continue; }
        Strs want;
        std::vector<int> order = set;
        std::map<std::vector<int>, Strs> wants; // by the order of the positionals
        do {
            if (!take()) { continue; }
            std::vector<int> key, ref;
            for (int i : order) {
                if (p[i].owns == 4) { key.push_back(i); }
            }
            for (int i : set) {
                if (p[i].owns != 4) { ref.push_back(i); }
            }
            ref.insert(ref.end(), key.begin(), key.end());
            size_t at = 0;
            C().describe = [&]() {
                std::string r;
                for (int i : order) { r += std::string(p[i].text) + "\n"; }
                return r + cppParse(lines[at % lines.size()]) + "\n// against another order of the same definitions, positionals in this order";
            };
            Strs& w = wants[key];
            if (w.empty()) {
                for (at = 0; at < lines.size(); ++at) {
                    Args a;
                    Dst d;
                    modes(a);
                    for (int i : ref) { p[i].f(a, d); }
                    w.push_back(show(a, d, lines[at], names));
                }
            }
            for (at = 0; at < lines.size(); ++at) {
                if (size > 3 && !thorough() && (at + order[0] + order[1]) % 2) { continue; }
                Args a;
                Dst d;
                modes(a);
                for (int i : order) { p[i].f(a, d); }
                std::string got = show(a, d, lines[at], names);
                ++C().comparisons;
                if (got != w[at]) { fail("the order of the definitions shows\n" + firstDiff(w[at], got, "one order    ", "another order")); }
                steps(size + 1);
                validated();
                state(got);
            }
            sample();
            C().describe = nullptr;
        } while (std::next_permutation(order.begin(), order.end()));
    }
}
// one more argument that comes and goes at any two moments
static void ghosts(size_t size) {
    std::vector<Item> p = pool();
    for (unsigned mask = 0; mask < (1u << p.size()); ++mask) {
        if ((size_t)__builtin_popcount(mask) != size) { continue; }
        std::vector<int> set;
        Strs names;
        for (size_t i = 0; i < p.size(); ++i) {
            if (mask >> i & 1) {
                set.push_back((int)i);
                names.insert(names.end(), p[i].names.begin(), p[i].names.end());
            }
        }
        names.push_back("-h");
        names.push_back("--help");
        std::vector<Strs> lines = linesFor(p, set);
        Strs want;
        for (size_t g = 0; g < p.size(); ++g) {
            if (mask >> g & 1) { continue; }
            for (size_t in = 0; in <= set.size(); ++in) {
                for (size_t out = in; out <= set.size(); ++out) {
                    for (int how = 0; how < 3; ++how) {
                        if (!take()) { continue; }
                        size_t at = 0;
                        C().describe = [&]() {
                            std::string r;
                            for (size_t i = 0; i <= set.size(); ++i) {
                                if (i == in) { r += std::string(p[g].text) + "\n"; }
                                if (i == out) { r += "args.removeArguments(" + q(p[g].names) + ") way " + str(how) + "\n"; }
                                if (i < set.size()) { r += std::string(p[set[i]].text) + "\n"; }
                            }
                            return r + cppParse(lines[at % lines.size()]) + "\n// against the same without that argument";
                        };
                        for (at = 0; at < lines.size(); ++at) {
                            if (want.size() <= at) {
                                Args a;
                                Dst d;
                                modes(a);
                                for (int i : set) { p[i].f(a, d); }
                                want.push_back(show(a, d, lines[at], names));
                            }
                            Args a;
                            Dst d;
                            modes(a);
                            for (size_t i = 0; i <= set.size(); ++i) {
                                if (i == in) { p[g].f(a, d); }
                                if (i == out) {
                                    Strs ns = p[g].names;
                                    if (how == 0) { a.removeArguments(vec(ns)); }
                                    else {
                                        if (how == 2) { std::reverse(ns.begin(), ns.end()); }
                                        for (auto& n : ns) { a.removeArguments(n); }
                                    }
                                }
                                if (i < set.size()) { p[set[i]].f(a, d); }
                            }
                            std::string got = show(a, d, lines[at], names);
                            ++C().comparisons;
                            if (got != want[at]) { fail("a removed argument leaves a trace\n" + firstDiff(want[at], got, "never added", "removed    ")); }
                            for (auto& n : p[g].names) {
                                if (n != "-h" && a.argumentExists(n)) { fail("a removed name exists: " + n); }
                            }
                            steps(size + 3);
                            validated();
                        }
                        sample();
                        C().describe = nullptr;
                    }
                }
            }
        }
    }
}

// several arguments that come and go while the others are defined
static void weave() {
    static const char* pos[] = {"ZPOS", "APOS", "MPOS"};
    static const char* opt[] = {"-s", "--alpha", "-Z"};
    static const char* ghost[] = {"-g", "--gg", "GPOS", "-a", "QPOS"};
    const Strs names = S({"ZPOS", "APOS", "MPOS", "-s", "--alpha", "-Z", "-g", "--gg", "GPOS", "-a", "QPOS"});
    std::map<std::string, std::string> wants;
    for (size_t len = 1; len <= (thorough() ? 9u : 8u); ++len) {
        uint64_t total = 1;
        for (size_t i = 0; i < len; ++i) { total *= 5; }
        for (uint64_t x = 0; x < total; ++x) {
            std::string h, key;
            uint64_t y = x;
            int np = 0, no = 0, ng = 0, ghosts = 0, live = 0;
            bool valid = true;
            for (size_t i = 0; i < len; ++i, y /= 5) {
                char c = "POGRT"[y % 5];
                h += c;
                if (c == 'P') { valid = valid && ++np <= 3; key += c; }
                else if (c == 'O') { valid = valid && ++no <= 3; key += c; }
                else if (c == 'G') { valid = valid && ++ghosts <= 5; ++live; }
                else { valid = valid && --live >= 0; ++ng; if (c == 'T' && live == 0) { valid = false; } }
            }
            if (!valid || live || !ng) { continue; }
            if (!take()) { continue; }
            auto make = [&](Args& a, const std::string& how) {
                modes(a);
                std::vector<std::string> here;
                int p = 0, o = 0, g = 0;
                for (char c : how) {
                    if (c == 'P') { a.addArgument(pos[p++]); }
                    else if (c == 'O') { a.addArgument(opt[o++]); }
                    else if (c == 'G') {
                        here.push_back(ghost[g++]);
                        a.addArgument(here.back());
                    }
                    else if (c == 'R') {
                        a.removeArguments(here.front());
                        here.erase(here.begin());
                    }
                    else {
                        a.removeArguments(here.back());
                        here.pop_back();
                    }
                }
            };
            auto show = [&](Args& a) {
                std::string r;
                Strs line;
                for (auto& t : S({"1", "-s", "2", "--alpha", "3", "-Z4", "5", "6"})) {
                    Outcome oc = parseOnly(a, line);
                    r += dump(oc) + dump(a, names);
                    line.push_back(t);
                }
                return r + a.getUsage();
            };
            C().describe = [&]() {
                return "definitions " + h + ": P next of ZPOS APOS MPOS, O next of -s --alpha -Z, G next of -g --gg GPOS -a QPOS, R removes the oldest of these that is there, T the newest\n// against " + key;
            };
            std::string& want = wants[key];
            if (want.empty()) {
                Args a;
                make(a, key);
                want = show(a);
            }
            Args a;
            make(a, h);
            std::string got = show(a);
            ++C().comparisons;
            if (got != want) { fail("removed arguments leave a trace\n" + firstDiff(want, got, "never added", "removed    ")); }
            steps(len + 8);
            validated();
            state(got);
            sample();
            C().describe = nullptr;
        }
    }
}

// the common sweep, defined backwards (positionals among themselves in order)
static void backwards(const Case& k) {
    Cfg r = k.c;
    r.args.clear();
    for (auto& s : k.c.args) {
        if (isPos(s.kind)) { r.args.push_back(s); }
    }
    for (size_t i = k.c.args.size(); i-- > 0;) {
        if (!isPos(k.c.args[i].kind)) { r.args.push_back(k.c.args[i]); }
    }
    C().describe = [&]() {
        std::string t = cppCfg(r);
        for (auto& b : k.before) { t += cppParse(b) + " // any outcome\n"; }
        return t + cppParse(k.line);
    };
    Args a;
    build(a, r);
    runBefore(a, k);
    grandCheckOn(a, k);
    C().describe = nullptr;
}

// names of every shape: all pairs and triples in every order
static void shapes() {
    std::vector<Strs> lists;
    for (auto& l : grandNameLists(1)) {
        if (l[0].size() < 300) { lists.push_back(l); }
    }
    for (auto f : {"--log_level", "--log_file", "--log-level", "--log-file", "--log", "--log2", "--log10", "--logs", "--Log", "--alpha", "--alphA", "--z", "-Z", "-a", "--a b"}) { lists.push_back(S({f})); }
    size_t n = lists.size();
    for (size_t x = 0; x < n; ++x) {
        for (size_t y = x + 1; y < n; ++y) {
            for (size_t z = y; z < n; ++z) { // z == y: a pair
                if (z > y && !thorough() && (x + y + z) % 6) { continue; }
                std::set<std::string> seen;
                size_t count = 0;
                std::vector<size_t> pick = {x, y};
                if (z > y) { pick.push_back(z); }
                for (auto i : pick) {
                    count += lists[i].size();
                    seen.insert(lists[i].begin(), lists[i].end());
                }
                if (!take() || seen.size() != count) { continue; }
                for (unsigned mask = 0; mask < (z > y ? 1u : 4u); ++mask) {
                    std::vector<int> order;
                    for (size_t i = 0; i < pick.size(); ++i) { order.push_back((int)i); }
                    std::vector<int> first = order;
                    unsigned req = z > y ? (unsigned)(x + y + z) % 8 : mask;
                    C().describe = [&]() {
                        std::string r;
                        for (int i : order) { r += "args.addArgument(" + q(lists[pick[i]]) + ")" + (req >> i & 1 ? ".required()" : "") + ";\n"; }
                        return r + "// against the other orders: usage and result of parsing [] and [x]";
                    };
                    std::string want;
                    do {
                        Args a;
                        Dst d;
                        modes(a);
                        for (int i : order) { a.addArgument(vec(lists[pick[i]])).required(req >> i & 1); }
                        std::string got = dump(parseOnly(a, S({}))) + a.getUsage();
                        got += dump(parseOnly(a, S({"x"})));
                        ++C().comparisons;
                        if (want.empty()) { want = got; }
                        if (got != want) { fail("the order of the definitions shows\n" + firstDiff(want, got, "one order    ", "another order")); }
                        steps(pick.size() + 2);
                        validated();
                        state(got);
                    } while (std::next_permutation(order.begin(), order.end()));
                    C().describe = nullptr;
                }
            }
        }
    }
}

// very many definitions in the life of an object, almost all removed again
static void churn() {
    std::vector<size_t> counts;
    for (size_t n = 1; n <= 20; ++n) { counts.push_back(n); }
    for (size_t p : {32, 64, 128, 256, 512, 1024, 4096, 32768, 65536}) {
        for (size_t d = 0; d < 8; ++d) { counts.push_back(p - 6 + d); }
    }
    for (size_t n : counts) {
        for (int way = 0; way < 5; ++way) {
            if (!take()) { continue; }
            const Strs p = S({"ZP", "YP", "XP", "WP", "VP"});
            auto rest = [&](Args& a, size_t from, size_t to) {
                for (size_t i = from; i < to; ++i) {
                    blet::args::Argument& g = a.addArgument(p[i]);
                    if (way == 3 && i >= 3) { g.required(); }
                }
            };
            auto ghosts_ = [&](Args& a) {
                for (size_t i = 0; i < n; ++i) {
                    if (way == 1) {
                        a.addArgument("GHOST");
                        a.removeArguments("GHOST");
                    }
                    else {
                        a.addArgument("-g");
                        a.removeArguments("-g");
                    }
                    if (way == 4 && n < 300) {
                        try { a.addArgument("-g").nargs(2).defaults("one"); }
                        catch (const Args::Exception&) { a.removeArguments("-g"); }
                    }
                }
            };
            C().describe = [&]() { return str(n) + " arguments added and removed again, variant " + str(way) + ", around five positionals"; };
            auto show_ = [&](bool churned) {
                Args a;
                a.setHelpException();
                a.setStrict();
                if (churned && way == 2) { ghosts_(a); }
                rest(a, 0, 2);
                if (churned && way != 2) { ghosts_(a); }
                rest(a, 2, 5);
                a.addArgument(vec(S({"-s", "--simple"}))).required();
                std::string r = a.getUsage();
                for (auto& t : {S({"1", "2", "3", "4", "5", "-s", "v"}), S({"1", "2", "3", "4", "5"}), S({"1", "-s", "v"}), S({"1", "2", "3", "4", "5", "6"})}) {
                    Outcome o = parseOnly(a, t);
                    r += dump(o) + dump(a, S({"ZP", "YP", "XP", "WP", "VP", "-s"}));
                }
                return r;
            };
            std::string want = show_(false), got = show_(true);
            ++C().comparisons;
            if (want != got) { fail("arguments that were removed again leave a trace\n" + firstDiff(want, got, "without", "with   ")); }
            steps(n + 10);
            validated(2);
            state(want);
            bump("objects with very many definitions");
            sample();
            C().describe = nullptr;
        }
    }
}
void explore() {
    shapes();
    churn();
    weave();
    for (size_t n = 0; n <= (thorough() ? 6u : 4u); ++n) { permuted(n); }
    for (size_t n = 0; n <= (thorough() ? 4u : 3u); ++n) { ghosts(n); }
    grand(grandLevel(0), backwards);
}
