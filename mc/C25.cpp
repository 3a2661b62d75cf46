// C25: exactly the well-formed names and flags are accepted.
#include "observe.hpp"
#include "grand.hpp"
using namespace mc;
typedef blet::Args Args;

static bool goodFlag(const std::string& s) { return (s.size() == 2 && s[0] == '-' && s[1] != '-') || (s.size() > 2 && s[0] == '-' && s[1] == '-'); }
static bool goodName(const std::string& s) { return !s.empty() && s[0] != '-'; }

static Strs words(const Strs& alpha, size_t n) {
    Strs r(1), last(1);
    for (size_t i = 0; i < n; ++i) {
        Strs next;
        for (auto& p : last) {
            for (auto& c : alpha) { next.push_back(p + c); }
        }
        r.insert(r.end(), next.begin(), next.end());
        last = next;
    }
    return r;
}
static void base(Args& a) { // something is defined already
    a.addArgument(vec(S({"-k", "--keep"}))).defaults("d");
    a.addArgument("NAME");
}
static const Strs kBase = S({"-k", "--keep", "NAME"});

// one definition call: refused naming one of `bad`, or accepted
static void attempt(const Strs& list, const Strs& bad, const std::function<void(Args&)>& call, const std::string& text) {
    C().describe = [&]() { return "args with {-k, --keep} and NAME; " + text; };
    Args a;
    base(a);
    Strs probe = kBase;
    probe.insert(probe.end(), list.begin(), list.end());
    std::string before = dump(a, probe);
    bool refused = false;
    try { call(a); }
    catch (const Args::ArgumentException& e) {
        refused = true;
        ++C().comparisons;
        if (std::find(bad.begin(), bad.end(), std::string(e.argument())) == bad.end()) { fail("refused naming " + q(e.argument()) + " instead of one of " + q(bad)); }
        check(*e.what() != 0, "the error has no message");
    }
    eq(refused, !bad.empty(), "refused");
    if (refused) {
        ++C().comparisons;
        std::string after = dump(a, probe);
        if (before != after) { fail("a refused call changed something\n" + firstDiff(before, after, "before", "after ")); }
    }
    else {
        for (auto& n : list) { check(a.argumentExists(n), "an accepted name does not exist"); }
    }
    steps(1);
    validated();
    state(text);
    sample();
    C().describe = nullptr;
}
static Strs malformed(const Strs& list) {
    Strs r;
    for (auto& s : list) {
        if (!goodFlag(s) || s == "-k" || s == "--keep") { r.push_back(s); }
    }
    return r;
}
static void accept(const Strs& all, const Strs& few) {
    for (auto& x : all) {
        if (take()) {
            Strs bad;
            if ((!goodName(x) && !goodFlag(x)) || x == "-k" || x == "--keep" || x == "NAME") { bad.push_back(x); }
            attempt(Strs(1, x), bad, [&](Args& a) { a.addArgument(vec(Strs(1, x))); }, "addArgument(" + q(x) + ")");
        }
        if (take()) { attempt(Strs(1, x), malformed(Strs(1, x)), [&](Args& a) { a.updateArgument("-k").flag(x.c_str()); }, "updateArgument(-k).flag(" + q(x) + ")"); }
        if (take()) { attempt(Strs(1, x), Strs(1, x), [&](Args& a) { a.updateArgument("NAME").flag(x.c_str()); }, "updateArgument(NAME).flag(" + q(x) + ")"); }
        for (int place = 0; place < 7; ++place) {
            if (!take()) { continue; }
            Strs l;
            switch (place) {
                case 0: l = {x, "-y"}; break;
                case 1: l = {"-y", x}; break;
                case 2: l = {"-y", "--yy", x}; break;
                case 3: l = {"--yy", x, "-y"}; break;
                case 4: l = {x, x}; break;
                case 5: l = {x, "--yy", "-y", "-w"}; break;
                default: l = {"-k", x}; break;
            }
            attempt(l, malformed(l), [&](Args& a) { a.addArgument(vec(l)); }, "addArgument(" + q(l) + ")");
        }
    }
    for (auto& x : few) {
        for (auto& y : few) {
            if (!take()) { continue; }
            Strs l = {x, y};
            attempt(l, malformed(l), [&](Args& a) { a.addArgument(vec(l)); }, "addArgument(" + q(l) + ")");
        }
    }
}

// an accepted flag or name reaches exactly its argument
static void reach(const Strs& flags, const Strs& texts) {
    std::vector<Kind> kinds = optionKinds();
    for (auto& x : flags) {
        for (auto& y : flags) {
            if (x == y) { continue; }
            for (int how = 0; how < 3; ++how) { // two arguments; one argument by list; by flag()
                for (Kind k : kinds) {
                    if (k == K_VERSION) { continue; }
                    if (!take()) { continue; }
                    Cfg c;
                    Spec s(how ? Strs{x, y} : Strs(1, x), k, valueless(k) ? 0 : k == K_NUMBER || grouped(k) ? 2 : 1);
                    c.args.push_back(s);
                    if (!how) { c.args.push_back(Spec(Strs(1, y), K_SIMPLE)); }
                    c.args.push_back(Spec(S({"POS"}), K_POSINF));
                    Machine m(c);
                    std::vector<Strs> lines = {{x, "1", "2", "3", "4"}, {y, "5", "6"}, {x + "=7"}, {x + "8"}, {"0", x, "1", "2", y, "3", "4"}};
                    for (auto& t : lines) {
                        C().describe = [&]() { return cppCfg(c) + (how == 2 ? "(second flag added with flag())\n" : "") + cppParse(t); };
                        Args a;
                        if (how == 2) {
                            Cfg one = c;
                            one.args[0].names = Strs(1, x);
                            build(a, one);
                            a.updateArgument(x).flag(y.c_str());
                        }
                        else { build(a, c); }
                        Outcome want = m.run(t), got = parseOnly(a, t);
                        if (got.status == OK) { readAll(a, c, got); }
                        ++C().comparisons;
                        std::string d = diff(got, want, c, M_ALL);
                        if (!d.empty()) { fail(d); }
                        if (how) { check(&a.getArgument(x) == &a.getArgument(y), "two flags of one argument lead to different arguments"); }
                        steps(t.size());
                        validated();
                        state(canon(want));
                        sample();
                        C().describe = nullptr;
                    }
                }
            }
        }
    }
    for (auto& n : texts) { // names of positionals
        if (!goodName(n) || !take()) { continue; }
        C().describe = [&]() { return "addArgument(" + q(n) + "), parse [value, more]"; };
        Args a;
        a.addArgument(vec(Strs(1, n)));
        Outcome o = parseOnly(a, S({"value", "more"}));
        eq(o.status, (int)OK, "outcome");
        eqs(a.getArgument(n).getString(), "value", "value of the positional");
        eqs(a[n].getNameOrFlags(), Strs(1, n), "its name");
        eqs(a.getAdditionalArguments(), S({"more"}), "additional arguments");
        steps(2);
        validated();
        C().describe = nullptr;
    }
}

// names of every length and their neighbours: the token is exactly the name or
// something else
static void neighbours() {
    std::vector<size_t> lens;
    for (size_t n = 3; n <= (thorough() ? 140u : 70u); ++n) { lens.push_back(n); }
    for (size_t n : {127, 128, 129, 255, 256, 257, 1000}) { lens.push_back(n); }
    for (size_t len : lens) {
        for (int pattern = 0; pattern < 3; ++pattern) {
            if (!take()) { continue; }
            std::string name = "--";
            for (size_t i = 2; i < len; ++i) { name += pattern == 0 ? 'a' : pattern == 1 ? (char)('a' + i % 26) : "Ab-_9.z"[i % 7]; }
            std::vector<std::string> near;
            std::vector<size_t> at;
            for (size_t i = 2; i < len; ++i) {
                if (len <= 140 || i < 40 || i + 10 > len || i % 64 < 2) { at.push_back(i); }
            }
            for (size_t i : at) {
                if (i > 2) { near.push_back(name.substr(0, i)); }  // a proper prefix
                std::string x = name;
                x[i] = x[i] == 'q' ? 'r' : 'q'; // one character differs
                near.push_back(x);
                x = name;
                x[i] ^= 0x20; // letter case
                if (x[i] != '=') { near.push_back(x); }
                x = name;
                x.erase(i, 1); // one is missing
                if (x.size() > 2) { near.push_back(x); }
                x = name;
                x.insert(i, 1, 'q'); // one too much
                near.push_back(x);
                if (i + 1 < len) {
                    x = name;
                    std::swap(x[i], x[i + 1]);
                    near.push_back(x);
                }
            }
            for (auto t : {"x", "-", " ", "=", "s", "\t"}) { near.push_back(name + t); }
            near.push_back("-" + name);
            near.push_back(" " + name);
            near.push_back(name.substr(1));
            for (auto& t : near) {
                if (t == name) { continue; }
                for (int both = 0; both < 2; ++both) { // is the neighbour registered as well
                    if (both && (t.find('=') != std::string::npos || !goodFlag(t))) { continue; }
                    Cfg c;
                    c.args.push_back(Spec(Strs(1, name), K_SIMPLE));
                    if (both) { c.args.push_back(Spec(Strs(1, t), K_MULTI)); }
                    c.alternative = len % 2;
                    Args a;
                    build(a, c);
                    Machine m(c);
                    for (auto& line : {Strs{t, "v"}, Strs{name + "=w", t + "=v"}, Strs{t, name, name, t}}) {
                        C().describe = [&]() { return cppCfg(c) + cppParse(line); };
                        Outcome want = Machine(m).run(line), got = parseOnly(a, line);
                        if (got.status == OK) { readAll(a, c, got); }
                        ++C().comparisons;
                        std::string d = diff(got, want, c, M_ALL);
                        if (!d.empty()) { fail(d); }
                        steps(line.size());
                        validated();
                        C().describe = nullptr;
                    }
                }
            }
            bump("names with all their neighbours");
            state(name);
        }
    }
}

void explore() {
    neighbours();
    Strs alpha = S({"-", "a", "b", "=", " ", "\xE9"});
    Strs all = words(alpha, thorough() ? 6 : 5), few = words(S({"-", "a", "=", " "}), 3);
    for (int ch = 1; ch < 256; ++ch) {
        std::string c(1, (char)ch);
        for (auto& s : {c, "-" + c, "--" + c, c + "-", "-" + c + c, "-a" + c, "--a" + c}) { all.push_back(s); }
    }
    for (size_t n : {10, 15, 16, 17, 100, 1000}) {
        std::string l(n, 'l');
        for (auto& s : {l, "-" + l, "--" + l, l + "-", "---" + l}) { all.push_back(s); }
    }
    accept(all, few);
    {
        if (take()) { attempt(Strs(), Strs(1, ""), [](Args& a) { a.addArgument(blet::args::Vector()); }, "addArgument(empty list)"); }
        if (take()) { attempt(Strs(), Strs(1, ""), [](Args& a) { a.removeArguments(blet::args::Vector()); }, "removeArguments(empty list)"); }
    }
    Strs flags, ws = words(S({"-", "a", "b", " ", "\xE9"}), thorough() ? 4 : 3);
    for (auto& s : ws) {
        if (goodFlag(s)) { flags.push_back(s); }
    }
    if (!thorough()) {
        for (auto s : {"--ab", "--a-", "---a", "--a ", "----", "--aa", "-0", "-9", "--99", "-.", "-+", "-,"}) { flags.push_back(s); }
    }
    reach(flags, all);
    grand(grandLevel(0), grandCheck, G_CROWD | G_STRUCT | G_ZOO);
}
