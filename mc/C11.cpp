// C11: names and arguments stay in one-to-one registry under any history of
// addArgument / flag / removeArguments / clear.
//  - explicit-state search of the registry model to its fixpoint, every
//    (state, call) transition replayed on the real object;
//  - all histories up to a depth on the real object (hidden state).
#include "defs.hpp"
#include "grand.hpp"
using namespace mc;

struct Arg {
    std::string tag;
    Strs names; // in definition order
};
struct Reg {
    std::vector<Arg> args;
    int next; // tags given
    Reg() : next(0) {}
    int owner(const std::string& n) const {
        for (size_t i = 0; i < args.size(); ++i) {
            if (std::find(args[i].names.begin(), args[i].names.end(), n) != args[i].names.end()) { return (int)i; }
        }
        return -1;
    }
    std::string canon() const {
        Strs r;
        std::string tail;
        for (auto& a : args) {
            if (a.names[0][0] == '-') { r.push_back(q(sortedFlags(a.names))); }
            else { tail += q(a.names); } // positionals keep their order
        }
        std::sort(r.begin(), r.end());
        return q(r) + tail;
    }
};
struct Op {
    char what; // a add, f flag, r remove, c clear, p parse a line with every known name
    Strs l;
    std::string on;
};
static std::string text(const Op& o) {
    switch (o.what) {
        case 'a': return "args.addArgument(" + cppStr(o.l) + ");";
        case 'f': return "args.updateArgument(" + q(o.on) + ").flag(" + q(o.l[0]) + ");";
        case 'r': return "args.removeArguments(" + cppStr(o.l) + ");";
        case 'p': return "// parse a command line that uses every known name";
        default: return "args.clear();";
    }
}
static bool wellFormed(const std::string& f) {
    return f.size() >= 2 && f[0] == '-' && (f[1] == '-' ? f.size() >= 3 : f.size() == 2);
}

// model: returns false when the call must be refused; names = acceptable names in the error
static bool apply(Reg& m, const Op& o, std::set<std::string>& named) {
    named.clear();
    if (o.what == 'p') { return true; }
    if (o.what == 'c') {
        m.args.clear();
        return true;
    }
    if (o.what == 'a') {
        if (o.l.empty()) { named.insert(""); return false; }
        if (o.l.size() == 1 && (o.l[0].empty() || o.l[0][0] != '-')) {
            if (o.l[0].empty()) { named.insert(""); return false; }
            if (m.owner(o.l[0]) >= 0) { named.insert(o.l[0]); return false; }
        }
        else {
            for (auto& n : o.l) {
                if (!wellFormed(n) || m.owner(n) >= 0) { named.insert(n); }
            }
            if (!named.empty()) { return false; }
        }
        Arg a;
        a.tag = "tag" + str(m.next++) + ".";
        for (auto& n : o.l) {
            if (std::find(a.names.begin(), a.names.end(), n) == a.names.end()) { a.names.push_back(n); }
        }
        m.args.push_back(a);
        return true;
    }
    if (o.what == 'f') {
        int i = m.owner(o.on);
        if (i < 0) { named.insert(o.on); return false; }
        if (m.args[i].names[0][0] != '-' || !wellFormed(o.l[0]) || m.owner(o.l[0]) >= 0) {
            named.insert(o.l[0]);
            return false;
        }
        m.args[i].names.push_back(o.l[0]);
        return true;
    }
    if (o.l.empty()) { named.insert(""); return false; }
    for (auto& n : o.l) {
        if (m.owner(n) < 0) { named.insert(n); }
    }
    if (!named.empty()) { return false; }
    for (auto& n : o.l) {
        int i = m.owner(n);
        if (i < 0) { continue; } // given twice
        Strs& v = m.args[i].names;
        v.erase(std::find(v.begin(), v.end(), n));
        if (v.empty()) { m.args.erase(m.args.begin() + i); }
    }
    return true;
}

static bool applyReal(blet::Args& a, const Reg& m, const Op& o, const std::string& tag, std::string& named) {
    try {
        switch (o.what) {
            case 'p': {
                Strs t;
                for (auto& g : m.args) {
                    for (auto& n : g.names) { t.push_back(n[0] == '-' ? n : "v"); }
                }
                if (parseOnly(a, t).status != OK) { fail(cppParse(t) + " fails"); }
                break;
            }
            case 'a': {
                blet::args::Argument& g = a.addArgument(vec(o.l));
                if (o.l[0][0] == '-') { g.action(blet::Args::STORE_TRUE); }
                g.help(tag.c_str());
                break;
            }
            case 'f': a.updateArgument(o.on).flag(o.l[0].c_str()); break;
            case 'r': a.removeArguments(vec(o.l)); break;
            default: a.clear(); break;
        }
        return true;
    }
    catch (const blet::Args::ArgumentException& e) {
        named = e.argument();
        if (std::string(e.what()).empty()) { fail("error with an empty message"); }
        return false;
    }
}

static Strs& pool() {
    static Strs p = S({"-a", "-b", "-c", "--aa", "--bb", "P", "Q", "zz", "-ab", "bad", "", "-", "--", "a", "--a", "-z"});
    return p;
}

static void same(blet::Args& a, const Reg& m, bool full) {
    std::map<const void*, int> seen;
    for (auto& n : pool()) {
        int i = m.owner(n);
        if (a.argumentExists(n) != (i >= 0)) { fail("argumentExists(" + q(n) + ") is " + str(a.argumentExists(n))); }
        ++C().comparisons;
        try {
            const blet::args::Argument& g = a.getArgument(n);
            if (i < 0) { fail("getArgument(" + q(n) + ") returns an argument although the name is not known"); }
            eqs(g.getHelp(), m.args[i].tag, ("argument reached by " + n).c_str());
            check(&g == &a[n], "operator[] reaches another object");
            check(&g == &a.updateArgument(n), "updateArgument reaches another object");
            seen[&g] = i;
            eqs(g.getNameOrFlags(), n[0] == '-' ? sortedFlags(m.args[i].names) : m.args[i].names, "getNameOrFlags()");
        }
        catch (const blet::Args::AccessDeniedException& e) {
            if (i >= 0) { fail("getArgument(" + q(n) + ") throws although the name is known"); }
            eqs(std::string(e.argument()), n, "name in the access error");
            bool thrown = false;
            try { a.updateArgument(n); }
            catch (const blet::Args::AccessDeniedException&) { thrown = true; }
            check(thrown, "updateArgument of an unknown name does not throw");
        }
    }
    eq(seen.size(), m.args.size(), "number of distinct arguments");
    if (!full) { return; }
    // listed exactly once, removed ones not at all
    std::string u = a.getUsage();
    for (int t = 0; t < m.next; ++t) {
        std::string tag = "tag" + str(t) + ".";
        size_t want = 0, got = 0;
        for (auto& g : m.args) { want += g.tag == tag; }
        for (size_t p = u.find(tag); p != std::string::npos; p = u.find(tag, p + 1)) { ++got; }
        eq(got, want, ("times " + tag + " is listed in the usage").c_str());
    }
    // what each flag does on the command line
    Cfg c;
    for (auto& g : m.args) {
        c.args.push_back(Spec(g.names, g.names[0][0] == '-' ? K_BOOL : K_POS));
    }
    Machine mm(c);
    for (auto& f : S({"-a", "-b", "-c", "--aa", "--bb", "-ab", "v"})) {
        Strs t(1, f);
        Outcome want = mm.run(t), got = parseOnly(a, t);
        if (got.status == OK) { readAll(a, c, got); }
        ++C().comparisons;
        std::string d = diff(got, want, c, M_ALL);
        if (!d.empty()) { fail(cppParse(t) + "\n" + d); }
    }
}

static void runHistory(const std::vector<Op>& ops, const std::vector<const Op*>& h, bool full) {
    C().describe = [&]() {
        std::string r = "blet::Args args;\n";
        for (auto o : h) { r += text(*o) + "\n"; }
        return r;
    };
    blet::Args a;
    Reg m;
    for (size_t i = 0; i < h.size(); ++i) {
        std::set<std::string> named;
        std::string tag = "tag" + str(m.next) + ".";
        bool want = apply(m, *h[i], named);
        std::string got;
        bool ok = applyReal(a, m, *h[i], tag, got);
        if (ok != want) { fail(text(*h[i]) + (ok ? " accepted" : " refused (naming " + q(got) + ")") + " although the registry rules say otherwise"); }
        if (!ok && !named.count(got)) { fail(text(*h[i]) + ": the error names " + q(got)); }
    }
    same(a, m, full);
    steps(h.size());
    validated();
    state(m.canon());
    sample();
    C().describe = nullptr;
}

static std::vector<Op> allOps() {
    Strs flags = S({"-a", "-b", "-c", "--aa", "--bb"}), names = S({"-a", "-b", "-c", "--aa", "--bb", "P", "Q"});
    std::vector<Op> r;
    for (auto& x : names) { r.push_back({'a', {x}, ""}); }
    for (auto& x : flags) {
        for (auto& y : flags) { r.push_back({'a', {x, y}, ""}); }
    }
    r.push_back({'a', S({"-a", "-b", "-c"}), ""});
    r.push_back({'a', S({"--bb", "-b", "--bb", "-c"}), ""});
    for (auto x : S({"", "-", "--", "-ab"})) {
        r.push_back({'a', {x}, ""});
        r.push_back({'a', {"-a", x}, ""});
        r.push_back({'a', {x, "--aa"}, ""});
    }
    r.push_back({'a', S({"P", "-a"}), ""});
    r.push_back({'a', S({"-a", "P"}), ""});
    r.push_back({'a', S({"P", "Q"}), ""});
    r.push_back({'a', Strs(), ""});
    for (auto& on : names) {
        for (auto& f : flags) { r.push_back({'f', {f}, on}); }
        r.push_back({'f', {"bad"}, on});
    }
    r.push_back({'f', {"-ab"}, "-a"});
    r.push_back({'f', {"--"}, "-a"});
    r.push_back({'f', {""}, "-a"});
    r.push_back({'f', {"-c"}, "zz"});
    for (auto& x : names) {
        r.push_back({'r', {x}, ""});
        for (auto& y : names) { r.push_back({'r', {x, y}, ""}); }
        r.push_back({'r', {x, "zz"}, ""});
        r.push_back({'r', {"zz", x}, ""});
    }
    r.push_back({'r', S({"-a", "--aa", "-b", "-a"}), ""});
    r.push_back({'r', S({"--aa", "-a", "P", "-b", "-c", "--bb", "Q"}), ""});
    r.push_back({'r', Strs(), ""});
    r.push_back({'r', S({""}), ""});
    r.push_back({'c', Strs(), ""});
    return r;
}
static std::vector<Op> fewOps() {
    std::vector<Op> r;
    r.push_back({'a', S({"-a"}), ""});
    r.push_back({'a', S({"--aa"}), ""});
    r.push_back({'a', S({"-a", "--aa"}), ""});
    r.push_back({'a', S({"-b", "-a"}), ""});
    r.push_back({'a', S({"--bb", "-b", "-b"}), ""});
    r.push_back({'a', S({"-c", "-b", "--aa"}), ""});
    r.push_back({'a', S({"P"}), ""});
    r.push_back({'a', S({"Q"}), ""});
    r.push_back({'a', S({"-a", "bad"}), ""});
    r.push_back({'f', S({"--aa"}), "-a"});
    r.push_back({'f', S({"-c"}), "-a"});
    r.push_back({'f', S({"-a"}), "-b"});
    r.push_back({'f', S({"--bb"}), "-b"});
    r.push_back({'f', S({"-c"}), "--aa"});
    r.push_back({'f', S({"-c"}), "P"});
    r.push_back({'r', S({"-a"}), ""});
    r.push_back({'r', S({"--aa"}), ""});
    r.push_back({'r', S({"-b"}), ""});
    r.push_back({'r', S({"-a", "--aa"}), ""});
    r.push_back({'r', S({"-a", "-b"}), ""});
    r.push_back({'r', S({"-b", "-b"}), ""});
    r.push_back({'r', S({"P"}), ""});
    r.push_back({'r', S({"P", "-a"}), ""});
    r.push_back({'r', S({"--aa", "zz"}), ""});
    r.push_back({'c', Strs(), ""});
    r.push_back({'p', Strs(), ""});
    return r;
}

// many names: every count of names on one or two arguments, given at once or
// one by one, taken away in several orders, with collisions all along
static std::string flagNo(int i) {
    static const std::string letters = "gAx1Zb0Qm7Rkc";
    if (i % 3 == 0 && i / 3 < (int)letters.size()) { return std::string("-") + letters[i / 3]; }
    std::string r = "--";
    if (i % 5 == 1) { r += std::string(i / 2 + 1, 'w'); }
    r += (char)('z' - i * 7 % 26);
    return r + str(i);
}
static void many() {
    const Strs keep = pool();
    int top = thorough() ? 70 : 40;
    for (int n = 1; n <= top; ++n) {
        for (int how = 0; how < 9; ++how) {
            for (int order = 0; order < 4; ++order) {
                if (!take()) { continue; }
                Strs f;
                for (int i = 0; i < n; ++i) { f.push_back(flagNo(i)); }
                pool() = f;
                pool().push_back("P");
                pool().push_back(flagNo(n));
                std::vector<Op> ops;
                Strs all = how == 4 ? Strs(f.rbegin(), f.rend()) : f;
                if (how == 0 || how == 4) { ops.push_back({'a', all, ""}); }
                else if (how == 1) {
                    ops.push_back({'a', {f[0]}, ""});
                    for (int i = 1; i < n; ++i) { ops.push_back({'f', {f[i]}, f[i * 3 % i]}); }
                }
                else if (how == 2) { // two owners in turn
                    ops.push_back({'a', {f[0]}, ""});
                    if (n > 1) { ops.push_back({'a', {f[1]}, ""}); }
                    for (int i = 2; i < n; ++i) { ops.push_back({'f', {f[i]}, f[i % 2]}); }
                }
                else if (how > 4) { // an owner for every one, two, three, four names
                    for (int i = 0; i < n; i += how - 4) { ops.push_back({'a', Strs(f.begin() + i, f.begin() + std::min(n, i + how - 4)), ""}); }
                }
                else { // half at once, the rest one by one
                    ops.push_back({'a', Strs(f.begin(), f.begin() + (n + 1) / 2), ""});
                    for (int i = (n + 1) / 2; i < n; ++i) { ops.push_back({'f', {f[i]}, f[i - 1]}); }
                }
                ops.push_back({'a', {"P"}, ""});
                // refused: every name is taken
                ops.push_back({'a', {flagNo(n), f[n - 1]}, ""});
                ops.push_back({'a', {f[n / 2]}, ""});
                ops.push_back({'f', {f[n / 2]}, f[0]});
                ops.push_back({'r', {f[0], "zz"}, ""});
                auto run = [&]() {
                    std::vector<const Op*> h;
                    for (auto& o : ops) { h.push_back(&o); }
                    runHistory(ops, h, false);
                };
                run();
                Strs out = f;
                if (order == 1) { std::reverse(out.begin(), out.end()); }
                if (order == 2) { std::rotate(out.begin(), out.begin() + n / 2, out.end()); }
                if (how > 4 && order < 2) { // the first names, or the last ones, of all owners before the others
                    out.clear();
                    for (int k = how - 4; k-- > 0;) {
                        for (int i = order ? k : how - 5 - k; i < n; i += how - 4) { out.push_back(f[i]); }
                    }
                }
                if (order == 3) { // all but the last in one call
                    ops.push_back({'r', Strs(out.begin(), out.begin() + n / 2), ""});
                    if (n / 2 == 0) { ops.pop_back(); }
                    run();
                    ops.push_back({'r', Strs(out.begin() + n / 2, out.end()), ""});
                    run();
                }
                else {
                    for (int i = 0; i < n; ++i) {
                        ops.push_back({'r', {out[i]}, ""});
                        if (i < 3 || i > n - 3 || i == n / 2 || (how > 4 && n < 20)) { run(); }
                    }
                }
                ops.push_back({'a', {flagNo(n), f[n - 1]}, ""}); // free again
                run();
                bump("registries with many names", 1);
            }
        }
    }
    pool() = keep;
}

void explore() {
    many();
    // fixpoint of the model, every transition replayed on the implementation
    std::vector<Op> ops = allOps();
    Op parse = {'p', Strs(), ""};
    {
        std::map<std::string, std::vector<const Op*> > path; // state -> shortest history
        std::vector<std::string> queue;
        path[Reg().canon()] = {};
        queue.push_back(Reg().canon());
        for (size_t i = 0; i < queue.size(); ++i) {
            std::vector<const Op*> h = path[queue[i]];
            Reg m;
            std::set<std::string> named;
            for (auto o : h) { apply(m, *o, named); }
            for (auto& o : ops) {
                Reg n = m;
                apply(n, o, named);
                std::string key = n.canon();
                if (!path.count(key)) {
                    path[key] = h;
                    path[key].push_back(&o);
                    queue.push_back(key);
                }
                if (!take()) { continue; }
                std::vector<const Op*> g = h;
                g.push_back(&o);
                runHistory(ops, g, true);
                // the same with parses before the last call, and after each one
                g.insert(g.end() - 1, &parse);
                runHistory(ops, g, true);
                g.clear();
                for (auto p : h) {
                    g.push_back(p);
                    g.push_back(&parse);
                }
                g.push_back(&o);
                runHistory(ops, g, true);
            }
        }
        if (C().shard == 0) { bump("model states at the fixpoint (per variant)", queue.size()); }
    }
    // all histories
    std::vector<Op> few = fewOps();
    uint64_t n = few.size();
    for (int depth = 2; depth <= (thorough() ? 5 : 4); ++depth) {
        uint64_t total = 1;
        for (int i = 0; i < depth; ++i) { total *= n; }
        if (skipBlock(total)) { continue; }
        for (uint64_t x = 0; x < total; ++x) {
            if (!take()) { continue; }
            std::vector<const Op*> h(depth);
            uint64_t y = x;
            for (int i = depth; i-- > 0; y /= n) { h[i] = &few[y % n]; }
            runHistory(few, h, depth <= 3);
        }
    }
    grand(grandLevel(0), grandCheck, G_CROWD | G_PAIRS | G_HISTORY);
}
