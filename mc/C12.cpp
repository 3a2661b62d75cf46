// C12: definition calls keep action, arity and behaviour consistent.
// All histories of definition calls up to a depth; after each one the reported
// definition must be the model's and the argument must consume tokens the way
// that definition documents; help/version ownership over two arguments.
#include "defs.hpp"
#include "grand.hpp"
using namespace mc;

struct Op {
    char what; // A action, n nargs, d defaults, R required, f flag, D dest, r remove, a add, p parse, c clear
    size_t x;
    int arg;
};
static Strs dv(size_t n) {
    Strs r;
    for (size_t i = 0; i < n; ++i) { r.push_back("D" + str(i)); }
    return r;
}
// command line of a parse call: empty, the argument alone, with values
static Strs lineOf(const Op& o, const std::string& nm) {
    Strs r;
    if (o.x && nm[0] == '-') { r.push_back(nm); }
    if (o.x == 2 || (o.x && nm[0] != '-')) { r.push_back("a"); }
    if (o.x == 2) { r.push_back("b"); }
    return r;
}
static std::string text(const Op& o, const std::string& nm) {
    std::string u = "args.updateArgument(" + q(nm) + ")";
    switch (o.what) {
        case 'A': return u + ".action(" + actionName((int)o.x) + ");";
        case 'n': return u + ".nargs(" + (o.x == '+' ? std::string("'+'") : str(o.x)) + ");";
        case 'd': return u + ".defaults(" + q(dv(o.x)) + ");";
        case 'R': return u + ".required(" + str(o.x) + ");";
        case 'f': return u + ".flag(\"-1\");";
        case 'D': return u + (o.x == 0 ? ".dest(string);" : o.x == 1 ? ".dest(vector<string>);" : ".dest(vector<vector<string>>);");
        case 'r': return "args.removeArguments(" + q(nm) + ");";
        case 'a': return "args.addArgument(" + q(nm) + ");";
        case 'p': return cppParse(lineOf(o, nm)) + " // exceptions caught";
        default: return "args.clear();";
    }
}

struct Env {
    std::string s[2];
    Strs l[2];
    std::vector<Strs> ll[2];
};

// Model with several arguments, some of which may be undefined at the moment.
struct World {
    Defs m;
    Strs names;
    std::vector<bool> live;
    bool autoHelp; // the automatic help option has been added by a parse
    explicit World(const Strs& n) : names(n), autoHelp(false) {
        for (auto& x : n) {
            m.v.push_back(Defn(Strs(1, x)));
            live.push_back(true);
        }
    }
};

// true if done or both sides agree on the refusal
static void step(blet::Args& a, World& w, const Op& o, Env& env) {
    const std::string& nm = w.names[o.arg];
    Defn& d = w.m.v[o.arg];
    bool want = true, got = true;
    std::string named;
    bool needs = o.what != 'p' && o.what != 'c' && o.what != 'a';
    if (needs && !w.live[o.arg]) { return; }
    if (o.what == 'a' && w.live[o.arg]) { return; }
    try {
        switch (o.what) {
            case 'A':
                if ((int)o.x == Act::HELP && w.autoHelp && w.m.help < 0) { want = false; } // the automatic option holds it
                else { want = w.m.set(o.arg, (int)o.x, d.nargs, d.defaults); }
                a.updateArgument(nm).action((Act::eAction)o.x);
                break;
            case 'n': want = w.m.set(o.arg, d.action, o.x, d.defaults); a.updateArgument(nm).nargs(o.x); break;
            case 'd': want = w.m.set(o.arg, d.action, d.nargs, dv(o.x)); a.updateArgument(nm).defaults(vec(dv(o.x))); break;
            case 'R': d.required = o.x; a.updateArgument(nm).required(o.x); break;
            case 'f': {
                bool dup = a.argumentExists("-1");
                want = !d.pos && !dup;
                a.updateArgument(nm).flag("-1");
                d.names.push_back("-1");
                break;
            }
            case 'D':
                if (o.x == 0) { a.updateArgument(nm).dest(env.s[o.arg]); }
                else if (o.x == 1) { a.updateArgument(nm).dest(env.l[o.arg]); }
                else { a.updateArgument(nm).dest(env.ll[o.arg]); }
                break;
            case 'r':
                a.removeArguments(vec(d.names));
                w.live[o.arg] = false;
                if (w.m.help == o.arg) { w.m.help = -1; }
                if (w.m.version == o.arg) { w.m.version = -1; }
                break;
            case 'a':
                a.addArgument(nm);
                d = Defn(Strs(1, nm));
                w.live[o.arg] = true;
                break;
            case 'p': {
                if (w.m.help < 0) { w.autoHelp = true; }
                parseOnly(a, lineOf(o, nm));
                break;
            }
            default:
                a.clear();
                w.m.help = w.m.version = -1;
                w.autoHelp = false;
                for (size_t i = 0; i < w.live.size(); ++i) { w.live[i] = false; }
                a.setHelpException().setVersionException().setVersion("1.2.3");
                break;
        }
    }
    catch (const blet::Args::ArgumentException& e) {
        got = false;
        named = e.argument();
        if (std::string(e.what()).empty()) { fail("error with an empty message"); }
    }
    if (got != want) {
        fail(text(o, nm) + (got ? " accepted although this combination is not allowed" : " refused although it is allowed"));
    }
    if (!got) {
        eqs(named, o.what == 'f' ? std::string("-1") : d.pos ? d.names[0] : sortedFlags(d.names)[0], "name in the refusal");
    }
}

static void verify(blet::Args& a, World& w, const std::vector<Strs>& probes, std::function<void(blet::Args&)> rebuild, const std::string& what) {
    Cfg c;
    for (size_t i = 0; i < w.m.v.size(); ++i) {
        eq(a.argumentExists(w.names[i]), (bool)w.live[i], "argumentExists");
        if (w.live[i]) {
            sameDefinition(a.getArgument(w.names[i]), w.m.v[i]);
            c.args.push_back(w.m.spec((int)i));
        }
    }
    Cfg full = c;
    full.args.push_back(Spec(S({"-k"}), K_BOOL));
    Machine mm(full);
    a.addArgument("-k").action(blet::Args::STORE_TRUE);
    for (auto& t : probes) {
        Outcome want = mm.run(t), got = parseOnly(a, t);
        if (got.status == OK) { readAll(a, full, got); }
        ++C().comparisons;
        std::string df = diff(got, want, full, M_ALL);
        if (!df.empty()) { fail("args.addArgument(\"-k\").action(STORE_TRUE);\n" + cppParse(t) + "\n" + df); }
        steps(t.size() + 1);
        if (want.status == OK) {
            // values are presented in the documented shape
            for (size_t i = 0; i < c.args.size(); ++i) {
                const blet::args::Argument& g = a[c.args[i].names[0]];
                Kind k = c.args[i].kind;
                bool vecOk = true, grpOk = true;
                try { g.operator std::vector<std::string>(); } catch (const blet::Args::Exception&) { vecOk = false; }
                try { g.operator std::vector<std::vector<std::string> >(); } catch (const blet::Args::Exception&) { grpOk = false; }
                eq(vecOk, !valueless(k), "conversion to a list possible");
                eq(grpOk, grouped(k), "conversion to groups possible");
                if (valueless(k) || scalar(k)) { eq(g.size(), (size_t)0, "size()"); }
                if (k == K_RBOOL) { eq((bool)g, !want.args[i].exist, "operator bool"); }
            }
        }
    }
    validated();
    state(w.m.canon());
}

static std::vector<Strs> probesFor(const std::string& nm, bool few) {
    if (nm[0] == '-') {
        if (few) { return {{}, {nm, "a", "b", "-k"}, {nm, "a", "b", "c", nm, "d"}}; }
        return {{}, {nm}, {nm, "a"}, {nm, "a", "b"}, {nm, "a", "b", "-k"}, {nm, "a", "b", "c", "d", "-k", "e"}, {nm, "a", "b", nm, "c", "d"}, {nm + "=x"}, {nm + "x", nm, "a", "b"}, {nm, "a", "b", "--", "z"}};
    }
    if (few) { return {{}, {"a", "b", "-k"}, {"a", "b", "c"}}; }
    return {{}, {"a"}, {"a", "b"}, {"a", "b", "-k", "c"}, {"a", "b", "c"}, {"a", "b", "c", "d", "-k"}, {"--", "-k", "b"}};
}

static std::vector<Op> opsOn(int arg, bool pos) {
    std::vector<Op> r;
    for (int a = 0; a < 8; ++a) { r.push_back({'A', (size_t)a, arg}); }
    for (size_t n : {(size_t)0, (size_t)1, (size_t)2, (size_t)3, (size_t)'+'}) { r.push_back({'n', n, arg}); }
    for (size_t n = 0; n <= 4; ++n) {
        if (n != 3 || thorough()) { r.push_back({'d', n, arg}); }
    }
    r.push_back({'R', 1, arg});
    if (thorough()) { r.push_back({'R', 0, arg}); }
    if (!pos) { r.push_back({'f', 0, arg}); }
    // dest by shape would convert values; strings take everything
    r.push_back({'D', 1, arg});
    r.push_back({'p', 1, arg});
    r.push_back({'p', 2, arg});
    return r;
}

static void single(const std::string& nm) {
    std::vector<Op> ops = opsOn(0, nm[0] != '-');
    uint64_t n = ops.size();
    for (int depth = 0; depth <= (thorough() ? 5 : 4); ++depth) {
        uint64_t total = 1;
        for (int i = 0; i < depth; ++i) { total *= n; }
        if (skipBlock(total)) { continue; }
        std::vector<Strs> probes = probesFor(nm, depth >= 4);
        for (uint64_t x = 0; x < total; ++x) {
            if (!take()) { continue; }
            std::vector<Op> h(depth);
            uint64_t y = x;
            for (int i = depth; i-- > 0; y /= n) { h[i] = ops[y % n]; }
            C().describe = [&]() {
                std::string r = "args.addArgument(" + q(nm) + ");\n";
                for (auto& o : h) { r += text(o, nm) + "\n"; }
                return r + "// refused calls are caught";
            };
            blet::Args a;
            a.setHelpException().setVersionException().setVersion("1.2.3");
            a.addArgument(nm);
            World w(Strs(1, nm));
            Env env;
            for (auto& o : h) { step(a, w, o, env); }
            steps(depth);
            verify(a, w, probes, nullptr, "");
            sample();
            C().describe = nullptr;
        }
    }
}

static void owners() {
    Strs names = S({"-x", "-y"});
    std::vector<Op> ops;
    for (int i = 0; i < 2; ++i) {
        for (int a : {Act::HELP, Act::VERSION, Act::NONE, Act::STORE_TRUE, Act::APPEND}) { ops.push_back({'A', (size_t)a, i}); }
        ops.push_back({'n', 1, i});
        ops.push_back({'n', 0, i});
        ops.push_back({'D', 0, i});
        ops.push_back({'r', 0, i});
        ops.push_back({'a', 0, i});
    }
    ops.push_back({'p', 0, 0});
    ops.push_back({'p', 1, 0});
    ops.push_back({'p', 1, 1});
    ops.push_back({'c', 0, 0});
    ops.push_back({'f', 0, 0});
    std::vector<Strs> probes = {{"-x"}, {"-y"}, {"-x", "-y"}, {"-k"}, {"-h"}, {"--help"}};
    uint64_t n = ops.size();
    for (int depth = 1; depth <= (thorough() ? 5 : 4); ++depth) {
        uint64_t total = 1;
        for (int i = 0; i < depth; ++i) { total *= n; }
        if (skipBlock(total)) { continue; }
        for (uint64_t x = 0; x < total; ++x) {
            if (!take()) { continue; }
            std::vector<Op> h(depth);
            uint64_t y = x;
            for (int i = depth; i-- > 0; y /= n) { h[i] = ops[y % n]; }
            C().describe = [&]() {
                std::string r = "args.addArgument(\"-x\"); args.addArgument(\"-y\");\n";
                for (auto& o : h) { r += text(o, names[o.arg]) + "\n"; }
                return r + "// refused calls are caught";
            };
            blet::Args a;
            a.setHelpException().setVersionException().setVersion("1.2.3");
            a.addArgument("-x");
            a.addArgument("-y");
            World w(names);
            Env env;
            for (auto& o : h) { step(a, w, o, env); }
            steps(depth);
            if (w.autoHelp) {
                // the automatic option stays; the reference machine adds its own
                bool owner = w.m.help >= 0;
                if (owner) { C().describe = nullptr; continue; } // cannot happen: the action is taken
            }
            verify(a, w, depth == 4 && !thorough() ? std::vector<Strs>(probes.begin(), probes.begin() + 3) : probes, nullptr, "");
            C().describe = nullptr;
        }
    }
}

void explore() {
    owners();
    single("-x");
    single("--long");
    single("POS");
    hugeArities();
    grand(grandLevel(0), grandCheck);
}
