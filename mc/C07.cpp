// C07: defaults apply exactly when the argument is absent and are replaced as
// a whole; every order of the definition calls; refused sizes.
#include "defs.hpp"
#include "grand.hpp"
using namespace mc;

struct Op {
    int what; // 0 action, 1 nargs, 2 defaults, 3 dest, 4 flag, 5 metavar/help
    size_t x;
    Strs d;
};
static std::string text(const Op& o) {
    switch (o.what) {
        case 0: return std::string(".action(") + actionName(o.x) + ")";
        case 1: return ".nargs(" + str(o.x) + ")";
        case 2: return ".defaults(" + q(o.d) + ")";
        case 3: return ".dest(var)";
        default: return ".flag(\"--late\")";
    }
}
static Strs values(size_t n, int set) {
    static const char* odd[] = {"", "-b", "--", "a=b", " x y ", "7"};
    Strs r;
    for (size_t i = 0; i < n; ++i) {
        r.push_back(set == 0 ? "D" + str(i) : set == 1 ? "E" + str(i) : odd[i % 6]);
    }
    return r;
}
static std::vector<Op> calls(Kind k) {
    switch (k) {
        case K_NUMBER: case K_POSNUM: return {{1, 2, {}}};
        case K_INF: case K_POSINF: return {{0, Act::INFINITE, {}}};
        case K_MULTI: return {{0, Act::APPEND, {}}};
        case K_MULTINUM: return {{0, Act::APPEND, {}}, {1, 2, {}}};
        case K_EXT: return {{0, Act::EXTEND, {}}};
        case K_EXTNUM: return {{0, Act::EXTEND, {}}, {1, 2, {}}};
        case K_POSINFNUM: return {{0, Act::INFINITE, {}}, {1, 2, {}}};
        default: return {};
    }
}

struct Env {
    std::string one;
    Strs list;
    std::vector<Strs> lists;
};

// apply the calls to the real argument and to the model
static void apply(blet::Args& a, Defs& m, const std::vector<Op>& ops, Env& env, Kind k) {
    for (auto& o : ops) {
        Defn& d = m.v[0];
        blet::args::Argument& g = a.updateArgument(d.names[0]);
        bool want = true, got = true;
        Strs before = g.getDefaults();
        std::string named;
        try {
            switch (o.what) {
                case 0: want = m.set(0, (int)o.x, d.nargs, d.defaults); g.action((Act::eAction)o.x); break;
                case 1: want = m.set(0, d.action, o.x, d.defaults); g.nargs(o.x); break;
                case 2: want = m.set(0, d.action, d.nargs, o.d); g.defaults(vec(o.d)); break;
                case 3:
                    if (grouped(k)) { g.dest(env.lists); }
                    else if (scalar(k)) { g.dest(env.one); }
                    else { g.dest(env.list); }
                    break;
                default: g.flag("--late"); d.names.push_back("--late"); break;
            }
        }
        catch (const blet::Args::ArgumentException& e) {
            got = false;
            named = e.argument();
        }
        if (got != want) {
            fail(text(o) + (got ? " accepted although the number of defaults cannot be held" : " refused although it fits"));
        }
        if (!got) {
            eqs(named, d.pos ? d.names[0] : sortedFlags(d.names)[0], "refused call names");
        }
    }
}

static void verify(blet::Args& a, const Cfg& c, const Defs& m, const Machine& mm, const Strs& t, const char* when) {
    Outcome want = Machine(mm).run(t);
    Outcome got = parseOnly(a, t);
    if (got.status == OK) {
        readAll(a, c, got);
    }
    ++C().comparisons;
    std::string df = diff(got, want, c, M_ALL);
    if (!df.empty()) {
        fail(std::string(when) + cppParse(t) + "\n" + df);
    }
    const blet::args::Argument& g = a[m.v[0].names[0]];
    eqs(g.getDefaults(), m.v[0].defaults, "getDefaults()");
    eqs(g.getDefault(), defaultText(c.args[0]), "getDefault()");
    if (got.status == OK && !want.args[0].exist && !g.empty() && !grouped(c.args[0].kind)) {
        for (size_t i = 0; i < g.size(); ++i) {
            eqs(g[i].getDefault(), m.v[0].defaults[i], "getDefault() of an element");
        }
    }
    steps(t.size() + 1);
    validated();
    state(canon(want) + m.canon());
}

static void lines(const Spec& s, std::vector<Strs>& out) {
    Strs alpha = S({"%", "-b"});
    if (!isPos(s.kind)) {
        alpha.push_back(shortOf(s));
        alpha.push_back(longOf(s) + "=%");
        alpha.push_back(shortOf(s) + "%");
    }
    else {
        alpha.push_back("--");
    }
    size_t depth = thorough() ? 5 : 3;
    std::vector<Strs> cur(1);
    out.push_back(Strs());
    for (size_t d = 1; d <= depth; ++d) {
        std::vector<Strs> next;
        for (auto& c : cur) {
            for (auto& x : alpha) {
                Strs y = c;
                y.push_back(instantiate(x, d));
                next.push_back(y);
            }
        }
        out.insert(out.end(), next.begin(), next.end());
        cur = next;
    }
    if (!isPos(s.kind) && !thorough()) {
        out.push_back({shortOf(s), "v1", "v2", shortOf(s), "v3", "v4"});
        out.push_back({shortOf(s), "v1", "v2", "-b", longOf(s), "v3", "v4", "v5", "v6"});
    }
}

void explore() {
    std::vector<Kind> ks = valueKinds();
    ks.insert(ks.end(), posKinds().begin(), posKinds().end());
    for (auto k : ks) {
        std::vector<std::vector<Op> > extra = {{}, {{3, 0, {}}}, {{2, 0, {"redeclared"}}}, {{2, 0, {"r1", "r2"}}}, {{2, 0, {}}}};
        if (!isPos(k)) {
            extra.push_back({{4, 0, {}}});
        }
        for (auto& ex : extra) {
            for (size_t n = 0; n <= (thorough() ? 7u : 5u); ++n) {
                for (int set = 0; set < 3; set += 2) {
                    std::vector<Op> base = calls(k);
                    base.push_back({2, 0, values(n, set)});
                    base.insert(base.end(), ex.begin(), ex.end());
                    std::vector<int> order;
                    for (size_t i = 0; i < base.size(); ++i) {
                        order.push_back(i);
                    }
                    std::vector<Strs> ls;
                    lines(kit(k), ls);
                    do {
                        if (skipBlock(ls.size())) {
                            continue;
                        }
                        std::vector<Op> ops;
                        for (int i : order) {
                            ops.push_back(base[i]);
                        }
                        for (auto& t : ls) {
                            if (!take()) {
                                continue;
                            }
                            C().describe = [&]() {
                                std::string r = "args.addArgument(" + q(kit(k).names) + ")";
                                for (auto& o : ops) { r += text(o); }
                                return r + "; // updateArgument before each call, refused calls caught\nargs.addArgument(\"-b\").action(STORE_TRUE);\n" + cppParse(t);
                            };
                            blet::Args a;
                            Defs m;
                            Env env;
                            a.addArgument(vec(kit(k).names));
                            m.v.push_back(Defn(kit(k).names));
                            apply(a, m, ops, env, k);
                            Cfg c = m.cfg();
                            c.args.push_back(Spec(S({"-b"}), K_BOOL));
                            define(a, c.args[1]);
                            modes(a, c);
                            Machine mm(c);
                            verify(a, c, m, mm, t, "");
                            // and again without it, then with it: the defaults are still the declared ones
                            if (t.size() <= 2) {
                                verify(a, c, m, mm, Strs(), "second parse: ");
                                verify(a, c, m, mm, t, "third parse: ");
                            }
                            sample();
                            C().describe = nullptr;
                        }
                    } while (std::next_permutation(order.begin(), order.end()));
                }
            }
        }
    }
    // long default lists
    for (auto k : ks) {
        for (unsigned n = 1; n <= 7; ++n) {
            for (unsigned cnt = 0; cnt <= (thorough() ? 80u : 36u); ++cnt) {
                for (int present = 0; present < 3; ++present) {
                    if (!take()) {
                        continue;
                    }
                    blet::Args a;
                    Defs m;
                    Strs names = kit(k).names;
                    C().describe = [&]() { return std::string(kindName(k)) + " with n=" + str(n) + " and " + str(cnt) + " defaults, present=" + str(present); };
                    a.addArgument(vec(names));
                    m.v.push_back(Defn(names));
                    std::vector<Op> ops = calls(k);
                    for (auto& o : ops) {
                        if (o.what == 1) { o.x = n; }
                    }
                    ops.push_back({2, 0, values(cnt, 0)});
                    Env env;
                    apply(a, m, ops, env, k);
                    Cfg c = m.cfg();
                    modes(a, c);
                    Strs t;
                    if (present) {
                        if (!isPos(k)) { t.push_back(names[present - 1]); }
                        for (unsigned i = 0; i < (n > 1 ? n : 1); ++i) { t.push_back("g" + str(i)); }
                    }
                    verify(a, c, m, Machine(c), t, "");
                    C().describe = nullptr;
                }
            }
        }
    }
    // every kind of text as a default, in every place
    Strs odd = S({"", "-b", "--", "-", "a=b", "=", " x y ", " ", "7", "l1\nl2", "\n", "end\n", "\r\n", "\t", "a, b", "a,b", "(x)", ")", "(a, b), (c, d)", "\"q\"", "'", "\\n", "%s", "%", "$HOME", "~", "*", "{}", "[]", "...", "\xc3\xa9", "\xff", "\x01", "true", "false", "0", "NULL", "none", "--help", "-h", "-s", "#", ";"});
    odd.push_back(std::string(300, 'L'));
    odd.push_back(std::string(5000, 'L') + " end");
    for (auto k : ks) {
        for (size_t i = 0; i < odd.size(); ++i) {
            for (size_t n = 1; n <= 4; ++n) {
                for (size_t at = 0; at <= n; ++at) { // the last: everywhere
                    if (!take()) { continue; }
                    Strs ds = values(n, 0);
                    for (size_t j = 0; j < n; ++j) {
                        if (at == j || at == n) { ds[j] = odd[i]; }
                    }
                    blet::Args a;
                    Defs m;
                    Strs names = kit(k).names;
                    C().describe = [&]() { return std::string(kindName(k)) + " with the defaults " + q(ds); };
                    a.addArgument(vec(names));
                    m.v.push_back(Defn(names));
                    std::vector<Op> ops = calls(k);
                    ops.push_back({2, 0, ds});
                    Env env;
                    apply(a, m, ops, env, k);
                    Cfg c = m.cfg();
                    c.args.push_back(Spec(S({"-b"}), K_BOOL));
                    define(a, c.args[1]);
                    modes(a, c);
                    Strs t;
                    if (!isPos(k)) { t.push_back(names[0]); }
                    t.push_back("g1");
                    t.push_back("g2");
                    verify(a, c, m, Machine(c), Strs(), "");
                    verify(a, c, m, Machine(c), t, "second parse: ");
                    verify(a, c, m, Machine(c), S({"-b"}), "third parse: ");
                    C().describe = nullptr;
                }
            }
        }
    }
    grand(grandLevel(), grandCheck);
}
