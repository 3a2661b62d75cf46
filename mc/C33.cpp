// C33: the order of independent uses on the command line does not matter.
// A command line is a sequence of complete uses.  Every sequence of uses up to
// a length is executed and compared with the one that has the same uses sorted
// by argument (uses of the same option, and positionals, keep their order).
#include "grand.hpp"
#include "rich.hpp"
using namespace mc;

struct Use {
    Strs tokens;
    int owner;    // -1: positionals; uses of one owner keep their order
    bool open;    // an unbounded list: a positional cannot follow it
    bool refused; // not a use at all
};
struct Set {
    std::string text;
    std::vector<Use> uses;
    std::function<std::string(const Strs&)> run; // everything observable
    bool strict; // surplus words are refused as well
};
static bool allowed(const std::vector<const Use*>& l) {
    for (size_t i = 0; i + 1 < l.size(); ++i) {
        if (l[i]->open && (l[i + 1]->owner < 0 || l[i + 1]->refused)) { return false; }
    }
    return true;
}
static Strs flat(const std::vector<const Use*>& l) {
    Strs r;
    for (auto u : l) { r.insert(r.end(), u->tokens.begin(), u->tokens.end()); }
    return r;
}
static std::string firstLine(const std::string& s) { return s.substr(0, s.find('\n')); }

static void decide(const Set& s, size_t len) {
    uint64_t k = s.uses.size();
    for (size_t n = 2; n <= len; ++n) {
        uint64_t total = 1;
        for (size_t i = 0; i < n; ++i) { total *= k; }
        if (skipBlock(total)) { continue; }
        for (uint64_t x = 0; x < total; ++x) {
            if (!take()) { continue; }
            std::vector<const Use*> l(n), m;
            uint64_t y = x;
            for (size_t i = n; i-- > 0;) {
                l[i] = &s.uses[y % k];
                y /= k;
            }
            m = l;
            std::stable_sort(m.begin(), m.end(), [](const Use* a, const Use* b) { return a->owner < b->owner; });
            if (m == l || !allowed(l)) { continue; }
            if (!allowed(m)) { continue; }
            size_t refused = 0;
            for (auto u : l) { refused += u->refused; }
            Strs a = flat(m), b = flat(l);
            C().describe = [&]() { return s.text + cppParse(a) + "\nagainst\n" + cppParse(b); };
            std::string ra = s.run(a), rb = s.run(b);
            ++C().comparisons;
            if (refused > (s.strict ? 0 : 1) ? firstLine(ra).substr(0, 5) != firstLine(rb).substr(0, 5) : ra != rb) {
                fail("the same uses in another order give something else\n" + firstDiff(ra, rb, "sorted  ", "reordered"));
            }
            steps(a.size() + b.size());
            validated(2);
            state(ra);
            bump(refused ? "orders of refused lines" : "orders of lines");
            sample();
            C().describe = nullptr;
        }
    }
}

// one longer line: every order of it
static void orders(const Set& s, const std::vector<const Use*>& line) {
    std::vector<const Use*> m = line;
    std::stable_sort(m.begin(), m.end(), [](const Use* a, const Use* b) { return a->owner < b->owner; });
    if (!take() || !allowed(m)) { return; }
    Strs a = flat(m);
    std::string ra = s.run(a);
    std::vector<int> o;
    for (auto u : m) { o.push_back(u->owner); }
    while (std::next_permutation(o.begin(), o.end())) {
        std::vector<const Use*> l;
        std::map<int, size_t> at;
        for (int w : o) {
            size_t& k = at[w];
            size_t seen = 0;
            for (auto u : m) {
                if (u->owner == w && seen++ == k) {
                    l.push_back(u);
                    ++k;
                    break;
                }
            }
        }
        if (!allowed(l)) { continue; }
        Strs b = flat(l);
        C().describe = [&]() { return s.text + cppParse(a) + "\nagainst\n" + cppParse(b); };
        std::string rb = s.run(b);
        ++C().comparisons;
        if (ra != rb) { fail("the same uses in another order give something else\n" + firstDiff(ra, rb, "sorted  ", "reordered")); }
        steps(b.size());
        validated();
        bump("orders of longer lines");
    }
    C().describe = [&]() { return s.text + cppParse(a) + " and all its orders"; };
    state(ra);
    sample();
    C().describe = nullptr;
}
static void longer(const Set& s) {
    std::map<int, std::vector<const Use*> > by;
    for (auto& u : s.uses) {
        if (u.owner <= 2) { by[u.owner].push_back(&u); }
    }
    // two words, two uses of each option in every way
    for (auto x : by[1]) {
        for (auto x2 : by[1]) {
            for (size_t k = 0; k < by[2].size(); ++k) {
                std::vector<const Use*> l = by[-1];
                l.push_back(x);
                l.push_back(x2);
                l.push_back(by[2][k]);
                l.push_back(by[2][(k + 1) % by[2].size()]);
                orders(s, l);
            }
        }
    }
}

// ---- definition sets of every kind
static void ways(std::vector<Use>& r, const Spec& s, int owner, bool alt) {
    static const char* values[] = {"v1", "-7", "a=b"};
    std::string sh = shortOf(s), lo = longOf(s);
    bool group = s.kind == K_NUMBER || grouped(s.kind);
    bool open = s.kind == K_INF || s.kind == K_EXT || s.kind == K_EXTNUM;
    for (int i = 0; i < 2; ++i) {
        Use u;
        u.owner = owner;
        u.open = open;
        u.refused = false;
        u.tokens.push_back(i ? (alt ? lo.substr(1) : lo) : sh);
        if (!valueless(s.kind)) {
            if (group) {
                for (size_t k = 0; k < s.n; ++k) { u.tokens.push_back((open ? "w" : values[k % 3]) + str(i) + str(k)); }
            }
            else if (open) {
                u.tokens.push_back("w" + str(i));
                if (i) { u.tokens.push_back("x"); }
            }
            else if (i) { u.tokens[0] += "=" + std::string(values[2]); }
            else { u.tokens.push_back(values[1]); }
        }
        r.push_back(u);
    }
    if (scalar(s.kind) || s.kind == K_MULTI) {
        Use u = r.back();
        u.tokens = Strs(1, sh + "glued");
        r.push_back(u);
        u.tokens = Strs(1, lo + "=");
        r.push_back(u);
    }
    if (s.kind == K_INF || s.kind == K_EXT) { // one value, so a positional may follow
        Use u;
        u.owner = owner;
        u.open = false;
        u.refused = false;
        u.tokens = Strs(1, (alt ? lo.substr(1) : lo) + "=" + values[2]);
        r.push_back(u);
        u.tokens = Strs(1, sh + "glued");
        r.push_back(u);
    }
}
static Set kitSet(const Cfg& c, const std::vector<Strs>& positionals) {
    Set s;
    s.text = cppCfg(c);
    s.strict = c.strict;
    int owner = 0;
    for (auto& p : positionals) { s.uses.push_back(Use{p, -1, false, false}); }
    for (auto& x : c.args) {
        if (!isPos(x.kind)) { ways(s.uses, x, ++owner, c.alternative); }
    }
    // a cluster of two flags
    if (!isPos(c.args[1].kind) && valueless(c.args[0].kind) && valueless(c.args[1].kind)) { s.uses.push_back(Use{Strs(1, "-" + shortOf(c.args[0]).substr(1) + shortOf(c.args[1]).substr(1)), 2, false, false}); }
    s.uses.push_back(Use{S({"-u"}), 98, false, true});
    s.uses.push_back(Use{S({"-h"}), 99, false, false});
    Strs names = namesOf(c);
    names.push_back("-h");
    s.run = [c, names](const Strs& t) {
        blet::Args a;
        build(a, c);
        Outcome o = parseOnly(a, t);
        if (o.status == TOKEN_ERROR) { return dump(o); }
        return dump(o) + dump(a, names);
    };
    return s;
}
// ---- a list of positionals is one use, so it may stand once
static void lists(const Cfg& c, const std::vector<Strs>& ways_, size_t len) {
    for (auto& w : ways_) {
        Set s = kitSet(c, std::vector<Strs>(1, w));
        for (auto& u : s.uses) { u.open = u.open || (u.owner < 0 && c.args.back().kind != K_POSNUM); } // takes unknown options too
        Set once = s;
        auto run = s.run;
        size_t n = w.size();
        // the same list twice is two different things; those lines are left out
        once.run = [run, w, n](const Strs& t) {
            size_t found = 0;
            for (size_t i = 0; i + n <= t.size(); ++i) { found += std::equal(w.begin(), w.end(), t.begin() + i); }
            return found > 1 ? std::string("left out\n") : run(t);
        };
        decide(once, len);
    }
}

// ---- sets with destinations, validators and conversions
static void riches(size_t len) {
    typedef blet::Args Args;
    std::vector<RichCase> cs = richCases();
    const std::vector<std::vector<std::pair<int, Strs> > > uses = {
        {{-1, S({"red"})}, {-1, S({"blue"})}, {1, S({"-s", "12"})}, {1, S({"-s=3.5"})}, {1, S({"-sx"})}},
        {{1, S({"-n", "3", "4"})}, {1, S({"--num", "0x1", "1e1"})}, {1, S({"-n", "3", "99"})}},
        {{1, S({"-x", "1", "2"})}, {1, S({"-x", "3", "no"})}, {2, S({"-m", "a"})}, {2, S({"-mb"})}, {2, S({"-m", "boom"})}},
        {{1, S({"-x", "5", "6"})}, {1, S({"-x", "5", "word"})}},
        {{-1, S({"p"})}, {-1, S({"boom"})}, {1, S({"-b"})}, {2, S({"-r"})}, {2, S({"-br"})}, {3, S({"-s", "v"})}, {3, S({"-s", "no"})}, {3, S({"-bsq"})}},
        {{-1, S({"surplus"})}, {1, S({"-m", "1"})}, {1, S({"-m9"})}, {2, S({"-g", "1", "2"})}, {2, S({"-g", "3", "4"})}, {3, S({"-s", "/"})}, {3, S({"-s/no"})}},
        {{1, S({"-s", "1"})}, {1, S({"--size=0"})}, {1, S({"-s9"})}},
    };
    const std::vector<std::vector<Strs> > lists_ = {{}, {S({"a", "b", "c"}), S({"a", "no"})}, {}, {S({"p", "q", "r", "s"}), S({"p", "no"})}, {}, {}, {S({"1", "2", "3"}), S({"1", "x"})}};
    for (size_t i = 0; i < cs.size(); ++i) {
        for (int strict = 0; strict < 2; ++strict) {
            Set s;
            s.strict = strict;
            s.text = std::string(cs[i].text) + (strict ? ", strict" : "") + "\n";
            for (auto& u : uses[i]) {
                bool open = (i == 2 && u.first == 2) || i == 3;
                s.uses.push_back(Use{u.second, u.first, open, false});
            }
            s.uses.push_back(Use{S({"-h"}), 97, false, false});
            const RichCase rc = cs[i];
            s.run = [rc, strict](const Strs& t) {
                Rich w;
                w.a.setHelpException();
                w.a.setVersionException();
                w.a.setStrict(strict);
                rc.define(w);
                std::string r = richParse(w, t, rc.names);
                return r.compare(0, 5, "error") == 0 ? firstLine(r) : r; // how far the parse came is no matter
            };
            decide(s, len);
            for (auto& l : lists_[i]) {
                Set o = s;
                o.uses.push_back(Use{l, -1, false, false});
                auto run = s.run;
                o.run = [run, l](const Strs& t) {
                    size_t found = 0;
                    for (size_t k = 0; k + l.size() <= t.size(); ++k) { found += std::equal(l.begin(), l.end(), t.begin() + k); }
                    return found > 1 ? std::string("left out\n") : run(t);
                };
                decide(o, len);
            }
        }
    }
}

void explore() {
    std::vector<Kind> os = optionKinds();
    const std::vector<std::vector<Kind> > words = {{}, {K_POS}, {K_POS, K_POS}};
    size_t len = thorough() ? 5 : 4;
    for (size_t x = 0; x < os.size(); ++x) {
        for (size_t y = 0; y < os.size(); ++y) {
            if (x == y) { continue; }
            for (int bits = 0; bits < 8; ++bits) {
                auto base = [&]() {
                    Cfg c;
                    c.args.push_back(kit(os[x], bits & 1));
                    c.args.push_back(kit(os[y], false));
                    if (!(bits & 1)) { c.args[1].defaults = someDefaults(c.args[1], 2); }
                    c.alternative = bits & 2;
                    c.strict = bits & 4;
                    return c;
                };
                if (x < y) {
                    for (auto& pl : words) {
                        Cfg c = base();
                        for (size_t i = 0; i < pl.size(); ++i) {
                            Spec p = kit(pl[i], i == 0 && (bits & 1));
                            if (i) { p.names = Strs(1, "SECOND"); }
                            c.args.push_back(p);
                        }
                        decide(kitSet(c, {S({"p1"}), S({"p2"})}), bits == (int)((x + y) % 8) ? len : 3);
                        longer(kitSet(c, {S({"p1"}), S({"p2"})}));
                    }
                }
                if ((int)((x + y) % 8) != bits && !thorough()) { continue; }
                const std::vector<std::pair<Kind, std::vector<Strs> > > ls = {
                    {K_POSNUM, {S({"p1", "p2"}), S({"p1", "p2", "p3"})}}, {K_POSINF, {S({"p1"}), S({"p1", "p2", "p3"})}}, {K_POSINFNUM, {S({"p1", "p2"}), S({"p1", "p2", "p3", "p4"})}}};
                for (auto& l : ls) {
                    Cfg c = base();
                    c.args.push_back(kit(l.first, bits & 1));
                    lists(c, l.second, 3);
                }
            }
        }
    }
    riches(len);
}
