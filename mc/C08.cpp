// C08: a missing required argument is always reported, a present one never.
#include "grand.hpp"
using namespace mc;

struct Run {
    Cfg c;
    Machine m;
    explicit Run(const Cfg& c_) : c(c_), m(c) {}
    Run(const Run&) = delete;
    void operator()(const Strs& t) {
        C().describe = [this, &t]() { return cppCfg(c) + cppParse(t); };
        Outcome want = m.run(t), got = observe(c, t);
        ++C().comparisons;
        std::string d = diff(got, want, c, M_STATUS | M_NAME | M_EXIST);
        if (!d.empty()) { fail(d); }
        if (want.status == MISSING) {
            bool p = false;
            for (auto& s : c.args) {
                if (frontName(s) == want.name) { p = isPos(s.kind); }
            }
            eqs(got.what, std::string(p ? "argument is required" : "option is required"), "message");
        }
        steps(t.size());
        validated();
        state(canon(want));
        sample();
        C().describe = nullptr;
    }
};

// phrases that use an argument
static std::vector<Strs> phrases(const Spec& s, bool all) {
    std::vector<Strs> r;
    if (isPos(s.kind)) {
        r.push_back(Strs(s.kind == K_POSNUM || s.kind == K_POSINFNUM ? s.n : 1, "%"));
        return r;
    }
    for (auto& f : s.names) {
        Strs t(1, f);
        if (s.kind == K_NUMBER || grouped(s.kind)) { t.insert(t.end(), s.n, "%"); }
        else if (!valueless(s.kind)) {
            if (shortFlag(f)) { t[0] += "%"; }
            else { t[0] += "=%"; }
        }
        r.push_back(t);
        if (!all) { break; }
    }
    return r;
}

static void runPhrases(Run& run, const std::vector<Strs>& ph, size_t depth) {
    Strs idx;
    for (size_t i = 0; i < ph.size(); ++i) { idx.push_back(std::string(1, (char)('A' + i))); }
    sequences(idx, 0, depth, [&](const Strs& seq) {
        Strs t;
        for (auto& s : seq) {
            for (auto& w : ph[s[0] - 'A']) { t.push_back(instantiate(w, t.size() + 1)); }
        }
        run(t);
    });
}

static void triples() {
    std::vector<Spec> second = {Spec(S({"--alpha"}), K_SIMPLE), Spec(S({"-z"}), K_BOOL), Spec(S({"--zeta", "-Z"}), K_MULTI)};
    for (auto k : optionKinds()) {
        for (auto& sec : second) {
            for (auto p : posKinds()) {
                for (int req = 0; req < 8; ++req) {
                    for (int def = 0; def < 2; ++def) {
                        Cfg c;
                        Spec x = kit(k, req & 1), y = sec, z = kit(p, req & 4);
                        y.required = req & 2;
                        if (def) {
                            x.defaults = someDefaults(x, 2);
                            y.defaults = someDefaults(y, 2);
                            z.defaults = someDefaults(z, 2);
                        }
                        if (k == K_VERSION && (req & 1)) {
                            x.required = true;
                        }
                        c.args = {z, y, x};
                        Run run(c);
                        std::vector<Strs> ph = phrases(x, true);
                        for (auto& l : phrases(y, false)) { ph.push_back(l); }
                        for (auto& l : phrases(z, false)) { ph.push_back(l); }
                        ph.push_back({"-h"});
                        ph.push_back({"--"});
                        if (valueless(k) && k != K_VERSION && sec.kind == K_BOOL) { ph.push_back({"-z" + shortOf(x).substr(1)}); }
                        if (def == 0) { ph.push_back({"-u"}); }
                        runPhrases(run, ph, thorough() ? 5 : 3);
                    }
                }
            }
        }
    }
}

// all kinds together: every pair of required arguments, every subset of three present
static void all() {
    std::vector<Spec> specs;
    for (auto k : optionKinds()) {
        if (k != K_VERSION) { specs.push_back(kit(k)); }
    }
    specs.push_back(Spec(S({"--long-only"}), K_SIMPLE));
    specs.push_back(Spec(S({"-q"}), K_BOOL));
    size_t no = specs.size();
    specs.push_back(kit(K_POS));
    specs.push_back(kit(K_POSNUM));
    Spec last(S({"END"}), K_POS);
    specs.push_back(last);
    size_t n = specs.size();
    for (int alt = 0; alt < 2; ++alt) {
        for (size_t a = 0; a < n; ++a) {
            for (size_t b = a; b < n; ++b) {
                Cfg c;
                c.alternative = alt;
                c.args = specs;
                c.args[a].required = c.args[b].required = true;
                for (auto& s : c.args) { s.defaults = someDefaults(s, 1); }
                Run run(c);
                for (size_t x = 0; x <= no; ++x) {
                    for (size_t y = x; y <= no; ++y) {
                        for (size_t pos = 0; pos <= 4; ++pos) {
                            for (int form = 0; form < (thorough() ? 3 : 2); ++form) {
                                if (!take()) { continue; }
                                Strs t;
                                for (size_t i = 0; i < pos; ++i) { t.push_back("p" + str(i)); }
                                for (size_t w : {x, y}) {
                                    if (w == no) { continue; }
                                    std::vector<Strs> ph = phrases(specs[w], true);
                                    Strs u = ph[form % ph.size()];
                                    if (alt && form == 1 && u[0].substr(0, 2) == "--") { u[0] = u[0].substr(1); }
                                    t.insert(t.begin(), u.begin(), u.end());
                                    if (x == y) { break; }
                                }
                                run(t);
                            }
                        }
                    }
                }
            }
        }
    }
}

// which one is named: all sets of required options with every flag shape
static void order() {
    std::vector<Strs> names = {S({"-b"}), S({"-a", "--zz"}), S({"--aa"}), S({"--mm", "-Z"}), S({"--bb", "--ab"}), S({"P1"}), S({"P2"}), S({"-0"})};
    size_t n = names.size();
    for (unsigned req = 0; req < (1u << n); ++req) {
        for (unsigned have = 0; have < (1u << n); ++have) {
            if (!thorough() && have & ~req & 0x1f) { continue; }
            if (!take()) { continue; }
            Cfg c;
            for (size_t i = 0; i < n; ++i) {
                Spec s(names[i], isalpha(names[i][0][0]) ? K_POS : i % 2 ? K_BOOL : K_SIMPLE);
                s.required = req >> i & 1;
                c.args.push_back(s);
            }
            Strs t;
            for (size_t i = 0; i < n; ++i) {
                if (have >> i & 1) {
                    if (c.args[i].kind == K_POS) { t.push_back("p"); continue; }
                    t.push_back(names[i].back());
                    if (c.args[i].kind == K_SIMPLE) { t.push_back("v"); }
                }
            }
            Run run(c);
            run(t);
        }
    }
}

// which options exist: every kind with one to five flags beside help and
// version options in their various spellings, left out or used by any flag
static void company() {
    std::vector<std::vector<Spec> > others;
    for (int h = 0; h < 4; ++h) {
        for (int v = 0; v < 4; ++v) {
            std::vector<Spec> o;
            if (h) { o.push_back(Spec(h == 1 ? S({"-h", "--help"}) : h == 2 ? S({"-?"}) : S({"--usage", "-H", "--hh"}), K_HELP, 0)); }
            if (v) { o.push_back(Spec(v == 1 ? S({"-v", "--version"}) : v == 2 ? S({"-V"}) : S({"--ver", "-w", "--vv"}), K_VERSION, 0)); }
            others.push_back(o);
        }
    }
    for (auto k : optionKinds()) {
        for (size_t flags = 1; flags <= 5; ++flags) {
            for (auto& o : others) {
                for (int alt = 0; alt < 2; ++alt) {
                    for (int where = 0; where < 2; ++where) {
                        Cfg c;
                        c.alternative = alt;
                        c.args = o;
                        Spec x = kit(k, true);
                        x.required = true;
                        Strs all = S({"--req", "-r", "--required", "-R", "--rr"});
                        x.names.assign(all.begin(), all.begin() + flags);
                        if (k == K_VERSION) {
                            bool twice = false;
                            for (auto& s : o) { twice = twice || s.kind == K_VERSION; }
                            if (twice) { continue; }
                        }
                        c.args.insert(where ? c.args.begin() : c.args.end(), x);
                        Run run(c);
                        std::vector<Strs> ph = phrases(x, true);
                        ph.push_back(Strs());
                        for (auto& p : ph) {
                            for (size_t y = 0; y <= o.size(); ++y) {
                                if (!take()) { continue; }
                                Strs t;
                                if (y < o.size()) { t.push_back(o[y].names[0]); }
                                for (auto& w : p) { t.push_back(instantiate(w, t.size() + 1)); }
                                run(t);
                            }
                        }
                    }
                }
            }
        }
    }
}

void explore() {
    company();
    order();
    all();
    triples();
    grand(grandLevel(), grandCheck);
}
