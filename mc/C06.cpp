// C06: repeated occurrences, counts, existence and flag values.
#include "grand.hpp"
using namespace mc;

// Conformance plus what the flags read as.
class Run {
  public:
    Cfg c;
    Machine m;
    explicit Run(const Cfg& c_) : c(c_), m(c) {}
    Run(const Run&) = delete;
    void operator()(const Strs& t) {
        C().describe = [this, &t]() { return cppCfg(c) + cppParse(t); };
        Outcome want = m.run(t);
        blet::Args a;
        build(a, c);
        Outcome got = parseOnly(a, t);
        if (got.status == OK) {
            readAll(a, c, got);
        }
        ++C().comparisons;
        std::string d = diff(got, want, c, M_ALL);
        if (!d.empty()) {
            fail(d);
        }
        if (want.status == OK) {
            for (size_t i = 0; i < c.args.size(); ++i) {
                const blet::args::Argument& g = a[c.args[i].names.back()];
                bool seen = want.args[i].exist, want01 = c.args[i].kind == K_RBOOL ? !seen : seen;
                eq((bool)g, want01, "boolean value of the argument");
                check(g.count() > 0 == g.isExists(), "exists although count is 0 (or the other way round)");
                if (c.args[i].kind == K_BOOL || c.args[i].kind == K_RBOOL) {
                    eqs(g.getString(), std::string(want01 ? "true" : "false"), "text of the flag");
                }
            }
        }
        steps(t.size());
        validated();
        state(canon(want));
        sample();
        C().describe = nullptr;
    }
};

// spellings of one occurrence, as groups of tokens
static std::vector<Strs> forms(const Spec& s, bool alt) {
    std::vector<Strs> r;
    std::string sh = shortOf(s), lg = longOf(s);
    if (valueless(s.kind)) {
        r = {{sh}, {lg}, {sh + sh.substr(1)}};
        if (alt) { r.push_back({lg.substr(1)}); }
        return r;
    }
    if (s.kind == K_NUMBER || s.kind == K_MULTINUM) {
        r = {{sh, "%", "%"}, {lg, "%", "%"}};
    }
    else if (s.kind == K_EXTNUM) {
        r = {{sh, "%", "%"}, {lg, "%", "%", "%", "%"}, {sh}};
    }
    else if (s.kind == K_INF || s.kind == K_EXT) {
        r = {{sh, "%"}, {lg + "=%"}, {sh + "%"}, {sh}, {lg, "%", "%"}};
    }
    else {
        r = {{sh, "%"}, {lg + "=%"}, {sh + "%"}, {lg, "%"}};
    }
    if (alt) { r.push_back({lg.substr(1) + (s.kind == K_SIMPLE ? "=%" : ""), "%", "%"}); }
    if (alt && s.kind == K_SIMPLE) { r.back() = {lg.substr(1) + "=%"}; }
    if (alt && s.kind == K_MULTI) { r.back() = {lg.substr(1) + "=%"}; }
    return r;
}

// sequences of occurrences of one option with other options between them
static void occurrences() {
    for (int alt = 0; alt < 2; ++alt) {
        for (auto k : optionKinds()) {
            for (int def = 0; def < 2; ++def) {
                if (def && valueless(k)) {
                    continue;
                }
                Cfg c;
                c.alternative = alt;
                Spec x = kit(k);
                if (def) {
                    x.defaults = someDefaults(x, 3);
                }
                c.args = {x, kit(k == K_BOOL ? K_RBOOL : K_BOOL), kit(k == K_SIMPLE ? K_MULTI : K_SIMPLE), kit(K_POS)};
                Run run(c);
                std::vector<Strs> f = forms(x, alt);
                f.push_back({shortOf(c.args[1])});
                f.push_back({longOf(c.args[2]) + "=%"});
                if (!valueless(k)) {
                    f.push_back({shortOf(c.args[1]) + shortOf(x).substr(1) + (k == K_NUMBER || grouped(k) ? "" : "%"), "%"});
                    if (k != K_NUMBER && !grouped(k)) { f.back().pop_back(); }
                    else { f.back().push_back("%"); }
                }
                else {
                    f.push_back({shortOf(c.args[1]) + shortOf(x).substr(1) + shortOf(c.args[1]).substr(1) + shortOf(x).substr(1)});
                }
                Strs idx;
                for (size_t i = 0; i < f.size(); ++i) {
                    idx.push_back(std::string(1, (char)('A' + i)));
                }
                sequences(idx, 0, thorough() ? 6 : (alt ? 3 : 5), [&](const Strs& seq) {
                    Strs t;
                    for (auto& s : seq) {
                        for (auto& w : f[s[0] - 'A']) {
                            t.push_back(instantiate(w, t.size()));
                        }
                    }
                    run(t);
                });
            }
        }
    }
}

// every cluster over value-less options and one that takes a value
static void clusters() {
    Cfg c;
    c.args = {kit(K_BOOL), kit(K_RBOOL), kit(K_MULTI), Spec(S({"-a"}), K_BOOL), kit(K_VERSION)};
    Run run(c);
    sequences(S({"b", "r", "a", "m", "-", "v"}), 1, thorough() ? 7 : 6, [&](const Strs& seq) {
        Strs t;
        std::string cur;
        for (auto& s : seq) { // "-" starts a new token
            if (s == "-") {
                if (!cur.empty()) { t.push_back("-" + cur); }
                cur.clear();
            }
            else {
                cur += s;
            }
        }
        if (!cur.empty()) {
            t.push_back("-" + cur);
        }
        run(t);
    });
}

// large counts
static void scale() {
    for (auto k : optionKinds()) {
        for (unsigned n = 1; n <= (thorough() ? 300u : 70u); ++n) {
            for (int form = 0; form < 4; ++form) {
                for (int def = 0; def < 2; ++def) {
                    if (!take()) {
                        continue;
                    }
                    Cfg c;
                    Spec x = kit(k);
                    if (def) {
                        x.defaults = someDefaults(x, 2);
                    }
                    c.args = {x, kit(k == K_BOOL ? K_RBOOL : K_BOOL)};
                    Strs t;
                    bool many = k == K_NUMBER || grouped(k);
                    std::string glued = "-";
                    for (unsigned i = 0; i < n; ++i) {
                        std::string v = "val" + str(i);
                        if (valueless(k)) {
                            glued += shortOf(x).substr(1);
                            if (form != 3) { t.push_back(form == 0 ? shortOf(x) : form == 1 ? longOf(x) : (i % 2 ? shortOf(x) : longOf(x))); }
                        }
                        else if (many) {
                            t.push_back(form % 2 ? longOf(x) : shortOf(x));
                            t.push_back(v);
                            t.push_back(v + "'");
                        }
                        else if (form == 0) { t.push_back(shortOf(x)); t.push_back(v); }
                        else if (form == 1) { t.push_back(longOf(x) + "=" + v); }
                        else if (form == 2) { t.push_back(shortOf(x) + v); }
                        else { t.push_back(shortOf(x) + "=" + v); if (i % 3 == 0) { t.push_back(shortOf(c.args[1])); } }
                    }
                    if (valueless(k) && form == 3) {
                        t.push_back(glued);
                    }
                    Run run(c);
                    run(t);
                }
            }
        }
    }
}

void explore() {
    scale();
    clusters();
    occurrences();
    grand(grandLevel(), grandCheck);
}
