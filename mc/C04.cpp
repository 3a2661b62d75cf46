// C04: exact arities; unbounded lists end at the next registered option.
#include "grand.hpp"
using namespace mc;

static const std::vector<Kind>& takers() {
    static const std::vector<Kind> v = {K_BOOL, K_RBOOL, K_VERSION, K_SIMPLE, K_NUMBER, K_INF, K_MULTI, K_MULTINUM,
                                        K_EXT, K_EXTNUM, K_POS, K_POSNUM, K_POSINF, K_POSINFNUM};
    return v;
}
static bool sized(Kind k) {
    return k == K_NUMBER || k == K_POSNUM || grouped(k);
}
// everything registered, with the kind under test first
static Cfg cfg(Kind k, unsigned n, bool alt) {
    Cfg c;
    c.alternative = alt;
    c.args.push_back(kit(k));
    if (sized(k)) {
        c.args[0].n = n;
    }
    for (auto o : optionKinds()) {
        if (o != k) {
            c.args.push_back(kit(o));
        }
    }
    c.args.push_back(Spec(S({"-h"}), K_HELP));
    c.args.push_back(Spec(S({"--only-long"}), K_BOOL));
    return c;
}
static Strs starts(const Spec& s, bool alt) {
    Strs r;
    if (isPos(s.kind)) {
        r.push_back("first");
        return r;
    }
    std::string sh = shortOf(s), lg = longOf(s);
    r = S({});
    r.push_back(sh);
    r.push_back(lg);
    if (alt) {
        r.push_back(lg.substr(1));
        r.push_back(lg.substr(1) + "=v");
    }
    r.push_back(sh + "=v");
    r.push_back(lg + "=v");
    r.push_back(lg + "=");
    r.push_back(sh + "v");
    if (s.kind != K_BOOL) {
        r.push_back("-b" + sh.substr(1));
    }
    return r;
}

// option, j values, then every short tail over all the ways a token can start
static void tails() {
    for (int alt = 0; alt < 2; ++alt) {
        for (auto k : takers()) {
            for (unsigned n = 1; n <= 4; ++n) {
                if (n == 1 ? sized(k) : (n > 2 && !sized(k))) {
                    continue;
                }
                if (!sized(k) && n == 2) {
                    continue;
                }
                Conformance run(cfg(k, n, alt));
                Strs alpha = S({"%", "-u", "--unk", "--unk=1", "-", "", "--", "-5", "-b%", "-ub", "-b=", "-n=1", "-n1", "-sX=Y", "=", "-s-"});
                for (auto& s : run.c.args) {
                    for (auto& f : s.names) {
                        alpha.push_back(f);
                    }
                    alpha.push_back(longOf(s).empty() ? "-hb" : longOf(s) + "=1");
                }
                if (alt) {
                    alpha.push_back("-multi");
                    alpha.push_back("-simple=1");
                    alpha.push_back("-only-long");
                }
                unsigned top = sized(k) ? n + 1 : 2;
                for (auto& st : starts(run.c.args[0], alt)) {
                    bool plain = st.find('=') == std::string::npos;
                    for (unsigned j = 0; j <= (plain ? top : 0); ++j) {
                        Strs head(1, st);
                        for (unsigned i = 0; i < j; ++i) {
                            head.push_back("h" + str(i));
                        }
                        bool deep = thorough() || st == shortOf(run.c.args[0]) || isPos(k);
                        sequences(alpha, 0, deep ? 2 : 1, [&](const Strs& t) {
                            Strs all = head;
                            all.insert(all.end(), t.begin(), t.end());
                            run(all);
                        });
                    }
                }
            }
        }
    }
}

// what stands in the slots of a bounded list is taken verbatim
static void verbatim() {
    for (auto k : takers()) {
        if (valueless(k)) {
            continue;
        }
        for (unsigned n = sized(k) ? 2 : 1; n <= (sized(k) ? (thorough() ? 5u : 4u) : 1u); ++n) {
            Conformance run(cfg(k, n, false));
            Strs head(1, isPos(k) ? "first" : shortOf(run.c.args[0]));
            sequences(S({"%", "-b", "--simple", "-u", "--"}), 0, n + 2 > 5 && !thorough() ? 5 : n + 2, [&](const Strs& t) {
                Strs all = head;
                all.insert(all.end(), t.begin(), t.end());
                run(all);
            });
        }
    }
}

// wide arities: exactly n-1, n, n+1 ... values left
static void wide() {
    for (auto k : takers()) {
        if (!sized(k)) {
            continue;
        }
        for (unsigned n = 2; n <= (thorough() ? 130u : 66u); ++n) {
            if (n == '+') {
                continue; // nargs('+') means unbounded
            }
            std::set<unsigned> counts = {0, 1, n - 1, n, n + 1, 2 * n - 1, 2 * n, 2 * n + 1};
            for (auto cnt : counts) {
                for (int tail = 0; tail < 4; ++tail) {
                    if (!take()) {
                        continue;
                    }
                    Cfg c = cfg(k, n, false);
                    Strs t;
                    if (!isPos(k)) {
                        t.push_back(longOf(c.args[0]));
                    }
                    for (unsigned i = 0; i < cnt; ++i) {
                        t.push_back("x" + str(i));
                    }
                    if (tail == 1) {
                        t.push_back("-b");
                    }
                    if (tail == 2) {
                        t.push_back("--");
                        t.push_back("y");
                    }
                    if (tail == 3) {
                        t.push_back("--bool");
                        t.push_back("y");
                    }
                    conform(c, t);
                }
            }
        }
    }
}

void explore() {
    wide();
    verbatim();
    tails();
    hugeArities();
    grand(grandLevel(), grandCheck);
}
