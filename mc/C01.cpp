// C01: every token is accounted for exactly once.
// All pairs of option kinds x positional lists x strictness, all token
// sequences; all kinds together; long runs.
#include "grand.hpp"
using namespace mc;

static void pairs() {
    const std::vector<Kind>& ks = optionKinds();
    for (size_t a = 0; a < ks.size(); ++a) {
        for (size_t b = a + 1; b < ks.size(); ++b) {
            for (auto& pl : positionalLists()) {
                for (int strict = 0; strict < 2; ++strict) {
                    if (strict && pl.size() == 1 && pl[0] >= K_POSINF) {
                        continue; // nothing can be left over
                    }
                    Cfg c;
                    c.strict = strict;
                    Spec x = kit(ks[a]), y = kit(ks[b]);
                    c.args.push_back(x);
                    for (auto p : pl) {
                        c.args.push_back(kit(p));
                    }
                    c.args.push_back(y);
                    Strs alpha = S({"%", "--", "-u"});
                    alpha.push_back(shortOf(x));
                    alpha.push_back(shortOf(y));
                    alpha.push_back(longOf(x) + "=%");
                    alpha.push_back(longOf(y));
                    alpha.push_back(shortOf(x) + shortOf(y).substr(1) + "%");
                    Conformance run(c);
                    sequences(alpha, 0, thorough() ? 6 : 4, [&](const Strs& t) { run(t); });
                }
            }
        }
    }
}

// everything defined at once
static void all() {
    for (int alt = 0; alt < 2; ++alt) {
        for (auto& pl : positionalLists()) {
            Cfg c;
            c.alternative = alt;
            Strs alpha = S({"%", "", "-", "--", "-u", "--unknown", "-brs%", "-1", "--simple=a=b"});
            for (auto k : optionKinds()) {
                c.args.push_back(kit(k));
                alpha.push_back(alt ? longOf(c.args.back()).substr(1) : shortOf(c.args.back()));
            }
            for (auto p : pl) {
                c.args.push_back(kit(p));
            }
            Conformance run(c);
            sequences(alpha, 0, thorough() ? 5 : 3, [&](const Strs& t) { run(t); });
        }
    }
}

// triples with required positionals and defaults
static void triples() {
    for (auto k : optionKinds()) {
        for (auto p1 : posKinds()) {
            for (auto p2 : posKinds()) {
                for (int req = 0; req < 4; ++req) {
                    Cfg c;
                    Spec x = kit(k), y = kit(p1), z = kit(p2);
                    y.required = req & 1;
                    z.required = req & 2;
                    z.names = S({"LAST"});
                    z.n = z.n == 2 ? 3 : z.n;
                    x.defaults = someDefaults(x, 2);
                    y.defaults = someDefaults(y, 2);
                    z.defaults = someDefaults(z, 2);
                    c.args = {y, x, z};
                    Strs alpha = S({"%", "--"});
                    alpha.push_back(shortOf(x));
                    alpha.push_back(longOf(x) + "=%");
                    Conformance run(c);
                    sequences(alpha, 0, thorough() ? 7 : 5, [&](const Strs& t) { run(t); });
                }
            }
        }
    }
}

// long command lines: many values, many occurrences, wide arities, long texts
static void scale() {
    for (auto k : optionKinds()) {
        for (unsigned n = 1; n <= 12; ++n) {
            for (unsigned occ = 1; occ <= 4; ++occ) {
                for (unsigned vals = 0; vals <= (thorough() ? 60u : 26u); ++vals) {
                    for (int tail = 0; tail < 3; ++tail) {
                        if (!take()) {
                            continue;
                        }
                        Cfg c;
                        Spec x = kit(k), p = kit(K_POSINF);
                        if (k == K_NUMBER || grouped(k)) {
                            x.n = n + 1;
                        }
                        else if (n > 1) {
                            x.defaults = scalar(k) ? Strs(1, "D") : Strs(n, "D");
                        }
                        c.args = {x, p, kit(K_BOOL)};
                        if (k == K_BOOL) {
                            c.args.pop_back();
                        }
                        Strs t;
                        for (unsigned o = 0; o < occ; ++o) {
                            t.push_back(o % 2 ? longOf(x) : shortOf(x));
                            for (unsigned v = 0; v < vals; ++v) {
                                t.push_back("value-" + str(o) + "-" + str(v) + std::string(v * 3, 'z'));
                            }
                        }
                        if (tail == 1) {
                            t.push_back("-b");
                            t.push_back("rest");
                        }
                        if (tail == 2) {
                            t.push_back("--");
                            t.push_back("-b");
                        }
                        conform(c, t);
                    }
                }
            }
        }
    }
}

void explore() {
    scale();
    all();
    triples();
    pairs();
    grand(grandLevel(), grandCheck);
}
