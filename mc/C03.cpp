// C03: "--" ends option interpretation for everything that follows.
// Every prefix without "--", then "--", then every suffix (further "--",
// tokens spelled like options, plain values), for all kinds of options before
// it and all lists of positionals behind it.
#include "grand.hpp"
using namespace mc;

static void split(Conformance& run, const Strs& pre, size_t maxPre, const Strs& suf, size_t maxSuf) {
    uint64_t block = 0, x = 1;
    for (size_t i = 0; i <= maxSuf; ++i, x *= suf.size()) {
        block += x;
    }
    for (size_t len = 0; len <= maxPre; ++len) {
        uint64_t total = 1;
        for (size_t i = 0; i < len; ++i) {
            total *= pre.size();
        }
        for (uint64_t x = 0; x < total; ++x) {
            if (skipBlock(block)) {
                continue;
            }
            Strs head(len);
            uint64_t y = x;
            for (size_t i = len; i-- > 0; y /= pre.size()) {
                head[i] = instantiate(pre[y % pre.size()], i + 1);
            }
            head.push_back("--");
            sequences(suf, 0, maxSuf, [&](const Strs& tail) {
                Strs t = head;
                for (size_t i = 0; i < tail.size(); ++i) {
                    // plain values behind the separator get their own names
                    t.push_back(tail[i] == "v" + str(i + 1) ? "w" + str(i + 1) : tail[i]);
                }
                run(t);
            });
        }
    }
}

static Cfg cfg(Kind k, const std::vector<Kind>& pl, bool strict, bool alt) {
    Cfg c;
    c.strict = strict;
    c.alternative = alt;
    c.args.push_back(kit(k));
    for (auto p : pl) {
        c.args.push_back(kit(p));
    }
    if (k != K_BOOL) {
        c.args.push_back(kit(K_BOOL));
    }
    return c;
}

// many tokens on both sides
static void scale() {
    for (auto k : optionKinds()) {
        for (auto p : posKinds()) {
            for (unsigned n = 2; n <= 6; ++n) {
                for (unsigned before = 0; before <= (thorough() ? 20u : 9u); ++before) {
                    for (unsigned after = 0; after <= (thorough() ? 24u : 13u); ++after) {
                        for (int form = 0; form < 4; ++form) {
                            if (!take()) {
                                continue;
                            }
                            Cfg c = cfg(k, {p}, false, form == 3);
                            if (grouped(k) || k == K_NUMBER) {
                                c.args[0].n = n;
                            }
                            if (grouped(p) || p == K_POSNUM) {
                                c.args[1].n = n;
                            }
                            c.args[1].required = n % 2;
                            Strs t;
                            if (form != 1) {
                                t.push_back(form == 0 ? shortOf(c.args[0]) : form == 2 ? longOf(c.args[0]) : longOf(c.args[0]).substr(1));
                            }
                            for (unsigned i = 0; i < before; ++i) {
                                t.push_back("a" + str(i));
                            }
                            t.push_back("--");
                            for (unsigned i = 0; i < after; ++i) {
                                t.push_back(i % 3 == 2 ? "-b" : i % 5 == 4 ? "--" : "z" + str(i));
                            }
                            conform(c, t);
                        }
                    }
                }
            }
        }
    }
}

// Positionals of every arity behind the separator, with up to two tokens that
// look like something at every pair of places.
static void behind() {
    const Strs odd = S({"--", "-b", "", "--bool=1", "-"});
    for (unsigned n = 2; n <= (thorough() ? 12u : 8u); ++n) {
        for (unsigned more = 0; more <= (thorough() ? 6u : 3u); ++more) {
            unsigned len = n - 1 + more;
            for (unsigned i = 0; i < len; ++i) {
                for (unsigned j = i; j < len; ++j) {
                    for (size_t x = 0; x < odd.size() * odd.size(); ++x) {
                        if (i == j && x >= odd.size()) { break; }
                        for (auto p : {K_POSNUM, K_POSINFNUM, K_POSINF}) {
                            if (!take()) { continue; }
                            Cfg c = cfg(K_SIMPLE, {p}, false, false);
                            c.args.push_back(named(K_POS, S({"LAST"})));
                            if (p == K_POSNUM || p == K_POSINFNUM) { c.args[1].n = n; }
                            for (int front = 0; front < 2; ++front) {
                                Strs t;
                                if (front) { t.push_back("f"); }
                                t.push_back("--");
                                for (unsigned k = 0; k < len; ++k) { t.push_back(k == i ? odd[x % odd.size()] : k == j ? odd[x / odd.size()] : "z" + str(k)); }
                                conform(c, t);
                            }
                        }
                    }
                }
            }
        }
    }
}

void explore() {
    scale();
    behind();
    for (auto k : optionKinds()) {
        for (auto& pl : positionalLists()) {
            for (int strict = 0; strict < 2; ++strict) {
                Conformance run(cfg(k, pl, strict, strict && pl.empty()));
                const Spec& x = run.c.args[0];
                Strs pre = S({"%", "-u"});
                pre.push_back(shortOf(x));
                pre.push_back(longOf(x) + "=--");
                pre.push_back(shortOf(x) + "--");
                pre.push_back(k == K_BOOL ? "-" : "-b" + shortOf(x).substr(1));
                Strs suf = S({"%", "--", "-u", "--unknown=1", "", "-"});
                suf.push_back(shortOf(x));
                suf.push_back(longOf(x));
                split(run, pre, thorough() ? 4 : 3, suf, thorough() ? 3 : 2);
            }
        }
    }
    grand(grandLevel(), grandCheck);
}
