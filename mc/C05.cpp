// C05: positionals fill in order, required ones first; surplus kept or refused.
#include "grand.hpp"
using namespace mc;

static Spec pos(Kind k, size_t i, bool req) {
    Spec s = kit(k, req);
    s.names = S({});
    s.names.push_back("P" + str(i));
    if (k == K_POSNUM || k == K_POSINFNUM) {
        s.n = 2 + i % 2;
    }
    return s;
}

static void lists() {
    const std::vector<Kind>& pk = posKinds();
    for (size_t len = 0; len <= 3; ++len) {
        size_t total = 1;
        for (size_t i = 0; i < len; ++i) {
            total *= pk.size();
        }
        for (size_t x = 0; x < total; ++x) {
            for (unsigned req = 0; req < (1u << len); ++req) {
                for (int strict = 0; strict < 2; ++strict) {
                    Cfg c;
                    c.strict = strict;
                    size_t y = x;
                    for (size_t i = 0; i < len; ++i, y /= pk.size()) {
                        c.args.push_back(pos(pk[y % pk.size()], i, req >> i & 1));
                        if (i == 0) {
                            c.args.push_back(kit(K_BOOL)); // definitions of options in between
                        }
                    }
                    if (len == 0) {
                        c.args.push_back(kit(K_BOOL));
                    }
                    c.args.push_back(kit(K_SIMPLE));
                    Conformance run(c);
                    sequences(S({"%", "-b", "-s", "--"}), 0, thorough() ? 7 : len == 3 ? 5 : 6, [&](const Strs& t) { run(t); });
                }
            }
        }
    }
}

// required() called after the definitions, in any order, also switched off
// again, and arguments removed and added again
static void later() {
    const std::vector<Kind>& pk = posKinds();
    for (size_t x = 0; x < 64; ++x) {
        for (int a = 0; a < 7; ++a) {
            for (int b = 0; b < 7; ++b) {
                for (int d = 0; d < 7; ++d) {
                    for (unsigned vals = 0; vals <= 8; ++vals) {
                        if (!take()) {
                            continue;
                        }
                        Cfg c;
                        size_t y = x;
                        for (size_t i = 0; i < 3; ++i, y /= 4) {
                            c.args.push_back(pos(pk[y % 4], i, false));
                        }
                        int ops[3] = {a, b, d};
                        std::string text;
                        blet::Args args;
                        build(args, c);
                        for (int o : ops) { // 0..2 required, 3..5 not required, 6 remove the first and add it again
                            if (o < 6) {
                                c.args[o % 3].required = o < 3;
                            }
                        }
                        C().describe = [&]() {
                            std::string r = cppCfg(c);
                            return "// required() set later: ops " + str(a) + "," + str(b) + "," + str(d) +
                                   " (0..2 on for P0..P2, 3..5 off, 6 remove P0 and define it again)\n" + r;
                        };
                        Cfg now = c;
                        for (auto& s : now.args) {
                            s.required = false;
                        }
                        for (int o : ops) {
                            if (o < 6) {
                                std::string nm = "P" + str(o % 3);
                                args.updateArgument(nm).required(o < 3);
                                for (auto& s : now.args) {
                                    if (s.names[0] == nm) {
                                        s.required = o < 3;
                                    }
                                }
                            }
                            else {
                                args.removeArguments("P0");
                                for (size_t i = 0; i < now.args.size(); ++i) {
                                    if (now.args[i].names[0] == "P0") {
                                        Spec s = now.args[i];
                                        s.required = false;
                                        now.args.erase(now.args.begin() + i);
                                        now.args.push_back(s);
                                        define(args, s);
                                        break;
                                    }
                                }
                            }
                        }
                        Strs t;
                        for (unsigned i = 0; i < vals; ++i) {
                            t.push_back("v" + str(i));
                        }
                        Outcome want = Machine(now).run(t);
                        Outcome got = parseOnly(args, t);
                        if (got.status == OK) {
                            readAll(args, now, got);
                        }
                        ++C().comparisons;
                        steps(vals + 3);
                        validated();
                        state(canon(want));
                        std::string df = diff(got, want, now, M_ALL);
                        if (!df.empty()) {
                            fail(cppParse(t) + "\n" + df);
                        }
                        sample();
                        C().describe = nullptr;
                    }
                }
            }
        }
    }
}

// many positionals, many tokens
static void scale() {
    for (unsigned np = 1; np <= (thorough() ? 20u : 12u); ++np) {
        for (int mix = 0; mix < 6; ++mix) {
            for (unsigned nt = 0; nt <= (thorough() ? 60u : 30u); ++nt) {
                for (int strict = 0; strict < 2; ++strict) {
                    for (int opt = 0; opt < 3; ++opt) {
                        if (!take()) {
                            continue;
                        }
                        Cfg c;
                        c.strict = strict;
                        for (unsigned i = 0; i < np; ++i) {
                            Kind k = mix == 0 ? K_POS : mix == 1 ? K_POSNUM : i % 2 ? K_POS : K_POSNUM;
                            c.args.push_back(pos(k, i, mix == 3 ? i % 3 == 0 : mix == 4 ? i % 2 : mix == 5));
                        }
                        c.args.push_back(kit(K_BOOL));
                        Strs t;
                        for (unsigned i = 0; i < nt; ++i) {
                            t.push_back("token" + str(i));
                            if (opt == 1 && i % 6 == 5) {
                                t.push_back("-b");
                            }
                        }
                        if (opt == 2) {
                            t.insert(t.begin() + nt / 2, "--");
                        }
                        conform(c, t);
                    }
                }
            }
        }
    }
}

void explore() {
    scale();
    later();
    lists();
    grand(grandLevel(), grandCheck);
}
