// C23: alternative mode only adds '-name' for '--name'.
#include "observe.hpp"
#include "grand.hpp"
using namespace mc;

// is "-name[=...]" a spelling of a registered long option?
static bool alternativeUse(const Machine& m, const std::string& t) {
    return t.size() >= 2 && t[0] == '-' && t[1] != '-' && m.find("-" + Machine::head(t)) >= 0;
}

struct Pair {
    Cfg on, off;
    Machine mOn, mOff;
    bool meet; // a token may be both a cluster and a long name
    explicit Pair(const Cfg& c) : on(alt(c, true)), off(alt(c, false)), mOn(on), mOff(off), meet(false) {}
    static Cfg alt(Cfg c, bool a) {
        c.alternative = a;
        return c;
    }
    Outcome run(Machine& m, const Cfg& c, const Strs& t, const char* mode) {
        Outcome w = m.run(t), g = observe(c, t);
        ++C().comparisons;
        std::string d = diff(g, w, c, M_ALL);
        if (!d.empty()) { fail(std::string("alternative mode ") + mode + ": " + d); }
        return g;
    }
    void operator()(const Strs& t) {
        C().describe = [&]() { return cppCfg(on) + cppParse(t); };
        Outcome a = run(mOn, on, t, "on"), b = run(mOff, off, t, "off");
        bool none = true;
        for (auto& x : t) { none = none && !alternativeUse(mOn, x); }
        if (none) { // then both executions agree
            eqs(canon(a), canon(b), "a command line without '-name' differs with the mode on (first) and off (second)");
            eqs(a.what, b.what, "error message or usage");
        }
        else { // '--name' instead of '-name', where the token is not a value, gives the same with the mode on
            bump("command lines with a '-name' token");
        }
        steps(2 * (t.size() + 1));
        validated(2);
        state(canon(a) + canon(b));
        sample();
        C().describe = nullptr;
    }
};

// '-name' equals '--name' at the place of an option use
static void asLong(const Cfg& c0, const Strs& head, const std::string& name, const Strs& atts, const Strs& tailAlphabet, size_t depth) {
    Cfg c = Pair::alt(c0, true);
    for (auto& att : atts) {
        sequences(tailAlphabet, 0, depth, [&](const Strs& tail) {
            Strs x = head, y = head;
            x.push_back("-" + name + att);
            y.push_back("--" + name + att);
            x.insert(x.end(), tail.begin(), tail.end());
            y.insert(y.end(), tail.begin(), tail.end());
            C().describe = [&]() { return cppCfg(c) + cppParse(x) + "\n" + cppParse(y); };
            Outcome a = observe(c, x), b = observe(c, y);
            eqs(canon(a), canon(b), "'-name' (first) and '--name' (second) differ");
            eqs(a.what, b.what, "error message or usage");
            steps(2 * (x.size() + 1));
            validated(2);
            state(canon(a));
            sample();
            C().describe = nullptr;
        });
    }
}

static void bothModes(const Case& k) {
    static const Cfg* last = 0;
    static Pair* p = 0;
    static Cfg copy;
    if (last != &k.c || !p || copy.args.size() != k.c.args.size() || cppCfg(copy) != cppCfg(k.c)) {
        delete p;
        copy = k.c;
        p = new Pair(copy);
        last = &k.c;
    }
    (*p)(k.line);
}

void explore() {
    std::vector<Kind> kinds = optionKinds();
    // a long option spelled like clusters of short ones, for every kind of it
    for (Kind k : kinds) {
        unsigned n = k == K_NUMBER || grouped(k) ? 2 : 1;
        for (Kind before : {K_BOOL, K_SIMPLE, K_INF, K_EXTNUM, K_POSINF}) {
            Cfg c;
            c.args.push_back(Spec(S({"--ab"}), k, valueless(k) ? 0 : n));
            c.args.push_back(Spec(S({"-a"}), K_BOOL, 0));
            c.args.push_back(Spec(S({"-b", "--a"}), K_RBOOL, 0));
            c.args.push_back(before == K_POSINF ? Spec(S({"PINF"}), K_POSINF) : Spec(S({"-c", "--ca"}), before, before == K_BOOL ? 0 : before == K_EXTNUM ? 2 : 1));
            Pair p(c);
            sequences(S({"-ab", "--ab", "-a", "-ca", "-c", "-ab=%", "%", "-ba", "-abc", "--"}), 0, thorough() ? 5 : 4, [&](const Strs& t) { p(t); });
        }
    }
    // clash of one-letter long names with short flags, names that start alike, '=' in values
    {
        Cfg c;
        c.args.push_back(Spec(S({"--b"}), K_SIMPLE));
        c.args.push_back(Spec(S({"-b"}), K_BOOL, 0));
        c.args.push_back(Spec(S({"-s", "--ss"}), K_MULTI));
        c.args.push_back(Spec(S({"--s"}), K_EXT));
        c.args.push_back(Spec(S({"--long-name"}), K_RBOOL, 0));
        c.args.push_back(Spec(S({"--long"}), K_NUMBER, 2));
        c.args.push_back(Spec(S({"-l"}), K_BOOL, 0));
        c.args.push_back(Spec(S({"PGRP"}), K_POSINFNUM, 2));
        Pair p(c);
        sequences(S({"-b", "--b", "-s", "-ss", "-s=a=b", "-ss=", "-bs", "-sb", "-long", "-long-name", "-l", "-lo", "%", "-", "-=", "-b=", "-h", "-help", "-help=x", "-hb"}), 0, 3, [&](const Strs& t) { p(t); });
        if (thorough()) { sequences(S({"-b", "-s", "-ss", "-sb", "-long", "-l", "%", "-help", "--", "--ss"}), 4, 5, [&](const Strs& t) { p(t); }); }
    }
    // own and automatic help and version in alternative spelling
    for (int own = 0; own < 2; ++own) {
        Cfg c;
        if (own) { c.args.push_back(Spec(S({"--hel"}), K_HELP, 0)); }
        c.args.push_back(Spec(S({"-v", "--vers"}), K_VERSION, 0));
        c.args.push_back(Spec(S({"-e"}), K_BOOL, 0));
        c.args.push_back(Spec(S({"--req"}), K_SIMPLE, 1, true));
        c.args.push_back(Spec(S({"LIST"}), K_POSINF));
        Pair p(c);
        sequences(S({"-help", "-hel", "-h", "-vers", "-v", "-ve", "-req", "-req=%", "%", "-help=", "--", "-e"}), 0, thorough() ? 4 : 3, [&](const Strs& t) { p(t); });
    }
    // every kind alone: '-name' and '--name' in every place
    for (Kind k : kinds) {
        for (Kind head : {K_BOOL, K_INF, K_EXT, K_EXTNUM, K_POSINF, K_POSINFNUM, K_NUMBER}) {
            Cfg c;
            Spec s = kit(k);
            s.names = S({"--name"});
            c.args.push_back(s);
            Spec o = kit(head);
            if (k == head) { o.names = isPos(head) ? S({"P"}) : S({"-o"}); }
            c.args.push_back(o);
            std::string f = isPos(head) ? "" : shortOf(o);
            std::vector<Strs> heads = {{}, {"a"}, {"a", "b"}};
            if (!f.empty()) {
                heads.push_back({f});
                heads.push_back({f, "a", "b"});
                heads.push_back({f, "a"});
            }
            for (auto& h : heads) {
                if (head == K_NUMBER && !h.empty() && h.size() < 3 && h[0] == f) { continue; } // there the token is a value
                if (head == K_EXTNUM && h.size() == 2 && h[0] == f) { continue; }
                if (head == K_POSINFNUM && h.size() % 2) { continue; }
                asLong(c, h, "name", S({"", "=", "=v", "=a=b", "=-x"}), S({"%", "-name", "--name=%", "--", "-z"}), thorough() ? 3 : 2);
            }
        }
    }
    // all token sequences without any registered long option: the mode changes nothing
    {
        Cfg c;
        for (Kind k : kinds) {
            Spec s = kit(k);
            s.names = Strs(1, shortOf(s));
            c.args.push_back(s);
        }
        c.args.push_back(kit(K_POSINF));
        Pair p(c);
        sequences(S({"-b", "-bs", "-s", "-sx", "-i", "-x", "-n", "-g", "-e=%", "-m", "%", "--", "-zz", "-br", "-"}), 0, 3, [&](const Strs& t) { p(t); });
    }
    grand(grandLevel(0), bothModes, G_STRUCT | G_ZOO | G_PAIRS | G_CROWD | G_SCALE);
    grand(grandLevel(), grandCheck, G_STRUCT | G_ZOO | G_HISTORY);
}
