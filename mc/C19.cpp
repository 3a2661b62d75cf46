// C19: any argv ends in success or in a documented exception with the right name.
#include <typeinfo>
#include "kit.hpp"
#include "grand.hpp"
using namespace mc;

struct Refuse : blet::Args::IValid {
    bool isValid(Strs& v) {
        for (auto& s : v) {
            if (s.find('z') != std::string::npos) { return false; }
        }
        return true;
    }
};

// outcome with validators that refuse any value containing a z
static Outcome want(const Cfg& c, Machine& m, const Strs& t) {
    Outcome o = m.run(t);
    if (o.status != OK) { return o; }
    for (size_t k : m.order) {
        if (k >= c.args.size() || !m.st[k].exist || valueless(c.args[k].kind)) { continue; }
        bool z = false;
        for (auto& x : o.args[k].flat) { z = z || x.find('z') != std::string::npos; }
        for (auto& g : o.args[k].groups) {
            for (auto& x : g) { z = z || x.find('z') != std::string::npos; }
        }
        if (z) {
            Outcome r;
            r.status = INVALID;
            r.name = frontName(c.args[k]);
            return r;
        }
    }
    return o;
}
static std::string one(const Cfg& c, Machine& m, const Strs& t, const char* prog = "prog") {
    C().describe = [&]() { return cppCfg(c) + "every value-taking argument has a validator refusing values with a 'z'\n" + cppParse(t); };
    Outcome w = want(c, m, t), got;
    {
        blet::Args a;
        build(a, c);
        for (auto& s : c.args) {
            if (!valueless(s.kind)) { a.updateArgument(s.names[0]).valid(new Refuse()); }
        }
        Argv v(t, prog);
        const std::type_info* type = 0;
        try {
            a.parseArguments(v.argc(), v.argv());
            readAll(a, c, got);
        }
        catch (const blet::Args::ParseArgumentException& e) {
            type = &typeid(e);
            got.name = e.argument();
            got.what = e.what();
            got.status = *type == typeid(blet::Args::ParseArgumentException) ? TOKEN_ERROR : *type == typeid(blet::Args::ParseArgumentRequiredException) ? MISSING : *type == typeid(blet::Args::ParseArgumentValidException) ? INVALID : OTHER;
            if (got.what.empty()) { fail("the error has no message"); }
        }
        catch (const blet::Args::HelpException& e) {
            got.status = HELP;
            got.what = e.what();
            if (got.what.empty()) { fail("the help has no text"); }
        }
        catch (const blet::Args::VersionException& e) {
            got.status = VERSION;
            got.what = e.what();
            eqs(got.what, c.version, "version text");
        }
        catch (const std::exception& e) {
            got.status = OTHER;
            got.what = std::string(typeid(e).name()) + ": " + e.what();
        }
        catch (...) {
            got.status = OTHER;
            got.what = "something that is not an exception object";
        }
    }
    ++C().comparisons;
    std::string d = diff(got, w, c, M_ALL);
    if (!d.empty()) { fail(d); }
    steps(t.size() + 1);
    validated();
    state(canon(w));
    sample();
    C().describe = nullptr;
    return "";
}
static std::vector<Cfg> configs() {
    std::vector<Cfg> r;
    Cfg all;
    for (Kind k : optionKinds()) { all.args.push_back(kit(k)); }
    all.args.push_back(kit(K_POS));
    all.args.push_back(kit(K_POSINFNUM));
    Cfg alt = all;
    alt.alternative = true;
    alt.args.push_back(Spec(S({"--b"}), K_SIMPLE));
    alt.args.push_back(Spec(S({"--s\xE9"}), K_EXT));
    alt.args.push_back(Spec(S({"-\xE9"}), K_NUMBER, 2));
    alt.args.push_back(Spec(S({"--n n"}), K_RBOOL, 0));
    Cfg none;
    none.strict = true;
    Cfg must;
    must.args = {kit(K_SIMPLE, true), kit(K_BOOL, true), kit(K_INF, true, S({"D"})), kit(K_POSNUM, true), Spec(S({"- "}), K_BOOL, 0), Spec(S({"---"}), K_SIMPLE), Spec(S({"--z"}), K_MULTINUM, 3)};
    must.strict = true;
    r = {all, alt, none, must};
    return r;
}
static Strs words(const Strs& alpha, size_t n) {
    Strs r(1), last(1);
    for (size_t i = 0; i < n; ++i) {
        Strs next;
        for (auto& p : last) {
            for (auto& c : alpha) { next.push_back(p + c); }
        }
        r.insert(r.end(), next.begin(), next.end());
        last = next;
    }
    return r;
}

void explore() {
    Strs bytes = S({"-", "=", "b", "s", "n", "z", "\xE9", " "});
    Strs w1 = words(bytes, thorough() ? 6 : 5), w2 = words(S({"-", "=", "b", "s", "n", "z"}), 3), w2s = words(bytes, 2), w3 = words(S({"-", "=", "s", "n", "z"}), 2);
    for (auto& c : configs()) {
        Machine m(c);
        if (!skipBlock(w1.size() * 2)) {
            for (auto& a : w1) {
                if (take()) { one(c, m, Strs(1, a)); }
                if (take()) { one(c, m, {a, "v"}); }
            }
        }
        const Strs& w = thorough() ? w2 : w2s;
        if (!skipBlock(w.size() * w.size())) {
            for (auto& a : w) {
                for (auto& b : w) {
                    if (take()) { one(c, m, {a, b}); }
                }
            }
        }
        if (!skipBlock(w3.size() * w3.size() * w3.size())) {
            for (auto& a : w3) {
                for (auto& b : w3) {
                    for (auto& d : w3) {
                        if (take()) { one(c, m, {a, b, d}); }
                    }
                }
            }
        }
        // every single byte in every structural place
        for (int ch = 1; ch < 256; ++ch) {
            for (auto pat : {"?", "-?", "--?", "-b?", "-s?", "--simple=?", "--simpl?", "-s=?", "-?=x", "-??", "?-", "-i?", "?="}) {
                if (!take()) { continue; }
                std::string t;
                for (const char* p = pat; *p; ++p) { t += *p == '?' ? (char)ch : *p; }
                one(c, m, {t, "a", "b"});
            }
        }
        // long tokens and long command lines
        for (size_t n : {100, 127, 128, 255, 256, 257, 1000, 4095, 4096, 5000, 70000}) {
            for (int k = 0; k < 8; ++k) {
                if (!take()) { continue; }
                std::string x(n, 'b');
                Strs t;
                if (k == 0) { t = {"-" + x}; }
                if (k == 1) { t = {"--" + x}; }
                if (k == 2) { t = {"-s" + x}; }
                if (k == 3) { t = {"--simple=" + x}; }
                if (k == 4) { t = {x, x}; }
                if (k == 5) { t = {"-" + x + "s", x}; }
                if (k == 6) { t = Strs(n > 5000 ? 5000 : n, "v"); }
                if (k == 7) { t = Strs(1, "-i"); t.resize(n > 5000 ? 5000 : n, "v"); }
                one(c, m, t);
            }
        }
        for (auto prog : {"", "-s", "--", "-", "--help", "a/b", "/", "-s=1"}) { // argv[0] is never an option
            for (auto& a : w3) {
                if (take()) { one(c, m, {a, "v"}, prog); }
            }
        }
    }
    hugeArities();
    grand(grandLevel(), grandCheck);
}
