// Definition sets with destinations, conversions and validators, the command
// lines of every outcome class for them, and edits of their definitions.
#ifndef MC_RICH_HPP
#define MC_RICH_HPP
#include "observe.hpp"

namespace mc {

struct Rich {
    blet::Args a;
    std::string s;
    int i;
    double d;
    bool b;
    char c[6];
    const char* p;
    Strs vs;
    std::vector<int> vi;
    std::vector<Strs> vvs;
    std::vector<std::vector<double> > vvd;
    Rich() : i(-7), d(-7), b(false), p(0) { strcpy(c, "~"); }
    void forget() { // the destinations as they were at the start
        Rich w;
        s = w.s; i = w.i; d = w.d; b = w.b; p = w.p; vs = w.vs; vi = w.vi; vvs = w.vvs; vvd = w.vvd;
        memcpy(c, w.c, sizeof(c));
    }
    std::string show() const {
        std::string r = q(s) + str(i) + " " + str(d) + str(b) + q(c) + (p ? q(p) : "null") + q(vs) + q(vvs);
        for (auto x : vi) { r += str(x) + ","; }
        for (auto& g : vvd) {
            r += "(";
            for (auto x : g) { r += str(x) + ","; }
            r += ")";
        }
        return r;
    }
};
// called at the start of every validator and conversion of these sets
inline std::function<void()>& richHook() {
    static std::function<void()> f;
    return f;
}
inline void hooked() {
    if (richHook()) { richHook()(); }
}
struct Judge : blet::Args::IValid { // stateless: "no" is refused, "boom" throws, the others get a suffix
    bool isValid(Strs& v) {
        hooked();
        for (auto& x : v) {
            if (x == "no") { return false; }
            if (x == "boom") { throw std::runtime_error("boom"); }
            x += "+";
        }
        return true;
    }
};
struct Grow : blet::Args::IValid { // one value more or fewer than given
    bool more;
    explicit Grow(bool m) : more(m) {}
    bool isValid(Strs& v) {
        hooked();
        if (more) { v.push_back("more"); }
        else if (!v.empty()) { v.pop_back(); }
        return true;
    }
};
inline void convS(std::string& d, bool e, const std::string& v) {
    hooked();
    if (v == "boom") { throw std::runtime_error("boom in a conversion"); }
    d = v + (e ? "|given" : "|not");
}
inline void convI(int& d, bool e, const std::string& v) {
    hooked();
    d = (int)v.size() * 2 + e;
}
inline void convV(Strs& d, bool e, const Strs& v) {
    hooked();
    d = v;
    d.push_back(e ? "given" : "not");
    for (auto& x : v) {
        if (x == "boom") { throw std::runtime_error("boom in a conversion"); }
    }
}
inline void convVV(std::vector<Strs>& d, bool e, const std::vector<Strs>& v) {
    hooked();
    d = v;
    d.push_back(Strs(1, e ? "given" : "not"));
}
typedef std::function<void(Rich&)> Step;
struct RichCase {
    const char* text;
    Step define;
    Strs names;
    std::vector<Strs> lines;
};
inline std::vector<RichCase> richCases() {
    using blet::Args;
    std::vector<RichCase> r;
#define DEF(...) #__VA_ARGS__, [](Rich& w) { __VA_ARGS__; }
    r.push_back({DEF(w.a.addArgument("-s").dest(w.i).valid(new Args::ValidNumber()); w.a.addArgument("POS").dest(w.s).valid(new Args::ValidChoise(vec(S({"red", "green"}))))),
                 S({"-s", "POS"}), {S({}), S({"-s", "12", "red"}), S({"-s", "x"}), S({"green", "-s", "7"}), S({"blue"}), S({"-s=3.5"}), S({"red", "extra"}), S({"-s"}), S({"-u"})}});
    r.push_back({DEF(w.a.addArgument(vec(S({"-n", "--num"}))).nargs(2).dest(w.vi).valid(new Args::ValidMinMax(0, 50)).defaults(vec(S({"1", "2"}))); w.a.addArgument("LIST").action(Args::INFINITE).dest(w.vs).valid(new Judge())),
                 S({"-n", "LIST"}), {S({}), S({"-n", "3", "4", "a", "b", "c"}), S({"-n", "3", "99"}), S({"a"}), S({"a", "no", "c"}), S({"--num=5"}), S({"--num=5", "6", "boom"}), S({"a", "--", "-n"}), S({"-n", "0x1", "1e1", "z"})}});
    r.push_back({DEF(w.a.addArgument("-x").action(Args::APPEND).nargs(2).dest(w.vvs).valid(new Judge()); w.a.addArgument("-m").action(Args::EXTEND).dest(w.vs, convV).valid(new Judge()).defaults(vec(S({"d1", "d2"})))),
                 S({"-x", "-m"}), {S({}), S({"-x", "1", "2", "-x", "3", "4"}), S({"-m", "a", "-mb"}), S({"-x", "1", "no"}), S({"-x", "1"}), S({"-m", "boom"}), S({"-x", "1", "2", "-m=3"}), S({"-m"}), S({"-x", "5", "6", "7"})}});
    r.push_back({DEF(w.a.addArgument("-x").action(Args::EXTEND).nargs(2).dest(w.vvd).defaults(vec(S({"1", "2", "3", "4"}))); w.a.addArgument("PGRP").nargs(2).action(Args::INFINITE).dest(w.vvs, convVV).valid(new Judge())),
                 S({"-x", "PGRP"}), {S({}), S({"-x", "5", "6"}), S({"-x", "5", "6", "7", "8", "p", "q"}), S({"-x", "5", "word"}), S({"p", "q", "r", "s"}), S({"p"}), S({"p", "no"}), S({"-x=5", "6", "p", "boom"}), S({"-x", "5", "-x", "6"})}});
    r.push_back({DEF(w.a.addArgument(vec(S({"-b", "--bool"}))).action(Args::STORE_TRUE).dest(w.b); w.a.addArgument("-r").action(Args::STORE_FALSE).dest(w.c); w.a.addArgument("-s").dest(w.p).valid(new Judge()).defaults("dd"); w.a.addArgument("POS").dest(w.s, convS).required()),
                 S({"-b", "-r", "-s", "POS"}), {S({"p"}), S({}), S({"-br", "p"}), S({"-bs", "v", "p"}), S({"boom"}), S({"-s", "no", "p"}), S({"-brs"}), S({"p", "--bool", "-r"}), S({"-s=v", "p", "q"})}});
    r.push_back({DEF(w.a.addArgument("-m").action(Args::APPEND).valid(new Grow(true)).dest(w.vs); w.a.addArgument("-g").action(Args::APPEND).nargs(2).valid(new Grow(false)).dest(w.vvs); w.a.addArgument("-s").dest(w.i, convI).required().valid(new Args::ValidPath(Args::ValidPath::IS_DIR))),
                 S({"-m", "-g", "-s"}), {S({"-s", "/"}), S({"-s", "/", "-m", "1", "-m", "2"}), S({"-s", "/", "-g", "1", "2", "-g", "3", "4"}), S({}), S({"-s", "/no/such/dir"}), S({"-g", "1", "2"}), S({"-s/", "-m9", "-g5", "6"}), S({"-m"}), S({"-s/", "p"})}});
    r.push_back({DEF(w.a.addArgument(vec(S({"-s", "--size"}))).dest(w.d).metavar("SIZE").help("the size of it").defaults("2.5").valid(new Args::ValidMinMax(9, 1)); w.a.addArgument("LIST").action(Args::INFINITE).dest(w.vi).metavar("ITEM").help("items").defaults(vec(S({"4", "5"}))); w.a.setDescription("a description"); w.a.setEpilog("an epilog")),
                 S({"-s", "LIST"}), {S({}), S({"-s", "1"}), S({"-s", "0"}), S({"1", "2", "3"}), S({"1", "x"}), S({"--size=9", "8"}), S({"--size"}), S({"-s", "2", "-s", "3"}), S({"-h"})}});
#undef DEF
    return r;
}
struct RichEdit {
    const char* text;
    Step f;
};
inline std::vector<RichEdit> richEdits(const RichCase& c) {
    using blet::Args;
    std::vector<RichEdit> e;
    std::string x = c.names[0], y = c.names[1];
#define ED(...) e.push_back({#__VA_ARGS__, [x, y](Rich& w) { (void)w; __VA_ARGS__; }})
    ED((void)0);
    ED(w.a.updateArgument(x).valid(new Judge()));
    ED(w.a.updateArgument(x).valid(0));
    ED(w.a.updateArgument(y).valid(new Grow(true)));
    ED(w.a.updateArgument(y).dest(w.s));
    ED(w.a.updateArgument(x).dest(w.vs, convV));
    ED(w.a.updateArgument(y).dest(w.vvs));
    ED(w.a.updateArgument(x).required());
    ED(w.a.updateArgument(y).required(false));
    ED(w.a.updateArgument(x).action(Args::STORE_TRUE));
    ED(w.a.updateArgument(x).defaults("71"));
    ED(w.a.updateArgument(y).defaults(vec(S({"81", "82"}))));
    ED(w.a.updateArgument(x).metavar("META").help("other help"));
    ED(w.a.updateArgument(y).metavar("MANY").flag("--why"));
    ED(w.a.setUsage("own usage"); w.a.setUsageWidth(1, 9, 1, 30));
    ED(w.a.setDescription("other description"); w.a.setEpilog(""); w.a.setVersion("v"));
    ED(w.a.addArgument(vec(S({"-u", "--unto"}))).dest(w.c).valid(new Judge()));
    ED(w.a.removeArguments(x));
    ED(w.a.removeArguments(y); w.a.addArgument(vec(Strs(1, y))).dest(w.p));
    ED(w.a.clear(); w.a.setHelpException(); w.a.setVersionException(); w.a.addArgument("-s").dest(w.s).defaults("cleared"); w.a.addArgument("LIST").action(Args::INFINITE));
#undef ED
    return e;
}
inline void richEdit(const RichEdit& e, Rich& w) {
    try { e.f(w); }
    catch (const blet::Args::ArgumentException&) {}
}
inline std::string richParse(Rich& w, const Strs& t, const Strs& names, bool look = true) {
    Argv v(t);
    std::string r;
    bool ok = false;
    try {
        w.a.parseArguments(v.argc(), v.argv());
        ok = true;
    }
    catch (const blet::Args::HelpException& e) { r = std::string("help ") + e.what(); }
    catch (const blet::Args::VersionException& e) { r = std::string("version ") + e.what(); }
    catch (const blet::Args::ParseArgumentException& e) { r = std::string("error ") + e.argument() + " " + e.what(); }
    catch (const std::exception& e) { r = std::string("other ") + e.what(); }
    if (!look) { return ""; }
    r += "\n" + dump(w.a, names) + "\n";
    return ok ? r + w.show() : r; // only a successful parse has written the destinations
}

} // namespace mc
#endif
