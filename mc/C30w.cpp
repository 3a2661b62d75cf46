// One world of C30: compiled once per language standard and compiler, together
// with its own copy of the library (-Dblet=... renames its namespace).
// Plain C++98.
#include "blet/args.h"
#include "world.hpp"
#include <cstdio>
#include <cstring>
#include <sstream>
#include <stdexcept>

namespace WORLD {
typedef std::vector<std::string> Strs;
using blet::Args;
using blet::args::Argument;
using blet::args::ArgumentElement;

template<typename T>
static std::string str(const T& v) {
    std::ostringstream o;
    o << v;
    return o.str();
}
static std::string str(double v) {
    char b[40];
    sprintf(b, "%.17g", v);
    return b;
}
static std::string str(float v) { return str((double)v); }
static std::string str(char v) { return str((int)v); }
static std::string str(signed char v) { return str((int)v); }
static std::string str(unsigned char v) { return str((int)v); }
static std::string str(const char* v) { return v ? std::string("'") + v + "'" : "NULL"; }
static std::string str(const std::string& v) { return "'" + v + "'"; }
template<typename T>
static std::string str(const std::vector<T>& v) {
    std::string r = "[";
    for (std::size_t i = 0; i < v.size(); ++i) { r += (i ? "," : "") + str(T(v[i])); }
    return r + "]";
}

struct Slot {
    bool b;
    char c;
    signed char sc;
    unsigned char uc;
    short s;
    unsigned short us;
    int i;
    unsigned int ui;
    long l;
    unsigned long ul;
    float f;
    double d;
    std::string t, custom;
    const char* p;
    char c4[4], c16[16];
    Strs vt, vcustom;
    std::vector<int> vi;
    std::vector<double> vd;
    std::vector<const char*> vp;
    std::vector<unsigned long> vu;
    std::vector<Strs> vvt, vvcustom;
    std::vector<std::vector<int> > vvi;
    std::vector<std::vector<double> > vvd;
    Slot() : b(true), c(7), sc(7), uc(7), s(7), us(7), i(7), ui(7), l(7), ul(7), f(7), d(7), t("7"), p("7") {
        strcpy(c4, "7");
        strcpy(c16, "7");
    }
    std::string show() const {
        return str(b) + " " + str(c) + " " + str(sc) + " " + str(uc) + " " + str(s) + " " + str(us) + " " + str(i) + " " + str(ui) + " " + str(l) + " " + str(ul) + " " + str(f) + " " + str(d) + " " +
               str(t) + str(custom) + str(p) + str((const char*)c4) + str((const char*)c16) + str(vt) + str(vcustom) + str(vi) + str(vd) + str(vp) + str(vu) + str(vvt) + str(vvcustom) + str(vvi) + str(vvd);
    }
};
static void conv(std::string& d, bool e, const std::string& v) { d = v + (e ? "!" : "?"); }
static void conv(Strs& d, bool e, const Strs& v) {
    d = v;
    d.push_back(e ? "!" : "?");
}
static void conv(std::vector<Strs>& d, bool e, const std::vector<Strs>& v) {
    d = v;
    d.push_back(Strs(1, e ? "!" : "?"));
}
struct Valid : Args::IValid {
    int mode;
    explicit Valid(int m) : mode(m) {}
    bool isValid(Strs& v) {
        for (std::size_t i = 0; i < v.size(); ++i) { v[i] += "~"; }
        if (mode == 2) { throw std::runtime_error("thrown by a validator"); }
        return mode != 1;
    }
};

static blet::args::Vector list(const Strs& v, int form) {
    const std::size_t n = v.size();
    if (form == 1) {
        switch (n) {
            case 0: return Args::vector();
            case 1: return Args::vector(v[0].c_str());
            case 2: return Args::vector(v[0].c_str(), v[1].c_str());
            case 3: return Args::vector(v[0].c_str(), v[1].c_str(), v[2].c_str());
            case 4: return Args::vector(v[0].c_str(), v[1].c_str(), v[2].c_str(), v[3].c_str());
            case 5: return Args::vector(v[0].c_str(), v[1].c_str(), v[2].c_str(), v[3].c_str(), v[4].c_str());
            case 6: return Args::vector(v[0].c_str(), v[1].c_str(), v[2].c_str(), v[3].c_str(), v[4].c_str(), v[5].c_str());
            case 7: return Args::vector(v[0].c_str(), v[1].c_str(), v[2].c_str(), v[3].c_str(), v[4].c_str(), v[5].c_str(), v[6].c_str());
            default: break;
        }
    }
    if (form == 2 && n == 1) { return blet::args::Vector(v[0]); }
    if (form == 2 && n == 2) {
        const char* a[] = {v[0].c_str(), v[1].c_str()};
        return blet::args::Vector(a);
    }
    if (form == 2 && n == 3) {
        const char* const a[] = {v[0].c_str(), v[1].c_str(), v[2].c_str()};
        return blet::args::Vector(a);
    }
    if (form == 2 && n == 4) {
        const std::string a[] = {v[0], v[1], v[2], v[3]};
        return blet::args::Vector(a);
    }
    blet::args::Vector r;
    for (std::size_t i = 0; i < n; ++i) { r + v[i]; }
    return r;
}

static void define(Args& a, const WDef& s, Slot& d, int form) {
    if (form == 3) {
        a.addArgument(s.names[0]);
        for (std::size_t i = 1; i < s.names.size(); ++i) { a.updateArgument(s.names[0]).flag(s.names[i].c_str()); }
    }
    else {
        a.addArgument(list(s.names, form));
    }
    Argument& g = a.updateArgument(s.names[0]);
    switch (s.kind) {
        case 0: g.action(Args::STORE_TRUE); break;
        case 1: g.action(Args::STORE_FALSE); break;
        case 2: g.action(Args::HELP); break;
        case 3: g.action(Args::VERSION); break;
        case 5: case 12: g.nargs(s.n); break;
        case 6: case 13: g.action(Args::INFINITE); break;
        case 7: g.action(Args::APPEND); break;
        case 8: g.action(Args::APPEND).nargs(s.n); break;
        case 9: g.action(Args::EXTEND); break;
        case 10: g.action(Args::EXTEND).nargs(s.n); break;
        case 14: g.nargs(s.n).action(Args::INFINITE); break;
        default: break;
    }
    if (s.required) { g.required(); }
    if (!s.defaults.empty()) { g.defaults(list(s.defaults, form)); }
    if (!s.help.empty()) { g.help(s.help.c_str()); }
    if (!s.metavar.empty()) { g.metavar(s.metavar.c_str()); }
    switch (s.valid) {
        case 1: g.valid(new Args::ValidMinMax(2, 50)); break;
        case 2: g.valid(new Args::ValidNumber()); break;
        case 3: g.valid(new Args::ValidChoise(Args::vector("1", "v0", "p1", "2.5"))); break;
        case 4: g.valid(new Args::ValidPath(Args::ValidPath::IS_DIR)); break;
        case 5: g.valid(new Args::ValidPath()); break;
        case 6: g.valid(new Valid(0)); break;
        case 7: g.valid(new Valid(1)); break;
        case 8: g.valid(new Valid(2)); break;
        default: break;
    }
    Argument& h = a.updateArgument(s.names[0]);
    switch (s.dest) {
        case 1: h.dest(d.b); break;
        case 2: h.dest(d.c); break;
        case 3: h.dest(d.sc); break;
        case 4: h.dest(d.uc); break;
        case 5: h.dest(d.s); break;
        case 6: h.dest(d.us); break;
        case 7: h.dest(d.i); break;
        case 8: h.dest(d.ui); break;
        case 9: h.dest(d.l); break;
        case 10: h.dest(d.ul); break;
        case 11: h.dest(d.f); break;
        case 12: h.dest(d.d); break;
        case 13: h.dest(d.t); break;
        case 14: h.dest(d.p); break;
        case 15: h.dest(d.c4); break;
        case 16: h.dest(d.c16); break;
        case 17: h.dest(d.custom, &conv); break;
        case 18: h.dest(d.vt); break;
        case 19: h.dest(d.vi); break;
        case 20: h.dest(d.vd); break;
        case 21: h.dest(d.vp); break;
        case 22: h.dest(d.vu); break;
        case 23: h.dest(d.vcustom, &conv); break;
        case 24: h.dest(d.vvt); break;
        case 25: h.dest(d.vvi); break;
        case 26: h.dest(d.vvd); break;
        case 27: h.dest(d.vvcustom, &conv); break;
        default: break;
    }
}

static void element(std::string& r, const ArgumentElement& e, int depth) {
    r += str(e.getString()) + "/" + str(e.getDefault());
    if (e.isNumber()) { r += "=" + str(e.getNumber()); }
    if (depth < 3 && !e.empty()) {
        r += "{";
        for (std::size_t i = 0; i < e.size(); ++i) { element(r, e[i], depth + 1); }
        r += "}";
    }
}
static std::string dump(const Argument& g) {
    std::string r = str(g.getNameOrFlags()) + " " + str((int)g.getAction()) + " " + str(g.getNargs()) + " " + str(g.getDefaults()) + str(g.getDefault()) + " " + str(g.isRequired()) + str(g.isExists()) + " " +
                    str(g.count()) + " " + str(g.getHelp()) + str(g.getMetavar()) + str(g.getString()) + " ";
    std::ostringstream o;
    o << g;
    r += str(o.str());
    bool b = g;
    std::string s = g;
    r += str(b) + str(s);
    element(r, g, 0);
    try {
        Strs v = g;
        r += str(v);
    }
    catch (const Args::Exception& e) { r += e.what(); }
    try {
        std::vector<Strs> vv = g;
        r += str(vv);
    }
    catch (const Args::Exception& e) { r += e.what(); }
    if (g.isNumber()) {
        double d = g;
        float f = g;
        r += str(d) + " " + str(f);
        if (d > -1000 && d < 1000) {
            long l = g;
            int i = g;
            r += " " + str(l) + " " + str(i);
        }
    }
    return r + "\n";
}
static std::string parse(Args& a, const Strs& tokens) {
    Strs store(1, "path/prog");
    store.insert(store.end(), tokens.begin(), tokens.end());
    std::vector<char*> argv;
    for (std::size_t i = 0; i < store.size(); ++i) { argv.push_back(&store[i][0]); }
    argv.push_back(NULL);
    try {
        a.parseArguments((int)store.size(), &argv[0]);
        return "parsed\n";
    }
    catch (const Args::HelpException& e) { return std::string("help ") + e.what() + "\n"; }
    catch (const Args::VersionException& e) { return std::string("version ") + e.what() + "\n"; }
    catch (const Args::ParseArgumentRequiredException& e) { return std::string("required ") + e.argument() + ": " + e.what() + "\n"; }
    catch (const Args::ParseArgumentValidException& e) { return std::string("valid ") + e.argument() + ": " + e.what() + "\n"; }
    catch (const Args::ParseArgumentException& e) { return std::string("parse ") + e.argument() + ": " + e.what() + "\n"; }
    catch (const Args::ArgumentException& e) { return std::string("argument ") + e.argument() + ": " + e.what() + "\n"; }
    catch (const Args::Exception& e) { return std::string("exception ") + e.what() + "\n"; }
    catch (const std::exception& e) { return std::string("std ") + e.what() + "\n"; }
}
static void forget(std::vector<Slot>& slots) { // pointers live until the next parse
    for (std::size_t i = 0; i < slots.size(); ++i) {
        slots[i].p = "7";
        slots[i].vp.clear();
    }
}
static std::string defineAll(Args& a, const WProg& p, std::vector<Slot>& slots, std::size_t step) {
    std::string r;
    if (p.alternative) { a.setAlternative(); }
    if (p.strict) { a.setStrict(); }
    a.setHelpException();
    a.setVersionException();
    a.setVersion("1.2.3");
    a.setDescription(p.description.c_str());
    a.setEpilog(p.epilog.c_str());
    if (p.layout) { a.setUsageWidth(p.width[0], p.width[1], p.width[2], p.width[3]); }
    for (std::size_t i = 0; i < p.defs.size(); i += step) {
        try { define(a, p.defs[i], slots[i], p.form); }
        catch (const Args::ArgumentException& e) { r += std::string("refused ") + e.argument() + ": " + e.what() + "\n"; }
        catch (const Args::Exception& e) { r += std::string("refused ") + e.what() + "\n"; }
    }
    return r;
}
static std::string look(Args& a, const WProg& p, const std::vector<Slot>& slots) {
    std::string r;
    for (std::size_t i = 0; i < p.defs.size(); ++i) {
        const std::string& n = p.defs[i].names.back();
        try { r += dump(a.getArgument(n)); }
        catch (const Args::AccessDeniedException& e) { r += std::string(e.argument()) + ": " + e.what() + "\n"; }
        if (p.defs[i].dest) { r += slots[i].show() + "\n"; }
    }
    return r + str(a.getAdditionalArguments()) + str(a.getBinaryName()) + "\n";
}
} // namespace WORLD

#define PASTE2(a, b) a##b
#define PASTE(a, b) PASTE2(a, b)
std::string PASTE(run_, WORLD)(const WProg& p) {
    using namespace WORLD;
    std::vector<Slot> slots(p.defs.size());
    blet::Args a;
    std::string r = defineAll(a, p, slots, 1);
    r += a.getUsage();
    for (std::size_t i = 0; i < p.lines.size(); ++i) {
        forget(slots);
        r += parse(a, p.lines[i]);
        r += look(a, p, slots);
    }
    if (p.then == 1) {
        for (std::size_t i = 0; i < p.defs.size(); i += 2) {
            try { a.removeArguments(list(p.defs[i].names, p.form)); }
            catch (const blet::Args::ArgumentException& e) { r += std::string("refused ") + e.argument() + ": " + e.what() + "\n"; }
        }
    }
    if (p.then == 2) {
        forget(slots);
        a.clear();
        r += a.getUsage();
        r += defineAll(a, p, slots, 2);
    }
    if (p.then) {
        for (std::size_t i = 0; i < p.lines.size(); ++i) {
            forget(slots);
        r += parse(a, p.lines[i]);
            r += look(a, p, slots);
        }
    }
    return r + a.getUsage();
}
