// Reference model of definition calls: action / nargs / defaults / required /
// flag on a list of arguments, with at most one help and one version owner.
#ifndef MC_DEFS_HPP
#define MC_DEFS_HPP
#include "kit.hpp"

namespace mc {

typedef blet::args::Action Act;
inline const char* actionName(int a) {
    static const char* n[] = {"NONE", "HELP", "VERSION", "STORE_TRUE", "STORE_FALSE", "APPEND", "EXTEND", "INFINITE"};
    return n[a];
}

struct Defn {
    Strs names;
    bool pos;
    int action;
    size_t nargs;
    Strs defaults;
    bool required;
    Kind kind;
    Defn() {}
    explicit Defn(const Strs& n) : names(n), pos(n[0][0] != '-'), action(Act::NONE), nargs(1), required(false), kind(pos ? K_POS : K_SIMPLE) {}
};

// what the documentation says a reported (action, nargs) pair means
inline int kindOf(bool pos, int action, size_t nargs) {
    if (pos) {
        if (nargs == 1) { return action == Act::NONE ? K_POS : action == Act::INFINITE ? K_POSINF : -1; }
        if (nargs > 1) { return action == Act::NONE ? K_POSNUM : action == Act::INFINITE ? K_POSINFNUM : -1; }
        return -1;
    }
    switch (action) {
        case Act::HELP: return K_HELP;
        case Act::VERSION: return K_VERSION;
        case Act::STORE_TRUE: return K_BOOL;
        case Act::STORE_FALSE: return K_RBOOL;
        default: break;
    }
    if (nargs == 0) { return K_BOOL; }
    switch (action) {
        case Act::NONE: return nargs == 1 ? K_SIMPLE : K_NUMBER;
        case Act::APPEND: return nargs == 1 ? K_MULTI : K_MULTINUM;
        case Act::EXTEND: return nargs == 1 ? K_EXT : K_EXTNUM;
        case Act::INFINITE: return K_INF;
        default: return -1;
    }
}
// the pair that is reported after asking for (action, nargs)
inline void normalize(bool pos, int& action, size_t& nargs) {
    if (pos) {
        if (nargs == '+' && (action == Act::NONE || action == Act::INFINITE)) {
            action = Act::INFINITE;
            nargs = 1;
        }
        return;
    }
    if (action == Act::HELP || action == Act::VERSION || action == Act::STORE_TRUE || action == Act::STORE_FALSE) {
        nargs = 0;
    }
    else if (nargs != 0 && (action == Act::INFINITE || (nargs == '+' && action == Act::NONE))) {
        action = Act::INFINITE;
        nargs = 1;
    }
}
inline bool defaultsFit(int kind, size_t nargs, size_t count) {
    if (count == 0) { return true; }
    if (kind == K_SIMPLE || kind == K_POS) { return count == 1; }
    if (kind == K_NUMBER || kind == K_POSNUM) { return count == nargs; }
    if (grouped((Kind)kind)) { return count % nargs == 0; }
    return true;
}

struct Defs {
    std::vector<Defn> v;
    int help, version; // owners
    Defs() : help(-1), version(-1) {}
    bool set(int i, int action, size_t nargs, const Strs& defaults) {
        Defn& d = v[i];
        normalize(d.pos, action, nargs);
        int k = kindOf(d.pos, action, nargs);
        if (k < 0 || !defaultsFit(k, nargs, defaults.size())) { return false; }
        if (k == K_HELP && help >= 0 && help != i) { return false; }
        if (k == K_VERSION && version >= 0 && version != i) { return false; }
        if (help == i) { help = -1; }
        if (version == i) { version = -1; }
        if (k == K_HELP) { help = i; }
        if (k == K_VERSION) { version = i; }
        d.action = action;
        d.nargs = nargs;
        d.defaults = defaults;
        d.kind = (Kind)k;
        return true;
    }
    Spec spec(int i) const {
        const Defn& d = v[i];
        Spec s(d.names, d.kind, d.nargs == 0 ? 0 : (unsigned)d.nargs, d.required);
        if (!valueless(d.kind)) { s.defaults = d.defaults; }
        return s;
    }
    Cfg cfg() const {
        Cfg c;
        for (size_t i = 0; i < v.size(); ++i) { c.args.push_back(spec(i)); }
        return c;
    }
    std::string canon() const {
        std::string r = str(help) + "/" + str(version);
        for (auto& d : v) {
            r += "|" + q(d.names) + str(d.action) + "," + str(d.nargs) + (d.required ? "R" : "") + q(d.defaults);
        }
        return r;
    }
};

// defaults the way the usage and getDefault() present them
inline std::string defaultText(const Spec& s) {
    std::string r;
    for (size_t i = 0; i < s.defaults.size(); ++i) {
        if (i) { r += grouped(s.kind) && i % s.n == 0 ? "), (" : ", "; }
        else if (grouped(s.kind)) { r += "("; }
        r += s.defaults[i];
    }
    return grouped(s.kind) && !s.defaults.empty() ? r + ")" : r;
}

// reported definition of the real argument equals the model's
inline void sameDefinition(const blet::args::Argument& g, const Defn& d) {
    eqs(g.getNameOrFlags(), d.pos ? d.names : sortedFlags(d.names), "getNameOrFlags()");
    eq((int)g.getAction(), d.action, "getAction()");
    eq(g.getNargs(), d.nargs, "getNargs()");
    eqs(g.getDefaults(), d.defaults, "getDefaults()");
    eq(g.isRequired(), d.required, "isRequired()");
}

} // namespace mc
#endif
