// The standard set of arguments the parsing checks combine.
#ifndef MC_KIT_HPP
#define MC_KIT_HPP
#include "model.hpp"

namespace mc {

inline Spec kit(Kind k, bool required = false, const Strs& def = Strs()) {
    switch (k) {
        case K_BOOL: return Spec(S({"-b", "--bool"}), k, 0, required, def);
        case K_RBOOL: return Spec(S({"-r", "--rev"}), k, 0, required, def);
        case K_HELP: return Spec(S({"-h", "--help"}), k, 0, required, def);
        case K_VERSION: return Spec(S({"-v", "--version"}), k, 0, required, def);
        case K_SIMPLE: return Spec(S({"-s", "--simple"}), k, 1, required, def);
        case K_NUMBER: return Spec(S({"-n", "--number"}), k, 2, required, def);
        case K_INF: return Spec(S({"-i", "--inf"}), k, 1, required, def);
        case K_MULTI: return Spec(S({"-m", "--multi"}), k, 1, required, def);
        case K_MULTINUM: return Spec(S({"-g", "--group"}), k, 2, required, def);
        case K_EXT: return Spec(S({"-e", "--ext"}), k, 1, required, def);
        case K_EXTNUM: return Spec(S({"-x", "--xgroup"}), k, 2, required, def);
        case K_POS: return Spec(S({"POS"}), k, 1, required, def);
        case K_POSNUM: return Spec(S({"PNUM"}), k, 2, required, def);
        case K_POSINF: return Spec(S({"PINF"}), k, 1, required, def);
        case K_POSINFNUM: return Spec(S({"PGRP"}), k, 2, required, def);
    }
    return Spec();
}
// optional kinds that carry values, and all option kinds
inline const std::vector<Kind>& valueKinds() {
    static const std::vector<Kind> v = {K_SIMPLE, K_NUMBER, K_INF, K_MULTI, K_MULTINUM, K_EXT, K_EXTNUM};
    return v;
}
inline const std::vector<Kind>& optionKinds() {
    static const std::vector<Kind> v = {K_BOOL, K_RBOOL, K_VERSION, K_SIMPLE, K_NUMBER, K_INF, K_MULTI, K_MULTINUM, K_EXT, K_EXTNUM};
    return v;
}
inline const std::vector<Kind>& posKinds() {
    static const std::vector<Kind> v = {K_POS, K_POSNUM, K_POSINF, K_POSINFNUM};
    return v;
}
inline std::string shortOf(const Spec& s) {
    for (auto& n : s.names) {
        if (shortFlag(n)) { return n; }
    }
    return "";
}
inline std::string longOf(const Spec& s) {
    for (auto& n : s.names) {
        if (!shortFlag(n)) { return n; }
    }
    return "";
}
// a few default lists that fit the kind
inline Strs someDefaults(const Spec& s, unsigned uses) {
    Strs d;
    if (valueless(s.kind)) { return d; }
    unsigned n = (scalar(s.kind)) ? 1 : (s.kind == K_NUMBER || s.kind == K_POSNUM) ? s.n : s.n * uses;
    for (unsigned i = 0; i < n; ++i) {
        d.push_back("D" + str(i));
    }
    return d;
}
inline std::vector<std::vector<Kind> > positionalLists() {
    return {{}, {K_POS}, {K_POSNUM}, {K_POSINF}, {K_POSINFNUM}, {K_POS, K_POSINF}};
}

} // namespace mc
#endif
