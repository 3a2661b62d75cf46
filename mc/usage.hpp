// What the generated usage has to contain, as words; layout is not modelled.
#ifndef MC_USAGE_HPP
#define MC_USAGE_HPP
#include "defs.hpp"

namespace mc {

inline std::string squeeze(const std::string& s) { // all white space to single blanks
    std::string r;
    for (size_t i = 0; i < s.size(); ++i) {
        if (s[i] == ' ' || s[i] == '\n') {
            if (!r.empty() && r[r.size() - 1] != ' ') { r += ' '; }
        }
        else { r += s[i]; }
    }
    while (!r.empty() && r[r.size() - 1] == ' ') { r.erase(r.size() - 1); }
    return r;
}
inline std::string placeholder(const Spec& s) {
    if (!s.metavar.empty()) { return s.metavar; }
    Strs f = sortedFlags(s.names);
    std::string base = f[0].substr(1);
    for (auto& x : f) {
        if (!shortFlag(x)) { base = x.substr(2); break; }
    }
    for (auto& ch : base) {
        if (ch >= 'a' && ch <= 'z') { ch = (char)(ch - 'a' + 'A'); }
    }
    if (s.kind == K_INF) { return base + "..."; }
    std::string r = base;
    for (unsigned i = 1; i < s.n; ++i) { r += " " + base; }
    return r;
}
inline std::string synopsisOf(const Spec& s) {
    std::string r;
    if (!isPos(s.kind)) {
        r = frontName(s);
        if (!valueless(s.kind)) { r += " " + placeholder(s); }
    }
    else {
        const std::string& n = s.names[0];
        r = n;
        for (unsigned i = 1; i < s.n && s.kind != K_POSINF; ++i) { r += " " + n; }
        if (s.kind == K_POSINF) { r += " {" + n + "}..."; }
        if (s.kind == K_POSINFNUM) { r = "{" + r + "}..."; }
    }
    return s.required ? r : "[" + r + "]";
}
inline std::string shownDefault(const Spec& s) {
    std::string r;
    for (size_t i = 0; i < s.defaults.size(); ++i) {
        if (grouped(s.kind)) { r += i % s.n == 0 ? (i ? "), (" : "(") : ", "; }
        else { r += i ? ", " : ""; }
        r += s.defaults[i];
    }
    return r + (grouped(s.kind) && !s.defaults.empty() ? ")" : "");
}
inline std::string entryName(const Spec& s) {
    if (isPos(s.kind)) { return s.names[0]; }
    Strs f = sortedFlags(s.names);
    std::string r = f[0];
    for (size_t i = 1; i < f.size(); ++i) { r += ", " + f[i]; }
    return valueless(s.kind) ? r : r + " " + placeholder(s);
}
inline std::string entryHelp(const Spec& s) {
    std::string r = s.help, d = valueless(s.kind) ? "" : shownDefault(s);
    if (s.required) { r += " (required)"; }
    else if (!d.empty()) { r += " (default: " + d + ")"; }
    return r;
}
inline std::string basenameOf(const std::string& p) {
    size_t i = p.rfind('/');
    return i == std::string::npos ? p : p.substr(i + 1);
}
// non-empty lines, blanks squeezed
inline Strs expectedUsage(const std::vector<Spec>& args, const std::string& binary, const std::string& description = "", const std::string& epilog = "") {
    std::vector<size_t> o = listing(args);
    Strs r;
    std::string syn = "usage: " + basenameOf(binary);
    bool opt = false, pos = false;
    for (auto& a : args) { (isPos(a.kind) ? pos : opt) = true; }
    for (auto i : o) {
        if (!isPos(args[i].kind)) { syn += " " + synopsisOf(args[i]); }
    }
    if (opt && pos) { syn += " --"; }
    for (auto i : o) {
        if (isPos(args[i].kind)) { syn += " " + synopsisOf(args[i]); }
    }
    r.push_back(syn);
    if (!description.empty()) { r.push_back(description); }
    for (int p = 1; p >= 0; --p) {
        if (!(p ? pos : opt)) { continue; }
        r.push_back(p ? "positional arguments:" : "optional arguments:");
        for (auto i : o) {
            if (isPos(args[i].kind) == (p == 1)) { r.push_back(entryName(args[i]) + " " + entryHelp(args[i])); }
        }
    }
    if (!epilog.empty()) { r.push_back(epilog); }
    for (auto& l : r) { l = squeeze(l); }
    return r;
}
inline Strs linesOf(const std::string& u) {
    Strs r;
    std::istringstream in(u);
    std::string l;
    while (std::getline(in, l)) {
        l = squeeze(l);
        if (!l.empty()) { r.push_back(l); }
    }
    return r;
}
inline std::string joined(const Strs& l) {
    std::string r;
    for (auto& x : l) { r += x + "\n"; }
    return r;
}

} // namespace mc
#endif
