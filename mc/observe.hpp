// Everything that can be read from an object through the public API, as text.
#ifndef MC_OBSERVE_HPP
#define MC_OBSERVE_HPP
#include "kit.hpp"

namespace mc {

inline void dumpNumber(std::string& r, const blet::args::ArgumentElement& e) {
    r += e.isNumber() ? " num=" : " nan";
    try {
        double d = e.getNumber();
        char b[40];
        snprintf(b, sizeof b, "%.17g", d);
        r += b;
        if (!e.isNumber()) { r += "!getNumber did not throw"; }
    }
    catch (const blet::Args::Exception& x) {
        r += std::string("/") + x.what();
    }
}
inline void dumpElement(std::string& r, const blet::args::ArgumentElement& e, int depth) {
    r += q(e.getString());
    r += " d=" + q(e.getDefault());
    if (e.empty()) { dumpNumber(r, e); }
    if (depth < 3) {
        r += "{";
        for (size_t i = 0; i < e.size(); ++i) { dumpElement(r, e[i], depth + 1); r += ";"; }
        r += "}";
    }
}
inline std::string dump(const blet::args::Argument& g) {
    std::string r = q(g.getNameOrFlags()) + " action=" + str((int)g.getAction()) + " nargs=" + str(g.getNargs()) +
                    " defaults=" + q(g.getDefaults()) + " default=" + q(g.getDefault()) + " required=" + str(g.isRequired()) +
                    " help=" + q(g.getHelp()) + " metavar=" + q(g.getMetavar()) + " exists=" + str(g.isExists()) +
                    " count=" + str(g.count()) + " bool=" + str((bool)g) + " string=" + q(g.getString());
    r += " stream=" + q(str(g)) + " text=" + q(g.operator std::string());
    try { r += " double=" + str((double)g); }
    catch (const blet::Args::Exception& x) { r += std::string(" double!") + x.what(); }
    dumpNumber(r, g);
    r += " size=" + str(g.size()) + "[";
    for (size_t i = 0; i < g.size(); ++i) { dumpElement(r, g[i], 0); r += ";"; }
    r += "]";
    try { r += " vector=" + q(g.operator std::vector<std::string>()); }
    catch (const blet::Args::Exception& x) { r += std::string(" vector!") + x.what(); }
    try { r += " groups=" + q(g.operator std::vector<std::vector<std::string> >()); }
    catch (const blet::Args::Exception& x) { r += std::string(" groups!") + x.what(); }
    return r;
}
inline std::string dump(const blet::Args& a, const Strs& names) {
    std::string r;
    for (auto& n : names) {
        r += n + ": ";
        try { r += dump(a.getArgument(n)); }
        catch (const blet::Args::AccessDeniedException& x) {
            r += std::string("absent ") + x.argument() + " " + x.what();
            if (a.argumentExists(n)) { r += " BUT argumentExists"; }
        }
        r += "\n";
    }
    r += "additional=" + q(a.getAdditionalArguments()) + "\nmodes=" + str(a.isAlternative()) + str(a.isStrict()) +
         str(a.isHelpException()) + str(a.isVersionException()) + " binary=" + q(a.getBinaryName()) + " version=" + q(a.getVersion()) +
         " description=" + q(a.getDescription()) + " epilog=" + q(a.getEpilog()) + "\nusage=" + a.getUsage() + "\n";
    return r;
}
inline std::string dump(const Outcome& o) {
    return std::string(statusName(o.status)) + " name=" + q(o.name) + " what=" + q(o.what) + "\n";
}
inline Strs namesOf(const Cfg& c) {
    Strs r;
    for (auto& s : c.args) { r.insert(r.end(), s.names.begin(), s.names.end()); }
    return r;
}
// first differing line of two dumps
inline std::string firstDiff(const std::string& a, const std::string& b, const char* la, const char* lb) {
    std::istringstream x(a), y(b);
    std::string l, m;
    while (true) {
        bool p = (bool)std::getline(x, l), s = (bool)std::getline(y, m);
        if (!p && !s) { return ""; }
        if (!p) { l = "(end)"; }
        if (!s) { m = "(end)"; }
        if (l != m || p != s) { return std::string("  ") + la + ": " + l + "\n  " + lb + ": " + m; }
    }
}

} // namespace mc
#endif
