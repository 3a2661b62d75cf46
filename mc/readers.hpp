// Every reader of an argument compared with what the argument should hold.
#ifndef MC_READERS_HPP
#define MC_READERS_HPP
#include <cmath>
#include "kit.hpp"

namespace mc {

// looked for only where the property asks for it: throwing is slow
inline bool& refusals() {
    static bool on = false;
    return on;
}

static const char* const SIG = "number followed by an exponent letter without digits";

// longest prefix that is a decimal number; sets dangling if it is followed by
// an exponent letter that does not start an exponent
inline std::string numberPrefix(const std::string& s, bool* dangling) {
    size_t i = 0, n = s.size(), digits = 0;
    *dangling = false;
    if (i < n && (s[i] == '+' || s[i] == '-')) { ++i; }
    while (i < n && isdigit((unsigned char)s[i])) { ++i; ++digits; }
    if (i < n && s[i] == '.') {
        size_t j = i + 1, more = 0;
        while (j < n && isdigit((unsigned char)s[j])) { ++j; ++more; }
        if (digits || more) { i = j; digits += more; }
    }
    if (!digits) { return ""; }
    if (i < n && (s[i] == 'e' || s[i] == 'E')) {
        size_t j = i + 1, e = 0;
        if (j < n && (s[j] == '+' || s[j] == '-')) { ++j; }
        while (j < n && isdigit((unsigned char)s[j])) { ++j; ++e; }
        if (e) { i = j; }
        else { *dangling = true; }
    }
    return s.substr(0, i);
}

template<typename E>
inline void number(const E& e, const std::string& text, const char* who) {
    bool dangling;
    std::string p = numberPrefix(text, &dangling);
    bool want = !p.empty();
    if (dangling && std::string(MC_PROP) != "C15") { return; } // a recorded finding of C15, not looked at elsewhere
    if (want && !std::isfinite(strtod(p.c_str(), 0))) { return; } // outside the range of double
    ++C().comparisons;
    if (e.isNumber() != want) {
        fail(std::string(who) + ": isNumber() is " + str(e.isNumber()) + " for the value " + q(text), want && dangling ? SIG : "");
        return;
    }
    if (!want && !refusals()) { return; }
    try {
        double d = e.getNumber();
        if (!want) { fail(std::string(who) + ": getNumber() returns " + str(d) + " for the value " + q(text)); }
        double w = strtod(p.c_str(), 0);
        if (memcmp(&d, &w, sizeof d) != 0) { fail(std::string(who) + ": getNumber() of " + q(text) + " is " + str(d)); }
    }
    catch (const blet::Args::Exception& x) {
        if (want) { fail(std::string(who) + ": getNumber() throws for the value " + q(text)); }
        check(*x.what() != 0, "exception with an empty message");
    }
}
template<typename F>
inline void throws(F f, const char* what) {
    if (!refusals()) { return; }
    ++C().comparisons;
    try { f(); }
    catch (const blet::Args::Exception& x) {
        check(*x.what() != 0, "exception with an empty message");
        return;
    }
    catch (const std::exception& x) { fail(std::string(what) + " throws another type: " + x.what()); }
    fail(std::string(what) + " does not throw");
}

inline std::string groupText(const Strs& v) {
    std::string r;
    for (size_t i = 0; i < v.size(); ++i) { r += (i ? ", " : "") + v[i]; }
    return r;
}

// Every reader of one argument against the expected state.
inline void readers(const blet::args::Argument& g, Kind k, const ArgState& w) {
    std::string text;
    Strs flat = w.flat;
    if (valueless(k)) { text = (k == K_BOOL) == w.exist ? "true" : "false"; }
    else if (scalar(k)) { text = w.flat[0]; }
    else if (grouped(k)) {
        for (auto& gr : w.groups) {
            text += (text.empty() ? "(" : ", (") + groupText(gr) + ")";
            flat.insert(flat.end(), gr.begin(), gr.end());
        }
    }
    else { text = groupText(w.flat); }
    if (k != K_HELP && k != K_VERSION) {
        eqs(g.getString(), text, "getString()");
        eqs((std::string)g, text, "conversion to string");
        std::ostringstream o;
        o << "<" << g << ">";
        eqs(o.str(), "<" + text + ">", "stream output");
    }
    eq(g.isExists(), w.exist, "isExists()");
    eq(g.count(), w.count, "count()");
    eq((bool)g, k == K_RBOOL ? !w.exist : w.exist, "operator bool");
    eq(g.isExists(), g.count() > 0, "existence and count");
    size_t n = grouped(k) ? w.groups.size() : flatList(k) ? w.flat.size() : 0;
    eq(g.size(), n, "size()");
    eq(g.empty(), n == 0, "empty()");
    size_t it = 0;
    for (blet::args::Argument::const_iterator i = g.begin(); i != g.end(); ++i, ++it) { check(it < n && &*i == &g[it], "iteration and index differ"); }
    eq(it, n, "elements iterated over");
    for (size_t i = 0; i < n; ++i) {
        check(&g[i] == &g.at(i), "operator[] and at() differ");
        if (grouped(k)) {
            const Strs& gr = w.groups[i];
            eq(g[i].size(), gr.size(), "size of a group");
            eqs(g[i].operator std::vector<std::string>(), gr, "conversion of a group to vector");
            for (size_t j = 0; j < gr.size(); ++j) {
                eqs(g[i][j].getString(), gr[j], "text of a group member");
                eqs(str(g[i][j]), gr[j], "stream output of a group member");
                number(g[i][j], gr[j], "group member");
                throws([&]() { g[i][j].operator std::vector<std::string>(); }, "conversion of a group member to vector");
            }
        }
        else {
            eqs(g[i].getString(), w.flat[i], "text of an element");
            eqs(str(g[i]), w.flat[i], "stream output of an element");
            number(g[i], w.flat[i], "element");
            eq(g[i].size(), (size_t)0, "size of an element");
            throws([&]() { g[i].operator std::vector<std::string>(); }, "conversion of an element to vector");
        }
    }
    if (valueless(k)) {
        throws([&]() { g.operator std::vector<std::string>(); }, "conversion of a flag to vector");
        number(g, "", "flag");
    }
    else {
        eqs(g.operator std::vector<std::string>(), flat, "conversion to vector");
        if (scalar(k)) {
            number(g, flat[0], "argument");
            if (g.isNumber()) {
                double d = g.getNumber();
                eq((double)g, d, "conversion to double");
                eq((float)g, (float)d, "conversion to float");
                if (d > -1e9 && d < 1e9) {
                    eq((int)g, (int)d, "conversion to int");
                    eq((long)g, (long)d, "conversion to long");
                    eq((short)((int)g % 100), (short)((int)d % 100), "conversion to short");
                    long double ld = g;
                    eq(ld, (long double)d, "conversion to long double");
                }
            }
            else {
                throws([&]() { double d = g; (void)d; }, "conversion to double of a text that is no number");
                throws([&]() { int d = g; (void)d; }, "conversion to int of a text that is no number");
            }
        }
        else if (n) { throws([&]() { g.getNumber(); }, "getNumber() of a list"); }
    }
    if (grouped(k)) {
        std::vector<Strs> vv = g;
        check(vv == w.groups, "conversion to vector of vectors shows other groups");
    }
    else { throws([&]() { g.operator std::vector<std::vector<std::string> >(); }, "conversion to vector of vectors"); }
    for (size_t past = n; refusals() && past < n + 3; ++past) {
        ++C().comparisons;
        bool thrown = false;
        try { g[past]; }
        catch (const std::exception&) { thrown = true; }
        if (!thrown) { fail("index " + str(past) + " of a list with " + str(n) + " elements returns something"); }
    }
}

} // namespace mc
#endif
