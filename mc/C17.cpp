// C17: usage layout keeps all text and the configured columns for any widths.
// The generated text is parsed back against the layout rules; several readings
// are tracked at once where blank lines make it ambiguous.
#include "usage.hpp"
using namespace mc;

struct W { size_t pad, args, sep, help; };
typedef std::set<size_t> Ends;

static Strs rawLines(const std::string& u) {
    Strs r(1);
    for (char ch : u) {
        if (ch == '\n') { r.push_back(""); }
        else { r.back() += ch; }
    }
    return r;
}
static Strs textLines(const std::string& t) { // explicit lines of a text
    Strs r;
    if (t.empty()) { return r; }
    r = rawLines(t);
    if (r.back().empty()) { r.pop_back(); }
    return r;
}
static bool allBlank(const std::string& s) { return s.find_first_not_of(' ') == std::string::npos; }

// ends (indices in out) after which line L of a text, wrapped to width, is complete
struct Wrap {
    const Strs& out;
    size_t width, col; // continuation lines start with col blanks
    std::string first; // content of out[start] behind its column, when given
    bool useFirst;
    std::string content(size_t i, bool isFirst, bool* ok) const {
        *ok = true;
        if (isFirst && useFirst) { return first; }
        const std::string& l = out[i];
        if (l.size() < col) {
            *ok = allBlank(l);
            return "";
        }
        *ok = allBlank(l.substr(0, col));
        return l.substr(col);
    }
    void line(const std::string& L, size_t pos, size_t i, bool isFirst, Ends& ends) const {
        if (i >= out.size()) { return; }
        bool ok;
        std::string o = content(i, isFirst, &ok);
        if (!ok || L.compare(pos, o.size(), o) != 0) { return; }
        if (o.size() > width && o.find(' ') <= width) { return; } // a blank would have allowed to break
        size_t p = pos + o.size();
        if (p == L.size() || allBlank(L.substr(p))) { ends.insert(i + 1); }
        if (p < L.size() && L[p] == ' ') { // broken here; the blanks around the break may be dropped
            for (size_t q2 = p + 1; q2 <= L.size(); ++q2) {
                line(L, q2, i + 1, false, ends);
                if (q2 == L.size() || L[q2] != ' ') { break; }
            }
        }
    }
    Ends text(const std::string& t, size_t start) const {
        Ends at;
        at.insert(start);
        Strs ls = textLines(t);
        if (ls.empty()) { ls.push_back(""); }
        bool isFirst = true;
        for (auto& L : ls) {
            Ends next;
            for (auto i : at) { line(L, 0, i, isFirst, next); }
            at = next;
            isFirst = false;
        }
        return at;
    }
};

static void layout(const std::string& u, const std::vector<Spec>& args, const std::string& binary, const std::string& desc, const std::string& epi, const W& w) {
    Strs out = rawLines(u);
    size_t total = w.pad + w.args + w.sep + w.help, col = w.pad + w.args + w.sep;
    std::vector<size_t> o = listing(args);
    Strs items;
    bool opt = false, pos = false;
    for (auto& a : args) { (isPos(a.kind) ? pos : opt) = true; }
    for (auto i : o) {
        if (!isPos(args[i].kind)) { items.push_back(synopsisOf(args[i])); }
    }
    if (opt && pos) { items.push_back("--"); }
    for (auto i : o) {
        if (isPos(args[i].kind)) { items.push_back(synopsisOf(args[i])); }
    }
    // synopsis
    std::string head = "usage: " + basenameOf(binary);
    size_t i = 0, next = 0;
    check(out[0].compare(0, head.size(), head) == 0, "the usage does not start with the program name");
    for (; i < out.size(); ++i) {
        std::string l = out[i];
        if (i > 0 && l.empty()) { break; }
        size_t n = 0, p = head.size();
        if (i > 0) {
            check(allBlank(l.substr(0, p)), ("synopsis line not indented to the program name: " + q(l)).c_str());
            if (allBlank(l)) { continue; }
        }
        while (p < l.size()) {
            if (l[p] != ' ' || next >= items.size() || l.compare(p + 1, items[next].size(), items[next]) != 0) { fail("synopsis line " + q(l) + " where " + (next < items.size() ? q(items[next]) : "nothing") + " is expected at column " + str(p + 1)); }
            p += 1 + items[next].size();
            ++next;
            ++n;
        }
        ++C().comparisons;
        if (l.size() > total && n > 1) { fail("synopsis line longer than the width " + str(total) + ": " + q(l)); }
    }
    eq(next, items.size(), "arguments in the synopsis");
    Ends at;
    at.insert(i);
    auto blank = [&](Ends in) { // an empty line
        Ends r;
        for (auto x : in) {
            if (x < out.size() && out[x].empty()) { r.insert(x + 1); }
        }
        return r;
    };
    auto need = [&](const Ends& e, const std::string& what) {
        ++C().comparisons;
        if (e.empty()) { fail(what + " not laid out as documented\n--- usage\n" + u); }
    };
    auto plain = [&](const std::string& t, const char* what) {
        if (t.empty()) { return; }
        Ends r;
        for (auto x : blank(at)) {
            Wrap wr = {out, total, 0, "", false};
            for (auto e : wr.text(t, x)) { r.insert(e); }
        }
        need(r, what);
        at = r;
    };
    plain(desc, "description");
    for (int p = 1; p >= 0; --p) {
        if (!(p ? pos : opt)) { continue; }
        std::string h = p ? "positional arguments:" : "optional arguments:";
        Ends r;
        for (auto x : blank(at)) {
            if (x < out.size() && out[x] == h) { r.insert(x + 1); }
        }
        need(r, h);
        at = r;
        for (auto k : o) {
            const Spec& s = args[k];
            if (isPos(s.kind) != (p == 1)) { continue; }
            std::string name = entryName(s), help = entryHelp(s);
            Ends e;
            for (auto x : at) {
                if (x >= out.size()) { continue; }
                const std::string& l = out[x];
                if (l.size() < w.pad || !allBlank(l.substr(0, w.pad)) || l.compare(w.pad, name.size(), name) != 0) { continue; }
                if (name.size() <= w.args) {
                    std::string gap = l.substr(w.pad + name.size(), col - w.pad - name.size());
                    if (!allBlank(gap) || (l.size() < col && !help.empty())) { continue; }
                    Wrap wr = {out, w.help, col, l.size() < col ? "" : l.substr(col), true};
                    for (auto y : wr.text(help, x)) { e.insert(y); }
                }
                else {
                    if (!allBlank(l.substr(w.pad + name.size()))) { continue; }
                    Wrap wr = {out, w.help, col, "", false};
                    for (auto y : wr.text(help, x + 1)) { e.insert(y); }
                }
            }
            need(e, "entry of " + name);
            at = e;
        }
    }
    plain(epi, "epilog");
    ++C().comparisons;
    if (!at.count(out.size())) { fail("something follows the documented end of the usage\n--- usage\n" + u); }
}

static void one(const std::vector<Spec>& args, const std::string& binary, const std::string& desc, const std::string& epi, const W& w) {
    C().describe = [&]() {
        Cfg c;
        c.helpExc = c.verExc = false;
        c.args = args;
        return cppCfg(c) + "args.setBinaryName(" + q(binary) + "); args.setDescription(" + q(desc) + "); args.setEpilog(" + q(epi) + ");\nargs.setUsageWidth(" + str(w.pad) + ", " + str(w.args) + ", " +
               str(w.sep) + ", " + str(w.help) + "); args.getUsage();";
    };
    Cfg c;
    c.args = args;
    blet::Args a;
    build(a, c);
    a.setBinaryName(binary.c_str());
    a.setDescription(desc.c_str());
    a.setEpilog(epi.c_str());
    a.setUsageWidth(w.pad, w.args, w.sep, w.help);
    std::string u = a.getUsage();
    // every word, in order, once
    std::string got = squeeze(u), want = squeeze(joined(expectedUsage(args, binary, desc, epi)));
    if (w.sep == 0) { // name and help may touch
        got.erase(std::remove(got.begin(), got.end(), ' '), got.end());
        want.erase(std::remove(want.begin(), want.end(), ' '), want.end());
    }
    eqs(got, want, "words of the usage");
    layout(u, args, binary, desc, epi, w);
    steps(args.size() + 1);
    validated();
    state(u);
    sample();
    C().describe = nullptr;
}

static std::vector<W> grid() {
    std::vector<W> r;
    for (size_t pad : {0, 2, 5}) {
        for (size_t args : {0, 1, 5, 6, 7, 20}) {
            for (size_t sep : {0, 2}) {
                for (size_t help : {0, 1, 4, 5, 6, 10, 56}) { r.push_back({pad, args, sep, help}); }
            }
        }
    }
    return r;
}
static void texts(const std::vector<size_t>& lens, const Strs& seps, size_t words, const std::vector<W>& ws, bool edges) {
    uint64_t per = lens.size() * seps.size();
    for (size_t n = 0; n <= words; ++n) {
        uint64_t total = 1;
        for (size_t i = 0; i < n; ++i) { total *= per; }
        if (n) { total /= seps.size(); }
        for (uint64_t x = 0; x < total; ++x) {
            std::string t;
            uint64_t y = x;
            for (size_t i = 0; i < n; ++i) {
                size_t len = lens[y % lens.size()];
                y /= lens.size();
                if (i) {
                    t += seps[y % seps.size()];
                    y /= seps.size();
                }
                for (size_t k = 0; k < len; ++k) { t += (char)('a' + (i * 7 + k) % 26); }
            }
            for (int edge = 0; edge < (edges ? 6 : 1); ++edge) {
                std::string d = edge == 1 ? " " + t : edge == 2 ? t + " " : edge == 3 ? t + "\n" : edge == 4 ? "\n" + t : edge == 5 ? "  " + t + "  \n " : t;
                for (auto& w : ws) {
                    if (!take()) { continue; }
                    std::vector<Spec> v;
                    Spec a(S({"-a"}), K_BOOL, 0), b(S({"-n", "--nm"}), K_SIMPLE, 1, true), c(S({"posit"}), K_POS, 1, false, S({"d e"})), e(S({"--opt"}), K_INF, 1);
                    a.help = b.help = c.help = e.help = d;
                    e.metavar = "M V";
                    v = {a, b, c, e};
                    one(v, "prog", d, d, w);
                }
            }
        }
    }
}
static void synopsis() {
    for (size_t bin : {0, 1, 9, 30}) {
        for (size_t nopt = 0; nopt <= 7; ++nopt) {
            for (size_t npos = 0; npos <= 4; ++npos) {
                for (unsigned mix = 0; mix < 8; ++mix) {
                    for (size_t help = 0; help <= (thorough() ? 100u : 72u); help += (thorough() ? 1 : 3)) {
                        if (!take()) { continue; }
                        std::vector<Spec> v;
                        for (size_t i = 0; i < nopt; ++i) {
                            size_t len = 1 + (i * 3 + mix) % 9;
                            Spec s(Strs(1, "--" + std::string(len, (char)('a' + i))), i % 3 == 0 ? K_BOOL : i % 3 == 1 ? K_SIMPLE : K_NUMBER, i % 3 == 0 ? 0 : i % 3 == 1 ? 1 : 2, (i + mix) % 2);
                            v.push_back(s);
                        }
                        for (size_t i = 0; i < npos; ++i) {
                            Kind k = posKinds()[(i + mix) % 4];
                            Spec s(Strs(1, "p" + std::string((i * 5 + mix) % 11, (char)('a' + i))), k, k == K_POS || k == K_POSINF ? 1 : 2, i % 2);
                            v.push_back(s);
                        }
                        W w = {mix & 1u, 2, mix & 2u, help};
                        one(v, std::string(bin, 'x'), "", "", w);
                    }
                }
            }
        }
    }
}
static void names() { // entry names of every length around every column width
    for (size_t len = 3; len <= 30; ++len) {
        for (size_t width = 0; width <= 32; ++width) {
            for (size_t sep = 0; sep <= 3; ++sep) {
                for (int k = 0; k < 3; ++k) {
                    for (auto help : {"", "one two", "first\nsecond line here"}) {
                        if (!take()) { continue; }
                        std::vector<Spec> v;
                        if (k == 2) { v.push_back(Spec(Strs(1, std::string(len, 'p')), K_POS, 1, false, S({"def"}))); }
                        else { v.push_back(Spec(Strs(1, "--" + std::string(len - 2, 'o')), k ? K_SIMPLE : K_BOOL, k ? 1 : 0, k == 0)); }
                        v[0].help = help;
                        W w = {2, width, sep, 12};
                        one(v, "p", "", "", w);
                    }
                }
            }
        }
    }
}

static void wide() { // widths around every power of two an implementation could store them in
    size_t big[] = {64, 127, 128, 129, 199, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 4096, 32767, 32768, 65535, 65536, 65537, 70000};
    for (int field = 0; field < 5; ++field) {
        for (size_t b : big) {
            for (size_t other = 0; other <= 6; other += 3) {
                for (size_t words : {0, 1, 12, 60, 300}) {
                    for (int k = 0; k < 2; ++k) {
                        W w = {other ? 2u : 0u, other, other ? 2u : 0u, 4 + other};
                        if (field == 4 && b > 2000) { continue; }
                        if (!take()) { continue; }
                        (field == 0 ? w.pad : field == 1 ? w.args : field == 2 ? w.sep : w.help) = b;
                        if (field == 4) { w = {b, b, b, b}; }
                        std::string t;
                        for (size_t i = 0; i < words; ++i) { t += (i ? i % 17 == 16 ? "\n" : " " : "") + std::string(1 + (i * 5) % 9, (char)('a' + i % 26)); }
                        std::vector<Spec> v;
                        v.push_back(Spec(S({"-a"}), K_BOOL, 0));
                        v.push_back(Spec(Strs(1, "--" + std::string(k ? b < 2000 ? b - 2 : 300 : 5, 'o')), K_SIMPLE, 1, false, S({"def"})));
                        v.push_back(Spec(S({"posit"}), K_POS, 1, true));
                        for (auto& s : v) { s.help = t; }
                        one(v, "prog", words < 100 ? t : "d", words < 100 ? "e" : t, w);
                    }
                }
            }
        }
    }
}

void explore() {
    wide();
    names();
    synopsis();
    std::vector<W> g = grid(), def = {{2, 20, 2, 56}, {0, 0, 0, 80}, {4, 10, 4, 70}}, few = {{0, 0, 0, 0}, {2, 1, 0, 1}, {0, 5, 2, 5}, {2, 6, 2, 10}, {5, 20, 2, 6}};
    texts({1, 4, 5, 6, 11}, S({" ", "  ", "\n"}), 2, g, true);
    texts({1, 4, 5, 6, 11}, S({" ", "\t", "\t\t", " \t", "\t "}), 2, few, true);
    texts({1, 4, 6, 11}, S({" ", "\t", "\n", "\r\n", "\v"}), 3, few, false);
    texts({1, 4, 5, 6, 11}, S({" ", "   ", "\n", "\n\n", " \n "}), 3, thorough() ? g : few, false);
    if (thorough()) { texts({1, 4, 6, 11}, S({" ", "  ", "\n"}), 4, few, true); }
    texts({1, 27, 54, 55, 56, 57, 79, 80, 81}, S({" ", "  ", "\n"}), 3, def, thorough());
}
