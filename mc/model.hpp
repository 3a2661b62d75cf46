// Reference model of the documented command-line grammar, kept boring on
// purpose, plus a builder and an observer for the real object (public API only).
#ifndef MC_MODEL_HPP
#define MC_MODEL_HPP

#include "blet/args.h"
#include "engine.hpp"

namespace mc {

enum Kind {
    K_BOOL, K_RBOOL, K_HELP, K_VERSION, K_SIMPLE, K_NUMBER, K_INF, K_MULTI, K_MULTINUM, K_EXT, K_EXTNUM,
    K_POS, K_POSNUM, K_POSINF, K_POSINFNUM
};
inline const char* kindName(Kind k) {
    static const char* n[] = {"BOOL", "RBOOL", "HELP", "VERSION", "SIMPLE", "NUMBER", "INF", "MULTI", "MULTINUM", "EXT",
                              "EXTNUM", "POS", "POSNUM", "POSINF", "POSINFNUM"};
    return n[k];
}
inline bool isPos(Kind k) { return k >= K_POS; }
inline bool valueless(Kind k) { return k <= K_VERSION; }
inline bool grouped(Kind k) { return k == K_MULTINUM || k == K_EXTNUM || k == K_POSINFNUM; }
inline bool scalar(Kind k) { return k == K_SIMPLE || k == K_POS; }
inline bool flatList(Kind k) { return !valueless(k) && !grouped(k) && !scalar(k); }

struct Spec {
    Strs names;
    Kind kind;
    unsigned n; // values per use / group
    bool required;
    Strs defaults;
    std::string help, metavar;
    Spec() : kind(K_SIMPLE), n(1), required(false) {}
    Spec(const Strs& names_, Kind k, unsigned n_ = 1, bool req = false, const Strs& def = Strs()) :
        names(names_), kind(k), n(n_), required(req), defaults(def) {}
};

struct Cfg {
    std::vector<Spec> args;
    bool alternative, strict, helpExc, verExc;
    std::string version;
    Cfg() : alternative(false), strict(false), helpExc(true), verExc(true), version("1.2.3") {}
};

inline Strs S(std::initializer_list<const char*> l) {
    Strs r;
    for (auto p : l) {
        r.push_back(p);
    }
    return r;
}

inline bool shortFlag(const std::string& f) { return f.size() >= 2 && f[0] == '-' && f[1] != '-'; }
inline bool flagLess(const std::string& a, const std::string& b) {
    if (shortFlag(a) != shortFlag(b)) {
        return shortFlag(a);
    }
    return a < b;
}
inline Strs sortedFlags(Strs f) {
    std::sort(f.begin(), f.end(), flagLess);
    return f;
}
inline std::string frontName(const Spec& s) {
    return isPos(s.kind) ? s.names[0] : sortedFlags(s.names)[0];
}

// order in which arguments are listed and looked at
inline std::vector<size_t> listing(const std::vector<Spec>& a) {
    std::vector<size_t> o, r;
    for (size_t i = 0; i < a.size(); ++i) {
        if (!isPos(a[i].kind)) {
            o.push_back(i);
        }
    }
    std::sort(o.begin(), o.end(), [&](size_t x, size_t y) {
        if (a[x].required != a[y].required) {
            return a[x].required;
        }
        return flagLess(frontName(a[x]), frontName(a[y]));
    });
    for (int req = 1; req >= 0; --req) {
        for (size_t i = 0; i < a.size(); ++i) {
            if (isPos(a[i].kind) && a[i].required == (req == 1)) {
                o.push_back(i);
            }
        }
    }
    return o;
}

enum Status { OK = 0, TOKEN_ERROR, HELP, VERSION, MISSING, INVALID, OTHER };
inline const char* statusName(int s) {
    static const char* n[] = {"ok", "token error", "help", "version", "required error", "validation error",
                              "undocumented exception"};
    return n[s];
}

struct ArgState {
    bool exist;
    size_t count;
    Strs flat;                // scalar (1 element) and flat kinds
    std::vector<Strs> groups; // grouped kinds
    ArgState() : exist(false), count(0) {}
};

struct Outcome {
    int status;
    std::string name; // argument() of the error; "*" = unspecified
    std::string what;
    std::vector<ArgState> args;
    Strs additional;
    Outcome() : status(OK) {}
};

inline std::string show(const Outcome& o, const Cfg& c) {
    std::string r = statusName(o.status);
    if (o.status == TOKEN_ERROR || o.status >= MISSING) {
        return r + " naming " + q(o.name) + (o.what.empty() ? "" : " (" + o.what + ")");
    }
    if (o.status != OK) {
        return r;
    }
    for (size_t i = 0; i < o.args.size() && i < c.args.size(); ++i) {
        const ArgState& a = o.args[i];
        r += "\n    " + c.args[i].names[0] + " (" + kindName(c.args[i].kind) + "): exists=" + str(a.exist) +
             " count=" + str(a.count);
        if (grouped(c.args[i].kind)) {
            r += " groups=" + q(a.groups);
        }
        else if (!valueless(c.args[i].kind)) {
            r += " values=" + q(a.flat);
        }
    }
    return r + "\n    additional=" + q(o.additional);
}

// ---------------------------------------------------------------- the model
class Machine {
  public:
    const Cfg& c;
    std::vector<Spec> specs; // with the automatic help option
    std::map<std::string, size_t> reg;
    std::vector<ArgState> st;
    std::vector<size_t> order;
    Strs additional;
    Strs tok;
    size_t end; // index of the first "--" or number of tokens
    bool bad;
    std::string badName;

    explicit Machine(const Cfg& c_) : c(c_), specs(c_.args), end(0), bad(false) {
        bool hasHelp = false;
        for (auto& s : specs) {
            hasHelp = hasHelp || s.kind == K_HELP;
        }
        fill();
        if (!hasHelp) {
            Strs f;
            if (!reg.count("-h")) {
                f.push_back("-h");
            }
            if (!reg.count("--help")) {
                f.push_back("--help");
            }
            if (!f.empty()) {
                specs.push_back(Spec(f, K_HELP));
            }
        }
        fill();
        order = listing(specs);
    }
    void fill() {
        reg.clear();
        for (size_t i = 0; i < specs.size(); ++i) {
            for (auto& n : specs[i].names) {
                reg[n] = i;
            }
        }
    }
    static bool isShort(const std::string& t) { return t.size() >= 2 && t[0] == '-' && t[1] != '-'; }
    static bool isLong(const std::string& t) { return t.size() >= 3 && t[0] == '-' && t[1] == '-'; }
    static std::string head(const std::string& t) { return t.substr(0, t.find('=')); }
    int find(const std::string& n) const {
        auto it = reg.find(n);
        return it == reg.end() ? -1 : (int)it->second;
    }
    // does this token start with a registered option?
    bool known(const std::string& t) const {
        if (isShort(t)) {
            if (c.alternative && find("-" + head(t)) >= 0) {
                return true;
            }
            return find(t.substr(0, 2)) >= 0;
        }
        return isLong(t) && find(head(t)) >= 0;
    }
    // the parse stops at the first error
    size_t err(const std::string& n) {
        bad = true;
        badName = n;
        return 0;
    }

    // one occurrence of an option at token i; returns the last token consumed
    size_t use(size_t a, size_t i, const std::string* attached, const std::string& name) {
        const Spec& s = specs[a];
        ArgState& r = st[a];
        std::vector<Strs> groups;
        Strs values;
        switch (s.kind) {
            case K_BOOL: case K_RBOOL: case K_HELP: case K_VERSION:
                if (attached) { return err(name); }
                break;
            case K_SIMPLE: case K_MULTI:
                if (attached) { values.push_back(*attached); }
                else {
                    if (i + 1 >= end) { return err(name); }
                    values.push_back(tok[++i]);
                }
                break;
            case K_NUMBER: case K_MULTINUM: {
                if (attached) { return err(name); }
                if (i + s.n >= end) { return err(name); }
                Strs g(tok.begin() + i + 1, tok.begin() + i + 1 + s.n);
                i += s.n;
                values = g;
                groups.push_back(g);
                break;
            }
            case K_INF: case K_EXT:
                if (attached) { values.push_back(*attached); }
                else {
                    while (i + 1 < end && !known(tok[i + 1])) { values.push_back(tok[++i]); }
                }
                break;
            case K_EXTNUM:
                if (attached) { return err(name); }
                while (i + 1 < end && !known(tok[i + 1])) {
                    if (i + s.n >= end) { return err(name); }
                    groups.push_back(Strs(tok.begin() + i + 1, tok.begin() + i + 1 + s.n));
                    i += s.n;
                }
                break;
            default: break;
        }
        bool accumulate = s.kind == K_MULTI || s.kind == K_MULTINUM || s.kind == K_EXT || s.kind == K_EXTNUM;
        if (!accumulate || !r.exist) {
            r.flat.clear();
            r.groups.clear();
        }
        r.flat.insert(r.flat.end(), values.begin(), values.end());
        r.groups.insert(r.groups.end(), groups.begin(), groups.end());
        r.exist = true;
        ++r.count;
        return i;
    }
    size_t shortToken(size_t i) {
        const std::string& t = tok[i];
        bool eq = t.find('=') != std::string::npos;
        std::string name = head(t), att = eq ? t.substr(name.size() + 1) : "";
        if (c.alternative && find("-" + name) >= 0) {
            return use(find("-" + name), i, eq ? &att : 0, name.substr(1));
        }
        std::string body = name.substr(1);
        if (body.empty()) {
            return err("*");
        }
        for (size_t k = 0; k < body.size(); ++k) {
            std::string ch(1, body[k]);
            int a = find("-" + ch);
            if (a < 0) {
                return err(ch);
            }
            if (k + 1 == body.size()) {
                return use(a, i, eq ? &att : 0, ch);
            }
            if (!valueless(specs[a].kind)) { // the rest is its value
                std::string rest = t.substr(k + 2);
                return use(a, i, &rest, ch);
            }
            use(a, i, 0, ch);
        }
        return i;
    }
    size_t longToken(size_t i) {
        const std::string& t = tok[i];
        bool eq = t.find('=') != std::string::npos;
        std::string name = head(t), att = eq ? t.substr(name.size() + 1) : "";
        int a = find(name);
        if (a < 0) {
            return err(name.substr(2));
        }
        return use(a, i, eq ? &att : 0, name.substr(2));
    }
    size_t positional(size_t i, size_t limit, bool verbatim) {
        size_t k = 0;
        while (k < order.size() && !(isPos(specs[order[k]].kind) && !st[order[k]].exist)) {
            ++k;
        }
        if (k == order.size()) {
            if (c.strict) {
                return err(tok[i]);
            }
            additional.push_back(tok[i]);
            return i;
        }
        const Spec& s = specs[order[k]];
        ArgState& r = st[order[k]];
        r.exist = true;
        r.count = 1;
        switch (s.kind) {
            case K_POS:
                r.flat.push_back(tok[i]);
                return i;
            case K_POSNUM:
                if (i + s.n > limit) { return err(s.names[0]); }
                r.flat.assign(tok.begin() + i, tok.begin() + i + s.n);
                return i + s.n - 1;
            case K_POSINF:
                while (i < limit && (verbatim || !known(tok[i]))) { r.flat.push_back(tok[i++]); }
                return i - 1;
            case K_POSINFNUM:
                while (i < limit && (verbatim || !known(tok[i]))) {
                    if (i + s.n > limit) { return err(s.names[0]); }
                    r.groups.push_back(Strs(tok.begin() + i, tok.begin() + i + s.n));
                    i += s.n;
                }
                return i - 1;
            default: break;
        }
        return i;
    }
    Outcome run(const Strs& tokens) {
        Outcome o;
        tok = tokens;
        st.assign(specs.size(), ArgState());
        additional.clear();
        bad = false;
        end = 0;
        while (end < tok.size() && tok[end] != "--") {
            ++end;
        }
        for (size_t i = 0; i < end && !bad; ++i) {
            i = isShort(tok[i]) ? shortToken(i) : isLong(tok[i]) ? longToken(i) : positional(i, end, false);
        }
        for (size_t i = end + 1; i < tok.size() && !bad; ++i) {
            i = positional(i, tok.size(), true);
        }
        if (bad) {
            o.status = TOKEN_ERROR;
            o.name = badName;
            return o;
        }
        for (size_t a = 0; a < specs.size(); ++a) {
            if (specs[a].kind == K_HELP && st[a].exist) { o.status = HELP; }
        }
        for (size_t a = 0; a < specs.size() && o.status != HELP; ++a) {
            if (specs[a].kind == K_VERSION && st[a].exist) { o.status = VERSION; }
        }
        for (size_t k = 0; k < order.size() && o.status == OK; ++k) {
            if (specs[order[k]].required && !st[order[k]].exist) {
                o.status = MISSING;
                o.name = frontName(specs[order[k]]);
            }
        }
        if (o.status == OK) {
            for (size_t a = 0; a < c.args.size(); ++a) {
                if (!st[a].exist) { // defaults
                    const Spec& s = specs[a];
                    if (grouped(s.kind)) {
                        for (size_t i = 0; i + s.n <= s.defaults.size(); i += s.n) {
                            st[a].groups.push_back(Strs(s.defaults.begin() + i, s.defaults.begin() + i + s.n));
                        }
                    }
                    else if (!valueless(s.kind)) {
                        st[a].flat = s.defaults;
                    }
                    if (scalar(s.kind) && s.defaults.empty()) {
                        st[a].flat = Strs(1, "");
                    }
                }
                if (!grouped(specs[a].kind)) { st[a].groups.clear(); }
                else { st[a].flat.clear(); }
                o.args.push_back(st[a]);
            }
            o.additional = additional;
        }
        return o;
    }
};

inline Outcome expect(const Cfg& c, const Strs& tokens) {
    return Machine(c).run(tokens);
}

// -------------------------------------------------------- the real object
inline blet::args::Vector vec(const Strs& v) {
    blet::args::Vector r;
    for (auto& s : v) {
        r.push_back(s);
    }
    return r;
}

inline blet::args::Argument& define(blet::Args& a, const Spec& s) {
    blet::args::Argument& g = a.addArgument(vec(s.names));
    switch (s.kind) {
        case K_BOOL: g.action(blet::Args::STORE_TRUE); break;
        case K_RBOOL: g.action(blet::Args::STORE_FALSE); break;
        case K_HELP: g.action(blet::Args::HELP); break;
        case K_VERSION: g.action(blet::Args::VERSION); break;
        case K_NUMBER: case K_POSNUM: g.nargs(s.n); break;
        case K_INF: case K_POSINF: g.action(blet::Args::INFINITE); break;
        case K_MULTI: g.action(blet::Args::APPEND); break;
        case K_MULTINUM: g.action(blet::Args::APPEND).nargs(s.n); break;
        case K_EXT: g.action(blet::Args::EXTEND); break;
        case K_EXTNUM: g.action(blet::Args::EXTEND).nargs(s.n); break;
        case K_POSINFNUM: g.nargs(s.n).action(blet::Args::INFINITE); break;
        default: break;
    }
    if (s.required) {
        g.required();
    }
    if (!s.defaults.empty()) {
        g.defaults(vec(s.defaults));
    }
    if (!s.help.empty()) {
        g.help(s.help.c_str());
    }
    if (!s.metavar.empty()) {
        g.metavar(s.metavar.c_str());
    }
    return g;
}
inline void modes(blet::Args& a, const Cfg& c) {
    if (c.alternative) { a.setAlternative(); }
    if (c.strict) { a.setStrict(); }
    if (c.helpExc) { a.setHelpException(); }
    if (c.verExc) { a.setVersionException(); }
    a.setVersion(c.version);
}
inline void build(blet::Args& a, const Cfg& c) {
    for (auto& s : c.args) {
        define(a, s);
    }
    modes(a, c);
}

struct Argv { // mutable argv with its own storage
    std::vector<std::string> store;
    std::vector<char*> ptr;
    Argv(const Strs& tokens, const char* prog = "prog") {
        store.push_back(prog);
        store.insert(store.end(), tokens.begin(), tokens.end());
        for (auto& s : store) {
            ptr.push_back(&s[0]);
        }
        ptr.push_back(0);
    }
    int argc() const { return (int)store.size(); }
    char** argv() { return &ptr[0]; }
};

// Parse; classify by the documented exception types only.
inline Outcome parseOnly(blet::Args& a, const Strs& tokens) {
    Argv v(tokens);
    Outcome o;
    try {
        a.parseArguments(v.argc(), v.argv());
    }
    catch (const blet::Args::HelpException& e) { o.status = HELP; o.what = e.what(); }
    catch (const blet::Args::VersionException& e) { o.status = VERSION; o.what = e.what(); }
    catch (const blet::Args::ParseArgumentRequiredException& e) { o.status = MISSING; o.name = e.argument(); o.what = e.what(); }
    catch (const blet::Args::ParseArgumentValidException& e) { o.status = INVALID; o.name = e.argument(); o.what = e.what(); }
    catch (const blet::Args::ParseArgumentException& e) { o.status = TOKEN_ERROR; o.name = e.argument(); o.what = e.what(); }
    catch (const std::exception& e) { o.status = OTHER; o.what = e.what(); }
    return o;
}
inline ArgState readArg(const blet::args::Argument& g, Kind k) {
    ArgState r;
    r.exist = g.isExists();
    r.count = g.count();
    if (valueless(k)) {
        return r;
    }
    if (scalar(k)) {
        r.flat.push_back(g.getString());
    }
    else if (grouped(k)) {
        for (size_t i = 0; i < g.size(); ++i) {
            Strs v;
            for (size_t j = 0; j < g[i].size(); ++j) {
                v.push_back(g[i][j].getString());
            }
            r.groups.push_back(v);
        }
    }
    else {
        for (size_t i = 0; i < g.size(); ++i) {
            r.flat.push_back(g[i].getString());
        }
    }
    return r;
}
inline void readAll(const blet::Args& a, const Cfg& c, Outcome& o) {
    for (auto& s : c.args) {
        o.args.push_back(readArg(a.getArgument(s.names[0]), s.kind));
    }
    o.additional = a.getAdditionalArguments();
}
inline Outcome observe(const Cfg& c, const Strs& tokens) {
    blet::Args a;
    build(a, c);
    Outcome o = parseOnly(a, tokens);
    if (o.status == OK) {
        readAll(a, c, o);
    }
    return o;
}

// ------------------------------------------------------------- comparison
enum Mask { M_STATUS = 1, M_NAME = 2, M_EXIST = 4, M_COUNT = 8, M_VALUES = 16, M_ADDITIONAL = 32, M_ALL = 63 };

inline std::string diff(const Outcome& got, const Outcome& want, const Cfg& c, int mask, int statusMask = ~0) {
    std::string why;
    if (got.status != want.status) {
        if ((mask & M_STATUS) && ((statusMask >> want.status & 1) || (statusMask >> got.status & 1))) {
            why = "outcome differs";
        }
    }
    else if (want.status == TOKEN_ERROR || want.status >= MISSING) {
        if ((mask & M_NAME) && want.name != "*" && got.name != want.name) {
            why = "error names another argument";
        }
    }
    else if (want.status == OK) {
        for (size_t i = 0; i < want.args.size() && why.empty(); ++i) {
            const ArgState &g = got.args[i], &w = want.args[i];
            if ((mask & M_EXIST) && g.exist != w.exist) { why = "existence differs: " + c.args[i].names[0]; }
            else if ((mask & M_COUNT) && g.count != w.count) { why = "count differs: " + c.args[i].names[0]; }
            else if ((mask & M_VALUES) && (g.flat != w.flat || g.groups != w.groups)) { why = "values differ: " + c.args[i].names[0]; }
        }
        if (why.empty() && (mask & M_ADDITIONAL) && got.additional != want.additional) {
            why = "additional arguments differ";
        }
    }
    if (why.empty()) {
        return why;
    }
    return why + "\n  expected: " + show(want, c) + "\n  observed: " + show(got, c);
}

inline void put(std::string& r, const Strs& v) {
    for (auto& x : v) {
        r += x;
        r += '\1';
    }
    r += '\2';
}
inline std::string canon(const Outcome& o) { // canonical outcome, for counting states
    std::string r(1, (char)('0' + o.status));
    r += o.name;
    for (auto& a : o.args) {
        r += a.exist ? '\3' : '\4';
        r += (char)('0' + a.count);
        put(r, a.flat);
        for (auto& g : a.groups) {
            put(r, g);
        }
        r += '\5';
    }
    put(r, o.additional);
    return r;
}

// ------------------------------------------------- rendering as a program
inline std::string cppStr(const Strs& v) {
    std::string r = "{";
    for (size_t i = 0; i < v.size(); ++i) {
        r += (i ? ", " : "") + q(v[i]);
    }
    return r + "}";
}
inline std::string cppSpec(const Spec& s) {
    std::string r = "args.addArgument(" + cppStr(s.names) + ")";
    switch (s.kind) {
        case K_BOOL: r += ".action(args.STORE_TRUE)"; break;
        case K_RBOOL: r += ".action(args.STORE_FALSE)"; break;
        case K_HELP: r += ".action(args.HELP)"; break;
        case K_VERSION: r += ".action(args.VERSION)"; break;
        case K_NUMBER: case K_POSNUM: r += ".nargs(" + str(s.n) + ")"; break;
        case K_INF: case K_POSINF: r += ".action(args.INFINITE)"; break;
        case K_MULTI: r += ".action(args.APPEND)"; break;
        case K_MULTINUM: r += ".action(args.APPEND).nargs(" + str(s.n) + ")"; break;
        case K_EXT: r += ".action(args.EXTEND)"; break;
        case K_EXTNUM: r += ".action(args.EXTEND).nargs(" + str(s.n) + ")"; break;
        case K_POSINFNUM: r += ".nargs(" + str(s.n) + ").action(args.INFINITE)"; break;
        default: break;
    }
    if (s.required) { r += ".required()"; }
    if (!s.defaults.empty()) { r += ".defaults(" + cppStr(s.defaults) + ")"; }
    if (!s.help.empty()) { r += ".help(" + q(s.help) + ")"; }
    if (!s.metavar.empty()) { r += ".metavar(" + q(s.metavar) + ")"; }
    return r + ";";
}
inline std::string cppCfg(const Cfg& c) {
    std::string r = "blet::Args args;\n";
    for (auto& s : c.args) {
        r += cppSpec(s) + "\n";
    }
    if (c.alternative) { r += "args.setAlternative();\n"; }
    if (c.strict) { r += "args.setStrict();\n"; }
    if (c.helpExc) { r += "args.setHelpException();\n"; }
    if (c.verExc) { r += "args.setVersionException();\n"; }
    return r;
}
inline std::string cppParse(const Strs& t) {
    std::string r = "args.parseArguments(" + str(t.size() + 1) + ", {\"prog\"";
    for (auto& s : t) {
        r += ", " + q(s);
    }
    return r + "});";
}

// --------------------------------------------- exhaustive token sequences
// Runs body on every sequence of length 0..depth over `alphabet`.  A token
// that starts with '%' is a plain value made unique by its position.
inline std::string instantiate(const std::string& t, size_t pos) {
    size_t p = t.find('%');
    if (p == std::string::npos) {
        return t;
    }
    return t.substr(0, p) + "v" + str(pos) + t.substr(p + 1);
}
template<typename F>
inline void sequences(const Strs& alphabet, size_t minLen, size_t maxLen, F body) {
    uint64_t k = alphabet.size();
    for (size_t len = minLen; len <= maxLen; ++len) {
        uint64_t total = 1;
        for (size_t i = 0; i < len; ++i) {
            total *= k;
        }
        if (skipBlock(total)) {
            continue;
        }
        for (uint64_t x = 0; x < total; ++x) {
            if (!take()) {
                continue;
            }
            Strs t(len);
            uint64_t y = x;
            for (size_t i = len; i-- > 0;) {
                t[i] = instantiate(alphabet[y % k], i + 1);
                y /= k;
            }
            body(t);
        }
    }
}

// Executions of the implementation compared with the model, for one
// definition set.
class Conformance {
  public:
    Cfg c;
    int mask, statusMask;
    Machine m;
    explicit Conformance(const Cfg& c_, int mask_ = M_ALL, int statusMask_ = ~0) :
        c(c_), mask(mask_), statusMask(statusMask_), m(c) {}
    Conformance(const Conformance&) = delete;
    Outcome operator()(const Strs& t) {
        C().describe = [this, &t]() { return cppCfg(c) + cppParse(t); };
        Outcome want = m.run(t);
        Outcome got = observe(c, t);
        ++C().comparisons;
        std::string d = diff(got, want, c, mask, statusMask);
        steps(t.size() + 1);
        validated();
        state(canon(want));
        sample();
        if (!d.empty()) {
            fail(d);
        }
        C().describe = nullptr;
        return want;
    }
};
inline Outcome conform(const Cfg& c, const Strs& t, int mask = M_ALL, int statusMask = ~0) {
    return Conformance(c, mask, statusMask)(t);
}

} // namespace mc

#endif
