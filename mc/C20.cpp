// C20: the header-only form behaves like the compiled library.
// Each case writes everything observable into a transcript; the driver
// compares the transcripts of the two builds case by case.
#include "observe.hpp"
#include "grand.hpp"
#include "forms.hpp"
#include "child.hpp"
#include <deque>
#include <sys/wait.h>
#include <unistd.h>
using namespace mc;

std::string otherUnit(int argc, char** argv, bool strict);
blet::Args* otherObject();

static void rec(const std::string& text) {
    C().transcript.push_back((uint32_t)(fnv(text) ^ (fnv(text) >> 32)));
    if (C().verbose) {
        if (C().describe) { printf("%s\n", C().describe().c_str()); }
        printf("%s\n", text.c_str());
    }
    ++C().comparisons;
    validated();
    state(text);
    sample();
    C().describe = nullptr;
}
template<typename F>
static std::string guarded(F f) {
    try { return f(); }
    catch (const Args::HelpException& e) { return std::string("HelpException ") + e.what() + "\n"; }
    catch (const Args::VersionException& e) { return std::string("VersionException ") + e.what() + "\n"; }
    catch (const Args::ParseArgumentRequiredException& e) { return std::string("ParseArgumentRequiredException ") + e.argument() + ": " + e.what() + "\n"; }
    catch (const Args::ParseArgumentValidException& e) { return std::string("ParseArgumentValidException ") + e.argument() + ": " + e.what() + "\n"; }
    catch (const Args::ParseArgumentException& e) { return std::string("ParseArgumentException ") + e.argument() + ": " + e.what() + "\n"; }
    catch (const Args::ArgumentException& e) { return std::string("ArgumentException ") + e.argument() + ": " + e.what() + "\n"; }
    catch (const Args::AccessDeniedException& e) { return std::string("AccessDeniedException ") + e.argument() + ": " + e.what() + "\n"; }
    catch (const Args::Exception& e) { return std::string("Exception ") + e.what() + "\n"; }
    catch (const std::exception& e) { return std::string("std::exception ") + e.what() + "\n"; }
}
static std::string parse(Args& a, const Strs& t) {
    return guarded([&]() {
        Argv v(t, "path/prog");
        a.parseArguments(v.argc(), v.argv());
        return std::string("ok\n");
    });
}
static void line(const Cfg& c, const Strs& names, const Strs& t) {
    C().describe = [&]() { return cppCfg(c) + cppParse(t); };
    Args a;
    build(a, c);
    std::string r = parse(a, t);
    rec(r + dump(a, names));
    steps(t.size() + 1);
}
static void commandLines() {
    for (Kind k : optionKinds()) {
        for (auto& ps : positionalLists()) {
            for (int variant = 0; variant < 4; ++variant) {
                Cfg c;
                c.args.push_back(kit(k, variant == 1, variant == 2 ? someDefaults(kit(k), 2) : Strs()));
                c.args.push_back(Spec(S({"-q", "--quiet"}), K_BOOL, 0));
                for (size_t i = 0; i < ps.size(); ++i) {
                    Spec s = kit(ps[i], variant == 1);
                    c.args.push_back(s);
                }
                c.strict = variant == 3;
                c.alternative = variant == 2;
                std::string f = shortOf(c.args[0]), l = longOf(c.args[0]);
                Strs names = namesOf(c);
                names.push_back("-h");
                sequences({f, l, l + "=%", f + "%", "-q" + f.substr(1), "%", "--", "-" + l.substr(2), "-?", "-h"}, 0, thorough() ? 4 : 3, [&](const Strs& t) { line(c, names, t); });
            }
        }
    }
}
static Strs words(const Strs& alpha, size_t n) {
    Strs r(1), last(1);
    for (size_t i = 0; i < n; ++i) {
        Strs next;
        for (auto& p : last) {
            for (auto& c : alpha) { next.push_back(p + c); }
        }
        r.insert(r.end(), next.begin(), next.end());
        last = next;
    }
    return r;
}
static void bytes() {
    Cfg c;
    for (Kind k : optionKinds()) { c.args.push_back(kit(k)); }
    c.args.push_back(Spec(S({"--b"}), K_SIMPLE));
    c.args.push_back(kit(K_POS));
    c.args.push_back(kit(K_POSINFNUM));
    Strs names = namesOf(c), w = words(S({"-", "=", "b", "s", "x", "\xE9"}), thorough() ? 5 : 4);
    for (int alt = 0; alt < 2; ++alt) {
        c.alternative = alt;
        for (auto& x : w) {
            if (take()) { line(c, names, {x, "1", "2"}); }
        }
    }
}
// every short history of definition calls, then a parse
struct Op {
    const char* text;
    std::function<void(Args&)> f;
};
static void definitions() {
    std::vector<Op> o;
#define OP(...) o.push_back({#__VA_ARGS__, [](Args& a) { __VA_ARGS__; }})
    OP(a.addArgument(vec(S({"-s", "--simple"}))));
    OP(a.addArgument("POS"));
    OP(a.addArgument("-bad"));
    OP(a.updateArgument("-s").action(Args::HELP));
    OP(a.updateArgument("-s").action(Args::VERSION));
    OP(a.updateArgument("-s").action(Args::STORE_TRUE));
    OP(a.updateArgument("-s").action(Args::STORE_FALSE));
    OP(a.updateArgument("-s").action(Args::APPEND));
    OP(a.updateArgument("-s").action(Args::EXTEND));
    OP(a.updateArgument("-s").action(Args::INFINITE));
    OP(a.updateArgument("-s").nargs(0));
    OP(a.updateArgument("-s").nargs(2));
    OP(a.updateArgument("-s").nargs('+'));
    OP(a.updateArgument("-s").defaults(vec(S({"1"}))));
    OP(a.updateArgument("-s").defaults(vec(S({"1", "2"}))));
    OP(a.updateArgument("-s").required());
    OP(a.updateArgument("-s").flag("-t"));
    OP(a.updateArgument("POS").action(Args::INFINITE));
    OP(a.updateArgument("POS").action(Args::APPEND));
    OP(a.updateArgument("POS").nargs(2));
    OP(a.updateArgument("POS").nargs(0));
    OP(a.updateArgument("POS").defaults(vec(S({"3", "4", "5"}))));
    OP(a.updateArgument("POS").required());
    OP(a.removeArguments("-s"));
    OP(a.removeArguments(vec(S({"POS", "--none"}))));
    OP(a.clear(); a.setHelpException(); a.setVersionException());
    OP(parse(a, S({"-s", "1", "2", "p"})));
    OP(a.updateArgument("-s").valid(new Args::ValidNumber()));
    OP(a.updateArgument("-s").valid(new Args::ValidMinMax(4, 2)));
    OP(a.updateArgument("POS").valid(new Args::ValidChoise(S({"1", "p"}))));
    OP(a.updateArgument("POS").valid(new Args::ValidPath(Args::ValidPath::IS_DIR)));
    OP(a.addArgument(Vector()));
    OP(a.addArgument(""));
    OP(a.addArgument(vec(S({"-t", "NAME"}))));
    OP(a.addArgument(vec(S({"-t", "--t", "-t"}))).required());
    OP(a.addArgument("--"));
    OP(a.addArgument("-"));
    OP(a.updateArgument("POS").flag("-f"));
    OP(a.updateArgument("-s").flag("word"));
    OP(a.updateArgument("-s").flag("-"));
    OP(a.updateArgument("-s").flag("--"));
    OP(a.updateArgument("--simple").flag("-s"));
    OP(a.addArgument("-h"));
    OP(a.addArgument("--help").action(Args::STORE_FALSE));
    OP(a.addArgument(vec(S({"-v", "-h"}))).action(Args::VERSION).required());
    OP(a.addArgument("-a").required().metavar("M").help("text"));
    OP(a.setUsage("own usage"));
    OP(a.removeArguments("-h"));
    OP(a.removeArguments("-v"));
    OP(a.removeArguments(Vector()));
#undef OP
    Strs names = S({"-s", "--simple", "POS", "-t", "-h", "--help", "-v", "-a", "-f"});
    for (size_t len = 0; len <= (thorough() ? 4u : 3u); ++len) {
        uint64_t total = 1;
        for (size_t i = 0; i < len; ++i) { total *= o.size(); }
        if (skipBlock(total)) { continue; }
        for (uint64_t x = 0; x < total; ++x) {
            if (!take()) { continue; }
            std::vector<int> h(len);
            uint64_t y = x;
            for (size_t i = len; i-- > 0; y /= o.size()) { h[i] = (int)(y % o.size()); }
            C().describe = [&]() {
                std::string r = "addArgument({-s, --simple}), addArgument(POS), then\n";
                for (int k : h) { r += std::string(o[k].text) + "\n"; }
                return r;
            };
            Args a;
            a.setHelpException();
            a.setVersionException();
            a.setVersion("V");
            a.addArgument(vec(S({"-s", "--simple"})));
            a.addArgument("POS");
            std::string r;
            for (int k : h) {
                r += guarded([&]() {
                    o[k].f(a);
                    return std::string("done\n");
                });
            }
            r += parse(a, S({"-s", "3", "p", "--simple=x"})) + dump(a, names);
            r += parse(a, S({"p", "-s1"})) + dump(a, names);
            rec(r);
            steps(len + 2);
        }
    }
}
static void usages() {
    Strs texts = {"", "word", "two words", "a line\nand another one", "  blanks  inside ", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa b"};
    std::vector<size_t> widths = {0, 1, 2, 5, 8, 20, 56};
    for (auto& t : texts) {
        for (size_t p : {0, 2}) {
            for (size_t a : widths) {
                for (size_t s : {0, 2}) {
                    for (size_t h : widths) {
                        if (!take()) { continue; }
                        C().describe = [&]() { return "setUsageWidth(" + str(p) + ", " + str(a) + ", " + str(s) + ", " + str(h) + ") with " + q(t); };
                        Args g;
                        for (Kind k : optionKinds()) {
                            Spec x = kit(k, k == K_NUMBER, k == K_EXTNUM ? S({"1", "2", "3", "4"}) : Strs());
                            x.help = t;
                            if (k == K_MULTI) { x.metavar = t; }
                            define(g, x);
                        }
                        for (Kind k : posKinds()) {
                            Spec x = kit(k, k == K_POSNUM);
                            x.help = t;
                            define(g, x);
                        }
                        g.setDescription(t.c_str());
                        g.setEpilog(t.c_str());
                        g.setBinaryName("dir/bin");
                        g.setUsageWidth(p, a, s, h);
                        rec(g.getUsage());
                        steps(1);
                    }
                }
            }
        }
    }
}
// texts of every length at the default layout, on a new object, after clear()
// and after clear() of an object that was laid out, named and set differently
static std::string settings(Args& a) {
    return str(a.isAlternative()) + str(a.isStrict());
}
static void lengths() {
    for (int before = 0; before < 8; ++before) {
        for (size_t n = 0; n <= 130; ++n) {
            if (!take()) { continue; }
            C().describe = [&]() { return "texts of length " + str(n) + ", history " + str(before); };
            Args a;
            if (before >= 2) {
                if (before & 1) { a.setUsageWidth(7, 11, 5, 33); }
                if (before & 2) { a.setAlternative().setStrict().setHelpException().setVersionException(); }
                if (before & 4) {
                    a.setBinaryName("x/y"); a.setVersion("9"); a.setDescription("de"); a.setEpilog("ep"); a.setUsage("us");
                    a.addArgument(vec(S({"-h", "--hello"}))).action(Args::HELP);
                    a.addArgument(vec(S({"-v"}))).action(Args::VERSION);
                    a.addArgument("P").required();
                }
            }
            std::string r;
            if (before >= 4) { r += parse(a, S({"-s"})); }
            if (before) { a.clear(); }
            std::string w(n, 'w'), lead = std::string(n / 2, 'v') + " " + std::string(n - n / 2, 'w');
            r += settings(a);
            a.addArgument("-a").help(w.c_str());
            a.addArgument(vec(S({"-b", "--bbbb"}))).help((w + " x yy").c_str()).action(Args::STORE_TRUE);
            a.addArgument("-c").help((lead + " z").c_str()).nargs(2).metavar("M");
            a.addArgument("P").help(("q " + w).c_str());
            a.addArgument(vec(Strs(1, "--" + std::string(n % 40 + 1, 'l')))).help("short");
            a.addArgument("-d").metavar(w.c_str()).help("after the metavar");
            a.addArgument("-e").defaults(vec(Strs(1, w))).help("with a default");
            a.setDescription((w + " " + lead).c_str());
            a.setEpilog((lead + "\n" + w).c_str());
            a.setHelpException();
            a.setVersionException();
            r += a.getUsage();
            r += parse(a, S({"-a1", "-bc2", "3", "p", "--l"}));
            r += parse(a, S({"-h"})) + parse(a, S({"-v"})) + parse(a, S({"-help", "q", "-bc"})) + a.getUsage();
            rec(r);
            steps(6);
        }
    }
}
// the synopsis breaks at every possible margin
static void synopsis() {
    const char* bins[] = {"b", "bin-name", "dir/a-much-longer-binary-name"};
    for (auto bin : bins) {
        for (int cfg = 0; cfg < 24; ++cfg) {
            for (size_t width = 0; width <= 90; ++width) {
                if (!take()) { continue; }
                C().describe = [&]() { return "synopsis of definitions " + str(cfg) + " under the name " + bin + " at width " + str(width); };
                Args g;
                g.setBinaryName(bin);
                g.addArgument("-i").action(cfg & 1 ? Args::INFINITE : Args::NONE);
                if (cfg & 2) { g.addArgument("P").required(cfg & 1); }
                if (cfg & 4) { g.addArgument("LIST").action(Args::INFINITE); }
                if (cfg / 8 > 0) { g.addArgument(vec(S({"-s", "--simple"}))).required(); }
                if (cfg / 8 > 1) {
                    g.addArgument("--x").nargs(2).metavar("META");
                    g.addArgument("-m").action(Args::APPEND);
                    g.addArgument("NN").nargs(2);
                }
                std::string r;
                for (size_t split = 0; split < 4; ++split) {
                    g.setUsageWidth(split == 1 ? width : 0, split == 2 ? width : 0, split == 3 ? width : 0, split == 0 ? width : 0);
                    r += g.getUsage();
                }
                rec(r);
                steps(4);
            }
        }
    }
}
// conversions and bundled validators over number-like texts
template<typename T>
static std::string into(const std::string& t, bool vector) {
    return guarded([&]() {
        Args a;
        T one = T();
        std::vector<T> many;
        if (vector) { a.addArgument("-s").action(Args::EXTEND).dest(many); }
        else { a.addArgument("-s").dest(one); }
        Argv v({"-s", t}, "p");
        a.parseArguments(v.argc(), v.argv());
        std::ostringstream r;
        r.precision(20);
        r << one << " ";
        for (size_t i = 0; i < many.size(); ++i) { r << many[i] << ","; }
        return r.str() + "\n";
    });
}
static void conversions() {
    Strs texts = words(S({"0", "1", "9", "-", ".", "e"}), 3);
    for (auto x : {"127", "128", "255", "256", "32767", "32768", "65535", "2147483647", "2147483648", "4294967295", "9223372036854775807", "18446744073709551615", "1e3", "0.1", "3.14159265358979323846", "1e308", "true", "text", "/", "/nowhere", "choice", "/dev/null", __FILE__}) { texts.push_back(x); }
    for (auto& t : texts) {
        if (take()) {
            C().describe = [&]() { return "conversions of " + q(t); };
            std::string r;
            for (int v = 0; v < 2; ++v) {
                double d = atof(t.c_str());
                if (d > -100 && d < 100) { r += into<char>(t, v); }
                if (d >= 0 && d < 200) { r += into<unsigned char>(t, v); }
                if (d > -30000 && d < 30000) { r += into<short>(t, v); }
                if (d >= 0 && d < 60000) { r += into<unsigned short>(t, v); }
                if (d > -2e9 && d < 2e9) { r += into<int>(t, v); }
                if (d >= 0 && d < 4e9) { r += into<unsigned>(t, v); }
                if (d > -9e18 && d < 9.2e18) { r += into<long>(t, v) + into<long long>(t, v); }
                if (d >= 0 && d < 1.8e19) { r += into<unsigned long>(t, v) + into<unsigned long long>(t, v); }
                if (d > -1e30 && d < 1e30) { r += into<float>(t, v); }
                r += into<double>(t, v) + into<long double>(t, v) + into<std::string>(t, v);
            }
            rec(r);
            steps(20);
        }
        for (int k = 0; k < 8; ++k) {
            if (!take()) { continue; }
            C().describe = [&]() { return "bundled validator " + str(k) + " on " + q(t); };
            std::string r = guarded([&]() {
                Args a;
                Args::IValid* v = 0;
                switch (k) {
                    case 0: v = new Args::ValidNumber(); break;
                    case 1: v = new Args::ValidMinMax(0, 10); break;
                    case 2: v = new Args::ValidMinMax(10, -1); break;
                    case 3: v = new Args::ValidChoise(S({"1", "choice", "1e3"})); break;
                    case 4: v = new Args::ValidChoise(Strs()); break;
                    case 5: v = new Args::ValidPath(); break;
                    case 6: v = new Args::ValidPath(Args::ValidPath::IS_FILE); break;
                    default: v = new Args::ValidPath(Args::ValidPath::IS_DIR); break;
                }
                a.addArgument("-s").action(k % 2 ? Args::EXTEND : Args::NONE).valid(v);
                Argv x({"-s", t}, "p");
                a.parseArguments(x.argc(), x.argv());
                return "accepted " + dump(a, S({"-s"}));
            });
            rec(r);
            steps(1);
        }
    }
}
// the other translation unit uses the library in the same program
static void units() {
    for (int strict = 0; strict < 2; ++strict) {
        sequences(S({"-s", "-s%", "-i", "1", "v", "-v", "--", "-h", "--simple=v"}), 0, 4, [&](const Strs& t) {
            C().describe = [&]() { return "second translation unit parses " + q(t); };
            Argv v(t);
            std::string r = otherUnit(v.argc(), v.argv(), strict);
            Args& o = *otherObject(); // built there, used here
            o.clear();
            o.setHelpException();
            o.addArgument("-i").nargs('+');
            r += parse(o, t) + dump(o, S({"-i", "-h"}));
            rec(r);
            steps(t.size());
        });
    }
}

// every way to write a list, 1 to 20 elements
template<size_t N>
static void forms() {
    for (int form = 0; form < FORMS; ++form) {
        if (!take()) { continue; }
        Strs names = elements(N, 0, 2), values = elements(N, 1, 0), choices = elements(N, 2, 1);
        C().describe = [&]() { return str(N) + std::string(" elements as ") + kForms[form]; };
        std::vector<const char*> pn, pv, pc;
        for (size_t i = 0; i < N; ++i) {
            pn.push_back(names[i].c_str());
            pv.push_back(values[i].c_str());
            pc.push_back(choices[i].c_str());
        }
        std::string r = guarded([&]() {
            Args a;
            withForm<N>(form, &pn[0], [&](auto&& v) { a.addArgument(v).action(Args::EXTEND); });
            withForm<N>(form, &pv[0], [&](auto&& v) { a.addArgument("-1").nargs(N).defaults(v); });
            withForm<N>(form, &pc[0], [&](auto&& v) { a.addArgument("LIST").action(Args::INFINITE).valid(new Args::ValidChoise(Vector(v))); });
            Strs show = names;
            show.push_back("-1");
            show.push_back("LIST");
            std::string x = parse(a, S({"choice0", "choice3"})) + dump(a, show) + parse(a, {names[N / 2], "v", names[0] + "=w"}) + dump(a, show);
            withForm<N>(form, &pn[0], [&](auto&& v) { a.removeArguments(v); });
            return x + dump(a, show) + parse(a, S({"nochoice"}));
        });
        rec(r);
        steps(N);
    }
}
template<size_t... I>
static void allForms(std::index_sequence<I...>) {
    int dummy[] = {(forms<I + 1>(), 0)...};
    (void)dummy;
}

// ------------------------------------------------------------ destinations
template<typename T>
static std::string shown(const T& v) {
    std::ostringstream r;
    r.precision(21);
    r << v;
    return r.str();
}
static std::string shown(char v) { return str((int)v); }
static std::string shown(unsigned char v) { return str((int)v); }
static std::string shown(const char* v) { return v ? v : "NULL"; }
static std::string destLine(Args& a, const Cfg& c, const Strs& t) { return parse(a, t) + q(a.getArgument(c.args[0].names[0]).getString()); }
static std::vector<Strs> destLines(const Spec& s, const Strs& words) {
    std::vector<Strs> r = {Strs(), S({"-u"})};
    size_t n = s.kind == K_NUMBER || s.kind == K_POSNUM || grouped(s.kind) ? s.n : 1, w = 0;
    auto use = [&](Strs& t, int spelling) {
        if (valueless(s.kind)) { t.push_back(s.names[spelling % s.names.size()]); return; }
        if (!isPos(s.kind)) { t.push_back(s.names[spelling % s.names.size()]); }
        for (size_t i = 0; i < n; ++i) { t.push_back(words[w++ % words.size()]); }
    };
    for (size_t first = 0; first < words.size(); ++first) {
        w = first;
        Strs t;
        use(t, 0);
        r.push_back(t);
        use(t, 1);
        r.push_back(t);
        t.push_back("--");
        t.push_back(words[first]);
        r.push_back(t);
    }
    return r;
}
template<typename T>
static void destType(const char* tn, const Strs& words) {
    std::vector<Kind> ks = {K_BOOL, K_RBOOL};
    ks.insert(ks.end(), valueKinds().begin(), valueKinds().end());
    ks.insert(ks.end(), posKinds().begin(), posKinds().end());
    for (Kind k : ks) {
        for (int def = 0; def < (valueless(k) ? 1 : 2); ++def) {
            for (int shape = 0; shape < 3; ++shape) {
                if (shape == 0 && !scalar(k) && !valueless(k)) { continue; }
                Cfg c;
                c.args.push_back(kit(k));
                if (def) {
                    unsigned n = k == K_NUMBER || k == K_POSNUM || grouped(k) ? c.args[0].n : scalar(k) ? 1 : 3;
                    for (unsigned i = 0; i < n; ++i) { c.args[0].defaults.push_back(words[(i + 1) % words.size()]); }
                }
                for (auto& t : destLines(c.args[0], words)) {
                    if (!take()) { continue; }
                    C().describe = [&]() { return cppCfg(c) + "into " + (shape == 0 ? "" : shape == 1 ? "a vector of " : "vectors of ") + tn + "\n" + cppParse(t); };
                    T one = T();
                    std::vector<T> v;
                    std::vector<std::vector<T> > vv;
                    Args a;
                    std::string r = guarded([&]() {
                        build(a, c);
                        blet::args::Argument& g = a.updateArgument(c.args[0].names[0]);
                        if (shape == 0) { g.dest(one); }
                        if (shape == 1) { g.dest(v); }
                        if (shape == 2) { g.dest(vv); }
                        return destLine(a, c, t);
                    });
                    r += shown(one) + "|";
                    for (size_t i = 0; i < v.size(); ++i) { r += shown((T)v[i]) + ","; }
                    for (auto& x : vv) {
                        r += "(";
                        for (size_t i = 0; i < x.size(); ++i) { r += shown((T)x[i]) + ","; }
                        r += ")";
                    }
                    rec(r);
                    steps(t.size() + 1);
                }
            }
        }
    }
}
template<size_t N>
static void destChars() {
    for (Kind k : {K_BOOL, K_RBOOL, K_SIMPLE, K_POS}) {
        for (auto& text : S({"", "a", "ab", "abc", "abcd", "abcde", "abcdef", "abcdefg", "abcdefgh"})) {
            for (int given = 0; given < 2; ++given) {
                if (!take()) { continue; }
                C().describe = [&]() { return "char[" + str(N) + "] of kind " + kindName(k) + " from " + q(text); };
                char buf[N + 2];
                memset(buf, '#', N + 2);
                Cfg c;
                c.args.push_back(kit(k));
                if (!valueless(k)) { c.args[0].defaults = Strs(1, text + "d"); }
                Args a;
                build(a, c);
                a.updateArgument(c.args[0].names[0]).dest(*(char(*)[N])(buf + 1));
                Strs t;
                if (given && !isPos(k)) { t.push_back(c.args[0].names[0]); }
                if (given && !valueless(k)) { t.push_back(text); }
                std::string r = destLine(a, c, t);
                rec(r + std::string(buf, N + 2));
                steps(2);
            }
        }
    }
}
struct Any { int x; };
static std::string g_seen;
static void anyS(Any& p, bool e, const std::string& s) { g_seen += str(++p.x) + str(e) + q(s); }
static void anyV(std::vector<Any>& p, bool e, const Strs& s) { g_seen += str(e) + q(s); p.resize(s.size() + 1); }
static void anyVV(std::vector<std::vector<Any> >& p, bool e, const std::vector<Strs>& s) { g_seen += str(e) + q(s); p.resize(s.size() + 2); }
struct Marks : Args::IValid {
    int* alive;
    explicit Marks(int* n) : alive(n) { ++*alive; }
    ~Marks() { --*alive; }
    bool isValid(Strs& v) {
        g_seen += "valid" + q(v);
        for (auto& s : v) {
            if (s == "bad" || s == "v0-0") { return false; }
            s += "!";
        }
        return true;
    }
};
static void destOthers() {
    std::vector<Kind> ks = {K_BOOL, K_RBOOL};
    ks.insert(ks.end(), valueKinds().begin(), valueKinds().end());
    ks.insert(ks.end(), posKinds().begin(), posKinds().end());
    for (Kind k : ks) {
        for (int shape = 0; shape < 6; ++shape) { // with and without a conversion of one's own
            for (int val = 0; val < 4; ++val) {
                Cfg c;
                c.args.push_back(kit(k, false, val == 3 ? someDefaults(kit(k), 2) : Strs()));
                for (auto& t : destLines(c.args[0], S({"a", "bad", "c d"}))) {
                    if (!take()) { continue; }
                    C().describe = [&]() { return cppCfg(c) + "own type, shape " + str(shape) + ", validator " + str(val) + "\n" + cppParse(t); };
                    Any one = {0};
                    std::vector<Any> v;
                    std::vector<std::vector<Any> > vv;
                    int alive = 0;
                    g_seen.clear();
                    std::string r;
                    {
                        Marks own(&alive);
                        Args a;
                        r = guarded([&]() {
                            build(a, c);
                            if (val == 1) { a.updateArgument(c.args[0].names[0]).valid(new Marks(&alive)); }
                            if (val == 2) { a.updateArgument(c.args[0].names[0]).valid(&own, false); }
                            blet::args::Argument& g = a.updateArgument(c.args[0].names[0]);
                            switch (shape) {
                                case 0: g.dest(one, anyS); break;
                                case 1: g.dest(v, anyV); break;
                                case 2: g.dest(vv, anyVV); break;
                                case 3: if (scalar(k) || valueless(k)) { g.dest(one); } break; // no conversion known
                                case 4: if (!valueless(k)) { g.dest(v); } break;
                                default: if (!valueless(k)) { g.dest(vv); } break;
                            }
                            return destLine(a, c, t) + dump(a, c.args[0].names);
                        });
                        r += str(alive);
                        blet::args::Argument copy(a.getArgument(c.args[0].names[0]));
                        r += dump(copy);
                        a.updateArgument(c.args[0].names[0]).valid(new Marks(&alive));
                        r += str(alive);
                        a.clear();
                        r += str(alive);
                    }
                    rec(r + str(alive) + g_seen + str(one.x) + str(v.size()) + str(vv.size()));
                    steps(t.size() + 4);
                }
            }
        }
    }
}
static void destinations() {
    Strs numbers = S({"12", "-3", "100"}), natural = S({"12", "3", "100"}), wide = S({"1.5", "-3e2", "1234567890123", "0.1"});
    destType<bool>("bool", S({"1", "0", "2.5"}));
    destType<char>("char", numbers);
    destType<unsigned char>("unsigned char", natural);
    destType<short>("short", numbers);
    destType<unsigned short>("unsigned short", natural);
    destType<int>("int", numbers);
    destType<unsigned>("unsigned", natural);
    destType<long>("long", S({"-9007199254740993", "1e3", "1.5"}));
    destType<unsigned long>("unsigned long", S({"18446744073709551615", "1e3", "1.5"}));
    destType<long long>("long long", S({"-9007199254740993", "1e3", "1.5"}));
    destType<unsigned long long>("unsigned long long", S({"18446744073709551615", "1e3", "1.5"}));
    destType<float>("float", wide);
    destType<double>("double", wide);
    destType<long double>("long double", wide);
    destType<std::string>("std::string", S({"a", "", "longer than a short string can be"}));
    destType<const char*>("const char*", S({"a", "", "longer than a short string can be"}));
    destChars<1>();
    destChars<2>();
    destChars<3>();
    destChars<4>();
    destChars<5>();
    destChars<6>();
    destChars<7>();
    destChars<8>();
    destOthers();
}
// help and version without exceptions: what is printed, and the exit status
static void printed() {
    for (int mode = 0; mode < 3; ++mode) {
        for (int own = 0; own < 3; ++own) {
            sequences(S({"-h", "--help", "-v", "--version", "-vh", "%", "-s"}), 0, 2, [&](const Strs& t) {
                C().describe = [&]() { return "printed, mode " + str(mode) + ", own help " + str(own) + "\n" + cppParse(t); };
                rec(child([&]() {
                    Args* a = new Args();
                    if (mode & 1) { a->setHelpException(); }
                    if (mode & 2) { a->setVersionException(); }
                    a->setVersion("version 7");
                    a->setDescription("described");
                    a->addArgument(vec(S({"-v", "--version"}))).action(Args::VERSION);
                    if (own) { a->addArgument(std::string(own == 1 ? "-h" : "--help")).action(own == 1 ? Args::HELP : Args::STORE_TRUE); }
                    a->addArgument("-s").required();
                    std::string r = parse(*a, t);
                    if (write(1, r.data(), r.size()) < 0) { _exit(78); }
                }));
                bump("forked executions");
                steps(t.size());
            });
        }
    }
}

static void sweep(const Case& k) {
    C().describe = [&]() { return cppCase(k); };
    Args a;
    build(a, k.c);
    std::string r;
    for (auto& b : k.before) { r += parse(a, b); }
    r += parse(a, k.line);
    r += dump(a, namesOf(k.c));
    // again with a destination and a validator everywhere
    int shape = (int)(fnv(cppParse(k.line)) % 3), alive = 0;
    size_t n = k.c.args.size();
    std::deque<std::string> s(n);
    std::deque<Strs> v(n);
    std::deque<std::vector<Strs> > vv(n);
    {
        Args b;
        build(b, k.c);
        g_seen.clear();
        for (size_t i = 0; i < n; ++i) {
            const Spec& x = k.c.args[i];
            blet::args::Argument& g = b.updateArgument(x.names[0]);
            if (!valueless(x.kind)) { g.valid(new Marks(&alive)); }
            blet::args::Argument& h = b.updateArgument(x.names[0]);
            if (shape == 0 && (scalar(x.kind) || valueless(x.kind))) { h.dest(s[i]); }
            else if (shape == 2) { h.dest(vv[i]); }
            else { h.dest(v[i]); }
        }
        for (auto& l : k.before) { r += parse(b, l); }
        r += parse(b, k.line) + str(alive) + g_seen;
        for (size_t i = 0; i < n; ++i) { r += q(s[i]) + q(v[i]) + q(vv[i]) + q(b.getArgument(k.c.args[i].names[0]).getString()); }
    }
    rec(r + str(alive));
    steps(2 * (k.line.size() + 1 + k.before.size()));
}

void explore() {
    units();
    commandLines();
    bytes();
    definitions();
    usages();
    synopsis();
    lengths();
    conversions();
    destinations();
    allForms(std::make_index_sequence<MAXN>());
    printed();
    grand(grandLevel(0), sweep);
}
