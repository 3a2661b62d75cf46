// C18: no API history leaks, double-frees or touches invalid memory.
// Runs under address and undefined-behaviour checking; live allocations and
// live validators are counted around every single history.
#include <new>
#include "grand.hpp"

static long g_live = 0;
void* operator new(size_t n) {
    void* p = malloc(n ? n : 1);
    if (!p) { throw std::bad_alloc(); }
    ++g_live;
    return p;
}
void operator delete(void* p) noexcept {
    if (p) { --g_live; }
    free(p);
}
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void* operator new[](size_t n) { return operator new(n); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }

using namespace mc;
typedef blet::Args Args;
typedef blet::args::Argument Argument;

// every byte and the pointer array in a block of exactly its size
struct Exact {
    int argc;
    char** argv;
    explicit Exact(const Strs& t) : argc((int)t.size() + 1), argv((char**)malloc((t.size() + 2) * sizeof(char*))) {
        for (int i = 0; i < argc; ++i) { argv[i] = strdup(i ? t[i - 1].c_str() : "prog"); }
        argv[argc] = 0;
    }
    ~Exact() {
        for (int i = 0; i < argc; ++i) { free(argv[i]); }
        free(argv);
    }
};

struct V : blet::Args::IValid { // knows how often it was destroyed
    static std::set<V*> alive;
    static long destroyed;
    int mode;
    std::string text; // heap content, so that use after destruction is seen
    explicit V(int m) : mode(m), text("a text that does not fit the small buffer") { alive.insert(this); }
    ~V() {
        if (!alive.erase(this)) { fail("a validator is destroyed twice"); }
        ++destroyed;
    }
    bool isValid(Strs& v) {
        if (!alive.count(this)) { fail("a destroyed validator is called"); }
        if (mode == 1) { return false; }
        if (mode == 2) { throw std::runtime_error(text); }
        for (auto& s : v) { s += text; }
        return true;
    }
};
std::set<V*> V::alive;
long V::destroyed = 0;

struct Dests {
    std::string s;
    const char* cp;
    int i;
    bool b;
    double d;
    char c3[3];
    std::vector<std::string> vs;
    std::vector<const char*> vc;
    std::vector<int> vi;
    std::vector<std::vector<std::string> > vvs;
    std::vector<std::vector<double> > vvd;
    std::vector<char> vch;
    std::vector<std::vector<const char*> > vvc;
    char ch;
    unsigned long long u;
    Dests() : cp(0), i(0), b(false), d(0), ch(0), u(0) { c3[0] = c3[1] = c3[2] = 0; }
};
static void boom(std::string&, bool, const std::string&) { throw std::runtime_error("a conversion that throws"); }
static void boomV(std::vector<std::string>&, bool, const std::vector<std::string>&) { throw std::runtime_error("a conversion that throws"); }
static void boomVV(std::vector<std::vector<std::string> >&, bool, const std::vector<std::vector<std::string> >&) { throw std::runtime_error("a conversion that throws"); }
static void convI(int& d, bool e, const std::string& v) { d = (int)v.size() + e; }
static void convB(bool& d, bool e, const std::string& v) { d = v.empty() != e; }
static void convVec(std::vector<std::string>& d, bool e, const std::vector<std::string>& v) {
    d = v;
    d.push_back(e ? "a value that was given on the line" : "a value that was not given on the line");
}
static void convGroups(std::vector<std::vector<std::string> >& d, bool, const std::vector<std::vector<std::string> >& v) {
    d = v;
    d.push_back(std::vector<std::string>(2, "one more group with texts outside the small buffer"));
}
static void read(const Argument& g) {
    std::string d = dump(g);
    try { volatile double x = g; (void)x; }
    catch (const blet::Args::Exception&) {}
    try { g[7]; }
    catch (const std::out_of_range&) {}
}

struct World {
    Dests* dst;
    Args* a;
    V* borrowed;            // handed over without ownership
    std::vector<Argument*> copies;
    std::vector<V*> back; // handed over for ownership, then again without
    long owned;             // validators created for ownership
    World() : dst(new Dests()), a(new Args()), borrowed(0), owned(0) {
        a->setHelpException();
        a->setVersionException();
    }
    void close(bool copiesFirst) {
        if (copiesFirst) { drop(); }
        delete a;
        a = 0;
        if (!copiesFirst) { drop(); }
        delete dst;
    }
    void drop() {
        for (auto c : copies) { delete c; }
        copies.clear();
    }
    V* own(int mode) {
        ++owned;
        return new V(mode);
    }
};

struct Op {
    const char* text;
    std::function<void(World&)> run;
};
static void parse(World& w, const Strs& t) {
    Exact e(t);
    try { w.a->parseArguments(e.argc, e.argv); }
    catch (const Args::Exception&) {}
    catch (const std::runtime_error& x) {
        if (std::string(x.what()).find("a ") != 0) { throw; }
    }
}
static void defineAll(World& w) {
    w.a->addArgument(vec(S({"-s", "--simple"}))).defaults("def").help("help text");
    w.a->addArgument(vec(S({"-x"}))).action(Args::APPEND).nargs(2).defaults(vec(S({"d1", "d2", "d3", "d4"})));
    w.a->addArgument(vec(S({"PINF"}))).action(Args::INFINITE);
}
static std::vector<Op> ops() {
    std::vector<Op> o;
#define OP(t, ...) o.push_back({t, [](World& w) { (void)w; __VA_ARGS__; }})
    OP("addArgument({-s, --simple})", w.a->addArgument(vec(S({"-s", "--simple"}))));
    OP("addArgument({-x}).action(EXTEND).nargs(2)", w.a->addArgument("-x").action(Args::EXTEND).nargs(2));
    OP("addArgument(PINF).nargs(2)", w.a->addArgument("PINF").nargs(2));
    OP("addArgument({-y, -s})", w.a->addArgument(vec(S({"-y", "-s"}))));
    OP("-s: valid(new accepting)", { Argument& g = w.a->updateArgument("-s"); g.valid(w.own(0)); });
    OP("-x: valid(new refusing)", { Argument& g = w.a->updateArgument("-x"); g.valid(w.own(1)); });
    OP("PINF: valid(new throwing)", { Argument& g = w.a->updateArgument("PINF"); g.valid(w.own(2)); });
    OP("-s: valid(borrowed, false)", { Argument& g = w.a->updateArgument("-s"); g.valid(w.borrowed, false); });
    OP("-s: valid(the same one twice)", { Argument& g = w.a->updateArgument("-s"); V* v = w.own(0); g.valid(v); g.valid(v); });
    OP("-s: valid(the same one again, then with a destination)", { Argument& g = w.a->updateArgument("-s"); V* v = w.own(0); Argument& h = g.valid(v).valid(v).dest(w.dst->s); h.valid(v); });
    OP("-s: valid(owned), then valid(the same one, false)", { Argument& g = w.a->updateArgument("-s"); V* v = new V(0); w.back.push_back(v); g.valid(v); g.valid(v, false); });
    OP("-s: valid(new, false), then valid(the same one)", { Argument& g = w.a->updateArgument("-s"); V* v = w.own(0); g.valid(v, false); g.valid(v); });
    OP("-s: valid(NULL)", { Argument& g = w.a->updateArgument("-s"); g.valid(0); });
    OP("-s: dest(string)", w.a->updateArgument("-s").dest(w.dst->s));
    OP("-s: dest(char[3])", w.a->updateArgument("-s").dest(w.dst->c3));
    OP("-s: dest(const char*).dest(string, throwing)", w.a->updateArgument("-s").dest(w.dst->cp).dest(w.dst->s, boom));
    OP("-x: dest(vector<string>)", w.a->updateArgument("-x").dest(w.dst->vs));
    OP("-x: dest(vector<vector<string> >)", w.a->updateArgument("-x").dest(w.dst->vvs));
    OP("PINF: dest(vector<const char*>)", w.a->updateArgument("PINF").dest(w.dst->vc));
    OP("PINF: dest(vector<string>, throwing)", w.a->updateArgument("PINF").dest(w.dst->vs, boomV));
    OP("--simple: action(HELP)", w.a->updateArgument("--simple").action(Args::HELP));
    OP("-s: action(VERSION)", w.a->updateArgument("-s").action(Args::VERSION));
    OP("-s: flag(-t)", w.a->updateArgument("-s").flag("-t"));
    OP("-x: defaults of 3", w.a->updateArgument("-x").defaults(vec(S({"1", "2", "3"}))));
    OP("removeArguments(-s)", w.a->removeArguments("-s"));
    OP("removeArguments(-s, --simple, -s)", w.a->removeArguments(vec(S({"-s", "--simple", "-s"}))));
    OP("removeArguments(PINF)", w.a->removeArguments("PINF"));
    OP("removeArguments(-x, --help)", w.a->removeArguments(vec(S({"-x", "--help"}))));
    OP("clear()", { w.a->clear(); w.a->setHelpException(); w.a->setVersionException(); });
    OP("parse accepted", parse(w, S({"-s", "a value longer than the small buffer", "-x", "1", "2", "-x", "3", "4", "p1", "p2"})));
    OP("parse -x 1", parse(w, S({"p", "-s=1", "-x", "1"})));
    OP("parse --help", parse(w, S({"-sv", "--help"})));
    OP("parse -- -s", parse(w, S({"-x", "a", "b", "--", "-s", "--"})));
    OP("read all", {
        for (auto n : {"-s", "--simple", "-x", "PINF", "-t", "-h"}) {
            if (w.a->argumentExists(n)) { read(w.a->getArgument(n)); }
        }
        w.a->setUsageWidth(1, 3, 1, 4);
        w.a->getUsage();
    });
    OP("copies of -s and -x", {
        for (auto n : {"-s", "-x"}) {
            if (w.a->argumentExists(n)) {
                w.copies.push_back(new Argument(w.a->getArgument(n)));
                read(*w.copies.back());
            }
        }
    });
    OP("a copy with its own validator", {
        if (!w.copies.empty()) {
            w.copies.back()->valid(w.own(0));
            read(*w.copies.back());
        }
    });
#undef OP
    return o;
}

// the bundled validators, every destination shape, texts and refused definitions
static std::vector<Op> moreOps() {
    std::vector<Op> o;
#define OP(t, ...) o.push_back({t, [](World& w) { (void)w; __VA_ARGS__; }})
    OP("-s: valid(ValidNumber)", w.a->updateArgument("-s").valid(new Args::ValidNumber()));
    OP("-x: valid(ValidMinMax(9, 1))", w.a->updateArgument("-x").valid(new Args::ValidMinMax(9, 1)));
    OP("PINF: valid(ValidChoise)", w.a->updateArgument("PINF").valid(new Args::ValidChoise(vec(S({"3", "p", "a choice with a long text"})))));
    OP("-s: valid(ValidPath dir)", w.a->updateArgument("-s").valid(new Args::ValidPath(Args::ValidPath::IS_DIR)));
    OP("PINF: valid(ValidPath file)", w.a->updateArgument("PINF").valid(new Args::ValidPath(Args::ValidPath::IS_FILE)));
    OP("-x: valid(ValidPath)", w.a->updateArgument("-x").valid(new Args::ValidPath()));
    OP("-b store true into bool", w.a->addArgument(vec(S({"-b", "--bool"}))).action(Args::STORE_TRUE).dest(w.dst->b));
    OP("-b store false, validator", { Argument& g = w.a->addArgument("-b").action(Args::STORE_FALSE); g.valid(w.own(0)).dest(w.dst->c3); });
    OP("-b: dest(string)", w.a->updateArgument("-b").dest(w.dst->s));
    OP("-b: dest(const char*)", w.a->updateArgument("-b").dest(w.dst->cp));
    OP("-s: dest(int, conversion)", w.a->updateArgument("-s").dest(w.dst->i, convI));
    OP("-s: dest(bool, conversion)", w.a->updateArgument("-s").dest(w.dst->b, convB));
    OP("-s: dest(char)", w.a->updateArgument("-s").dest(w.dst->ch));
    OP("-s: dest(double)", w.a->updateArgument("-s").dest(w.dst->d));
    OP("-s: dest(unsigned long long)", w.a->updateArgument("-s").dest(w.dst->u));
    OP("-s: dest(vector<string>)", w.a->updateArgument("-s").dest(w.dst->vs));
    OP("-s: dest(vector<vector<string> >)", w.a->updateArgument("-s").dest(w.dst->vvs));
    OP("PINF: dest(vector<int>)", w.a->updateArgument("PINF").dest(w.dst->vi));
    OP("PINF: dest(vector<char>)", w.a->updateArgument("PINF").dest(w.dst->vch));
    OP("PINF: dest(vector<vector<double> >)", w.a->updateArgument("PINF").dest(w.dst->vvd));
    OP("PINF: dest(vector<string>, conversion)", w.a->updateArgument("PINF").dest(w.dst->vs, convVec));
    OP("-x: dest(vector<vector<const char*> >)", w.a->updateArgument("-x").dest(w.dst->vvc));
    OP("-x: dest(vector<vector<string> >, throwing)", w.a->updateArgument("-x").dest(w.dst->vvs, boomVV));
    OP("-x: dest(vector<vector<string> >, conversion)", w.a->updateArgument("-x").dest(w.dst->vvs, convGroups));
    OP("-x: dest(vector<int>)", w.a->updateArgument("-x").dest(w.dst->vi));
    OP("-x: nargs(3), then nargs(0)", w.a->updateArgument("-x").defaults(vec(Strs())); w.a->updateArgument("-x").nargs(3); w.a->updateArgument("-x").nargs(0));
    OP("PINF: defaults(5 values), required", w.a->updateArgument("PINF").defaults(vec(S({"3", "4", "5", "6", "a default outside the small buffer"}))).required());
    OP("-s: metavar, help", w.a->updateArgument("-s").metavar("A-METAVAR-OUTSIDE-THE-SMALL-BUFFER").help("one\ntwo three four five six seven"));
    OP("PINF: metavar, -x: metavar", w.a->updateArgument("PINF").metavar("ITEM"); w.a->updateArgument("-x").metavar("PAIR"));
    OP("setUsage, description, epilog", w.a->setUsage("an own usage line outside the small buffer"); w.a->setDescription("description"); w.a->setEpilog("epilog"));
    OP("refused names", {
        for (auto n : {"", "-", "--", "-s=", "---", "-s", "PINF", "- ", "-ab"}) {
            try { w.a->addArgument(n).help("kept").nargs(2).defaults("d"); }
            catch (const Args::Exception&) {}
        }
        for (auto& n : {S({"-q", "-s"}), S({"NAME", "OTHER"}), S({"-q", "NAME"}), S({}), S({"-q", ""}), S({"-q", "-q"})}) {
            try { w.a->addArgument(vec(n)).action(Args::INFINITE); }
            catch (const Args::Exception&) {}
        }
    });
    OP("refused changes", {
        for (auto n : {"-s", "PINF", "-x", "-b", "-h", "none"}) {
            for (int k = 0; k < 9; ++k) {
                try {
                    Argument& g = w.a->updateArgument(n);
                    switch (k) {
                        case 0: g.nargs('?'); break;
                        case 1: g.nargs(0); break;
                        case 2: g.nargs('+'); break;
                        case 3: g.flag("word"); break;
                        case 4: g.flag("-x"); break;
                        case 5: g.defaults(vec(S({"1", "2", "3", "4", "5"}))); break;
                        case 6: g.action(Args::STORE_TRUE); break;
                        case 7: g.action(Args::NONE); break;
                        default: g.action(Args::APPEND); break;
                    }
                }
                catch (const Args::Exception&) {}
            }
        }
    });
    OP("own -h and --help", w.a->addArgument("-h").action(Args::HELP); w.a->addArgument("--help").dest(w.dst->s));
    OP("removeArguments(--help), removeArguments(-b, none)", w.a->removeArguments("--help"); w.a->removeArguments(vec(S({"-b", "none"}))));
    OP("alternative, strict, binary name", w.a->setAlternative(!w.a->isAlternative()).setStrict().setBinaryName("a name outside the small buffer"));
    OP("parse numbers", parse(w, S({"-s3", "-x", "1", "2", "-x", "4", "5", "3", "4", "-b"})));
    OP("parse words", parse(w, S({"-s", "word", "--bool", "-x", "w", "v", "p", "a choice with a long text"})));
    OP("parse paths", parse(w, S({"-simple", "/", "-s=/", "-x", "/dev/null", "/nowhere", "/dev/null"})));
    OP("parse nothing", parse(w, S({})));
    OP("parse p --he --help= -b=1", parse(w, S({"p", "-b", "--he", "--help=1"})));
    OP("read and print", {
        for (auto n : {"-s", "-x", "PINF", "-b", "-h"}) {
            if (w.a->argumentExists(n)) { read(w.a->getArgument(n)); }
        }
        w.a->getUsage();
    });
    OP("a copy of each", {
        for (auto n : {"-s", "-x", "PINF", "-b"}) {
            if (w.a->argumentExists(n)) {
                w.copies.push_back(new Argument(w.a->getArgument(n)));
                Argument x(*w.copies.back());
                read(x);
            }
        }
    });
#undef OP
    return o;
}

// who owns the help and the version option, on very small objects
static std::vector<Op> ownerOps() {
    std::vector<Op> o;
#define OP(t, ...) o.push_back({t, [](World& w) { (void)w; __VA_ARGS__; }})
    OP("addArgument(-h, HELP)", w.a->addArgument("-h").action(Args::HELP));
    OP("addArgument(--help)", w.a->addArgument("--help"));
    OP("addArgument({-v, -V}, VERSION)", w.a->addArgument(vec(S({"-v", "-V"}))).action(Args::VERSION));
    OP("addArgument(P)", w.a->addArgument("P"));
    OP("--help: HELP", w.a->updateArgument("--help").action(Args::HELP));
    OP("-h: VERSION", w.a->updateArgument("-h").action(Args::VERSION));
    OP("-v: HELP", w.a->updateArgument("-v").action(Args::HELP));
    OP("-v: NONE, -h: NONE", w.a->updateArgument("-v").action(Args::NONE); w.a->updateArgument("-h").action(Args::NONE));
    OP("removeArguments(-h)", w.a->removeArguments("-h"));
    OP("removeArguments(--help)", w.a->removeArguments("--help"));
    OP("removeArguments(-v)", w.a->removeArguments("-v"));
    OP("removeArguments({-V, -v})", w.a->removeArguments(vec(S({"-V", "-v"}))));
    OP("removeArguments(P)", w.a->removeArguments("P"));
    OP("clear", w.a->clear(); w.a->setHelpException(); w.a->setVersionException());
    OP("parse, getUsage", parse(w, S({})); w.a->getUsage());
    OP("parse -h -v", parse(w, S({"-h"})); parse(w, S({"-v"})));
#undef OP
    return o;
}

static long run(const std::vector<Op>& o, const std::vector<int>& h, bool full, bool copiesFirst) {
    long before = g_live, destroyed0 = V::destroyed;
    {
        V* borrowed = new V(0);
        World w;
        w.borrowed = borrowed;
        if (full) { defineAll(w); }
        for (int k : h) {
            try { o[k].run(w); }
            catch (const Args::Exception&) {}
        }
        if (!V::alive.count(borrowed)) { fail("a validator handed over without ownership is destroyed"); }
        long owned = w.owned;
        w.close(copiesFirst);
        if (!V::alive.count(borrowed)) { fail("a validator handed over without ownership is destroyed"); }
        for (auto v : w.back) {
            if (!V::alive.count(v)) { fail("a validator handed over again without ownership is destroyed"); }
        }
        if (V::destroyed - destroyed0 != owned) { fail("of " + str(owned) + " validators handed over for ownership, " + str(V::destroyed - destroyed0) + " were destroyed with their owner"); }
        C().comparisons += 3;
        for (auto v : w.back) { delete v; }
        delete borrowed;
    }
    return g_live - before;
}
static void histories(std::vector<Op> o, size_t depth, bool full) {
    for (size_t len = 0; len <= depth; ++len) {
        uint64_t total = 1;
        for (size_t i = 0; i < len; ++i) { total *= o.size(); }
        if (skipBlock(total)) { continue; }
        for (uint64_t x = 0; x < total; ++x) {
            if (!take()) { continue; }
            std::vector<int> h(len);
            uint64_t y = x;
            for (size_t i = len; i-- > 0; y /= o.size()) { h[i] = (int)(y % o.size()); }
            C().describe = [&]() {
                std::string r = full ? "args with {-s, --simple} (default), {-x} append 2 (defaults), PINF unbounded\n" : "empty args\n";
                for (int k : h) { r += std::string(o[k].text) + "\n"; }
                return r;
            };
            long leak = run(o, h, full, x % 2);
            ++C().comparisons;
            if (leak != 0 && run(o, h, full, x % 2) != 0) { fail(str(leak) + " allocations are not released when everything is destroyed"); }
            steps(len + 1);
            validated();
            if (len <= 3) { state(C().describe()); }
            sample();
            C().describe = nullptr;
        }
    }
}

// every kind, with the value lists parsed from exactly sized blocks
static void once(const Cfg& c, const Strs& t) {
    Args a;
    build(a, c);
    Exact e(t);
    try {
        a.parseArguments(e.argc, e.argv);
        for (auto& s : c.args) { read(a.getArgument(s.names[0])); }
    }
    catch (const Args::Exception&) {}
    a.getUsage();
}
static void measured(const std::function<void()>& f) {
    long b = g_live;
    f();
    long leak = g_live - b;
    ++C().comparisons;
    if (leak) {
        b = g_live;
        f();
        if (g_live != b) { fail(str(leak) + " allocations are not released"); }
    }
    steps(1);
    validated();
    sample();
}
static Strs words(const Strs& alpha, size_t n) {
    Strs r(1), last(1);
    for (size_t i = 0; i < n; ++i) {
        Strs next;
        for (auto& p : last) {
            for (auto& c : alpha) { next.push_back(p + c); }
        }
        r.insert(r.end(), next.begin(), next.end());
        last = next;
    }
    return r;
}
static void bytes(size_t one, size_t two) {
    Cfg c;
    for (Kind k : optionKinds()) { c.args.push_back(kit(k)); }
    c.args.push_back(Spec(S({"--b"}), K_SIMPLE));
    c.args.push_back(Spec(S({"-\xE9"}), K_EXTNUM, 3));
    c.args.push_back(kit(K_POS));
    c.args.push_back(kit(K_POSINFNUM));
    for (int alt = 0; alt < 2; ++alt) {
        c.alternative = alt;
        c.strict = alt;
        Strs w1 = words(S({"-", "=", "b", "s", "i", "\xE9"}), one), w2 = words(S({"-", "=", "b", "n", "x"}), two);
        for (auto& a : w1) {
            for (int tail = 0; tail < 2; ++tail) {
                if (!take()) { continue; }
                Strs t(1, a);
                if (tail) { t.push_back("v"); }
                C().describe = [&]() { return cppCfg(c) + cppParse(t); };
                measured([&]() { once(c, t); });
                state(a);
                C().describe = nullptr;
            }
        }
        for (auto& a : w2) {
            for (auto& b : w2) {
                if (!take()) { continue; }
                Strs t = {a, b};
                C().describe = [&]() { return cppCfg(c) + cppParse(t); };
                measured([&]() { once(c, t); });
                C().describe = nullptr;
            }
        }
    }
}
// arity boundaries with every value in a block of its own
static void arities() {
    Strs alphabet = S({"%", "-k", "-k=%", "-b", "--", "-kb", "--key"});
    for (int k = K_SIMPLE; k <= K_POSINFNUM; ++k) {
        for (unsigned n = 1; n <= 3; ++n) {
            bool several = k == K_NUMBER || k == K_POSNUM || grouped((Kind)k);
            if (several != (n > 1)) { continue; }
            Cfg c;
            c.args.push_back(Spec(isPos((Kind)k) ? S({"POS"}) : S({"-k", "--key"}), (Kind)k, n));
            c.args.push_back(Spec(S({"-b"}), K_BOOL, 0));
            sequences(alphabet, 0, thorough() ? 6 : 5, [&](const Strs& t) {
                C().describe = [&]() { return cppCfg(c) + cppParse(t); };
                measured([&]() { once(c, t); });
                C().describe = nullptr;
            });
        }
    }
}
template<size_t N>
struct Block { char text[N]; };
template<size_t N>
static void arrayOf() { // destination array alone in a heap block
    for (int k : {(int)K_SIMPLE, (int)K_POS, (int)K_BOOL, (int)K_RBOOL, (int)K_MULTI}) {
        for (size_t len = 0; len <= N + 3; ++len) {
            for (int how = 0; how < 3; ++how) {
                if (!take()) { continue; }
                Spec s = kit((Kind)k);
                std::string v(len, 'v');
                Strs t;
                if (how == 0) { t = valueless(s.kind) ? Strs(1, shortOf(s)) : isPos(s.kind) ? Strs(1, v) : Strs{shortOf(s), v}; }
                if (how == 1 && !isPos(s.kind) && !valueless(s.kind)) { t = Strs(1, longOf(s) + "=" + v); }
                C().describe = [&]() { return cppSpec(s) + ".dest(char[" + str(N) + "])\n" + cppParse(t); };
                measured([&]() {
                    Block<N>* b = (Block<N>*)malloc(sizeof(Block<N>));
                    Args a;
                    Argument& g = define(a, s);
                    if (how == 2 && !valueless(s.kind)) { g.defaults(Strs(1, v)[0]); }
                    g.dest(b->text);
                    Exact e(t);
                    bool ok = true;
                    try { a.parseArguments(e.argc, e.argv); }
                    catch (const Args::Exception&) { ok = false; }
                    volatile size_t used = strnlen(b->text, N);
                    free(b);
                    if (ok && used >= N) { fail("the destination array is not terminated", ""); }
                });
                state("array " + str(N) + str(k) + str(len));
                C().describe = nullptr;
            }
        }
    }
}
// the object is destroyed after parseArguments() has ended the process
static Args* g_atexit = 0;
static void endGlobal() { delete g_atexit; }
static void exits() {
    for (int version = 0; version < 2; ++version) {
        for (int defs = 0; defs < 4; ++defs) {
            if (!take()) { continue; }
            C().describe = [&]() { return "parsing " + std::string(version ? "-V" : "--help") + " on an object destroyed by atexit, variant " + str(defs); };
            fflush(0);
            pid_t pid = fork();
            if (pid == 0) {
                int fd = open("/dev/null", O_WRONLY);
                dup2(fd, 1);
                g_atexit = new Args();
                atexit(endGlobal);
                static std::string dest;
                if (defs & 1) { g_atexit->addArgument(vec(S({"-s", "--simple"}))).valid(new V(0)).dest(dest).required(); }
                if (defs & 2) { g_atexit->addArgument("PINF").action(Args::INFINITE).valid(new V(1)); }
                g_atexit->addArgument(vec(S({"-V", "--ver"}))).action(Args::VERSION).valid(new V(0));
                Exact e(version ? S({"-V", "p"}) : S({"--help", "p"}));
                g_atexit->parseArguments(e.argc, e.argv);
                _exit(55);
            }
            int st = 0;
            waitpid(pid, &st, 0);
            ++C().comparisons;
            if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) { fail("the process ends with wait status " + str(st) + " instead of exit status 0"); }
            validated();
            steps(1);
            C().describe = nullptr;
        }
    }
}
static void usages() { // layout arithmetic with all small widths
    for (size_t p = 0; p <= 3; ++p) {
        for (size_t a = 0; a <= 8; a += 2) {
            for (size_t s = 0; s <= 2; ++s) {
                for (size_t h = 0; h <= 12; ++h) {
                    for (auto t : {"", " ", "\n", "word", "some words here", "averyveryverylongword x", "a\n\nb \n c\n", "  lead"}) {
                        if (!take()) { continue; }
                        C().describe = [&]() { return "setUsageWidth(" + str(p) + ", " + str(a) + ", " + str(s) + ", " + str(h) + ") with texts " + q(t); };
                        measured([&]() {
                            Args g;
                            g.addArgument(vec(S({"-s", "--simple"}))).help(t).defaults(t);
                            g.addArgument("P").help(t).nargs(2);
                            g.setDescription(t);
                            g.setEpilog(t);
                            g.setBinaryName(t);
                            g.setUsageWidth(p, a, s, h);
                            volatile size_t n = g.getUsage().size();
                            (void)n;
                        });
                        C().describe = nullptr;
                    }
                }
            }
        }
    }
}

// texts around every power of two, in every place that takes one
static void lengths() {
    std::vector<size_t> sizes;
    for (size_t p = 4; p <= 65536; p *= 2) {
        for (size_t d = 0; d < 3; ++d) { sizes.push_back(p - 1 + d); }
    }
    for (size_t n : {0, 1, 2, 80, 100, 200, 1000, 10000, 100000}) { sizes.push_back(n); }
    enum { FLAG, SHORT_CLUSTER, POSITIONAL, HELP, METAVAR, DEFAULT, DEFAULTS, POS_DEFAULT, DESCRIPTION, EPILOG, BINARY, PROGRAM, VERSION, OWN_USAGE, CHOICE, VALUE, JOINED, POS_VALUE, SURPLUS, UNKNOWN, UNKNOWN_SHORT, NO_SUCH, SECOND_FLAG, BAD_NAME, ERROR_OF_VALID, PLACES };
    const char* place[] = {"flag", "short cluster", "positional name", "help", "metavar", "default", "defaults", "positional default", "description", "epilog", "binary name", "argv[0]", "version", "usage text", "choice", "value", "joined value", "positional value", "surplus word", "unknown option", "unknown cluster", "name asked for", "second flag", "refused name", "message of a validator"};
    for (int at = 0; at < PLACES; ++at) {
        for (size_t n : sizes) {
            for (int fill = 0; fill < 4; ++fill) { // one word, words, lines, and numbers
                if (!take()) { continue; }
                C().describe = [&]() { return std::string("// ") + place[at] + " of " + str(n) + (fill == 0 ? " letters" : fill == 1 ? " bytes, blank every fifth" : fill == 2 ? " bytes, line feed every fifth" : " digits"); };
                measured([&]() {
                    std::string t(n, 'x');
                    for (size_t i = 0; i < n; ++i) {
                        t[i] = fill == 3 ? (char)('0' + i % 10) : (char)('a' + i % 26);
                        if ((fill == 1 || fill == 2) && i % 5 == 4) { t[i] = fill == 1 ? ' ' : '\n'; }
                    }
                    auto in = [&](int p, const std::string& other) { return at == p ? std::string(t.c_str()) : other; };
                    auto none = [](const std::function<void()>& f) {
                        try { f(); }
                        catch (const Args::Exception&) {}
                    };
                    Dests d;
                    Args a;
                    a.setHelpException();
                    a.setVersionException();
                    std::string flag = "--" + in(FLAG, "flag"), pos = in(POSITIONAL, "POS");
                    Strs flags(1, flag);
                    flags.push_back("-f");
                    if (at == SECOND_FLAG) { flags.push_back("--" + t); }
                    none([&]() { a.addArgument(vec(flags)).dest(d.vs); });
                    none([&]() { a.updateArgument("-f").help(in(HELP, "help").c_str()).metavar(in(METAVAR, "").c_str()); });
                    if (at == DEFAULT || at == METAVAR || at == HELP) { none([&]() { a.updateArgument("-f").defaults(in(DEFAULT, "d")); }); }
                    none([&]() { a.addArgument("-l").action(Args::INFINITE).defaults(vec(Strs(2, in(DEFAULTS, "d")))).dest(d.vc); });
                    none([&]() { a.addArgument("-b").action(Args::STORE_TRUE).dest(d.b); });
                    none([&]() { a.addArgument("-c").dest(d.c3); });
                    none([&]() { a.addArgument("-g").action(Args::EXTEND).nargs(2).dest(d.vvs).help(in(HELP, "g").c_str()); });
                    none([&]() { a.addArgument("-i").dest(d.i).defaults("7"); });
                    none([&]() {
                        Strs choices;
                        choices.push_back("one");
                        choices.push_back(in(CHOICE, "two"));
                        a.addArgument("-o").valid(new blet::Args::ValidChoise(choices));
                    });
                    none([&]() { a.addArgument("-e").valid(new V(2)); });
                    none([&]() { a.addArgument(pos).dest(d.s).help(in(HELP, "p").c_str()).defaults(in(POS_DEFAULT, "pd")); });
                    none([&]() { a.addArgument("-v").action(Args::VERSION); });
                    if (at == BAD_NAME) {
                        none([&]() { a.addArgument(t + "=" + t); });
                        none([&]() { a.addArgument("--" + t + "=" + t); });
                        none([&]() { a.addArgument("-" + t); });
                        none([&]() { a.addArgument(vec(flags)); });
                        none([&]() { a.addArgument(vec(Strs(2, "--" + t))); });
                    }
                    a.setDescription(in(DESCRIPTION, "about").c_str());
                    a.setEpilog(in(EPILOG, "end").c_str());
                    if (at == BINARY) { a.setBinaryName(t.c_str()); }
                    a.setVersion(in(VERSION, "1.0").c_str());
                    if (at == OWN_USAGE) { a.setUsage(t.c_str()); }
                    std::string v = in(VALUE, "v");
                    std::vector<Strs> lines;
                    lines.push_back(vec(S({"-f"})));
                    lines.back().push_back(v);
                    lines.back().push_back("-l");
                    lines.back().push_back(v);
                    lines.back().push_back(v);
                    lines.push_back(Strs(1, flag));
                    lines.back().push_back(v);
                    lines.push_back(Strs(1, flag + "=" + in(JOINED, v)));
                    lines.push_back(Strs(1, "-f=" + in(JOINED, v)));
                    lines.push_back(Strs(1, "-f" + in(JOINED, v)));
                    lines.push_back(Strs(1, "-c=" + in(JOINED, v)));
                    lines.push_back(vec(S({"-g", "a"})));
                    lines.back().push_back(v);
                    lines.push_back(vec(S({"-g", "a"})));
                    lines.back().push_back(in(VALUE, "-f"));
                    lines.push_back(vec(S({"-i"})));
                    lines.back().push_back(v);
                    lines.push_back(vec(S({"-o"})));
                    lines.back().push_back(at == CHOICE ? t : v);
                    lines.push_back(vec(S({"-o", "one"})));
                    lines.push_back(vec(S({"-e"})));
                    lines.back().push_back(in(ERROR_OF_VALID, v));
                    lines.push_back(Strs(1, in(POS_VALUE, "p")));
                    lines.push_back(vec(S({"p"})));
                    lines.back().push_back(in(SURPLUS, "s"));
                    lines.push_back(Strs(1, "--" + in(UNKNOWN, "unknown")));
                    lines.push_back(Strs(1, "--" + in(UNKNOWN, "unknown") + "=" + in(UNKNOWN, "unknown")));
                    lines.push_back(Strs(1, "-" + in(UNKNOWN_SHORT, "u")));
                    lines.push_back(Strs(1, "-" + std::string(at == SHORT_CLUSTER ? n : 2, 'b')));
                    lines.push_back(Strs(1, "-" + std::string(at == SHORT_CLUSTER ? n : 2, 'b') + "f"));
                    lines.push_back(vec(S({"-v"})));
                    lines.push_back(vec(S({"-h"})));
                    lines.push_back(vec(S({"-f"})));
                    lines.push_back(flags);
                    for (int strict = 0; strict < 2; ++strict) {
                        if (strict) { a.setStrict(); }
                        for (auto& l : lines) {
                            for (int alt = 0; alt < 2; ++alt) {
                                if (alt) { a.setAlternative(); }
                                Exact e(l);
                                std::string program = in(PROGRAM, "prog");
                                free(e.argv[0]);
                                e.argv[0] = strdup(program.c_str());
                                try { a.parseArguments(e.argc, e.argv); }
                                catch (const Args::Exception& x) {
                                    volatile size_t m = strlen(x.what());
                                    (void)m;
                                }
                                catch (const std::runtime_error&) {}
                                if (n < 3000) {
                                    volatile size_t m = a.getUsage().size();
                                    (void)m;
                                }
                            }
                        }
                    }
                    for (auto& f : flags) {
                        none([&]() {
                            read(a.getArgument(f));
                            volatile size_t m = a[f].getString().size() + a.argumentExists(f);
                            (void)m;
                        });
                    }
                    none([&]() { read(a.getArgument(in(NO_SUCH, "none"))); });
                    none([&]() { read(a.getArgument("--" + in(NO_SUCH, "none"))); });
                    none([&]() { read(a.getArgument(pos)); });
                    none([&]() { a.updateArgument(in(NO_SUCH, "none")); });
                    volatile size_t m = a.getUsage().size();
                    a.setUsageWidth(1, 1, 1, 1);
                    if (n < 3000) { m = a.getUsage().size(); }
                    a.setUsageWidth(2, n, 2, n);
                    if (n < 3000) { m = a.getUsage().size(); }
                    (void)m;
                    none([&]() { a.removeArguments(in(NO_SUCH, "none")); });
                    none([&]() { a.removeArguments(vec(flags)); });
                    none([&]() { a.removeArguments(pos); });
                });
                state(std::string(place[at]) + str(n) + str(fill));
                C().describe = nullptr;
            }
        }
    }
}

// the common sweep: owned validators and destinations everywhere, exact argv blocks
static void sweep(const Case& k) {
    C().describe = [&]() { return "// every argument has a destination and, if it takes values, an owned validator\n" + cppCase(k); };
    Strs names = namesOf(k.c);
    measured([&]() {
        std::vector<Dests> d(k.c.args.size());
        Args a;
        size_t owned = 0;
        build(a, k.c);
        for (size_t i = 0; i < k.c.args.size(); ++i) {
            Kind x = k.c.args[i].kind;
            Argument& g = a.updateArgument(k.c.args[i].names[0]);
            if (scalar(x)) { g.dest(d[i].c3); }
            else if (valueless(x)) { g.dest(d[i].b); }
            else if (grouped(x)) { g.dest(d[i].vvs); }
            else if (i % 2) { g.dest(d[i].vc); }
            else { g.dest(d[i].vs); }
            if (!valueless(x)) {
                a.updateArgument(k.c.args[i].names[0]).valid(new V(k.line.size() % 3 == 2));
                ++owned;
            }
        }
        for (auto& b : k.before) {
            Exact e(b);
            try { a.parseArguments(e.argc, e.argv); }
            catch (const Args::Exception&) {}
            for (auto& x : d) { x.vc.clear(); } // they point into the values of that parse
        }
        Exact e(k.line);
        try { a.parseArguments(e.argc, e.argv); }
        catch (const Args::Exception&) {}
        for (auto& s : k.c.args) {
            const Argument& g = a.getArgument(s.names.back());
            volatile size_t n = g.getString().size() + g.count() + g.size() + a.getAdditionalArguments().size();
            for (size_t i = 0; i < g.size(); ++i) {
                n += g[i].getString().size();
                for (size_t j = 0; j < g[i].size(); ++j) { n += g[i][j].getString().size(); }
            }
        }
        for (auto& x : d) {
            for (auto p : x.vc) {
                volatile size_t n = strlen(p);
                (void)n;
            }
        }
        // copies own nothing; an argument that is removed takes its validator along
        for (auto& s : k.c.args) {
            Argument c(a.getArgument(s.names[0]));
            Argument d(c);
            volatile size_t n = d.getString().size();
            (void)n;
        }
        if (V::alive.size() != owned) { fail("copies of the arguments change the number of live validators from " + str(owned) + " to " + str(V::alive.size())); }
        size_t turn = 0;
        for (auto& s : k.c.args) {
            if ((turn++ + k.line.size()) % 3 == 0) { continue; }
            if (turn % 2) { a.removeArguments(vec(s.names)); }
            else {
                for (auto& n : s.names) { a.removeArguments(n); }
            }
            owned -= !valueless(s.kind);
        }
        if (V::alive.size() != owned) { fail("after removals " + str(V::alive.size()) + " validators are alive, not " + str(owned)); }
        Exact again(k.line);
        try { a.parseArguments(again.argc, again.argv); }
        catch (const Args::Exception&) {}
        if (k.line.size() % 2) { a.clear(); }
    });
    if (!V::alive.empty()) { fail(str(V::alive.size()) + " owned validators outlive the object"); }
    steps(k.line.size() + 1 + k.before.size());
    C().describe = nullptr;
}

void explore() {
    exits();
    histories(ops(), thorough() ? 4 : 3, true);
    histories(ops(), 3, false);
    histories(ownerOps(), thorough() ? 5 : 4, false);
    histories(moreOps(), thorough() ? 4 : 3, true);
    std::vector<Op> all = ops(), more = moreOps();
    all.insert(all.end(), more.begin(), more.end());
    histories(all, thorough() ? 3 : 2, true);
    histories(all, 2, false);
    bytes(thorough() ? 5 : 4, thorough() ? 4 : 3);
    arities();
    arrayOf<1>(); arrayOf<2>(); arrayOf<3>(); arrayOf<4>(); arrayOf<5>(); arrayOf<6>(); arrayOf<7>(); arrayOf<16>();
    usages();
    lengths();
    grand(grandLevel(0), sweep);
}
