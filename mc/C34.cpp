// C34: what is handed in is copied, what is handed out stays valid.
// Every history of calls; every text, list and command line handed in is
// overwritten and freed as soon as the call returns (and, in a twin, kept).
// Everything handed out (exceptions, copies, references, pointers into values)
// is read again after every later call and after the end of the parser object.
#include <memory>

#include "observe.hpp"
#include "grand.hpp"
using namespace mc;
typedef blet::Args Args;
typedef blet::args::Argument Argument;

static const Strs kNames = S({"-s", "--simple", "-m", "--mm", "-x", "-b", "-h", "--help", "LIST", "P", "--new"});

// texts handed in, alive only during the call
struct Lent {
    bool keep;
    std::vector<std::pair<char*, size_t> > all;
    explicit Lent(bool k) : keep(k) {}
    ~Lent() { drop(); }
    const char* operator()(const std::string& s) {
        char* p = new char[s.size() + 1];
        memcpy(p, s.c_str(), s.size() + 1);
        all.push_back(std::make_pair(p, s.size() + 1));
        return p;
    }
    void drop() {
        for (auto& x : all) {
            memset(x.first, '#', x.second);
            delete[] x.first;
        }
        all.clear();
    }
    void end() {
        if (!keep) { drop(); }
    }
};
// an exception of the library, kept in three ways
struct Caught {
    std::exception_ptr ptr;
    std::shared_ptr<Args::Exception> copy;
    std::string what, argument, type;
    const char *whatText, *copyText; // kept as handed out
};
template<typename E>
static std::string argumentOf(const E& e) { return e.argument(); }
static std::string argumentOf(const Args::HelpException&) { return "-"; }
static std::string argumentOf(const Args::VersionException&) { return "-"; }

// references to the texts of the object
struct Held {
    const std::string &description, &epilog, &version, &binary;
    const Strs& additional;
    explicit Held(const Args& a) : description(a.getDescription()), epilog(a.getEpilog()), version(a.getVersion()), binary(a.getBinaryName()), additional(a.getAdditionalArguments()) {}
    std::string all() const { return description + "|" + epilog + "|" + version + "|" + binary + "|" + q(additional); }
};
struct World {
    std::unique_ptr<Args> a;
    std::unique_ptr<Held> held;
    Lent lent;
    std::vector<Caught> caught;
    std::vector<Argument> copies; // grows, so they are copied on
    Strs copied;
    std::map<std::string, const Argument*> refs; // valid until removed, cleared or given a destination
    const char *ps, *pb;                         // valid until the next parse or a new definition of the argument
    std::vector<const char*> pm, px;
    std::string ts, tb;
    Strs tm, tx;
    std::string log;
    explicit World(bool keep) : a(new Args), held(new Held(*a)), lent(keep), ps(0), pb(0) {
        a->setHelpException();
        a->setVersionException();
    }
    void pointers() { // after a parse that succeeded
        ts = ps ? ps : "";
        tb = pb ? pb : "";
        tm.assign(pm.begin(), pm.end());
        tx.assign(px.begin(), px.end());
    }
    void forgetPointers() {
        ps = pb = 0;
        pm.clear();
        px.clear();
        pointers();
    }
    // the library's exceptions, everything readable from them recorded
    template<typename F>
    void call(F f) {
        try { f(); }
#define KEEP(T) catch (const Args::T& e) { Caught c; c.ptr = std::current_exception(); c.copy.reset(new Args::T(e)); c.what = e.what(); c.argument = argumentOf(e); c.type = #T; c.whatText = e.what(); c.copyText = c.copy->what(); caught.push_back(c); }
        KEEP(HelpException)
        KEEP(VersionException)
        KEEP(ParseArgumentRequiredException)
        KEEP(ParseArgumentValidException)
        KEEP(ParseArgumentException)
        KEEP(AccessDeniedException)
        KEEP(ArgumentException)
#undef KEEP
        if (caught.size() && !lent.keep) { /* texts are gone before anything is read again */ }
        lent.end();
    }
    void parse(const Strs& t) {
        ps = 0; // invalid from here on
        pm.clear();
        px.clear();
        pb = 0;
        call([&]() {
            std::vector<char*> v;
            v.push_back((char*)lent("prog"));
            for (auto& x : t) { v.push_back((char*)lent(x)); }
            v.push_back(0);
            bool done = false;
            try {
                a->parseArguments((int)v.size() - 1, &v[0]);
                done = true;
            }
            catch (...) {
                forgetPointers();
                throw;
            }
            if (done) { pointers(); }
        });
    }
    void reread() { // everything handed out, once more
        for (auto& c : caught) {
            try { std::rethrow_exception(c.ptr); }
            catch (const Args::ArgumentException& e) {
                eqs(std::string(e.what()), c.what, "what() of a kept exception");
                eqs(std::string(e.argument()), c.argument, "argument() of a kept exception");
            }
            catch (const Args::Exception& e) { eqs(std::string(e.what()), c.what, "what() of a kept exception"); }
            eqs(std::string(c.copy->what()), c.what, "what() of a copied exception");
            eqs(std::string(c.whatText) + "/" + c.copyText, c.what + "/" + c.what, "text handed out by what()");
            if (const Args::ArgumentException* e = dynamic_cast<const Args::ArgumentException*>(c.copy.get())) { eqs(std::string(e->argument()), c.argument, "argument() of a copied exception"); }
        }
        for (size_t i = 0; i < copies.size(); ++i) { eqs(dump(copies[i]), copied[i], "a copy of an argument"); }
        if (ps) { eqs(std::string(ps), ts, "text behind a const char* destination"); }
        if (pb) { eqs(std::string(pb), tb, "text behind a const char* destination"); }
        for (size_t i = 0; i < pm.size(); ++i) { eqs(std::string(pm[i]), tm[i], "text behind a vector of const char*"); }
        for (size_t i = 0; i < px.size(); ++i) { eqs(std::string(px[i]), tx[i], "text behind a vector of const char*"); }
        if (!a) { return; }
        eqs(held->all(), a->getDescription() + "|" + a->getEpilog() + "|" + a->getVersion() + "|" + a->getBinaryName() + "|" + q(a->getAdditionalArguments()), "texts of the object behind references");
        for (auto& r : refs) {
            check(a->argumentExists(r.first) && &a->getArgument(r.first) == r.second, ("reference to " + r.first + " leads elsewhere").c_str());
            check(!r.second->getNameOrFlags().empty(), "reference to an argument without names");
        }
    }
    void ref(const std::string& n, const Argument& g) { refs[n] = &g; }
    void unref(const Strs& names) {
        for (auto& n : names) { refs.erase(n); }
    }
};
struct Op {
    const char* text;
    std::function<void(World&)> f;
};
struct Suffix : Args::IValid {
    bool isValid(Strs& v) {
        for (auto& x : v) {
            if (x == "no") { throw Args::ParseArgumentValidException(("refused " + x).c_str()); }
            x += "-checked-and-longer-than-a-small-string";
        }
        return true;
    }
};
static std::vector<Op> ops() {
    std::vector<Op> o;
    // T(text): a text that lives until the end of the call
#define OP(...) o.push_back({#__VA_ARGS__, [](World& w) { Args& a = *w.a; (void)a; auto T = [&](const char* s) { return w.lent(s); }; (void)T; __VA_ARGS__; }})
#define CALL(...) w.call([&]() { __VA_ARGS__; })
    OP(CALL(const char* f[] = {T("-s"), T("--simple")}; w.ref("-s", a.addArgument(f).help(T("help of the simple option")).metavar(T("METAVAR"))); w.ref("--simple", a["-s"])));
    OP(CALL(const char* f[] = {T("--mm"), T("-m")}; w.ref("-m", a.addArgument(f).action(Args::APPEND).valid(new Suffix))));
    OP(CALL(const char* f = T("-x"); w.ref("-x", a.addArgument(f).action(Args::EXTEND).nargs(2).defaults(blet::args::Vector() + std::string(T("first default value")) + std::string(T("2"))))));
    OP(CALL(const char* f = T("LIST"); w.ref("LIST", a.addArgument(f).action(Args::INFINITE).valid(new Args::ValidChoise(blet::args::Vector() + std::string(T("green")) + std::string(T("a colour of a longer name")))))));
    OP(CALL(const char* f = T("P"); w.ref("P", a.addArgument(f).required())));
    OP(CALL(std::string f[] = {"-b", "--new"}; w.ref("-b", a.addArgument(f).action(Args::STORE_TRUE))));
    OP(CALL(Argument& g = a.updateArgument("-s"); w.unref(S({"-s", "--simple"})); w.forgetPointers(); g.dest(w.ps)));
    OP(CALL(Argument& g = a.updateArgument("-m"); w.unref(S({"-m"})); w.forgetPointers(); g.dest(w.pm)));
    OP(CALL(Argument& g = a.updateArgument("-b"); w.unref(S({"-b"})); w.forgetPointers(); g.dest(w.pb)));
    OP(CALL(Argument& g = a.updateArgument("-x"); w.unref(S({"-x"})); w.forgetPointers(); g.dest(w.px)));
    OP(CALL(const char* f[] = {T("--mm"), T("-m")}; const char* x = T("-x"); w.unref(S({"-m", "-x"})); w.forgetPointers(); a.addArgument(f).action(Args::APPEND).dest(w.pm); a.addArgument(x).action(Args::EXTEND).dest(w.px)));
    OP(CALL(a.updateArgument("-s").flag(T("--new"))));
    OP(CALL(a.updateArgument("-m").required().help(T("")).help(T("another and longer help text"))));
    OP(CALL(w.forgetPointers(); a.updateArgument("-s").defaults(std::string(T("a default text that is long"))); ));
    OP(CALL(bool e = a.argumentExists("-s"); a.removeArguments(std::string(T("-s"))); if (e) { w.unref(S({"-s", "--simple"})); w.forgetPointers(); }));
    OP(CALL(bool e = a.argumentExists("-m") && a.argumentExists("--mm"); a.removeArguments(blet::args::Vector() + std::string(T("--mm")) + std::string(T("-m"))); if (e) { w.unref(S({"-m"})); w.forgetPointers(); }));
    OP(CALL(a.removeArguments(std::string(T("LIST"))); w.unref(S({"LIST"}))));
    OP(a.clear(); a.setHelpException(); w.refs.clear(); w.forgetPointers());
    OP(CALL(a.setDescription(T("the description")); a.setEpilog(T("the epilog")); a.setBinaryName(T("/usr/bin/a-binary-name")); a.setVersion(T("version 1.2.3 and more"))));
    OP(CALL(a.getArgument(T("an unknown name that is long"))));
    OP(CALL(a.addArgument(std::string(T("-not-a-flag")))));
    OP(CALL(w.forgetPointers(); a.updateArgument(T("-x")).nargs(2).defaults(std::string(T("only one")))));
    OP(for (auto& n : kNames) { if (a.argumentExists(n)) { w.copies.push_back(a.getArgument(n)); w.copied.push_back(dump(w.copies.back())); } });
    OP(for (int i = 0; i < 12; ++i) { if (!a.argumentExists("--more" + str(i))) { a.addArgument("--more" + str(i)); } } a.getUsage(); for (int i = 0; i < 12; i += 2) { a.removeArguments("--more" + str(i)); });
    OP(w.parse(S({"-s", "a value that does not fit into the object", "-m", "1", "-m", "the second value is a long one"})));
    OP(w.parse(S({"green", "a colour of a longer name", "-x", "3", "4"})));
    OP(w.parse(S({"--simple=short", "-mno", "green", "-b"})));
    OP(w.parse(S({"--an-unknown-option-with-a-long-name", "v"})));
    OP(w.parse(S({"-x", "x1", "x2", "-m", "m1"})));
    OP(w.parse(S({"-s"})));
    OP(w.parse(S({"--help"})));
    OP(a.getUsage(); if (a.argumentExists("-s")) { const Argument& g = a["-s"]; dump(g); a.updateArgument("-s").required(!g.isRequired()); });
#undef CALL
#undef OP
    return o;
}
static void histories(size_t depth) {
    std::vector<Op> o = ops();
    for (size_t len = 1; len <= depth; ++len) {
        uint64_t total = 1;
        for (size_t i = 0; i < len; ++i) { total *= o.size(); }
        if (skipBlock(total)) { continue; }
        for (uint64_t x = 0; x < total; ++x) {
            if (!take()) { continue; }
            std::vector<int> h(len);
            uint64_t y = x;
            for (size_t i = len; i-- > 0; y /= o.size()) { h[i] = (int)(y % o.size()); }
            C().describe = [&]() {
                std::string r = "// T(text): overwritten and freed when the call returns\n";
                for (int k : h) { r += std::string(o[k].text) + "\n"; }
                return r + "// everything handed out is read again after every call and after the end of the object";
            };
            World w(false), k(true);
            for (int i : h) {
                o[i].f(w);
                w.reread();
            }
            for (int i : h) { o[i].f(k); }
            // the texts handed in were copied
            ++C().comparisons;
            std::string got = dump(*w.a, kNames), want = dump(*k.a, kNames);
            if (got != want) { fail("texts handed in are used after the call\n" + firstDiff(want, got, "kept    ", "released")); }
            eq(w.caught.size(), k.caught.size(), "number of errors");
            for (size_t i = 0; i < w.caught.size(); ++i) {
                eqs(w.caught[i].what + "/" + w.caught[i].argument + "/" + w.caught[i].type, k.caught[i].what + "/" + k.caught[i].argument + "/" + k.caught[i].type, "error with and without keeping the texts");
            }
            eqs(w.ts + "/" + w.tb + "/" + q(w.tm) + q(w.tx), k.ts + "/" + k.tb + "/" + q(k.tm) + q(k.tx), "destinations with and without keeping the texts");
            w.forgetPointers();
            w.refs.clear();
            w.a.reset();
            w.reread();
            state(got);
            steps(len);
            validated();
            sample();
            C().describe = nullptr;
        }
    }
}

// the common sweep: the command line is gone when the values are read, and an
// error outlives the object it comes from
static void lines(const Case& k) {
    C().describe = [&]() { return "// the command line is overwritten and freed after the parse, the object before its error is read\n" + cppCase(k); };
    Outcome want = k.m.run(k.line), got;
    std::exception_ptr kept;
    {
        Args a;
        build(a, k.c);
        runBefore(a, k);
        Lent lent(false);
        std::vector<char*> v;
        v.push_back((char*)lent("prog"));
        for (auto& x : k.line) { v.push_back((char*)lent(x)); }
        v.push_back(0);
        try {
            a.parseArguments((int)v.size() - 1, &v[0]);
            lent.end();
            readAll(a, k.c, got);
        }
        catch (...) { kept = std::current_exception(); }
    }
    if (kept) {
        try { std::rethrow_exception(kept); }
        catch (const Args::HelpException& e) { got.status = HELP; check(*e.what() != 0, "help without a text"); }
        catch (const Args::VersionException& e) { got.status = VERSION; got.what = e.what(); eqs(got.what, k.c.version, "version text"); }
        catch (const Args::ParseArgumentRequiredException& e) { got.status = MISSING; got.name = e.argument(); got.what = e.what(); }
        catch (const Args::ParseArgumentValidException& e) { got.status = INVALID; got.name = e.argument(); got.what = e.what(); }
        catch (const Args::ParseArgumentException& e) { got.status = TOKEN_ERROR; got.name = e.argument(); got.what = e.what(); }
        if (got.status != HELP && got.status != VERSION) { check(!got.what.empty(), "error without a message"); }
    }
    ++C().comparisons;
    std::string d = diff(got, want, k.c, M_ALL);
    if (!d.empty()) { fail(d); }
    steps(k.line.size() + 1 + k.before.size());
    validated();
    state(canon(want));
    C().describe = nullptr;
}

void explore() {
    histories(thorough() ? 4 : 3);
    grand(grandLevel(0), lines);
}
