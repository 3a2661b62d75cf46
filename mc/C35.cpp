// C35: a result depends on nothing but what is handed in, and nothing else of
// the process is changed.
// The same calls in every surrounding (environment, terminal, clock, stream
// states, errno, memory contents, place of the call, layout of argv) give the
// same results as in a plain one; afterwards the process is as before.
#include <dlfcn.h>
#include <errno.h>
#include <locale>
#include <iomanip>
#include <iostream>
#include <fstream>
#include <stdarg.h>
#include <sys/ioctl.h>
#include <sys/syscall.h>
#include <thread>
#include <time.h>
#include <fenv.h>
#include <new>

#include "rich.hpp"
#include "grand.hpp"
using namespace mc;
typedef blet::Args Args;
extern char** environ;

// ------------------------------------------------ what the library may ask
struct Answers {
    bool armed;
    const char* env; // value of every environment variable
    int tty;         // -1: ask the system
    int columns;     // 0: ask the system
    long now;        // 0: ask the system
    long random;
    int asked;
};
static Answers g_say = {false, 0, -1, 0, 0, -1, 0};
static unsigned char g_fill; // contents of new memory
static bool g_filling;

extern "C" {
char* getenv(const char* n) throw() {
    if (g_say.armed && g_say.env) { return (char*)g_say.env; }
    size_t l = strlen(n);
    for (char** e = environ; e && *e; ++e) {
        if (!strncmp(*e, n, l) && (*e)[l] == '=') { return *e + l + 1; }
    }
    return 0;
}
char* secure_getenv(const char* n) throw() { return getenv(n); }
int ioctl(int fd, unsigned long req, ...) throw() {
    va_list v;
    va_start(v, req);
    void* p = va_arg(v, void*);
    va_end(v);
    if (g_say.armed && g_say.columns && req == TIOCGWINSZ) {
        struct winsize* w = (struct winsize*)p;
        memset(w, 0, sizeof(*w));
        w->ws_col = (unsigned short)g_say.columns;
        w->ws_row = 3;
        return 0;
    }
    return (int)syscall(SYS_ioctl, fd, req, p);
}
int isatty(int fd) throw() {
    if (g_say.armed && g_say.tty >= 0) { return g_say.tty; }
    char b[128];
    return syscall(SYS_ioctl, fd, TCGETS, b) == 0;
}
time_t time(time_t* t) throw() {
    time_t r = g_say.armed && g_say.now ? (time_t)g_say.now : (time_t)syscall(SYS_time, 0);
    if (t) { *t = r; }
    return r;
}
int clock_gettime(clockid_t c, struct timespec* t) throw() {
    if (g_say.armed && g_say.now) {
        t->tv_sec = g_say.now;
        t->tv_nsec = g_say.now % 1000;
        return 0;
    }
    return (int)syscall(SYS_clock_gettime, c, t);
}
int gettimeofday(struct timeval* t, void*) throw() {
    struct timespec s;
    int r = clock_gettime(CLOCK_REALTIME, &s);
    t->tv_sec = s.tv_sec;
    t->tv_usec = s.tv_nsec / 1000;
    return r;
}
}
void* operator new(size_t n) {
    void* p = malloc(n ? n : 1);
    if (!p) { throw std::bad_alloc(); }
    if (g_filling) { memset(p, g_fill, n); }
    return p;
}
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }

static void __attribute__((noinline)) paint(unsigned char c) {
    volatile char b[48 * 1024];
    for (size_t i = 0; i < sizeof(b); ++i) { b[i] = (char)c; }
}

// --------------------------------------------------------- surroundings
typedef std::function<void()> Act0;
struct Around {
    std::string text;
    std::function<void(const Act0&)> in; // runs the calls in the surrounding
};
struct Backwards : std::collate<char> { // texts in the opposite order
    int do_compare(const char* a, const char* b, const char* c, const char* d) const {
        return -std::string(a, b).compare(std::string(c, d));
    }
    std::string do_transform(const char* a, const char* b) const {
        std::string r(a, b);
        for (auto& c : r) { c = (char)~c; }
        return r;
    }
};
struct Boom {
    const Act0& f;
    ~Boom() { f(); }
};
static int g_errno, g_paint = -1;
static int g_layout; // how argv lies in memory
static std::string g_scratch;
static char** g_env; // the environment of the process
static struct { int keep[3]; bool closed; } g_std;

static std::vector<Around> arounds() {
    std::vector<Around> v;
    for (const char* x : {"0", "1", "20", "200", "abc", "", "--help", "true", "C", "dumb"}) {
        v.push_back({std::string("every environment variable is \"") + x + "\"", [x](const Act0& f) { g_say.env = x; f(); g_say.env = 0; }});
    }
    for (const char* x : {"COLUMNS=10", "COLUMNS=300", "LINES=2", "POSIXLY_CORRECT=1", "LANG=de_DE.UTF-8", "LC_ALL=C.UTF-8", "LANGUAGE=fr", "TERM=dumb", "NO_COLOR=1", "CLICOLOR_FORCE=1", "DEBUG=1", "ARGS=--help -u", "HOME=/nowhere", "PWD=/nowhere", "_=/usr/bin/other"}) {
        v.push_back({std::string("environment with only ") + x, [x](const Act0& f) {
            char* e[] = {(char*)x, 0};
            environ = e;
            f();
            environ = g_env;
        }});
    }
    v.push_back({"empty environment", [](const Act0& f) {
        char* e[] = {0};
        environ = e;
        f();
        environ = g_env;
    }});
    for (int c : {1, 9, 30, 79, 81, 250}) {
        v.push_back({"terminal of " + str(c) + " columns", [c](const Act0& f) { g_say.tty = 1; g_say.columns = c; f(); g_say.tty = -1; g_say.columns = 0; }});
    }
    v.push_back({"no terminal", [](const Act0& f) { g_say.tty = 0; f(); g_say.tty = -1; }});
    for (long t : {1L, 1234567890L, 4102444800L}) {
        v.push_back({"the time is " + str(t), [t](const Act0& f) { g_say.now = t; f(); g_say.now = 0; }});
    }
    for (int e : {ERANGE, EINTR, EINVAL, ENOENT}) {
        v.push_back({"errno is " + str(e), [e](const Act0& f) { g_errno = e; f(); g_errno = 0; }});
    }
    for (int p : {0x00, 0xff, 0xa5, 0x2d, 0x31, 0x01}) {
        v.push_back({"new memory filled with " + str(p), [p](const Act0& f) { g_fill = (unsigned char)p; g_filling = true; f(); g_filling = false; }});
        v.push_back({"stack filled with " + str(p), [p](const Act0& f) { g_paint = p; f(); g_paint = -1; }});
    }
    v.push_back({"std::cout in hexadecimal with base, boolalpha, showpos", [](const Act0& f) {
        std::ios_base::fmtflags k = std::cout.flags();
        std::cout << std::hex << std::showbase << std::boolalpha << std::showpos << std::uppercase << std::scientific;
        std::cerr << std::hex << std::boolalpha;
        f();
        std::cout.flags(k);
        std::cerr.flags(k | std::ios_base::unitbuf);
    }});
    v.push_back({"std::cout with precision 1 and fill *", [](const Act0& f) {
        char c = std::cout.fill('*');
        std::streamsize p = std::cout.precision(1);
        f();
        std::cout.fill(c);
        std::cout.precision(p);
    }});
    v.push_back({"std::cout and std::cin have failed", [](const Act0& f) {
        std::cout.setstate(std::ios_base::badbit);
        std::cin.setstate(std::ios_base::eofbit | std::ios_base::failbit);
        f();
        std::cout.clear();
        std::cin.clear();
    }});
    v.push_back({"std::cout without a buffer", [](const Act0& f) {
        std::streambuf* b = std::cout.rdbuf(0);
        f();
        std::cout.rdbuf(b);
    }});
    v.push_back({"std::cout throws", [](const Act0& f) {
        std::cout.exceptions(std::ios_base::badbit | std::ios_base::failbit);
        f();
        std::cout.exceptions(std::ios_base::goodbit);
    }});
    v.push_back({"standard streams closed", [](const Act0& f) {
        for (int i = 0; i < 3; ++i) {
            g_std.keep[i] = fcntl(i, F_DUPFD, 60);
            close(i);
        }
        g_std.closed = true;
        f();
        g_std.closed = false;
        for (int i = 0; i < 3; ++i) {
            dup2(g_std.keep[i], i);
            close(g_std.keep[i]);
        }
    }});
    v.push_back({"working directory /", [](const Act0& f) {
        if (chdir("/") != 0) { abort(); }
        f();
        if (chdir(g_scratch.c_str()) != 0) { abort(); }
    }});
    v.push_back({"working directory with files named like words, options and configuration files", [](const Act0& f) {
        if (chdir((g_scratch + "/odd").c_str()) != 0) { abort(); }
        f();
        if (chdir(g_scratch.c_str()) != 0) { abort(); }
    }});
    v.push_back({"global locale that collates backwards", [](const Act0& f) {
        std::locale k = std::locale::global(std::locale(std::locale::classic(), new Backwards));
        f();
        std::locale::global(k);
    }});
    v.push_back({"C locale for characters and messages C.UTF-8", [](const Act0& f) {
        setlocale(LC_CTYPE, "C.UTF-8");
        setlocale(LC_COLLATE, "C.UTF-8");
        setlocale(LC_MESSAGES, "C.UTF-8");
        f();
        setlocale(LC_ALL, "C");
    }});
    v.push_back({"floating-point exceptions raised before", [](const Act0& f) {
        feraiseexcept(FE_OVERFLOW | FE_INEXACT | FE_INVALID | FE_DIVBYZERO | FE_UNDERFLOW);
        f();
        feclearexcept(FE_ALL_EXCEPT);
    }});
    v.push_back({"inside a destructor during unwinding", [](const Act0& f) {
        try {
            Boom b = {f};
            throw 1;
        }
        catch (int) {}
    }});
    v.push_back({"inside a handler of another exception", [](const Act0& f) {
        try { throw Args::ParseArgumentValidException("other", "other exception"); }
        catch (const Args::Exception&) { f(); }
    }});
    v.push_back({"deep in a recursion", [](const Act0& f) {
        std::function<void(int)> r = [&](int n) {
            volatile char b[4096];
            b[n % 4096] = (char)n;
            if (n == 0) { f(); }
            else { r(n - 1); }
        };
        r(300);
    }});
    v.push_back({"on another thread", [](const Act0& f) { std::thread(f).join(); }});
    for (int l = 1; l <= 7; ++l) {
        static const char* t[] = {"", "tokens back to back in one block", "tokens in reverse order in memory", "equal tokens share their memory", "tokens that end another one share its tail", "entries behind the end of argv", "argv of read-only memory", "argv continues behind argc"};
        v.push_back({t[l], [l](const Act0& f) { g_layout = l; f(); g_layout = 0; }});
    }
    return v;
}

// argv in a given layout
struct Laid {
    std::vector<char*> ptr;
    std::vector<char*> own;
    char* page;
    size_t pages;
    int argc;
    Laid(const Strs& t, int layout) : page(0), pages(0), argc((int)t.size() + 1) {
        Strs s(1, "prog");
        s.insert(s.end(), t.begin(), t.end());
        size_t total = 0;
        for (auto& x : s) { total += x.size() + 1; }
        ptr.resize(s.size());
        if (layout == 1 || layout == 2) {
            char* b = (char*)malloc(total);
            own.push_back(b);
            for (size_t k = 0; k < s.size(); ++k) {
                size_t i = layout == 1 ? k : s.size() - 1 - k;
                memcpy(b, s[i].c_str(), s[i].size() + 1);
                ptr[i] = b;
                b += s[i].size() + 1;
            }
        }
        else if (layout == 6) {
            pages = (total + s.size() * sizeof(char*) + 8192) / 4096 * 4096;
            page = (char*)mmap(0, pages, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
            char* b = page;
            for (size_t i = 0; i < s.size(); ++i) {
                memcpy(b, s[i].c_str(), s[i].size() + 1);
                ptr[i] = b;
                b += s[i].size() + 1;
            }
            mprotect(page, pages, PROT_READ);
        }
        else {
            for (size_t i = 0; i < s.size(); ++i) {
                ptr[i] = 0;
                for (size_t k = 0; k < s.size() && (layout == 3 || layout == 4); ++k) {
                    if (k == i || (k > i && s[k].size() <= s[i].size())) { continue; }
                    if (layout == 3 ? k < i && s[k] == s[i] : s[k].size() > s[i].size() && s[k].compare(s[k].size() - s[i].size(), std::string::npos, s[i]) == 0 && ptr[k]) { ptr[i] = ptr[k] + s[k].size() - s[i].size(); }
                }
                if (!ptr[i]) {
                    own.push_back(strdup(s[i].c_str()));
                    ptr[i] = own.back();
                }
            }
        }
        if (layout != 7) { ptr.push_back(0); }
        if (layout == 5 || layout == 7) {
            own.push_back(strdup("--behind"));
            ptr.push_back(own.back());
            ptr.push_back(own.back());
        }
    }
    ~Laid() {
        for (auto p : own) { free(p); }
        if (page) { munmap(page, pages); }
    }
};

// ------------------------------------------------------------- monitors
struct Process {
    std::string cwd, locale, cloc, env;
    mode_t mask;
    std::string fds, signals;
    std::string streams;
    long output;
    std::string text() const {
        return "cwd " + cwd + "\nlocale " + locale + "\nC locale " + cloc + "\nenvironment " + env + "\numask " + str((int)mask) + "\ndescriptors " + fds + "\nsignals " + signals + "\nstreams " + streams + "\nbytes printed " + str(output) + "\n";
    }
};
static std::string streamState(const std::basic_ios<char>& s) {
    return str((long)s.flags()) + "," + str((int)s.width()) + "," + str((int)s.precision()) + "," + str((int)s.fill()) + "," + str((int)s.rdstate()) + "," + str((long)s.rdbuf()) + "," + str((long)s.tie()) + "," + str((int)s.exceptions()) + ";";
}
static int g_out = -1; // where the standard streams lead during an exploration
static Process look() {
    Process p;
    char b[4096];
    p.cwd = getcwd(b, sizeof b) ? b : "?";
    p.locale = std::locale().name();
    p.cloc = setlocale(LC_ALL, 0);
    p.env = str((long)environ);
    for (char** e = environ; e && *e; ++e) { p.env += std::string("|") + *e; }
    p.mask = umask(077);
    umask(p.mask);
    for (int i = 0; i < 40; ++i) {
        int f = fcntl(i, F_GETFD);
        if (f >= 0) { p.fds += str(i) + ":" + str(f) + "/" + str(fcntl(i, F_GETFL)) + " "; }
    }
    for (int i = 1; i < 32; ++i) {
        struct sigaction s;
        memset(&s, 0, sizeof s);
        if (sigaction(i, 0, &s) == 0) { p.signals += str((long)s.sa_handler) + " "; }
    }
    p.streams = streamState(std::cout) + streamState(std::cerr) + streamState(std::cin) + streamState(std::clog);
    fflush(stdout);
    struct stat st;
    p.output = fstat(g_out, &st) == 0 ? (long)st.st_size : -1;
    return p;
}

struct Result {
    std::string shown, before, after;
    int random;
};
static std::string lay(Rich& w, const Strs& t, const Strs& names) {
    Laid v(t, g_layout);
    std::string r;
    bool ok = false;
    try {
        w.a.parseArguments(v.argc, &v.ptr[0]);
        ok = true;
    }
    catch (const Args::HelpException& e) { r = std::string("help ") + e.what(); }
    catch (const Args::VersionException& e) { r = std::string("version ") + e.what(); }
    catch (const Args::ParseArgumentException& e) { r = std::string("error ") + e.argument() + " " + e.what(); }
    catch (const std::exception& e) { r = std::string("other ") + e.what(); }
    r += "\n" + dump(w.a, names) + "\n";
    for (auto& n : names) { // a stream of the program's own
        if (!w.a.argumentExists(n)) { continue; }
        std::ostringstream os;
        os << std::hex << std::showbase << std::setfill('*') << std::setprecision(3) << std::right;
        std::ios_base::fmtflags f = os.flags();
        os << w.a.getArgument(n);
        r += q(os.str()) + (os.flags() == f && os.fill() == '*' && os.precision() == 3 && os.good() && os.width() == 0 ? "" : " STREAM STATE CHANGED");
        if (os.str() != w.a.getArgument(n).getString()) { r += " FORMATTED OTHERWISE"; }
    }
    return ok ? r + w.show() : r;
}
static Result around(const std::vector<const Around*>& in, const std::function<std::string()>& work) {
    Result r;
    std::function<void(size_t)> go = [&](size_t i) {
        if (i == in.size()) {
            r.before = look().text();
            srand(42);
            g_say.armed = true;
            if (g_paint >= 0) { paint((unsigned char)g_paint); }
            errno = g_errno;
            r.shown = work();
            g_say.armed = false;
            r.random = rand();
            r.after = look().text();
            return;
        }
        in[i]->in([&]() { go(i + 1); });
    };
    go(0);
    return r;
}
static void compare(const std::vector<const Around*>& in, const std::string& want, int random, const std::function<std::string()>& work) {
    Result r = around(in, work);
    ++C().comparisons;
    if (r.shown.find("STREAM STATE CHANGED") != std::string::npos || r.shown.find("FORMATTED OTHERWISE") != std::string::npos) { fail("printing an argument depends on the state of the stream or changes it\n" + r.shown); }
    if (r.shown != want) { fail("another result than in a plain surrounding\n" + firstDiff(want, r.shown, "plain", "here ")); }
    if (r.after != r.before) { fail("the process has changed\n" + firstDiff(r.before, r.after, "before", "after ")); }
    eq(r.random, random, "next number of rand()");
    validated();
}
struct Program {
    std::string text;
    std::function<std::string()> work;
    size_t calls;
    std::string want;
};
static std::string told(const std::vector<const Around*>& in, const Program& p) {
    std::string r;
    for (auto a : in) { r += "// " + a->text + "\n"; }
    return r + p.text;
}
static void run(const std::vector<const Around*>& in, Program& p, int random) {
    C().describe = [&]() { return told(in, p); };
    if (p.want.empty()) { p.want = around(std::vector<const Around*>(), p.work).shown; }
    compare(in, p.want, random, p.work);
    steps(p.calls + in.size());
    state(p.want);
    sample();
    C().describe = nullptr;
}

static void refused(Args& a, std::string& r, const std::function<void()>& f) {
    (void)a;
    try { f(); r += "accepted;"; }
    catch (const Args::ArgumentException& e) { r += std::string(e.argument()) + ": " + e.what() + ";"; }
}
// programs beside the rich ones: layouts, names, refused definitions
static std::vector<Program> others() {
    std::vector<Program> v;
    static const size_t widths[][4] = {{2, 20, 2, 56}, {0, 0, 0, 0}, {1, 5, 1, 9}, {4, 40, 3, 200}};
    for (int wi = 0; wi < 4; ++wi) {
        for (int m = 0; m < 4; ++m) {
            v.push_back({"// all kinds, layout " + str(wi) + ", modes " + str(m) + "\n", [wi, m]() {
                Cfg c;
                c.alternative = m & 1;
                c.strict = m & 2;
                for (auto k : optionKinds()) { c.args.push_back(kit(k)); }
                for (auto k : {K_POS, K_POSNUM, K_POSINF}) { c.args.push_back(kit(k)); }
                Args a;
                build(a, c);
                a.addArgument(vec(S({"--Zeta", "-Z", "-z", "--zeta", "--\xC3\xA9t\xC3\xA9", "--under_score", "--under-score"}))).help("first line\nsecond line with many words that are broken at the column where the help ends, and a verylongwordthatdoesnotfitintothecolumnatallbecauseitissolong end").metavar("\xC3\xA9");
                a.setDescription("a description with several words, long enough to be broken at the width of the usage text, once or twice");
                a.setEpilog("an epilog\n  indented");
                a.setUsageWidth(widths[wi][0], widths[wi][1], widths[wi][2], widths[wi][3]);
                std::string r;
                refused(a, r, [&]() { a.addArgument("-z"); });
                refused(a, r, [&]() { a.addArgument("--"); });
                refused(a, r, [&]() { a.updateArgument("--zeta").nargs(2).defaults("1"); });
                return r + dump(a, namesOf(c)) + dump(a, S({"-z", "--under_score"}));
            }, 20, ""});
        }
    }
    return v;
}

void explore() {
    g_env = environ;
    g_scratch = C().scratch + "/c35-" + str((long)getpid());
    mkdir(g_scratch.c_str(), 0700);
    mkdir((g_scratch + "/odd").c_str(), 0700);
    for (const char* n : {"x", "red", "1", "-s", "--help", "prog", "args.conf", ".args", ".argsrc", "prog.conf", "prog.ini", "@file"}) { std::ofstream(g_scratch + "/odd/" + n) << "--help\n-u\n"; }
    if (chdir(g_scratch.c_str()) != 0) { abort(); }
    setlocale(LC_ALL, "C");
    int std1 = dup(1), std2 = dup(2);
    g_out = fcntl(fileno(tmpfile()), F_DUPFD, 20);
    fflush(0);
    dup2(g_out, 1);
    dup2(g_out, 2);
    std::vector<Around> all = arounds();
    srand(42);
    const int random = rand();
    std::vector<std::vector<const Around*> > one, two;
    for (auto& a : all) { one.push_back({&a}); }
    for (auto& a : all) {
        for (auto& b : all) {
            bool streams = a.text.find("std::cout") == 0 && b.text.find("std::cout") == 0; // cannot be combined
            if (&a < &b && !streams) { two.push_back({&a, &b}); }
        }
    }
    struct Back { // whatever happens: streams and directory as before
        int a, b;
        ~Back() {
            fflush(0);
            dup2(a, 1);
            dup2(b, 2);
            if (chdir("/") != 0) {}
        }
    } back = {std1, std2};
    auto through = [&](std::vector<Program>& ps, bool pairs) {
        for (auto& p : ps) {
            for (auto& in : one) {
                if (take()) { run(in, p, random); }
            }
            if (pairs) {
                for (auto& in : two) {
                    if (take()) { run(in, p, random); }
                }
            }
        }
    };
    std::vector<Program> o = others();
    through(o, true);
    static std::vector<RichCase> cases = richCases();
    for (auto& c : cases) {
        std::vector<RichEdit> edits = richEdits(c);
        for (size_t e = 0; e < edits.size(); ++e) {
            std::vector<Program> ps;
            for (auto& l : c.lines) {
                std::vector<Strs> seconds(1, Strs(1, "\1"));
                if (e == 0) { seconds.insert(seconds.end(), c.lines.begin(), c.lines.end()); }
                for (auto& l2 : seconds) {
                    bool twice = l2 != Strs(1, "\1");
                    RichEdit ed = edits[e];
                    std::string t = std::string(c.text) + "\n" + edits[e].text + "\n" + cppParse(l) + (twice ? cppParse(l2) : "");
                    ps.push_back({t, [&c, ed, l, l2, twice]() {
                        Rich w;
                        w.a.setHelpException();
                        w.a.setVersionException();
                        c.define(w);
                        richEdit(ed, w);
                        std::string r = lay(w, l, c.names);
                        return twice ? r + lay(w, l2, c.names) : r;
                    }, 4, ""});
                }
            }
            if (e == 0) {
                std::vector<Program> first;
                for (size_t i = 0; i < ps.size(); i += 1 + c.lines.size()) { first.push_back(ps[i]); }
                through(first, true);
            }
            through(ps, thorough());
        }
    }
    // the common sweep with everything odd at once
    std::vector<const Around*> odd;
    for (auto& a : all) {
        for (const char* n : {"every environment variable is \"20\"", "terminal of 30", "the time is 1234", "errno is 34", "new memory filled with 165", "std::cout in hex", "std::cout and std::cin have failed", "global locale", "working directory with", "floating-point"}) {
            if (a.text.find(n) == 0) { odd.push_back(&a); }
        }
    }
    std::function<void(size_t)> nest = [&](size_t i) {
        if (i < odd.size()) {
            odd[i]->in([&]() { nest(i + 1); });
            return;
        }
        g_say.armed = true;
        std::string before = look().text();
        grand(grandLevel(0), [](const Case& k) {
            paint(0xa5);
            errno = ERANGE;
            grandCheck(k);
        });
        g_say.armed = false;
        if (look().text() != before) { fail("the process has changed\n" + firstDiff(before, look().text(), "before", "after ")); }
    };
    nest(0);
}
