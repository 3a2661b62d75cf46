// C31: objects that belong to different threads do not disturb each other.
// Every pair of programs runs as two threads under a controlled scheduler that
// sees every access to memory; where both touch the same memory and one writes,
// all schedules with up to two (thorough: three) preemptions at these accesses
// are executed.  Where they do not, all schedules are one (the steps of the two
// commute), and two executions represent them.
#include "world.hpp"
#include "sched.hpp"
#include "grand.hpp"
using namespace mc;

std::string run_plain(const WProg& p);

static void program(const void* arg, char* out, long* size, long cap) {
    std::string r = run_plain(*(const WProg*)arg);
    long n = (long)r.size() < cap ? (long)r.size() : cap;
    for (long i = 0; i < n; ++i) { out[i] = r[i]; }
    *size = n;
}
static Result* g_r;
enum End { ENDED, DIED, HUNG };
static End forked(const std::function<void()>& f, int* how) {
    memset(g_r, 0, offsetof(Result, text));
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
        struct itimerval off = {{0, 0}, {0, 0}};
        setitimer(ITIMER_REAL, &off, 0);
        alarm(20);
        f();
        _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0) {}
    *how = st;
    bump("executions in a process of their own");
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { return ENDED; }
    return WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM ? HUNG : DIED;
}
static std::string shown(int i) { return std::string(g_r->text[i], g_r->size[i]); }

static WProg blank() {
    WProg p;
    p.alternative = p.strict = p.layout = false;
    p.form = p.then = 0;
    for (int& w : p.width) { w = 0; }
    return p;
}
static WDef def(const Spec& s, int dest, int valid) {
    WDef d;
    d.names = s.names;
    d.kind = s.kind;
    d.n = s.n;
    d.required = s.required;
    d.defaults = s.defaults;
    d.help = s.help;
    d.metavar = s.metavar;
    d.dest = dest;
    d.valid = valid;
    return d;
}
// two programs that use the same features with other names, values and texts
static void both(std::vector<WProg>& r, WProg p) {
    r.push_back(p);
    auto other = [](std::string t) {
        for (auto& c : t) {
            if (c >= 'a' && c <= 'y' && c != 'h') { c = (char)(c + 1); }
            else if (c >= '1' && c <= '8') { c = (char)(c + 1); }
        }
        return t;
    };
    auto others = [&](Strs v) {
        for (auto& t : v) { t = other(t); }
        return v;
    };
    for (auto& d : p.defs) {
        d.names = others(d.names);
        d.defaults = others(d.defaults);
        d.help = other(d.help);
        d.metavar = other(d.metavar);
    }
    for (auto& l : p.lines) { l = others(l); }
    p.description = other(p.description);
    p.epilog = other(p.epilog);
    r.push_back(p);
}
static std::vector<WProg> programs() {
    std::vector<WProg> r;
    // every kind with what belongs to it
    int n = 0;
    for (Kind k : everyOption()) {
        for (int variant = 0; variant < 2; ++variant) {
            Cfg c = grandCfg(k, grandPositionals()[n % grandPositionals().size()], n & 1, variant && n % 5 == 0, variant ? 2 : 1);
            WProg p = blank();
            for (auto& s : c.args) {
                int dest = 0, valid = 0;
                bool words = !valueless(s.kind);
                if (scalar(s.kind)) { dest = n % 2 ? 13 : 15; }
                else if (words) { dest = grouped(s.kind) ? 24 : 18; }
                else if (s.kind == K_BOOL || s.kind == K_RBOOL) { dest = 1; }
                if (words && n % 3 == 0) { valid = 6; }
                p.defs.push_back(def(s, dest, valid));
                p.defs.back().help = "help for " + s.names[0] + " with a few words more";
            }
            p.alternative = c.alternative;
            p.strict = c.strict;
            std::vector<Strs> ls = grandLines(c, true);
            for (size_t i = 0; i < 3; ++i) { p.lines.push_back(ls[(n * 3 + i * 5 + 5) % ls.size()]); }
            p.description = "about program " + str(n) + " and its words";
            p.epilog = "end of " + str(n);
            p.form = n % 4;
            p.then = n % 3;
            if (n % 4 == 0) {
                p.layout = true;
                p.width[0] = 1;
                p.width[1] = 9;
                p.width[2] = 1;
                p.width[3] = 12 + n;
            }
            both(r, p);
            ++n;
        }
    }
    // validators, numbers, conversions and refusals
    WProg p = blank();
    p.defs.push_back(def(Spec(S({"-i", "--int"}), K_SIMPLE), 7, 1));
    p.defs.push_back(def(Spec(S({"-c", "--choice"}), K_SIMPLE), 17, 3));
    p.defs.push_back(def(Spec(S({"-d", "--dir"}), K_SIMPLE), 14, 4));
    p.defs.push_back(def(Spec(S({"-n"}), K_MULTI), 20, 2));
    p.lines = {S({"-i", "33", "-c", "1", "-d", "/", "-n", "1.5", "-n2"}), S({"-i", "99"}), S({"-c", "nothing"}), S({"-d", "/nowhere"})};
    both(r, p);
    p.lines = {S({"-i", "x"}), S({"-n"}), S({"-u"}), S({"--int=4", "surplus", "--choice", "2.5"})};
    p.defs.push_back(def(Spec(S({"-g"}), K_EXTNUM, 2), 26, 0));
    p.defs.push_back(def(Spec(S({"-v", "--version"}), K_VERSION), 0, 0));
    p.defs.push_back(def(Spec(S({"bad=", "-x"}), K_SIMPLE), 0, 0));
    p.lines.push_back(S({"-v"}));
    p.lines.push_back(S({"-g", "1", "2", "3", "4.5", "-h"}));
    both(r, p);
    p.then = 2;
    p.alternative = p.strict = true;
    p.lines = {S({"-int", "5", "-choice=p1", "--dir=/", "-ni"}), S({"-help"})};
    both(r, p);
    return r;
}

static std::string planText(const Plan& p) {
    std::string r = "thread " + str(p.first + 1) + " starts";
    int who = p.first;
    for (int i = 0; i < p.switches; ++i) {
        r += ", is preempted before its conflicting access number " + str(p.at[i]) + " since then; thread " + str(2 - who) + " runs";
        who = !who;
    }
    return r;
}
static std::string text(const WProg& p) {
    std::string r;
    for (auto& d : p.defs) { r += "argument " + q(d.names) + " " + kindName((Kind)d.kind) + " dest " + str(d.dest) + " valid " + str(d.valid) + " " + q(d.defaults) + "\n"; }
    for (auto& l : p.lines) { r += "parse " + q(l) + "\n"; }
    return r;
}

void explore() {
    schedInit();
    g_r = (Result*)mmap(0, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    const std::vector<WProg> ps = programs();
    std::map<size_t, std::string> alone;
    int how = 0;
    uint64_t deep = 0;
    auto solo = [&](size_t i) -> const std::string& {
        if (!alone.count(i)) {
            if (forked([&] { schedAlone(program, &ps[i], g_r); }, &how) != ENDED) { fail("a program does not end when it runs alone"); }
            alone[i] = shown(0);
        }
        return alone[i];
    };
    for (size_t i = 0; i < ps.size(); ++i) {
        for (size_t j = i; j < ps.size(); ++j) {
            if (!take()) { continue; }
            Plan plan = {0, 0, {0, 0, 0, 0}};
            C().describe = [&]() { return "thread 1:\n" + text(ps[i]) + "thread 2:\n" + text(ps[j]) + planText(plan); };
            const std::string wa = solo(i), wb = solo(j);
            auto one = [&](bool record) {
                End e = forked([&] { schedRun(program, &ps[i], &ps[j], &plan, record, g_r); }, &how);
                C().comparisons += 2;
                if (e == DIED) { fail("the process dies under this schedule (status " + str(how) + ")"); }
                if (e == HUNG) { fail("the threads do not end under this schedule"); }
                if (shown(0) != wa) { fail("thread 1 sees something else than alone\n" + firstDiff(wa, shown(0), "alone   ", "together")); }
                if (shown(1) != wb) { fail("thread 2 sees something else than alone\n" + firstDiff(wb, shown(1), "alone   ", "together")); }
                bump("schedules executed");
                steps(g_r->accesses[0] + g_r->accesses[1]);
                validated();
            };
            schedForgetConflicts();
            one(true);
            plan.first = 1;
            one(true);
            long conflicts = g_r->conflicting;
            state(wa + wb);
            sample();
            bump("pairs");
            if (conflicts) {
                bump("pairs that share written memory");
                // how many scheduling points there are
                long pts[2] = {0, 0};
                plan.first = 0;
                one(false);
                for (int k = 0; k < 2; ++k) { pts[k] = g_r->points[k]; }
                plan.first = 1;
                one(false);
                for (int k = 0; k < 2; ++k) { pts[k] = std::max(pts[k], g_r->points[k]); }
                long lim = deep < 400 || thorough() ? 400 : deep < 3000 ? 12 : 3;
                for (int f = 0; f < 2; ++f) {
                    for (long x = 1; x <= pts[f] && x <= lim; ++x) {
                        plan.first = f;
                        plan.switches = 1;
                        plan.at[0] = x;
                        one(false);
                        ++deep;
                    }
                    long lx = std::min(pts[f], std::min(lim, 25L)), ly = std::min(pts[!f], std::min(lim, 25L));
                    for (long x = 1; x <= lx && deep < (thorough() ? 200000 : 4000); ++x) {
                        for (long y = 1; y <= ly; ++y) {
                            plan.switches = 2;
                            plan.at[0] = x;
                            plan.at[1] = y;
                            one(false);
                            ++deep;
                        }
                    }
                }
            }
            C().describe = nullptr;
        }
    }
}
