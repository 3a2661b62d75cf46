// Exploration engine: enumeration control, reporting, watchdog.
// Every check is one translation unit that includes this file (and usually
// model.hpp) and defines   void explore();
// The engine runs it once per shard; explore() walks its whole finite case
// space with nested loops and asks take() at the innermost level whether the
// next case belongs to this shard (or is the one being replayed).
#ifndef MC_ENGINE_HPP
#define MC_ENGINE_HPP

#include <fcntl.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

namespace mc {

typedef std::vector<std::string> Strs;

struct Shared { // mapped status file, read by the driver after a crash
    volatile uint64_t current;
    volatile uint64_t done;
};

struct Ctl {
    std::string property, outPath, tier, scratch;
    uint64_t shard, nshards;
    int64_t only; // replay: run just this case
    bool verbose;
    bool thorough;
    std::set<std::string> known; // signatures of recorded findings
    Shared* sh;

    uint64_t next;                       // index of the next case
    uint64_t executed, transitions, validated, comparisons;
    std::unordered_set<uint64_t> states; // canonical outcomes seen
    std::vector<std::string> samples;
    std::map<std::string, uint64_t> counters;
    std::map<std::string, uint64_t> knownHits;
    std::set<std::string> caps;
    bool failed;
    std::string failText, failSig;
    uint64_t failCase;
    std::function<std::string()> describe; // text of the current case
    std::vector<uint32_t> transcript;      // one hash per case (C20)
    bool keepTranscript;
};

inline Ctl& C() {
    static Ctl* c = new Ctl();
    return *c;
}

struct Stop {}; // thrown to leave explore() after the first violation

inline bool thorough() {
    return C().thorough;
}

inline uint64_t fnv(const std::string& s, uint64_t h = 1469598103934665603ULL) {
    for (size_t i = 0; i < s.size(); ++i) {
        h ^= (unsigned char)s[i];
        h *= 1099511628211ULL;
    }
    return h;
}

// Does the next case belong to this run?
inline bool take() {
    Ctl& c = C();
    uint64_t id = c.next++;
    if (c.only >= 0) {
        if (id != (uint64_t)c.only) {
            return false;
        }
    }
    else if (id % c.nshards != c.shard) {
        return false;
    }
    c.sh->current = id;
    ++c.executed;
    return true;
}
// Skip a whole block of n cases cheaply when replaying another one.
inline bool skipBlock(uint64_t n) {
    Ctl& c = C();
    if (c.only >= 0 && !((uint64_t)c.only >= c.next && (uint64_t)c.only < c.next + n)) {
        c.next += n;
        return true;
    }
    return false;
}

inline std::string q(const std::string& s) { // readable, unambiguous quoting
    std::string r = "\"";
    for (size_t i = 0; i < s.size(); ++i) {
        unsigned char ch = s[i];
        if (ch == '"' || ch == '\\') {
            r += '\\';
            r += ch;
        }
        else if (ch == '\n') {
            r += "\\n";
        }
        else if (ch < 32 || ch >= 127) {
            char b[8];
            snprintf(b, sizeof b, "\\%03o", ch);
            r += b;
        }
        else {
            r += ch;
        }
    }
    return r + "\"";
}
inline std::string q(const Strs& v) {
    std::string r = "[";
    for (size_t i = 0; i < v.size(); ++i) {
        r += (i ? ", " : "") + q(v[i]);
    }
    return r + "]";
}
inline std::string q(const std::vector<Strs>& v) {
    std::string r = "[";
    for (size_t i = 0; i < v.size(); ++i) {
        r += (i ? ", " : "") + q(v[i]);
    }
    return r + "]";
}
template<typename T>
std::string str(const T& t) {
    std::ostringstream o;
    o << t;
    return o.str();
}

// Record a violation of the property at the current case.  sig identifies a
// recorded finding; a listed one is counted, anything else stops the shard.
inline void fail(const std::string& text, const std::string& sig = "") {
    Ctl& c = C();
    if (!sig.empty() && c.known.count(sig)) {
        ++c.knownHits[sig];
        return;
    }
    c.failed = true;
    c.failCase = c.sh->current;
    c.failSig = sig;
    c.failText = "case " + str(c.failCase) + "\n" + (c.describe ? c.describe() : std::string()) + "\n" + text + "\n";
    throw Stop();
}
inline void check(bool ok, const char* what) {
    ++C().comparisons;
    if (!ok) {
        fail(what);
    }
}
template<typename A, typename B>
inline void eq(const A& got, const B& want, const char* what) {
    ++C().comparisons;
    if (!(got == want)) {
        fail(std::string(what) + "\n  expected: " + str(want) + "\n  observed: " + str(got));
    }
}
inline void eqs(const Strs& got, const Strs& want, const char* what) {
    ++C().comparisons;
    if (!(got == want)) {
        fail(std::string(what) + "\n  expected: " + q(want) + "\n  observed: " + q(got));
    }
}
inline void eqs(const std::string& got, const std::string& want, const char* what) {
    ++C().comparisons;
    if (!(got == want)) {
        fail(std::string(what) + "\n  expected: " + q(want) + "\n  observed: " + q(got));
    }
}

inline void state(const std::string& canon) {
    C().states.insert(fnv(canon));
}
inline void steps(uint64_t n) {
    C().transitions += n;
}
inline void validated(uint64_t n = 1) {
    C().validated += n;
}
inline void bump(const std::string& name, uint64_t n = 1) {
    C().counters[name] += n;
}
inline void sample() {
    Ctl& c = C();
    if (c.samples.size() < 3 && c.describe && (c.executed % 997 == 5 || c.samples.empty())) {
        c.samples.push_back(c.describe());
    }
}

inline std::string jesc(const std::string& s) {
    std::string r;
    for (size_t i = 0; i < s.size(); ++i) {
        unsigned char ch = s[i];
        if (ch == '"' || ch == '\\') {
            r += '\\';
            r += ch;
        }
        else if (ch < 32 || ch >= 127) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", ch);
            r += b;
        }
        else {
            r += ch;
        }
    }
    return "\"" + r + "\"";
}

inline void writeResult() {
    Ctl& c = C();
    FILE* f = fopen((c.outPath + ".json").c_str(), "w");
    fprintf(f, "{\"space\":%llu,\"executed\":%llu,\"transitions\":%llu,\"validated\":%llu,\"comparisons\":%llu,",
            (unsigned long long)c.next, (unsigned long long)c.executed, (unsigned long long)c.transitions,
            (unsigned long long)c.validated, (unsigned long long)c.comparisons);
    fprintf(f, "\"failed\":%s,\"fail_case\":%llu,\"fail_sig\":%s,\"fail_text\":%s,\"samples\":[", c.failed ? "true" : "false",
            (unsigned long long)c.failCase, jesc(c.failSig).c_str(), jesc(c.failText).c_str());
    for (size_t i = 0; i < c.samples.size(); ++i) {
        fprintf(f, "%s%s", i ? "," : "", jesc(c.samples[i]).c_str());
    }
    fprintf(f, "],\"counters\":{");
    bool first = true;
    for (auto& kv : c.counters) {
        fprintf(f, "%s%s:%llu", first ? "" : ",", jesc(kv.first).c_str(), (unsigned long long)kv.second);
        first = false;
    }
    fprintf(f, "},\"known\":{");
    first = true;
    for (auto& kv : c.knownHits) {
        fprintf(f, "%s%s:%llu", first ? "" : ",", jesc(kv.first).c_str(), (unsigned long long)kv.second);
        first = false;
    }
    fprintf(f, "}}\n");
    fclose(f);
    f = fopen((c.outPath + ".states").c_str(), "wb");
    for (auto h : c.states) {
        fwrite(&h, 8, 1, f);
    }
    fclose(f);
    if (c.keepTranscript) {
        f = fopen((c.outPath + ".tr").c_str(), "wb");
        if (!c.transcript.empty()) {
            fwrite(&c.transcript[0], 4, c.transcript.size(), f);
        }
        fclose(f);
    }
}

// A case that makes no progress: CPU-time watchdog (the driver replays it
// alone with a longer limit before believing it).
static volatile uint64_t g_lastCase = ~0ULL;
static volatile int g_sameTicks = 0;
static int g_maxTicks = 3;
inline void onTick(int) {
    uint64_t cur = C().sh->current;
    if (cur == g_lastCase) {
        if (++g_sameTicks >= g_maxTicks) {
            static const char m[] = "mc: no progress\n";
            ssize_t r = write(2, m, sizeof m - 1);
            (void)r;
            _exit(97);
        }
    }
    else {
        g_lastCase = cur;
        g_sameTicks = 0;
    }
}

} // namespace mc

void explore();

#ifndef MC_NO_MAIN
int main(int argc, char** argv) {
    mc::Ctl& c = mc::C();
    c.only = -1;
    c.shard = 0;
    c.nshards = 1;
    c.tier = "quick";
    std::string status;
    double tick = 1.0;
    long memMb = 0;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        std::string v = i + 1 < argc ? argv[i + 1] : "";
        if (a == "--shard") { c.shard = strtoull(v.c_str(), 0, 10); ++i; }
        else if (a == "--nshards") { c.nshards = strtoull(v.c_str(), 0, 10); ++i; }
        else if (a == "--case") { c.only = strtoll(v.c_str(), 0, 10); ++i; }
        else if (a == "--out") { c.outPath = v; ++i; }
        else if (a == "--status") { status = v; ++i; }
        else if (a == "--tier") { c.tier = v; ++i; }
        else if (a == "--known") { c.known.insert(v); ++i; }
        else if (a == "--ticks") { mc::g_maxTicks = atoi(v.c_str()); ++i; }
        else if (a == "--mem") { memMb = atol(v.c_str()); ++i; }
        else if (a == "--scratch") { c.scratch = v; ++i; }
        else if (a == "--transcript") { c.keepTranscript = true; }
        else if (a == "--verbose") { c.verbose = true; }
    }
    c.thorough = c.tier == "thorough";
    if (memMb > 0) {
        struct rlimit rl;
        rl.rlim_cur = rl.rlim_max = (rlim_t)memMb << 20;
        setrlimit(RLIMIT_AS, &rl);
    }
    struct rlimit core = {0, 0};
    setrlimit(RLIMIT_CORE, &core);
    int fd = open(status.c_str(), O_RDWR | O_CREAT, 0600);
    if (fd < 0 || ftruncate(fd, sizeof(mc::Shared)) != 0) {
        return 3;
    }
    c.sh = (mc::Shared*)mmap(0, sizeof(mc::Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    c.sh->current = ~0ULL;
    c.sh->done = 0;
    signal(SIGVTALRM, mc::onTick);
    struct itimerval it;
    it.it_interval.tv_sec = it.it_value.tv_sec = (long)tick;
    it.it_interval.tv_usec = it.it_value.tv_usec = 0;
    setitimer(ITIMER_VIRTUAL, &it, 0);
    try {
        explore();
    }
    catch (const mc::Stop&) {
    }
    mc::writeResult();
    c.sh->done = 1;
    fflush(0);
    _exit(c.failed ? 10 : 0);
}
#endif

#endif
