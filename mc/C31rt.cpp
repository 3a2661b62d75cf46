// Runtime of C31: compiled without instrumentation, no library templates here.
#include "sched.hpp"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <new>
#include <pthread.h>
#include <semaphore.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

extern "C" char __data_start, _end;

enum { ARENA = 64 << 20 };
static char* g_arena[3];  // threads 0 and 1, static initialisation
static size_t g_used[3];
static bool g_started;    // static initialisation is over
static unsigned char* g_flags[4]; // per granule: static memory, arenas
static const uintptr_t kMain = (uintptr_t)&__data_start;
static __thread int t_id = -1;
static __thread int t_quiet;

static int g_record;
static const Plan* g_plan;
static int g_next;        // next preemption
static long g_count[2], g_accesses[2];
static sem_t g_go[2], g_done;
static volatile int g_running, g_finished[2], g_parked[2];
static volatile long g_tick;
static pid_t volatile g_tid[2];
static long g_forced;
static char g_libc[8];    // stands for the state inside the C library

static void* region(size_t n) {
    void* p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { abort(); }
    return p;
}
static void* arena(int i, size_t n) {
    if (!g_arena[i]) {
        void* p = mmap(0, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED) { abort(); }
        g_arena[i] = (char*)p;
    }
    n = (n + 15) & ~(size_t)15;
    if (!n) { n = 16; }
    if (g_used[i] + n > ARENA) { abort(); }
    char* r = g_arena[i] + g_used[i];
    g_used[i] += n;
    return r;
}
static bool inArena(const void* p) {
    for (int i = 0; i < 3; ++i) {
        if (g_arena[i] && (char*)p >= g_arena[i] && (char*)p < g_arena[i] + ARENA) { return true; }
    }
    return false;
}
void* operator new(size_t n) {
    if (t_id >= 0 && !t_quiet) { return arena(t_id, n); }
    if (!g_started) { return arena(2, n); }
    void* p = malloc(n ? n : 1);
    if (!p) { throw std::bad_alloc(); }
    return p;
}
void operator delete(void* p) noexcept {
    if (!inArena(p)) { free(p); }
}
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void* operator new[](size_t n) { return operator new(n); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }

static unsigned char* flagOf(uintptr_t a) {
    if (a >= kMain && a < (uintptr_t)&_end) { return g_flags[0] + ((a - kMain) >> 3); }
    for (int i = 0; i < 3; ++i) {
        uintptr_t b = (uintptr_t)g_arena[i];
        if (b && a >= b && a < b + ARENA) { return g_flags[i + 1] + ((a - b) >> 3); }
    }
    return 0;
}
static void park(int me) {
    g_parked[me] = 1;
    while (sem_wait(&g_go[me]) != 0) {}
    g_parked[me] = 0;
    g_running = me;
}
static void point() {
    const int me = t_id;
    long n = ++g_count[me];
    ++g_tick;
    if (g_running == me && g_next < g_plan->switches && n == g_plan->at[g_next] && !g_finished[!me]) {
        ++g_next;
        g_running = !me;
        g_count[!me] = 0; // thresholds count from the last switch
        sem_post(&g_go[!me]);
        park(me);
        g_count[me] = 0;
    }
}
static inline void access(uintptr_t a, size_t n, bool w) {
    if (t_id < 0 || t_quiet || !n) { return; }
    ++t_quiet;
    for (uintptr_t g = a & ~(uintptr_t)7; g < a + n; g += 8) {
        unsigned char* f = flagOf(g);
        if (!f) { break; }
        ++g_accesses[t_id];
        if (g_record) { *f |= (unsigned char)((w ? 2 : 1) << (2 * t_id)); }
        else if (*f & 16) {
            point();
            break;
        }
    }
    --t_quiet;
}

extern "C" {
void schedInit() {
    size_t n = ((uintptr_t)&_end - kMain) / 8 + 2;
    g_flags[0] = (unsigned char*)region(n);
    for (int i = 0; i < 3; ++i) {
        t_quiet = 1;
        if (!g_arena[i]) { arena(i, 16); }
        t_quiet = 0;
        g_flags[i + 1] = (unsigned char*)region(ARENA / 8);
    }
    g_started = true;
}
void schedForgetConflicts() {
    memset(g_flags[0], 0, ((uintptr_t)&_end - kMain) / 8 + 2);
    for (int i = 0; i < 3; ++i) { madvise(g_flags[i + 1], ARENA / 8, MADV_REMOVE); }
}

static Program g_f;
static const void* g_arg[2];
static Result* g_r;
static void* body(void* p) {
    int me = (int)(intptr_t)p;
    g_tid[me] = (pid_t)syscall(SYS_gettid);
    while (sem_wait(&g_go[me]) != 0) {}
    g_running = me;
    t_id = me;
    g_f(g_arg[me], g_r->text[me], &g_r->size[me], (long)sizeof(g_r->text[me]));
    t_id = -1;
    g_finished[me] = 1;
    ++g_tick;
    if (!g_finished[!me] && (g_parked[!me] || g_tid[!me] == 0 || g_running == me)) { sem_post(&g_go[!me]); }
    sem_post(&g_done);
    return 0;
}
static bool sleeping(pid_t t) {
    char name[64], buf[256];
    snprintf(name, sizeof name, "/proc/self/task/%d/stat", (int)t);
    int fd = open(name, O_RDONLY);
    if (fd < 0) { return false; }
    ssize_t n = read(fd, buf, sizeof(buf) - 1);
    close(fd);
    if (n <= 0) { return false; }
    buf[n] = 0;
    char* s = strrchr(buf, ')');
    return s && s[2] == 'S';
}
static void run(int threads, const Plan* plan, int record) {
    g_plan = plan;
    g_record = record;
    g_next = 0;
    g_forced = 0;
    for (int i = 0; i < 2; ++i) {
        g_count[i] = g_accesses[i] = 0;
        g_finished[i] = i >= threads;
        g_parked[i] = 0;
        g_tid[i] = 0;
        sem_init(&g_go[i], 0, 0);
    }
    sem_init(&g_done, 0, 0);
    pthread_t t[2];
    pthread_attr_t attr;
    pthread_attr_init(&attr);
    pthread_attr_setstacksize(&attr, 4 << 20);
    for (int i = 0; i < threads; ++i) {
        if (pthread_create(&t[i], &attr, body, (void*)(intptr_t)i) != 0) { abort(); }
    }
    g_running = plan->first;
    sem_post(&g_go[plan->first]);
    int ended = 0, stuck = 0;
    long tick = -1;
    while (ended < threads) {
        struct timespec ts;
        clock_gettime(CLOCK_REALTIME, &ts);
        ts.tv_nsec += 2000000;
        if (ts.tv_nsec >= 1000000000) {
            ts.tv_nsec -= 1000000000;
            ++ts.tv_sec;
        }
        if (sem_timedwait(&g_done, &ts) == 0) {
            ++ended;
            continue;
        }
        int who = g_running;
        if (tick == g_tick && !g_finished[who] && !g_parked[who] && g_tid[who] && sleeping(g_tid[who])) {
            if (++stuck >= 4 && !g_finished[!who] && g_parked[!who]) { // waits for the other: let that go on
                ++g_forced;
                stuck = 0;
                sem_post(&g_go[!who]);
            }
        }
        else { stuck = 0; }
        tick = g_tick;
    }
    for (int i = 0; i < threads; ++i) { pthread_join(t[i], 0); }
}
void schedRun(Program f, const void* a, const void* b, const Plan* plan, int record, Result* r) {
    g_f = f;
    g_arg[0] = a;
    g_arg[1] = b;
    g_r = r;
    run(2, plan, record);
    r->forced = g_forced;
    for (int i = 0; i < 2; ++i) {
        r->points[i] = g_count[i];
        r->accesses[i] = g_accesses[i];
    }
    if (!record) { return; }
    // what both touched and one wrote becomes a scheduling point; flags stay for
    // the next recording
    for (int k = 0; k < 4; ++k) {
        size_t n = k ? g_used[k - 1] / 8 : ((uintptr_t)&_end - kMain) / 8 + 1;
        for (size_t i = 0; i < n; ++i) {
            unsigned char x = g_flags[k][i];
            if (((x & 2) && (x & 12)) || ((x & 8) && (x & 3))) {
                if (!(x & 16)) { r->where = k ? (unsigned long)k << 60 : (unsigned long)(i * 8); }
                g_flags[k][i] = x | 16;
            }
            if (g_flags[k][i] & 16) { ++r->conflicting; }
        }
    }
}
void schedAlone(Program f, const void* a, Result* r) {
    static const Plan plan = {0, 0, {0, 0, 0, 0}};
    g_f = f;
    g_arg[0] = a;
    g_r = r;
    run(1, &plan, 0);
}

// ---- what the instrumentation calls
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define ACCESS(n)                                                                  \
    void __tsan_read##n(void* p) { access((uintptr_t)p, n, false); }               \
    void __tsan_write##n(void* p) { access((uintptr_t)p, n, true); }               \
    void __tsan_unaligned_read##n(void* p) { access((uintptr_t)p, n, false); }     \
    void __tsan_unaligned_write##n(void* p) { access((uintptr_t)p, n, true); }     \
    void __tsan_volatile_read##n(void* p) { access((uintptr_t)p, n, false); }      \
    void __tsan_volatile_write##n(void* p) { access((uintptr_t)p, n, true); }
ACCESS(1)
ACCESS(2)
ACCESS(4)
ACCESS(8)
ACCESS(16)
void __tsan_read_range(void* p, size_t n) { access((uintptr_t)p, n, false); }
void __tsan_write_range(void* p, size_t n) { access((uintptr_t)p, n, true); }
void __tsan_vptr_update(void** p, void*) { access((uintptr_t)p, 8, true); }
void __tsan_vptr_read(void** p) { access((uintptr_t)p, 8, false); }
#define ATOMIC(bits, T)                                                                                                            \
    T __tsan_atomic##bits##_load(const volatile T* a, int) { access((uintptr_t)a, sizeof(T), false); return __atomic_load_n(a, __ATOMIC_SEQ_CST); }          \
    void __tsan_atomic##bits##_store(volatile T* a, T v, int) { access((uintptr_t)a, sizeof(T), true); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); }           \
    T __tsan_atomic##bits##_exchange(volatile T* a, T v, int) { access((uintptr_t)a, sizeof(T), true); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int) { access((uintptr_t)a, sizeof(T), true); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int) { access((uintptr_t)a, sizeof(T), true); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int) { access((uintptr_t)a, sizeof(T), true); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int) { access((uintptr_t)a, sizeof(T), true); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); }   \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) {                                        \
        access((uintptr_t)a, sizeof(T), true);                                                                                     \
        return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                                    \
    }                                                                                                                              \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int x, int y) { return __tsan_atomic##bits##_compare_exchange_strong(a, c, v, x, y); } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int x, int y) {                                          \
        __tsan_atomic##bits##_compare_exchange_strong(a, &c, v, x, y);                                                             \
        return c;                                                                                                                  \
    }
ATOMIC(8, unsigned char)
ATOMIC(16, unsigned short)
ATOMIC(32, unsigned int)
ATOMIC(64, unsigned long)
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) {}

// ---- memory functions of the C library (linked with --wrap)
#define RD(p, n) access((uintptr_t)(p), (n), false)
#define WR(p, n) access((uintptr_t)(p), (n), true)
void* __real_memcpy(void*, const void*, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) { RD(s, n); WR(d, n); return __real_memcpy(d, s, n); }
void* __real_memmove(void*, const void*, size_t);
void* __wrap_memmove(void* d, const void* s, size_t n) { RD(s, n); WR(d, n); return __real_memmove(d, s, n); }
void* __real_memset(void*, int, size_t);
void* __wrap_memset(void* d, int c, size_t n) { WR(d, n); return __real_memset(d, c, n); }
int __real_memcmp(const void*, const void*, size_t);
int __wrap_memcmp(const void* a, const void* b, size_t n) { RD(a, n); RD(b, n); return __real_memcmp(a, b, n); }
size_t __real_strlen(const char*);
size_t __wrap_strlen(const char* s) { size_t n = __real_strlen(s); RD(s, n + 1); return n; }
int __real_strcmp(const char*, const char*);
int __wrap_strcmp(const char* a, const char* b) { RD(a, 1); RD(b, 1); return __real_strcmp(a, b); }
int __real_strncmp(const char*, const char*, size_t);
int __wrap_strncmp(const char* a, const char* b, size_t n) { RD(a, 1); RD(b, 1); return __real_strncmp(a, b, n); }
char* __real_strcpy(char*, const char*);
char* __wrap_strcpy(char* d, const char* s) { WR(d, __real_strlen(s) + 1); return __real_strcpy(d, s); }
char* __real_strncpy(char*, const char*, size_t);
char* __wrap_strncpy(char* d, const char* s, size_t n) { WR(d, n); return __real_strncpy(d, s, n); }
char* __real_strcat(char*, const char*);
char* __wrap_strcat(char* d, const char* s) { WR(d, 1); return __real_strcat(d, s); }
int __wrap_snprintf(char* d, size_t n, const char* f, ...) {
    if (n) { WR(d, 1); }
    va_list l;
    va_start(l, f);
    ++t_quiet;
    int r = vsnprintf(d, n, f, l);
    --t_quiet;
    va_end(l);
    return r;
}
int __wrap_sprintf(char* d, const char* f, ...) {
    WR(d, 1);
    va_list l;
    va_start(l, f);
    ++t_quiet;
    int r = vsprintf(d, f, l);
    --t_quiet;
    va_end(l);
    return r;
}
// functions with a state of their own inside the C library
#define LIBC access((uintptr_t)g_libc, 1, true)
char* __real_strtok(char*, const char*);
char* __wrap_strtok(char* s, const char* d) { LIBC; return __real_strtok(s, d); }
char* __real_setlocale(int, const char*);
char* __wrap_setlocale(int c, const char* l) { LIBC; return __real_setlocale(c, l); }
struct tm* __real_localtime(const time_t*);
struct tm* __wrap_localtime(const time_t* t) { LIBC; return __real_localtime(t); }
struct tm* __real_gmtime(const time_t*);
struct tm* __wrap_gmtime(const time_t* t) { LIBC; return __real_gmtime(t); }
int __real_rand();
int __wrap_rand() { LIBC; return __real_rand(); }
char* __real_basename(char*);
char* __real_strerror(int);
char* __wrap_strerror(int e) { LIBC; return __real_strerror(e); }
char* __real_getenv(const char*);
char* __wrap_getenv(const char* n) { RD(g_libc, 1); return __real_getenv(n); }
int __real_setenv(const char*, const char*, int);
int __wrap_setenv(const char* n, const char* v, int o) { LIBC; return __real_setenv(n, v, o); }
int __real_chdir(const char*);
int __wrap_chdir(const char* p) { LIBC; return __real_chdir(p); }
}
