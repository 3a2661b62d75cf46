// Controlled scheduler over real threads for C31.  The library and the programs
// are compiled with access instrumentation (-fsanitize=thread); this runtime
// takes the place of the sanitizer's and decides who runs.
#ifndef MC_SCHED_HPP
#define MC_SCHED_HPP
#include <stdint.h>

struct Plan {
    int first;     // who starts
    int switches;  // preemptions
    long at[4];    // the running thread is preempted before its at[i]-th conflicting access
};
struct Result { // in shared memory
    long conflicting;        // granules accessed by both, written by one
    long points[2];          // conflicting accesses each thread made
    long accesses[2];        // accesses each made to static memory or to the heap
    long forced;             // a thread blocked and the other had to go on
    unsigned long where;     // one conflicting address, relative to the static memory
    long size[2];
    char text[2][1 << 20];   // transcripts
};
typedef void (*Program)(const void* arg, char* out, long* size, long cap);

extern "C" {
void schedInit();                       // once per process, before any fork
void schedForgetConflicts();            // before a pair
// runs both programs under the plan (in this process: call it in a fork);
// record: note what each accesses, and what conflicts
void schedRun(Program f, const void* a, const void* b, const Plan* plan, int record, Result* r);
void schedAlone(Program f, const void* a, Result* r); // in slot 0
}
#endif
