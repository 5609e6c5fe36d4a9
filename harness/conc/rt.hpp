// Interface between the controlled-scheduler runtime (uninstrumented) and the scenarios (instrumented).
#pragma once
#include <cstddef>
extern "C" {
void mc_op_point(void);                 // called by scenario threads between operations
void mc_fail(const char* why);          // record a wrong result
}
struct McScenario { int threads; void (*setup)(); void (*body)(int tid); void (*check)(); };
// mode 0: every interleaving of operations (synchronisation operations are not choice points)
// mode 1: every interleaving of operations and synchronisation operations with at most `bound` preemptions
int mc_explore(const char* name, const McScenario& s, int mode, int bound, long cap, const char* replaySchedule);
