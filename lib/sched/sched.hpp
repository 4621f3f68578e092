// A controlled scheduler for code compiled with -fsanitize=thread but linked
// against lib/sched/sched.cpp instead of the sanitizer's run-time library.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace sch {
const int kThreads = 3, kDecisions = 60000, kText = 60000, kSync = 8192;
struct Decision { int8_t current, chosen; uint8_t enabled, preempts; };     // current: -1 when it cannot go on
struct Shared {                                                             // lives in memory shared with the exploring process
    int nDec; Decision dec[kDecisions];
    int nSync; uint64_t sync[kSync]; uint8_t syncMask[kSync];
    char err[2048]; int overflow, deadlock, finished; long accesses, entries, points, schemaWrites;
    int outLen[kThreads]; char out[kThreads][kText];
};
struct Plan { std::vector<std::pair<int, int>> at; };                       // at decision i, run thread t; otherwise go on
struct Options { bool races = true, entries = false; const std::vector<uint64_t> *syncShared = nullptr; int seconds = 30; };
typedef std::function<std::string()> Job;                                   // returns the thread's outcome
// Runs the jobs as threads of a forked child under the plan. Returns "" or what went wrong; sh is filled in.
std::string execute(const std::vector<Job> &jobs, const Plan &, const Options &, Shared &sh, bool &stalled);
Shared *newShared();
// Allocations of the calling (main) thread are counted as the schema's: writes to them by a thread are reported in schemaWrites.
void protectBegin();
void protectEnd();
void exclude(const void *p, size_t n);                                      // known benign: not checked for races
}
