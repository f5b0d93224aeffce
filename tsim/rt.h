// Thread simulator runtime: the instrumented code calls in at every memory
// access; exactly one thread runs at a time and a seeded scheduler decides at
// every access who goes on. A happens-before detector checks the accesses.
#ifndef TSIM_RT_H_
#define TSIM_RT_H_

#include <cstdint>
#include <string>
#include <vector>

namespace rt {

const int MAXT = 6;  // thread 0 is the main thread

struct Switch {
    int thread;
    uint64_t step;  // step of `thread` before which it happens; END: when it ends
    int to;
};
const uint64_t END = ~0ULL;

struct Sched {
    enum Kind { REPLAY, RANDOM, PCT, ENTRY, HOT } kind = REPLAY;
    uint64_t seed = 0;
    double p = 0.01;      // RANDOM: probability of a switch at an access
    int depth = 3;        // PCT: number of change points
    uint64_t length = 0;  // PCT: expected number of steps
    uint64_t maxSwitches = 20000;
    std::vector<Switch> list;  // REPLAY: in; otherwise out
};

struct Race {
    uint64_t pc[2];
    int thread[2];
    bool write[2];
    bool isFree;
    unsigned size;
};

struct Result {
    std::vector<Race> races;
    uint64_t steps = 0;
    uint64_t perThread[MAXT] = {0};
    uint64_t switches = 0, blocked = 0, allocs = 0, checked = 0;
};

// where the switches that happen are recorded
const size_t MAXREC = 65536;
extern Switch* g_rec;
extern size_t* g_nrec;

void childInit();  // in the forked child, before the program starts
// runs fn(1), ..., fn(n) as threads under the schedule
Result run(int n, void (*fn)(int), Sched* s);

struct Quiet {
    Quiet();
    ~Quiet();
};

} // namespace rt

#endif
