#ifndef SIM_ENGINE_H_
#define SIM_ENGINE_H_

#include "model.h"

namespace sim {

struct Violation {
    bool is = false;
    std::string facet, msg;
    int op = -1;
};

struct RunResult {
    Violation v;
    std::string diverged;        // unsubscribed facet that differed, if any
    uint64_t hash = 0;           // of everything observed
    uint64_t sig = 0;            // behaviour signature (operations, outcomes, code edges)
    unsigned long long steps = 0;
    std::vector<long> allocs;    // library allocations of each operation
    std::vector<long> vcalls, dcalls, stats;  // callback / stat calls of each operation
    std::map<std::string, long> fired;   // fault kind -> times it took effect
    std::map<std::string, long> probes;  // rare conditions reached
    long parses = 0, okParses = 0, ops = 0;
    bool nontrivial = false;
};

struct EngineCfg {
    std::vector<std::string> subs;  // facet prefixes that decide the property
    bool verbose = false;
    bool knownHelpBlocked = false;  // listed finding: parse does nothing when -h and --help are both taken
};

// progress marker readable after a crash
struct Progress {
    volatile int op;
    volatile int stage;
};
extern Progress g_progress;

RunResult runPlan(const Plan& p, const EngineCfg& cfg);
std::vector<std::string> facetsOf(const std::string& prop);

} // namespace sim

#endif
