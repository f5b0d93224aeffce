#ifndef SIM_GEN_H_
#define SIM_GEN_H_

#include "model.h"

namespace sim {

// the plan of one run: a pure function of property and seed
Plan genPlan(const std::string& prop, uint64_t seed, bool thorough);
// second phase: the same plan with allocation failures, placed using the number
// of library allocations each operation made in the fault-free run
Plan withAllocFaults(const Plan& base, const std::vector<long>& allocs, Rng& r);
bool wantsAllocFaults(const std::string& prop);
// every single allocation of every operation, one plan each
std::vector<Plan> allocSweep(const Plan& base, const std::vector<long>& allocs, size_t cap);

} // namespace sim

#endif
