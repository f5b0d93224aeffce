#ifndef TSIM_PROG_H_
#define TSIM_PROG_H_

#include "driver.h"
#include "rt.h"

namespace prog {

struct Thread {
    std::vector<drv::Op> ops;
    std::string text;
};

struct Run {
    bool shared = false;  // one parsed object, reading threads
    int every = 1;
    std::vector<Thread> threads;  // [0]: what the main thread does first
    // out
    std::vector<std::string> logs;
    rt::Result result;
    bool empty = false, changed = false;
};

void execute(Run* r, rt::Sched* s);

} // namespace prog

#endif
