// Seams owned by the simulator: allocator, file system, standard output,
// process exit, callbacks. All off unless a plan turns them on.
#ifndef SIM_SEAM_H_
#define SIM_SEAM_H_

#include <setjmp.h>
#include <sys/stat.h>

#include "common.h"

namespace sim {

// process exit requested by the library: control returns to the engine
extern jmp_buf g_exitJmp;
extern bool g_exitArmed;
extern int g_exitStatus;
extern const char* g_exitHow;
extern FILE* g_report;  // the real standard output

// scope of library execution
extern bool g_inLib;
// memory the simulator allocates meanwhile for its own use bypasses the
// sanitizer's allocator
extern bool g_bookkeeping;
struct Bookkeeping {
    bool old;
    Bookkeeping(bool on = true) : old(g_bookkeeping) { g_bookkeeping = on; }
    ~Bookkeeping() { g_bookkeeping = old; }
};

struct InLib {
    bool old;
    InLib() : old(g_inLib) { g_inLib = true; }
    ~InLib() { g_inLib = old; }
};
struct OutLib {
    bool old;
    OutLib() : old(g_inLib) { g_inLib = false; }
    ~OutLib() { g_inLib = old; }
};

struct AllocSeam {
    long count = 0;       // allocations of the current operation
    long failAt = 0;      // 0: never
    bool persistent = false;
    long fired = 0;
    long long total = 0;  // all library allocations of the process
    void arm(long n, bool p) {
        count = 0;
        fired = 0;
        failAt = n;
        persistent = p;
    }
};
extern AllocSeam g_alloc;
long liveLibBlocks();
size_t liveLibBytes();
void newEpoch();      // blocks allocated from now on belong to a new operation
void forgiveEpoch();  // blocks of this operation no longer count (process exited)
int errnoFromName(const std::string& s);
extern const char* g_allocError;  // bad free found by the accounting

// simulated file system
struct FsNode {
    int type;  // 'f' 'd' 'o' 'l'
    std::string target;
};
struct FsRec {
    std::string call, path;
    int err;   // 0 or errno
    int type;  // 'f' 'd' 'o' when err == 0
};
struct FsSeam {
    std::map<std::string, FsNode> nodes;
    std::vector<FsRec> log;
    long calls = 0;
    std::map<long, int> failAt;                    // n-th call -> errno
    int failFrom = 0, failFromErr = 0;             // every call from n on
    std::map<long, std::vector<std::string> > ev;  // before n-th call: "rm:p" "file:p" "dir:p" "other:p"
    long fired = 0, evFired = 0;
    void reset() { *this = FsSeam(); }
    void apply(const std::string& e);
    int lookup(const std::string& p, int* err) const;
};
extern FsSeam g_fs;

// simulated standard output
struct OutSeam {
    static const size_t CAP = 1 << 20;
    char* buf;
    size_t len = 0;
    long failAfter = -1;  // bytes accepted before the device fails
    long fired = 0;
    std::string text() const { return std::string(buf, len); }
};
extern OutSeam g_out;
void outInstall();
void outReset(long failAfter);
void outCollect();  // bytes written straight to the stdout descriptor

// logical steps: basic-block edges executed inside the library
extern unsigned long long g_steps, g_stepLimit, g_pathHash;
extern void (*g_onHang)();
void edgesReset();
uint64_t edgesHash();       // set of edges hit since edgesReset
size_t edgesTotalHit();     // distinct edges hit in this process
size_t edgesKnown();

} // namespace sim

#endif
