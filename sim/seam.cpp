#include "seam.h"

#include <errno.h>
#include <fcntl.h>
#include <sanitizer/allocator_interface.h>
#include <sys/mman.h>
#include <unistd.h>

#include <iostream>
#include <new>
#include <streambuf>

namespace sim {

bool g_inLib = false;
bool g_bookkeeping = false;
AllocSeam g_alloc;
FsSeam g_fs;
OutSeam g_out;
const char* g_allocError = nullptr;
unsigned long long g_readSteps = 0, g_steps = 0, g_stepLimit = 40000000ULL, g_pathHash = 0;
void (*g_onHang)() = nullptr;

// ------------------------------------------------------------ live blocks
namespace {
struct Slot {
    void* p;
    uint32_t size;
    uint8_t kind;  // 1 new, 2 new[]
    uint32_t epoch;
};
const size_t CAP = 1 << 17;
Slot g_tab[CAP];
uint32_t g_epoch = 0;
long g_live = 0;
size_t g_bytes = 0;
size_t slotOf(void* p) { return ((uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ULL >> 47; }
void* const TOMB = (void*)1;

void track(void* p, size_t n, int kind) {
    if (g_live > (long)(CAP / 2)) {
        fprintf(stderr, "sim: allocation explosion in the library\n");
        g_allocError = "more than 65536 live library allocations";
        if (g_onHang) g_onHang();
        return;
    }
    for (size_t i = slotOf(p) & (CAP - 1);; i = (i + 1) & (CAP - 1))
        if (g_tab[i].p == nullptr || g_tab[i].p == TOMB) {
            g_tab[i].p = p;
            g_tab[i].size = (uint32_t)n;
            g_tab[i].kind = (uint8_t)kind;
            g_tab[i].epoch = g_epoch;
            ++g_live;
            g_bytes += n;
            return;
        }
}
void untrack(void* p, int kind) {
    size_t n = 0;
    for (size_t i = slotOf(p) & (CAP - 1); g_tab[i].p != nullptr && n < CAP; i = (i + 1) & (CAP - 1), ++n)
        if (g_tab[i].p == p) {
            if (g_tab[i].kind != kind) g_allocError = "new/delete form mismatch on a library allocation";
            g_tab[i].p = TOMB;
            if (g_tab[(i + 1) & (CAP - 1)].p == nullptr)
                for (size_t j = i; g_tab[j].p == TOMB; j = (j + CAP - 1) & (CAP - 1)) g_tab[j].p = nullptr;
            --g_live;
            g_bytes -= g_tab[i].size;
            return;
        }
}
// A plain size-class allocator for the simulator's own bookkeeping: it needs
// none of the checking the sanitizer does for the library's and the caller's
// memory.
char* g_arena = nullptr;
size_t g_arenaUsed = 0;
const size_t ARENA = (size_t)1 << 34;
void* g_free[64];
inline bool inArena(void* p) { return (char*)p >= g_arena && (char*)p < g_arena + ARENA; }
void* arenaGet(size_t n) {
    if (!g_arena) {
        g_arena = (char*)mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (g_arena == MAP_FAILED) abort();
    }
    size_t c = (n + 31) / 32;
    if (c >= 64) return nullptr;
    if (g_free[c]) {
        void* p = g_free[c];
        g_free[c] = *(void**)p;
        return p;
    }
    size_t sz = c * 32 + 16;
    if (g_arenaUsed > ((size_t)1 << 31) && g_onHang) g_onHang();
    if (g_arenaUsed + sz > ARENA) return nullptr;
    char* p = g_arena + g_arenaUsed;
    g_arenaUsed += sz;
    *(size_t*)p = c;
    return p + 16;
}
void arenaPut(void* p) {
    size_t c = *(size_t*)((char*)p - 16);
    *(void**)p = g_free[c];
    g_free[c] = p;
}
unsigned long long g_plain = 0;
void* allocate(size_t n, int kind, bool nothrow) {
    if (!g_inLib && g_bookkeeping) {
        void* p = arenaGet(n ? n : 1);
        if (p) return p;
    }
    if (g_inLib) {
        ++g_alloc.count;
        ++g_alloc.total;
        if (n > (1u << 28) || (g_alloc.failAt != 0 && (g_alloc.persistent ? g_alloc.count >= g_alloc.failAt
                                                                           : g_alloc.count == g_alloc.failAt))) {
            ++g_alloc.fired;
            if (nothrow) return nullptr;
            throw std::bad_alloc();
        }
    }
    if ((++g_plain & 0x3FFF) == 0 && __sanitizer_get_current_allocated_bytes() > ((size_t)3 << 29) && g_onHang) g_onHang();
    void* p = malloc(n ? n : 1);
    if (p == nullptr) {
        if (nothrow) return nullptr;
        throw std::bad_alloc();
    }
    if (g_inLib) {
        track(p, n, kind);
        // memory taken without bound is a run that does not end
        if (g_bytes > ((size_t)1 << 27) && g_onHang) g_onHang();
    }
    return p;
}
void release(void* p, int kind) {
    if (p == nullptr) return;
    if (g_arena && inArena(p)) {
        arenaPut(p);
        return;
    }
    untrack(p, kind);
    free(p);
}
} // namespace

long liveLibBlocks() { return g_live; }
size_t liveLibBytes() { return g_bytes; }
void newEpoch() { ++g_epoch; }
void forgiveEpoch() {
    for (size_t i = 0; i < CAP; ++i)
        if (g_tab[i].p != nullptr && g_tab[i].p != TOMB && g_tab[i].epoch == g_epoch) {
            g_tab[i].p = TOMB;
            --g_live;
            g_bytes -= g_tab[i].size;
        }
}

// ------------------------------------------------------------------- exit
jmp_buf g_exitJmp;
bool g_exitArmed = false;
int g_exitStatus = 0;
const char* g_exitHow = "";
[[noreturn]] static void leave(int st, const char* how) {
    g_exitStatus = st;
    g_exitHow = how;
    g_exitArmed = false;
    longjmp(g_exitJmp, 1);
}

// -------------------------------------------------------------- file system
void FsSeam::apply(const std::string& e) {
    size_t c = e.find(':');
    std::string op = e.substr(0, c), p = c == std::string::npos ? "" : e.substr(c + 1);
    if (op == "rm") nodes.erase(p);
    else if (op == "file") nodes[p] = FsNode{'f', ""};
    else if (op == "dir") nodes[p] = FsNode{'d', ""};
    else if (op == "other" || op == "block" || op == "fifo" || op == "socket") nodes[p] = FsNode{op == "fifo" ? 'p' : op[0], ""};
    else if (op == "link") {
        size_t d = p.find('>');
        nodes[p.substr(0, d)] = FsNode{'l', p.substr(d + 1)};
    }
}

int FsSeam::lookup(const std::string& path, int* err) const {
    std::string p = path;
    for (int hop = 0; hop < 8; ++hop) {
        if (p.empty()) {
            *err = ENOENT;
            return 0;
        }
        auto it = nodes.find(p);
        if (it == nodes.end()) {
            *err = ENOENT;
            return 0;
        }
        if (it->second.type != 'l') {
            *err = 0;
            return it->second.type;
        }
        p = it->second.target;
    }
    *err = ELOOP;
    return 0;
}

static int errnoOf(const std::string& s) {
    if (s == "EIO") return EIO;
    if (s == "EACCES") return EACCES;
    if (s == "ELOOP") return ELOOP;
    if (s == "ENAMETOOLONG") return ENAMETOOLONG;
    if (s == "ENOTDIR") return ENOTDIR;
    if (s == "EOVERFLOW") return EOVERFLOW;
    if (s == "ENOMEM") return ENOMEM;
    if (s == "EINTR") return EINTR;
    return ENOENT;
}
int errnoFromName(const std::string& s) { return errnoOf(s); }

static int simStat(const char* call, const char* path, bool follow, int* type) {
    OutLib o;
    ++g_fs.calls;
    auto ev = g_fs.ev.find(g_fs.calls);
    if (ev != g_fs.ev.end())
        for (auto& e : ev->second) {
            g_fs.apply(e);
            ++g_fs.evFired;
        }
    FsRec r;
    r.call = call;
    r.path = path;
    r.err = 0;
    r.type = 0;
    auto f = g_fs.failAt.find(g_fs.calls);
    if (f != g_fs.failAt.end()) {
        r.err = f->second;
        ++g_fs.fired;
    }
    else if (g_fs.failFrom > 0 && g_fs.calls >= g_fs.failFrom) {
        r.err = g_fs.failFromErr;
        ++g_fs.fired;
    }
    else if (!follow) {
        auto it = g_fs.nodes.find(path);
        if (it == g_fs.nodes.end()) r.err = ENOENT;
        else r.type = it->second.type;
    }
    else r.type = g_fs.lookup(path, &r.err);
    g_fs.log.push_back(r);
    *type = r.type;
    return r.err;
}

static int fillStat(struct stat* st, int err, int type) {
    const std::string& path = g_fs.log.back().path;
    unsigned h = 2166136261u;
    for (size_t i = 0; i < path.size(); ++i) h = (h ^ (unsigned char)path[i]) * 16777619u;
    h ^= h >> 13;
    memset(st, 0, sizeof *st);
    if (err != 0) {
        // an error leaves the buffer unspecified
        st->st_mode = (g_fs.calls & 1) ? (S_IFDIR | 0755) : (S_IFREG | 0644);
        errno = err;
        return -1;
    }
    // the kinds that are neither file nor directory, permissions and sizes of every sort
    static const mode_t perm[] = {0755, 0644, 0600, 0, 07777, 0111};
    st->st_mode = (type == 'd' ? S_IFDIR : type == 'f' ? S_IFREG : type == 'l' ? S_IFLNK : type == 'b' ? S_IFBLK : type == 'p' ? S_IFIFO : type == 's' ? S_IFSOCK : S_IFCHR) | perm[(h >> 4) % 6];
    st->st_size = (off_t)((h >> 8) % 3) * 4096;
    st->st_uid = (h >> 12) % 2 ? 1000 : 0;
    st->st_nlink = 1;
    return 0;
}

// ---------------------------------------------------------- standard output
namespace {
struct Buf : std::streambuf {
    std::streamsize put(const char* s, std::streamsize n) {
        std::streamsize k = n;
        if (g_out.failAfter >= 0) {
            long room = g_out.failAfter - (long)g_out.len;
            if (room < 0) room = 0;
            if (k > room) {
                k = room;
                ++g_out.fired;
            }
        }
        if (g_out.len + (size_t)k > OutSeam::CAP) k = (std::streamsize)(OutSeam::CAP - g_out.len);
        memcpy(g_out.buf + g_out.len, s, (size_t)k);
        g_out.len += (size_t)k;
        return k;
    }
    int overflow(int c) override {
        if (c == EOF) return 0;
        char ch = (char)c;
        return put(&ch, 1) == 1 ? c : EOF;
    }
    std::streamsize xsputn(const char* s, std::streamsize n) override { return put(s, n); }
    int sync() override {
        if (g_out.failAfter >= 0 && (long)g_out.len >= g_out.failAfter) return -1;
        return 0;
    }
};
Buf* g_buf = nullptr;
int g_fd1 = -1;
} // namespace
FILE* g_report = nullptr;

void outInstall() {
    g_out.buf = (char*)malloc(OutSeam::CAP);
    g_buf = new Buf;
    std::cout.rdbuf(g_buf);
    // bytes that bypass std::cout land in a scratch memory file
    g_fd1 = memfd_create("simstdout", 0);
    fflush(stdout);
    g_report = fdopen(dup(1), "w");
    dup2(g_fd1, 1);
}
void outReset(long failAfter) {
    g_out.len = 0;
    g_out.failAfter = failAfter;
    g_out.fired = 0;
    std::cout.clear();
    std::cout.exceptions(std::ios::goodbit);
}
void outCollect() {
    fflush(stdout);
    off_t n = lseek(g_fd1, 0, SEEK_END);
    if (n <= 0) return;
    if (g_out.len + (size_t)n <= OutSeam::CAP) {
        ssize_t k = pread(g_fd1, g_out.buf + g_out.len, (size_t)n, 0);
        if (k > 0) g_out.len += (size_t)k;
    }
    if (ftruncate(g_fd1, 0) == 0) lseek(g_fd1, 0, SEEK_SET);
}

// -------------------------------------------------------------------- steps
namespace {
const size_t MAXG = 1 << 17;
uint8_t g_hit[MAXG];
uint8_t g_ever[MAXG];
uint32_t g_cur[MAXG];
size_t g_ncur = 0, g_nguard = 0, g_never = 0;
} // namespace

void edgesReset() {
    g_readSteps = 0;
    for (size_t i = 0; i < g_ncur; ++i) g_hit[g_cur[i]] = 0;
    g_ncur = 0;
    g_pathHash = 1469598103934665603ULL;
}
uint64_t edgesHash() {
    uint64_t h = 0;
    for (size_t i = 0; i < g_ncur; ++i) h += mix(g_cur[i], 77);
    return h;
}
size_t edgesTotalHit() { return g_never; }
size_t edgesKnown() { return g_nguard; }

} // namespace sim

extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t* start, uint32_t* stop) {
    if (start == stop || *start) return;
    for (uint32_t* x = start; x < stop; x++) *x = (uint32_t)(++sim::g_nguard);
}
extern "C" void __sanitizer_cov_trace_pc_guard(uint32_t* guard) {
    using namespace sim;
    if (!g_inLib) {
        // what the checks themselves read has an end as well
        if (++g_readSteps > 10 * g_stepLimit && g_onHang) g_onHang();
        return;
    }
    uint32_t g = *guard;
    if (g >= MAXG) return;
    ++g_steps;
    g_pathHash = (g_pathHash ^ g) * 1099511628211ULL;
    if (!g_hit[g]) {
        g_hit[g] = 1;
        g_cur[g_ncur++] = g;
        if (!g_ever[g]) {
            g_ever[g] = 1;
            ++g_never;
        }
    }
    if (g_steps > g_stepLimit && g_onHang) g_onHang();
}

// ------------------------------------------------------------ global new
void* operator new(size_t n) { return sim::allocate(n, 1, false); }
void* operator new[](size_t n) { return sim::allocate(n, 2, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return sim::allocate(n, 1, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return sim::allocate(n, 2, true); }
void operator delete(void* p) noexcept { sim::release(p, 1); }
void operator delete[](void* p) noexcept { sim::release(p, 2); }
void operator delete(void* p, size_t) noexcept { sim::release(p, 1); }
void operator delete[](void* p, size_t) noexcept { sim::release(p, 2); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim::release(p, 1); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim::release(p, 2); }

// ------------------------------------------------------- wrapped libc calls
extern "C" {
void __real_exit(int) __attribute__((noreturn));
int __real_stat(const char*, struct stat*);
int __real_lstat(const char*, struct stat*);
int __real_access(const char*, int);

void __wrap_exit(int st) {
    if (sim::g_inLib && sim::g_exitArmed) sim::leave(st, "exit");
    __real_exit(st);
}
int __wrap_stat(const char* p, struct stat* st) {
    if (!sim::g_inLib) return __real_stat(p, st);
    int t, e = sim::simStat("stat", p, true, &t);
    return sim::fillStat(st, e, t);
}
int __wrap_lstat(const char* p, struct stat* st) {
    if (!sim::g_inLib) return __real_lstat(p, st);
    int t, e = sim::simStat("lstat", p, false, &t);
    return sim::fillStat(st, e, t);
}
int __wrap_fstatat(int, const char* p, struct stat* st, int fl) {
    int t, e = sim::simStat(fl & AT_SYMLINK_NOFOLLOW ? "lstat" : "stat", p, !(fl & AT_SYMLINK_NOFOLLOW), &t);
    return sim::fillStat(st, e, t);
}
int __wrap_access(const char* p, int m) {
    if (!sim::g_inLib) return __real_access(p, m);
    int t, e = sim::simStat("access", p, true, &t);
    if (e) {
        errno = e;
        return -1;
    }
    return 0;
}
void __real__exit(int) __attribute__((noreturn));
void __wrap__exit(int st) {
    if (sim::g_inLib && sim::g_exitArmed) sim::leave(st, "_exit");
    __real__exit(st);
}
void __real_quick_exit(int) __attribute__((noreturn));
void __wrap_quick_exit(int st) {
    if (sim::g_inLib && sim::g_exitArmed) sim::leave(st, "quick_exit");
    __real_quick_exit(st);
}
}
