#include "rt.h"

#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>

#include <atomic>
#include <new>

namespace rt {

Switch* g_rec;
size_t* g_nrec;

namespace {

// ------------------------------------------------------------------ memory

const uintptr_t HEAP = 0x500000000000ULL;
const size_t HEAP_SIZE = 96u << 20;
const uintptr_t SHADOW = 0x510000000000ULL;
const uintptr_t DSHADOW = 0x520000000000ULL;

struct Cell {
    uint32_t wclk[MAXT], rclk[MAXT];
    uint8_t wmask[MAXT], rmask[MAXT];
    uint32_t wpc[MAXT], rpc[MAXT];
    uint8_t freed;
    uint8_t pad[3];
};

bool g_arena = false;
uintptr_t g_bump = HEAP;
struct FreeNode {
    FreeNode* next;
};
const int CLASSES = 96;
FreeNode* g_free[CLASSES];

uintptr_t g_dataLo, g_dataHi;
extern "C" char __data_start, _end;

int classOf(size_t n, size_t* size) {
    // header of 16 bytes holds the class and the size asked for
    if (n <= 1024) {
        size_t k = (n + 15) / 16;
        if (k == 0) k = 1;
        *size = k * 16;
        return (int)k;  // 1..64
    }
    int c = 65;
    size_t s = 2048;
    while (s < n) {
        s *= 2;
        ++c;
    }
    *size = s;
    return c;
}

inline bool inHeap(uintptr_t a) { return a - HEAP < HEAP_SIZE; }
inline Cell* cellOf(uintptr_t a) {
    if (inHeap(a)) return (Cell*)SHADOW + ((a - HEAP) >> 3);
    if (a >= g_dataLo && a < g_dataHi) return (Cell*)DSHADOW + ((a - (g_dataLo & ~7ULL)) >> 3);
    return nullptr;
}

// --------------------------------------------------------------- scheduling

struct Th {
    pthread_t th;
    std::atomic<int> go;
    bool done = false;
    uint64_t steps = 0;
    uint32_t vc[MAXT];
    int quiet = 0;
    long prio = 0;
    size_t nextSw = 0;
};

Th g_t[MAXT];
__thread int t_id = -1;
volatile bool g_on = false;
int g_n = 0;
Sched* g_s = nullptr;
Result* g_r = nullptr;
uint64_t g_rng;
uint64_t g_countdown = 0;
uint64_t g_blockedInRow = 0;
std::vector<Switch>* g_per[MAXT];
uint64_t g_points[16];
int g_npoints = 0;
long g_low = 0;
std::atomic<int> g_mainGo;
void (*g_fn)(int);
struct Sync {
    uintptr_t key;
    uint32_t vc[MAXT];
    int state;
};
Sync g_sync[4096];

void futexWait(std::atomic<int>& v) {
    while (v.load(std::memory_order_acquire) == 0) syscall(SYS_futex, (int*)&v, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
    v.store(0, std::memory_order_relaxed);
}
void futexPost(std::atomic<int>& v) {
    v.store(1, std::memory_order_release);
    syscall(SYS_futex, (int*)&v, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

uint64_t rnd() {
    g_rng += 0x9E3779B97F4A7C15ULL;
    uint64_t z = g_rng;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
}
double unit() { return (double)(rnd() >> 11) / 9007199254740992.0; }
uint64_t geometric(double p) {
    uint64_t k = 1;
    // bounded, exact enough
    while (k < 200000) {
        double u = unit();
        if (u < p) break;
        // skip ahead in blocks when p is small
        if (p < 0.02) {
            uint64_t block = (uint64_t)(0.5 / p);
            k += 1 + rnd() % block;
            if (unit() < 0.35) break;
        }
        else ++k;
    }
    return k;
}

void handTo(int me, int to) {
    ++g_r->switches;
    int e = errno;
    futexPost(g_t[to].go);
    futexWait(g_t[me].go);
    errno = e;
}

int pickOther(int me) {
    int c[MAXT], n = 0;
    for (int i = 1; i <= g_n; ++i)
        if (i != me && !g_t[i].done) c[n++] = i;
    if (n == 0) return 0;
    return c[rnd() % (uint64_t)n];
}
int best(int not_) {
    int b = 0;
    for (int i = 1; i <= g_n; ++i)
        if (i != not_ && !g_t[i].done && (b == 0 || g_t[i].prio > g_t[b].prio)) b = i;
    return b;
}
int lowest() {
    for (int i = 1; i <= g_n; ++i)
        if (!g_t[i].done) return i;
    return 0;
}

void note(int me, uint64_t step, int to) {
    if (*g_nrec < MAXREC) g_rec[(*g_nrec)++] = Switch{me, step, to};
}

inline void yieldPoint(int me, bool entry, uintptr_t addr, bool write) {
    Th& t = g_t[me];
    ++t.steps;
    ++g_r->steps;
    g_blockedInRow = 0;
    int to = 0;
    switch (g_s->kind) {
        case Sched::REPLAY: {
            std::vector<Switch>& v = *g_per[me];
            while (t.nextSw < v.size() && v[t.nextSw].step < t.steps) ++t.nextSw;
            if (t.nextSw < v.size() && v[t.nextSw].step == t.steps) {
                to = v[t.nextSw].to;
                ++t.nextSw;
                if (to == me || to < 1 || to > g_n || g_t[to].done) to = 0;
            }
            if (to) handTo(me, to);
            return;
        }
        case Sched::RANDOM:
            if (g_r->switches >= g_s->maxSwitches) return;
            if (--g_countdown == 0) {
                g_countdown = geometric(g_s->p);
                to = pickOther(me);
            }
            break;
        case Sched::PCT:
            for (int i = 0; i < g_npoints; ++i)
                if (g_points[i] == g_r->steps) t.prio = --g_low;
            to = best(-1);
            if (to == me) to = 0;
            break;
        case Sched::ENTRY:
            if (g_r->switches >= g_s->maxSwitches) return;
            if (entry && unit() < g_s->p) to = pickOther(me);
            break;
        case Sched::HOT:
            // around accesses to static storage and around writes
            if (g_r->switches >= g_s->maxSwitches) return;
            if (!inHeap(addr) && addr >= g_dataLo && addr < g_dataHi) {
                if (unit() < 0.5) to = pickOther(me);
            }
            else if (write && unit() < g_s->p) to = pickOther(me);
            break;
    }
    if (to) {
        note(me, t.steps, to);
        handTo(me, to);
    }
}

// the thread cannot go on before another one does something
void blocked(int me) {
    ++g_r->blocked;
    if (++g_blockedInRow > 20000) {
        _exit(42);
    }
    // round robin: everybody gets to run
    int to = 0;
    for (int k = 1; k <= g_n && !to; ++k) {
        int c = (me - 1 + k) % g_n + 1;
        if (c != me && !g_t[c].done) to = c;
    }
    if (g_s->kind == Sched::PCT && to) g_t[me].prio = --g_low;
    if (to) handTo(me, to);
}

// ------------------------------------------------------------ happens-before

Sync& syncOf(uintptr_t key) {
    size_t h = (key >> 3) * 0x9E3779B97F4A7C15ULL >> 52;
    for (size_t i = 0; i < 4096; ++i) {
        Sync& s = g_sync[(h + i) & 4095];
        if (s.key == key) return s;
        if (s.key == 0) {
            s.key = key;
            return s;
        }
    }
    abort();
}
void acquire(int me, uintptr_t key) {
    Sync& s = syncOf(key);
    for (int i = 0; i < MAXT; ++i)
        if (s.vc[i] > g_t[me].vc[i]) g_t[me].vc[i] = s.vc[i];
}
void release(int me, uintptr_t key) {
    Sync& s = syncOf(key);
    for (int i = 0; i < MAXT; ++i)
        if (g_t[me].vc[i] > s.vc[i]) s.vc[i] = g_t[me].vc[i];
    ++g_t[me].vc[me];
}

void report(int me, int other, bool w, bool ow, uint64_t pc, uint64_t opc, unsigned size, bool isFree) {
    for (auto& r : g_r->races)
        if (r.pc[0] == pc && r.pc[1] == opc) return;
    if (g_r->races.size() >= 8) return;
    Race r;
    r.pc[0] = pc;
    r.pc[1] = opc;
    r.thread[0] = me;
    r.thread[1] = other;
    r.write[0] = w;
    r.write[1] = ow;
    r.size = size;
    r.isFree = isFree;
    g_r->races.push_back(r);
}

inline void check(int me, uintptr_t a, size_t n, bool w, uint64_t pc, bool isFree = false) {
    uintptr_t end = a + n;
    Th& t = g_t[me];
    while (a < end) {
        uintptr_t next = (a & ~7ULL) + 8;
        if (next > end) next = end;
        Cell* c = cellOf(a);
        if (!c) return;
        ++g_r->checked;
        uint8_t mask = (uint8_t)(((1u << (next - a)) - 1) << (a & 7));
        for (int o = 0; o < MAXT; ++o) {
            if (o == me) continue;
            if ((c->wmask[o] & mask) && c->wclk[o] > t.vc[o]) report(me, o, w, true, pc, c->wpc[o], (unsigned)n, isFree || c->freed);
            if (w && (c->rmask[o] & mask) && c->rclk[o] > t.vc[o]) report(me, o, w, false, pc, c->rpc[o], (unsigned)n, isFree);
        }
        uint32_t now = t.vc[me];
        uint32_t* clk = w ? c->wclk : c->rclk;
        uint8_t* m = w ? c->wmask : c->rmask;
        uint32_t* p = w ? c->wpc : c->rpc;
        if (clk[me] == now) m[me] |= mask;
        else {
            clk[me] = now;
            m[me] = mask;
        }
        p[me] = (uint32_t)pc;
        if (isFree) c->freed = 1;
        a = next;
    }
}

inline void access(const void* p, size_t n, bool w, uint64_t pc) {
    int me = t_id;
    if (me < 1 || !g_on) return;
    if (g_t[me].quiet || n == 0) return;
    uintptr_t a = (uintptr_t)p;
    yieldPoint(me, false, a, w);
    check(me, a, n, w, pc);
}

void* allocate(size_t n) {
    if (!g_arena) return malloc(n);
    size_t size;
    int c = classOf(n, &size);
    uintptr_t p;
    if (c < CLASSES && g_free[c]) {
        p = (uintptr_t)g_free[c];
        g_free[c] = g_free[c]->next;
    }
    else {
        if (g_bump + size + 16 > HEAP + HEAP_SIZE) return nullptr;
        p = g_bump + 16;
        g_bump += size + 16;
    }
    ((uint64_t*)p)[-2] = (uint64_t)c;
    ((uint64_t*)p)[-1] = n;
    if (t_id >= 1 && g_on) {
        ++g_r->allocs;
        memset((void*)cellOf(p), 0, sizeof(Cell) * (size / 8));
    }
    // the content of fresh memory never depends on what was there before
    memset((void*)p, 0xA5, size);
    return (void*)p;
}

void release_(void* q, uint64_t pc) {
    if (!q) return;
    uintptr_t p = (uintptr_t)q;
    if (!inHeap(p)) {
        if (!g_arena) free(q);
        return;
    }
    size_t n = ((uint64_t*)p)[-1];
    int c = (int)((uint64_t*)p)[-2];
    if (t_id >= 1 && g_on && !g_t[t_id].quiet) {
        yieldPoint(t_id, false, p, true);
        check(t_id, p, n, true, pc, true);
    }
    FreeNode* f = (FreeNode*)p;
    f->next = g_free[c];
    g_free[c] = f;
}

void* body(void* arg) {
    int id = (int)(intptr_t)arg;
    futexWait(g_t[id].go);
    t_id = id;
    g_fn(id);
    // the end of a thread
    Th& t = g_t[id];
    t.done = true;
    int to = 0;
    if (g_s->kind == Sched::REPLAY) {
        for (auto& s : *g_per[id])
            if (s.step == END && s.to >= 1 && s.to <= g_n && !g_t[s.to].done) to = s.to;
        if (!to) to = lowest();
    }
    else {
        to = g_s->kind == Sched::PCT ? best(id) : pickOther(id);
        if (to) note(id, END, to);
    }
    release(id, (uintptr_t)&g_t[id]);
    t_id = -1;
    if (to) futexPost(g_t[to].go);
    else {
        g_on = false;
        futexPost(g_mainGo);
    }
    return nullptr;
}

} // namespace

void childInit() {
    void* h = mmap((void*)HEAP, HEAP_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
    void* s = mmap((void*)SHADOW, HEAP_SIZE / 8 * sizeof(Cell), PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
    g_dataLo = (uintptr_t)&__data_start;
    g_dataHi = (uintptr_t)&_end;
    void* d = mmap((void*)DSHADOW, ((g_dataHi - g_dataLo) / 8 + 2) * sizeof(Cell), PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
    if (h == MAP_FAILED || s == MAP_FAILED || d == MAP_FAILED) {
        fprintf(stderr, "tsim: no memory for the shadow\n");
        _exit(3);
    }
    g_arena = true;
}

Result run(int n, void (*fn)(int), Sched* s) {
    Result r;
    r.races.reserve(8);
    g_r = &r;
    g_s = s;
    g_n = n;
    g_fn = fn;
    g_rng = s->seed;
    std::vector<Switch> per[MAXT];
    for (int i = 0; i < MAXT; ++i) {
        g_per[i] = &per[i];
        for (int k = 0; k < MAXT; ++k) g_t[i].vc[k] = i == k ? 1 : 0;
    }
    int first = 1;
    if (s->kind == Sched::REPLAY) {
        for (auto& x : s->list) {
            if (x.thread == 0 && x.to >= 1 && x.to <= n) first = x.to;
            else if (x.thread >= 1 && x.thread <= n) per[x.thread].push_back(x);
        }
    }
    else {
        first = 1 + (int)(rnd() % (uint64_t)n);
        s->list.clear();
        *g_nrec = 0;
        note(0, 0, first);
        g_countdown = geometric(s->p);
        for (int i = 1; i <= n; ++i) g_t[i].prio = 1000 + (long)(rnd() % 1000) * 8 + i;
        g_t[first].prio = 100000;
        g_npoints = s->depth > 16 ? 16 : s->depth;
        for (int i = 0; i < g_npoints; ++i) g_points[i] = 1 + rnd() % (s->length ? s->length : 1000);
    }
    // what main did so far happened before everything the threads do
    for (int i = 1; i <= n; ++i) g_t[i].vc[0] = 1;
    g_t[0].vc[0] = 2;
    for (int i = 1; i <= n; ++i)
        if (pthread_create(&g_t[i].th, nullptr, body, (void*)(intptr_t)i) != 0) _exit(3);
    g_on = true;
    futexPost(g_t[first].go);
    futexWait(g_mainGo);
    for (int i = 1; i <= n; ++i) pthread_join(g_t[i].th, nullptr);
    for (int i = 1; i <= n; ++i) r.perThread[i] = g_t[i].steps;
    g_r = nullptr;
    if (s->kind != Sched::REPLAY) s->list.assign(g_rec, g_rec + *g_nrec);
    return r;
}

Quiet::Quiet() {
    if (t_id >= 1) ++g_t[t_id].quiet;
}
Quiet::~Quiet() {
    if (t_id >= 1) --g_t[t_id].quiet;
}

namespace {
inline int self() { return t_id >= 1 && g_on ? t_id : 0; }
} // namespace

} // namespace rt

using namespace rt;
#define PC ((uint64_t)__builtin_return_address(0))
#define ACC(p, n, w) access((const void*)(p), (size_t)(n), (w), PC)

// ------------------------------------------------ interface of the compiler

extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {
    int me = t_id;
    if (me >= 1 && g_on && !g_t[me].quiet) yieldPoint(me, true, 0, false);
}
void __tsan_func_exit() {}
#define RW(n)                                                        \
    void __tsan_read##n(void* p) { ACC(p, n, false); }               \
    void __tsan_write##n(void* p) { ACC(p, n, true); }               \
    void __tsan_unaligned_read##n(void* p) { ACC(p, n, false); }     \
    void __tsan_unaligned_write##n(void* p) { ACC(p, n, true); }     \
    void __tsan_volatile_read##n(void* p) { ACC(p, n, false); }      \
    void __tsan_volatile_write##n(void* p) { ACC(p, n, true); }      \
    void __tsan_unaligned_volatile_read##n(void* p) { ACC(p, n, false); }  \
    void __tsan_unaligned_volatile_write##n(void* p) { ACC(p, n, true); }  \
    void __tsan_read_write##n(void* p) {                             \
        ACC(p, n, false);                                            \
        ACC(p, n, true);                                             \
    }                                                                \
    void __tsan_unaligned_read_write##n(void* p) {                   \
        ACC(p, n, false);                                            \
        ACC(p, n, true);                                             \
    }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { ACC(p, n, false); }
void __tsan_write_range(void* p, unsigned long n) { ACC(p, n, true); }
void __tsan_vptr_update(void** p, void* v) {
    if (*p != v) ACC(p, 8, true);
    else ACC(p, 8, false);
}
void __tsan_vptr_read(void** p) { ACC(p, 8, false); }
void* __tsan_memcpy(void* d, const void* s, size_t n) {
    ACC(s, n, false);
    ACC(d, n, true);
    return memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, size_t n) {
    ACC(s, n, false);
    ACC(d, n, true);
    return memmove(d, s, n);
}
void* __tsan_memset(void* d, int c, size_t n) {
    ACC(d, n, true);
    return memset(d, c, n);
}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
void __tsan_acquire(void* p) {
    if (int me = self()) acquire(me, (uintptr_t)p);
}
void __tsan_release(void* p) {
    if (int me = self()) release(me, (uintptr_t)p);
}
void __tsan_mutex_pre_lock(void*, unsigned) {}
void __tsan_mutex_post_lock(void*, unsigned, int) {}
int __tsan_mutex_pre_unlock(void*, unsigned) { return 0; }
void __tsan_mutex_post_unlock(void*, unsigned) {}
void __tsan_mutex_pre_signal(void*, unsigned) {}
void __tsan_mutex_post_signal(void*, unsigned) {}
void __tsan_mutex_destroy(void*, unsigned) {}
void __tsan_mutex_create(void*, unsigned) {}

// atomics: sequentially consistent here, ordered as asked for the detector
static inline bool acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
static inline bool rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }
static inline void atomicPoint(const volatile void* p, bool w) {
    int me = t_id;
    if (me >= 1 && g_on && !g_t[me].quiet) yieldPoint(me, false, (uintptr_t)p, w);
}
static inline void before(const volatile void* p, int mo) {
    int me = self();
    if (me && rel(mo)) release(me, (uintptr_t)p);
}
static inline void after(const volatile void* p, int mo) {
    int me = self();
    if (me && acq(mo)) acquire(me, (uintptr_t)p);
}
#define AT(bits, T)                                                                               \
    T __tsan_atomic##bits##_load(const volatile T* p, int mo) {                                   \
        atomicPoint(p, false);                                                                    \
        T v = *p;                                                                                 \
        after(p, mo);                                                                             \
        return v;                                                                                 \
    }                                                                                             \
    void __tsan_atomic##bits##_store(volatile T* p, T v, int mo) {                                \
        atomicPoint(p, true);                                                                     \
        before(p, mo);                                                                            \
        *p = v;                                                                                   \
    }                                                                                             \
    T __tsan_atomic##bits##_exchange(volatile T* p, T v, int mo) {                                \
        atomicPoint(p, true);                                                                     \
        after(p, mo);                                                                             \
        before(p, mo);                                                                            \
        T o = *p;                                                                                 \
        *p = v;                                                                                   \
        return o;                                                                                 \
    }                                                                                             \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int fmo) { \
        atomicPoint(p, true);                                                                     \
        if (*p == *e) {                                                                           \
            after(p, mo);                                                                         \
            before(p, mo);                                                                        \
            *p = v;                                                                               \
            return 1;                                                                             \
        }                                                                                         \
        after(p, fmo);                                                                            \
        *e = *p;                                                                                  \
        return 0;                                                                                 \
    }                                                                                             \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int fmo) {   \
        return __tsan_atomic##bits##_compare_exchange_strong(p, e, v, mo, fmo);                   \
    }                                                                                             \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T e, T v, int mo, int fmo) {       \
        __tsan_atomic##bits##_compare_exchange_strong(p, &e, v, mo, fmo);                         \
        return e;                                                                                 \
    }
#define ATF(bits, T, name, expr)                              \
    T __tsan_atomic##bits##_fetch_##name(volatile T* p, T v, int mo) { \
        atomicPoint(p, true);                                 \
        after(p, mo);                                         \
        before(p, mo);                                        \
        T o = *p;                                             \
        *p = (T)(expr);                                       \
        return o;                                             \
    }
#define ATALL(bits, T)         \
    AT(bits, T)                \
    ATF(bits, T, add, o + v)   \
    ATF(bits, T, sub, o - v)   \
    ATF(bits, T, and, o & v)   \
    ATF(bits, T, or, o | v)    \
    ATF(bits, T, xor, o ^ v)   \
    ATF(bits, T, nand, ~(o & v))
ATALL(8, uint8_t) ATALL(16, uint16_t) ATALL(32, uint32_t) ATALL(64, uint64_t)
void __tsan_atomic_thread_fence(int) {
    if (int me = self()) {
        static char fence;
        acquire(me, (uintptr_t)&fence);
        release(me, (uintptr_t)&fence);
    }
}
void __tsan_atomic_signal_fence(int) {}

// ---------------------------------------------------------- synchronization

#define LOCK(realtry, realfn, m)                       \
    int me = self();                                   \
    if (!me) return realfn(m);                         \
    atomicPoint(m, true);                              \
    int e;                                             \
    while ((e = realtry(m)) == EBUSY) blocked(me);     \
    if (e == 0) acquire(me, (uintptr_t)m);             \
    return e;
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_trylock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { LOCK(__real_pthread_mutex_trylock, __real_pthread_mutex_lock, m) }
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) {
    int me = self();
    int e = __real_pthread_mutex_trylock(m);
    if (me && e == 0) acquire(me, (uintptr_t)m);
    return e;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
    if (int me = self()) release(me, (uintptr_t)m);
    return __real_pthread_mutex_unlock(m);
}
int __real_pthread_rwlock_rdlock(pthread_rwlock_t*);
int __real_pthread_rwlock_wrlock(pthread_rwlock_t*);
int __real_pthread_rwlock_unlock(pthread_rwlock_t*);
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m) { LOCK(pthread_rwlock_tryrdlock, __real_pthread_rwlock_rdlock, m) }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m) { LOCK(pthread_rwlock_trywrlock, __real_pthread_rwlock_wrlock, m) }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m) {
    if (int me = self()) release(me, (uintptr_t)m);
    return __real_pthread_rwlock_unlock(m);
}
int __real_pthread_once(pthread_once_t*, void (*)());
int __wrap_pthread_once(pthread_once_t* o, void (*f)()) {
    int me = self();
    if (!me) return __real_pthread_once(o, f);
    atomicPoint(o, true);
    Sync& s = syncOf((uintptr_t)o);
    while (s.state == 1) blocked(me);
    if (s.state == 0) {
        s.state = 1;
        try {
            f();
        }
        catch (...) {
            s.state = 0;
            throw;
        }
        s.state = 2;
        release(me, (uintptr_t)o);
    }
    acquire(me, (uintptr_t)o);
    return 0;
}
int __real___cxa_guard_acquire(char*);
void __real___cxa_guard_release(char*);
void __real___cxa_guard_abort(char*);
int __wrap___cxa_guard_acquire(char* g) {
    int me = self();
    if (!me) return __real___cxa_guard_acquire(g);
    atomicPoint(g, true);
    Sync& s = syncOf((uintptr_t)g);
    while (s.state == 1) blocked(me);
    if (*(volatile char*)g) {
        acquire(me, (uintptr_t)g);
        return 0;
    }
    s.state = 1;
    return 1;
}
void __wrap___cxa_guard_release(char* g) {
    int me = self();
    if (!me) return __real___cxa_guard_release(g);
    *(volatile char*)g = 1;
    syncOf((uintptr_t)g).state = 2;
    release(me, (uintptr_t)g);
}
void __wrap___cxa_guard_abort(char* g) {
    int me = self();
    if (!me) return __real___cxa_guard_abort(g);
    syncOf((uintptr_t)g).state = 0;
}

// ------------------------------------------------- C functions that read memory

size_t __real_strlen(const char*);
size_t __wrap_strlen(const char* s) {
    size_t n = __real_strlen(s);
    ACC(s, n + 1, false);
    return n;
}
int __real_memcmp(const void*, const void*, size_t);
int __wrap_memcmp(const void* a, const void* b, size_t n) {
    ACC(a, n, false);
    ACC(b, n, false);
    return __real_memcmp(a, b, n);
}
int __real_strcmp(const char*, const char*);
int __wrap_strcmp(const char* a, const char* b) {
    ACC(a, __real_strlen(a) + 1, false);
    ACC(b, __real_strlen(b) + 1, false);
    return __real_strcmp(a, b);
}
void* __real_memchr(const void*, int, size_t);
void* __wrap_memchr(const void* a, int c, size_t n) {
    void* r = __real_memchr(a, c, n);
    ACC(a, r ? (size_t)((char*)r - (const char*)a) + 1 : n, false);
    return r;
}
char* __real_strncpy(char*, const char*, size_t);
char* __wrap_strncpy(char* d, const char* s, size_t n) {
    ACC(d, n, true);
    return __real_strncpy(d, s, n);
}
double __real_strtod(const char*, char**);
double __wrap_strtod(const char* s, char** e) {
    char* q;
    double v = __real_strtod(s, &q);
    ACC(s, q - s + 1, false);
    if (e) *e = q;
    return v;
}
// hidden static state of the C library
static long g_hidden[8];
char* __real_strtok(char*, const char*);
char* __wrap_strtok(char* s, const char* d) {
    ACC(&g_hidden[0], 8, true);
    return __real_strtok(s, d);
}
char* __real_setlocale(int, const char*);
char* __wrap_setlocale(int c, const char* l) {
    ACC(&g_hidden[1], 8, l != nullptr);
    return __real_setlocale(c, l);
}
int __real_setenv(const char*, const char*, int);
int __wrap_setenv(const char* n, const char* v, int o) {
    ACC(&g_hidden[2], 8, true);
    return __real_setenv(n, v, o);
}
int __real_putenv(char*);
int __wrap_putenv(char* s) {
    ACC(&g_hidden[2], 8, true);
    return __real_putenv(s);
}
char* __real_getenv(const char*);
char* __wrap_getenv(const char* n) {
    ACC(&g_hidden[2], 8, false);
    return __real_getenv(n);
}
char* __real_strerror(int);
char* __wrap_strerror(int e) {
    ACC(&g_hidden[3], 8, true);
    return __real_strerror(e);
}
int __real_rand();
int __wrap_rand() {
    ACC(&g_hidden[4], 8, true);
    return __real_rand();
}

// red-black trees of libstdc++: inserting and erasing write to the tree's header
void __real__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool, void*, void*, void*);
void __wrap__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool l, void* x, void* p, void* h) {
    ACC(x, 32, true);
    ACC(p, 32, true);
    ACC(h, 32, true);
    __real__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(l, x, p, h);
}
void* __real__ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(void*, void*);
void* __wrap__ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(void* z, void* h) {
    ACC(z, 32, true);
    ACC(h, 32, true);
    return __real__ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(z, h);
}
void* __real__ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base(void*);
void* __wrap__ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base(void* x) {
    ACC(x, 32, false);
    return __real__ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base(x);
}
void* __real__ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base(const void*);
void* __wrap__ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base(const void* x) {
    ACC(x, 32, false);
    return __real__ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base(x);
}
} // extern "C"

// ------------------------------------------------------------------ operators

void* operator new(size_t n) {
    void* p = allocate(n);
    if (!p) throw std::bad_alloc();
    return p;
}
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return allocate(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return allocate(n); }
void operator delete(void* p) noexcept { release_(p, PC); }
void operator delete[](void* p) noexcept { release_(p, PC); }
void operator delete(void* p, size_t) noexcept { release_(p, PC); }
void operator delete[](void* p, size_t) noexcept { release_(p, PC); }
void operator delete(void* p, const std::nothrow_t&) noexcept { release_(p, PC); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { release_(p, PC); }
