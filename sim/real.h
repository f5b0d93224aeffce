// Instrumented callbacks and the public-API observer of the code under test.
#ifndef SIM_REAL_H_
#define SIM_REAL_H_

#ifdef SIM_SINGLE
#include SIM_SINGLE
#else
#include "blet/args.h"
#endif

#include <sanitizer/asan_interface.h>
#include <memory>
#include <stdexcept>

#include "model.h"
#include "seam.h"

namespace sim {

typedef blet::args::Argument RArg;
typedef blet::args::ArgumentElement RElem;

// ---------------------------------------------------------------- exceptions
struct CustError : std::runtime_error {
    using std::runtime_error::runtime_error;
};
[[noreturn]] void throwExc(const Exc& e);
// run f, translating whatever it throws
template<class F>
Exc guarded(F f) {
    try {
        f();
    }
    catch (const blet::Args::HelpException& e) {
        OutLib o;
        return Exc("HelpException", "", e.what());
    }
    catch (const blet::Args::VersionException& e) {
        OutLib o;
        return Exc("VersionException", "", e.what());
    }
    catch (const blet::Args::ParseArgumentRequiredException& e) {
        OutLib o;
        return Exc("ParseArgumentRequiredException", e.argument(), e.what());
    }
    catch (const blet::Args::ParseArgumentValidException& e) {
        OutLib o;
        return Exc("ParseArgumentValidException", e.argument(), e.what());
    }
    catch (const blet::Args::ParseArgumentException& e) {
        OutLib o;
        return Exc("ParseArgumentException", e.argument(), e.what());
    }
    catch (const blet::Args::AccessDeniedException& e) {
        OutLib o;
        return Exc("AccessDeniedException", e.argument(), e.what());
    }
    catch (const blet::Args::ArgumentException& e) {
        OutLib o;
        return Exc("ArgumentException", e.argument(), e.what());
    }
    catch (const blet::Args::Exception& e) {
        OutLib o;
        return Exc("Exception", "", e.what());
    }
    catch (const std::bad_alloc&) {
        OutLib o;
        return Exc("std::bad_alloc", "", "");
    }
    catch (const std::runtime_error& e) {
        OutLib o;
        return Exc("std::runtime_error", "", e.what());
    }
    catch (const std::exception& e) {
        OutLib o;
        return Exc("std::exception", "", e.what());
    }
    catch (int v) {
        OutLib o;
        return Exc("int", "", std::to_string(v));
    }
    catch (...) {
        OutLib o;
        return Exc("unknown", "", "");
    }
    return Exc();
}

// the same; what was thrown stays alive in *kept, as if the caller stored it
template<class F>
Exc guardedKeep(std::exception_ptr* kept, F f) {
    return guarded([&] {
        try {
            f();
        }
        catch (...) {
            *kept = std::current_exception();
            throw;
        }
    });
}

// ---------------------------------------------------------------- callbacks
struct CbState {
    Strs vcalls, dcalls;             // in call order
    std::vector<std::map<std::string, std::string> > reads;  // observations of reading callbacks
    Strs readBy;
    Strs nest;                       // nested-work mismatches
    Strs pathCalls;                  // "vid|vals|outcome" of path validators
    int nv = 0, nd = 0;
    int failV = -1, failD = -1;
    std::string failVKind, failDKind;
    long fired = 0;
    long nestedRuns = 0;
    const blet::Args* running = nullptr;
    Strs probe;                      // names a reading callback looks at
};
extern CbState g_cb;

struct VInfo {
    VSpec spec;
    blet::Args::IValid* ptr = nullptr;
    int born = 0, died = 0;
    bool handed = false;  // ownership given to the library
};
extern std::map<int, VInfo> g_valid;
blet::Args::IValid* makeValid(int id, const VSpec& s);

// the ways a caller can write a list of texts
const unsigned LIST_FORMS = 12;
blet::args::Vector* buildList(unsigned form, const Strs& texts);
std::string listFormName(unsigned form, const Strs& texts);

struct DestObj {
    DSpec spec;
    int id;
    virtual ~DestObj() {}
    virtual RArg& attach(RArg& a) = 0;
    virtual Strs content() = 0;
    virtual void reset() = 0;
};
DestObj* makeDest(int id, const DSpec& s);
extern std::map<const void*, int> g_destId;

static const int TWIN = 1000000;  // ids of a twin parser's callbacks are shifted by this

// nested work run from inside callbacks; returns its observation log
std::string nestedProgram(unsigned k);

// ------------------------------------------------------------------ observer
// light: accessors that are bound to refuse are not called, their documented
// answer is filled in (exceptions are most of the cost of an observation)
View viewOf(const RArg& a, Strs* self, bool light = false);
View settingsOf(const blet::Args& a);
std::string vecText(const std::vector<std::string>& v);

// exactly sized heap copies of what the caller passes
struct HeapStr {
    char* p;
    std::string orig;
    explicit HeapStr(const std::string& s) : orig(s) {
        p = (char*)malloc(s.size() + 1);
        memcpy(p, s.c_str(), s.size() + 1);
    }
    bool intact() const { return memcmp(p, orig.c_str(), orig.size() + 1) == 0; }
    void drop() {
        if (!p) return;
        memset(p, '#', orig.size() + 1);
        free(p);
        p = nullptr;
    }
    ~HeapStr() { drop(); }
    HeapStr(const HeapStr&) = delete;
};
// the command line handed to a parse
struct HeapArgv {
    // As in a real process, the array and its strings live at the same addresses
    // every time; outside a call they are not readable at all. A parse nested in
    // another one gets memory of its own.
    static const int MAXI = 768;
    static const size_t SLOT = 128, GAP = 32;
    struct Arena {
        alignas(16) char text[MAXI * (SLOT + GAP)];
        alignas(16) char* v[MAXI + 8];
        bool busy = false;
        Arena() { close(); }
        void close() {
            ASAN_POISON_MEMORY_REGION(text, sizeof(text));
            ASAN_POISON_MEMORY_REGION((void*)v, sizeof(v));
        }
    };
    static Arena& arena() {
        static Arena* a = new Arena;
        return *a;
    }
    int argc;
    char** v;
    std::vector<char*> ptrs;
    Strs orig;
    bool own;
    explicit HeapArgv(const Strs& a) : argc((int)a.size()), orig(a) {
        size_t n = a.size();
        own = arena().busy || n > (size_t)MAXI;
        if (!own) {
            arena().busy = true;
            v = arena().v;
            ASAN_UNPOISON_MEMORY_REGION((void*)v, sizeof(char*) * (n + 1));
        }
        else v = (char**)malloc(sizeof(char*) * (n + 1));
        ptrs.resize(n + 1, nullptr);
        for (size_t i = 0; i < n; ++i) {
            if (!own && a[i].size() + 1 <= SLOT) {
                ptrs[i] = arena().text + i * (SLOT + GAP);
                ASAN_UNPOISON_MEMORY_REGION(ptrs[i], a[i].size() + 1);
            }
            else ptrs[i] = (char*)malloc(a[i].size() + 1);
            memcpy(ptrs[i], a[i].c_str(), a[i].size() + 1);
            v[i] = ptrs[i];
        }
        v[n] = nullptr;
    }
    bool intact() const {
        for (int i = 0; i <= argc; ++i)
            if (v[i] != ptrs[(size_t)i]) return false;
        for (int i = 0; i < argc; ++i)
            if (memcmp(v[i], orig[(size_t)i].c_str(), orig[(size_t)i].size() + 1) != 0) return false;
        return true;
    }
    void drop() {
        if (!v) return;
        for (size_t i = 0; i < (size_t)argc; ++i) {
            memset(ptrs[i], '#', orig[i].size() + 1);
            if (own || orig[i].size() + 1 > SLOT) free(ptrs[i]);
        }
        memset((void*)v, 0x5A, sizeof(char*) * (size_t)(argc + 1));
        if (own) free((void*)v);
        else {
            arena().close();
            arena().busy = false;
        }
        v = nullptr;
    }
    ~HeapArgv() { drop(); }
    HeapArgv(const HeapArgv&) = delete;
};

} // namespace sim

#endif
