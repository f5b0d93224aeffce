// tsim: seeded simulation of threads that use the library.
//   tsim run --prop P --plans FILE --seed S --from A --to B --stride N --seconds X --cpu C --out FILE
//   tsim replay FILE [--verbose]
#include <errno.h>
#include <sched.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#include <chrono>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>

#define DRV_QUIET
#include "prog.h"

using namespace rt;

// an exit request ends the simulated process; the programs never ask for one
extern "C" void __wrap_exit(int s) { _exit(s == 0 ? 43 : s); }

namespace {

struct Rng {
    uint64_t s;
    uint64_t next() {
        s += 0x9E3779B97F4A7C15ULL;
        uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return next() % n; }
    bool chance(unsigned pc) { return below(100) < pc; }
};
uint64_t mix(uint64_t a, uint64_t b) {
    Rng r{a ^ (b * 0x9E3779B97F4A7C15ULL)};
    r.next();
    return r.next();
}
uint64_t hashOf(const std::string& s, uint64_t h = 14695981039346656037ULL) {
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ULL;
    return h;
}

// what a child leaves behind
const size_t LOGMAX = 1 << 19;
struct Out {
    int ended;
    int empty, changed, truncated;
    uint64_t steps, switches, blocked, allocs, checked, per[MAXT];
    int nraces;
    Race races[8];
    size_t nsw;
    Switch sw[MAXREC];
    size_t len[MAXT];
    char log[MAXT][LOGMAX];
};
Out* g_out;

struct Outcome {
    std::string kind;  // "" fine; crash, hang, deadlock
    std::string detail;
    std::vector<std::string> logs;
    std::vector<Race> races;
    std::vector<Switch> list;
    uint64_t steps = 0, switches = 0, blocked = 0, allocs = 0, checked = 0, per[MAXT] = {0};
    bool empty = false, changed = false;
};

Outcome inChild(prog::Run& r, Sched s) {
    Out* o = g_out;
    o->ended = 0;
    o->nsw = 0;
    pid_t pid = fork();
    if (pid < 0) {
        perror("fork");
        _exit(3);
    }
    if (pid == 0) {
        alarm(20);
        childInit();
        g_rec = o->sw;
        g_nrec = &o->nsw;
        prog::execute(&r, &s);
        o->empty = r.empty;
        o->changed = r.changed;
        o->truncated = 0;
        o->steps = r.result.steps;
        o->switches = r.result.switches;
        o->blocked = r.result.blocked;
        o->allocs = r.result.allocs;
        o->checked = r.result.checked;
        for (int i = 0; i < MAXT; ++i) o->per[i] = r.result.perThread[i];
        o->nraces = (int)r.result.races.size();
        for (int i = 0; i < o->nraces; ++i) o->races[i] = r.result.races[(size_t)i];
        for (size_t i = 0; i < MAXT; ++i) {
            o->len[i] = 0;
            if (i >= r.logs.size()) continue;
            o->len[i] = r.logs[i].size() < LOGMAX ? r.logs[i].size() : LOGMAX;
            memcpy(o->log[i], r.logs[i].data(), o->len[i]);
        }
        o->ended = 1;
        _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
    }
    Outcome x;
    x.list.assign(o->sw, o->sw + o->nsw);
    if (!o->ended) {
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) x.kind = "hang";
        else if (WIFEXITED(st) && WEXITSTATUS(st) == 42) x.kind = "deadlock";
        else if (WIFEXITED(st) && WEXITSTATUS(st) == 3) _exit(3);
        else x.kind = "crash";
        x.detail = WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : "exit " + std::to_string(WEXITSTATUS(st));
        return x;
    }
    x.empty = o->empty;
    x.changed = o->changed;
    x.steps = o->steps;
    x.switches = o->switches;
    x.blocked = o->blocked;
    x.allocs = o->allocs;
    x.checked = o->checked;
    for (int i = 0; i < MAXT; ++i) x.per[i] = o->per[i];
    x.races.assign(o->races, o->races + o->nraces);
    for (size_t i = 0; i < r.threads.size(); ++i) x.logs.push_back(std::string(o->log[i], o->len[i]));
    return x;
}

std::string schedText(const std::vector<Switch>& v) {
    std::string s = "sched";
    for (auto& x : v)
        s += " " + std::to_string(x.thread) + ":" + (x.step == END ? std::string("end") : std::to_string(x.step)) + ">" +
             std::to_string(x.to);
    return s + "\n";
}
std::vector<Switch> schedParse(const std::string& line) {
    std::vector<Switch> v;
    std::istringstream is(line);
    std::string t;
    is >> t;
    while (is >> t) {
        Switch s;
        size_t c = t.find(':'), g = t.find('>');
        if (c == std::string::npos || g == std::string::npos) continue;
        s.thread = atoi(t.c_str());
        std::string st = t.substr(c + 1, g - c - 1);
        s.step = st == "end" ? END : strtoull(st.c_str(), nullptr, 10);
        s.to = atoi(t.c_str() + g + 1);
        v.push_back(s);
    }
    return v;
}
std::string fileText(const std::string& prop, const prog::Run& r, const std::vector<Switch>& list) {
    std::string s = "prop " + prop + "\nevery " + std::to_string(r.every) + "\n";
    for (size_t i = r.shared ? 0 : 1; i < r.threads.size(); ++i) s += "T " + std::to_string(i) + "\n" + r.threads[i].text;
    return s + schedText(list);
}
void setPlan(prog::Run& r, size_t i, const std::string& text) {
    if (r.threads.size() <= i) r.threads.resize(i + 1);
    r.threads[i].text = text;
    r.threads[i].ops = drv::parsePlan(text);
}

struct Verdict {
    std::string kind, msg;
    uint64_t hash = 0;
};

std::string firstDiff(const std::string& a, const std::string& b) {
    std::istringstream x(a), y(b);
    std::string l, m, op = "-";
    for (;;) {
        bool p = (bool)std::getline(x, l), q = (bool)std::getline(y, m);
        if (!p && !q) return "-";
        if (!p) l = "(end)";
        if (!q) m = "(end)";
        if (l == m && l.compare(0, 2, "> ") == 0) op = l;
        if (l != m) return "after '" + op.substr(0, 200) + "': alone '" + l.substr(0, 300) + "', among others '" + m.substr(0, 300) + "'";
    }
}

Verdict judge(const prog::Run& r, const Outcome& c, const std::vector<Outcome>& solo) {
    Verdict v;
    v.hash = 14695981039346656037ULL;
    for (auto& l : c.logs) v.hash = hashOf(l, v.hash);
    v.hash = mix(v.hash, c.switches);
    for (auto& x : c.races) v.hash = mix(mix(v.hash, x.pc[0]), x.pc[1]);
    v.hash = hashOf(c.kind, v.hash);
    if (!c.kind.empty()) {
        v.kind = c.kind;
        v.msg = "the threads together: " + c.kind + " " + c.detail + "; each of them alone runs to its end";
        return v;
    }
    if (!c.races.empty()) {
        v.kind = "race";
        std::ostringstream o;
        for (auto& x : c.races)
            o << (o.str().empty() ? "" : "; ") << "thread " << x.thread[0] << (x.isFree ? " frees/uses freed memory" : x.write[0] ? " writes" : " reads")
              << " at 0x" << std::hex << x.pc[0] << std::dec << ", thread " << x.thread[1] << (x.write[1] ? " wrote" : " read")
              << " at 0x" << std::hex << x.pc[1] << std::dec << " without synchronization";
        v.msg = o.str();
        return v;
    }
    if (c.changed) {
        v.kind = "changed";
        v.msg = "after the threads the parser shows something else than the same parser read by nobody";
        return v;
    }
    for (size_t i = 1; i < r.threads.size(); ++i)
        if (c.logs[i] != solo[i].logs[1]) {
            v.kind = "differ";
            v.msg = "thread " + std::to_string(i) + " " + firstDiff(solo[i].logs[1], c.logs[i]);
            return v;
        }
    return v;
}

// every thread alone, each in a process of its own
bool soloRuns(const prog::Run& r, std::vector<Outcome>* out) {
    out->assign(r.threads.size(), Outcome());
    for (size_t i = 1; i < r.threads.size(); ++i) {
        prog::Run one;
        one.shared = r.shared;
        one.every = r.every;
        one.threads.push_back(r.threads[0]);
        one.threads.push_back(r.threads[i]);
        (*out)[i] = inChild(one, Sched());
        if (!(*out)[i].kind.empty() || (*out)[i].empty) return false;
    }
    return true;
}

std::string readFile(const std::string& p) {
    std::ifstream f(p);
    std::ostringstream o;
    o << f.rdbuf();
    return o.str();
}
std::string jstr(const std::string& s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        char b[8];
        if (c == '"' || c == '\\') r += std::string("\\") + (char)c;
        else if (c < 32 || c > 126) {
            snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
        }
        else r += (char)c;
    }
    return r + "\"";
}

std::vector<std::string> namesIn(const std::vector<drv::Op>& ops) {
    std::set<std::string> n;
    for (auto& o : ops) {
        if (o.name == "add") n.insert(o.a.begin() + 1, o.a.end());
        if (o.name == "flag" && o.a.size() > 2) n.insert(o.a[2]);
    }
    return std::vector<std::string>(n.begin(), n.end());
}

prog::Run makeRun(const std::string& prop, Rng& g, const std::vector<std::string>& plans, size_t i) {
    prog::Run r;
    int n = 2 + (g.chance(45) ? 1 : 0) + (g.chance(20) ? 1 : 0);
    r.every = 1 + (int)g.below(4);
    if (prop == "C12") {
        setPlan(r, 0, "");
        bool same = g.chance(30);
        for (int k = 1; k <= n; ++k) setPlan(r, (size_t)k, plans[(4 * i + (size_t)(same ? 0 : k - 1)) % plans.size()]);
        return r;
    }
    r.shared = true;
    // up to the last parse
    std::istringstream is(plans[i % plans.size()]);
    std::string line, text, all;
    while (std::getline(is, line)) {
        all += line + "\n";
        if (line.compare(0, 6, "parse ") == 0) text = all;
    }
    setPlan(r, 0, text.empty() ? all : text);
    std::vector<std::string> names = namesIn(r.threads[0].ops);
    names.push_back("-h");
    bool same = g.chance(25);
    std::string first;
    for (int k = 1; k <= n; ++k) {
        std::string t;
        if (k > 1 && same) t = first;
        else
            for (int j = 4 + (int)g.below(20); j > 0; --j) {
                t += std::string("q ") + drv::READS[g.below((uint64_t)drv::READS_N)];
                t += " " + drv::enc(g.chance(3) ? "--nope" : names[g.below(names.size())]) + "\n";
            }
        if (k == 1) first = t;
        setPlan(r, (size_t)k, t);
    }
    return r;
}

Sched makeSched(Rng& g, const std::vector<Outcome>& solo) {
    Sched s;
    s.seed = g.next();
    uint64_t total = 0;
    for (auto& o : solo) total += o.steps;
    s.length = total;
    static const double P[] = {0.3, 0.1, 0.03, 0.01, 0.003, 0.0005};
    s.maxSwitches = 3000;
    switch (g.below(10)) {
        case 0:
        case 1:
        case 2:
        case 3:
            s.kind = Sched::RANDOM;
            s.p = P[g.below(6)];
            break;
        case 4:
        case 5:
        case 6:
            s.kind = Sched::PCT;
            s.depth = 1 + (int)g.below(6);
            break;
        case 7:
        case 8:
            s.kind = Sched::ENTRY;
            s.p = P[g.below(5)];
            break;
        default:
            s.kind = Sched::HOT;
            s.p = P[g.below(5)];
    }
    return s;
}

} // namespace

int main(int argc, char** argv) {
    // addresses are the same in every process
    int per = personality(0xffffffff);
    if (per != -1 && !(per & ADDR_NO_RANDOMIZE) && !getenv("TSIM_EXEC")) {
        if (personality((unsigned long)per | ADDR_NO_RANDOMIZE) != -1) {
            setenv("TSIM_EXEC", "1", 1);
            execv("/proc/self/exe", argv);
        }
    }
    std::map<std::string, std::string> o;
    std::string cmd = argc > 1 ? argv[1] : "", file;
    for (int i = 2; i < argc; ++i) {
        std::string a = argv[i];
        if (a.compare(0, 2, "--") == 0) {
            if (i + 1 < argc && strncmp(argv[i + 1], "--", 2) != 0) o[a.substr(2)] = argv[i + 1], ++i;
            else o[a.substr(2)] = "1";
        }
        else file = a;
    }
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    if (o.count("cpu")) {
        // the threads hand over to each other: one processor is faster
        cpu_set_t all, cs;
        CPU_ZERO(&cs);
        if (sched_getaffinity(0, sizeof all, &all) == 0) {
            int want = atoi(o["cpu"].c_str()) % (CPU_COUNT(&all) > 0 ? CPU_COUNT(&all) : 1);
            for (int i = 0, k = 0; i < CPU_SETSIZE; ++i)
                if (CPU_ISSET(i, &all) && k++ == want) CPU_SET(i, &cs);
            sched_setaffinity(0, sizeof cs, &cs);
        }
    }
    g_out = (Out*)mmap(nullptr, sizeof(Out), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (g_out == MAP_FAILED) return 3;
    if (cmd == "replay") {
        prog::Run r;
        std::string prop, line, cur;
        long at = -1;
        Sched s;
        std::ifstream f(file);
        auto flush = [&] {
            if (at >= 0) setPlan(r, (size_t)at, cur);
            cur = "";
        };
        setPlan(r, 0, "");
        while (std::getline(f, line)) {
            if (line.empty() || line[0] == '#') continue;
            if (line.compare(0, 5, "prop ") == 0) prop = line.substr(5);
            else if (line.compare(0, 6, "every ") == 0) r.every = atoi(line.c_str() + 6);
            else if (line.compare(0, 2, "T ") == 0) {
                flush();
                at = atol(line.c_str() + 2);
                if (at < 0 || at >= MAXT) return 3;
            }
            else if (line.compare(0, 5, "sched") == 0) s.list = schedParse(line);
            else cur += line + "\n";
        }
        flush();
        r.shared = prop == "C13";
        if (r.every < 1) r.every = 1;
        std::vector<Outcome> solo;
        if (r.threads.size() < 2 || !soloRuns(r, &solo)) {
            printf("HASH 0\nSKIP a thread alone does not run to its end\n");
            return 0;
        }
        Outcome c = inChild(r, s);
        Verdict v = judge(r, c, solo);
        if (o.count("verbose"))
            for (size_t i = 1; i < c.logs.size(); ++i) printf("---- thread %zu, %lu steps\n%s", i, (unsigned long)c.per[i], c.logs[i].c_str());
        printf("HASH %016lx\n", (unsigned long)v.hash);
        if (v.kind.empty()) printf("OK\n");
        else printf("VIOLATION kind=%s %s\n", v.kind.c_str(), v.msg.c_str());
        return v.kind.empty() ? 0 : 1;
    }
    if (cmd != "run") return 2;
    std::string prop = o["prop"];
    std::vector<std::string> plans(1);
    {
        std::ifstream f(o["plans"]);
        std::string line;
        while (std::getline(f, line)) {
            if (line == "----") plans.push_back("");
            else plans.back() += line + "\n";
        }
        if (plans.back().empty()) plans.pop_back();
        if (plans.empty()) return 2;
    }
    uint64_t seed = strtoull(o["seed"].c_str(), nullptr, 10), from = strtoull(o["from"].c_str(), nullptr, 10),
             to = strtoull(o["to"].c_str(), nullptr, 10), stride = o.count("stride") ? strtoull(o["stride"].c_str(), nullptr, 10) : 1;
    double seconds = o.count("seconds") ? atof(o["seconds"].c_str()) : 1e9;
    int schedules = o.count("schedules") ? atoi(o["schedules"].c_str()) : 3;
    auto t0 = std::chrono::steady_clock::now();
    long runs = 0, programs = 0, skipped = 0, redone = 0;
    uint64_t steps = 0, switches = 0, blocked = 0, allocs = 0, checked = 0, hash = 0;
    std::map<std::string, long> kinds, threads;
    std::set<uint64_t> inter;
    std::string sample, vtext;
    Verdict bad;
    uint64_t badAt = 0, i = from;
    for (; i < to && bad.kind.empty(); i += stride) {
        if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > seconds) break;
        Rng g{mix(mix(seed, hashOf(prop)), i)};
        prog::Run r = makeRun(prop, g, plans, i);
        std::vector<Outcome> solo;
        if (!soloRuns(r, &solo)) {
            ++skipped;
            continue;
        }
        ++programs;
        ++threads[std::to_string(r.threads.size() - 1)];
        for (int k = 0; k < schedules && bad.kind.empty(); ++k) {
            Sched s = makeSched(g, solo);
            Outcome c = inChild(r, s);
            static const char* const KN[] = {"replay", "random", "pct", "call-boundary", "hot-spots"};
            ++kinds[KN[s.kind]];
            Verdict v = judge(r, c, solo);
            ++runs;
            steps += c.steps;
            switches += c.switches;
            blocked += c.blocked;
            allocs += c.allocs;
            checked += c.checked;
            hash = mix(hash, v.hash);
            uint64_t ih = hashOf(schedText(c.list), hashOf(r.threads[1].text));
            if (c.switches >= 2) inter.insert(ih);
            if (sample.empty() && c.switches > 2 && c.switches < 60) sample = fileText(prop, r, c.list);
            if (!v.kind.empty() || (i % 16 == 0 && k == 0)) {
                Sched again;
                again.list = c.list;
                Outcome c2 = inChild(r, again);
                Verdict v2 = judge(r, c2, solo);
                ++redone;
                if (v2.hash != v.hash || v2.kind != v.kind) {
                    fprintf(stderr, "tsim: run %lu schedule %d does not replay (%s/%s)\n", (unsigned long)i, k, v.kind.c_str(),
                            v2.kind.c_str());
                    return 3;
                }
            }
            if (!v.kind.empty()) {
                bad = v;
                badAt = i;
                vtext = fileText(prop, r, c.list);
            }
        }
    }
    double wall = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    std::ostringstream js;
    auto obj = [&](const std::map<std::string, long>& m) {
        std::string s = "{";
        for (auto& kv : m) s += (s.size() > 1 ? ", " : "") + jstr(kv.first) + ": " + std::to_string(kv.second);
        return s + "}";
    };
    js << "{\"runs\": " << runs << ", \"programs\": " << programs << ", \"skipped\": " << skipped << ", \"redone\": " << redone
       << ", \"steps\": " << steps << ", \"switches\": " << switches << ", \"blocked\": " << blocked << ", \"allocs\": " << allocs
       << ", \"checked\": " << checked << ", \"schedules_by\": " << obj(kinds) << ", \"threads\": " << obj(threads) << ", \"next\": " << i
       << ", \"wall\": " << wall << ", \"hash\": \"" << std::hex << hash << std::dec << "\", \"sample\": " << jstr(sample);
    if (!bad.kind.empty())
        js << ", \"violation\": {\"kind\": " << jstr(bad.kind) << ", \"msg\": " << jstr(bad.msg) << ", \"index\": " << badAt
           << ", \"plan\": " << jstr(vtext) << "}";
    js << ", \"inter\": [";
    bool first = true;
    for (uint64_t s : inter) {
        js << (first ? "" : ",") << (s & 0xFFFFFFFFFFFFULL);
        first = false;
    }
    js << "]}\n";
    {
        std::ofstream f(o["out"]);
        f << js.str();
    }
    return bad.kind.empty() ? 0 : 1;
}
