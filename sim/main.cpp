// dsim: runs, replays and prints simulated executions.
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <unistd.h>

#include <chrono>
#include <fstream>
#include <iostream>

#include "engine.h"
#include "gen.h"
#include "seam.h"

extern "C" const char* __asan_default_options() {
    return "exitcode=77:detect_leaks=0:handle_abort=1:allocator_may_return_null=1:abort_on_error=0:symbolize=1:"
           "detect_stack_use_after_return=0:quarantine_size_mb=2:thread_local_quarantine_size_kb=64:malloc_context_size=2";
}
extern "C" const char* __ubsan_default_options() { return "exitcode=77:halt_on_error=1:print_stacktrace=1"; }

using namespace sim;

namespace {

char* g_cur = nullptr;
const size_t CUR_SIZE = 1 << 20;

void onHang() {
    g_onHang = nullptr;
    fprintf(stderr, "HANG op=%d: step limit reached inside the library\n", g_progress.op);
    if (g_report) {
        fprintf(g_report, "HANG op=%d\n", g_progress.op);
        fflush(g_report);
    }
    _exit(79);
}

void setCurrent(const std::string& t) {
    if (!g_cur) return;
    size_t n = std::min(t.size(), CUR_SIZE - 1);
    memcpy(g_cur, t.data(), n);
    g_cur[n] = 0;
}

std::string readFile(const std::string& p) {
    std::ifstream f(p);
    std::ostringstream o;
    o << f.rdbuf();
    return o.str();
}

std::string jstr(const std::string& s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        char b[8];
        if (c == '"' || c == '\\') r += std::string("\\") + (char)c;
        else if (c < 32 || c > 126) {
            snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
        }
        else r += (char)c;
    }
    return r + "\"";
}

bool interesting(const std::string& prop, RunResult& r) {
    auto p = [&](const char* k) { return r.probes.count(k) && r.probes[k] > 0; };
    auto pre = [&](const std::string& k) {
        for (auto& kv : r.probes)
            if (kv.second > 0 && kv.first.compare(0, k.size(), k) == 0) return true;
        return false;
    };
    auto sum = [](const std::vector<long>& v) {
        long s = 0;
        for (long x : v) s += x;
        return s;
    };
    if (!r.diverged.empty()) return false;
    if (prop == "C03") return p("stage-help") || p("stage-version") || p("stage-exit");
    if (prop == "C04") return p("twin-comparisons") && r.parses > 1;
    if (prop == "C05") return pre("refused-");
    if (prop == "C07") return p("config-call-out-of-memory") || p("parse-out-of-memory") || p("accessor-out-of-memory");
    if (prop == "C08") return sum(r.vcalls) > 0;
    if (prop == "C09") return p("destinations-checked");
    if (prop == "C10") return sum(r.vcalls) > 0 || p("argument-copies") || p("owned-released");
    if (prop == "C11") return sum(r.stats) > 0;
    if (prop == "C16") return p("cleared");
    if (prop == "C22") return p("list-of-four-or-more");
    if (prop == "C19") return p("nested-programs") || p("reads-from-callbacks");
    if (prop == "C14" || prop == "C05" || prop == "C06") return r.ops > 6;
    return r.okParses > 0;
}

} // namespace

int main(int argc, char** argv) {
    std::map<std::string, std::string> o;
    std::string cmd = argc > 1 ? argv[1] : "";
    std::string file;
    for (int i = 2; i < argc; ++i) {
        std::string a = argv[i];
        if (a.compare(0, 2, "--") == 0) {
            std::string k = a.substr(2);
            if (i + 1 < argc && strncmp(argv[i + 1], "--", 2) != 0) o[k] = argv[++i];
            else o[k] = "1";
        }
        else file = a;
    }
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    outInstall();
    g_onHang = onHang;
    if (o.count("steps")) g_stepLimit = strtoull(o["steps"].c_str(), nullptr, 10);
    EngineCfg cfg;
    cfg.knownHelpBlocked = o.count("known-help") != 0;
    if (cmd == "gen" && o.count("to")) {
        uint64_t base = mix(strtoull(o["seed"].c_str(), 0, 10), hashStr(o["prop"]));
        uint64_t stride = o.count("stride") ? strtoull(o["stride"].c_str(), 0, 10) : 1;
        for (uint64_t i = strtoull(o["from"].c_str(), 0, 10), to = strtoull(o["to"].c_str(), 0, 10); i < to; i += stride)
            fprintf(g_report, "%s----\n", genPlan(o["prop"], mix(base, i), o["tier"] == "thorough").text().c_str());
        fflush(g_report);
        return 0;
    }
    if (cmd == "gen") {
        Plan p = genPlan(o["prop"], mix(mix(strtoull(o["seed"].c_str(), 0, 10), hashStr(o["prop"])), strtoull(o["index"].c_str(), 0, 10)), o["tier"] == "thorough");
        fprintf(g_report, "%s", p.text().c_str());
        fflush(g_report);
        return 0;
    }
    if (cmd == "replay") {
        Plan p = Plan::parse(readFile(file));
        if (o.count("prop")) p.prop = o["prop"];
        cfg.subs = facetsOf(p.prop);
        cfg.verbose = o.count("verbose") != 0;
        RunResult r = runPlan(p, cfg);
        fprintf(g_report, "HASH %016llx\n", (unsigned long long)r.hash);
        if (r.v.is) fprintf(g_report, "VIOLATION facet=%s op=%d %s\n", r.v.facet.c_str(), r.v.op, r.v.msg.c_str());
        else fprintf(g_report, "OK%s%s\n", r.diverged.empty() ? "" : " diverged ", r.diverged.c_str());
        fflush(g_report);
        _exit(r.v.is ? 1 : 0);
    }
    if (cmd != "run") {
        fprintf(stderr, "usage: dsim run|replay|gen\n");
        return 2;
    }
    std::string prop = o["prop"];
    cfg.subs = facetsOf(prop);
    if (cfg.subs.empty()) {
        fprintf(stderr, "dsim: no facets for %s\n", prop.c_str());
        return 2;
    }
    uint64_t base = mix(strtoull(o["seed"].c_str(), nullptr, 10), hashStr(prop));
    uint64_t from = strtoull(o["from"].c_str(), nullptr, 10), to = strtoull(o["to"].c_str(), nullptr, 10);
    uint64_t stride = o.count("stride") ? strtoull(o["stride"].c_str(), nullptr, 10) : 1;
    bool thorough = o["tier"] == "thorough";
    double seconds = o.count("seconds") ? atof(o["seconds"].c_str()) : 0;
    if (o.count("cur")) {
        int fd = open(o["cur"].c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
        if (fd < 0 || ftruncate(fd, CUR_SIZE) != 0) return 2;
        g_cur = (char*)mmap(nullptr, CUR_SIZE, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (g_cur == MAP_FAILED) return 2;
    }
    std::set<uint64_t> sigs, nsigs;
    std::map<std::string, long> fired, probes;
    long runs = 0, nontrivial = 0, parses = 0, okp = 0, ops = 0, redone = 0, historyDependent = 0, faultRuns = 0, diverged = 0;
    unsigned long long steps = 0;
    std::map<std::string, long> divergedBy;
    std::string sample;
    bool viol = false;
    Plan vplan;
    RunResult vres;
    uint64_t xhash = 1469598103934665603ULL;
    auto t0 = std::chrono::steady_clock::now();
    auto one = [&](const Plan& p, RunResult* out) {
        setCurrent(p.text());
        RunResult r = runPlan(p, cfg);
        ++runs;
        ops += r.ops;
        parses += r.parses;
        okp += r.okParses;
        steps += r.steps;
        sigs.insert(r.sig);
        xhash = mix(xhash, r.hash);
        for (auto& kv : r.fired) fired[kv.first] += kv.second;
        for (auto& kv : r.probes) probes[kv.first] += kv.second;
        if (!r.diverged.empty()) {
            ++diverged;
            ++divergedBy[r.diverged];
        }
        if (interesting(prop, r)) {
            ++nontrivial;
            nsigs.insert(r.sig);
            if (sample.empty() && p.ops.size() < 16) sample = p.text();
        }
        if (r.v.is) {
            viol = true;
            vplan = p;
            vres = r;
        }
        *out = r;
        return !r.v.is;
    };
    uint64_t i = from;
    for (; i < to; i += stride) {
        if (seconds > 0 && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > seconds) break;
        uint64_t seed = mix(base, i);
        Plan p = genPlan(prop, seed, thorough);
        RunResult r, q;
        if (!one(p, &r)) break;
        if (i % 64 == 0) {
            // same plan, same process: same execution
            RunResult again = runPlan(p, cfg);
            ++redone;
            if (again.hash != r.hash) {
                // what earlier runs left behind in the process changes this one
                ++historyDependent;
                if (prop == "C04" || prop == "C16" || prop == "C12") {
                    viol = true;
                    vplan = p;
                    vres = again;
                    vres.v.is = true;
                    vres.v.facet = "history";
                    vres.v.msg = "the same program behaves differently when it runs a second time in one process";
                    break;
                }
            }
        }
        if (wantsAllocFaults(prop)) {
            Rng fr(mix(seed, 0xA110C));
            int variants = prop == "C07" ? 4 : 1;
            bool bad = false;
            for (int v = 0; v < variants && !bad; ++v) {
                Plan fp = withAllocFaults(p, r.allocs, fr);
                ++faultRuns;
                bad = !one(fp, &q);
            }
            if (!bad && thorough && i % 97 == 0) {
                for (auto& sp : allocSweep(p, r.allocs, 4000)) {
                    ++faultRuns;
                    if (!one(sp, &q)) {
                        bad = true;
                        break;
                    }
                }
            }
            if (bad) break;
        }
    }
    double wall = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    std::ostringstream js;
    auto obj = [&](const std::map<std::string, long>& m) {
        std::string s = "{";
        for (auto& kv : m) s += (s.size() > 1 ? ", " : "") + jstr(kv.first) + ": " + std::to_string(kv.second);
        return s + "}";
    };
    js << "{\"runs\": " << runs << ", \"fault_runs\": " << faultRuns << ", \"nontrivial\": " << nontrivial << ", \"ops\": " << ops
       << ", \"parses\": " << parses << ", \"ok_parses\": " << okp << ", \"steps\": " << steps << ", \"redone\": " << redone << ", \"history_dependent\": " << historyDependent
       << ", \"diverged\": " << diverged << ", \"diverged_by\": " << obj(divergedBy) << ", \"fired\": " << obj(fired)
       << ", \"probes\": " << obj(probes) << ", \"edges\": " << edgesTotalHit() << ", \"edges_known\": " << edgesKnown()
       << ", \"allocs\": " << g_alloc.total << ", \"next\": " << i << ", \"wall\": " << wall << ", \"hash\": \"" << std::hex << xhash
       << std::dec << "\", \"sample\": " << jstr(sample);
    if (viol)
        js << ", \"violation\": {\"facet\": " << jstr(vres.v.facet) << ", \"msg\": " << jstr(vres.v.msg) << ", \"op\": " << vres.v.op
           << ", \"index\": " << i << ", \"plan\": " << jstr(vplan.text()) << "}";
    js << ", \"sigs\": [";
    bool first = true;
    for (uint64_t s : nsigs) {
        js << (first ? "" : ",") << (s & 0xFFFFFFFFFFFFULL);
        first = false;
    }
    js << "], \"all_sigs\": " << sigs.size() << "}\n";
    {
        std::ofstream f(o["out"]);
        f << js.str();
    }
    fprintf(g_report, "%s\n", viol ? "VIOL" : "DONE");
    fflush(g_report);
    _exit(viol ? 1 : 0);
}
