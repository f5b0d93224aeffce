// Executes a plan against the real library and the reference model.
#include "engine.h"

#include <algorithm>
#include <iostream>
#include <memory>

#include "real.h"

namespace sim {

Progress g_progress;

namespace {

const char* const PROBE_NAMES[] = {"-h", "--help", "-a", "-b", "-c", "--alpha", "--beta", "-v", "--version", "name", "pos",
                                   "", "-", "--", "-z", "--zeta"};

struct Stopped {};

struct Slot {
    std::unique_ptr<blet::Args> a;
    RArg* last = nullptr;
    MParser m;
    std::vector<Op> log;  // accepted configuration since construction / clear
};

struct Copy {
    std::unique_ptr<RArg> c;
    View v;
};

struct Kept {
    std::exception_ptr p;
    std::string text, op;
};

struct Engine {
    const Plan& plan;
    const EngineCfg& cfg;
    RunResult res;
    World world;
    std::map<std::string, Slot> slots;
    std::map<int, DestObj*> dests;
    std::map<int, Strs> destInit;
    std::map<std::string, Copy> copies;
    std::vector<Kept> kept;      // exceptions the caller stored
    std::exception_ptr thrown;
    std::set<int> freedValids;  // model: destroyed by the library
    std::set<int> handed;       // model: given with ownership
    bool lenient = false;   // an earlier operation went another way than the model: only unconditional facets count
    bool pending = false;   // this operation did, in a facet that does not decide the property
    int opIndex = 0;
    uint64_t opSalt = 0;
    bool fullObs = false;
    uint64_t hash = 1469598103934665603ULL;

    Engine(const Plan& p, const EngineCfg& c) : plan(p), cfg(c) {}

    void note(const std::string& s) {
        hash = hashStr(s, hash) * 31 + 7;
        if (cfg.verbose) fprintf(g_report, "  %d: %s\n", opIndex, s.c_str());
    }
    bool subscribed(const std::string& f) const {
        for (auto& s : cfg.subs)
            if (f.compare(0, s.size(), s) == 0) return true;
        return false;
    }
    // always: facets that count whatever happened to the model
    void report(const std::string& facet, const std::string& msg, bool always = false) {
        if (lenient && !always) return;
        if (cfg.verbose) fprintf(g_report, "  %d: MISMATCH %s: %s\n", opIndex, facet.c_str(), msg.c_str());
        if (subscribed(facet)) {
            res.v.is = true;
            res.v.facet = facet;
            res.v.msg = msg;
            res.v.op = opIndex;
            throw Stopped();
        }
        // the rest of this operation's comparisons still count
        if (!lenient && !pending) res.diverged = facet;
        if (!lenient) pending = true;
    }
    static std::string diff(const std::string& want, const std::string& got) {
        return "expected {" + want + "} got {" + got + "}";
    }

    // ---------------------------------------------------------- comparisons
    void compareView(const std::string& where, const View& want, const View& got) {
        for (auto& kv : want) {
            auto it = got.find(kv.first);
            if (it == got.end()) report(kv.first, where + ": missing, " + diff(kv.second, "(none)"));
            else if (it->second != kv.second) report(kv.first, where + " " + kv.first + ": " + diff(kv.second, it->second));
        }
    }

    void observe(const std::string& id, Slot& s) {
        const blet::Args& a = *s.a;
        // names known to the model plus names that must be unknown
        View set = settingsOf(a);
        if (a.getUsage() != set["usage"]) report("usage", "two renderings in a row differ", true);
        for (auto& kv : set)
            if (kv.first != "add") hash = hashStr(kv.second, hash);
        if (s.m.addKnown) hash = hashStr(set["add"], hash);
        if (!lenient) compareView("parser " + id, s.m.settings(), set);
        Strs names;
        for (auto& kv : s.m.idx) names.push_back(kv.first);
        for (auto n : PROBE_NAMES)
            if (!s.m.idx.count(n)) names.push_back(n);
        std::map<const RArg*, int> seen;
        for (auto& n : names) {
            MArgP m = s.m.find(n);
            bool ex = a.argumentExists(n);
            if (ex != (m != nullptr)) report("reg.exists", "argumentExists(" + enc(n) + ") is " + (ex ? "true" : "false"));
            const RArg* p = nullptr;
            const RArg* q = nullptr;
            RArg* u = nullptr;
            // which refusals are asked for follows from the operation and the
            // name, so that it stays the same when a plan is minimised
            uint64_t pick = mix(opSalt, hashStr(n));
            bool full = fullObs || pick % 8 == 0;
            if (!m && !ex && !full) continue;
            Exc e = guarded([&] { p = &a.getArgument(n); });
            Exc e2 = guarded([&] { q = &a[n]; });
            Exc e3 = guarded([&] { u = &s.a->updateArgument(n); });
            std::string want = m ? "none" : Exc("AccessDeniedException", n, "argument not found").text();
            if (e.text() != want) report("reg.get", "getArgument(" + enc(n) + "): " + diff(want, e.text()));
            if (e2.text() != want) report("reg.get", "operator[](" + enc(n) + "): " + diff(want, e2.text()));
            if (e3.text() != want) report("reg.get", "updateArgument(" + enc(n) + "): " + diff(want, e3.text()));
            if (!p) continue;
            if (p != q || p != u) report("reg.same", "lookups of " + enc(n) + " give different objects");
            if (m) {
                auto it = seen.find(p);
                if (it == seen.end()) {
                    for (auto& kv : seen)
                        if (kv.second == m->id) report("reg.same", "names of one argument find different objects: " + enc(n));
                    seen[p] = m->id;
                }
                else {
                    if (it->second != m->id) report("reg.same", enc(n) + " finds another argument");
                    continue;
                }
            }
            Strs self;
            View v = viewOf(*p, &self, !full);
            for (auto& x : self) report("self", enc(n) + ": " + x, true);
            if (full && v != viewOf(*p, nullptr)) report("self", enc(n) + ": reading it changed it", true);
            if (m && !lenient) {
                for (auto& kv : v)
                    if (m->known || kv.first.compare(0, 3, "val") != 0) hash = hashStr(kv.second, hash);
                View want2 = s.m.view(*m);
                compareView("parser " + id + " " + enc(n), want2, v);
                if (m->known)
                    for (auto& kv : v)
                        if (kv.first.compare(0, 5, "val.e") == 0 && kv.first != "val.exists" && !want2.count(kv.first))
                            report("val.size", "parser " + id + " " + enc(n) + ": unexpected element " + kv.first + "=" + kv.second);
            }
        }
    }

    void checkOwned() {
        if (!freedValids.empty()) res.probes["owned-released"] = (long)freedValids.size();
        for (auto& kv : g_valid) {
            if (kv.first >= TWIN) continue;
            int want = freedValids.count(kv.first) ? 1 : 0;
            if (kv.second.died > 1) report("own.double", "validator " + std::to_string(kv.first) + " destroyed twice", true);
            if (kv.second.died != want)
                report("own.valid", "validator " + std::to_string(kv.first) +
                                        (want ? " should have been destroyed" : " destroyed while still in use"));
        }
        if (g_allocError) {
            std::string m = g_allocError;
            g_allocError = nullptr;
            report("own.alloc", m, true);
        }
    }

    void checkCopies() {
        for (auto& kv : copies) {
            View v = viewOf(*kv.second.c, nullptr, !(fullObs || mix(opSalt, hashStr(kv.first)) % 8 == 0));
            for (auto& x : kv.second.v)
                if (v[x.first] != x.second)
                    report("copy", "copy " + kv.first + " " + x.first + ": " + diff(x.second, v[x.first]));
        }
    }

    // a stored exception says the same for ever
    void keep(const Exc& e, const Op& op) {
        std::exception_ptr p;
        p.swap(thrown);
        if (!e.is() || !p) return;
        if (kept.size() >= 48) kept.erase(kept.begin());
        kept.push_back(Kept{p, e.text(), op.text()});
        checkKept(kept.back());
    }
    void checkKept(const Kept& k) {
        Exc e = guarded([&] { std::rethrow_exception(k.p); });
        ++res.probes["stored-exceptions-read"];
        if (e.text() != k.text) report("exc.kept", "the exception thrown by " + k.op + " says something else later: " + diff(k.text, e.text()), true);
    }
    void checkAllKept() {
        for (auto& k : kept) checkKept(k);
    }

    void observeAll() {
        Bookkeeping b(!fullObs && opSalt % 4 != 0);
        for (auto& kv : slots)
            if (kv.second.a) observe(kv.first, kv.second);
        checkOwned();
        checkCopies();
        if (opSalt % 8 == 0) checkAllKept();
    }

    // --------------------------------------------------------- library calls
    void arm(const Op& op) {
        std::string f;
        g_alloc.arm(0, false);
        if (op.fault("a", &f)) g_alloc.arm(atol(f.c_str()), false);
        else if (op.fault("ap", &f)) g_alloc.arm(atol(f.c_str()), true);
        g_cb = CbState();
        if (op.fault("cbv", &f)) {
            Strs p = split(f, ':');
            g_cb.failV = atoi(p[0].c_str());
            g_cb.failVKind = p.size() > 1 ? p[1] : "rt";
        }
        if (op.fault("cbd", &f)) {
            Strs p = split(f, ':');
            g_cb.failD = atoi(p[0].c_str());
            g_cb.failDKind = p.size() > 1 ? p[1] : "rt";
        }
        g_fs.log.clear();
        g_fs.calls = 0;
        g_fs.failAt.clear();
        g_fs.ev.clear();
        g_fs.failFrom = 0;
        g_fs.fired = g_fs.evFired = 0;
        for (auto& x : op.faultsOf("st")) {
            Strs p = split(x, ':');
            g_fs.failAt[atol(p[0].c_str())] = errnoFromName(p.size() > 1 ? p[1] : "EIO");
        }
        if (op.fault("stp", &f)) {
            Strs p = split(f, ':');
            g_fs.failFrom = atoi(p[0].c_str());
            g_fs.failFromErr = errnoFromName(p.size() > 1 ? p[1] : "EIO");
        }
        for (auto& x : op.faultsOf("fs")) {
            size_t c = x.find(':');
            g_fs.ev[atol(x.c_str())].push_back(c == std::string::npos ? "" : x.substr(c + 1));
        }
        long out = -1;
        if (op.fault("out", &f)) out = atol(f.c_str());
        outReset(out);
        newEpoch();
        edgesReset();
        g_steps = 0;
    }
    void disarm() {
        g_alloc.failAt = 0;
        g_fs.failAt.clear();
        g_fs.ev.clear();
        g_fs.failFrom = 0;
        if (g_alloc.fired) res.fired[g_alloc.persistent ? "alloc-persistent" : "alloc-once"] += g_alloc.fired ? 1 : 0;
        if (g_cb.fired) res.fired["callback-throws"] += g_cb.fired;
        if (g_fs.fired) res.fired["stat-error"] += g_fs.fired;
        if (g_fs.evFired) res.fired["fs-change-between-calls"] += g_fs.evFired;
        if (g_out.fired) res.fired["stdout-fails"] += 1;
        res.steps += g_steps;
    }

    void disarmAlloc() { g_alloc.failAt = 0; }

    static unsigned listForm(const Op& op) {
        unsigned h = 2166136261u;
        for (char c : op.text()) h = (h ^ (unsigned char)c) * 16777619u;
        return (h >> 7) % LIST_FORMS;
    }

    struct Ctx {
        blet::Args* a;
        RArg** last;
        int off;                                // id shift of callbacks
        std::map<int, DestObj*>* dests;
        std::vector<blet::Args::IValid*>* lent; // validators the caller must delete
    };

    // the argument an operation refers to; "@" is the reference the last add
    // or dest returned
    static RArg& ref(Ctx& c, const std::string& r) {
        if (r == "@" && *c.last) return **c.last;
        OutLib o;
        std::string name(r);
        InLib i;
        return c.a->updateArgument(name);
    }

    // performs one configuration call; runs inside InLib
    Exc applyConfig(Ctx c, const Op& op, bool* tampered) {
        Exc e;
        const Strs& a = op.a;  // a[0] is the parser id
        auto vec = [&](size_t from) {
            blet::args::Vector v;
            for (size_t i = from; i < a.size(); ++i) v.push_back(a[i]);
            return v;
        };
        auto vecUse = [&](size_t from, const std::function<void(const blet::args::Vector&)>& f) {
            // the list is written in one of the admitted forms; its texts are
            // overwritten and freed before it is used, the list after the call
            const blet::args::Vector want(vec(from));
            const unsigned form = listForm(op);
            blet::args::Vector* v = nullptr;
            e = guardedKeep(&thrown, [&] {
                InLib in;
                v = buildList(form, want);
            });
            if (v && *v != want)
                report("list", op.text() + ": the list written as " + listFormName(form, want) + " contains " + joinq(Strs(*v)) + " instead of " + joinq(Strs(want)), true);
            res.probes["list-as-" + listFormName(form, want)]++;
            if (want.size() > 3) res.probes["list-of-four-or-more"]++;
            if (plan.prop == "C22") disarmAlloc();  // only the building of lists is stressed
            if (v && !e.is()) {
                e = guardedKeep(&thrown, [&] {
                    InLib in;
                    f(*v);
                });
                if (*v != want) *tampered = true;
                for (auto& s : *v) std::fill(s.begin(), s.end(), '#');
            }
            delete v;
        };
        auto strUse = [&](const std::string& s, const std::function<void(const char*)>& f) {
            HeapStr h(s);
            e = guardedKeep(&thrown, [&] {
                InLib in;
                f(h.p);
            });
            if (!h.intact()) *tampered = true;
        };
        const std::string& n = op.name;
        if (n == "add")
            vecUse(1, [&](const blet::args::Vector& v) { *c.last = &c.a->addArgument(v); });
        else if (n == "remove") vecUse(1, [&](const blet::args::Vector& v) { c.a->removeArguments(v); });
        else if (n == "flag") strUse(a[2], [&](const char* s) { ref(c, a[1]).flag(s); });
        else if (n == "action")
            e = guardedKeep(&thrown, [&] {
                InLib in;
                ref(c, a[1]).action((blet::Args::eAction)actFromName(a[2]));
            });
        else if (n == "nargs")
            e = guardedKeep(&thrown, [&] {
                InLib in;
                ref(c, a[1]).nargs((std::size_t)strtoull(a[2].c_str(), nullptr, 10));
            });
        else if (n == "defaults")
            vecUse(2, [&](const blet::args::Vector& v) { ref(c, a[1]).defaults(v); });
        else if (n == "required")
            e = guardedKeep(&thrown, [&] {
                InLib in;
                if (a[2] == "1") ref(c, a[1]).required();
                else ref(c, a[1]).required(false);
            });
        else if (n == "help") strUse(a[2], [&](const char* s) { ref(c, a[1]).help(s); });
        else if (n == "metavar") strUse(a[2], [&](const char* s) { ref(c, a[1]).metavar(s); });
        else if (n == "valid") {
            int id = atoi(a[2].c_str()) + c.off;
            bool owned = a[3] == "1";
            blet::Args::IValid* v = nullptr;
            if (a[2] != "none") {
                if (g_valid.count(id) && g_valid[id].ptr) v = g_valid[id].ptr;
                else {
                    VSpec s;
                    s.kind = a[4];
                    s.p.assign(a.begin() + 5, a.end());
                    v = makeValid(id, s);
                }
            }
            e = guardedKeep(&thrown, [&] {
                InLib in;
                if (owned) ref(c, a[1]).valid(v);
                else ref(c, a[1]).valid(v, false);
            });
            if (e.is() && v && owned && g_valid[id].ptr && !g_valid[id].handed) delete v;  // never taken over
            else if (v && owned) g_valid[id].handed = true;
        }
        else if (n == "dest") {
            int id = atoi(a[2].c_str()) + c.off;
            DestObj* d;
            if (c.dests->count(id)) d = (*c.dests)[id];
            else {
                DSpec s;
                s.type = a[3];
                s.cb = a.size() > 4 ? a[4] : "";
                d = makeDest(id, s);
                (*c.dests)[id] = d;
            }
            e = guardedKeep(&thrown, [&] {
                InLib in;
                *c.last = &d->attach(ref(c, a[1]));
            });
        }
        else if (n == "set") {
            bool v = a[2] == "1";
            e = guardedKeep(&thrown, [&] {
                InLib in;
                if (a[1] == "alt") c.a->setAlternative(v);
                else if (a[1] == "strict") c.a->setStrict(v);
                else if (a[1] == "hexc") c.a->setHelpException(v);
                else c.a->setVersionException(v);
            });
        }
        else if (n == "text") {
            if (a[1] == "version") {
                std::string* s = new std::string(a[2]);
                e = guardedKeep(&thrown, [&] {
                    InLib in;
                    c.a->setVersion(*s);
                });
                if (*s != a[2]) *tampered = true;
                std::fill(s->begin(), s->end(), '#');
                delete s;
            }
            else
                strUse(a[2], [&](const char* s) {
                    if (a[1] == "usage") c.a->setUsage(s);
                    else if (a[1] == "desc") c.a->setDescription(s);
                    else if (a[1] == "epilog") c.a->setEpilog(s);
                    else c.a->setBinaryName(s);
                });
        }
        else if (n == "width")
            e = guardedKeep(&thrown, [&] {
                InLib in;
                c.a->setUsageWidth((size_t)atol(a[1].c_str()), (size_t)atol(a[2].c_str()), (size_t)atol(a[3].c_str()),
                                   (size_t)atol(a[4].c_str()));
            });
        return e;
    }

    Exc modelConfig(MParser& m, const Op& op) {
        std::vector<int> freed;
        Exc e = applyModel(world, m, op, &freed);
        for (int f : freed) freedValids.insert(f);
        return e;
    }

    void doConfig(const Op& op) {
        Slot& s = slots[op.a[0]];
        if (!s.a) return;
        // a plan that was cut down may refer to what no longer exists
        if (op.a.size() > 1 && op.a[1] == "@" && (lenient || !s.m.last)) return;
        bool tampered = false;
        Op named = op;
        bool hasRef = op.name != "add" && op.name != "remove" && op.name != "set" && op.name != "text" && op.name != "width";
        if (hasRef && op.a[1] == "@") named.a[1] = s.m.last->names[0];
        if (op.name == "valid" && op.a[2] != "none") {
            // one object is handed over at most once
            int id = atoi(op.a[2].c_str());
            if (freedValids.count(id) || handed.count(id)) return;
            if (op.a[3] == "1") {
                for (auto& kv : slots)
                    for (auto& x : kv.second.m.order)
                        if (x->valid == id) return;
                if (!lenient && !(op.a[1] == "@" ? s.m.last : s.m.find(op.a[1]))) return;
                if (lenient && !s.a->argumentExists(op.a[1])) return;
            }
        }
        if (op.name == "nargs" && op.a[2] == "43") {
            // 43 is '+'; with another action than NONE its meaning is not specified
            MArgP x = op.a[1] == "@" ? s.m.last : s.m.find(op.a[1]);
            if (lenient || (x && x->action != A_NONE)) return;
        }
        Ctx c{s.a.get(), &s.last, 0, &dests, nullptr};
        RArg* before = s.last;
        arm(op);
        Exc e = applyConfig(c, op, &tampered);
        disarm();
        res.allocs[(size_t)opIndex] = g_alloc.count;
        note(op.name + " -> " + e.text());
        keep(e, op);
        res.sig = mix(res.sig, hashStr(op.name + e.cls + e.what) + edgesHash());
        if (tampered) report("mem.modified", op.text() + ": the caller's strings were modified", true);
        if (op.name == "dest") {
            int id = atoi(op.a[2].c_str());
            if (dests.count(id) && !destInit.count(id)) destInit[id] = dests[id]->content();
        }
        bool oom = g_alloc.fired > 0 && e.cls == "std::bad_alloc";
        if (op.name == "valid" && op.a[2] != "none" && op.a[3] == "1") {
            int id = atoi(op.a[2].c_str());
            if (!e.is()) handed.insert(id);
            else {
                // the refused hand-over left the object with the caller, who deleted it
                freedValids.insert(id);
            }
        }
        if (oom) {
            ++res.probes["config-call-out-of-memory"];
            s.last = s.m.last ? before : nullptr;
            return;
        }
        if (lenient) {
            if (!e.is()) s.log.push_back(named);
            return;
        }
        Exc want = modelConfig(s.m, op);
        if (want.is()) ++res.probes["refused-" + op.name];
        if (want.text() != e.text()) report("exc.cfg", op.text() + ": " + diff(want.text(), e.text()));
        if (!e.is()) s.log.push_back(named);
        if (!s.m.last) s.last = nullptr;
    }

    // ------------------------------------------------------------- parsing
    struct Outcome {
        Exc exc;
        bool exited = false;
        int status = 0;
        std::string out;
        bool argvIntact = true;
    };

    Outcome callParse(blet::Args& a, const Strs& argv) {
        Outcome o;
        HeapArgv h(argv);
        g_cb.running = &a;
        // volatile-free: only o and h are touched after the jump, by address
        Outcome* po = &o;
        bool saved = g_inLib;
        if (setjmp(g_exitJmp) == 0) {
            g_exitArmed = true;
            po->exc = guardedKeep(&thrown, [&] {
                InLib in;
                a.parseArguments(h.argc, h.v);
            });
        }
        else {
            g_inLib = saved;
            po->exited = true;
            po->status = g_exitStatus;
            forgiveEpoch();
        }
        g_exitArmed = false;
        g_cb.running = nullptr;
        outCollect();
        po->out = g_out.text();
        po->argvIntact = h.intact();
        return o;
    }

    // path validator: the verdict must follow from what the file system answered
    std::string pathProblem(const VSpec& s, const Strs& vals, const std::string& outcome, const std::vector<FsRec>& log) {
        char need = s.p[0] == "dir" ? 'd' : s.p[0] == "file" ? 'f' : 0;
        auto good = [&](const std::string& v) {
            for (auto& r : log) {
                if (r.path != v || r.err != 0) continue;
                if (r.call == "access") {
                    if (!need) return true;
                    continue;
                }
                if (r.type == 'l') continue;
                if (!need || r.type == need) return true;
            }
            return false;
        };
        if (outcome == "ok") {
            for (auto& v : vals)
                if (!good(v)) return "accepted although the file system never reported " + enc(v) + " as acceptable";
            return "";
        }
        if (outcome == "std::bad_alloc(%e,%e)") return "";
        for (size_t i = 0; i < vals.size(); ++i) {
            const std::string& v = vals[i];
            std::string msg;
            bool missing = false, wrong = false;
            for (auto& r : log) {
                if (r.path != v) continue;
                if (r.err != 0) missing = true;
                else if (need && r.type != need && r.call != "access") wrong = true;
            }
            auto text = [&](const char* w) {
                return Exc("ParseArgumentValidException", "", "\"" + v + "\" is not a valid " + w).text();
            };
            if (missing && outcome == text("path")) return "";
            if (wrong && outcome == text(need == 'd' ? "directory" : "file")) return "";
            if (!good(v)) break;
        }
        return "refused with " + outcome + " which no answer of the file system explains";
    }

    void doParse(const Op& op, bool twin) {
        Slot& s = slots[op.a[0]];
        if (!s.a) return;
        Strs argv(op.a.begin() + 1, op.a.end());
        ++res.parses;
        const std::vector<Op> built = s.log;
        const std::string binName = s.a->getBinaryName();
        for (auto& kv : dests) kv.second->reset();
        for (auto& kv : world.dests) {
            bool list = kv.second.spec.type[0] == 'v';
            kv.second.known = true;
            kv.second.items = list ? Strs() : destInit.count(kv.first) ? destInit[kv.first] : Strs();
        }
        bool blocked = !lenient && s.m.helpBlocked();
        Strs auto_;
        if (!lenient && !s.m.help) {
            if (!s.m.idx.count("-h")) auto_.push_back("-h");
            if (!s.m.idx.count("--help")) auto_.push_back("--help");
        }
        arm(op);
        for (auto& kv : s.m.idx) g_cb.probe.push_back(kv.first);
        for (auto& n : auto_) g_cb.probe.push_back(n);
        const bool hadH = s.a->argumentExists("-h"), hadHelp = s.a->argumentExists("--help");
        Outcome r = callParse(*s.a, argv);
        disarm();
        CbState cb = g_cb;
        keep(r.exc, op);
        if (!r.exited) {
            // the help option the parse registered is part of the configuration
            // from here on
            Op add("add", Strs(1, op.a[0]));
            if (!hadH && s.a->argumentExists("-h")) add.a.push_back("-h");
            if (!hadHelp && s.a->argumentExists("--help")) add.a.push_back("--help");
            if (add.a.size() > 1) {
                s.log.push_back(add);
                s.log.push_back(Op("action", Strs{op.a[0], add.a[1], "HELP"}));
                s.log.push_back(Op("help", Strs{op.a[0], add.a[1], "show this help message and exit"}));
            }
        }
        std::vector<FsRec> fslog = g_fs.log;
        long fsCalls = g_fs.calls;
        (void)fsCalls;
        size_t oi = (size_t)opIndex;
        res.allocs[oi] = g_alloc.count;
        res.vcalls[oi] = cb.nv;
        res.dcalls[oi] = cb.nd;
        res.stats[oi] = (long)fslog.size();
        bool oom = g_alloc.fired > 0 && r.exc.cls == "std::bad_alloc";
        note("parse -> " + r.exc.text() + (r.exited ? " exit " + std::to_string(r.status) + " " + enc(r.out) : ""));
        for (auto& x : cb.vcalls) note(x);
        for (auto& x : cb.dcalls) note(x);
        for (auto& f : fslog) note("fs " + f.call + " " + enc(f.path) + " " + std::to_string(f.err) + " " + std::to_string(f.type));
        res.sig = mix(res.sig, hashStr("parse" + r.exc.cls + r.exc.what + (r.exited ? "x" : "")) + edgesHash());
        if (!r.exc.is() && !r.exited) ++res.okParses;
        res.probes["nested-programs"] += cb.nestedRuns;
        res.probes["reads-from-callbacks"] += (long)cb.reads.size();
        if (!r.argvIntact) report("mem.modified", "parse: argv or its strings were modified", true);
        for (auto& n : cb.nest) report("nest", "work nested in a callback behaved differently: " + n, true);
        if (!cb.reads.empty()) res.nontrivial = true;
        if (lenient) {
            if (r.exited) {
                s.log.clear();
                s.last = nullptr;
            }
            if (twin && !r.exited) twinCheck(s, built, binName, op, argv, r, cb);
            return;
        }
        if (oom) {
            ++res.probes["parse-out-of-memory"];
            s.m.unknownAll();
            for (auto& a : s.m.order) a->parsed = true;
            // the automatic help option is there completely or not at all
            if (!auto_.empty() && s.a->argumentExists(auto_[0])) {
                MArgP keep = s.m.last;
                s.m.add(auto_);
                MArgP a = s.m.last;
                s.m.configure(a, 1, A_HELP, Strs());
                a->help = "show this help message and exit";
                a->parsed = true;
                a->known = false;
                s.m.last = keep;
            }
            if (s.m.binaryName.empty() && !argv.empty() && !s.a->getBinaryName().empty()) s.m.binaryName = argv[0];
            return;
        }
        if (blocked && cfg.knownHelpBlocked && !r.exc.is() && !r.exited) {
            // listed finding: nothing was parsed
            bool same = true;
            for (auto& kv : s.m.idx)
                if (s.a->getArgument(kv.first).isExists()) same = false;
            if (same) {
                for (auto& a : s.m.order) {
                    a->rebuild();
                    a->known = false;
                }
                s.m.addKnown = false;
                ++res.probes["known-finding-help-blocked"];
                return;
            }
        }
        MParser::Faults f;
        f.cbv = cb.failV;
        f.cbvKind = cb.failVKind;
        f.cbd = cb.failD;
        f.cbdKind = cb.failDKind;
        size_t pathIdx = 0;
        std::string pathMsg;
        ParseOut w = s.m.parse(argv, f, [&](const VSpec& spec, Strs& vals, Exc* e) {
            *e = Exc();
            if (pathIdx >= cb.pathCalls.size()) {
                if (pathMsg.empty()) pathMsg = "path validator was not called with " + joinq(vals);
                return true;
            }
            Strs p = split(cb.pathCalls[pathIdx++], '|');
            std::string outc = p.size() > 2 ? p[2] : "";
            if (p.size() < 3 || p[1] != joinq(vals)) {
                if (pathMsg.empty()) pathMsg = "path validator got " + cb.pathCalls[pathIdx - 1] + " instead of " + joinq(vals);
                return true;
            }
            std::string m = pathProblem(spec, vals, outc, fslog);
            if (!m.empty() && pathMsg.empty()) pathMsg = "path validator on " + joinq(vals) + ": " + m;
            if (outc == "ok") return true;
            if (outc == "false") return false;
            // rebuild the exception from its text: class(arg,what)
            size_t o = outc.find('('), k = outc.find(',', o);
            *e = Exc(outc.substr(0, o), dec(outc.substr(o + 1, k - o - 1)), dec(outc.substr(k + 1, outc.size() - k - 2)));
            return false;
        });
        if (cfg.verbose) note("model stage " + w.stage + " " + w.exc.text());
        ++res.probes["stage-" + w.stage];
        if (!pathMsg.empty()) report("path", pathMsg);
        // outcome
        if (w.exited != r.exited)
            report("exit", w.exited ? "the parse did not end the process; outcome " + r.exc.text()
                                    : "the parse ended the process with status " + std::to_string(r.status));
        if (w.exc.text() != r.exc.text()) report("exc.parse", "parse " + joinq(argv) + ": " + diff(w.exc.text(), r.exc.text()));
        // callbacks
        if (w.vcalls != cb.vcalls) report("cb.valid", "validator calls: " + diff(joinq(w.vcalls), joinq(cb.vcalls)));
        bool sameD = w.dcalls.size() == cb.dcalls.size();
        for (size_t i = 0; sameD && i < w.dcalls.size(); ++i) {
            const std::string& d = w.dcalls[i];
            sameD = d.back() == '?' ? cb.dcalls[i].compare(0, d.size() - 1, d, 0, d.size() - 1) == 0 : d == cb.dcalls[i];
        }
        if (!sameD) report("cb.dest", "destination calls: " + diff(joinq(w.dcalls), joinq(cb.dcalls)));
        // observations from inside callbacks
        if (w.reads.size() != cb.reads.size()) report("read", "callbacks that read the parser: count differs");
        for (size_t i = 0; i < w.reads.size() && i < cb.reads.size(); ++i) {
            Strs items = split(w.reads[i].substr(w.reads[i].find(' ') + 1), ';');
            for (auto& it : items) {
                if (it.empty()) continue;
                Strs p = split(it, ':');
                // names contain no ':' unescaped? enc keeps ':', names used here have none
                std::string n = dec(p[0]);
                auto g = cb.reads[i].find(n);
                std::string got = g == cb.reads[i].end() ? "(missing)" : g->second;
                if (p.size() == 2) got = got.substr(0, 1);
                std::string want = p[1] + (p.size() > 2 ? ":" + it.substr(p[0].size() + p[1].size() + 2) : "");
                if (got != want) report("read", cb.readBy[i] + " saw " + enc(n) + " as " + got + " instead of " + want);
            }
            if (cb.reads[i].count("/self")) report("read", cb.readBy[i] + ": " + cb.reads[i]["/self"]);
            if (cb.reads[i]["/version"] != s.m.versionText) report("read", "version seen from a callback");
            if (cb.reads[i]["/usage"] != s.m.usage()) report("read", "usage seen from a callback");
            if (cb.reads[i]["/add"] != joinq(s.m.additional) && s.m.addKnown) report("read", "additional arguments seen from a callback");
        }
        // standard output
        if (w.exited) {
            std::string want = w.out;
            std::string f1;
            if (op.fault("out", &f1)) want = want.substr(0, (size_t)atol(f1.c_str()));
            if (r.out != want) report("out", "standard output: " + diff(enc(want), enc(r.out)));
            if (r.status != 0) report("exit", "exit status " + std::to_string(r.status));
            std::vector<int> freed;
            s.m.clear(&freed);
            for (int x : freed) freedValids.insert(x);
            s.log.clear();
            s.last = nullptr;
            ++res.probes["process-exit"];
        }
        else if (!r.out.empty()) report("out", "unexpected output " + enc(r.out));
        // destinations
        for (auto& kv : dests) {
            if (kv.first >= TWIN) continue;
            bool check = false;
            bool attached = world.dests.count(kv.first) != 0;
            Strs want = attached ? world.dests[kv.first].items : destInit[kv.first];
            if (w.stage == "ok") check = true;
            else if (w.stage == "token" || w.stage == "help" || w.stage == "version" || w.stage == "required" || w.stage == "exit") {
                check = true;
                want = destInit[kv.first];
            }
            else if (w.stage == "valid" && kv.first == w.rejectedDest) {
                check = true;
                want = destInit[kv.first];
            }
            if (!check || (attached && !world.dests[kv.first].known)) continue;
            Strs got = kv.second->content();
            for (auto& g : got) note("dest " + g);
            if (got != want)
                report("dest.value", "destination " + std::to_string(kv.first) + " (" + kv.second->spec.type + "): " +
                                         diff(joinq(want), joinq(got)));
            if (!want.empty()) ++res.probes["destinations-checked"];
        }
        // pointers handed out stay readable while the parser is only read
        if (w.stage == "ok") {
            observeAll();
            for (auto& kv : dests)
                if (kv.first < TWIN && world.dests.count(kv.first) && world.dests[kv.first].known && kv.second->content() != world.dests[kv.first].items)
                    report("dest.value", "destination " + std::to_string(kv.first) + " changed by reading the parser");
        }
        if (twin) twinCheck(s, built, binName, op, argv, r, cb);
    }

    // the same command line, first thing on a freshly built identical parser
    void twinCheck(Slot& s, const std::vector<Op>& log, const std::string& binName, const Op& op, const Strs& argv, const Outcome& r, const CbState& cb) {
        ++res.probes["twin-comparisons"];
        std::unique_ptr<blet::Args> t(new blet::Args);
        RArg* last = nullptr;
        std::map<int, DestObj*> td;
        std::set<int> tv;
        for (auto& o : log) {
            bool tampered = false;
            Ctx c{t.get(), &last, TWIN, &td, nullptr};
            if (o.name == "valid" && o.a[2] != "none") tv.insert(atoi(o.a[2].c_str()) + TWIN);
            Exc e = applyConfig(c, o, &tampered);
            if (e.is()) {
                // the accepted history cannot be repeated on a new parser
                cleanupTwin(t, td, tv);
                report("twin.config", "accepted call " + o.text() + " is refused on a fresh parser: " + e.text(), true);
                return;
            }
        }
        // the program name is a setting the first command line gives
        if (!binName.empty()) t->setBinaryName(binName.c_str());
        for (auto& kv : td) kv.second->reset();
        std::map<std::string, FsNode> fsKeep = g_fs.nodes;
        Op again = op;
        Strs keep;
        for (auto& f : op.f)
            if (f[0] != 'a') keep.push_back(f);
        again.f = keep;
        arm(again);
        Outcome q = callParse(*t, argv);
        disarm();
        CbState cb2 = g_cb;
        std::string msg;
        auto differ = [&](const std::string& what, const std::string& fresh, const std::string& used) {
            if (fresh != used && msg.empty()) msg = what + ": fresh parser {" + fresh + "} used parser {" + used + "}";
        };
        differ("outcome", q.exited ? "exit " + std::to_string(q.status) : q.exc.text(),
               r.exited ? "exit " + std::to_string(r.status) : r.exc.text());
        differ("output", q.out, r.out);
        differ("validator calls", joinq(cb2.vcalls), joinq(cb.vcalls));
        differ("destination calls", joinq(cb2.dcalls), joinq(cb.dcalls));
        if (!q.exited && !q.exc.is() && msg.empty()) {
            Strs names;
            for (auto& kv : s.m.idx) names.push_back(kv.first);
            for (auto n : PROBE_NAMES) names.push_back(n);
            for (auto& n : names) {
                bool e1 = t->argumentExists(n), e2 = s.a->argumentExists(n);
                differ("registered " + enc(n), e1 ? "1" : "0", e2 ? "1" : "0");
                if (!e1 || !e2) continue;
                View v1 = viewOf(t->getArgument(n), nullptr), v2 = viewOf(s.a->getArgument(n), nullptr);
                for (auto& kv : v1) differ(enc(n) + " " + kv.first, kv.second, v2.count(kv.first) ? v2[kv.first] : "(none)");
                for (auto& kv : v2)
                    if (!v1.count(kv.first)) differ(enc(n) + " " + kv.first, "(none)", kv.second);
            }
            View s1 = settingsOf(*t), s2 = settingsOf(*s.a);
            // the program name is taken from the first command line seen
            for (auto& kv : s1)
                if (kv.first != "set.bin" && kv.first != "usage") differ(kv.first, kv.second, s2[kv.first]);
            if (s1["set.bin"] == s2["set.bin"]) differ("usage", s1["usage"], s2["usage"]);
            for (auto& kv : td)
                if (dests.count(kv.first - TWIN))
                    differ("destination " + std::to_string(kv.first - TWIN), joinq(kv.second->content()),
                           joinq(dests[kv.first - TWIN]->content()));
        }
        cleanupTwin(t, td, tv);
        g_fs.nodes = fsKeep;
        if (!msg.empty()) report("twin.parse", "parse " + joinq(argv) + ": " + msg, true);
    }

    void cleanupTwin(std::unique_ptr<blet::Args>& t, std::map<int, DestObj*>& td, std::set<int>& tv) {
        t.reset();
        for (auto& kv : td) delete kv.second;
        for (int id : tv) {
            if (g_valid[id].ptr && !g_valid[id].handed) delete g_valid[id].ptr;
            g_valid.erase(id);
        }
    }

    // single accessor under an allocation fault
    void doGet(const Op& op) {
        Slot& s = slots[op.a[0]];
        if (!s.a || lenient) return;
        MArgP m = s.m.find(op.a[1]);
        const std::string& what = op.a[2];
        std::string name = op.a[1];
        std::string got, want;
        std::string* gs = nullptr;
        std::vector<std::string>* gv = nullptr;
        std::vector<std::vector<std::string> >* gvv = nullptr;
        bool known = m && m->known;
        arm(op);
        const blet::Args& ca = *s.a;
        Exc e = guarded([&] {
            InLib in;
            if (what == "str") gs = new std::string(ca.getArgument(name).getString());
            else if (what == "usage") gs = new std::string(ca.getUsage());
            else if (what == "vec") gv = new std::vector<std::string>(ca[name].operator std::vector<std::string>());
            else if (what == "vv")
                gvv = new std::vector<std::vector<std::string> >(ca[name].operator std::vector<std::vector<std::string> >());
            else if (what == "copy") {
                RArg c(ca[name]);
                gs = new std::string(c.getString());
            }
            else gs = new std::string(ca[name].operator std::string());
        });
        disarm();
        res.allocs[(size_t)opIndex] = g_alloc.count;
        if (gs) got = *gs;
        if (gv) got = joinq(*gv);
        if (gvv)
            for (auto& r : *gvv) got += joinq(r);
        delete gs;
        delete gv;
        delete gvv;
        note("get " + what + " -> " + (e.is() ? e.text() : ((known || what == "usage") ? enc(got) : "-")));
        res.sig = mix(res.sig, hashStr("get" + what + e.cls) + edgesHash());
        if (g_alloc.fired > 0 && e.cls == "std::bad_alloc") {
            ++res.probes["accessor-out-of-memory"];
            return;
        }
        if (what == "usage") {
            if (e.is()) report("acc", "getUsage threw " + e.text());
            else if (got != s.m.usage()) report("acc", "getUsage: " + diff(enc(s.m.usage()), enc(got)));
            return;
        }
        if (!m) {
            want = Exc("AccessDeniedException", name, "argument not found").text();
            if (e.text() != want) report("acc", "lookup of " + enc(name) + ": " + diff(want, e.text()));
            return;
        }
        if (!known) return;
        View v = s.m.view(*m);
        want = what == "vec" ? v["val.vec"] : what == "vv" ? v["val.vv"] : v["val.str"];
        std::string g = e.is() ? e.text() : got;
        if (g != want) report("acc", what + " of " + enc(name) + ": " + diff(want, g));
    }

    void doCopy(const Op& op) {
        Slot& s = slots[op.a[0]];
        if (!s.a || !s.a->argumentExists(op.a[1])) return;
        Copy c;
        const RArg& src = s.a->getArgument(op.a[1]);
        arm(op);
        RArg* p = nullptr;
        Exc e = guarded([&] {
            InLib in;
            p = new RArg(src);
        });
        disarm();
        res.allocs[(size_t)opIndex] = g_alloc.count;
        note("copy -> " + e.text());
        if (!p) {
            if (!(g_alloc.fired && e.cls == "std::bad_alloc")) report("copy", "copying threw " + e.text());
            return;
        }
        c.c.reset(p);
        View vs = viewOf(src, nullptr);
        c.v = viewOf(*p, nullptr);
        for (auto& kv : vs)
            if (c.v[kv.first] != kv.second) report("copy", "copy of " + enc(op.a[1]) + " " + kv.first + ": " + diff(kv.second, c.v[kv.first]));
        ++res.probes["argument-copies"];
        copies[op.a[2]] = std::move(c);
    }

    void drop(Slot& s, bool destroy) {
        std::vector<int> freed;
        newEpoch();
        {
            InLib in;
            if (destroy) s.a.reset();
            else s.a->clear();
        }
        s.m.clear(&freed);
        for (int x : freed) freedValids.insert(x);
        s.last = nullptr;
        s.log.clear();
    }

    void exec(const Op& op) {
        g_progress.op = opIndex;
        opSalt = hashStr(op.text());
        fullObs = plan.prop == "C20";
        const std::string& n = op.name;
        if (n == "new") {
            Slot& s = slots[op.a[0]];
            if (s.a) return;
            s.m = MParser();
            s.m.w = &world;
            arm(op);
            Exc e = guarded([&] {
                InLib in;
                s.a.reset(new blet::Args);
            });
            disarm();
            res.allocs[(size_t)opIndex] = g_alloc.count;
            note("new -> " + e.text());
            if (e.is() && !(g_alloc.fired && e.cls == "std::bad_alloc")) report("exc.cfg", "constructor threw " + e.text());
        }
        else if (n == "destroy" || n == "clear") {
            Slot& s = slots[op.a[0]];
            if (!s.a) return;
            arm(op);
            if (!s.m.order.empty() || s.m.valuesKnown) ++res.probes[n == "clear" ? "cleared" : "destroyed"];
            drop(s, n == "destroy");
            disarm();
            res.sig = mix(res.sig, hashStr(n) + edgesHash());
        }
        else if (isConfigOp(n)) doConfig(op);
        else if (n == "parse") doParse(op, false);
        else if (n == "ptwin") doParse(op, true);
        else if (n == "get") doGet(op);
        else if (n == "copy") doCopy(op);
        else if (n == "dropcopy") copies.erase(op.a[0]);
        else if (n == "fs") g_fs.apply(op.a[0]);
        else {
            fprintf(stderr, "sim: unknown operation %s\n", n.c_str());
            exit(3);
        }
        observeAll();
        if (pending) lenient = true;
    }

    RunResult run() {
        g_valid.clear();
        g_destId.clear();
        g_fs.reset();
        g_alloc.arm(0, false);
        g_allocError = nullptr;
        g_cb = CbState();
        outReset(-1);
        edgesReset();
        size_t n = plan.ops.size();
        res.allocs.assign(n, 0);
        res.vcalls.assign(n, 0);
        res.dcalls.assign(n, 0);
        res.stats.assign(n, 0);
        long live0 = liveLibBlocks();
        g_progress.stage = 1;
        try {
            for (size_t i = 0; i < n; ++i) {
                opIndex = (int)i;
                ++res.ops;
                exec(plan.ops[i]);
            }
            opIndex = (int)n;
            g_progress.op = (int)n;
            g_progress.stage = 2;
            for (auto& kv : slots)
                if (kv.second.a) drop(kv.second, true);
            checkOwned();
            checkCopies();
            checkAllKept();
            kept.clear();
            thrown = nullptr;
            teardown();
            long live1 = liveLibBlocks();
            if (live1 > live0)
                report("leak", std::to_string(live1 - live0) + " library allocations are never released", true);
        }
        catch (Stopped&) {
            g_inLib = false;
            for (auto& kv : slots) kv.second.a.release();  // state is not trusted any more
            newEpoch();
        }
        g_progress.stage = 0;
        res.hash = hash;
        return res;
    }

    void teardown() {
        copies.clear();
        for (auto& kv : dests) delete kv.second;
        dests.clear();
        std::vector<blet::Args::IValid*> rest;
        for (auto& kv : g_valid)
            if (kv.second.ptr && !(lenient && kv.second.handed)) rest.push_back(kv.second.ptr);
        for (auto p : rest) delete p;
        g_cb = CbState();
        g_fs.log.clear();
        g_fs.log.shrink_to_fit();
    }
};

} // namespace

RunResult runPlan(const Plan& p, const EngineCfg& cfg) {
    RunResult r;
    {
        Engine e(p, cfg);
        r = e.run();
        e.slots.clear();
    }
    if (r.v.is && r.v.facet == "leak") {
        // storage kept once for the life of the process is not a leak: it must
        // grow again when the same plan runs again
        Engine e(p, cfg);
        RunResult r2 = e.run();
        if (!r2.v.is) r.v.is = false;
    }
    return r;
}

std::vector<std::string> facetsOf(const std::string& prop) {
    static const std::map<std::string, std::vector<std::string> > m = {
        {"C01", {"exc.parse", "val", "exit", "hang"}},
        {"C02", {"exc.parse", "val", "add", "exit", "hang"}},
        {"C03", {"exc.parse", "exit", "out", "own", "reg", "cb", "hang"}},
        {"C04", {"twin", "exc.parse", "val", "add", "hang"}},
        {"C05", {"exc", "reg", "cfg", "set", "val", "add", "usage", "own", "hang"}},
        {"C06", {"exc", "reg", "cfg", "set", "val", "usage", "hang"}},
        {"C07", {"exc", "reg", "cfg", "set", "val", "add", "usage", "acc", "leak", "own", "copy", "hang", "dest", "cb", "self"}},
        {"C08", {"cb.valid", "exc.parse", "val", "dest", "own", "path", "hang"}},
        {"C09", {"dest", "cb.dest", "exc.parse", "hang"}},
        {"C10", {"own", "leak", "copy", "hang"}},
        {"C11", {"path", "exc.parse", "cb.valid", "hang"}},
        {"C14", {"usage", "out", "acc", "hang"}},
        {"C15", {"mem", "val", "reg", "cfg", "set", "add", "usage", "exc", "dest", "hang"}},
        {"C16", {"twin", "exc", "reg", "cfg", "set", "val", "add", "usage", "own", "leak", "hang"}},
        {"C18", {"exc.parse", "exit", "hang"}},
        {"C19", {"read", "nest", "exc.parse", "val", "dest", "cb", "own", "add", "hang"}},
        {"C20", {"self", "val", "copy", "acc", "hang"}},
        {"C22", {"list", "exc", "reg", "cfg", "val", "usage", "hang"}},
    };
    auto it = m.find(prop);
    return it == m.end() ? std::vector<std::string>() : it->second;
}

} // namespace sim
