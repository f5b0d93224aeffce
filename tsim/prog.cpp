// The programs the simulated threads run (instrumented, like the library).
#include "rt.h"
#define DRV_QUIET rt::Quiet drv_quiet_
#include "driver.h"
#include "prog.h"

namespace prog {

namespace {
Run* g_run;
drv::Driver* g_main;

void body(int id) {
    const Thread& t = g_run->threads[(size_t)id];
    if (!g_run->shared) {
        drv::Driver d;
        d.noExit = true;
        d.refusals = true;
        d.every = g_run->every;
        d.run(t.ops);
        rt::Quiet q;
        g_run->logs[(size_t)id] = d.log;
        return;
    }
    const blet::Args* a = g_main->slots["P0"].a;
    std::string log;
    for (size_t i = 0; i < t.ops.size(); ++i) {
        const drv::Op& o = t.ops[i];
        std::string r = drv::readOne(*a, o.a[0], o.a.size() > 1 ? o.a[1] : "");
        rt::Quiet q;
        log += "> q " + o.a[0] + " " + drv::enc(o.a.size() > 1 ? o.a[1] : "") + "\n" + r + "\n";
    }
    rt::Quiet q;
    g_run->logs[(size_t)id] = log;
}

drv::Driver* build(const std::vector<drv::Op>& ops) {
    drv::Driver* d = new drv::Driver;
    d->noExit = true;
    d->refusals = true;
    d->silent = true;
    d->every = 1000000;
    for (size_t i = 0; i < ops.size(); ++i) d->one(ops[i]);
    d->slots["P0"].known = true;
    d->log.clear();
    return d;
}

} // namespace

void execute(Run* r, rt::Sched* s) {
    g_run = r;
    int n = (int)r->threads.size() - 1;
    r->logs.assign(r->threads.size(), "");
    if (r->shared) {
        g_main = build(r->threads[0].ops);
        if (g_main->slots["P0"].a == NULL) {
            r->empty = true;
            return;
        }
        // nothing has read the parser so far: whatever reading fills in lazily
        // is filled in by the threads
        r->result = rt::run(n, body, s);
        g_main->observe("P0", g_main->slots["P0"]);
        // the same parser, built again and read by nobody else
        drv::Driver* twin = build(r->threads[0].ops);
        twin->observe("P0", twin->slots["P0"]);
        r->changed = twin->log != g_main->log;
        return;
    }
    r->result = rt::run(n, body, s);
}

} // namespace prog
