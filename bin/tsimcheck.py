"""C12 and C13: seeded simulation of threads (tsim/)."""
import glob
import json
import os
import re
import subprocess
import sys
import time

from common import EVIDENCE, JOBS, VERIF, CheckError, Scratch, make, stop, write_evidence
from minimise import Minimiser

# property -> programs, quick
PROPS = {"C12": 2400, "C13": 6400}
THOROUGH_FACTOR = 60
QUICK_CAP, THOROUGH_CAP = 240.0, 2400.0
SCHEDULES = 4
# the last workers run the programs on the single header
SINGLE_WORKERS = 2
SINGLE_MARK = "# build single-header"


def build():
    make("sim", "dsim")
    return os.path.join(make("tsim", "tsim"), "tsim")


def single_of(binary):
    return binary + "-single"


def symbols(binary, text):
    """addresses in a message -> functions"""
    for p in sorted(set(re.findall(r"0x([0-9a-f]+)", text))):
        try:
            r = subprocess.run(["addr2line", "-f", "-C", "-i", "-s", "-e", binary, "0x%x" % (int(p, 16) - 1)],
                               capture_output=True, text=True, timeout=60)
        except (OSError, subprocess.TimeoutExpired):
            return text
        ls = r.stdout.splitlines()
        names = [re.sub(r"\(.*", "", ls[i]) + " (" + ls[i + 1] + ")" for i in range(0, len(ls) - 1, 2)]
        own = [n for n in names if "blet" in n] or names
        text = text.replace("0x" + p, own[0] if own else p)
    return text


def replay(binary, text, scratch, timeout=120):
    path = os.path.join(scratch, "t-%d.plan" % time.monotonic_ns())
    with open(path, "w") as f:
        f.write(text)
    try:
        r = subprocess.run([binary, "replay", path], capture_output=True, text=True, errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired:
        return "error", "", "the replay does not end"
    finally:
        os.unlink(path)
    h = next((x[5:] for x in r.stdout.splitlines() if x.startswith("HASH ")), "")
    if r.returncode == 0:
        return "ok", h, ""
    line = next((x for x in r.stdout.splitlines() if x.startswith("VIOLATION ")), "")
    if r.returncode == 1 and line:
        w = line.split(" ", 2)
        return w[1].split("=")[1], h, w[2] if len(w) > 2 else ""
    return "error", h, r.stderr[-300:]


def split(text):
    """-> head lines, sections [(number, lines)], schedule tokens"""
    head, secs, sched = [], [], []
    for line in text.splitlines():
        if not line.strip() or line.startswith("#"):
            continue
        if line.startswith("T "):
            secs.append((line.split()[1], []))
        elif line.startswith("sched"):
            sched = line.split()[1:]
        elif not secs:
            head.append(line)
        elif not line.startswith("prop "):
            secs[-1][1].append(line)
    return head, secs, sched


def unite(head, secs, sched):
    return "\n".join(head + [x for n, ls in secs for x in ["T " + n] + ls] + [" ".join(["sched"] + sched)]) + "\n"


def minimise(text, test, budget):
    head, secs, sched = split(text)
    end = time.time() + budget
    tests = [0]

    def t(s2, c2):
        if time.time() > end:
            return False
        tests[0] += 1
        return test(unite(head, s2, c2))

    def dd(items, good):
        n = 2
        while len(items) >= 1:
            size = max(1, len(items) // n)
            i, reduced = 0, False
            while i < len(items):
                cand = items[:i] + items[i + size:]
                if good(cand):
                    items, reduced = cand, True
                    n = max(n - 1, 2)
                else:
                    i += size
                if time.time() > end:
                    return items
            if not reduced:
                if size == 1:
                    break
                n = min(len(items), n * 2)
        return items

    for _ in range(3):
        before = unite(head, secs, sched)
        # whole threads; the numbers stay, an empty thread ends at once
        for k in range(len(secs) - 1, -1, -1):
            if secs[k][0] != "0" and len([s for s in secs if s[0] != "0" and s[1]]) > 2:
                cand = secs[:k] + [(secs[k][0], [])] + secs[k + 1:]
                if t(cand, sched):
                    secs = cand
        for k in range(len(secs)):
            secs = secs[:k] + [(secs[k][0], dd(secs[k][1], lambda c: t(secs[:k] + [(secs[k][0], c)] + secs[k + 1:], sched)))] + secs[k + 1:]
            m = Minimiser(lambda x: False, budget=max(0.0, end - time.time()))
            m.test = lambda h, o: t(secs[:k] + [(secs[k][0], o)] + secs[k + 1:], sched)
            secs = secs[:k] + [(secs[k][0], m.words([], secs[k][1]))] + secs[k + 1:]
        sched = dd(sched, lambda c: t(secs, c))
        if unite(head, secs, sched) == before or time.time() > end:
            break
    return unite(head, secs, sched), tests[0]


def check(prop, tier, seed, runs, t0):
    binary = build()
    dsim = os.path.join(make("sim", "dsim"), "dsim")
    t_build = time.time() - t0
    n = runs or PROPS[prop] * (1 if tier == "quick" else THOROUGH_FACTOR)
    cap = QUICK_CAP if tier == "quick" else THOROUGH_CAP
    with Scratch() as scratch:
        regressions = 0
        for path in sorted(glob.glob(os.path.join(VERIF, "regress", "*.plan"))):
            text = open(path).read()
            if not text.startswith("prop %s\n" % prop):
                continue
            regressions += 1
            for b in (binary, single_of(binary)):
                r = replay(b, text, scratch)
                if r[0] not in ("ok", "error"):
                    return violation(prop, tier, seed, b, text, r, scratch, t0)
        plans = os.path.join(scratch, "plans")
        with open(plans, "w") as f:
            # programs are drawn from a pool of plans; the pool is large enough
            # for every quick run to have its own
            subprocess.run([dsim, "gen", "--prop", prop, "--seed", str(seed), "--from", "0", "--to", str(min(n * 4, 60000)), "--tier", tier],
                           stdout=f, timeout=600, check=True)
        ts = time.time()

        def start(w, lo, hi, stride, tag, sec):
            out = os.path.join(scratch, "out." + tag)
            err = open(os.path.join(scratch, "err." + tag), "w+")
            b = single_of(binary) if w >= JOBS - SINGLE_WORKERS else binary
            p = subprocess.Popen([b, "run", "--prop", prop, "--plans", plans, "--seed", str(seed), "--from", str(lo), "--to", str(hi),
                                  "--stride", str(stride), "--seconds", "%.1f" % sec, "--schedules", str(SCHEDULES), "--cpu", str(w),
                                  "--out", out], stdout=subprocess.DEVNULL, stderr=err)
            return p, out, err, b

        ws = [start(w, w, n, JOBS, str(w), cap) for w in range(JOBS)]
        left = list(ws)
        bad = None
        deadline = ts + cap + 200
        while left and bad is None:
            time.sleep(0.05)
            for x in list(left):
                rc = x[0].poll()
                if rc is None:
                    continue
                left.remove(x)
                if rc != 0:
                    bad = (x, rc)
                    break
            if time.time() > deadline:
                stop([x[0] for x in ws])
                raise CheckError("the simulation does not end in time")
        if bad is not None:
            stop([x[0] for x in ws])
            x, rc = bad
            try:
                v = json.load(open(x[1]))["violation"]
            except (OSError, ValueError, KeyError):
                x[2].seek(0)
                raise CheckError("worker failed (%d): %s" % (rc, x[2].read()[-400:]))
            return violation(prop, tier, seed, x[3], v["plan"], (v["kind"], "", v["msg"]), scratch, t0)
        wall = time.time() - ts
        tot = {k: 0 for k in ("runs", "programs", "skipped", "redone", "steps", "switches", "blocked", "allocs", "checked")}
        kinds, threads, inter, sample = {}, {}, set(), []
        capped = False
        single_runs = 0
        for x in ws:
            r = json.load(open(x[1]))
            if x[3] != binary:
                single_runs += r["runs"]
            for k in tot:
                tot[k] += r[k]
            for a, b in ((kinds, r["schedules_by"]), (threads, r["threads"])):
                for k, v in b.items():
                    a[k] = a.get(k, 0) + v
            inter.update(r["inter"])
            capped = capped or r["next"] < n
            if r["sample"] and len(sample) < 2:
                sample.append(r["sample"][:6000])
        hs = []
        for k in range(2):
            p, out, err, _ = start(k, 0, 12, 1, "det%d" % k, 200)
            if p.wait(timeout=300) != 0:
                raise CheckError("determinism run failed")
            hs.append(json.load(open(out))["hash"])
        if hs[0] != hs[1]:
            raise CheckError("the simulator is not deterministic: fresh processes disagree")
        if tot["runs"] == 0 or tot["skipped"] > tot["programs"]:
            raise CheckError("most programs do not run alone: nothing was decided")
    write_evidence(prop, {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(time.time() - t0, 2), "violations": 0,
        "assumptions": ["the scheduler interleaves at memory accesses and calls of the library's and the program's compiled code; libstdc++ "
                        "and libc internals run without interruption",
                        "sequentially consistent execution; weaker orders show as happens-before races only",
                        "programs and schedules are sampled by seed"],
        "coverage": {
            "evaluations": tot["runs"], "distinct_nontrivial": len(inter),
            "rule": "a run is one seeded multi-threaded program under one seeded schedule, every thread's observations compared with the "
                    "same thread run alone in a fresh process, all instrumented accesses checked for happens-before races; it is "
                    "non-trivial when at least two preemptions happened, distinct ones are counted by program and full switch list",
            "samples": sample, "programs": tot["programs"], "programs_left_out": tot["skipped"], "runs_on_the_single_header": single_runs, "threads": threads,
            "memory_access_steps": tot["steps"], "accesses_checked": tot["checked"], "context_switches": tot["switches"],
            "waits_on_a_lock": tot["blocked"], "schedules_by_strategy": kinds, "schedules_replayed_and_equal": tot["redone"],
            "fault_kinds_fired": {"preemption": tot["switches"]},
            "simulated_time": {"unit": "scheduler steps (one per instrumented access or call)", "steps": tot["steps"]},
            "runs_and_seeds_per_hour": int(tot["runs"] / max(wall, 0.01) * 3600),
            "determinism": {"programs_run_in_two_fresh_processes": 12, "hash": hs[0], "equal": True},
            "regression_plans_replayed": regressions, "search_capped_by_time": capped,
            "build_s": round(t_build, 1), "search_s": round(wall, 1), "workers": JOBS,
            "components_real": ["/repo/src with /repo/include, and /repo/single_include, compiled with access instrumentation", "POSIX threads, thread-local storage, "
                                "exceptions, libstdc++"],
            "components_stub": ["scheduler (one thread runs at a time)", "operator new/delete (deterministic arena)",
                                "pthread mutexes, rwlocks, once and static-initialization guards (blocking goes through the scheduler)",
                                "exit (intercepted)"],
        }})
    print("OK property=%s runs=%d programs=%d interleavings=%d switches=%d steps=%d wall=%.0fs" % (
        prop, tot["runs"], tot["programs"], len(inter), tot["switches"], tot["steps"], time.time() - t0))
    return 0


def violation(prop, tier, seed, binary, text, first, scratch, t0):
    os.makedirs(EVIDENCE, exist_ok=True)
    path = os.path.join(EVIDENCE, "%s-violation.plan" % prop)
    a = replay(binary, text, scratch)
    b = replay(binary, text, scratch)
    if a[0] in ("ok", "error") or a[:2] != b[:2]:
        raise CheckError("a violation (%s %s) was seen but does not replay: %s / %s" % (first[0], first[2][:300], a[:2], b[:2]))
    small, tests = minimise(text, lambda x: replay(binary, x, scratch, 60)[0] == a[0], 45.0)
    r1 = replay(binary, small, scratch)
    r2 = replay(binary, small, scratch)
    if r1[0] != a[0] or r1[:2] != r2[:2]:
        small, r1 = text, a
    msg = symbols(binary, r1[2])
    with open(path, "w") as f:
        if binary.endswith("-single"):
            f.write(SINGLE_MARK + "\n")
        f.write("# property %s, seed %d; replay with: bin/replay.py %s\n# %s: %s\n# hash %s\n" % (
            prop, seed, os.path.relpath(path, VERIF), r1[0], msg.replace("\n", " ")[:1500], r1[1]))
        f.write(small)
    write_evidence(prop, {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(time.time() - t0, 2), "violations": 1,
        "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "search stopped at the first violation",
                     "samples": [{"kind": r1[0], "message": msg[:1500], "plan": small, "minimisation_tests": tests}]}})
    print("%s: %s" % (r1[0], msg[:900]))
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1


def replay_cli(path):
    binary = build()
    if SINGLE_MARK in open(path).read():
        binary = single_of(binary)
    r = subprocess.run([binary, "replay", path, "--verbose"], capture_output=True, text=True, errors="replace")
    sys.stdout.write(symbols(binary, r.stdout))
    return r.returncode
