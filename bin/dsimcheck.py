"""Checks decided by the single-process simulator (sim/)."""
import glob
import json
import os
import subprocess
import time

from common import EVIDENCE, VERIF, CheckError, Scratch, findings, make, stop, write_evidence
from minimise import Minimiser

# property -> (quick runs, level)
PROPS = {
    "C01": (20000, "exploration"),
    "C02": (22000, "exploration"),
    "C03": (12000, "exploration"),
    "C04": (11000, "exploration"),
    "C05": (22000, "exploration"),
    "C06": (14000, "exploration"),
    "C07": (9000, "fault_enumeration"),
    "C08": (20000, "exploration"),
    "C09": (16000, "exploration"),
    "C10": (11000, "exploration"),
    "C11": (16000, "exploration"),
    "C14": (14000, "exploration"),
    "C15": (18000, "exploration"),
    "C16": (11000, "exploration"),
    "C18": (17000, "exploration"),
    "C19": (11000, "exploration"),
    "C20": (4500, "exploration"),
    "C22": (9000, "exploration"),
}
QUICK_CAP = 300.0      # seconds of search, quick
THOROUGH_CAP = 2400.0  # seconds of search, thorough
THOROUGH_FACTOR = 60
WORKERS = 8
SINGLE_WORKERS = 2     # of them run the single header, the others the library
SINGLE_MARK = "# build single-header"
CRASH, HANG = 77, 79

RULE = ("A run is a seeded program of parser operations (construct, add, flag, action, nargs, defaults, valid, dest, remove, clear, "
        "texts, modes, parses of generated command lines, accessors, copies, destruction) with the fault sequence of its profile, "
        "executed against the real library and a reference model in step. It is non-trivial when %s; distinct ones are counted by a "
        "signature of operation outcomes and of the set of control-flow edges the library took in each call.")
WHY = {
    "C03": "a help or version request ended a parse",
    "C04": "a re-used parser was compared with a fresh one after at least one earlier parse",
    "C05": "at least one configuration call was refused",
    "C07": "an injected allocation failure fired and was reported by a configuration call, a parse or an accessor",
    "C08": "a validator was called",
    "C09": "a destination was written and compared",
    "C10": "an owned validator was released, called, or an argument was copied",
    "C11": "the library asked the simulated file system",
    "C16": "a parser with content was cleared and used again",
    "C19": "a callback read the running parser or ran another one",
    "C22": "a list of at least four texts was built in one of the forms",
}


def replay(binary, text, prop=None, known=True, timeout=60, scratch=None):
    """runs one plan in a fresh process -> (kind, hash, message)"""
    path = os.path.join(scratch, "replay-%d-%d.plan" % (os.getpid(), time.monotonic_ns()))
    with open(path, "w") as f:
        f.write(text)
    cmd = [binary, "replay", path]
    if prop:
        cmd += ["--prop", prop]
    if known:
        cmd += ["--known-help"]
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired:
        return "hang", "", "the run does not end"
    finally:
        os.unlink(path)
    h = next((x[5:] for x in r.stdout.splitlines() if x.startswith("HASH ")), "")
    if r.returncode == 0:
        return "ok", h, ""
    if r.returncode == 1:
        line = next((x for x in r.stdout.splitlines() if x.startswith("VIOLATION ")), "")
        facet = line.split()[1].split("=", 1)[1] if line else "?"
        return facet, h, line[len("VIOLATION "):]
    if r.returncode == HANG:
        return "hang", "", "the run does not end"
    if r.returncode in (2, 3):
        return "error", h, r.stderr[-500:]
    return "crash", "", crash_text(r.stderr) or "exit code %d" % r.returncode


def crash_text(err):
    for line in err.splitlines():
        if "ERROR: AddressSanitizer" in line or "runtime error:" in line or "terminate called" in line or "Assertion" in line:
            # addresses differ from run to run, the first words do not
            return line.strip()[:300]
    return err.strip()[:300]


class Worker:
    def __init__(self, binary, prop, seed, w, n, tier, cap, scratch, start=None, stride=None):
        self.w = w
        self.cur = os.path.join(scratch, "cur.%d" % w)
        self.out = os.path.join(scratch, "out.%d" % w)
        self.err = open(os.path.join(scratch, "err.%d" % w), "w+b")
        self.binary = binary
        self.stride = WORKERS if stride is None else stride
        self.start = w if start is None else start
        cmd = [binary, "run", "--prop", prop, "--seed", str(seed), "--from", str(self.start), "--to", str(n),
               "--stride", str(self.stride), "--tier", tier, "--seconds", "%.1f" % cap, "--cur", self.cur, "--out", self.out,
               "--known-help"]
        self.p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=self.err)

    def result(self):
        try:
            with open(self.out) as f:
                return json.load(f)
        except (OSError, ValueError):
            return None

    def plan(self):
        try:
            data = open(self.cur, "rb").read()
        except OSError:
            return ""
        return data.split(b"\0", 1)[0].decode("utf-8", "replace")

    def errtext(self):
        self.err.seek(0)
        return self.err.read().decode("utf-8", "replace")


def add(a, b):
    for k, v in b.items():
        a[k] = a.get(k, 0) + v


def binary_for(text=""):
    """the build a plan was found on"""
    return os.path.join(make("sim", "dsim"), "dsim-single" if SINGLE_MARK in text else "dsim")


def check(prop, tier, seed, runs, t0):
    binary = binary_for()
    single = binary_for(SINGLE_MARK)
    t_build = time.time() - t0
    quick, level = PROPS[prop]
    n = runs or (quick if tier == "quick" else quick * THOROUGH_FACTOR)
    cap = QUICK_CAP if tier == "quick" else THOROUGH_CAP
    with Scratch() as scratch:
        known_lines = []
        regressions = 0
        for f in findings():
            if f.get("property") != prop:
                continue
            text = open(os.path.join(VERIF, f["plan"])).read()
            kind, _, msg = replay(binary, text, prop, False, scratch=scratch)
            if kind == f["facet"]:
                known_lines.append("KNOWN-FINDING: property=%s %s" % (prop, f["text"]))
            elif kind != "ok":
                return violation(prop, tier, seed, level, text, kind, binary, scratch, t0, known=False)
        for path in sorted(glob.glob(os.path.join(VERIF, "regress", "*.plan"))):
            text = open(path).read()
            if not text.startswith("prop %s\n" % prop):
                continue
            for b in (binary, single):
                kind, _, msg = replay(b, text, prop, True, scratch=scratch)
                if kind == "error":
                    raise CheckError(msg)
                if kind != "ok":
                    return violation(prop, tier, seed, level, text, kind, b, scratch, t0)
            regressions += 1
        ts = time.time()
        ws = [Worker(single if w >= WORKERS - SINGLE_WORKERS else binary, prop, seed, w, n, tier, cap, scratch)
              for w in range(WORKERS)]
        bad = None
        deadline = ts + cap + 120
        left = list(ws)
        while left and bad is None:
            time.sleep(0.05)
            for w in list(left):
                rc = w.p.poll()
                if rc is None:
                    continue
                left.remove(w)
                if rc != 0:
                    bad = (w, rc)
                    break
            if time.time() > deadline and left:
                bad = (left[0], HANG)
        if bad is not None:
            stop([w.p for w in ws])
            w, rc = bad
            res = w.result() or {}
            if rc == 1 and "violation" in res:
                v = res["violation"]
                return violation(prop, tier, seed, level, v["plan"], v["facet"], w.binary, scratch, t0,
                                 rng=(w.start, w.stride, v["index"]))
            if rc in (2, 3):
                raise CheckError(w.errtext()[-400:])
            kind = "hang" if rc == HANG else "crash"
            return violation(prop, tier, seed, level, w.plan(), kind, w.binary, scratch, t0, note=crash_text(w.errtext()),
                             rng=(w.start, w.stride, None))
        wall = time.time() - ts
        tot = {"runs": 0, "fault_runs": 0, "nontrivial": 0, "ops": 0, "parses": 0, "ok_parses": 0, "steps": 0, "redone": 0,
               "diverged": 0, "allocs": 0, "history_dependent": 0}
        fired, probes, div = {}, {}, {}
        sigs = set()
        samples = []
        hashes = []
        edges = 0
        capped = False
        for w in ws:
            r = w.result()
            if r is None:
                raise CheckError("worker left no result: " + w.errtext()[-400:])
            for k in tot:
                tot[k] += r.get(k, 0)
            add(fired, r["fired"])
            add(probes, r["probes"])
            add(div, r["diverged_by"])
            sigs.update(r["sigs"])
            hashes.append(r["hash"])
            edges = max(edges, r["edges"])
            capped = capped or r["next"] < n
            if r["sample"] and len(samples) < 2:
                samples.append(r["sample"])
        # the first runs again with another number of workers: same executions
        det = determinism(binary, prop, seed, scratch, tier)
    write_evidence(prop, {
        "property": prop, "tier": tier, "seed": seed, "level": level, "wall_s": round(time.time() - t0, 2), "violations": 0,
        "assumptions": ASSUME,
        "coverage": {
            "evaluations": tot["runs"], "distinct_nontrivial": len(sigs), "rule": RULE % WHY.get(prop, "a parse succeeded and was compared"),
            "samples": samples,
            "nontrivial_runs": tot["nontrivial"], "runs_with_allocation_faults": tot["fault_runs"],
            "operations": tot["ops"], "parses": tot["parses"], "parses_that_succeeded": tot["ok_parses"],
            "runs_and_seeds_per_hour": int(tot["runs"] / max(wall, 0.01) * 3600),
            "simulated_time": {"unit": "library control-flow edges executed (the library reads no clock)", "steps": tot["steps"]},
            "library_allocations_seen": tot["allocs"],
            "fault_kinds_fired": fired, "probes": probes,
            "library_edges_reached": edges,
            "runs_abandoned_on_a_mismatch_outside_this_property": tot["diverged"], "mismatches_outside": div,
            "determinism": det, "regression_plans_replayed": regressions,
            "search_capped_by_time": capped, "build_s": round(t_build, 1), "search_s": round(wall, 1), "workers": WORKERS, "workers_on_the_single_header": SINGLE_WORKERS,
            "components_real": ["/repo/src/*.cpp and /repo/include unmodified, address and undefined behaviour sanitizers on",
                                "/repo/single_include unmodified, same harness and sanitizers, in a quarter of the runs"],
            "components_stub": ["operator new/delete (counting, failing)", "stat/lstat/fstatat/access (simulated file system)",
                                "standard output stream buffer (captured, failing)", "exit (intercepted)",
                                "validators and destination callbacks (scripted)"],
        }})
    for line in known_lines:
        print(line)
    print("OK property=%s runs=%d distinct=%d parses=%d faults=%s wall=%.0fs" % (prop, tot["runs"], len(sigs), tot["parses"],
                                                                              sum(fired.values()), time.time() - t0))
    return 0


ASSUME = [
    "the reference model in sim/model.cpp states the documented behaviour",
    "what the library does is observed through its public interface, its callbacks, the intercepted calls and the sanitizers",
    "runs are sampled by seed; nothing is claimed about programs that were not generated",
]


def determinism(binary, prop, seed, scratch, tier):
    """same seeds, fresh processes, different placement: same hash"""
    count = 48
    hashes = []
    for k in range(2):
        w = Worker(binary, prop, seed, 900 + k, count, tier, 120, scratch, start=0, stride=1)
        if w.p.wait(timeout=300) != 0:
            raise CheckError("determinism run failed: " + w.errtext()[-300:])
        hashes.append(w.result()["hash"])
    if len(set(hashes)) != 1:
        raise CheckError("the simulator is not deterministic: fresh processes disagree")
    return {"seeds_run_in_two_fresh_processes": count, "hash": hashes[0], "equal": True}


def violation(prop, tier, seed, level, plan, kind, binary, scratch, t0, rng=None, note="", known=True):
    os.makedirs(EVIDENCE, exist_ok=True)
    path = os.path.join(EVIDENCE, "%s-violation.plan" % prop)
    a = replay(binary, plan, prop, known, scratch=scratch) if plan else ("ok", "", "")
    b = replay(binary, plan, prop, known, scratch=scratch) if plan else ("ok", "", "")
    info = {}
    if a[0] == b[0] and a[1] == b[1] and a[0] not in ("ok", "error"):
        def test(text):
            return replay(binary, text, prop, known, timeout=20, scratch=scratch)[0] == a[0]
        m = Minimiser(test, budget=45.0 if a[0] != "hang" else 90.0)
        small = m.run(plan)
        r1 = replay(binary, small, prop, known, scratch=scratch)
        r2 = replay(binary, small, prop, known, scratch=scratch)
        if not (r1[0] == r2[0] == a[0] and r1[1] == r2[1]):
            small, r1 = plan, a
        with open(path, "w") as f:
            if binary.endswith("-single"):
                f.write(SINGLE_MARK + "\n")
            f.write("# property %s, seed %d; replay with: bin/replay.py %s\n" % (prop, seed, os.path.relpath(path, VERIF)))
            f.write("# %s: %s\n# hash %s\n" % (r1[0], r1[2].replace("\n", " ")[:600], r1[1] or "-"))
            f.write(small)
        info = {"kind": r1[0], "message": r1[2][:1000], "plan": small, "minimisation_tests": m.tests,
                "operations": small.count("\n") - 1}
    elif rng is not None:
        # the violation needs what earlier runs of the same process left behind
        start, stride, index = rng
        if index is None:
            index = start + stride * 4000000
        found = None
        span = 1
        last = index if rng[2] is not None else None
        while last is not None and found is None:
            begin = max(start, last - span * stride)
            k = range_replay(binary, prop, seed, begin, stride, last, tier, scratch)
            if k is not None:
                k2 = range_replay(binary, prop, seed, begin, stride, last, tier, scratch)
                if k2 == k:
                    found = (begin, k)
            if begin == start:
                break
            span *= 2
        if found is None:
            raise CheckError("a violation (%s %s) was seen but does not reproduce from its plan" % (kind, note))
        path = os.path.join(EVIDENCE, "%s-violation.range.json" % prop)
        info = {"kind": found[1][0], "message": found[1][1][:1000], "range": [found[0], stride, last],
                "build": os.path.basename(binary)}
        with open(path, "w") as f:
            json.dump({"property": prop, "seed": seed, "from": found[0], "stride": stride, "index": last, "tier": tier,
                       "build": os.path.basename(binary),
                       "violation": found[1]}, f, indent=1)
    else:
        raise CheckError("a violation (%s %s) was seen but does not reproduce from its plan" % (kind, note))
    write_evidence(prop, {
        "property": prop, "tier": tier, "seed": seed, "level": level, "wall_s": round(time.time() - t0, 2), "violations": 1,
        "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "search stopped at the first violation",
                     "samples": [info]}})
    print("%s: %s" % (info["kind"], info["message"][:600]))
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1


def range_replay(binary, prop, seed, begin, stride, last, tier, scratch):
    w = Worker(binary, prop, seed, 950, last + 1, tier, 600, scratch, start=begin, stride=stride)
    rc = w.p.wait(timeout=700)
    if rc == 1:
        v = (w.result() or {}).get("violation")
        return (v["facet"], v["msg"], v["index"]) if v else None
    if rc in (CRASH, HANG) or rc < 0:
        return ("crash" if rc != HANG else "hang", crash_text(w.errtext()).split(" on ")[0], last)
    return None
