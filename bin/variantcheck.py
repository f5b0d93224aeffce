"""C17: the same seeded histories on every build of the library and of the
single header; the complete observation logs have to be equal."""
import glob
import json
import os
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

from common import BUILD, EVIDENCE, JOBS, REPO, VERIF, CheckError, Scratch, fingerprint, make, write_evidence
from minimise import Minimiser

SAN = "-g1 -fsanitize=address,undefined -fno-sanitize-recover=all -fno-sanitize=vptr,float-cast-overflow"
# name, compiler, standard, form, flags
VARIANTS = [
    ("gcc-c++11-library", "g++", "11", "library", "-O1"),
    ("gcc-c++11-single", "g++", "11", "single", "-O1"),
    ("gcc-c++98-single", "g++", "98", "single", "-O0"),
    ("gcc-c++98-library", "g++", "98", "library", "-O2"),
    ("gcc-c++20-single", "g++", "20", "single", "-O2"),
    ("gcc-c++23-library", "g++", "23", "library", "-O0"),
    ("clang-c++98-library", "clang++", "98", "library", "-O0"),
    ("clang-c++11-single", "clang++", "11", "single", "-O0"),
    ("clang-c++17-single-sanitized", "clang++", "17", "single", "-O1 " + SAN),
    ("clang-c++20-library", "clang++", "20", "library", "-O2"),
    ("clang-c++23-single", "clang++", "23", "single", "-O1"),
]
QUICK_RUNS, THOROUGH_RUNS = 4000, 200000
QUICK_CAP, THOROUGH_CAP = 240.0, 2400.0
WRAP = "-Wl,--wrap=exit,--wrap=stat,--wrap=lstat"
CHUNK = 250
ENV = dict(os.environ, ASAN_OPTIONS="exitcode=77:detect_leaks=0:symbolize=0:handle_abort=1:detect_stack_use_after_return=0:malloc_context_size=1",
           UBSAN_OPTIONS="exitcode=77:halt_on_error=1")


def compile_one(v, out):
    name, cxx, std, form, flags = v
    d = os.path.join(VERIF, "drive")
    inc = os.path.join(REPO, "include" if form == "library" else "single_include")
    base = [cxx, "-std=c++" + std] + flags.split() + ["-w", "-fno-omit-frame-pointer", "-I" + inc, "-I" + d]
    src = sorted(glob.glob(os.path.join(REPO, "src", "*.cpp"))) if form == "library" else []
    target = os.path.join(out, name)
    objs = []
    log = ""
    for s in [os.path.join(d, "vdrv.cpp"), os.path.join(d, "second.cpp")] + src:
        o = target + "." + os.path.basename(s) + ".o"
        r = subprocess.run(base + ["-c", s, "-o", o], capture_output=True, text=True, errors="replace")
        if r.returncode != 0:
            return name, "compile", r.stderr[-3000:]
        objs.append(o)
    r = subprocess.run(base + objs + [WRAP, "-o", target], capture_output=True, text=True, errors="replace")
    for o in objs:
        os.unlink(o)
    if r.returncode != 0:
        return name, "link", r.stderr[-3000:]
    return name, "ok", log


def build():
    fp = fingerprint([os.path.join(VERIF, "drive"), os.path.join(REPO, "src"), os.path.join(REPO, "include"),
                      os.path.join(REPO, "single_include")], repr(VARIANTS) + REPO + WRAP)
    out = os.path.join(BUILD, "vars-" + fp)
    done = os.path.join(out, "result.json")
    if not os.path.exists(done):
        os.makedirs(out, exist_ok=True)
        with ThreadPoolExecutor(JOBS) as ex:
            # the slow one first
            res = list(ex.map(lambda v: compile_one(v, out), sorted(VARIANTS, key=lambda v: "fsanitize" not in v[4])))
        with open(done + ".tmp", "w") as f:
            json.dump({n: [s, t] for n, s, t in res}, f)
        os.replace(done + ".tmp", done)
        old = sorted((p for p in glob.glob(os.path.join(BUILD, "vars-*")) if p != out), key=os.path.getmtime)
        for p in old[:-1]:
            shutil.rmtree(p, ignore_errors=True)
    return out, json.load(open(done))


def run_file(binary, path, only=None, timeout=600):
    cmd = [binary, path] + (["--log", str(only)] if only is not None else [])
    r = subprocess.run(cmd, capture_output=True, text=True, errors="replace", timeout=timeout, env=ENV)
    if r.returncode != 0:
        raise CheckError("%s failed: %s" % (os.path.basename(binary), r.stderr[-300:]))
    return r.stdout


def line_of(out):
    """index -> (end, hash)"""
    res = {}
    for l in out.splitlines():
        w = l.split()
        if len(w) == 4:
            res[int(w[0])] = (w[1] + " " + w[2], w[3])
    return res


def judge(out, names, text, scratch):
    """runs one plan on every variant in fresh processes -> (kind, detail)"""
    path = os.path.join(scratch, "one-%d.plan" % time.monotonic_ns())
    with open(path, "w") as f:
        f.write(text)
    with ThreadPoolExecutor(JOBS) as ex:
        rs = list(ex.map(lambda n: line_of(run_file(os.path.join(out, n), path, timeout=120)).get(0), names))
    os.unlink(path)
    groups = {}
    for n, r in zip(names, rs):
        groups.setdefault(r, []).append(n)
    crashed = [n for n, r in zip(names, rs) if r is None or r[0] != "exit 0"]
    if crashed:
        return "crash", " ".join(crashed), groups
    if len(groups) > 1:
        return "differ", " | ".join(sorted(" ".join(g) for g in groups.values())), groups
    return "ok", rs[0][1], groups


def first_difference(out, groups, text, scratch):
    path = os.path.join(scratch, "diff.plan")
    with open(path, "w") as f:
        f.write(text)
    gs = sorted(groups.values(), key=len, reverse=True)
    a, b = [run_file(os.path.join(out, g[0]), path, 0).splitlines() for g in gs[:2]]
    where = "-"
    for x, y in zip(a + ["(end)"], b + ["(end)"]):
        if x.startswith("> ") and x == y:
            where = x
        if x != y:
            return "after '%s': %s says '%s', %s says '%s'" % (where[2:200], gs[0][0], x[:300], gs[1][0], y[:300])
    return "logs end differently"


def violation(tier, seed, out, names, text, scratch, t0):
    os.makedirs(EVIDENCE, exist_ok=True)
    path = os.path.join(EVIDENCE, "C17-violation.plan")
    a = judge(out, names, text, scratch)
    b = judge(out, names, text, scratch)
    if a[:2] != b[:2] or a[0] == "ok":
        raise CheckError("variants differ on a plan, but not reproducibly: %s / %s" % (a[:2], b[:2]))
    m = Minimiser(lambda t: judge(out, names, t, scratch)[0] == a[0], budget=40.0)
    small = m.run(text)
    r = judge(out, names, small, scratch)
    if r[:2] != judge(out, names, small, scratch)[:2] or r[0] != a[0]:
        small, r = text, a
    msg = r[1]
    if r[0] == "differ":
        msg = first_difference(out, r[2], small, scratch) + " [" + r[1] + "]"
    else:
        msg = "crashes: " + msg
    with open(path, "w") as f:
        f.write("# property C17, seed %d; replay with: bin/replay.py %s\n# %s: %s\n" % (
            seed, os.path.relpath(path, VERIF), r[0], msg.replace("\n", " ")[:1500]))
        f.write(small)
    return report(tier, seed, t0, path, {"kind": r[0], "message": msg[:1500], "plan": small, "minimisation_tests": m.tests})


def report(tier, seed, t0, path, info):
    write_evidence("C17", {
        "property": "C17", "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(time.time() - t0, 2),
        "violations": 1, "coverage": {"evaluations": 1, "distinct_nontrivial": 1,
                                      "rule": "search stopped at the first violation", "samples": [info]}})
    print("%s: %s" % (info["kind"], info["message"][:700]))
    print("VIOLATION property=C17 replay=%s" % path)
    return 1


def usable(res):
    return [v[0] for v in VARIANTS if res[v[0]][0] == "ok"]


def check(prop, tier, seed, runs, t0):
    dsim = os.path.join(make("sim", "dsim"), "dsim")
    out, res = build()
    t_build = time.time() - t0
    names = usable(res)
    for v in VARIANTS:
        # the header defines things twice: a program of two units cannot use it
        if res[v[0]][0] == "link" and "multiple definition" in res[v[0]][1]:
            os.makedirs(EVIDENCE, exist_ok=True)
            path = os.path.join(EVIDENCE, "C17-violation.link.txt")
            with open(path, "w") as f:
                f.write(v[0] + "\n" + res[v[0]][1])
            return report(tier, seed, t0, path, {"kind": "link", "message": "%s: two translation units do not link: %s" % (
                v[0], res[v[0]][1][:500])})
    forms = {v[3] for v in VARIANTS if v[0] in names}
    if len(names) < 2 or forms != {"library", "single"}:
        raise CheckError("not enough variants build: " + repr({n: r[1][-300:] for n, r in res.items() if r[0] != "ok"}))
    n = runs or (QUICK_RUNS if tier == "quick" else THOROUGH_RUNS)
    cap = QUICK_CAP if tier == "quick" else THOROUGH_CAP
    with Scratch() as scratch:
        for path in sorted(glob.glob(os.path.join(VERIF, "regress", "*.plan"))):
            text = open(path).read()
            if text.startswith("prop C17\n") and judge(out, names, text, scratch)[0] != "ok":
                return violation(tier, seed, out, names, text, scratch, t0)
        ts = time.time()
        hashes = set()
        total = ops = parses = 0
        kinds = {}
        sample = []
        ends = {}
        executions = 0

        def chunk(lo):
            if time.time() - ts > cap:
                return None
            hi = min(n, lo + CHUNK)
            path = os.path.join(scratch, "plans-%d" % lo)
            r = subprocess.run([dsim, "gen", "--prop", "C17", "--seed", str(seed), "--from", str(lo), "--to", str(hi), "--tier", tier],
                               capture_output=True, text=True, errors="replace", timeout=300)
            if r.returncode != 0:
                raise CheckError("plan generation failed: " + r.stderr[-300:])
            with open(path, "w") as f:
                f.write(r.stdout)
            outs = []
            for v in names:
                outs.append(line_of(run_file(os.path.join(out, v), path)))
                if any(x[0] != "exit 0" for x in outs[-1].values()):
                    break  # the first plan that ends badly decides
            os.unlink(path)
            return lo, ("\n" + r.stdout).split("\n----\n"), outs

        bad = None
        det = None
        with ThreadPoolExecutor(JOBS) as ex:
            futs = [ex.submit(chunk, lo) for lo in range(0, n, CHUNK)]
            for fu in futs:
                got = None if bad else fu.result()
                if bad:
                    fu.cancel()
                    continue
                if got is None:
                    continue
                lo, plans, outs = got
                for i, plan in enumerate(plans):
                    if not plan.strip():
                        continue
                    rs = [o.get(i) for o in outs]
                    if len(set(rs)) != 1 or rs[0] is None or rs[0][0] != "exit 0":
                        bad = plan
                        break
                    total += 1
                    executions += len(rs)
                    hashes.add(rs[0][1])
                    for line in plan.splitlines():
                        w = line.split(" ", 1)[0]
                        if w in ("prop", "seed") or line.startswith("#"):
                            continue
                        ops += 1
                        parses += w == "parse"
                        for x in line.split(" "):
                            if x.startswith("!"):
                                k = x[1:].split("=")[0]
                                k = {"cbv": "validator-throws", "cbd": "destination-callback-throws"}.get(k, k)
                                kinds[k] = kinds.get(k, 0) + 1
                    if len(sample) < 2 and plan.count("\n") < 16:
                        sample.append(plan)
                if lo == 0:
                    det = outs
        if bad:
            return violation(tier, seed, out, names, bad, scratch, t0)
        again = chunk(0)
        if again is None:
            ts = time.time()
            again = chunk(0)
        if det is not None and again[2] != det:
            raise CheckError("the runs of one seed differ from process to process")
    wall = time.time() - ts
    write_evidence("C17", {
        "property": "C17", "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(time.time() - t0, 2), "violations": 0,
        "assumptions": ["variants are those listed; a variant that does not compile is left out and listed",
                        "plans are sampled by seed"],
        "coverage": {
            "evaluations": total, "distinct_nontrivial": len(hashes),
            "rule": "a run is one seeded history executed by every variant, each in a fresh process, with throwing callbacks injected, "
                    "its log of everything observable compared byte by byte; distinct ones are counted by the hash of the log",
            "samples": sample, "executions": executions, "operations": ops, "parses": parses,
            "variants": names, "variants_left_out": {k: v[1][-400:] for k, v in res.items() if v[0] != "ok"},
            "runs_and_seeds_per_hour": int(total / max(wall, 0.01) * 3600),
            "simulated_time": {"unit": "operations of the plan (the library reads no clock)", "steps": ops * len(names)},
            "fault_kinds_fired": kinds, "determinism": {"seeds_run_in_two_fresh_processes": CHUNK * len(names), "equal": True},
            "build_s": round(t_build, 1), "search_s": round(wall, 1),
            "components_real": ["single_include/blet/args.h", "include/ and src/ compiled with g++ and clang++ in several standards"],
            "components_stub": ["stat/lstat (small simulated file system)", "exit (intercepted)", "standard output (captured)"],
        }})
    print("OK property=C17 runs=%d executions=%d distinct=%d variants=%d wall=%.0fs" % (total, executions, len(hashes), len(names),
                                                                                     time.time() - t0))
    return 0


def replay_cli(path):
    out, res = build()
    names = usable(res)
    if path.endswith(".link.txt"):
        bad = [n for n, r in res.items() if r[0] == "link"]
        print("do not link:", bad)
        return 1 if bad else 0
    text = open(path).read()
    with Scratch() as s:
        r = judge(out, names, text, s)
        print(r[0], r[1])
        if r[0] == "differ":
            print(first_difference(out, r[2], text, s))
    return 0 if r[0] == "ok" else 1


if __name__ == "__main__":
    print(build()[1].keys())
    sys.exit(0)
