"""Shared parts of the checks: builds, worker pools, evidence, violations."""
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
EVIDENCE = os.path.join(VERIF, "evidence")
FINDINGS = os.path.join(VERIF, "known-findings.txt")
JOBS = max(1, min(8, os.cpu_count() or 1))


class CheckError(Exception):
    pass


def fingerprint(dirs, extra=""):
    h = hashlib.sha256(extra.encode())
    for d in dirs:
        for root, subs, files in os.walk(d):
            subs.sort()
            if "/.git" in root or "/_build" in root:
                continue
            for f in sorted(files):
                p = os.path.join(root, f)
                if not f.endswith((".cpp", ".h", ".hpp", ".c", "Makefile", ".txt", ".py", ".ipp", ".inl")):
                    continue
                h.update(os.path.relpath(p, d).encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read())
                h.update(b"\0")
    return h.hexdigest()[:16]


def make(directory, name, jobs=JOBS, timeout=700, goal=None):
    """builds with the Makefile in `directory` into build/<name>-<content hash>;
    what is built depends on the content of the sources, never on time stamps"""
    fp = fingerprint([os.path.join(VERIF, directory), os.path.join(REPO, "src"), os.path.join(REPO, "include"),
                      os.path.join(REPO, "single_include"), os.path.join(VERIF, "drive")], REPO)
    out = os.path.join(BUILD, "%s-%s" % (name, fp))
    done = os.path.join(out, ".done-" + (goal or "all"))
    if not os.path.exists(done):
        os.makedirs(out, exist_ok=True)
        cmd = ["make", "-s", "-j%d" % jobs, "-C", os.path.join(VERIF, directory), "REPO=" + REPO, "B=" + out]
        if goal:
            cmd.append(goal)
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout)
        if r.returncode != 0:
            raise CheckError("build failed:\n" + (r.stdout + r.stderr)[-4000:])
        open(done, "w").close()
        # older builds are not needed any more
        old = sorted((p for p in glob.glob(os.path.join(BUILD, name + "-*")) if p != out), key=os.path.getmtime)
        for p in old[:-3]:
            shutil.rmtree(p, ignore_errors=True)
    return out


def findings():
    """entries of known-findings.txt: list of dicts"""
    res = []
    if not os.path.exists(FINDINGS):
        return res
    for line in open(FINDINGS):
        line = line.strip()
        if not line.startswith("finding:"):
            continue
        d = {"text": []}
        for w in line[len("finding:"):].split():
            if "=" in w and w.split("=")[0] in ("property", "id", "plan", "facet") and w.split("=")[0] not in d:
                k, v = w.split("=", 1)
                d[k] = v
            else:
                d["text"].append(w)
        d["text"] = " ".join(d["text"])
        res.append(d)
    return res


def write_evidence(prop, data):
    os.makedirs(EVIDENCE, exist_ok=True)
    path = os.path.join(EVIDENCE, prop + ".json")
    tmp = path + ".tmp"
    with open(tmp, "w") as f:
        json.dump(data, f, indent=1, sort_keys=True)
        f.write("\n")
    os.replace(tmp, path)


class Scratch:
    """a private directory removed at the end"""

    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.path = tempfile.mkdtemp(prefix="run-", dir=BUILD)
        return self.path

    def __exit__(self, *a):
        shutil.rmtree(self.path, ignore_errors=True)


def stop(procs):
    for p in procs:
        if p.poll() is None:
            p.kill()
    for p in procs:
        try:
            p.wait(timeout=10)
        except subprocess.TimeoutExpired:
            pass
