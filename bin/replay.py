#!/usr/bin/env python3
"""replay.py FILE  - runs a replay file against /repo's current tree, shows the trace"""
import json
import os
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import Scratch, make  # noqa: E402
import dsimcheck  # noqa: E402


def main():
    path = sys.argv[1]
    text = open(path).read()
    if path.endswith(".range.json"):
        d = json.loads(text)
        binary = os.path.join(make("sim", "dsim"), d.get("build", "dsim"))
        with Scratch() as s:
            k = dsimcheck.range_replay(binary, d["property"], d["seed"], d["from"], d["stride"], d["index"], d["tier"], s)
        print(k)
        return 1 if k else 0
    prop = next((x.split()[1] for x in text.splitlines() if x.startswith("prop ")), "")
    if prop in ("C12", "C13"):
        import tsimcheck
        return tsimcheck.replay_cli(path)
    if prop == "C17":
        import variantcheck
        return variantcheck.replay_cli(path)
    binary = dsimcheck.binary_for(text)
    extra = [] if "--strict" in sys.argv else ["--known-help"]
    return subprocess.run([binary, "replay", path, "--verbose"] + extra).returncode


if __name__ == "__main__":
    sys.exit(main())
