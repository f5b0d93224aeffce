#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import VERIF  # noqa: E402
import dsimcheck  # noqa: E402

TECH = "deterministic simulation with fault injection: seeded programs of parser operations, command lines and faults, checked in step against a reference model"
NOTE = {
    "C01": "Every accessor of every argument after every successful parse equals the model's binding; generated configurations, spellings and command lines, no exhaustive claim.",
    "C02": "Outcome, values, positional and additional tokens compared after every generated command line; no exhaustive claim.",
    "C03": "Help/version events with exceptions on and off, intercepted exit and output, failing stdout; sampled.",
    "C04": "Each re-used parser is compared with a fresh identically configured one on the same line, after success, refusals, thrown callbacks and failed allocations; sampled.",
    "C05": "Complete observable state compared before and after every refused call of generated histories; sampled.",
    "C06": "Registry, lookups and usage compared with the model after every operation of generated edit histories; sampled.",
    "C07": "Every allocation index of a sample of programs (thorough) or seeded indexes (quick), single and persistent failure; the strong guarantee is checked for configuration calls and accessors.",
    "C08": "Every validator call, its values and its effect on the parse compared with the model, with throwing, refusing and modifying validators; sampled.",
    "C09": "All destination types, custom conversions and their calls compared with the model after every parse; sampled.",
    "C10": "Every owned object is tracked; release counts, use after release (address sanitizer) and library memory at the end are checked, through copies, moves of ownership, exceptions and failed allocations; sampled.",
    "C11": "ValidPath against a simulated file system that changes between calls and fails with any errno; sampled.",
    "C12": "Seeded schedules of simulated threads at instruction level of memory accesses with a happens-before race detector; sampled schedules.",
    "C13": "Seeded schedules of simulated reader threads on one parsed object with a happens-before race detector and results compared with the sequential reading; sampled schedules.",
    "C14": "The complete usage text compared with the model's after every operation; sampled.",
    "C15": "argv, lists and texts live in separately allocated blocks compared, overwritten and freed after each call; reads after that trip the address sanitizer; sampled.",
    "C16": "A cleared parser is compared with a freshly constructed one over following programs; sampled.",
    "C17": "The same seeded programs run on library and single header builds of both compilers and several language modes; observation logs must be equal; sampled.",
    "C18": "Every line accepted must satisfy the model's rules and every refusal must be the one the model gives; sampled. One known finding (help-blocked).",
    "C19": "Callbacks that read the running parser or build and run other parsers, compared with the model; sampled.",
    "C22": "Lists of names and defaults written in twelve forms, with failing allocations while they are built and the caller's texts gone before use; content and effect compared with the model; sampled.",
    "C20": "All accessors of all arguments compared with one another and with the model after every operation; sampled.",
}
NA = {
    "C21": "Pure function of one text: no schedule, clock, I/O, fault or history takes part, so simulation adds nothing over feeding it inputs; the numerals used by the other properties are still compared exactly.",
}


def main():
    ids = [json.loads(x)["id"] for x in open(os.path.join(VERIF, "properties.jsonl")) if x.strip()]
    have = set(dsimcheck.PROPS)
    for f, ps in (("tsimcheck", ("C12", "C13")), ("variantcheck", ("C17",))):
        if os.path.exists(os.path.join(VERIF, "bin", f + ".py")):
            have.update(ps)
    checks = []
    for i in ids:
        if i not in have:
            continue
        level = dsimcheck.PROPS.get(i, (0, "exploration"))[1]
        tech = TECH
        if i in ("C12", "C13"):
            tech = "deterministic simulation: seeded thread scheduler over real threads run one at a time, happens-before race detection, results compared with a sequential run"
        if i == "C17":
            tech = "deterministic simulation with fault injection: seeded programs run in every build variant, recorded histories compared"
        checks.append({"property": i, "quick_cmd": "python3 bin/check.py " + i,
                       "thorough_cmd": "python3 bin/check.py %s --tier thorough" % i,
                       "technique": tech, "level": level,
                       "level_note": NOTE[i] + " Trusts the model (sim/model.cpp), the seams and the sanitizers."})
    na = [{"property": i, "reason": NA.get(i, "check under construction")} for i in ids if i not in have]
    m = {"version": 1, "setup_cmd": "python3 bin/setup.py", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo: allocation, file system, standard output and exit are reached at link level, callbacks through the public interface, thread interleavings through compiler instrumentation. Replay: python3 bin/replay.py FILE."}
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
