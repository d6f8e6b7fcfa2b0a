#!/usr/bin/env python3
"""Writes MANIFEST.json from bin/plan.py and the notes below."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "bin"))
from plan import PLAN  # noqa: E402

REPLAY = "TLA+ specification checked with TLC; behaviours printed by TLC replayed into the real code, recordings checked against the specification"
TRACE = "TLA+ specification checked with TLC; recorded executions of the real code checked against the specification (trace validation)"

NOTE = {
    "C01": "Every recorded reply equals the answer the specification computes from UCD reference data; the computed answer is proved equal to the declarative meaning by TLC on all small instances. Queries are enumerated (single categories, all windows of bounds and characters around representation switches) and sampled; trusts TLC, the recorder, the reference data.",
    "C02": "Every recorded answer satisfies the canonical-form predicate; queries sampled plus all pairs of categories. Unexplored queries are not covered.",
    "C03": "Every recorded restricted answer equals the specified clamp of the recorded unrestricted one; for the sampled selections every bound value is swept (recorded as segments, segment laws checked by TLC).",
    "C04": "Every recorded answer equals base plus included minus excluded characters as specified; for the sampled selections every scalar value is swept as single character.",
    "C05": "Every recorded answer for an include/exclude pair equals the union of recorded single-category answers selected by the specification, which are shown to partition the range.",
    "C06": "Verdict, carried bounds and message of every recorded (min, max) pair equal the specified ones, for intervals() and interval_set(), over edge values and samples.",
    "C07": "All builder histories up to the model's depth (TLC enumerates them, sampled in quick) replayed into the real builder with every reply compared; longer histories sampled.",
    "C08": "Lookups swept over whole u32 segments for sets of many shapes and versions, checked by segment laws which TLC shows equivalent to the pointwise definition on small instances.",
    "C09": "As C08, for index_above.",
    "C10": "All iterator histories up to the model's depth on all small set shapes replayed into the real iterator; long histories on real sets sampled.",
    "C11": "All category-set histories up to the model's depth replayed with full observation; iterator contract observed through all consuming adaptors; all single/pair/complement sets.",
    "C12": "All listed names and aliases exactly; other strings enumerated over short lengths and mutated from valid ones.",
    "C13": "Every expansion equals the specified one over the recorded order of the version; all lists up to two designations, longer ones sampled, with bad entries.",
    "C14": "Exhaustive: the normalised order of each version equals the order specified from the recorded interval counts.",
    "C15": "Exhaustive over all versions, categories and code points: tables, lookups and single-category queries form the same partition.",
    "C16": "Exhaustive over all versions and code points against the reference data in spec/data (trusted; cross-checked with the sources available offline).",
    "C17": "Exhaustive over all pairs of versions and code points, without reference data.",
    "C18": "Recorded histories, orders, processes in other surroundings, concurrent threads and Python interpreters; every later answer equals the first. Schedules are those the machine produced.",
    "C19": "Every recorded Python reply equals the specified answer for its keyword arguments; argument combinations enumerated by kind and sampled by value.",
    "C20": "All listing histories up to the model's depth (one thread; two and three threads sampled or all) in fresh interpreters, identities and contents compared with the specified write-once cache; the concurrent cache algorithm is model-checked for all interleavings, real threads run the schedules the machine produced.",
    "C21": "Exhaustive over pairs of members from all sources; strings enumerated near valid ones.",
    "C22": "Every kind of value for every argument alone, and sampled combinations; each failure followed by a probing call.",
    "C24": "Lists over a small universe are enumerated by TLC (step-by-step algorithm models checked against the set meaning) and replayed into the real functions; longer lists, strings and raw queries are seeded samples.",
    "C25": "All situations of the model (failing stage, earlier state of the file, layout, temporary directory) replayed into the real script with the download and ucd-generate replaced; databases are seeded samples plus the real ones.",
    "C26": "All pairs of versions and of categories; seeded lists of errors and category sets compared pair by pair; copies of seeded sets asked after the original is dropped; traits known at compile time.",
    "C27": "All shapes of calls (number of positional arguments, sets of names, one foreign name) printed by TLC and replayed; values for the arguments are seeded samples.",
    "C23": "Every recorded call with extreme arguments returns a documented reply; calls are watched for panics, crashes, hangs and memory exhaustion (overflow checks on).",
}


def main():
    checks = []
    for pid, plan in PLAN.items():
        replay = any(m.get("scenarios") for m in plan.get("models", {}).get("quick", []))
        checks.append({
            "property": pid,
            "quick_cmd": f"bin/check.py {pid}",
            "thorough_cmd": f"VERIF_TIER=thorough bin/check.py {pid}",
            "technique": REPLAY if replay else TRACE,
            "level": "model_checking",
            "level_note": NOTE[pid],
        })
    m = {
        "version": 1,
        "setup_cmd": "bin/setup.sh",
        "checks": checks,
        "not_applicable": [],
        "notes": "No hooks in /repo: everything is observed through the public API (C24 through the crate's own feature __benchmark_internals). DESIGN.md explains the specification; known-findings.txt lists repaired defects.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
