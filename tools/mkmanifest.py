#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
import families
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
NOTE = ("TLA+ specification checked by TLC; traces recorded from the real code (built with address and undefined "
        "behaviour sanitizers, virtual clock, scripted transports) must be behaviours of it, step by step. Trusted: the "
        "driver and its projection of messages, TLC. Bounds: the constants of the models, the scenarios generated from the seed.")
NOTES = {}
NA = {}
try:
    import notes
    NOTES, NA = notes.NOTES, notes.NA
except ImportError:
    pass
checks = []
for i in ids:
    if i in NA:
        continue
    checks.append(dict(property=i, quick_cmd="python3 tools/check.py " + i,
                       thorough_cmd="VERIF_TIER=thorough python3 tools/check.py " + i,
                       technique="TLA+ specification: TLC model checking, trace validation of the implementation" +
                       (", under controlled schedules of threads, whose accesses must be ordered" if i == "C22" else ""),
                       level="model_checking", level_note=NOTES.get(i, NOTE)))
m = dict(version=1, setup_cmd="python3 driver/build.py",
         checks=checks, not_applicable=[dict(property=i, reason=NA[i]) for i in ids if i in NA],
         notes="No hooks in /repo: the public interfaces, an interposed clock and interposed locks suffice.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
