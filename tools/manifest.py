#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json for the checks listed in harness/src/checks/mod.rs."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = re.findall(r'\("(C\d\d)",', open(f"{here}/harness/src/checks/mod.rs").read())
props = [json.loads(l) for l in open(f"{here}/properties.jsonl")]
TECH = "stateless model checking: exhaustive bounded enumeration of executions of the real code, each compared with a reference model"
NOTES = {
 "C04": "every execution runs the real code to its end; a panic, abort, overflow or stall is a violation",
 "C25": "hash seeds come from a controlled random source; so many are chosen that the maps of an expansion list their names in every order; histories and formatter operations are enumerated to a depth; every run is compared with the run alone",
 "C26": "the command is built from the working tree and run as a process for every argument vector and input within the bounds, and compared with the library and a model of its options",
 "C27": "every way to split the bytes into reads and every position of a fault is delivered to the real code by a controlled stream",
 "C05": "the real code is built with AddressSanitizer and run on every history within the bounds",
}
checks = [dict(property=p["id"], quick_cmd=f"bash check.sh {p['id']}", thorough_cmd=f"bash check.sh {p['id']}",
    evidence_file=f"evidence/{p['id']}.json", technique=TECH, level="model_checking",
    level_note=NOTES.get(p["id"], "every behaviour within the stated bounds and alphabets is executed on the real code and compared with an independent reference model; behaviour outside of them is not covered"))
    for p in props if p["id"] in ids]
doc = dict(version=1, setup_cmd="bash check.sh --build", checks=checks,
    not_applicable=[dict(property=p["id"], reason="no check has been built yet") for p in props if p["id"] not in ids])
json.dump(doc, open(f"{here}/MANIFEST.json", "w"), indent=1)
open(f"{here}/MANIFEST.json", "a").write("\n")
