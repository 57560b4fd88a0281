#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the properties registered in check.py."""
import json, os, sys
VERIF = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
import check

TECH = "bounded exhaustive exploration of the real code (explicit enumeration of all inputs within the bounds), every execution judged against an explicit reference model"
TECHS = {
    "C08": "bounded exhaustive exploration of the real code: all instruction sequences within the bounds, judged against solo runs",
    "C12": "bounded exhaustive exploration of the real code under ASan/UBSan: all byte strings, token strings and byte edits within the bounds",
    "C14": "exhaustive fault enumeration on the real executable: every choice of faults at its file system calls (ptrace), depth-first within the bound",
    "C15": "stateless model checking of the real code: all call histories within the bounds; controlled scheduler over all interleavings of conflicting accesses (and all single preemptions)",
    "C16": "bounded exhaustive exploration of the real code: the relation word -> meaning over all enumerated texts must be a function",
    "C18": "bounded exhaustive exploration of the real executable: all argument lists within the bounds, judged against the command line contract",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(VERIF, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": [], "not_applicable": []}
for id in ids:
    if id not in check.PROPS:
        m["not_applicable"].append({"property": id, "reason": "its check is not built yet"})
        continue
    note, assumptions, _ = check.PROPS[id]
    m["checks"].append({"property": id, "quick_cmd": "python3 check.py %s quick" % id,
                        "thorough_cmd": "python3 check.py %s thorough" % id,
                        "evidence_file": "evidence/%s.json" % id,
                        "technique": TECHS.get(id, TECH), "level": check.LEVEL.get(id, "model_checking"),
                        "level_note": "Covers " + note + ". Complete within the bounds that the evidence lists; nothing is sampled. Assumes: " + "; ".join(assumptions) + "."})
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
