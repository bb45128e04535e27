#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the lists below."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
CLAIMED = "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25".split()
NOT = {}
NOTES = {}
TECH = "contract-based deductive verification of the real code (gover: contracts discharged over the SSA form of /repo, normaliser and z3)"
BASE = ("Every obligation of the contracts listed in the evidence is discharged for all inputs from /repo's current source; functions are checked "
        "against the contracts of their callees. Trusted: x/tools SSA, the gover executor and its models of reflect and other packages, z3. "
        "Assumed: the preconditions named in the evidence, no aliasing of distinct arguments, loops and recursion end. "
        "A bounded stand-in (generated inputs against a reference) also runs, labelled bounded and not counted as proved.")
checks = []
for p in props:
    i = p['id']
    if i in CLAIMED:
        checks.append({"property": i, "quick_cmd": f"bash check.sh {i} quick", "thorough_cmd": f"bash check.sh {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": TECH, "level": "proof",
                       "level_note": (NOTES.get(i, "") + " " + BASE).strip()})
na = [{"property": p['id'], "reason": NOT.get(p['id'], "no contract decides it yet")} for p in props if p['id'] not in CLAIMED]
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: contracts are overlaid on the package as extra files under the build tag verif when the verifier loads it; the code itself is read as it is."}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
