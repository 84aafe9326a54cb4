#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "E": "property-based testing and coverage-guided fuzzing against a reference model",
 "S": "fuzzing and property-based testing against a reference decoder and invariants",
 "R": "stateful property-based testing and fuzzing against a relational model",
 "V": "property-based testing and fuzzing against value-level laws and round trips"}
SPEC = {
 "S05": "stateful property-based testing and fuzzing with live-allocation accounting and AddressSanitizer",
 "S06": "property-based testing of interleavings and threads, differential against solo runs, under ThreadSanitizer",
 "S08": "stateful property-based testing and fuzzing: metamorphic relation between rounds (live bytes), long programs on small stacks against the model",
 "S09": "stateful property-based testing and fuzzing with injected allocation failures against the model",
 "S10": "metamorphic property-based testing: work counted at one size and at sixteen times that size",
 "R07": "metamorphic property-based testing (permutation, partition) and fuzzing",
 "S03": "exhaustive operator codes in generated contexts against the table of supported codes"}
NOTE = ("Searches generated cases (random choice sequences on a product-flags build with a checking allocator and on an AddressSanitizer "
        "build, and libFuzzer on the latter); every case is decided by the oracle, failures are shrunk and must reproduce three times. "
        "No proof: inputs not generated are not covered. Trusts the reference model (harness/model.cc), written from README.md, and "
        "leaves outcomes the documentation does not fix uncompared (DESIGN.md).")
ids = [json.loads(l) for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": [], "not_applicable": [],
     "notes": "All checks: check.py ID, sized by VERIF_TIER; replay a failure with check.py --replay FILE. No hooks in /repo. Findings: KNOWN_FINDINGS.txt."}
for p in ids:
    i = p["id"]
    m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                        "evidence_file": "evidence/%s.json" % i, "technique": SPEC.get(i, T[i[0]]), "level": "exploration",
                        "level_note": NOTE + (" Thread schedules are those the machine produces; data races are found by happens-before analysis." if i == "S06" else " Works on a build of its own, random choice sequences only; work inside libc (strtod and the like) is not counted." if i == "S10" else "")})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
