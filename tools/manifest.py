#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
}
NA = {
 "C25": "The code does not have this behaviour: segment predicates are ignored by design of the current code base, so no contract stating it can be discharged (finding recorded in known-findings.txt and DESIGN.md).",
 "C27": "The code does not have this behaviour: dictionary-level derived fields get a type but are never computed (finding recorded in known-findings.txt and DESIGN.md).",
 "C28": "A statement about rounded floating-point sums: the back ends treat floating-point operations as uninterpreted functions with IEEE-valid axioms, and no installed solver decides sums over unbounded sequences of doubles with rounding bounds.",
 "C29": "Decoding by struct tags happens inside encoding/xml by reflection, outside any function of this repository that could carry a contract.",
}
done = sys.argv[1:] or open(os.path.join(here, "tools/claimed.txt")).read().split()
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in done:
        checks.append({"property": i, "quick_cmd": "./check.sh %s quick" % i, "thorough_cmd": "./check.sh %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i, "technique": "contract-based deductive verification of the Go source (SSA weakest-precondition style obligations, SMT)",
            "level": "proof", "level_note": NOTE.get(i, "Every obligation generated from the current source of the functions listed in the evidence file is discharged by an SMT solver, for all inputs and all iterations; trusted: the verifier gover, go/ssa, the solvers, and the assumptions listed in the evidence.")})
    else:
        na.append({"property": i, "reason": NA.get(i, "No contract within reach yet.")})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
    "notes": "Contracts in contracts/, verifier in gover/, replay harness in replay/. See DESIGN.md."}, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
