#!/usr/bin/env python3
"""Writes MANIFEST.json from props.json (run after editing props.json)."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
props = json.load(open(os.path.join(here, "props.json")))
checks, na = [], []
for p in sorted(props):
    x = props[p]
    if x.get("not_applicable"):
        na.append({"property": p, "reason": x["not_applicable"]})
        continue
    proof = x["level"] == "proof"
    c = {"property": p,
         "quick_cmd": "VERIF_TIER=quick python3 check.py " + p,
         "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p,
         "technique": x.get("technique") or ("contracts on the real code, discharged by Verus (deductive verification)" if proof else
                      "Verus contracts on the functions it rests on, and a bounded search in place of the rest"),
         "level": x["level"],
         "level_note": x.get("note") or ("Bounded: the property itself is searched for failing inputs; the contracts of the "
                      "listed functions are proved on every run, but do not yet add up to the property."),
         "evidence_file": "evidence/%s.json" % p}
    if x.get("theorems"):
        c["theorems"] = x["theorems"]
    checks.append(c)
json.dump({"version": 1,
           "setup_cmd": "bash setup.sh",
           "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the extractor reads the source text, the search uses the public interface."},
          open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
