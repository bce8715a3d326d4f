#!/usr/bin/env python3
"""Emits MANIFEST.json from engine/registry.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "engine"))
import registry
NA = {
 "N01": "Quantifies over unbounded histories that include operations of external programs (permanent delegates, fee withdrawal, mint close); only the per-instruction conservation (C01, C02) is decidable from this source.",
 "N02": "Numerical agreement of a computed fee with an external program for all inputs; C01 decides the structural part (the fee passed to the checked transfer is the one subtracted, taken from the mint's own configuration at the current epoch).",
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in registry.ENTRIES:
        e = registry.ENTRIES[i]
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py " + i,
            "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": e.get("technique", "path-sensitive abstract interpretation of MIR with effect and dataflow rules"),
            "level": "other",
            "level_note": e.get("note", registry.NOTE),
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "No check is built for it yet.")})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
