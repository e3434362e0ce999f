#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: every property with a check in vlib/registry.py is claimed."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import registry
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TXN = ("The TLA+ specification Txn.tla is checked exhaustively by TLC for all rule sets and call histories up to the constants of its "
       "MCTxn configurations; behaviours TLC enumerates from it are replayed on the real engine and compared event by event, and events "
       "recorded from the real engine under random rule sets and histories are validated by TLC against it. Trusted: TLC, the harness's "
       "observer variables, operators and actions. ")
NOTE = {
 "C01": TXN + "Bound: generated histories of up to 9 calls.",
 "C02": TXN + "Bound: up to 8 rules per phase.",
 "C03": TXN + "Bound: skip 0..5, all allow forms, up to 8 rules per phase.",
 "C04": TXN + "Bound: chains of up to 4 rules.",
 "C05": TXN + "Bound: up to 3 variables of 3 values, 3 transformations.",
 "C06": TXN + "Bound: up to 6 actions per rule.",
 "C07": TXN,
 "C08": TXN,
 "C09": TXN,
}
TECH = {}
from vlib import notes
NOTE.update(notes.NOTE)
TECH.update(notes.TECH)
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = [{"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "python3 check.py " + p, "evidence_file": "evidence/%s.json" % p,
           "technique": TECH.get(p, "TLA+ specification model-checked with TLC; replay of generated behaviours and trace validation on the real code"),
           "level": "model_checking", "level_note": NOTE[p].strip()} for p in props if p in registry.CHECKS]
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks,
     "not_applicable": [{"property": p, "reason": notes.NA.get(p, "no check built yet")} for p in props if p not in registry.CHECKS],
     "notes": "No hooks in /repo: the checks observe through the public API. See DESIGN.md; known findings and repaired defects are in known-findings.json."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
