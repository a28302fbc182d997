#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
HIST = "stateful property-based testing: generated call histories against a reference model of the DOM"
REAL = "stateful property-based testing: generated call histories with invariants checked over the real tree"
T = {
    "P01": REAL, "P02": HIST, "P03": HIST, "P04": HIST, "P06": HIST, "P09": HIST, "P10": HIST, "P11": HIST, "P21": HIST,
    "P22": "stateful property-based testing: generated call histories and handle drops against a reachability model",
    "P23": "stateful property-based testing: histories that start from generated, parsed documents, against a reference model of the DOM",
    "P24": "property-based testing: generated declarations read back by an independent reader",
    "P05": "property-based testing: generated trees and edit histories, round trip through an independent strict XML reader",
    "P07": "property-based testing: generated values against a reference implementation, over every way of setting them",
    "P08": "property-based testing: generated strings and edits against a UTF-16 reference model",
    "P12": "property-based testing: generated trees and queries against a naive preorder search",
    "P13": "exhaustive enumeration of code points by position, and property-based testing against a reference grammar",
    "P14": "property-based testing: generated trees, clones and edits afterwards, with structural comparison",
    "P15": "fuzzing with structured generators and mutants, differential against an independent strict XML reader; fault injection in readers",
    "P16": "property-based testing: grammar-generated documents against the tree they were written from, and parse-print-parse round trip",
    "P17": "property-based testing: generated creation calls against the DOM node table",
    "P18": "property-based testing: generated creation requests against a reference model, enumeration of options and features",
    "P19": REAL + "; replayed twice",
    "P20": "property-based testing: generated declarations against a reference grammar",
}
NOTE = {
    "default": "Holds on every generated case of the run; cases are a function of VERIF_SEED. Trusts the generators and the reference (model, reader or grammar) in harness/.",
}
checks = []
for i in ids:
    checks.append({
        "property": i,
        "quick_cmd": f"./check {i}",
        "thorough_cmd": f"VERIF_TIER=thorough ./check {i}",
        "evidence_file": f"evidence/{i}.json",
        "technique": T[i],
        "level": "exploration",
        "level_note": NOTE.get(i, NOTE["default"]),
    })
m = {
    "version": 1,
    "setup_cmd": "./check setup",
    "checks": checks,
    "not_applicable": [],
    "notes": "No hooks: everything is observed through the public interface. Known findings and repairs are in known_findings.md.",
}
open(os.path.join(here, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
