#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{root}/properties.jsonl")]
TECH = {
    "C01": "property-based round trip: generated abstract documents, random legal layouts, parsed and compared",
    "C02": "differential fuzzing against an independent reference grammar, over mutated and token-soup texts",
    "C03": "fuzzing of every entry point for panics, aborts and hangs, with fixed deep-nesting probes",
    "C04": "metamorphic property-based testing: re-laid-out and locally reformatted documents",
    "C05": "property-based encode/decode against a reference escape decoder",
    "C06": "property-based testing of heredocs against a line-based reference",
    "C07": "property-based testing against decimal arbitrary-precision references",
    "C08": "property-based testing of equality laws and conversions over generated and boundary values",
    "C09": "property-based testing with full enumeration of characters against Unicode tables",
    "C10": "fault injection: generated read schedules, failures at every position, differential between entry points",
    "C11": "property-based testing: owned copies outlive and equal the borrowed tree",
    "C12": "stateful model-based testing against a list of blocks",
    "C13": "stateful model-based testing against Vec and BTreeMap",
    "C14": "differential fuzzing and round trip against an independent reference of the value grammar",
    "C15": "differential testing of the two parsers on generated documents of their common subset",
    "C16": "model-based testing of merging with metamorphic reordering",
    "C17": "property-based testing against recursive reference definitions",
    "C18": "property-based testing of every accessor on every kind of value",
    "C19": "property-based round trip of generated typed values through text and serde",
    "C20": "property-based round trip of generated typed bodies through text and serde",
    "C21": "fuzzing of deserialization into many target types for panics",
    "C22": "property-based testing against a naive search",
    "C23": "property-based testing of equality, hash and borrow laws",
    "C24": "black-box property-based testing of the program with generated documents, arguments and file faults",
    "C25": "fuzzing of growing text families with an allocation-count oracle",
    "C26": "property-based testing of error kinds and payloads with generated faults and low-level errors",
    "C27": "differential fuzzing of each public sub-parser against its reference",
    "C28": "property-based testing: constructed trees equal parsed ones",
    "C29": "stateful property-based testing: histories of calls, repeated, reordered and concurrent",
    "C30": "property-based testing: documents with one part of generated size, differential and against reference models",
}
checks = []
for p in props:
    i = p["id"]
    checks.append({
        "property": i,
        "quick_cmd": f"./check.sh {i} quick",
        "thorough_cmd": f"./check.sh {i} thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": TECH[i],
        "level": "exploration",
        "level_note": "Generated-input search: finds violations, never shows their absence. Trusts the reference models in harness/src and the generators' reach, both described in DESIGN.md and tested against planted bugs.",
    })
m = {
    "version": 1,
    "setup_cmd": "./build.sh",
    "checks": checks,
    "not_applicable": [],
    "notes": "No hooks in /repo: everything checked is public. See DESIGN.md; known_findings.txt lists defects.",
}
json.dump(m, open(f"{root}/MANIFEST.json", "w"), indent=1)
open(f"{root}/MANIFEST.json", "a").write("\n")
