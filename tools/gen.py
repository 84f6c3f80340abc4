#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py and checks.py."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, "tools")]
import checks  # noqa: E402
import props  # noqa: E402
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for q in props.P:
        f.write(json.dumps(q) + "\n")
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": [],
     "not_applicable": [],
     "notes": "No hook is needed in /repo: the monitors sit behind the "
              "library's own allocation pointers and callbacks, linker "
              "wrapping of C library calls and compiler instrumentation."}
for q in props.P:
    i = q["id"]
    c = checks.CHECKS.get(i)
    if c is None:
        m["not_applicable"].append({"property": i, "reason":
                                    "its monitor is not written yet"})
        continue
    m["checks"].append({
        "property": i,
        "quick_cmd": "python3 run.py check %s --tier quick" % i,
        "thorough_cmd": "python3 run.py check %s --tier thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": c.get("technique", "seeded hostile workload, model oracle, AddressSanitizer and UBSan"),
        "level": c.get("level", "exploration"),
        "level_note": c.get("note", "Observes the executions listed in the evidence; "
                            "assumes the compiler, C library and sanitizer runtimes are right.")})
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
