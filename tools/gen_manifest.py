#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with a harness is claimed."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "C01": "AddressSanitizer and UndefinedBehaviorSanitizer over the workloads of all harnesses plus a hostile-value workload with exact-size heap buffers",
 "C02": "ThreadSanitizer plus bitwise result monitors over permuted, repeated, forked and concurrent call histories",
 "C03": "run-time monitors comparing compiler-evaluated tables and compile-time twins with run-time evaluation",
}
DEFAULT = "runtime oracle monitors over generated workloads on the real headers (long double and exact integer reference)"
NOTE = ("Seeded exploration: every oracle verdict is about executions of the real code; says nothing about inputs "
        "not generated. Trusts the compiler, libm and the reference arithmetic in harness/. Tolerance zones that the "
        "library documents or asserts are not judged (see DESIGN.md).")
NOTES = {
 "C01": "Seeded exploration under clang ASan+UBSan; undefined behaviour not on an executed path is not seen.",
 "C02": "Seeded exploration; data races are decided by ThreadSanitizer's happens-before analysis on the executed code.",
 "C03": "Compile-time tables cover fixed generators; twins are compared on seeded random arguments.",
}
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "harness", i.lower() + ".cpp")):
        checks.append({"property": i, "quick_cmd": "python3 check.py " + i,
                       "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": TECH.get(i, DEFAULT), "level": "exploration",
                       "level_note": NOTES.get(i, NOTE)})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the library is header-only and is observed through its public functions. Repairs are listed in known_findings.txt."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
