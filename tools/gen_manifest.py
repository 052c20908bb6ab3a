#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks that exist in harness/checks."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "default": "stateful property-based testing (rapidcheck) against a reference model on a virtual-time event loop",
    "C01": "stateful property-based testing: generated coroutine programs with ghost-state invariants",
    "C02": "stateful property-based testing: generated coroutine programs with instance-counted state",
    "C03": "property-based testing: generated then() chains against a reference evaluator",
    "C04": "stateful property-based testing on a virtual-time event loop with decidable hangs",
    "C05": "stateful property-based testing: generated lifetimes of task, context and callback",
    "C06": "property-based testing: generated result types and co_return forms against plain return",
    "C07": "stateful property-based testing: generated LazyTask programs with ghost-state invariants",
    "C08": "stateful property-based testing against a list model with instance-counted state",
    "C09": "stateful property-based testing against a list model under generated schedules",
    "C16": "stateful property-based testing with generated schedules and threads (real event loops)",
    "C17": "stateful property-based testing with generated child process scripts (real event loop)",
    "C28": "property-based testing: generated programs against a sequential reference evaluator, on virtual time",
    "C30": "property-based testing: generated multi-threaded programs under ThreadSanitizer",
    "C29": "property-based testing: generated programs of operations, repeated; resource accounting as the invariant",
    "C27": "differential property-based testing against the QtTest macros",
}
NOTE = ("Generated-input search with explicit oracle under AddressSanitizer, UBSan and Qt assertions; shows absence of "
        "violations only on the explored cases. Trusts Qt 6.4.2, gcc 13 and the reference model in harness/checks/%s.cpp.")
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if os.path.exists(os.path.join(V, "harness/checks", i + ".cpp")):
        checks.append({
            "property": i,
            "quick_cmd": "VERIF_TIER=quick ./check.sh %s" % i,
            "thorough_cmd": "VERIF_TIER=thorough ./check.sh %s" % i,
            "technique": TECH.get(i, TECH["default"]),
            "level": "exploration",
            "level_note": NOTE.replace("AddressSanitizer, UBSan", "ThreadSanitizer") % i if i == "C30" else NOTE % i,
        })
    else:
        na.append({"property": i, "reason": "no check has been built for it yet"})
json.dump({
    "version": 1,
    "setup_cmd": "true",
    "checks": checks,
    "not_applicable": na,
    "notes": "Every check builds QCoro from /repo's working tree into /verif/build (ignored by git); no hooks in /repo are used.",
}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
