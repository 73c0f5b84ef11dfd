"""Writes MANIFEST.json"""
import json
import os
import sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(V, "harness"))
TECH = {
    "server": "TLA+ specification (spec/Paf.tla) checked with TLC for small "
              "worlds (PafMC); TLC-generated behaviours replayed into the "
              "real server, and recorded executions of it validated by TLC "
              "against the specification (PafTrace)",
}
NOTE = {
    "server": "The property holds on the specification for all behaviours "
              "of the small worlds (exhaustively explored); the real server "
              "agrees with the specification on every behaviour driven "
              "through it (walks over the model's transitions, random and "
              "directed scenarios, malformed input, time and backpressure "
              "included). Assumes the stand-ins for XCM, epoll and the "
              "clock; conformance is checked on executions, not proved.",
}
import plan_text
TECH.update(plan_text.TECH)
NOTE.update(plan_text.NOTE)
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    kind = plan_text.KIND.get(i)
    if kind is None:
        na.append({"property": i, "reason": plan_text.REASON.get(
            i, "the check for it is not built yet")})
        continue
    checks.append({"property": i, "quick_cmd": "bin/check " + i,
                   "thorough_cmd": "VERIF_TIER=thorough bin/check " + i,
                   "technique": TECH[kind], "level": "model_checking",
                   "level_note": NOTE[kind]})
m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks,
     "not_applicable": na,
     "notes": "No hooks in /repo: the code under test is imported "
              "unmodified, and only its surroundings (paf.xcm, epoll, the "
              "clock) are replaced from outside. bin/replay FILE re-runs a "
              "reported violation."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
