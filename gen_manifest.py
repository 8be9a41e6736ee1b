#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py (run after editing props.py)."""
import json, os
from props import PROPS, NA
here = os.path.dirname(os.path.abspath(__file__))
checks = []
for pid in sorted(PROPS):
    p = PROPS[pid]
    note = p.get("note", "Seeded search over schedules, histories and faults; a clean run is evidence, not proof. Every "
                         "violation is minimised and replayed in a fresh process before it is reported.")
    if p.get("assumptions"):
        note += " Assumes: " + "; ".join(p["assumptions"]) + "."
    checks.append({"property": pid, "quick_cmd": "python3 run.py check %s --tier quick" % pid,
                   "thorough_cmd": "python3 run.py check %s --tier thorough" % pid,
                   "technique": p["technique"], "level": "exploration", "level_note": note})
m = {"version": 1, "setup_cmd": "python3 run.py setup",
     "hooks": {"guard": "none", "enable": "No hooks: /repo is compiled unmodified; the seams are compiler "
               "instrumentation, interposed runtime calls and stand-in headers in /verif/shim.", "source_commits": []},
     "checks": checks, "not_applicable": NA}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
