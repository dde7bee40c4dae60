#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the tables here."""
import json
from pathlib import Path
V = Path(__file__).resolve().parent.parent
NOTES = json.loads((V / "tools" / "notes.json").read_text())
props = [json.loads(l) for l in (V / "properties.jsonl").read_text().splitlines() if l.strip()]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NOTES:
        t, n = NOTES[i]
        checks.append({
            "property": i,
            "quick_cmd": f"./check.sh {i} quick",
            "thorough_cmd": f"./check.sh {i} thorough",
            "technique": t,
            "level": "exploration",
            "level_note": n + " Bounded random search: no violation among the generated cases, not a proof; trusts the oracle in harness/.",
        })
    else:
        na.append({"property": i, "reason": "Check under construction; not yet claimed."})
doc = {"version": 1, "setup_cmd": "./check.sh --setup", "checks": checks, "not_applicable": na,
       "notes": "One Cargo workspace (harness/) with path dependencies on /repo's crates; no hooks in /repo. Each check runs in two build configurations (debug assertions on and off)."}
(V / "MANIFEST.json").write_text(json.dumps(doc, indent=1) + "\n")
