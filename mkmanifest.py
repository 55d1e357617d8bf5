#!/usr/bin/env python3
"""Writes MANIFEST.json from engines.py and properties.jsonl."""
import json
import os

from engines import ENGINES, NOTES, PROPS

ROOT = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(line) for line in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    pid = p["id"]
    if pid not in PROPS:
        na.append({"property": pid, "reason": "check under construction"})
        continue
    engines = PROPS[pid]["engines"]
    kinds = {ENGINES[e]["kind"] for e in engines}
    how = []
    if "replay" in kinds:
        how.append("every TLC-enumerated transition replayed on the real code")
    if "record" in kinds:
        how.append("recorded traces of the real code checked by TLC")
    mods = sorted({ENGINES[e]["module"] for e in engines})
    checks.append({
        "property": pid,
        "quick_cmd": f"python3 run.py check {pid} quick",
        "thorough_cmd": f"python3 run.py check {pid} thorough",
        "technique": f"TLA+ ({', '.join(mods)}) with TLC; " + "; ".join(how),
        "level": PROPS[pid].get("level", "model_checking"),
        "level_note": " ".join(NOTES[e] for e in engines) + " " + " ".join(PROPS[pid].get("assumptions", [])),
    })
manifest = {
    "version": 1,
    "setup_cmd": "python3 run.py setup",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks: the harness crate in /verif/harness uses the public API only. See DESIGN.md.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
