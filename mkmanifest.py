#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the check modules (a check that is not built yet is listed as not claimed)."""
import importlib
import json
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, "/repo")
PURE = {
    "C22": "Pure in-memory geometry of one tile; no schedule, time, I/O or fault takes part (upscaling within histories of a level is part of C21 and C15).",
    "C24": "Pure arithmetic on six floats; no schedule, time, I/O or fault takes part (composed matrices applied to a level are part of C21 and C15).",
    "C26": "Pure dictionary-to-dictionary mapping; no schedule, time or fault takes part (the tool around it, its results and its I/O are part of C14 and C15).",
}
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"), encoding="utf-8")]
checks, na = [], []
for p in props:
    pid = p["id"]
    if pid in PURE:
        na.append({"property": pid, "reason": PURE[pid]})
        continue
    if not os.path.exists(os.path.join(HERE, "sim", "checks", pid.lower() + ".py")):
        na.append({"property": pid, "reason": "Check not built yet."})
        continue
    mod = importlib.import_module("sim.checks." + pid.lower())
    checks.append(
        {
            "property": pid,
            "quick_cmd": f"python3 -B check.py {pid} --tier quick",
            "thorough_cmd": f"python3 -B check.py {pid} --tier thorough",
            "technique": getattr(mod, "TECHNIQUE", "deterministic simulation with fault injection (seeded search, reference model)"),
            "level": mod.LEVEL,
            "level_note": mod.RULE
            + " Assurance: holds on every seeded run explored (not a proof); trusts the simulator's stream, storage and process model and the independent reference codec in /verif/sim.",
        }
    )
man = {
    "version": 1,
    "setup_cmd": "python3 -B check.py --selftest",
    "hooks": {"guard": "none (no hooks were needed: the code's own seams - the stream objects, sys.settrace and the process environment - are enough)", "enable": "nothing to enable", "source_commits": []},
    "checks": checks,
    "not_applicable": na,
    "notes": "One entry point (check.py); --replay FILE replays a recorded violation; known findings and repaired defects are in known_findings.txt.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
