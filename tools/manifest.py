#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (ids of properties.jsonl that have no entry become not_applicable)."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{here}/properties.jsonl") if l.strip()]
NOTES = {l.split("|", 2)[0].strip(): [x.strip() for x in l.split("|", 2)[1:]] for l in open(f"{here}/tools/levels.txt") if "|" in l and not l.startswith("#")}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NOTES:
        tech, note = NOTES[i]
        checks.append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
                       "technique": tech, "level": "model_checking", "level_note": note})
    else:
        na.append({"property": i, "reason": "the check is not built yet"})
m = {"version": 1, "setup_cmd": "./check.sh setup",
     "hooks": {"guard": "hodor_verif", "enable": "RUSTFLAGS with --cfg hodor_verif and one --cfg hodor_verif_<group> per group of entry points (query, fft, trace, vdf, fp2, tensor), set by check.sh",
               "source_commits": [subprocess.check_output(["git", "-C", "/repo", "rev-parse", "70fb592"], text=True).strip()]},
     "checks": checks, "not_applicable": na,
     "notes": "All checks enumerate executions of the real code (or of a model bound to it step by step) exhaustively within stated bounds. ./check.sh <id> --case <case> replays one case; the replay file of a violation names it."}
json.dump(m, open(f"{here}/MANIFEST.json", "w"), indent=1)
open(f"{here}/MANIFEST.json", "a").write("\n")
