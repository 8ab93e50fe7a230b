#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
import models

props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
for p in props:
    i = p["id"]
    d = sorted({models.MODELS[x]["module"] for t in ("quick", "thorough") for x in models.FOR[i].get(t, [])} | {models.REPLAYS[x] for x in models.FOR[i].get("replay", [])})
    checks.append(dict(
        property=i,
        quick_cmd=f"python3 tools/check.py {i} quick",
        thorough_cmd=f"python3 tools/check.py {i} thorough",
        technique="TLA+/TLC: histories of the real code under a deterministic scheduler validated against Lin.tla" +
                  (", plus " + ", ".join(d) if d else ""),
        level="model_checking",
        level_note="Holds for every recorded history: each event is explained by the TLA+ specification. All schedules with one preemption of most scenarios, "
                   "random ones beyond. Sequentially consistent executions only; the scheduler, the scc_verif hook, and the crates saa and sdd are trusted."))
m = dict(version=1, setup_cmd="bash tools/setup.sh",
         hooks=dict(guard="scc_verif", enable="RUSTFLAGS='--cfg scc_verif' with scc's feature loom and the loom crate of harness/loom patched in",
                    source_commits=["d94d09702d8e58cb5c0b376c7472b4ee731fb9f8"]),
         checks=checks, not_applicable=[],
         notes="TLA+ checked with TLC. tools/check.py --replay FILE runs a reported schedule again and shows the history.")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
