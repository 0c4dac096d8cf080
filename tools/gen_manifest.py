#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json (run: python3 tools/gen_manifest.py)."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
src = open(os.path.join(here, "sim/src/check.rs")).read()
table = src[src.index("fn specs("):src.index("fn maps(") if "fn maps(" in src else None]
covered = {m.group(1): re.findall(r'\("(\w+)", (\d+), \d+\)', m.group(2)) for m in re.finditer(r'"(C\d\d)" => &\[(.*?)\],\n', table, re.S)}
NOTE = ("Seeded random search over schedules, fault sequences, configurations and inputs of the real code in the simulator, judged by "
        "executable reference models; it shows the absence of violations on the runs explored and does not prove it. Trusted: the simulated TCP, scheduler, "
        "cooperative budget and k-lock (DESIGN.md section 3), and the models in the worlds. Worlds run: %s.")
checks, na = [], []
for p in props:
    i = p["id"]
    if covered.get(i):
        worlds = ", ".join(f"{w}/{n}" for w, n in covered[i])
        checks.append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"./check.sh {i}",
                       "evidence_file": f"evidence/{i}.json",
                       "technique": "deterministic simulation with fault injection: seeded search over schedules and faults of the real code",
                       "level": "exploration", "level_note": NOTE % worlds})
    else:
        na.append({"property": i, "reason": "its simulated world is not built yet"})
m = {"version": 1, "setup_cmd": "./check.sh --build-only", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the seams are link-level (Cargo [patch] of tokio and k-lock in /verif/sim). Replay a violation with: sim/target/release/psim replay <file>."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
