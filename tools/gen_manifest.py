#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks below."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(f"{ROOT}/properties.jsonl")]
E, M, F = "exploration", "model_checking", "fault_enumeration"
ENUM = "exhaustive bounded enumeration of inputs on the real code against an independent reference"
TREE = "exhaustive exploration of all operation histories up to a depth on the real code, every state compared with a reference model"
SPECIAL = {
    "C08": (M, "breadth-first exploration of the periodic graph's state space on the real code (shell by shell), compared with a reference transition system"),
    "C11": (M, "exhaustive exploration of all query histories on the real cached object, compared with a fresh object after every transition"),
    "C24": (M, TREE), "C42": (M, TREE),
    "C46": (E, "exhaustive enumeration of all typed expressions over the library's types and several coordinate systems, each decided by compiling it against the real library"),
    "C47": (E, "exhaustive enumeration of short executions (query histories, call-backs, misuse, pairs of queries from two threads) of the real code under an interpreter that watches every memory access (Miri), and of the uses the compiler has to refuse"),
    "C41": (F, "exhaustive enumeration of reader behaviours (chunk sizes, interruptions, every error position) under a fault injecting reader"),
}
TODO = set(os.environ.get("TODO", "").split())
HOOK = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^hook:"], capture_output=True, text=True).stdout.split()
checks = []
for i in ids:
    if i in TODO: continue
    level, tech = SPECIAL.get(i, (E, ENUM))
    checks.append({
        "property": i, "quick_cmd": f"./run.sh {i} quick", "thorough_cmd": f"./run.sh {i} thorough",
        "technique": tech, "level": level,
        "level_note": "Holds for every case of the finite spaces listed with their sizes in evidence/%s.json; nothing is sampled. Beyond those bounds nothing is claimed." % i,
    })
m = {
    "version": 1, "setup_cmd": "./run.sh --build",
    "hooks": {"guard": "cfg(systre_verif)", "enable": "RUSTFLAGS='--cfg systre_verif' (only the package harness/hooked, in its own target directory)", "source_commits": HOOK},
    "checks": checks,
    "not_applicable": [{"property": i, "reason": "check not built yet"} for i in ids if i in TODO],
    "notes": "run.sh <ID> <tier> rebuilds the harness against /repo and enumerates every case of every space of the property; run.sh --replay FILE repeats one recorded case. See DESIGN.md.",
}
json.dump(m, open(f"{ROOT}/MANIFEST.json", "w"), indent=1)
open(f"{ROOT}/MANIFEST.json", "a").write("\n")
