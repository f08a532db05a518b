#!/usr/bin/env python3
"""properties.jsonl and MANIFEST.json from tools/catalog.py."""
import json, os, subprocess
from catalog import P, HERE

with open(f"{HERE}/properties.jsonl", "w") as f:
    for p, _, _ in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
hook = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%H", "--grep=^hook:"], text=True).split()
m = {
    "version": 1,
    "setup_cmd": "./build.sh",
    "hooks": {
        "guard": "cfg(verif_hooks)",
        "enable": "engine/shim compiles /repo/crates/wasm-shim/src with --cfg verif_hooks (emitted by its build script); the other crate is a plain path dependency",
        "source_commits": hook,
    },
    "checks": [
        {"property": p["id"], "quick_cmd": f"./run_check.sh {p['id']} quick", "thorough_cmd": f"./run_check.sh {p['id']} thorough",
         "technique": t, "level": "exploration", "level_note": n}
        for p, t, n in P
    ],
    "not_applicable": [],
}
json.dump(m, open(f"{HERE}/MANIFEST.json", "w"), indent=1)
print(len(P), "properties")
