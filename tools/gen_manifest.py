#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the registry printed by `mc list`."""
import json, subprocess, pathlib
root = pathlib.Path(__file__).resolve().parent.parent
have = {l.split()[0]: l.split()[1:] for l in subprocess.check_output([str(root / "target/native/release/mc"), "list"], text=True).splitlines() if l.strip()}
props = [json.loads(l) for l in (root / "properties.jsonl").read_text().splitlines()]
NOTE = json.loads((root / "tools/level_notes.json").read_text())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        checks.append({
            "property": i,
            "quick_cmd": f"./check.sh {i} quick",
            "thorough_cmd": f"./check.sh {i} thorough",
            "technique": NOTE[i]["technique"],
            "level": "model_checking",
            "level_note": NOTE[i]["note"],
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "hooks": {"guard": "none (no hooks: everything is driven through the public API)", "enable": "nothing to enable", "source_commits": []},
    "checks": checks,
    "not_applicable": na,
    "notes": "Stateless explicit-state exploration of the compiled library by /verif/harness (binary mc); see DESIGN.md. Exit 2 means the build failed.",
}
(root / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
