#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.json, levels.json (property -> [level, technique, note]) and properties.jsonl."""
import json, subprocess
checks = json.load(open("checks.json"))
levels = json.load(open("levels.json"))
props = [json.loads(l)["id"] for l in open("properties.jsonl")]
commits = subprocess.run(["git", "-C", "/repo", "log", "--format=%h", "--grep=^verif hook"], capture_output=True, text=True).stdout.split()[::-1]
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "hooks": {"guard": "cfg(signal_verif)", "enable": 'RUSTFLAGS="--cfg signal_verif"', "source_commits": commits},
    "checks": [
        {"property": p, "quick_cmd": f"python3 check.py {p}", "thorough_cmd": f"python3 check.py {p} --thorough",
         "evidence_file": f"evidence/{p}.json", "technique": levels[p][1], "level": levels[p][0], "level_note": levels[p][2]}
        for p in props if p in checks],
    "not_applicable": [{"property": p, "reason": levels.get(p, [0, 0, "check not built yet"])[2]} for p in props if p not in checks],
}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
