#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
NOTES = json.load(open(os.path.join(HERE, "tools", "levels.json")))
NOT = NOTES.get("not_applicable", {})
hook = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%H %s"], text=True).splitlines()
hook = [l.split()[0] for l in hook if "cfg fizyr_rpc_sim" in l]
m = {
    "version": 1,
    "setup_cmd": "./check build",
    "hooks": {
        "guard": "cfg(fizyr_rpc_sim)",
        "enable": "RUSTFLAGS='--cfg fizyr_rpc_sim', set by sim/harness/.cargo/config.toml",
        "source_commits": hook,
    },
    "checks": [
        {
            "property": p,
            "quick_cmd": f"./check {p} quick",
            "thorough_cmd": f"./check {p} thorough",
            "evidence_file": f"evidence/{p}.json",
            "technique": "deterministic simulation with fault injection: " + NOTES["technique"][p],
            "level": "exploration",
            "level_note": NOTES["note"].get(p, "") + NOTES["common"],
        }
        for p in CLAIMED if p not in NOT
    ],
    "not_applicable": [{"property": p, "reason": r} for p, r in NOT.items()],
    "notes": "See DESIGN.md.  ./check <id> replay <file> runs a replay file.",
}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
