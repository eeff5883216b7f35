#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: one check per property the explorer knows."""
import json, os, re
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
props = [json.loads(l) for l in open(f"{root}/properties.jsonl")]
built = set(re.findall(r'\("(C\d\d)", c\d\d::plan\)', open(f"{root}/mc/src/props/mod.rs").read()))
TECH = "stateless model checking: exhaustive bounded exploration of the real View against a reference model"
NOTE = ("Every execution of the stated finite spaces is run on the implementation itself and compared step by step "
        "with an independent reference model; nothing is sampled. Assumes the bounds listed in DESIGN.md and trusts "
        "the reference model, Taffy's layout algorithm, serde_json and pest.")
manifest = {
    "version": 1,
    "setup_cmd": "./check.sh build",
    "checks": [{
        "property": p["id"],
        "quick_cmd": f"./check.sh {p['id']} quick",
        "thorough_cmd": f"./check.sh {p['id']} thorough",
        "technique": TECH,
        "level": "model_checking",
        "level_note": NOTE,
    } for p in props if p["id"] in built],
    "not_applicable": [{"property": p["id"], "reason": "The check for this property is still being built."}
                       for p in props if p["id"] not in built],
    "notes": "All checks use one explorer (mc); replay a violation with 'mc/target/release/mc replay <file>'.",
}
if not manifest["not_applicable"]:
    del manifest["not_applicable"]
open(f"{root}/MANIFEST.json", "w").write(json.dumps(manifest, indent=1) + "\n")
