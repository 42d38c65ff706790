#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered checks and properties.jsonl."""
import importlib, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vp
checks = {}
notes = {}
for n in sorted(os.listdir(os.path.join(vp.VERIF, "tools"))):
    if n.startswith("c_") and n.endswith(".py"):
        m = importlib.import_module(n[:-3])
        checks.update(m.CHECKS)
        notes.update(getattr(m, "NOTES", {}))
NA = json.load(open(os.path.join(vp.VERIF, "tools", "not_applicable.json")))
man = {"version": 1, "setup_cmd": "python3 tools/setup.py",
       "hooks": {"guard": "cfg(vp_hooks)", "enable": "RUSTFLAGS='--cfg vp_hooks' (set by tools/vp.py for every harness build)",
                 "source_commits": json.load(open(os.path.join(vp.VERIF, "tools", "hook_commits.json")))},
       "checks": [], "not_applicable": []}
for line in open(os.path.join(vp.VERIF, "properties.jsonl")):
    p = json.loads(line)["id"]
    if p in checks:
        tech, note = notes.get(p, ("TLA+ specification checked with TLC; traces of the real code driven by TLC-generated and random stimuli, validated event by event by TLC",
                                   "Exhaustive for the specification within its constants; the code is bound by trace validation of the executions driven, not for all executions."))
        man["checks"].append({"property": p, "quick_cmd": f"VERIF_TIER=quick python3 check.py {p}",
                              "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p}",
                              "evidence_file": f"evidence/{p}.json", "technique": tech,
                              "level": "model_checking", "level_note": note})
    else:
        man["not_applicable"].append({"property": p, "reason": NA.get(p, "no check built yet")})
json.dump(man, open(os.path.join(vp.VERIF, "MANIFEST.json"), "w"), indent=1)
print(len(man["checks"]), "checks", len(man["not_applicable"]), "not applicable")
