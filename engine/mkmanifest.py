"""Writes /verif/MANIFEST.json from the registry."""
import json
import sys

sys.path.insert(0, "/verif/engine")
import registry

P = registry.build()
titles = {}
for l in open("/verif/properties.jsonl"):
    d = json.loads(l)
    titles[d["id"]] = d["title"]
checks = []
for pid in sorted(P):
    if not P[pid]:
        continue
    checks.append({
        "property": pid,
        "quick_cmd": f"python3-vt /verif/check.py {pid}",
        "thorough_cmd": f"python3-vt /verif/check.py {pid} --thorough",
        "technique": "contracts on the compiled functions of /repo, discharged by symbolic execution of their LLVM IR into canonical forms (deductive, modular)",
        "level": registry.LEVEL.get(pid, "proof"),
        "level_note": registry.NOTE.get(pid, registry.NOTE["*"]),
    })
na = [{"property": p, "reason": registry.NA.get(p, "check under construction")} for p in sorted(titles) if not P.get(p)]
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na, "notes": "See DESIGN.md."}, open("/verif/MANIFEST.json", "w"), indent=1)
