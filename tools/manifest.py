"""Writes MANIFEST.json from spec.py and properties.jsonl (run after changing either)."""
import json, os
import spec
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(f"{V}/properties.jsonl")]
checks = []
for i in ids:
    if i in spec.PROPS:
        P = spec.PROPS[i]
        checks.append({"property": i, "quick_cmd": f"python3 tools/vf.py check {i} --tier quick", "thorough_cmd": f"python3 tools/vf.py check {i} --tier thorough", "technique": P["technique"], "level": P["level"], "level_note": P["note"]})
na = [{"property": i, "reason": spec.NA[i]} for i in ids if i not in spec.PROPS]
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na, "notes": "Contract-based verification of the real code with odcv, a VC generator over LLVM IR built from /verif/engine by every check; see DESIGN.md."}, open(f"{V}/MANIFEST.json", "w"), indent=1)
