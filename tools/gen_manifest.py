#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, pathlib, subprocess
V = pathlib.Path(__file__).resolve().parent.parent
props = {json.loads(l)["id"]: json.loads(l) for l in (V / "properties.jsonl").read_text().splitlines()}
CLAIMS = json.loads((V / "tools/claims.json").read_text())
checks = []
for pid in sorted(CLAIMS["checks"]):
    c = CLAIMS["checks"][pid]
    checks.append({"property": pid, "quick_cmd": f"python3 bin/check {pid}", "thorough_cmd": f"VERIF_TIER=thorough python3 bin/check {pid}",
                   "technique": c["technique"], "level": "model_checking", "level_note": c["note"]})
na = [{"property": p, "reason": CLAIMS["not_applicable"].get(p, "not claimed yet: the check is still being built")} for p in props if p not in CLAIMS["checks"]]
m = {"version": 1, "setup_cmd": "python3 -m mc.setup", "checks": checks, "not_applicable": na}
if CLAIMS.get("hooks"):
    m["hooks"] = CLAIMS["hooks"]
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks;", len(na), "not applicable")
