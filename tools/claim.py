#!/usr/bin/env python3
"""claim.py claim ID TECHNIQUE NOTE | fix ID COMMIT WHAT: edits claims.json / known_findings.json and regenerates."""
import json, pathlib, subprocess, sys
V = pathlib.Path(__file__).resolve().parent.parent
if sys.argv[1] == "claim":
    p = V / "tools/claims.json"
    c = json.loads(p.read_text())
    c["checks"][sys.argv[2]] = dict(technique=sys.argv[3], note=sys.argv[4])
    p.write_text(json.dumps(c, indent=1) + "\n")
else:
    p = V / "known_findings.json"
    k = json.loads(p.read_text())
    _, _, prop, commit, what = sys.argv
    k.append(dict(status="fixed", property=prop, commit=commit, what=what, line=f"fixed: property={prop} {commit} {what}"))
    p.write_text(json.dumps(k, indent=1) + "\n")
