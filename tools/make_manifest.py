#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the implemented checks."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TECH = {}
exec(open(os.path.join(ROOT, "tools", "techniques.py")).read())

checks, missing = [], []
for line in open(f"{ROOT}/properties.jsonl"):
    p = json.loads(line)["id"]
    if os.path.exists(f"{ROOT}/vf/props/{p.lower()}.py"):
        tech, note = TECH[p]
        checks.append(dict(property=p, quick_cmd=f"./check {p}", thorough_cmd=f"VERIF_TIER=thorough ./check {p}",
            evidence_file=f"evidence/{p}.json", technique="property-based testing (Hypothesis): " + tech, level="exploration",
            level_note=note + " Random search within the stated generators; numerical tolerances as in DESIGN.md. Trusts Hypothesis, "
            "NumPy, SciPy and the compiled transforms of pyspharm."))
    else:
        missing.append(dict(property=p, reason="check not built yet"))
out = dict(version=1,
    setup_cmd="/opt/venv/bin/python -c \"import sys; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages'); import numpy, scipy, hypothesis\"",
    checks=checks, not_applicable=missing,
    notes="Checks import barotropic from /repo/src (pure Python, nothing to build); no hooks in /repo are needed.")
json.dump(out, open(f"{ROOT}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(missing), "missing")
