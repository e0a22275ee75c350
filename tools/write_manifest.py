"""Writes MANIFEST.json from the harness modules present and the reasons below."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
try:
    NA = json.load(open(os.path.join(ROOT, "tools", "not_applicable.json")))
except FileNotFoundError:
    pass
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if os.path.exists(os.path.join(ROOT, "harness", p.lower() + ".py")) and p not in NA:
        cmd = "/opt/venv/bin/python check.py %s" % p
        checks.append(
            {
                "property": p,
                "quick_cmd": cmd,
                "thorough_cmd": "VERIF_TIER=thorough " + cmd,
                "evidence_file": "evidence/%s.json" % p,
                "technique": "symbolic execution of the real torch/numpy code, obligations decided by polynomial normalisation and z3 (SMT)",
                "level": "other",
                "level_note": "Bounded symbolic verification: within the sizes and ranges written in the harness, every input value is covered by the solver's verdict. Trusts real-number semantics for floats, the engine's operator semantics (compared with torch at a witness on every run), the listed stubs, and z3.",
            }
        )
    else:
        na.append({"property": p, "reason": NA.get(p, "no check built yet")})
m = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python -c \"import sys; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages'); import z3, torch, numpy\"",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo: checks import the working tree directly (pure Python, nothing to build). See DESIGN.md.",
}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
