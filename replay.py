#!/opt/venv/bin/python
"""replay.py FILE: run one recorded counterexample against the real code in /repo."""
import json
import os
import sys

sys.dont_write_bytecode = True
os.environ.setdefault("MPLBACKEND", "Agg")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.environ.get("XRD_REPO", "/repo"))
from engine import harness as HM  # noqa: E402

r = json.load(open(sys.argv[1]))
H = HM.load(r["property"])[r["harness"]]
st, failures, used, _ = HM.run_concrete(H, r["env"])
print("property", r["property"], "harness", r["harness"])
print("input", json.dumps(used, indent=1))
print(st, *failures, sep="\n  ")
sys.exit(1 if st == "fail" else 0)
