"""Writes MANIFEST.json from the registered checks."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import PROPS
NA = {}
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
NOTE = ("Bounded: the real Python/Cython/Fortran sources are executed symbolically and z3 decides every assertion for all values within the "
        "bounds listed in the evidence file and DESIGN.md; reals instead of floating point; library eigen-solvers, FFT and special functions by "
        "their contracts. Counterexamples are replayed on a scratch build of the real package before they are reported.")
m = dict(version=1, setup_cmd="true", checks=[
    dict(property=i, quick_cmd=f"/opt/venv/bin/python check.py {i} --tier quick", thorough_cmd=f"/opt/venv/bin/python check.py {i} --tier thorough",
         evidence_file=f"evidence/{i}.json", technique="symbolic execution of the real sources + z3 (bounded), counterexamples replayed on the real build",
         level="model_checking", level_note=NOTE) for i in ids if i in PROPS],
    not_applicable=[dict(property=i, reason=NA.get(i, "harness not built yet")) for i in ids if i not in PROPS],
    notes="See DESIGN.md. Known findings: known_findings.json. setup_cmd does nothing: every check encodes and builds from /repo's tree itself.")
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
print(len(m["checks"]), len(m["not_applicable"]))
