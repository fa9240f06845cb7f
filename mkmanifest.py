"""Writes MANIFEST.json from properties.jsonl and the check modules' own declarations."""
import glob
import importlib
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.chdir(os.path.dirname(os.path.abspath(__file__)))
HERE = os.getcwd()
from mc import env  # noqa

PY = "/opt/venv/bin/python run.py"
checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if not os.path.exists(os.path.join(HERE, "checks", i.lower() + ".py")):
        na.append({"property": i, "reason": "check under construction"})
        continue
    m = importlib.import_module("checks." + i.lower())
    checks.append({
        "property": i,
        "quick_cmd": "%s %s quick" % (PY, i),
        "thorough_cmd": "%s %s thorough" % (PY, i),
        "technique": getattr(m, "TECHNIQUE", "explicit-state model checking of the real "
                             "code (exhaustive enumeration against a reference model)"),
        "level": m.LEVEL,
        "level_note": "Exhaustive within: %s. Assumes: %s." % (
            m.BOUNDS["quick"], "; ".join(m.ASSUMPTIONS) or "nothing further")})
json.dump({"version": 1,
           "setup_cmd": "/opt/venv/bin/python -c \"import mc.env\"",
           "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the checks drive the unmodified working tree "
                    "through a controlled random source, a scheduled process pool and "
                    "captured artists. See DESIGN.md."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
