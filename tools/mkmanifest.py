"""writes MANIFEST.json from properties.jsonl and the table of models"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "harness"))
from models import MODELS
checks = []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    ms = MODELS.get(p, [])
    checks.append({
        "property": p,
        "quick_cmd": "/opt/venv/bin/python harness/check.py %s --tier quick" % p,
        "thorough_cmd": "VERIF_TIER=thorough /opt/venv/bin/python harness/check.py %s --tier thorough" % p,
        "technique": "TLA+ specification checked with TLC; conformance of recorded executions of the real code to it (trace checking)"
                     + ("; replay of the cases TLC enumerates in " + ", ".join(ms) if ms else ""),
        "level": "model_checking",
        "level_note": "TLC explores the small-scope model%s exhaustively; every recorded call of the real code is a behaviour the specification (exact rational arithmetic) must allow. "
                      "Inputs not generated are not observed; comparisons within floating-point reach of a decision boundary are left open." % (" " + ", ".join(ms) if ms else "s"),
    })
m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo: the public functions are observed from outside. Known findings: known_findings.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
