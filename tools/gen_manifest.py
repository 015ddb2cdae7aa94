"""Write MANIFEST.json from properties.jsonl and harness_index.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from harness_index import PROPERTIES, NOT_APPLICABLE  # noqa: E402

ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
TECH = "solver-based symbolic execution (z3) of the real Python code, every path witness replayed"
NOTE = (
    "Every feasible path of the harness over the real functions is explored with z3 deciding branches and"
    " assertions for all values within the bounds listed per case in the evidence; trusted: the stand-ins"
    " for C code in symex/ (validated by replaying every path's witness on unpatched code), hash injectivity. "
)
checks, na = [], []
for i in ids:
    if i in PROPERTIES:
        checks.append({
            "property": i,
            "quick_cmd": f"VERIF_TIER=quick /opt/venv/bin/python run.py {i}",
            "thorough_cmd": f"VERIF_TIER=thorough /opt/venv/bin/python run.py {i}",
            "evidence_file": f"evidence/{i}.json",
            "technique": PROPERTIES[i].get("technique", TECH),
            "level": "model_checking",
            "level_note": NOTE + PROPERTIES[i].get("note", ""),
        })
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "check not built yet")})
out = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python tools/selfcheck.py",
    "checks": checks,
    "not_applicable": na,
}
json.dump(out, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
