#!/opt/venv/bin/python
"""run.py <property> [--case SUBSTR] [--replay FILE]: decide one property (see DESIGN.md)."""

import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ENV = {"PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1"}

if any(os.environ.get(k) != v for k, v in ENV.items()):
    os.environ.update(ENV)
    os.execv("/opt/venv/bin/python", ["/opt/venv/bin/python", *sys.argv])

sys.path.insert(0, HERE)

from harness_index import PROPERTIES  # noqa: E402


def main(argv):
    from symex import runner

    if argv[0] == "--replay":
        req = json.load(open(argv[1]))
        r = runner.Replay(runner.known_findings(req["property"]))
        res = r.run({k: req[k] for k in ("module", "tier", "case", "inputs")})
        r.stop()
        print(json.dumps(res, indent=1))
        return 1 if res["status"] in runner.BAD else 0
    prop = argv[0]
    only = argv[argv.index("--case") + 1] if "--case" in argv else None
    spec = PROPERTIES[prop]
    return runner.decide(prop, spec["modules"], only=only, gcs=spec.get("gcs", False),
                         stand_ins=spec.get("stand_ins", ()))


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
