"""plant.py ID PROPERTY SPEC.py — record a planted bug under seeded/ID after confirming it.

SPEC.py defines FILE (below src/arti), EDITS [(old, new), ...], NEEDS, BREAKS and DEMO (a program that
exits 0 on the unchanged tree and nonzero with the edits)."""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

PY = "/opt/venv/bin/python"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    ident, prop, spec = sys.argv[1:4]
    s = runpy.run_path(spec)
    work = tempfile.mkdtemp(prefix="plant-")
    try:
        repo = work + "/repo"
        subprocess.check_call(["git", "clone", "-q", "/repo", repo])
        env = dict(os.environ, PYTHONPATH=repo + "/src", PYTHONDONTWRITEBYTECODE="1")
        demo = work + "/demo.py"
        with open(demo, "w") as f:
            f.write(s["DEMO"].lstrip("\n"))
        run = lambda: subprocess.run([PY, demo], cwd=repo, env=env, capture_output=True, text=True)
        before = run()
        assert before.returncode == 0, ("demo fails on the unchanged tree", before.stderr[-2000:])
        for file, old, new in ((e if len(e) == 3 else (s["FILE"], *e)) for e in s["EDITS"]):
            path = f"{repo}/src/arti/{file}"
            with open(path) as f:
                text = f.read()
            assert text.count(old) == 1, (file, old, text.count(old))
            with open(path, "w") as f:
                f.write(text.replace(old, new))
        after = run()
        assert after.returncode != 0, "demo passes with the change"
        print("demo:", after.stderr.strip().splitlines()[-1:] )
        base = {t for t in json.load(open("/opt/vp/BASELINE.json")).get("passed", [])} if False else None
        q = subprocess.run([PY, "-m", "pytest", "-q", "--no-cov", "-p", "no:cacheprovider"], cwd=repo, env=env, capture_output=True, text=True)
        print("suite:", q.stdout.strip().splitlines()[-1])
        assert q.returncode == 0, q.stdout[-1500:]
        diff = subprocess.check_output(["git", "diff"], cwd=repo, text=True)
        out = f"{HERE}/seeded/{ident}"
        os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "w").write(diff)
        shutil.copy(demo, out + "/demo.py")
        open(out + "/demo.sh", "w").write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(out + "/demo.sh", 0o755)
        json.dump({"property": prop, "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, open(out + "/meta.json", "w"), indent=1)
        if "--nocheck" not in sys.argv:
            q = subprocess.run([PY, "run.py", prop], cwd=HERE, env=dict(os.environ, ARTI_SRC=repo + "/src"), capture_output=True, text=True)
            print("check:", q.returncode, [l for l in q.stdout.splitlines() if l.startswith(("VIOLATION", "INCONC", "  case"))][:3])
    finally:
        shutil.rmtree(work)


main()
