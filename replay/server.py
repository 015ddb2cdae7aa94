"""Run harness cases on the real code with concrete inputs: JSON lines in, JSON lines out."""

from __future__ import annotations

import json
import os
import shutil
import signal
import sys
import tempfile
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    sys.dont_write_bytecode = True
    sys.path.insert(0, HERE)
    sys.path.insert(0, os.environ.get("ARTI_SRC", "/repo/src"))
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    import importlib
    import logging

    logging.disable(logging.CRITICAL)

    from symex.case import Known

    from replay import real

    modules: dict = {}
    scratch = tempfile.mkdtemp(prefix="arti-replay-")
    seq = 0

    def handle(req):
        nonlocal seq
        if "known" in req:
            Known.listed = frozenset(req["known"])
            return {"status": "ok"}
        key = (req["module"], req["tier"])
        if key not in modules:
            mod = importlib.import_module(f"harness.{req['module']}")
            modules[key] = {c.name: c for c in mod.CASES(req["tier"])}
        case = modules[key][req["case"]]
        seq += 1
        root = os.path.join(scratch, f"r{seq}")
        os.mkdir(root)
        t = real.RealT(req["inputs"], root)
        cwd = os.getcwd()

        def alarm(*_):
            raise TimeoutError("replay timed out")

        signal.signal(signal.SIGALRM, alarm)
        signal.alarm(int(req.get("timeout", 30)))
        try:
            case.fn(t, **case.params)
            return {"status": "ok", "checks": t.checks}
        except real.Refuted as e:
            return {"status": "violation", "message": str(e)}
        except real.Listed as e:
            return {"status": "known", "id": e.args[0]}
        except real.Skip:
            return {"status": "skip"}
        except TimeoutError:
            return {"status": "timeout"}
        except (KeyboardInterrupt, SystemExit):
            raise
        except BaseException as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = "; ".join(f"{f.filename}:{f.lineno}:{f.name}" for f in tb[-4:])
            return {"status": "exception", "message": f"{type(e).__name__}: {e}"[:600] + " @ " + where}
        finally:
            signal.alarm(0)
            try:
                t.close()
            except Exception:
                pass
            os.chdir(cwd)
            shutil.rmtree(root, ignore_errors=True)

    try:
        for line in sys.stdin:
            try:
                res = handle(json.loads(line))
            except Exception as e:
                res = {"status": "error", "message": f"{type(e).__name__}: {e}", "tb": traceback.format_exc()}
            out.write(json.dumps(res) + "\n")
            out.flush()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
        os._exit(0)  # threads a replay left behind must not keep the process alive


if __name__ == "__main__":
    main()
