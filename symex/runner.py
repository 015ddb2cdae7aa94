"""Decide one property: explore every case of its harness modules, replay every witness on the real
code, write the evidence."""

from __future__ import annotations

import collections
import importlib
import json
import multiprocessing as mp
import os
import queue
import signal
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(HERE, "evidence")
KNOWN_FILE = os.path.join(HERE, "KNOWN_FINDINGS.txt")
ARTI_SRC = os.environ.get("ARTI_SRC", "/repo/src")


def known_findings(prop):
    out = {}
    if os.path.exists(KNOWN_FILE):
        for line in open(KNOWN_FILE):
            if line.startswith("known: "):
                parts = line[len("known: ") :].strip().split(" ", 2)
                if parts[0] == f"property={prop}":
                    out[parts[1].removeprefix("id=")] = parts[2]
    return out


# ---- replay client ----------------------------------------------------------------------------
class Replay:
    def __init__(self, known):
        self.known = known
        self.proc = None

    def start(self):
        env = dict(os.environ, PYTHONPATH="", PYTHONHASHSEED="0", ARTI_SRC=ARTI_SRC)
        self.proc = subprocess.Popen(
            [sys.executable, os.path.join(HERE, "replay", "server.py")],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
            text=True, env=env, cwd=HERE,
        )
        self.ask({"known": sorted(self.known)})

    def ask(self, req):
        self.proc.stdin.write(json.dumps(req) + "\n")
        self.proc.stdin.flush()
        line = self.proc.stdout.readline()
        if not line:
            return {"status": "error", "message": "replay process died"}
        return json.loads(line)

    def run(self, req, fresh=False):
        if fresh:
            self.stop()
        if self.proc is None or self.proc.poll() is not None:
            self.start()
        try:
            return self.ask(req)
        except (OSError, ValueError) as e:
            self.stop()
            return {"status": "error", "message": str(e)}

    def stop(self):
        if self.proc is not None:
            try:
                self.proc.stdin.close()
                self.proc.wait(10)
            except Exception:
                self.proc.kill()
            self.proc = None


BAD = ("violation", "exception")


class PathTimeout(BaseException):
    pass


def explore_case(module, tier, case, known, deadline, replay, path_timeout=90):
    from . import engine, pyd, symt

    import typing

    res = {
        "case": case.name, "bounds": case.bounds, "paths": 0, "decisions": 0, "undecided": [],
        "violations": [], "unreproduced": [], "known": {}, "replayed": 0, "covered": set(),
        "status": collections.Counter(), "samples": [], "checks": 0,
    }
    eng = engine.Engine(
        max_paths=case.max_paths, deadline=min(deadline, time.monotonic() + case.budget_s)
    )

    def request(inputs):
        return {"module": module, "tier": tier, "case": case.name, "inputs": inputs}

    def try_replay(inputs):
        res["replayed"] += 1
        r = replay.run(request(inputs))
        if r["status"] in (*BAD, "error", "timeout"):
            r2 = replay.run(request(inputs), fresh=True)  # state left by earlier runs is no finding
            return r2
        return r

    def violation(inputs, message, how):
        res["violations"].append({**request(inputs), "message": message, "how": how})
        eng.worklist.clear()

    def on_path(p):
        res["status"][p.status] += 1
        if p.status == "infeasible" and not p.known:
            return
        res["paths"] += 1
        res["decisions"] += p.decisions
        res["checks"] += p.checks
        for kid, msg, inputs in p.known:
            if kid not in res["known"]:
                r = try_replay(inputs)
                if r["status"] == "known" and r["id"] == kid:
                    res["known"][kid] = {"message": msg, "inputs": inputs}
                elif r["status"] in BAD:
                    violation(inputs, r["message"], "replayed known-finding witness")
                else:
                    res["unreproduced"].append(f"known {kid}: {msg} ({r['status']})")
        if p.status == "infeasible":  # all of the path is the known finding
            return
        if p.inputs is None:
            if p.status != "ok" or True:
                res["undecided"].append(f"{p.status}: {p.message}")
            return
        r = try_replay(p.inputs)
        if len(res["samples"]) < 3:
            res["samples"].append({"case": case.name, "inputs": p.inputs, "path": p.status, "replay": r["status"]})
        if r["status"] in BAD:
            sym = "" if p.status == "ok" else f" [symbolic: {p.message}]"
            violation(p.inputs, r["message"] + sym, f"symbolic {p.status}")
        elif p.status == "ok":
            if r["status"] not in ("ok", "known"):
                res["unreproduced"].append(f"ok path: replay {r} inputs {p.inputs}")
        elif p.status in ("violation", "exception"):
            if r["status"] == "known":
                return
            res["unreproduced"].append(f"{p.status}: {p.message} inputs {p.inputs} replay {r['status']}")
        else:
            res["undecided"].append(f"{p.message} inputs {p.inputs}")

    covered = res["covered"]

    def on_alarm(*_):
        raise engine.Unsupported("path time limit")

    signal.signal(signal.SIGALRM, on_alarm)

    def run():
        signal.alarm(path_timeout)
        try:
            case.fn(symt.SymT(covered), **case.params)
        finally:
            signal.alarm(0)

    def before():
        for f in typing._cleanups:
            f()
        pyd.purge_cached()

    t = time.monotonic()
    eng.explore(run, on_path=on_path, before_path=before)
    res["exhausted"] = eng.exhausted
    res["wall"] = time.monotonic() - t
    res["functions"] = dict(eng.functions)
    res["stats"] = vars(eng.stats)
    res["missing_cover"] = sorted(set(case.cover) - covered)
    res["covered"] = sorted(covered)
    return res


def worker(tasks, results, known, deadline, loaded, tier):
    from .case import Known

    Known.listed = frozenset(known)
    replay = Replay(known)
    devnull = os.open(os.devnull, os.O_WRONLY)
    if not os.environ.get("SYMEX_DEBUG"):
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)
    while True:
        try:
            module, name = tasks.get_nowait()
        except queue.Empty:
            break
        results.put(("start", module, name, os.getpid()))
        try:
            case = loaded[module][name]
            r = explore_case(module, tier, case, known, deadline, replay)
        except BaseException:
            r = {"case": name, "error": traceback.format_exc()[-3000:]}
        results.put(("done", module, name, r))
    replay.stop()
    results.put(("exit", None, None, None))


def bootstrap(gcs=False, stand_ins=()):
    """Patch this process so that arti and the harness run symbolically."""
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    import z3  # noqa: F401

    from . import hooks, loader, pyd, stubs  # noqa: F401

    pyd.install()
    loader.install({"arti": ARTI_SRC, "harness": HERE})
    if gcs:
        stubs.install_gcs()
    for name in stand_ins:
        importlib.import_module(f"symex.ext_{name}").install()


def decide(prop, modules, *, only=None, jobs=None, gcs=False, stand_ins=(), prop_budget=None):
    t0 = time.monotonic()
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    known = known_findings(prop)
    budget = prop_budget or (600 if tier == "quick" else 6000)
    deadline = t0 + budget
    bootstrap(gcs, stand_ins)
    loaded = {}
    todo = []
    load_error = None
    for m in modules:
        try:
            mod = importlib.import_module(f"harness.{m}")
            loaded[m] = {c.name: c for c in mod.CASES(tier)}
        except Exception:
            load_error = traceback.format_exc()
            print(f"INCONCLUSIVE property={prop} harness {m} cannot be loaded symbolically")
            print(load_error[-1500:])
            continue
        todo += [(m, n) for n in loaded[m] if only is None or only in n]
    ctx = mp.get_context("fork")
    tasks, results = ctx.Queue(), ctx.Queue()
    for task in todo:
        tasks.put(task)
    time.sleep(0.05)
    n = min(jobs or os.cpu_count() or 8, max(1, len(todo)))
    procs = [
        ctx.Process(target=worker, args=(tasks, results, known, deadline, loaded, tier), daemon=True)
        for _ in range(n)
    ]
    for p in procs:
        p.start()
    done, exited, started = [], 0, {}
    while exited < n and len(done) < len(todo):
        try:
            kind, m, name, r = results.get(timeout=5)
        except queue.Empty:
            if time.monotonic() > deadline + 60 or not any(p.is_alive() for p in procs):
                break
            continue
        if kind == "start":
            started[(m, name)] = r
        elif kind == "done":
            r["module"] = m
            done.append(r)
            if os.environ.get("SYMEX_VERBOSE"):
                show(r)
            if r.get("violations"):
                break
        else:
            exited += 1
    for p in procs:
        p.kill()
    return finish(prop, tier, seed, known, todo, done, t0, load_error)


def show(r):
    if "error" in r:
        print(f"  {r['module']}/{r['case']}: ERROR\n{r['error']}", flush=True)
        return
    print(
        f"  {r['module']}/{r['case']}: {r['wall']:.1f}s paths={r['paths']} {dict(r['status'])}"
        f" checks={r['checks']} q={r['stats']['queries']} replay={r['replayed']}"
        f" exh={r['exhausted']} known={list(r['known'])} miss={r['missing_cover']}",
        flush=True,
    )
    for k in ("undecided", "unreproduced"):
        for x in r[k][:4]:
            print(f"     {k}: {str(x)[:900]}", flush=True)
    for v in r["violations"]:
        print(f"     VIOL {v['how']}: {v['message'][:900]} {v['inputs']}", flush=True)


def finish(prop, tier, seed, known, todo, done, t0, load_error):
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    violations = [v for r in done for v in r.get("violations", [])]
    errors = [r for r in done if "error" in r]
    good = [r for r in done if "error" not in r]
    hit = {}
    for r in good:
        for kid, w in r["known"].items():
            hit.setdefault(kid, {"case": r["case"], **w})
    total = collections.Counter()
    functions = collections.Counter()
    for r in good:
        for k, v in r["stats"].items():
            total[k] += v
        functions.update(r["functions"])
    undecided = [f"{r['case']}: {x}" for r in good for x in r["undecided"]]
    unrep = [f"{r['case']}: {x}" for r in good for x in r["unreproduced"]]
    incomplete = [r["case"] for r in good if not r["exhausted"] and not r["violations"]]
    vacuous = [r["case"] for r in good if not r["violations"] and (r["checks"] == 0 or r["missing_cover"])]
    notrun = len(todo) - len(done)
    out = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "explanation": "states: path classes of the real code explored (each stands for every input"
            " satisfying its path condition); transitions: branch decisions put to the solver on them;"
            " traces_validated_against_impl: path witnesses re-run on the unpatched code.",
            "states": sum(r["paths"] for r in good),
            "transitions": sum(r["decisions"] for r in good),
            "traces_validated_against_impl": sum(r["replayed"] for r in good),
            "samples": [s for r in good for s in r["samples"][:1]][:12],
            "cases": {
                f"{r['module']}/{r['case']}": {
                    "paths": r["paths"], "assertions": r["checks"], "exhausted": r["exhausted"],
                    "wall_s": round(r["wall"], 2), "bounds": r["bounds"], "covered": r["covered"],
                }
                for r in good
            },
            "functions_encoded": dict(sorted(functions.items())),
            "solver_queries": total["queries"],
            "solver_sat": total["sat"],
            "solver_unsat": total["unsat"],
            "solver_unknown": total["unknown"],
            "solver_time_s": round(total["solver_s"], 3),
            "assertions_discharged": total["checks_proved"],
            "assertions_discharged_by_simplification": total["checks_trivial"],
            "paths_undecided": len(undecided),
            "counterexamples_not_reproduced": len(unrep),
            "cases_incomplete": incomplete,
            "cases_vacuous": vacuous,
            "cases_not_run": notrun,
            "harness_errors": [r["error"][-400:] for r in errors],
            "known_findings_confirmed": hit,
            "undecided_samples": undecided[:10],
            "exhaustive": False,
        },
        "assumptions": ASSUMPTIONS,
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": len(violations),
    }
    with open(os.path.join(EVID, f"{prop}.json"), "w") as f:
        json.dump(out, f, indent=1, default=str)
    for kid, w in hit.items():
        print(f"KNOWN-FINDING: property={prop} {kid}: {known[kid]}")
    for what, xs in (("undecided path", undecided), ("counterexample not reproduced", unrep),
                     ("budget ran out in", incomplete), ("vacuous case", vacuous)):
        if xs:
            print(f"INCONCLUSIVE property={prop} {len(xs)} {what}: {str(xs[0])[:600]}")
    for r in errors:
        print(f"INCONCLUSIVE property={prop} harness error in {r['case']}: {r['error'][-600:]}")
    if notrun and not violations:
        print(f"INCONCLUSIVE property={prop} {notrun} cases not run")
    print(
        f"{prop}: {len(good)} cases, {out['coverage']['states']} paths, {total['queries']} queries,"
        f" {total['checks_proved']} assertions, {out['coverage']['traces_validated_against_impl']} replays,"
        f" {out['wall_s']} s"
    )
    for i, v in enumerate(violations):
        path = os.path.join(EVID, "replay", f"{prop}-{i}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, **v}, f, indent=1)
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  case {v['module']}/{v['case']}: {v['message'][:800]}")
        print(f"  inputs: {json.dumps(v['inputs'])[:800]}")
    sys.stdout.flush()
    if violations:
        return 1
    # A run that could not decide a single assertion has no answer.
    return 0 if total["checks_proved"] + total["checks_trivial"] else 2


ASSUMPTIONS = [
    "CPython, pydantic and the C extensions behave as the stand-ins in symex/ model them; every explored"
    " path's witness is re-run on the real ones.",
    "Hash functions (farmhash, sha256, md5, crc32c) are injective and the XOR of distinct 64-bit hashes"
    " never cancels by accident.",
    "Bounds are those listed per case.",
]
