"""C12: an interrupted build can be re-run and ends as if never interrupted."""

from __future__ import annotations

import itertools
import pickle

from symex.case import Case

from arti.formats.json import JSON
from arti.formats.pickle import Pickle

from . import builds
from .builds import CALLS, CODE, KEYS, USES, Boom, expected, read
from .c10_builds import History

FILES = {"nested": 2, "chain": 2, "inputs": 1, "diamond": 3, "outputs": 3, "second": 1, "twice": 2, "widen": 2, "either": 1,
         "parts": 3, "some": 2, "guard": 5, "running": 3, "spread": 3}
BUILDS = {**FILES, "outputs": 2, "twice": 1, "widen": 1}
STEPS = {"local": 6, "gcs": 2}  # file-system stages for each file
UNSTORABLE = (TypeError, ValueError, AttributeError, pickle.PicklingError)


def interrupt(t, h, n, graph, how):
    """Build, up to an arbitrary point; whether it was interrupted."""
    if how == "crash":
        with t.crash(f"{n}.crash", FILES[h.shape] * STEPS[h.place.kind]) as died:
            graph.build(h.executor)
        return bool(died)
    if how == "error":
        CODE["fail at"] = t.int(f"{n}.fail at", 1, BUILDS[h.shape] + 1)
        return not t.accepts(Boom, graph.build, h.executor)[0]
    CODE["bad at"] = t.int(f"{n}.bad at", 1, FILES[h.shape] + 1)
    return not t.accepts(UNSTORABLE, graph.build, h.executor)[0]


def interrupted(t, shape, where, format, how, fresh, before):
    h = History(t, shape, where, format)
    if before:
        h.step("before", (), False, pick=False)
    again = h.data("data")
    for n, hit in enumerate(how):
        graph = h.define(n, (), fresh and n > 0, data=again, pick=True)
        if interrupt(t, h, n, graph, hit):
            t.cover("interrupted")
        else:
            t.cover("not interrupted")
    h.step("again", (), fresh, data=again, pick=True)
    h.check_reads()
    # Whatever is stored is complete.
    h.step("after", (), where != "literal", data=again, pick=True)
    t.check(not CALLS, "everything is built")
    h.check_reads()


def varying(t, shape, where, how, fresh):
    """The outputs of one producer are of one build, even if it gives others each time (such as the time)."""
    h = History(t, shape, where)
    data = h.data("data")
    graph = h.define(0, (), False, data=data, pick=how != "widened")
    if how == "widened":
        graph.build(h.executor)
    else:
        t.cover("interrupted" if interrupt(t, h, 0, graph, how) else "not interrupted")
    graph = h.define(1, (), fresh, data=data, pick=True)
    code = {name: 1 for name in USES[shape]}
    other = {name: t.int(f"other {name}") for name in code}
    CODE.update(other)
    snapshot = graph.build(h.executor)
    code.update({c[0]: other[c[0]] for c in CALLS})
    raw, parts = data
    for name, value in expected(shape, raw, parts, code, True)[0].items():
        t.check(t.same(read(snapshot, name), value), f"{name} is what was built last")
    if CALLS:
        t.cover("built again")


def CASES(tier):
    for shape in ("outputs", "twice", "widen", "chain"):
        for where in ("local", "gcs", "literal"):
            for how in ("crash", "bad") + ("widened",) * (shape == "widen"):
                for fresh in (False, True):
                    if where == "literal" and (how == "crash" or fresh):
                        continue
                    yield Case(f"varying:{shape}:{where}:{how}{'*' * fresh}", varying,
                               dict(shape=shape, where=where, how=how, fresh=fresh), cover=("built again",),
                               bounds=f"build of {shape} over {where}, {how} at any point, then built again by producers that give any "
                                      f"other outputs, with {'a fresh' if fresh else 'the same'} backend", budget_s=240)
    quick = tier == "quick"
    for shape in builds.SHAPES:
        if shape in ("either", "second", "inputs", "guard", "nested") and quick:
            continue
        for where, format in itertools.product(("gcs", "local", "literal"), (JSON, Pickle)):
            if where == "literal" and format is Pickle:
                continue
            for how in ("crash", "error", "bad"):
                if where == "literal" and how == "crash":
                    continue
                if quick and format is Pickle and how == "error":
                    continue
                for fresh in (False, True)[: 1 if where == "literal" else 2]:
                    hows = [(how,)] if quick else [(how,), ("crash" if where != "literal" else "error", how)]
                    for hs in hows:
                        for before in ((shape == "widen",) if quick or shape in KEYS or len(hs) > 1 else (False, True)):
                            label = "+".join(hs)
                            yield Case(
                                f"{shape}:{where}:{format.__name__}:{label}{'*' if fresh else ''}{':later' if before else ''}",
                                interrupted,
                                dict(shape=shape, where=where, format=format, how=hs, fresh=fresh, before=before),
                                bounds=f"build of {shape} over {where} as {format.__name__} with any raw data"
                                       f"{', after another build' if before else ''}, interrupted by a {label} at any point, "
                                       f"then run again with {'a fresh' if fresh else 'the same'} backend, then once more with a fresh one",
                                cover=("interrupted",), budget_s=240 if quick else 400)
