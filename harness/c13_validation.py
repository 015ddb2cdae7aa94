"""C13: outputs that fail validation are never stored or used."""

from __future__ import annotations

from typing import Annotated

import numpy as np

from symex.case import Case

from arti import Artifact, Graph, Producer, StoragePartitions
from arti.backends.memory import MemoryBackend
from arti.formats.json import JSON
from arti.formats.pickle import Pickle
from arti.internal.mappings import frozendict
from arti.producers import PartitionDependencies
from arti.types import Int64

from .builds import KEYED, Place, by_text, read, rows, sorted_rows

LOG = []  # ("build" or "validate", producer, *data)
STORED = []  # what there was in storage at each validation
VERDICT = {}


def reset(t, **verdict):
    LOG.clear()
    STORED.clear()
    VERDICT.clear()
    VERDICT.update({"as": bool, "given": []}, **verdict, t=t)


def judge(name, *outputs):
    """An arbitrary verdict on every validation."""
    t = VERDICT["t"]
    LOG.append(("validate", name, *outputs))
    STORED.append(VERDICT["stored"]())
    n = sum(e[0] == "validate" for e in LOG)
    good = True if VERDICT["pass"] else t.bool(f"{VERDICT['label']}.{n} passes")
    VERDICT["given"].append(good)
    if "message" in VERDICT:
        return VERDICT["as"](good), VERDICT["message"]
    return VERDICT["as"](good), f"{name} is {'fine' if good else 'bad'}"


class Single(Producer):
    a: Artifact

    @staticmethod
    def build(a: int) -> Annotated[int, Artifact]:
        LOG.append(("build", "Single", a))
        return a * 3 + 1

    @staticmethod
    def validate_outputs(x: int) -> tuple[bool, str]:
        return judge("Single", x)


class Pair(Producer):
    a: Artifact

    @staticmethod
    def build(a: int) -> tuple[Annotated[int, Artifact], Annotated[int, Artifact]]:
        LOG.append(("build", "Pair", a))
        return a + 1, a - 1

    @staticmethod
    def validate_outputs(x: int, y: int) -> tuple[bool, str]:
        return judge("Pair", x, y)


class Triple(Producer):
    """Validated by a variadic function."""

    a: Artifact

    @staticmethod
    def build(a: int) -> tuple[Annotated[int, Artifact], Annotated[int, Artifact], Annotated[int, Artifact]]:
        LOG.append(("build", "Triple", a))
        return a, a + 1, a + 2

    @staticmethod
    def validate_outputs(*outputs: int) -> tuple[bool, str]:
        return judge("Triple", *outputs)


class After(Producer):
    a: Artifact
    b: Artifact

    @staticmethod
    def build(a: int, b: int) -> Annotated[int, Artifact]:
        LOG.append(("build", "After", a, b))
        return a * 2 + b


class Each(Producer):
    a: Artifact

    @staticmethod
    def map(a: StoragePartitions) -> PartitionDependencies:
        return PartitionDependencies({s.partition_key: frozendict(a=(s,)) for s in a})

    @staticmethod
    def build(a: Annotated[list, KEYED]) -> Annotated[list, KEYED]:
        LOG.append(("build", "Each", rows(a)))
        return [{"k": x["k"], "v": x["v"] + 1} for x in a]

    @staticmethod
    def validate_outputs(x: list) -> tuple[bool, str]:
        return judge("Each", rows(x))


class Total(Producer):
    a: Artifact

    @staticmethod
    def build(a: Annotated[list, KEYED]) -> Annotated[int, Artifact]:
        LOG.append(("build", "Total", rows(a)))
        return sum([x["v"] for x in a])


KEYS = (1, 2)


def wire(shape, g, p):
    if shape == "parts":
        g.artifacts.q = p.raw("q", keyed=True)
        g.artifacts.x = Each(a=g.artifacts.q).out(p.out(keyed=True))
        g.artifacts.z = Total(a=g.artifacts.x).out(p.out())
        return
    g.artifacts.a = p.raw("a")
    if shape == "single":
        g.artifacts.x = Single(a=g.artifacts.a).out(p.out())
        g.artifacts.z = After(a=g.artifacts.x, b=g.artifacts.a).out(p.out())
    elif shape == "pair":
        g.artifacts.x, g.artifacts.y = Pair(a=g.artifacts.a).out(p.out(), p.out())
        g.artifacts.z = After(a=g.artifacts.x, b=g.artifacts.y).out(p.out())
    elif shape == "triple":
        g.artifacts.w, g.artifacts.x, g.artifacts.y = Triple(a=g.artifacts.a).out(p.out(), p.out(), p.out())
        g.artifacts.z = After(a=g.artifacts.x, b=g.artifacts.y).out(p.out())
    elif shape == "two":  # validated one after the other
        g.artifacts.x = Single(a=g.artifacts.a).out(p.out())
        g.artifacts.y = Single(a=g.artifacts.x).out(p.out())


def outcome(shape, a, parts):
    """The validations in order (partitions in any order), and what every artifact reads in the end."""
    if shape == "parts":
        x = {k: v + 1 for k, v in parts.items()}
        return [("Each", [(k, v)]) for k, v in x.items()], {"x": by_text(x), "z": sum(x.values())}
    if shape == "single":
        x = a * 3 + 1
        return [("Single", x)], {"x": x, "z": x * 2 + a}
    if shape == "pair":
        return [("Pair", a + 1, a - 1)], {"x": a + 1, "y": a - 1, "z": (a + 1) * 2 + a - 1}
    if shape == "triple":
        return [("Triple", a, a + 1, a + 2)], {"w": a, "x": a + 1, "y": a + 2, "z": (a + 1) * 2 + a + 2}
    x = a * 3 + 1
    return [("Single", x), ("Single", x * 3 + 1)], {"x": x, "y": x * 3 + 1}


OUTPUTS = {"single": ("x",), "pair": ("x", "y"), "triple": ("w", "x", "y"), "parts": ("x",), "two": ("x", "y")}


def validation(t, shape, where, format, fresh, verdict=bool, message=False):
    place = Place(t, where, format)
    a, parts = t.int("a"), {}
    if shape == "parts":
        parts = {k: t.int(f"part {k}") for k in KEYS}
        for k in KEYS:
            place.put("q", parts[k], key=k)
    else:
        place.put("a", a)
    backend = MemoryBackend()

    def define():
        with Graph(name="g", backend=backend) as g:
            wire(shape, g, place)
        return g

    g = define()

    def recorded():
        """Output partitions the backend knows of (without looking at the storage again)."""
        c = backend._container
        return sum([len(c.storage_partitions.get(g.artifacts[n].storage, ())) for n in OUTPUTS[shape] + ("z",)
                    if n in g.artifacts])

    def linked(snapshot):
        with backend.connect() as conn:
            return sum([len(conn.read_snapshot_partitions(snapshot, n, g.artifacts[n])) for n in OUTPUTS[shape] + ("z",)
                        if n in g.artifacts])

    raw = len(t.files())

    def stored():
        return len(t.files()) - raw

    width = 1 if shape in ("parts", "two") else len(OUTPUTS[shape])  # outputs of one validation
    checks, values = outcome(shape, a, parts)
    reset(t, stored=stored, label="first", **{"pass": False, "as": verdict},
          **({"message": t.text("message", "a% ", 0, 2)} if message else {}))
    ok, ex = t.accepts(ValueError, g.build)
    seen = [e[1:] for e in LOG if e[0] == "validate"]
    t.check(ok == all(VERDICT["given"]), "the build raises exactly when outputs are rejected")
    t.check(all(VERDICT["given"][:-1]), "the build ends with the first outputs that are rejected")
    good = len(seen) if ok else len(seen) - 1
    kept = good * width  # outputs that passed
    extra = 1 if ok and "z" in values else 0  # and what is made from them
    if shape == "parts":
        for s in seen:
            t.check(any(bool(t.same(s, c)) for c in checks), "validates what was built")
        t.check(len({s[1][0][0] for s in seen}) == len(seen), "every partition once")
    else:
        t.check(t.same(seen, checks[: len(seen)]), "validates what was built, in order")
    for i, n in enumerate(STORED):
        t.check(n == (0 if where == "literal" else i * width), "before anything of it is stored")
    built = [e for e in LOG if e[0] == "build"]
    t.check(recorded() == kept + extra, "exactly the accepted outputs are recorded")
    t.check(stored() == (0 if where == "literal" else kept + extra), "exactly the accepted outputs are stored")
    t.check(linked(g.snapshot()) == kept + extra, "exactly the accepted outputs are used by the snapshot")
    if ok:
        t.check(len(seen) == len(checks), "every partition is validated")
        t.cover("all pass")
        for name, value in values.items():
            t.check(t.same(read(g.snapshot(), name), value), "accepted outputs are stored unchanged")
        return
    t.cover("rejected")
    t.check(t.same(str(ex), VERDICT["message"] if message else f"{seen[-1][0]} is bad"), "the given message")
    t.check(not any(e[1] in ("After", "Total") for e in built), "rejected outputs are not used")
    t.check(len(built) == len(seen), "nothing else is built")
    # The data is looked at again by the next build: rejected again, or accepted now.
    if fresh:
        backend = MemoryBackend()
    g = define()
    reset(t, stored=stored, label="second", **{"pass": True})
    snapshot = g.build()
    again = [e[1:] for e in LOG if e[0] == "validate"]
    t.check(len(again) == len(checks) - good, "only what has not been accepted is built again")
    for name, value in values.items():
        t.check(t.same(read(snapshot, name), value), "accepted in the end")


def CASES(tier):
    for name, verdict in (("numpy", np.bool_), ("number", int)):
        for shape in ("single", "pair", "parts"):
            yield Case(f"{shape}:{name} verdict", validation, dict(shape=shape, where="local", format=JSON, fresh=False, verdict=verdict),
                       bounds=f"{shape} over local as JSON: any raw data, any verdict as a {name}", cover=("all pass", "rejected"))
    for shape in ("single", "pair", "parts"):
        yield Case(f"{shape}:any message", validation, dict(shape=shape, where="local", format=JSON, fresh=False, message=True),
                   bounds=f"{shape} over local as JSON: any raw data and verdicts, messages of up to 2 characters of 'a% '", cover=("all pass", "rejected"))
    for shape in OUTPUTS:
        for where in ("local", "gcs", "literal"):
            for format in (JSON,) if where == "literal" else (JSON, Pickle):
                for fresh in (False,) if where == "literal" else (False, True):
                    yield Case(
                        f"{shape}:{where}:{format.__name__}{':fresh' if fresh else ''}", validation,
                        dict(shape=shape, where=where, format=format, fresh=fresh),
                        bounds=f"{shape} over {where} as {format.__name__}: any raw data, any verdict on every validation",
                        cover=("all pass", "rejected"))
