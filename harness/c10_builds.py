"""C10: an incremental build always equals a build from scratch; C11: it builds nothing but what is needed.

A history is a number of builds of one graph with arbitrary raw data, partitions, producer versions and,
for files, an arbitrary choice of a fresh backend (another process) in between.
"""

from __future__ import annotations

import itertools

from symex.case import Case

from arti.backends.memory import MemoryBackend
from arti.executors.local import LocalExecutor

from . import builds
from .builds import CALLS, CODE, KEYS, RAW, USES, Place, define, expected, read, reset


class History:
    def __init__(self, t, shape, where, format=None):
        self.t, self.shape = t, shape
        self.place = Place(t, where, format) if format else Place(t, where)
        self.backend = MemoryBackend()
        # Usually one per build, but it may be used for several.
        self.executor = LocalExecutor() if where == "local" else None
        self.where, self.graph, self.picked = where, None, None
        self.there = {}
        self.taken = []  # (snapshot, what it reads)

    def data(self, n):
        """Arbitrary raw data."""
        t, shape = self.t, self.shape
        raw = {name: t.int(f"{n}.{name}") for name in RAW[shape]}
        parts = {k: t.int(f"{n}.{k}") for k in KEYS.get(shape, ()) if t.bool(f"{n}.has {k}")}
        if KEYS.get(shape):
            t.assume(bool(parts))  # otherwise there is no snapshot, see C09
        return raw, parts

    def define(self, n, changes, fresh, data=None, pick=None):
        """The graph with other data; `changes` names the producers whose version may differ."""
        t, shape, place = self.t, self.shape, self.place
        raw, parts = data or self.data(n)
        majors = {name: t.int(f"{n}.{name}.major", 1, 9) if name in changes else 1 for name in USES[shape]}
        if fresh:
            self.backend = MemoryBackend()
            self.executor = self.executor and LocalExecutor()
        if pick is None:
            pick = shape in ("either", "widen") and t.bool(f"{n}.pick")
        place.pick = pick
        for name, v in raw.items():
            place.put(name, v)
        for k in KEYS.get(shape, ()):
            if k in parts:
                place.put("q", parts[k], key=k)
            elif k in self.there:
                place.drop("q", key=k)
        self.there = parts
        reset()
        CODE.update(majors)
        self.values, self.needed = expected(shape, raw, parts, majors, place.pick)
        self.needed = [(majors[c[0]], c) for c in self.needed]
        same = not fresh and (place.pick, (), self.where) == (self.picked, changes, "local")
        self.picked = place.pick if not changes else None
        if not same:  # otherwise, the graph object is used again
            self.graph = define(shape, place, majors, self.backend)
        return self.graph

    def step(self, *args, **kwargs):
        """One more build."""
        self.taken.append((self.define(*args, **kwargs).build(self.executor), self.values))
        return self.needed

    def check_reads(self):
        for i, (snapshot, want) in enumerate(self.taken):
            which = "the latest" if i == len(self.taken) - 1 else "an earlier"
            for name, value in want.items():
                got = read(snapshot, name)
                self.t.check(self.t.same(got, value), f"{name} of {which} snapshot is what its inputs give")


def reads(t, shape, where, changes, fresh):
    h = History(t, shape, where)
    for n, names in enumerate(changes):
        h.step(n, names, fresh[n])
        h.check_reads()
    t.cover("all read")


def plans(tier, shape, where):
    """(producers whose version may change in each build, whether it has a fresh backend)."""
    uses = USES[shape]
    if tier == "quick":
        if shape == "guard" and where != "local":
            return
        if shape in ("running", "spread") and where == "gcs":
            return
        changes = [((), (x,)) for x in uses if shape != "guard" or x != "Positive"]
        if shape in ("chain", "second") and where != "gcs":
            changes.append(((), (), ()))
        if shape == "parts" and where == "local":
            changes.append(((), ()))
    else:
        changes = [((), uses, uses)]
    for c in changes:
        for f in itertools.product(*((False, True) for _ in c[1:])):
            if where != "literal" or not any(f):
                yield c, (False, *f)


def cases(tier, fn, cover, shapes=tuple(builds.SHAPES)):
    for shape in sorted(shapes, key=lambda s: s not in KEYS):  # the long ones first
        for where in ("gcs", "local", "literal"):
            for changes, fresh in plans(tier, shape, where):
                label = "+".join(("/".join(c) or "-") + "*" * f for c, f in zip(changes, fresh))
                yield Case(
                    f"{shape}:{where}:{label}", fn, dict(shape=shape, where=where, changes=changes, fresh=fresh),
                    bounds=f"{len(changes)} builds of {shape} over {where}, any raw data"
                           + (f", any subset of partitions {KEYS[shape]}" if shape in KEYS else "")
                           + f", any versions of {label} (* with a fresh backend)",
                    cover=(cover,), budget_s=240 if tier == "quick" else 500)


def CASES(tier):
    return list(cases(tier, reads, "all read"))
