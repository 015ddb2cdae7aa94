"""C16: a sealed graph reports exactly the dependencies that were defined."""

from __future__ import annotations

import itertools
from concurrent.futures import ThreadPoolExecutor
from typing import Annotated

import arti
from symex.case import Case

from arti import Artifact, Graph, PartitionKey, Producer, StoragePartitions
from arti.formats.json import JSON
from arti.internal.mappings import frozendict
from arti.producers import PartitionDependencies
from arti.storage.local import LocalFile
from arti.types import Int64
from harness.builds import Boom, Inc, Neg, Sum, Two, version



class Gate(Producer):
    """The second input is only for the map."""

    a: Artifact
    b: Artifact

    @staticmethod
    def map(a: StoragePartitions, b: StoragePartitions) -> PartitionDependencies:
        return PartitionDependencies({PartitionKey(): frozendict(a=a)} if b else {})

    @staticmethod
    def build(a: int) -> Annotated[int, Artifact]:
        return a


KINDS = {"Inc": (Inc, 1, 1), "Neg": (Neg, 1, 1), "Sum": (Sum, 2, 1), "Two": (Two, 1, 2), "Gate": (Gate, 2, 1)}
ERRORS = (ValueError,)


def raw(t, name):
    return Artifact(type=Int64(), format=JSON(), storage=LocalFile(path=t.root + "/raw/" + name))


def out(t):
    return Artifact(type=Int64(), format=JSON(), storage=LocalFile(path=t.root + "/{names}/{input_fingerprint}"))


class Wiring:
    """A definition step by step, with everything it defined."""

    def __init__(self, t, raws, kinds):
        self.t, self.raws, self.kinds = t, raws, kinds
        self.names = []
        self.made = {}  # name -> (group, position)
        self.groups = []  # (producer, kind, names of inputs), equal producers once

    def start(self, g):
        for i in range(self.raws):
            g.artifacts[f"r{i}"] = raw(self.t, f"r{i}")
            self.names.append(f"r{i}")

    def step(self, g, n):
        t, kind = self.t, self.kinds[n]
        cls, takes, gives = KINDS[kind]
        inputs = [self.names[t.index(f"in{n}{i}", len(self.names))] for i in range(takes)]
        major = 1 + t.index(f"version{n}", 2)
        args = {a: g.artifacts[name] for a, name in zip("ab", inputs)}
        made = cls(**args, version=version(major))
        outs = made.out(*(out(t) for _ in range(gives)))
        outs = outs if gives > 1 else (outs,)
        group = self.group(made, kind, inputs, major)
        use = t.choice(f"use{n}", [(0, 1), (1, 0), (1,), (0,)]) if gives > 1 else (0,)
        for position in use:
            # The names do not sort like the positions or the steps.
            name = f"p{9 - n}.o{position}" if gives > 1 else f"p{9 - n}"
            g.artifacts[name] = outs[position]
            self.names.append(name)
            self.made[name] = (group, position)

    def group(self, made, kind, inputs, major):
        for i, (_, k, names, m) in enumerate(self.groups):
            if k == kind and names == inputs and m == major:
                return i
        self.groups.append((made, kind, inputs, major))
        return len(self.groups) - 1

    def check(self, g, when):
        t = self.t
        a = {name: g.artifacts[name] for name in self.names}
        t.check([k for k, _ in g.artifacts.walk()].__len__() == len(self.names), f"{when}: each name is walked once")
        t.check(len(g.artifact_to_key) == len(a), f"{when}: as many artifacts as names")
        for name, artifact in a.items():
            t.check(g.artifact_to_key[artifact] == name, f"{when}: an artifact has the name it was assigned")
            output = artifact.producer_output
            if name in self.made:
                group, position = self.made[name]
                t.check(output is not None and output.producer == self.groups[group][0] and output.position == position,
                        f"{when}: an artifact is the output of its producer")
            else:
                t.check(output is None, f"{when}: a raw artifact has no producer")
        deps = g.dependencies
        used = sorted({group for group, _ in self.made.values()})
        t.check(len(deps) == len(a) + len(used), f"{when}: the dependencies of every artifact and producer, and no other")
        for name, artifact in a.items():
            want = {self.groups[self.made[name][0]][0]} if name in self.made else set()
            t.check(artifact in deps and deps[artifact] == want, f"{when}: an artifact depends on its producer")
        t.check(g.producers == {self.groups[i][0] for i in used} and len(g.producers) == len(used),
                f"{when}: the producers in use")
        t.check(len(g.producer_outputs) == len(used), f"{when}: the outputs of every producer")
        for i in used:
            producer, _, inputs, _ = self.groups[i]
            t.check(deps[producer] == {a[n] for n in inputs}, f"{when}: a producer depends on its inputs")
            mine = {n: p for n, (group, p) in self.made.items() if group == i}
            got = [g.artifact_to_key[x] for x in g.producer_outputs[producer]]
            t.check(sorted(got) == sorted(mine) and [mine[n] for n in got] == sorted(mine.values()),
                    f"{when}: a producer's outputs in order")


def wired(t, raws, kinds):
    w = Wiring(t, raws, kinds)
    cut = t.index("cut", len(kinds) + 1)  # steps before the graph is closed and opened again
    use = t.bool("used in between") if cut < len(kinds) else False
    g = Graph(name="g")
    with g:
        w.start(g)
        for n in range(cut):
            w.step(g, n)
    t.check(arti.context.graph is None, "closing leaves no graph open")
    if cut < len(kinds):
        if use:
            w.check(g, "first")
            before = g.fingerprint
        with g:
            for n in range(cut, len(kinds)):
                w.step(g, n)
        t.cover("extended")
        if use:
            t.check(g.fingerprint != before, "an extended graph has another fingerprint")
    w.check(g, "sealed")
    t.cover("shared" if len(w.groups) < len(kinds) else "sealed")


def opened(t, again, n):
    """While a graph is being defined, it cannot be used."""
    other = Graph(name="other")
    for k in range(2):
        t.write(f"{t.root}/raw/r{k}", "1")
    g = Graph(name="g")
    if again:
        with g:
            g.artifacts.r0 = raw(t, "r0")
        if t.bool("used in between"):
            g.dependencies, g.producers, g.producer_outputs, g.fingerprint
            t.check(g.read(g.artifacts.r0, annotation=int) == 1, "a closed graph can be read")
    how = t.index("how", 9)
    with g:
        if not again:
            g.artifacts.r0 = raw(t, "r0")
        if t.bool("more"):
            g.artifacts.r1 = raw(t, "r1")
            g.artifacts.x = Inc(a=g.artifacts.r1).out(out(t))
        if how == 0:
            t.check(t.raises(ERRORS, lambda: g.build()), "no build while open")
        elif how == 1:
            t.check(t.raises(ERRORS, lambda: g.snapshot()), "no snapshot while open")
        elif how == 2:
            t.check(t.raises(ERRORS, lambda: g.read(g.artifacts.r0, annotation=int)), "no read while open")
        elif how == 3:
            t.check(t.raises(ERRORS, lambda: g.write(n, artifact=g.artifacts.r0)), "no write while open")
        elif how == 4:
            t.check(t.raises(ERRORS, lambda: g.dependencies), "no dependencies while open")
        elif how == 5:
            t.check(t.raises(ERRORS, lambda: g.producers), "no producers while open")
        elif how == 6:
            t.check(t.raises(ERRORS, lambda: g.producer_outputs), "no producer outputs while open")
        elif how == 7:
            t.check(t.raises(ERRORS, lambda: other.__enter__()), "no other graph while open")
        else:
            t.check(t.raises(ERRORS, lambda: g.__enter__()), "not opened twice")
        t.check(arti.context.graph is g, "a refusal leaves the graph open")
        g.artifacts.last = raw(t, "r1")
    t.check(arti.context.graph is None, "closing leaves no graph open")
    t.check(t.read(t.root + "/raw/r0") == "1", "a refused write writes nothing")
    t.check(g.read(g.artifacts.r0, annotation=int) == 1, "a closed graph can be read")
    t.check(t.raises((ValueError, AttributeError), lambda: setattr(g.artifacts, "late", raw(t, "r1"))),
            "a sealed graph takes no artifacts")
    with other:
        other.artifacts.a = raw(t, "r0")
    t.check(other.read(other.artifacts.a, annotation=int) == 1, "another graph can be opened")
    t.cover("refused")


class Failure(BaseException):
    pass


def failed(t, again, n):
    """An error in a definition leaves no graph open."""
    error = t.choice("error", [Boom, KeyError, Failure])
    at = t.index("at", 3)
    g = Graph(name="g")
    if again:
        with g:
            g.artifacts.r0 = raw(t, "r0")
        g.dependencies
    raised = False
    try:
        with g:
            if at == 0:
                raise error()
            g.artifacts.r1 = raw(t, "r1")
            if at == 1:
                raise error()
            g.artifacts.x = Inc(a=g.artifacts.r1).out(out(t))
            raise error()
    except error:
        raised = True
    t.check(raised, "the error is not lost")
    t.check(arti.context.graph is None, "an error leaves no graph open")
    other = Graph(name="other")
    with other:
        other.artifacts.r0 = raw(t, "r0")
        other.artifacts.x = Inc(a=other.artifacts.r0).out(out(t))
    t.check(len(other.dependencies) == 3 and len(other.producers) == 1, "another graph can be defined")
    # The graph itself holds what was assigned before the error.
    want = (["r0"] if again else []) + ["r1"] * (at > 0) + ["x"] * (at > 1)
    t.check(sorted(g.artifact_to_key.values()) == want, "what was assigned is kept")
    t.check(len(g.dependencies) == len(want) + (at > 1), "the dependencies of what was assigned")
    t.cover("failed")


def threads(t, deps):
    """Graphs defined in two threads at once, in any order of their steps."""
    graphs = [Graph(name=f"g{i}") for i in range(2)]
    made = [{}, {}]

    def program(i):
        g, mine = graphs[i], made[i]

        def first():
            t.check(arti.context.graph is None, "no other thread's graph is open here")
            g.__enter__()

        def assign():
            t.check(arti.context.graph is g, "the graph opened in this thread")
            g.artifacts.r = Artifact(type=Int64(), format=JSON(), storage=LocalFile(path=t.root + "/{graph_name}/{names}"))
            mine["r"] = g.artifacts.r

        def produce():
            t.raises(ValueError, Graph(name="more").__enter__)
            g.artifacts.x = Inc(a=g.artifacts.r).out(Artifact(
                type=Int64(), format=JSON(), storage=LocalFile(path=t.root + "/{graph_name}/{names}/{input_fingerprint}")))
            mine["x"] = g.artifacts.x

        def last():
            g.__exit__(None, None, None)
            t.check(arti.context.graph is None, "closed")
        return [first, assign, produce, last]

    left = [program(0), program(1)]
    with ThreadPoolExecutor(1) as one, ThreadPoolExecutor(1) as two:
        step = 0
        while left[0] or left[1]:
            i = 1 if not left[0] else 0 if not left[1] else int(bool(t.bool(f"step {step} in the second")))
            (one, two)[i].submit(left[i].pop(0)).result()
            t.check(arti.context.graph is None, "none is open in this thread")
            step += 1
    for i, g in enumerate(graphs):
        t.check(g.artifact_to_key == {made[i]["r"]: "r", made[i]["x"]: "x"}, "each graph has its own artifacts")
        t.check(made[i]["r"].storage.path == f"{t.root}/g{i}/r", "in its own place")
        t.check(made[i]["x"].storage.path.startswith(f"{t.root}/g{i}/x/"), "in its own place")
        t.check(len(g.dependencies) == 3 and len(g.producers) == 1, "its own dependencies")
    t.cover("defined")


def CASES(tier):
    combos = [(1, k) for k in (("Inc",), ("Two",), ("Sum",), ("Inc", "Sum"), ("Two", "Sum"), ("Inc", "Inc"), ("Sum", "Two"), ("Two", "Two"))]
    combos += [(1, ("Gate",)), (1, ("Inc", "Gate")), (1, ("Gate", "Neg")), (2, ("Sum", "Neg")), (1, ("Inc", "Neg", "Sum")), (2, ("Sum", "Two"))]
    if tier == "thorough":
        combos += [(2, k) for k in itertools.product(("Inc", "Sum", "Two"), repeat=2)]
        combos += [(1, k) for k in (("Inc", "Inc", "Inc"), ("Two", "Sum", "Neg"), ("Two", "Two", "Inc"), ("Sum", "Sum", "Inc"))]
    for raws, kinds in dict.fromkeys(combos):
        yield Case(f"wired:{raws}:{'-'.join(kinds)}", wired, dict(raws=raws, kinds=kinds),
                   bounds=f"{raws} raw artifacts and {len(kinds)} producers with any inputs, outputs, versions and opened again at any point",
                   cover=("extended", "sealed"))
    yield Case("threads", threads, dict(deps=True), bounds="two graphs of two artifacts defined in two threads, any order of their steps",
               cover=("defined",))
    for again in (False, True):
        yield Case(f"open:{'again' if again else 'first'}", opened, dict(again=again, n=4),
                   bounds="every operation on a graph of up to four artifacts being defined", cover=("refused",))
        yield Case(f"failed:{'again' if again else 'first'}", failed, dict(again=again, n=4),
                   bounds="an error after any assignment", cover=("failed",))
