"""Graphs whose builds are recorded, over any storage (shared by C10-C13)."""

from __future__ import annotations

import json
from typing import Annotated

from arti import Artifact, Graph, Producer, StoragePartitions
from arti.backends.memory import MemoryBackend
from arti.formats.json import JSON
from arti.formats.pickle import Pickle
from arti.internal.mappings import frozendict
from arti.partitions import NotPartitioned
from arti.producers import PartitionDependencies
from arti.storage.google.cloud.storage import GCSFile
from arti.storage.literal import StringLiteral
from arti.storage.local import LocalFile
from arti.types import Collection, Int64, Struct
from arti.versions import SemVer

ROWS = Struct(fields={"k": Int64(), "v": Int64()})
KEYED = Collection(element=ROWS, partition_by=("k",))

CALLS = []  # (producer name, *inputs) of every build
CODE = {}  # what the code of a producer adds to its result


class Boom(Exception):
    pass


def reset():
    CALLS.clear()
    CODE.clear()


def out(value):
    """An output of a build; one that cannot be stored, if so asked."""
    CODE["outputs"] = CODE.get("outputs", 0) + 1
    if CODE.get("bad at") == CODE["outputs"]:
        return unstorable()
    return value


def unstorable():
    return lambda: 0


def called(name, *args):
    CALLS.append((name, *args))
    if CODE.get("fail at") == len(CALLS):
        raise Boom()
    return CODE.get(name, 0)


class Inc(Producer):
    a: Artifact

    @staticmethod
    def build(a: int) -> Annotated[int, Artifact]:
        return out(a + called("Inc", a) + 1)


class Neg(Producer):
    a: Artifact

    @staticmethod
    def build(a: int) -> Annotated[int, Artifact]:
        return out(called("Neg", a) - a)


class Sum(Producer):
    a: Artifact
    b: Artifact

    @staticmethod
    def build(a: int, b: int) -> Annotated[int, Artifact]:
        return out(a * 10 + b + called("Sum", a, b))


class Two(Producer):
    a: Artifact

    @staticmethod
    def build(a: int) -> tuple[Annotated[int, Artifact], Annotated[int, Artifact]]:
        n = called("Two", a)
        return out(a + n + 1), out(a + n - 1)


def rows(xs):
    return sorted([(x["k"], x["v"]) for x in xs], key=lambda r: r[0])


class Each(Producer):
    """One output partition for each input partition."""

    a: Artifact

    @staticmethod
    def map(a: StoragePartitions) -> PartitionDependencies:
        return PartitionDependencies({s.partition_key: frozendict(a=(s,)) for s in a})

    @staticmethod
    def build(a: Annotated[list, KEYED]) -> Annotated[list, KEYED]:
        n = called("Each", rows(a))
        return [{"k": x["k"], "v": out(x["v"] + n + 1)} for x in a]


class Positive(Producer):
    """Output partitions for the input partitions with a positive key, with a shared second input."""

    a: Artifact
    b: Artifact

    @staticmethod
    def map(a: StoragePartitions, b: StoragePartitions) -> PartitionDependencies:
        return PartitionDependencies(
            {s.partition_key: frozendict(a=(s,), b=b) for s in a if s.partition_key["k"].value > 0})

    @staticmethod
    def build(a: Annotated[list, KEYED], b: int) -> Annotated[list, KEYED]:
        n = called("Positive", rows(a), b)
        return [{"k": x["k"], "v": out(x["v"] + b + n)} for x in a]


class Kept(Producer):
    """Output partitions for the input partitions that a second input, not used in the build, has too."""

    a: Artifact
    b: Artifact

    @staticmethod
    def map(a: StoragePartitions, b: StoragePartitions) -> PartitionDependencies:
        wanted = [s.partition_key for s in b]
        return PartitionDependencies({s.partition_key: frozendict(a=(s,)) for s in a if s.partition_key in wanted})

    @staticmethod
    def build(a: Annotated[list, KEYED]) -> Annotated[list, KEYED]:
        n = called("Kept", rows(a))
        return [{"k": x["k"], "v": out(x["v"] - n)} for x in a]


class Total(Producer):
    a: Artifact

    @staticmethod
    def build(a: Annotated[list, KEYED]) -> Annotated[int, Artifact]:
        n = called("Total", rows(a))
        return out(sum([x["v"] for x in a]) + n)


class Running(Producer):
    """One output partition for each input partition, of all the inputs up to it."""

    a: Artifact

    @staticmethod
    def map(a: StoragePartitions) -> PartitionDependencies:
        return PartitionDependencies({
            s.partition_key: frozendict(a=tuple([o for o in a if o.partition_key["k"].value <= s.partition_key["k"].value]))
            for s in a})

    @staticmethod
    def build(a: Annotated[list, KEYED]) -> Annotated[list, KEYED]:
        n = called("Running", rows(a))
        return [{"k": max([x["k"] for x in a]), "v": out(sum([x["v"] for x in a]) + n)}]


class Last(Producer):
    """One output, of the last partition only."""

    a: Artifact

    @staticmethod
    def map(a: StoragePartitions) -> PartitionDependencies:
        last = max([s.partition_key["k"].value for s in a])
        return PartitionDependencies({NotPartitioned: frozendict(a=tuple([s for s in a if s.partition_key["k"].value == last]))})

    @staticmethod
    def build(a: Annotated[list, KEYED]) -> Annotated[int, Artifact]:
        n = called("Last", rows(a))
        return out(sum([x["v"] for x in a]) - n)


class Spread(Producer):
    """One output partition for each partition of an input that is not used, all of the same inputs."""

    a: Artifact
    b: Artifact

    @staticmethod
    def map(a: StoragePartitions, b: StoragePartitions) -> PartitionDependencies:
        return PartitionDependencies({s.partition_key: frozendict(a=a) for s in b})

    @staticmethod
    def build(a: int) -> Annotated[list, KEYED]:
        return [{"k": 0, "v": out(a + called("Spread", a))}]


class Place:
    """Where the data is."""

    def __init__(self, t, kind, format=JSON):
        self.t, self.kind, self.format = t, kind, format
        self.pick = False

    def raw(self, name, keyed=False):
        """A raw artifact; on files, as literals have no data to begin with."""
        rel = f"raw/{name}/" + ("{k.value}" if keyed else "value")
        storage = (GCSFile(bucket=self.t.bucket, path=rel) if self.kind == "gcs"
                   else LocalFile(path=self.t.root + "/" + rel))
        return Artifact(type=KEYED if keyed else Int64(), format=JSON(), storage=storage)

    def out(self, keyed=False):
        tail = "{names}/" + ("{k.value}/" if keyed else "") + "{input_fingerprint}"
        storage = (StringLiteral(id=tail) if self.kind == "literal"
                   else GCSFile(bucket=self.t.bucket, path="out/" + tail) if self.kind == "gcs"
                   else LocalFile(path=self.t.root + "/out/" + tail))
        return Artifact(type=KEYED if keyed else Int64(), format=self.format(), storage=storage)

    def put(self, name, value, key=None):
        """Write raw data (a number, or the rows of a partition)."""
        text = json.dumps(value if key is None else [{"k": key, "v": value}])
        rel = f"raw/{name}/{'value' if key is None else key}"
        if self.kind == "gcs":
            self.t.gcs_write(rel, text)
        else:
            self.t.write(self.t.root + "/" + rel, text)

    def drop(self, name, key=None):
        rel = f"raw/{name}/{'value' if key is None else key}"
        if self.kind == "gcs":
            self.t.gcs_remove(rel)
        else:
            self.t.remove(self.t.root + "/" + rel)

    def drop_outputs(self, pick):
        """Remove the stored outputs for which pick(path) is true."""


def version(major):
    return SemVer(major=major, minor=0, patch=0)


SHAPES = {}


def shape(f):
    """f(g, place, v) fills the graph in, v is the producers' version by name."""
    SHAPES[f.__name__] = f
    return f


@shape
def chain(g, p, v):
    g.artifacts.a = p.raw("a")
    g.artifacts.x = Inc(a=g.artifacts.a, version=v("Inc")).out(p.out())
    g.artifacts.y = Neg(a=g.artifacts.x, version=v("Neg")).out(p.out())


@shape
def inputs(g, p, v):
    g.artifacts.a, g.artifacts.b = p.raw("a"), p.raw("b")
    g.artifacts.x = Sum(a=g.artifacts.a, b=g.artifacts.b, version=v("Sum")).out(p.out())


@shape
def diamond(g, p, v):
    g.artifacts.a = p.raw("a")
    g.artifacts.x = Inc(a=g.artifacts.a, version=v("Inc")).out(p.out())
    g.artifacts.y = Neg(a=g.artifacts.a, version=v("Neg")).out(p.out())
    g.artifacts.z = Sum(a=g.artifacts.x, b=g.artifacts.y, version=v("Sum")).out(p.out())


@shape
def outputs(g, p, v):
    g.artifacts.a = p.raw("a")
    g.artifacts.x, g.artifacts.y = Two(a=g.artifacts.a, version=v("Two")).out(p.out(), p.out())
    g.artifacts.z = Sum(a=g.artifacts.x, b=g.artifacts.y, version=v("Sum")).out(p.out())


@shape
def second(g, p, v):
    """Only the second output is used."""
    g.artifacts.a = p.raw("a")
    _, g.artifacts.y = Two(a=g.artifacts.a, version=v("Two")).out(p.out(), p.out())


@shape
def widen(g, p, v):
    """Only the second output is used, until both are."""
    g.artifacts.a = p.raw("a")
    x, g.artifacts.y = Two(a=g.artifacts.a, version=v("Two")).out(p.out(), p.out())
    if p.pick:
        g.artifacts.x = x


@shape
def twice(g, p, v):
    """One producer's output under two names."""
    g.artifacts.a = p.raw("a")
    made = Inc(a=g.artifacts.a, version=v("Inc"))
    g.artifacts.x, g.artifacts.y = made.out(p.out()), made.out(p.out())


@shape
def parts(g, p, v):
    g.artifacts.q = p.raw("q", keyed=True)
    g.artifacts.x = Each(a=g.artifacts.q, version=v("Each")).out(p.out(keyed=True))
    g.artifacts.y = Total(a=g.artifacts.x, version=v("Total")).out(p.out())


@shape
def some(g, p, v):
    """Not every partition is mapped, maybe none."""
    g.artifacts.q, g.artifacts.b = p.raw("q", keyed=True), p.raw("b")
    g.artifacts.x = Positive(a=g.artifacts.q, b=g.artifacts.b, version=v("Positive")).out(p.out(keyed=True))


@shape
def guard(g, p, v):
    """An input that only decides which partitions there are."""
    g.artifacts.q, g.artifacts.b = p.raw("q", keyed=True), p.raw("b")
    g.artifacts.i = Inc(a=g.artifacts.b, version=v("Inc")).out(p.out())
    g.artifacts.x = Positive(a=g.artifacts.q, b=g.artifacts.i, version=v("Positive")).out(p.out(keyed=True))
    g.artifacts.y = Kept(a=g.artifacts.q, b=g.artifacts.x, version=v("Kept")).out(p.out(keyed=True))


@shape
def either(g, p, v):
    """The producer of an artifact is exchanged for another one."""
    g.artifacts.a = p.raw("a")
    made = Neg(a=g.artifacts.a, version=v("Neg")) if p.pick else Inc(a=g.artifacts.a, version=v("Inc"))
    g.artifacts.x = made.out(p.out())


@shape
def nested(g, p, v):
    """The artifacts, in boxes, are walked in another order than they depend on each other."""
    g.artifacts.z.a = p.raw("a")
    g.artifacts.b.x = Inc(a=g.artifacts.z.a, version=v("Inc")).out(p.out())
    g.artifacts.z.y = Neg(a=g.artifacts.b.x, version=v("Neg")).out(p.out())


@shape
def running(g, p, v):
    """Outputs of some of the partitions of an input."""
    g.artifacts.q = p.raw("q", keyed=True)
    g.artifacts.x = Running(a=g.artifacts.q, version=v("Running")).out(p.out(keyed=True))
    g.artifacts.y = Last(a=g.artifacts.x, version=v("Last")).out(p.out())


@shape
def spread(g, p, v):
    """Partitions of equal inputs."""
    g.artifacts.q, g.artifacts.b = p.raw("q", keyed=True), p.raw("b")
    g.artifacts.x = Spread(a=g.artifacts.b, b=g.artifacts.q, version=v("Spread")).out(p.out(keyed=True))
    g.artifacts.y = Total(a=g.artifacts.x, version=v("Total")).out(p.out())


USES = {"running": ("Running", "Last"), "spread": ("Spread", "Total"), "nested": ("Inc", "Neg"), "widen": ("Two",), "either": ("Inc", "Neg"), "chain": ("Inc", "Neg"), "inputs": ("Sum",), "diamond": ("Inc", "Neg", "Sum"), "outputs": ("Two", "Sum"),
        "second": ("Two",), "twice": ("Inc",), "parts": ("Each", "Total"), "some": ("Positive",), "guard": ("Inc", "Positive", "Kept")}
RAW = {"running": (), "spread": ("b",), "nested": ("a",), "widen": ("a",), "either": ("a",), "chain": ("a",), "inputs": ("a", "b"), "diamond": ("a",), "outputs": ("a",), "second": ("a",), "twice": ("a",),
       "parts": (), "some": ("b",), "guard": ("b",)}
KEYS = {"running": (1, 2), "spread": (1, 2), "parts": (1, 2), "some": (-1, 2), "guard": (-1, 2)}


def define(name, place, majors, backend):
    with Graph(name="g", backend=backend) as g:
        SHAPES[name](g, place, lambda n: version(majors[n]))
    return g


def expected(name, raw, parts, code, pick=False):
    """What every artifact reads, by name, and the builds it takes: (producer, inputs...), dependencies first."""
    c = lambda n: code[n]
    a, b = raw.get("a"), raw.get("b")
    if name == "chain":
        x = a + 1 + c("Inc")
        return {"x": x, "y": c("Neg") - x}, [("Inc", a), ("Neg", x)]
    if name == "nested":
        x = a + 1 + c("Inc")
        return {"b.x": x, "z.y": c("Neg") - x}, [("Inc", a), ("Neg", x)]
    if name == "inputs":
        return {"x": a * 10 + b + c("Sum")}, [("Sum", a, b)]
    if name == "diamond":
        x, y = a + 1 + c("Inc"), c("Neg") - a
        return {"x": x, "y": y, "z": x * 10 + y + c("Sum")}, [("Inc", a), ("Neg", a), ("Sum", x, y)]
    if name == "outputs":
        x, y = a + c("Two") + 1, a + c("Two") - 1
        return {"x": x, "y": y, "z": x * 10 + y + c("Sum")}, [("Two", a), ("Sum", x, y)]
    if name == "second":
        return {"y": a + c("Two") - 1}, [("Two", a)]
    if name == "widen":
        x, y = a + c("Two") + 1, a + c("Two") - 1
        return {"x": x, "y": y} if pick else {"y": y}, [("Two", a)]
    if name == "twice":
        return {"x": a + 1 + c("Inc"), "y": a + 1 + c("Inc")}, [("Inc", a)]
    if name == "either":
        return ({"x": c("Neg") - a}, [("Neg", a)]) if pick else ({"x": a + 1 + c("Inc")}, [("Inc", a)])
    if name == "parts":
        x = {k: v + 1 + c("Each") for k, v in parts.items()}
        return ({"x": by_text(x), "y": sum(x.values()) + c("Total")},
                [("Each", [(k, v)]) for k, v in parts.items()] + [("Total", sorted_rows(x))])
    if name == "some":
        used = {k: v for k, v in parts.items() if k > 0}
        return ({"x": by_text({k: v + b + c("Positive") for k, v in used.items()})},
                [("Positive", [(k, v)], b) for k, v in used.items()])
    if name == "guard":
        i = b + 1 + c("Inc")
        used = {k: v for k, v in parts.items() if k > 0}
        return ({"i": i, "x": by_text({k: v + i + c("Positive") for k, v in used.items()}),
                 "y": by_text({k: v - c("Kept") for k, v in used.items()})},
                [("Inc", b), *(("Positive", [(k, v)], i) for k, v in used.items()),
                 *(("Kept", [(k, v)]) for k, v in used.items())])
    if name == "running":
        x = {k: sum([v for o, v in parts.items() if o <= k]) + c("Running") for k in parts}
        return ({"x": by_text(x), "y": x[max(x)] - c("Last")},
                [("Running", [(o, v) for o, v in sorted_rows(parts) if o <= k]) for k in parts] + [("Last", [(max(x), x[max(x)])])])
    if name == "spread":
        x = b + c("Spread")
        return {"y": len(parts) * x + c("Total")}, [*([("Spread", b)] * len(parts)), ("Total", [(0, x)] * len(parts))]
    raise AssertionError(name)


AFTER = {"Neg": ("Inc",), "Sum": ("Inc", "Neg", "Two"), "Total": ("Each", "Spread"), "Last": ("Running",), "Positive": ("Inc",), "Kept": ("Inc", "Positive")}  # within a shape


def sorted_rows(parts):
    return [(k, parts[k]) for k in sorted(parts)]


def by_text(parts):
    """The order of partitions is not defined."""
    return {str(k): parts[k] for k in sorted(parts)}


def read(source, name):
    """An artifact's value; {key: value} if it is partitioned, {} without partitions."""
    artifact = source.artifacts[name]
    if not isinstance(artifact.type, Collection):
        return source.read(artifact, annotation=int)
    try:
        got = source.read(artifact, annotation=Annotated[list, KEYED])
    except FileNotFoundError:
        return {}
    out = {}
    for row in got:
        assert row["k"] not in out, "partition read twice"
        out[row["k"]] = row["v"]
    return by_text(out)
