"""C28: values and producers assigned to a graph become artifacts that hold them."""

from __future__ import annotations

import json
from datetime import date, datetime
from typing import Annotated

from symex.case import Case

from arti import Annotation, Artifact, Graph, Producer, Statistic
from arti.backends.memory import MemoryBackend
from arti.formats.json import JSON
from arti.storage.literal import StringLiteral
from arti.types import Boolean, Float64, Int64, List, Map, Null, String, Type
from arti.views import python as views

from .builds import Inc, Neg, Two, reset, version

REJECTED = (NotImplementedError, ValueError, TypeError)
KINDS = ("int", "text", "float", "bool", "null")
TYPES = {"int": Int64(), "text": String(), "float": Float64(), "bool": Boolean(), "null": Null()}
FLOATS = (0.5, -2.5e-300, 1e22)
TEXTS = ("", "null", "{names}", '"\\', "é\n")


def scalar(t, name, kind):
    if kind == "int":
        return t.int(name, -(2**63), 2**63 - 1)
    if kind == "text":
        return t.text(name, "a1{", 0, 2) if name in ("one", "two") else t.choice(name, TEXTS[-2:])
    if kind == "float":
        return t.choice(name, FLOATS if name in ("one", "two") else FLOATS[:2])
    return t.bool(name) if kind == "bool" else None


def expect(t, artifact, type_, value):
    """A raw artifact with the value as its data."""
    t.check(type(artifact) is Artifact and artifact.producer_output is None, "a raw artifact")
    t.check(artifact.type == type_, "of the type of the value")
    t.check(type(artifact.format) is JSON and type(artifact.storage) is StringLiteral, "a literal")
    t.check(t.same(json.loads(artifact.storage.value), value), "holding the value")


def view_of(value, type_):
    cls = {int: views.Int, str: views.Str, float: views.Float, type(None): views.Null, list: views.List, bool: views.Int}
    kind = bool if isinstance(value, bool) else next(k for k in cls if isinstance(value, k))
    return cls[kind](mode="READ", type=type_)


def given(t, name, shape, kind):
    """(value, what is read, its type)."""
    if shape == "one":
        v = scalar(t, name, kind)
        return v, v, TYPES[kind]
    n = 1 + t.index(f"{name}.n", 2)
    vs = [scalar(t, f"{name}.{i}", kind) for i in range(n)]
    return (vs if shape == "list" else tuple(vs)), vs, List(element=TYPES[kind])


def held(t, shape, kind):
    """A value in a graph: read as it was, with a snapshot of its own."""
    value, want, type_ = given(t, "one", shape, kind)
    other, want2, type2 = given(t, "two", shape, kind)
    expect(t, Artifact.cast(value), type_, want)
    graphs = []
    for v in (value, other):
        with Graph(name="g", backend=MemoryBackend()) as g:
            if t.bool(f"by attribute {len(graphs)}"):
                g.artifacts.x = v
            else:
                g.artifacts["deep.x"] = v
        graphs.append(g)
    snapshots = []
    for g, w, ty in zip(graphs, (want, want2), (type_, type2)):
        (name, artifact), = g.artifacts.walk()
        expect(t, artifact, ty, w)
        view = view_of(w, ty)
        t.check(t.same(g.read(artifact, view=view), w), "read as it was")
        snapshot = g.snapshot()
        t.check(t.same(snapshot.read(artifact, view=view), w), "read as it was")
        t.check(t.same(g.read(artifact, view=view, snapshot=snapshot), w), "read as it was")
        snapshots.append((name, snapshot))
    same = t.both(t.same(snapshots[0][0], snapshots[1][0]), t.same(want, want2))
    t.check(t.iff(snapshots[0][1].id == snapshots[1][1].id, same), "a snapshot for every value")
    t.cover("held")


SAMPLES = {"text": "a", "float": 0.5, "bool": True, "null": None}


def mixed(t, shape, n):
    """Lists and dictionaries of one kind only."""
    kinds = [t.choice(f"kind {i}", KINDS) for i in range(n)]
    vs = [t.int(f"v{i}", -9, 9) if k == "int" else SAMPLES[k] for i, k in enumerate(kinds)]
    if kinds[0] == "int" and "bool" in kinds:
        return  # Python's booleans are numbers
    if shape == "dict":
        value = {f"k{i}": v for i, v in enumerate(vs)}
        type_, want = Map(key=String(), value=TYPES[kinds[0]]), value
    else:
        value = vs if shape == "list" else tuple(vs)
        type_, want = List(element=TYPES[kinds[0]]), vs
    ok, got = t.accepts(REJECTED, Artifact.cast, value)
    t.check(ok == (len(set(kinds)) == 1), "accepted when all are of a kind")
    if ok:
        expect(t, got, type_, want)
        t.cover("accepted")
    else:
        t.cover("rejected")


class Odd:
    pass


def refused(t, n):
    """What has no type, or no place in JSON."""
    x = t.int("x", 0, 3)
    value = t.choice("value", ([], (), {}, set(), frozenset(), b"a", Odd(), Odd, [Odd()], {"a": Odd()}, {1: "a", "b": "c"}, [[]],
                               {frozenset({1})}, 1j, {"a": []}, {"a": {}},
                               date(2020, 1, 2), datetime(2020, 1, 2), [date(2020, 1, 2)], (b"a",), {1}, frozenset({"a"}), {"a": b"b"},
                               {date(2020, 1, 2): 1}, {b"a": 1}, {datetime(2020, 1, 2): "a"}, {(1, 2): 1}, {"a": date(2020, 1, 2)}))
    ok, _ = t.accepts(REJECTED, Artifact.cast, value)
    t.check(not ok, "has no artifact")
    if not isinstance(value, dict):  # these are boxes
        with Graph(name="g") as g:
            g.artifacts.a = x
            ok, _ = t.accepts(REJECTED, g.artifacts.__setitem__, "b", value)
            t.check(not ok, "nor in a graph")
        t.check([k for k, _ in g.artifacts.walk()] == ["a"], "nothing is added")
    for x in TEXTS:
        expect(t, Artifact.cast(x), String(), x)
    t.cover("refused")


class Note(Annotation):
    text: str


class Other(Annotation):
    number: int


class Count(Statistic):
    n: int


class Stored(Artifact):
    """An artifact class with defaults."""

    type: Type = Int64()


class Make(Producer):
    a: Artifact

    @staticmethod
    def build(a: int) -> Annotated[int, Stored]:
        return a + 1


def produced(t, kind):
    """Producers in place of their outputs; artifacts as they are."""
    reset()
    v = t.int("v", -99, 99)
    major = t.int("major", 1, 3)
    with Graph(name="g", backend=MemoryBackend()) as g:
        g.artifacts.a = v
        if kind == "two":
            made = Two(a=g.artifacts.a, version=version(major))
            ok, _ = t.accepts(ValueError, g.artifacts.__setitem__, "x", made)
            t.check(not ok, "which output is meant is not said")
            t.check(not t.accepts(ValueError, Artifact.cast, made)[0], "which output is meant is not said")
            g.artifacts.x, g.artifacts.y = made
            want = {"x": v + 1, "y": v - 1}
        else:
            made = (Make if kind == "own" else Inc)(a=g.artifacts.a, **({} if kind == "own" else {"version": version(major)}))
            t.check(t.same(Artifact.cast(made), made.out()), "the output of the producer")
            if kind == "nested":
                g.artifacts["in.x"] = made
                g.artifacts.y = Neg(a=g.artifacts["in.x"])
                want = {"in.x": v + 1, "y": -(v + 1)}
            else:
                g.artifacts.x = made
                want = {"x": v + 1}
        mine = Stored(storage=StringLiteral(value="7"))
        t.check(Artifact.cast(mine) is mine, "an artifact is itself")
        g.artifacts.mine = mine
    for position, (name, w) in enumerate(want.items()):
        artifact = g.artifacts[name]
        output = artifact.producer_output
        if name != "y" or kind == "two":
            t.check(output is not None and output.producer == made and output.position == (position if kind == "two" else 0), "is the output")
        t.check(type(artifact) is (Stored if kind == "own" else Artifact), "of the class of the output")
        t.check(artifact.type == Int64(), "of the type of the output")
    snapshot = g.build()
    for name, w in want.items():
        t.check(t.same(snapshot.read(g.artifacts[name], annotation=int), w), "built and read")
    t.check(snapshot.read(g.artifacts.mine, annotation=int) == 7, "the artifact given")
    t.check(type(g.artifacts.mine) is Stored, "of its class")
    t.cover("built")


def notes(t, name, what):
    n = t.index(f"{name}.n", 3)
    if what == "statistics":
        return tuple(Count(n=t.int(f"{name}.{i}", 0, 2)) for i in range(n))
    return tuple(Note(text=t.text(f"{name}.{i}", "A ", 1, 1)) if t.bool(f"{name}.{i} is text") else Other(number=t.int(f"{name}.{i}", 0, 1))
                 for i in range(n))


def facts(xs):
    return [(type(x).__name__, x.text if isinstance(x, Note) else x.number if isinstance(x, Other) else x.n) for x in xs]


def annotated(t, what, level):
    """Annotations and statistics: those of the class, then those given."""
    default, more = notes(t, "default", what), notes(t, "given", what)
    hint = tuple[Annotation, ...] if what == "annotations" else tuple[Statistic, ...]
    parent = type("Parent", (Stored,), {"__annotations__": {what: hint}, what: default, "__module__": __name__})
    if level == "own":
        cls = parent
    elif level == "inherited":
        cls = type("Child", (parent,), {"__module__": __name__})
    else:  # a child replaces the defaults of its parent
        parent_default = (Count(n=9),) if what == "statistics" else (Note(text="z"),)
        parent = type("Parent", (Stored,), {"__annotations__": {what: hint}, what: parent_default, "__module__": __name__})
        cls = type("Child", (parent,), {"__annotations__": {what: hint}, what: default, "__module__": __name__})
    how = t.choice("how", ("tuple", "list", "not given"))
    args = {} if how == "not given" else {what: more if how == "tuple" else list(more)}
    want = facts(default) + ([] if how == "not given" else facts(more))
    a = cls(**args)
    for x in (a, a.model_copy(), a.model_copy(update={"format": a.format}), Artifact.cast(a)):
        t.check(t.same(facts(getattr(x, what)), want), "those of the class, then those given")
    other = "statistics" if what == "annotations" else "annotations"
    t.check(getattr(a, other) == (), "and no others")
    with Graph(name="g") as g:
        g.artifacts.a = cls(storage=StringLiteral(value="1"), **args)
        g.artifacts.x = Inc(a=g.artifacts.a)
    t.check(t.same(facts(getattr(g.artifacts.a, what)), want), "the same in a graph")
    for input in next(iter(g.producers)).inputs.values():
        t.check(t.same(facts(getattr(input, what)), want), "and as an input")
    t.check(t.same(facts(getattr(Stored(**args), what)), [] if how == "not given" else facts(more)), "another class has no defaults")
    t.cover("merged")


def CASES(tier):
    deep = tier == "thorough"
    for shape in ("one", "list", "tuple"):
        for kind in KINDS:
            yield Case(f"held:{shape}:{kind}", held, dict(shape=shape, kind=kind),
                       bounds="two values: 64-bit integers, texts of up to 2 characters, listed texts and floats; up to 2 of them in a list",
                       cover=("held",))
    for shape in ("list", "tuple", "dict"):
        for n in (1, 2, 3, 4) if deep else (1, 2, 3):
            yield Case(f"mixed:{shape}:{n}", mixed, dict(shape=shape, n=n), bounds=f"{n} values of any kinds",
                       cover=("accepted", "rejected") if n > 1 else ("accepted",))
    yield Case("refused", refused, dict(n=1), bounds="28 values without a type or place in JSON, listed texts", cover=("refused",))
    for kind in ("one", "own", "nested", "two"):
        yield Case(f"produced:{kind}", produced, dict(kind=kind), bounds="any input and version", cover=("built",))
    for what in ("annotations", "statistics"):
        for level in ("own", "inherited", "replaced"):
            yield Case(f"notes:{what}:{level}", annotated, dict(what=what, level=level), bounds="up to two by the class, up to two given",
                       cover=("merged",))
