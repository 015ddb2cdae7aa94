"""C31: models accept exactly well-typed, complete input and never change."""

from __future__ import annotations

from collections.abc import Mapping
from datetime import date, datetime
from typing import Annotated, Any, ClassVar, Literal

from pydantic import Field, create_model
from symex.case import Case

from arti import Annotation, Artifact, Backend, Executor, Format, Graph, PartitionField, PartitionKey, Producer, Storage, Version
from arti.executors.local import LocalExecutor
from arti.fingerprints import SkipFingerprint
from arti.formats.json import JSON
from arti.internal.mappings import FrozenMapping, frozendict
from arti.internal.models import Model
from arti.partitions import Int64Field
from arti.storage.literal import StringLiteral
from arti.storage.local import LocalFile, LocalFilePartition
from arti.types import DateTime, Int32, Int64, List, Map, String, Struct, Type
from arti.versions import SemVer


class Base(Model):
    _abstract_: ClassVar[bool] = True


class Leaf(Base):
    i: int = 1


class Deep(Leaf):
    j: Annotated[int, SkipFingerprint()] = 2


class Other(Base):
    s: str


class Again(Leaf):
    _abstract_: ClassVar[bool] = True


class Last(Again):
    pass


class Two(Model):
    a: int
    b: str = "x"


class Bad(Model):
    a: int
    b: int = "x"  # type: ignore[assignment]


class MyInt(int):
    pass


class MyText(str):
    pass


HINTS = {
    "int": int,
    "str": str,
    "bool": bool,
    "float": float,
    "bytes": bytes,
    "date": date,
    "datetime": datetime,
    "maybe int": int | None,
    "int or text": int | str,
    "tuple": tuple[int, ...],
    "pair": tuple[int, str],
    "frozenset": frozenset[int],
    "mapping": FrozenMapping[str, int],
    "frozendict": frozendict[str, int],
    "tuples": FrozenMapping[str, tuple[int, ...]],
    "base": Base,
    "leaf": Leaf,
    "maybe base": Base | None,
    "bases": tuple[Base, ...],
    "class": type[Base],
    "literal": Literal["a", "b"],
    "any": Any,
    "at least": Annotated[int, Field(ge=0)],
}
HOLDERS = {name: create_model(f"H{n}", __base__=Model, f=(hint, ...)) for n, (name, hint) in enumerate(HINTS.items())}
i = lambda t, n="i": t.int(n, -99, 99)
s = lambda t, n="s": t.text(n, "aB ", 0, 2)
# Kinds of values; what has each of the hints.
VALUES = {
    "int": (i, "int maybe/int float int/or/text any at/least"),
    "my int": (lambda t: MyInt(5), "int maybe/int float int/or/text any at/least"),
    "bool": (lambda t: t.choice("b", (False, True)), "bool any"),
    "text": (s, "str int/or/text literal any"),
    "my text": (lambda t: MyText("c"), "str int/or/text any"),
    "float": (lambda t: t.choice("x", (0.5, 2.0)), "float any"),
    "none": (lambda t: None, "maybe/int maybe/base any"),
    "bytes": (lambda t: t.choice("y", (b"", b"7")), "bytes any"),
    "date": (lambda t: t.date("d"), "date any"),
    "datetime": (lambda t: datetime(2020, 2, 29), "datetime any"),
    "digits": (lambda t: "7", "str int/or/text any"),
    "iso": (lambda t: "2020-01-01", "str int/or/text any"),
    "tuple": (lambda t: (i(t), 5), "tuple any"),
    "empty tuple": (lambda t: (), "tuple bases any"),
    "pair": (lambda t: (i(t), s(t)), "pair any"),
    "list": (lambda t: [i(t)], ""),
    "set": (lambda t: {5}, ""),
    "frozenset": (lambda t: frozenset({i(t)}), "frozenset any"),
    "dict": (lambda t: {"a": i(t)}, "mapping frozendict"),
    "frozendict": (lambda t: frozendict({"a": i(t)}), "mapping frozendict any"),
    "dict of tuples": (lambda t: {"a": (i(t),)}, "tuples"),
    "dict of lists": (lambda t: {"a": [i(t)]}, ""),
    "dict of texts": (lambda t: {"a": s(t)}, ""),
    "dict by number": (lambda t: {1: i(t)}, ""),
    "empty dict": (lambda t: {}, "mapping frozendict tuples leaf"),
    "leaf": (lambda t: Leaf(i=i(t)), "base leaf maybe/base any"),
    "deep": (lambda t: Deep(i=i(t), j=i(t, "j")), "base leaf maybe/base any"),
    "other": (lambda t: Other(s=s(t)), "base maybe/base any"),
    "stranger": (lambda t: Int64(), "any"),
    "models": (lambda t: (Leaf(i=i(t)), Other(s=s(t))), "bases any"),
    "fields": (lambda t: {"i": i(t)}, "mapping frozendict leaf"),
    "class": (lambda t: t.choice("c", (Leaf, Other, Base)), "class any"),
    "other class": (lambda t: Int64, "any"),
    "nested list": (lambda t: (1, [2]), ""),
}
SPLIT = {name: {h.replace("/", " ") for h in hints.split()} for name, (_, hints) in VALUES.items()}


def listed(x):
    """Content to compare: converted containers by their entries."""
    return list(x.items()) if isinstance(x, Mapping) else x


def field(t, hint):
    """A field is given a value of any kind."""
    kind = t.choice("kind", tuple(VALUES))
    if (hint, kind) == ("float", "int"):
        value = 7  # floats are never symbolic
    elif (hint, kind) == ("literal", "text"):
        value = t.choice("s", ("", "a", "b", "c"))
    else:
        value = VALUES[kind][0](t)
    fits = hint in SPLIT[kind]
    if hint == "literal" and kind == "text":
        fits = value in ("a", "b")
    if hint == "at least" and kind == "int":
        fits = value >= 0
    cls = HOLDERS[hint]
    given = dict(value) if type(value) is dict else value
    ok, m = t.accepts((ValueError, TypeError), lambda: cls(f=given))
    t.check(t.iff(ok, fits), "accepted exactly when the value has the hint")
    if not ok:
        t.cover("rejected")
        return
    t.cover("accepted")
    got = m.f
    if hint == "leaf" and isinstance(value, dict):  # a model's fields stand for it
        value = given = Leaf(**value)
        t.check(type(got) is Leaf and got == value, "made of its fields")
        value = got
    t.check(t.same(listed(got), listed(value)) if hint != "float" and kind not in ("my int", "my text") else got == value, "holds the value")
    if isinstance(value, Mapping):
        t.check(type(got) is frozendict, "frozen")
    if isinstance(value, Model):
        t.check(got is value, "the very model")
    elif hint != "any" and kind != "class":
        t.check(type(got) in (float if hint == "float" else int if kind == "my int" else str if kind == "my text" else type(got),), "of the plain class")
    # It never changes.
    for change in (lambda: setattr(m, "f", value), lambda: setattr(m, "g", 1), lambda: delattr(m, "f")):
        t.check(not t.accepts((ValueError, AttributeError, TypeError), change)[0], "it can't be changed")
    if type(given) is dict:
        given["more"] = 1
    t.check(t.same(listed(m.f), listed(got)) and (not isinstance(got, Mapping) or len(got) == len(value)), "nor through what was given")
    t.check(m == cls(f=value), "equal to another one of the same content")


def complete(t):
    """Exactly the fields there are, without default or given."""
    fields = {}
    a, b = t.int("a", -9, 9), t.text("b", "xy", 0, 1)
    if t.bool("has a"):
        fields["a"] = a
    if t.bool("has b"):
        fields["b"] = b
    extra = t.choice("extra", (None, "c", "A", "_c", "fingerprint", "_arti_type_"))
    if extra:
        fields[extra] = 1
    swapped = t.bool("swapped")
    ok, m = t.accepts((ValueError, TypeError), lambda: Two(**(dict(reversed(fields.items())) if swapped else fields)))
    t.check(ok == ("a" in fields and extra is None), "exactly with its fields")
    if ok:
        t.check(t.same((m.a, m.b), (a, b if "b" in fields else "x")), "holds what was given, or the default")
        t.check(m.model_fields_set == set(fields), "knows what was given")
        t.check(repr(m) == (f"Two(a={a!r}, b={b!r})" if "b" in fields and not swapped else f"Two(a={a!r})" if "b" not in fields else repr(m)), "shows what was given")
        t.check(str(m) == repr(m), "shows what was given")
        t.cover("accepted")
    else:
        t.cover("rejected")
    t.check(not t.accepts(ValueError, lambda: Bad(a=a))[0], "defaults have to fit, too")
    t.check(t.accepts(ValueError, lambda: Bad(a=a, b=5))[0], "unless given")


ABSTRACT = {Model: {}, Base: {}, Again: {}, Leaf: {}, Deep: {}, Last: {}, Other: {"s": "x"}, Type: {}, Annotation: {},
            Format: {}, Version: {}, PartitionField: {}, Producer: {}, Storage: {}, Storage[LocalFilePartition]: {}, Backend: {}, Executor: {},
            Int64: {}, JSON: {}, SemVer: {"major": 1, "minor": 0, "patch": 0}, Int64Field: {"value": 1}, StringLiteral: {"id": "x"}, LocalExecutor: {}}
MADE = (Leaf, Deep, Last, Other, Int64, JSON, SemVer, Int64Field, StringLiteral, LocalExecutor)

GIVEN = {"i": 2, "j": 3, "description": "d", "nullable": True}


def abstract(t):
    """Only models that are not abstract themselves."""
    cls = t.choice("class", tuple(ABSTRACT))
    fields = dict(ABSTRACT[cls])
    for name in sorted(cls.model_fields):
        if name not in fields and name in GIVEN and t.bool(f"give {name}"):
            fields[name] = GIVEN[name]
    how = t.choice("how", (lambda: cls(**fields), lambda: cls.model_validate(fields), lambda: cls.model_construct(**fields)))
    ok, m = t.accepts((TypeError, ValueError, AttributeError), how)
    t.check(ok == (cls in MADE), "made unless abstract")
    t.cover("made" if ok else "rejected")


def equal(t):
    """Models are equal exactly when their class and content are, and hash alike then."""
    t.model_hashes()

    def make(n):
        which = t.index(f"{n}.which", 8)
        k = t.int(f"{n}.i", -9, 9)
        w = t.text(f"{n}.s", "A ", 0, 1)
        return (which, (k, w)), [
            lambda: Leaf(i=k),
            lambda: Deep(i=k, j=3),
            lambda: Other(s=w),
            lambda: Last(i=k),
            lambda: Struct(name=w, fields={"a": List(element=Int64()), "b": Int32()}),
            lambda: Struct(name=w, fields={"a": List(element=Int64()), "b": Int64()}),
            lambda: Two(a=k, b=w),
            lambda: HOLDERS["maybe base"](f=Leaf(i=k)),
        ][which]()

    (u, (k, w)), x = make("x")
    (v, (l, z)), y = make("y")
    same = t.both(u == v, *([k == l] if u in (0, 1, 3, 6, 7) else []), *([w == z] if u in (2, 4, 5, 6) else []))
    t.check(t.iff(x == y, same), "equal exactly when class and content are")
    t.check(t.iff(x != y, t.no(same)), "or else not equal")
    t.check(t.implies(same, t.hash(x) == t.hash(y)), "equal ones hash alike")
    t.check(t.both(t.no(x == k), t.no(x == w), x != None), "nor to other things")  # noqa: E711
    t.cover("compared")


REAL = {
    "artifact": (lambda t: Artifact(type=Int64(), format=JSON(), storage=StringLiteral(value=s(t))),
                 {"type": Int32(), "format": None, "annotations": (), "producer_output": None, "storage": LocalFile(path="/x")}),
    "type": (lambda t: DateTime(precision="second", description=s(t), nullable=True), {"precision": "millisecond", "nullable": False}),
    "struct": (lambda t: Struct(name=s(t), fields={"a": Int64()}), {"fields": {}, "name": "x"}),
    "map": (lambda t: Map(key=String(), value=Int64()), {"key": Int64()}),
    "version": (lambda t: SemVer(major=i(t), minor=0, patch=0), {"major": 2, "minor": 1}),
    "storage": (lambda t: LocalFile(path="/a" + s(t)), {"path": "/b"}),
    "partition": (lambda t: LocalFile(path="/a" + s(t))._visit_type(Int64()).generate_partition(), {"path": "/b", "input_fingerprint": None}),
    "field": (lambda t: Int64Field(value=i(t)), {"value": 5}),
    "graph": (lambda t: Graph(name="g" + s(t)), {"name": "h", "backend": None, "path_tags": {}}),
}


def frozen(t, kind):
    """The models there are can't be changed either."""
    make, fields = REAL[kind]
    m = make(t)
    name = t.choice("field", tuple(fields))
    before = m.fingerprint if t.bool("used") else None
    had = getattr(m, name)
    for change in (lambda: setattr(m, name, fields[name]), lambda: delattr(m, name), lambda: setattr(m, "other", 1)):
        t.check(not t.accepts((ValueError, AttributeError, TypeError), change)[0], "it can't be changed")
    t.check(getattr(m, name) is had, "it has not changed")
    t.check(before is None or m.fingerprint == before, "it has not changed")
    for inner in (getattr(m, "fields", None), PartitionKey(a=Int64Field(value=1))):
        if inner is not None:
            t.check(not t.accepts((TypeError, AttributeError), lambda: inner.__setitem__("a", 1))[0], "nor what it holds")
    t.cover("frozen")


def CASES(tier):
    for hint in HINTS:
        yield Case(f"field:{hint}", field, dict(hint=hint), bounds=f"any value of {len(VALUES)} kinds", cover=("accepted", "rejected"))
    yield Case("complete", complete, bounds="any subset of two fields, any of 5 others", cover=("accepted", "rejected"))
    yield Case("abstract", abstract, bounds=f"{len(ABSTRACT)} classes", cover=("made", "rejected"))
    yield Case("equal", equal, bounds="any two of eight models, any content", cover=("compared",))
    for kind in REAL:
        yield Case(f"frozen:{kind}", frozen, dict(kind=kind), bounds="any content, any field", cover=("frozen",))
