"""C30: copies and pickles equal the original and keep working."""

from __future__ import annotations

import copy
import json
import pickle
from typing import Annotated, Any

from symex.case import Case

from arti import Annotation, Artifact, Fingerprint, Graph, InputFingerprints, PartitionKey, Statistic
from arti.backends.memory import MemoryBackend
from arti.formats.json import JSON
from arti.internal.mappings import FrozenMapping, TypedBox, frozendict
from arti.internal.models import Model
from arti.partitions import DateField, Int64Field
from arti.storage import StoragePartitionSnapshot
from arti.storage.literal import StringLiteral
from arti.storage.local import LocalFile
from arti.types import Collection, Enum, Int64, List, Map, String, Struct
from arti.versions import SemVer
from arti.versions import String as Text
from arti.views import python as views

from .builds import Inc, Neg, reset, version

PROCESS = [0]


class Salted:
    """Like a text: what it hashes to depends on the process (and here on nothing else)."""

    def __init__(self, value):
        self.value = value

    def __eq__(self, other):
        return isinstance(other, Salted) and self.value == other.value

    def __hash__(self):
        return 31 * PROCESS[0]


class Note(Annotation):
    text: str


class Fact(Statistic):
    n: int


class Notes(Model):
    """A model of its own, with private state."""

    notes: FrozenMapping[str, Any]
    more: Annotated[tuple[Any, ...], "more"] = ()


class NoteBox(TypedBox[Note]):
    pass


HOW = {
    "copy": copy.copy,
    "deepcopy": copy.deepcopy,
    "model_copy": lambda x: x.model_copy(),
    "deep model_copy": lambda x: x.model_copy(deep=True),
    "pickle": lambda x: pickle.loads(pickle.dumps(x)),
}
TEXT = "A "


def arbitrary(t, kind):
    """Something of this kind; a function for another one, equal or not."""
    i = lambda n: t.int(n, -99, 99)
    s = lambda n: t.text(n, TEXT, 0, 1)
    if kind == "frozendict":
        return frozendict({s("k"): i("v"), i("l"): frozendict(x=s("w"))})
    if kind == "key":
        return PartitionKey(a=Int64Field(value=i("v")), d=DateField(value=t.date("d")))
    if kind == "fingerprints":
        return InputFingerprints({PartitionKey(a=Int64Field(value=i("v"))): Fingerprint.from_int(i("f")), PartitionKey(): Fingerprint.from_int(7)})
    if kind == "type":
        return Collection(name=s("n"), partition_by=("a",), cluster_by=("b",),
                          element=Struct(name=s("m"), fields={"a": Int64(nullable=t.bool("null")), "b": String(description=s("about")),
                                                               "c": Map(key=String(), value=List(element=Int64()))}))
    if kind == "enum":
        return Enum(name=s("n"), type=Int64(), items={i("x"), 200})
    if kind == "version":
        return SemVer(major=i("major"), minor=i("minor"), patch=1)
    if kind == "storage":
        return LocalFile(path=t.root + "/" + s("p") + "x/{input_fingerprint}")
    if kind == "artifact":
        return Artifact(type=Int64(), format=JSON(), storage=StringLiteral(value=s("v")), annotations=(Note(text=s("a")),), statistics=(Fact(n=i("f")),))
    if kind == "producer":
        return Inc(a=arbitrary(t, "artifact"), version=version(i("major")), annotations=(Note(text=s("b")),))
    if kind == "produced":
        return arbitrary(t, "producer").out(Artifact(type=Int64(), format=JSON(), storage=StringLiteral(id="x/{input_fingerprint}")))
    if kind == "partition":
        return snapshot_of(t, i("f"))
    if kind == "view":
        return views.Int(mode=t.choice("mode", ("READ", "WRITE", "READWRITE")), type=Int64(description=s("about")))
    if kind == "model":
        return Notes(notes={s("k"): i("v")}, more=(i("w"), s("u")))
    raise AssertionError(kind)


def snapshot_of(t, fp):
    return StoragePartitionSnapshot(
        content_fingerprint=Fingerprint.from_int(fp),
        storage_partition=LocalFile(path=t.root + "/x/{input_fingerprint}")._visit_type(Int64()).generate_partition(input_fingerprint=Fingerprint.from_int(fp)))


KINDS = ("frozendict", "key", "fingerprints", "type", "enum", "version", "storage", "artifact", "producer", "produced", "partition", "view", "model")
MAPPINGS = ("frozendict", "key", "fingerprints")


def values(t, kind, how):
    """Equal in every respect, and usable in place of the original."""
    hashes = t.bool("hashes")
    if hashes:
        t.model_hashes()
    x = arbitrary(t, kind)
    if isinstance(x, Model) and t.bool("used"):
        assert x.fingerprint is not None and str(x)
    y = HOW[how](x)
    t.check(type(y) is type(x), "of the same class")
    t.check(t.same(y, x) if kind in MAPPINGS else y == x, "equal")
    t.check(t.hash(y) == t.hash(x), "of the same hash")
    t.check(hashes or {x: 1}.get(y) == 1, "found in place of the original")
    if isinstance(x, Model):
        t.check(y.fingerprint == x.fingerprint, "of the same fingerprint")
        t.check(y.model_fields_set == x.model_fields_set, "with the same fields given")
        for name in x.model_fields:
            t.check(type(getattr(y, name)) is type(getattr(x, name)), "fields of the same class")
        ok, _ = t.accepts(ValueError, setattr, y, next(iter(x.model_fields)), None)
        t.check(not ok, "as immutable")
    else:
        t.check([type(v) for v in y.values()] == [type(v) for v in x.values()], "values of the same class")
        t.check(t.same(list(y), list(x)), "in the same order")
        t.check(hashes or t.same(y | {}, x), "it merges")
        ok, _ = t.accepts(TypeError, lambda: y.__setitem__("a", 1)) if hasattr(y, "__setitem__") else (False, None)
        t.check(not ok, "as immutable")
    t.cover("copied")


def updated(t, kind, deep):
    """With other values for some fields: as if made of them."""
    v, w = t.int("v", -9, 9), t.int("w", -9, 9)
    if kind == "artifact":
        make = lambda v: Artifact(type=Int64(), format=JSON(), storage=StringLiteral(value=str(v)))
        update = lambda v: {"storage": make(v).storage}
    elif kind == "version":
        make = lambda v: Text(value=str(v))
        update = lambda v: {"value": str(v)}
    else:
        make = lambda v: Struct(name="s", fields={"a": Enum(type=Int64(), items={v, 50})})
        update = lambda v: {"fields": make(v).fields}
    x = make(v)
    if t.bool("used"):
        assert x.fingerprint is not None
    y = x.model_copy(update=update(w), deep=deep)
    t.check(y == make(w) and y.fingerprint == make(w).fingerprint, "as if made of the new values")
    t.check(x == make(v) and x.fingerprint == make(v).fingerprint, "the original is as before")
    t.check(t.iff(x == y, v == w), "equal only if the values are")
    t.cover("copied")


def elsewhere(t, how):
    """In another process, texts have other hashes."""
    PROCESS[0] = 0
    v, w = t.int("v", -9, 9), t.int("w", -9, 9)
    make = {
        "frozendict": lambda: frozendict({"a": Salted(v), "b": 1}),
        "key": lambda: frozendict({Salted(v): w}),
        "nested": lambda: frozendict({"a": frozendict({"b": Salted(v)})}),
        "model": lambda: Notes(notes={"a": Salted(v)}, more=(Salted(w),)),
    }[how]
    x = make()
    assert hash(x) is not None
    data = pickle.dumps(x)
    try:
        PROCESS[0] = t.choice("process", (1, 2, 3))
        y, z = pickle.loads(data), make()
        t.check(y == z, "equal")
        t.check(t.hash(y) == t.hash(z), "of the hash it has there")
        t.check(z in {y}, "found in place of one made there")
    finally:
        PROCESS[0] = 0
    t.cover("copied")


def boxes(t, how):
    """Boxes keep their contents and state; deep copies share neither."""
    a, b, c = (Note(text=t.text(n, TEXT, 0, 1)) for n in "abc")
    box = NoteBox({"x": a, "n": {"y": b}})
    sealed = t.bool("sealed")
    if sealed:
        box._status.root = "closed"
    dup = HOW[how](box)
    t.check(type(dup) is NoteBox and type(dup.n) is NoteBox, "boxes")
    t.check(t.same([*dup.walk()], [*box.walk()]) and dup == box, "of the same contents")
    t.check(dup._status == box._status, "of the same state")
    t.check(dup._status is dup.n._status, "which it shares with its nested boxes")
    path = t.choice("path", ("z", "n.z", "m.n.z"))
    ok, _ = t.accepts((ValueError, LookupError), dup.__setitem__, path, c)
    t.check(ok == (not sealed), "frozen when sealed")
    if how == "copy":
        t.check(dup._status is box._status, "the state is that of the original")
    else:
        t.check((path in box) is False, "the original is not changed")
        if ok:
            t.check(t.same([*box.walk()], [("x", a), ("n.y", b)]), "the original is not changed")
            t.check(dup[path] == c and len([*dup.walk()]) == 3, "stored")
        # Sealing (or opening) one does not affect the other.
        dup._status.root = "open" if sealed else "closed"
        t.check(box._status == ("closed" if sealed else "open"), "of its own state")
        t.check(box.n._status == box._status and dup.n._status == dup._status, "of its own state")
        ok, _ = t.accepts(ValueError, dup.n.__setitem__, "w", c)
        t.check(ok == sealed, "of its own state")
        ok, _ = t.accepts(ValueError, box.n.__setitem__, "w", c)
        t.check(ok == (not sealed), "of its own state")
    t.cover("sealed" if sealed else "open")


def graphs(t, how, built):
    """A graph's copy is defined, reads and builds as the original."""
    reset()
    t.model_hashes()
    with Graph(name="g", backend=MemoryBackend(), path_tags={"k": "v"}) as g:
        g.artifacts.a = Artifact(type=Int64(), format=JSON(), storage=LocalFile(path=t.root + "/a"))
        g.artifacts.n.x = Inc(a=g.artifacts.a, version=version(t.int("major", 1, 9))).out(
            Artifact(type=Int64(), format=JSON(), storage=LocalFile(path=t.root + "/{names}/{input_fingerprint}")))
        g.artifacts.n.m.w = 3
        g.artifacts.y = Neg(a=g.artifacts.n.x, version=version(2)).out(
            Artifact(type=Int64(), format=JSON(), storage=LocalFile(path=t.root + "/y/{input_fingerprint}")))
    v = t.int("v", -9, 9)
    t.write(t.root + "/a", json.dumps(v))
    if built:
        snapshot = g.build()
        want = g.read(g.artifacts.y, annotation=int)
        again = HOW[how](snapshot)
        t.check(again.id == snapshot.id and again.fingerprint == snapshot.fingerprint and again.name == "g", "the same snapshot")
        t.check(again == snapshot and t.hash(again) == t.hash(snapshot), "an equal one")
        t.check(t.same(again.read(again.artifacts.y, annotation=int), want), "which reads the same")
    if t.bool("used"):
        assert g.dependencies and g.fingerprint is not None and g.producers
    h = HOW[how](g)
    t.check(type(h) is Graph and type(h.artifacts) is type(g.artifacts), "a graph")
    t.check(h == g and t.hash(h) == t.hash(g), "an equal one")
    t.check(h.fingerprint == g.fingerprint and h.name == g.name and h.path_tags == g.path_tags, "of the same fingerprint")
    t.check(t.same([*h.artifacts.walk()], [*g.artifacts.walk()]), "of the same artifacts")
    t.check(h.artifact_to_key == g.artifact_to_key and h.dependencies == g.dependencies, "of the same dependencies")
    t.check(h.producer_outputs == g.producer_outputs and h.producers == g.producers, "of the same producers")
    for path in ("z", "n.z"):
        t.check(not t.accepts(ValueError, h.artifacts.__setitem__, path, 1)[0], "frozen")
    built_there = h.build()
    got = h.read(h.artifacts.y, annotation=int)
    t.check(h.read(h.artifacts.n.x, annotation=int) == built_there.read(h.artifacts.n.x, annotation=int), "reads what it builds")
    if not built:
        snapshot = g.snapshot() if how in ("copy", "model_copy") else g.build()
        want = g.read(g.artifacts.y, annotation=int)
    t.check(built_there.id == snapshot.id, "the same snapshot")
    t.check(t.same(got, want), "and data")
    if how not in ("copy", "model_copy"):
        # What becomes of one does not affect the other.
        path = t.choice("path", ("more", "n.more", "n.m.more", "o.m.more"))
        tail = LocalFile(path=t.root + "/{graph_name}/{path_tags}/{names}/{name}")
        if t.bool("default path"):
            tail = LocalFile()
        with h:
            h.artifacts[path] = Artifact(type=Int64(), format=JSON(), storage=tail)
        t.check(path not in g.artifacts and path in h.artifacts, "extended on its own")
        t.check(g.fingerprint == snapshot.graph.fingerprint and h.fingerprint != g.fingerprint, "extended on its own")
        with g:
            g.artifacts[path] = Artifact(type=Int64(), format=JSON(), storage=tail)
        t.check(t.same([*g.artifacts.walk()], [*h.artifacts.walk()]) and g == h, "as the original is")
        t.check(g.fingerprint == h.fingerprint, "as the original is")
        t.check(not t.accepts(ValueError, g.artifacts.__setitem__, "z", 1)[0], "the original is frozen")
    t.cover("copied")


def CASES(tier):
    for kind in KINDS:
        for how in HOW:
            if "model_copy" in how and kind in MAPPINGS:
                continue
            yield Case(f"{kind}:{how}", values, dict(kind=kind, how=how), bounds="any contents (texts of up to 1 character), used before or not", cover=("copied",))
    for kind in ("artifact", "version", "type"):
        for deep in (False, True):
            yield Case(f"updated:{kind}{':deep' if deep else ''}", updated, dict(kind=kind, deep=deep), bounds="any two values of a field", cover=("copied",))
    for how in ("frozendict", "key", "nested", "model"):
        yield Case(f"elsewhere:{how}", elsewhere, dict(how=how), bounds="any values, any hashes of them in another process", cover=("copied",))
    for how in ("copy", "deepcopy", "pickle"):
        yield Case(f"boxes:{how}", boxes, dict(how=how), bounds="a box of two levels, any values, sealed or not", cover=("sealed", "open"))
    for how in HOW:
        for built in (False, True):
            yield Case(f"graphs:{how}:{'built' if built else 'defined'}", graphs, dict(how=how, built=built),
                       bounds="a graph of four artifacts, any data and version", cover=("copied",))
