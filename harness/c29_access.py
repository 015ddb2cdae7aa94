"""C29: reads and writes through a graph only use views that fit, and exactly the data meant."""

from __future__ import annotations

import json
from datetime import date, datetime
from typing import Annotated, Any, get_args, get_origin

from symex.case import Case

from arti import Artifact, Fingerprint, Graph, PartitionKey
from arti.backends.memory import MemoryBackend
from arti.formats.json import JSON
from arti.formats.pickle import Pickle
from arti.partitions import Int64Field
from arti.storage.literal import StringLiteral
from arti.storage.local import LocalFile
from arti.types import Boolean, Date, Float64, Int64, List, Map, String, Timestamp
from arti.views import python as views

from .builds import KEYED, Each, Inc, reset, version

US = Timestamp(precision="microsecond")
# name -> (type, its hint, data)
KINDS = {
    "int": (Int64(), int, lambda t, n: t.int(n, -99, 99)),
    "text": (String(), str, lambda t, n: t.text(n, "A ", 0, 2)),
    "float": (Float64(), float, lambda t, n: t.choice(n, (0.5, -1e300))),
    "date": (Date(), date, lambda t, n: t.date(n)),
    "datetime": (US, datetime, lambda t, n: t.choice(n, (datetime(2020, 2, 29, 1, 2, 3, 4), datetime(1, 1, 1)))),
    "bool": (Boolean(), bool, lambda t, n: t.bool(n)),
    "ints": (List(element=Int64()), list[int], lambda t, n: [t.int(f"{n}.{i}", -9, 9) for i in range(t.index(f"{n}.n", 2))]),
    "texts": (List(element=String()), list[str], lambda t, n: [t.text(n, "A ", 0, 1)]),
    "bools": (List(element=Boolean()), list[bool], lambda t, n: [t.bool(n)]),
    "map": (Map(key=String(), value=Int64()), dict[str, int], lambda t, n: {"k": t.int(n, -9, 9)}),
}
JSON_KINDS = ("int", "text", "float", "bool", "ints", "texts", "bools", "map")
VIEWS = {date: views.Date, datetime: views.Datetime, dict: views.Dict, float: views.Float, int: views.Int, list: views.List, str: views.Str}
HINTS = (int, str, float, date, datetime, bool, bytes, type(None), list, list[int], list[str], list[Any], list[bool], dict, dict[str, int], dict[str, str],
         dict[str, Any], set, tuple, tuple[int, ...], object, Any, int | None, int | str, Annotated[int, "a note"],
         Annotated[list[int], "a note"], Annotated[object, views.Int], Annotated[int, views.Int], Annotated[list, views.List],
         Annotated[Any, views.Dict], Annotated[bool, views.Int], Annotated[list[str], views.List], Annotated[datetime, views.Date],
         Annotated[bytes, views.Str])
REJECTED = (ValueError, NotImplementedError, TypeError)


def below(hint, root):
    """Whether what has the hint can be taken for the other."""
    if root is Any or root is object or hint == root:
        return True
    h, r = get_origin(hint) or hint, get_origin(root) or root
    if not isinstance(r, type) or not issubclass(h, r):
        return False
    args = get_args(root)
    return not args or (len(args) == len(get_args(hint)) and all(below(a, b) for a, b in zip(get_args(hint), args)))


def view_for(annotation):
    """The view a hint stands for, if any."""
    if get_origin(annotation) is Annotated:
        root, *notes = get_args(annotation)
        for note in notes:
            if isinstance(note, type) and issubclass(note, views.PythonBuiltin):
                return note
        annotation = root
    return VIEWS.get(annotation) or VIEWS.get(get_origin(annotation))


def graph(t, type_, format, where="local"):
    with Graph(name="g", backend=MemoryBackend()) as g:
        g.artifacts.x = Artifact(type=type_, format=format, storage=LocalFile(path=t.root + "/x/data") if where == "local" else StringLiteral())
        g.artifacts.y = Artifact(type=type_, format=format, storage=LocalFile(path=t.root + "/y/data"))
    return g


CLASSES = {k: v for k, v in zip(KINDS, (views.Int, views.Str, views.Float, views.Date, views.Datetime, views.Int, views.List, views.List,
                                        views.List, views.Dict))}


def reading(t, kind, format):
    """By any hint; whether it fits or not."""
    type_, hint, make = KINDS[kind]
    data = make(t, "data")
    g = graph(t, type_, format())
    mine = CLASSES[kind](mode="READWRITE", type=type_)
    g.write(data, artifact=g.artifacts.x, view=mine)
    annotation = t.choice("hint", HINTS)
    root = get_args(annotation)[0] if get_origin(annotation) is Annotated else annotation
    fits = view_for(annotation) is not None and below(hint, root)
    ok, got = t.accepts(REJECTED, lambda: g.read(g.artifacts.x, annotation=annotation))
    t.check(ok == fits, "read exactly when the hint stands for a view, and for data of the type")
    if ok:
        t.check(t.same(got, data), "what was written")
        t.cover("read")
    else:
        t.cover("refused")
    # One of a hint and a view.
    t.check(not t.accepts(ValueError, lambda: g.read(g.artifacts.x))[0], "neither a hint nor a view")
    t.check(not t.accepts(ValueError, lambda: g.read(g.artifacts.x, annotation=annotation, view=mine))[0], "both a hint and a view")
    t.check(t.same(g.read(g.artifacts.x, view=mine), data), "by view")
    # Artifacts of the graph only.
    other = Artifact(type=type_, format=format(), storage=LocalFile(path=t.root + "/x/other"))
    t.check(not t.accepts(LookupError, lambda: g.read(other, view=mine))[0], "not an artifact of the graph")


def writing(t, kind, format):
    """Any data; whether it fits or not."""
    type_, hint, make = KINDS[kind]
    name = t.choice("written", tuple(k for k in (KINDS if format is Pickle else JSON_KINDS) if {k, kind} != {"date", "datetime"}))
    data = KINDS[name][2](t, "data")
    g = graph(t, type_, format())
    files = t.files()
    cls = type(data)
    fits = cls in VIEWS and below(hint, cls) if cls is not list and cls is not dict else get_origin(hint) is cls
    ok, got = t.accepts(REJECTED, lambda: g.write(data, artifact=g.artifacts.x))
    t.check(ok == fits, "written exactly when the data stands for a view of the type")
    with g.backend.connect() as conn:
        kept = [p.storage_partition.path for p in conn.container.storage_partitions.get(g.artifacts.x.storage, ())]
        t.check(not conn.container.storage_partitions.get(g.artifacts.y.storage), "and for no other artifact")
    if ok:
        path = g.artifacts.x.storage.path
        t.check(got.storage_partition.path == path and kept == [path], "at its place, and recorded")
        t.check(t.same(g.read(g.artifacts.x, view=VIEWS[cls](mode="READ", type=type_)), data), "read as it was")
        t.cover("written")
    else:
        t.check(sorted(t.files()) == sorted(files), "nothing is stored")
        t.check(not kept, "nor recorded")
        t.cover("refused")


def int_view(mode="READWRITE"):
    return views.Int(mode=mode, type=Int64())


def raw(t, keyed):
    """Raw data is read as it is now, unless a snapshot says which partitions."""
    with Graph(name="g", backend=MemoryBackend()) as g:
        g.artifacts.a = Artifact(type=KEYED if keyed else Int64(), format=JSON(),
                                 storage=LocalFile(path=t.root + "/a/" + ("{k.value}" if keyed else "v")))
        g.artifacts.b = Artifact(type=Int64(), format=JSON(), storage=LocalFile(path=t.root + "/b/v"))
    a, b = g.artifacts.a, g.artifacts.b
    view = views.List(mode="READ", type=KEYED) if keyed else int_view("READ")

    def put(stage):
        """Arbitrary data; what it reads, without an order."""
        out = {}
        for k in ((1, 2, 3) if keyed else (0,)):
            if not keyed or t.bool(f"{stage}.has {k}"):
                v = out[k] = t.int(f"{stage}.{k}", -9, 9)
                t.write(f"{t.root}/a/{k if keyed else 'v'}", json.dumps([{"k": k, "v": v}] if keyed else v))
            elif stage:
                t.remove(f"{t.root}/a/{k}")
        return out

    def read(**kwargs):
        ok, got = t.accepts(FileNotFoundError, lambda: g.read(a, view=view, **kwargs))
        if not keyed or not ok:
            return {0: got} if ok else {}
        t.check(len({r["k"] for r in got}) == len(got), "each partition once")
        return {r["k"]: r["v"] for r in sorted(got, key=lambda r: r["k"])}

    def same(x, y):
        return t.both(sorted(x) == sorted(y), *[t.same(x[k], y[k]) for k in x if k in y])

    t.check(read() == {}, "there is no data yet")
    first = put("")
    t.assume(bool(first))
    t.check(same(read(), first), "the current data")
    t.check(not t.accepts(ValueError, g.snapshot)[0], "other raw data is missing")
    t.write(t.root + "/b/v", "7")
    snapshot = g.snapshot()
    if t.bool("changed"):
        if keyed:
            for k in (1, 2, 3):
                if k not in first and t.bool(f"more {k}"):
                    t.write(f"{t.root}/a/{k}", json.dumps([{"k": k, "v": 5}]))
                    now = {**first, k: 5}
                    t.check(same(read(), now), "the current data")
                    t.check(same(read(snapshot=snapshot), first), "the partitions of the snapshot")
                    first_only = snapshot.read(a, view=view)
                    t.check(len(first_only) == len(first), "the partitions of the snapshot")
                    t.cover("more")
                    break
        else:
            v = t.int("now", -9, 9)
            t.write(t.root + "/a/v", json.dumps(v))
            t.check(same(read(), {0: v}), "the current data")
    else:
        t.check(same(read(snapshot=snapshot), first), "the snapshot's data")
        parts = a.storage.discover_partitions()
        take = t.index("take", len(parts) + 1)
        want = {p.partition_key["k"].value if keyed else 0: None for p in parts[:take]}
        t.check(same(read(storage_partition_snapshots=parts[:take]), {k: v for k, v in first.items() if k in want}), "exactly the given ones")
    t.check(g.read(b, annotation=int) == 7, "the other artifact's own")
    t.cover("read")


def produced(t, keyed, linked):
    """Data written for a produced artifact, with or without a snapshot."""
    reset()
    with Graph(name="g", backend=MemoryBackend()) as g:
        g.artifacts.a = Artifact(type=KEYED if keyed else Int64(), format=JSON(), storage=LocalFile(path=t.root + "/a/" + ("{k.value}" if keyed else "v")))
        out = Artifact(type=KEYED if keyed else Int64(), format=JSON(),
                       storage=LocalFile(path=t.root + "/x/" + ("{k.value}/" if keyed else "") + "{input_fingerprint}"))
        g.artifacts.x = (Each if keyed else Inc)(a=g.artifacts.a, version=version(1)).out(out)
    a, x = g.artifacts.a, g.artifacts.x
    v, fp = t.int("v", -9, 9), Fingerprint.from_int(t.int("fp", 3, 9))
    key = PartitionKey(k=Int64Field(value=t.int("k", 0, 9))) if keyed else PartitionKey()
    view = views.List(mode="READWRITE", type=KEYED) if keyed else int_view()
    content = [{"k": 1, "v": v}] if keyed else v
    t.write(t.root + "/a/" + ("1" if keyed else "v"), json.dumps([{"k": 1, "v": 2}] if keyed else 2))
    snapshot = g.snapshot()
    other = GraphSnapshotLike(t, g)
    t.check(not t.accepts(FileNotFoundError, lambda: snapshot.read(x, view=view))[0], "nothing is built")
    t.check(not t.accepts(FileNotFoundError, lambda: g.read(x, view=view))[0], "nothing is built")
    before = t.files()
    t.check(not t.accepts(ValueError, lambda: snapshot.write(content, artifact=a, view=view, **({"partition_key": key} if keyed else {})))[0],
            "raw data does not belong to a snapshot")
    t.check(not t.accepts(ValueError, lambda: g.write(content, artifact=x, view=view, **({"partition_key": key} if keyed else {})))[0],
            "produced data has an input fingerprint")
    t.check(sorted(t.files()) == sorted(before), "nothing is stored")
    kwargs = dict(artifact=x, input_fingerprint=fp, partition_key=key, view=view)
    if linked:
        wrote = snapshot.write(content, **kwargs) if t.bool("by the snapshot") else g.write(content, snapshot=snapshot, **kwargs)
    else:
        wrote = g.write(content, **kwargs)
    t.check(wrote.partition_key == key and wrote.input_fingerprint == fp, "its key and fingerprint")
    t.check(wrote.storage_partition.path == f"{t.root}/x/" + (f"{key['k'].value}/" if keyed else "") + str(fp), "at its place")
    for r in (lambda: snapshot.read(x, view=view), lambda: g.read(x, view=view), lambda: g.read(x, view=view, snapshot=snapshot)):
        ok, got = t.accepts(FileNotFoundError, r)
        t.check(ok == linked, "read when it belongs to the snapshot")
        t.check(not ok or t.same(got, content), "as it was written")
    t.check(t.same(g.read(x, view=view, storage_partition_snapshots=(wrote,)), content), "read when given")
    t.check(not t.accepts(FileNotFoundError, lambda: other.read(x, view=view))[0], "another snapshot does not have it")
    with g.backend.connect() as conn:
        t.check(tuple(conn.read_artifact_partitions(x)) == (wrote,), "recorded for the artifact")
    # A second one for the same key.
    if linked:
        t.assume(fp != 11)
        snapshot.write(content, **{**kwargs, "input_fingerprint": Fingerprint.from_int(11)})
        t.check(t.accepts(ValueError, lambda: snapshot.read(x, view=view))[0] == keyed, "only collections have several partitions")
    t.cover("written")


def GraphSnapshotLike(t, g):
    """Another snapshot of the same graph."""
    from arti import GraphSnapshot

    return GraphSnapshot(graph=g, id=Fingerprint.from_int(12345))


def CASES(tier):
    for format in (Pickle, JSON):
        for kind in KINDS if format is Pickle else JSON_KINDS:
            label = f"{kind}:{format.__name__}"
            yield Case(f"reading:{label}", reading, dict(kind=kind, format=format), bounds=f"any data of the kind, {len(HINTS)} hints",
                       cover=("read", "refused"))
            yield Case(f"writing:{label}", writing, dict(kind=kind, format=format), bounds="any data of any kind",
                       cover=("written", "refused") if kind != "bool" else ("refused",))
    for keyed in (False, True):
        yield Case(f"raw:{'keyed' if keyed else 'plain'}", raw, dict(keyed=keyed), bounds="any data, up to three partitions, before and after a snapshot",
                   cover=("read", "more") if keyed else ("read",))
        for linked in (False, True):
            yield Case(f"produced:{'keyed' if keyed else 'plain'}:{'linked' if linked else 'apart'}", produced, dict(keyed=keyed, linked=linked),
                       bounds="any data, key and input fingerprint", cover=("written",))
