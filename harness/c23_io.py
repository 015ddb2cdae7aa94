"""C23: data read back equals the data written, for every storage and format."""

from __future__ import annotations

import math
from datetime import date, datetime, timezone
from typing import Annotated

from symex.case import Case

from arti import Artifact, Graph, io
from arti.backends.memory import MemoryBackend
from arti.fingerprints import Fingerprint
from arti.formats.json import JSON
from arti.formats.pickle import Pickle
from arti.partitions import PartitionKey
from arti.storage.google.cloud.storage import GCSFile
from arti.storage.literal import StringLiteral, StringLiteralPartition
from arti.storage.local import LocalFile
from arti.types import (
    Boolean, Collection, Date, DateTime, Float64, Int64, List, Map, Null, String, Struct, is_partitioned,
)
from arti.views import python as views

from .c05_paths import FIELDS, bind

FORMATS = {"json": JSON, "pickle": Pickle}
FLOATS = (0.5, -2.5e-300, math.inf, 1e22)
TEXTS = ("", "é", "\n\r\n", '"\\', "\ud800", "null", "\x00", "{x}", " a ")
WHERE = ("local", "gcs", "literal")
COMBINATIONS = tuple((w, f) for w in WHERE for f in FORMATS if (w, f) != ("literal", "pickle"))


def leaf(t, name, kinds):
    kind = kinds[t.index(f"{name}.leaf", len(kinds))]
    if kind == "null":
        return None, Null()
    if kind == "int":
        return t.int(name, -(2**80), 2**80), Int64()
    if kind == "text":
        return t.text(name, "A ", 0, 2), String()
    if kind == "any text":
        return t.text(name, 'a"\\é', 1, 2), String()
    if kind == "given text":
        return t.choice(name, TEXTS), String()
    if kind == "float":
        return t.choice(name, FLOATS), Float64()
    if kind == "date":
        return t.date(name), Date()
    if kind == "datetime":
        return t.choice(name, (datetime(2020, 2, 29, 1, 2, 3, 4), datetime(1, 1, 1, tzinfo=timezone.utc))), DateTime(precision="microsecond")
    assert kind == "bool"
    return t.bool(name), Boolean()


VIEWS = {type(None): views.Null, int: views.Int, str: views.Str, float: views.Float, list: views.List, dict: views.Dict,
         date: views.Date, datetime: views.Datetime}


def keys(t, name, n):
    out = []
    for i in range(n):
        k = t.text(f"{name}.k{i}", "A ", 0, 1)
        for o in out:
            t.assume(o != k)
        out.append(k)
    return out


def tree(t, name, depth, kinds, inner, size=2):
    """(data, its type)."""
    shape = ("leaf", "list", "map", "struct")[t.index(f"{name}.shape", 4 if depth else 1)]
    if shape == "leaf":
        return leaf(t, name, kinds)
    n = t.index(f"{name}.n", size + 1)
    items = [tree(t, f"{name}.{i}", depth - 1, inner, inner, 1) for i in range(n)]
    if shape == "list":
        return [x for x, _ in items], List(element=items[0][1] if items else Int64())
    ks = keys(t, name, n)
    d = {k: x for k, (x, _) in zip(ks, items)}
    if shape == "map":
        return d, Map(key=String(), value=items[0][1] if items else Int64())
    return d, Struct(fields={k: ty for k, (_, ty) in zip(ks, items)})


def view_of(data, type_):
    if type_ is None:
        type_ = Int64() if isinstance(data, int) else String()
    if isinstance(data, bool):
        return views.Int(mode="READWRITE", type=Int64())
    for cls, view in VIEWS.items():
        if isinstance(data, cls) and (cls is not date or not isinstance(data, datetime)):
            return view(mode="READWRITE", type=type_)
    raise AssertionError(data)


def storage_in(t, where, kinds="", name="x"):
    tail = "".join(f"/{{k{i}.key}}" if c == "N" else f"/{{k{i}.iso}}" if c == "D" else f"/{{k{i}.value}}" for i, c in enumerate(kinds))
    if where == "local":
        return bind(LocalFile(path=f"{t.root}/{name}{tail}/data"), kinds)
    if where == "gcs":
        return bind(GCSFile(bucket=t.bucket, path=f"{name}{tail}/data"), kinds)
    return bind(StringLiteral(id=f"{name}{tail}"), kinds)


def stored(t, partition):
    """The stored content."""
    if isinstance(partition, StringLiteralPartition):
        return partition.value
    return t.gcs_read(partition.path) if hasattr(partition, "bucket") else t.read(partition.path)


def round_trip(t, where, format, depth):
    kinds = ("null", "bool", "int", "text", "float", "any text", "given text") + (("date", "datetime") if format == "pickle" else ())
    data, type_ = tree(t, "data", depth, kinds, ("int", "text") if depth else kinds)
    f, view = FORMATS[format](), view_of(data, type_)
    partition = storage_in(t, where).generate_partition()
    snapshot = io.write(data, type_, f, partition, view)
    got = io.read(type_, f, (snapshot,), view)
    t.check(t.same(got, data), "what is read is what was written")
    t.check(snapshot.content_fingerprint == snapshot.storage_partition.compute_content_fingerprint(), "the fingerprint of what is stored")
    if where != "literal":
        t.check(t.same(snapshot.storage_partition, partition), "the partition written")
        t.check(t.same(io.read(type_, f, (partition.snapshot(),), view), data), "read through another snapshot")
    else:
        t.check(partition.value is None, "the partition given is left as it was")
        t.check(snapshot.storage_partition.id == partition.id, "the partition written")
    t.check(snapshot.storage_partition.partition_key == partition.partition_key, "its key")


def integer_keys(t, where, format):
    """Maps of integers: JSON turns the keys into texts."""
    data = {t.int("key", -9, 9): t.text("value", "A ", 0, 1)}
    type_ = Map(key=Int64(), value=String())
    f, view = FORMATS[format](), views.Dict(mode="READWRITE", type=type_)
    snapshot = io.write(data, type_, f, storage_in(t, where).generate_partition(), view)
    got = io.read(type_, f, (snapshot,), view)
    t.check(t.same(got, data), "what is read is what was written", known=[("json-integer-keys", format == "json")])


def overwritten(t, where, format):
    """The second of two writes counts; fingerprints tell contents apart."""
    f, type_ = FORMATS[format](), List(element=String())
    view = views.List(mode="READWRITE", type=type_)
    data = [[t.text(f"{name}{i}", "A ", 0, 2) for i in range(t.index(f"{name}.n", 3))] for name in "xy"]
    partition = storage_in(t, where).generate_partition()
    other = storage_in(t, where, name="other").generate_partition()
    a = io.write(data[0], type_, f, partition, view)
    b = io.write(data[1], type_, f, partition, view)
    c = io.write(data[1], type_, f, other, view)
    same = t.same(data[0], data[1])
    t.check(t.same(io.read(type_, f, (b,), view), data[1]), "the later content")
    t.check(t.iff(a.content_fingerprint == b.content_fingerprint, same), "different contents have different fingerprints")
    t.check(b.content_fingerprint == c.content_fingerprint, "equal contents have equal fingerprints")
    if where != "literal":
        t.check(partition.snapshot().content_fingerprint == b.content_fingerprint, "the current content")
        t.check(t.same(stored(t, partition), stored(t, other)) if format == "json" else True, "nothing is left of the earlier one")


def collections(t, where, format, n, kinds="L"):
    """Partitions are read in the order given, all of them and nothing else."""
    f = FORMATS[format]()
    row = Struct(fields={"k0": FIELDS[kinds][0], "v": Int64()}) if kinds else Struct(fields={"v": Int64()})
    type_ = Collection(element=row, partition_by=("k0",))
    view = views.List(mode="READWRITE", type=type_)
    storage = storage_in(t, where, kinds)
    snapshots, data = [], []
    for i in range(n):
        k = t.int(f"k{i}", -2 if n < 3 else 0, 11 if n < 3 else 9)
        for other in data:
            t.assume(other[0] != k)
        rows = [{"k0": k, "v": t.int(f"v{i}.{j}", -5, 5)} for j in range(t.index(f"n{i}", 3 if n < 3 else 2))]
        partition = storage.generate_partition(partition_key=PartitionKey({"k0": FIELDS[kinds][1](value=k)}))
        snapshots.append(io.write(rows, type_, f, partition, view))
        data.append((k, rows))
    order = [t.index(f"o{i}", n) for i in range(1 + t.index("take", n + (n < 3)))]
    got = io.read(type_, f, tuple(snapshots[i] for i in order), view)
    t.check(t.same(got, [r for i in order for r in data[i][1]]), "the rows of exactly the given partitions, in order")
    for i in range(n):
        t.check(t.same(io.read(type_, f, (snapshots[i],), view), data[i][1]), "one partition")
        if where != "literal":
            t.check(snapshots[i].content_fingerprint == snapshots[i].storage_partition.snapshot().content_fingerprint, "its content")


def unpartitioned(t, where, format):
    """Several partitions are only read as a partitioned collection, and nothing is no data."""
    f = FORMATS[format]()
    row = Struct(fields={"v": Int64()})
    type_, data = t.choice("type", (
        (List(element=Int64()), [1]), (Int64(), 1), (Collection(element=row), [{"v": 1}]), (row, {"v": 1}), (String(), "a"),
        (Map(key=String(), value=Int64()), {"a": 1}), (Collection(element=row, cluster_by=("v",)), [{"v": 1}])))
    view = view_of(data, type_)
    storage = [storage_in(t, where, name=f"n{i}") for i in range(3)]
    snapshots = tuple(io.write(data, type_, f, s.generate_partition(), view) for s in storage)
    for n in (2, 3):
        t.raises((ValueError,), lambda: io.read(type_, f, snapshots[:n], view))
    t.raises((ValueError,), lambda: io.read(type_, f, (snapshots[0], snapshots[0]), view))
    t.check(t.same(io.read(type_, f, snapshots[:1], view), data), "one partition")
    t.check(not is_partitioned(type_), "not partitioned")
    for ty in (type_, Collection(element=row, partition_by=("v",))):
        t.raises((FileNotFoundError,), lambda: io.read(ty, f, (), view_of([] if ty is not type_ else data, ty)))


def preset(t):
    """A preset literal is what is read, and cannot be overwritten."""
    value, data = t.int("value", -20, 20), t.int("data", -20, 20)
    import json

    f, view = JSON(), views.Int(mode="READWRITE", type=Int64())
    storage = bind(StringLiteral(id="x", value=json.dumps(value)), "")
    partition = storage.generate_partition()
    t.check(t.same(io.read(Int64(), f, (partition.snapshot(),), view), value), "the preset value")
    t.raises((ValueError,), lambda: io.write(data, Int64(), f, partition, view))
    t.check(t.same(io.read(Int64(), f, storage.discover_partitions(), view), value), "the preset value is kept")
    written = io.write(data, Int64(), f, bind(StringLiteral(id="y"), "").generate_partition(), view)
    t.raises((ValueError,), lambda: io.write(value, Int64(), f, written.storage_partition, view))
    t.check(t.same(io.read(Int64(), f, (written,), view), data), "a written literal is kept")
    t.check(t.iff(written.content_fingerprint == partition.compute_content_fingerprint(), value == data), "fingerprints of literals")


def any_literal(t):
    """Preset literals of any text, empty ones included."""
    text, more = t.text("text", 'a" {', 0, 2), t.text("other", 'a" {', 0, 2)
    partition, other = (bind(StringLiteral(id="x", value=v), "").generate_partition() for v in (text, more))
    t.check(t.iff(partition.compute_content_fingerprint() == other.snapshot().content_fingerprint, text == more), "fingerprints of literals")
    for data in (1, "a"):
        t.raises((ValueError,), lambda: io.write(data, view_of(data, None).type, JSON(), partition, view_of(data, None)))
    t.check(partition.value == text, "is kept")


def missing(t, where):
    """What was not written has no content."""
    partition = storage_in(t, where).generate_partition()
    t.raises((FileNotFoundError,), partition.snapshot)
    t.raises((FileNotFoundError,), partition.compute_content_fingerprint)


def chunks(t, n):
    """The content fingerprint of a file does not depend on how it is read."""
    partition = storage_in(t, "local").generate_partition()
    other = storage_in(t, "local", name="other").generate_partition()
    text, more = t.text("text", "A ", 0, n), t.text("other", "ab", 0, n)
    t.write(partition.path, text)
    t.write(other.path, more)
    want = partition.compute_content_fingerprint()
    size = 1 + t.index("chunk", n + 1)
    t.check(partition.compute_content_fingerprint(size) == want, "in chunks")
    t.check(partition.compute_content_fingerprint(buffer_size=size) == want, "in chunks")
    t.check(t.iff(other.compute_content_fingerprint(size) == want, text == more), "exactly equal contents have equal fingerprints")
    t.check(partition.snapshot().content_fingerprint == want, "of a snapshot")


def composite(t):
    """Objects without an MD5 hash."""
    partition = storage_in(t, "gcs").generate_partition()
    other = storage_in(t, "gcs", name="other").generate_partition()
    t.gcs_composite()
    view = views.Str(mode="READWRITE", type=String())
    data = [t.text(f"text{i}", "A ", 0, 2) for i in range(2)]
    a, b = [io.write(d, String(), JSON(), p, view) for d, p in zip(data, (partition, other))]
    t.check(t.iff(a.content_fingerprint == b.content_fingerprint, data[0] == data[1]), "exactly equal contents have equal fingerprints")
    t.check(a.content_fingerprint == partition.compute_content_fingerprint(), "the current content")
    t.check(t.same(io.read(String(), JSON(), (b,), view), data[1]), "what is read is what was written")


def graphs(t, where, format):
    """Through the methods of a graph."""
    kind = t.index("kind", 3)
    type_, hint = ((Int64(), int), (String(), str), (List(element=Int64()), list))[kind]

    class Data(Artifact):
        pass

    data = [t.int("i", -99, 99) if kind == 0 else t.text("t", "A ", 0, 2) if kind == 1 else [t.int(f"l{j}", -9, 9) for j in range(t.index("n", 3))],
            7 if kind == 0 else "seven" if kind == 1 else [7, 7]]
    with Graph(name="g", backend=MemoryBackend()) as g:
        for name in ("x", "y"):
            s = (StringLiteral() if where == "literal" else GCSFile(bucket=t.bucket, path=name + "/x") if where == "gcs"
                 else LocalFile(path=f"{t.root}/{name}/x"))
            setattr(g.artifacts, name, Artifact(type=type_, format=FORMATS[format](), storage=s))
    snapshots = [g.write(d, artifact=a) for d, a in zip(data, (g.artifacts.x, g.artifacts.y))]
    for d, a, s in zip(data, (g.artifacts.x, g.artifacts.y), snapshots):
        given = (s,) if where == "literal" or t.bool(f"given {a.storage.id if where == 'literal' else a.storage.path[-3]}") else None
        t.check(t.same(g.read(a, annotation=hint, storage_partition_snapshots=given), d), "read by annotation")
        t.check(t.same(g.read(a, view=view_of(d, type_), storage_partition_snapshots=given), d), "read by view")
        t.check(s.content_fingerprint == s.storage_partition.compute_content_fingerprint(), "its content")


def CASES(tier):
    deep = tier == "thorough"
    out = []
    for where, format in COMBINATIONS:
        for depth in (0, 1, 2) if deep else (0, 1):
            out.append(Case(f"round trip, {where} {format}, depth {depth}", round_trip, {"where": where, "format": format, "depth": depth},
                            f"all data of {depth} levels of lists, maps and structs of up to 2; integers of 80 bits, texts of up to 2 characters, listed floats and texts", budget_s=800 if deep else 240))
        out.append(Case(f"integer keys, {where} {format}", integer_keys, {"where": where, "format": format}, "one integer key of a digit"))
        out.append(Case(f"overwritten, {where} {format}", overwritten, {"where": where, "format": format}, "two lists of up to 2 texts of up to 2 characters"))
        for n in (1, 2, 3) if deep else (1, 2):
            out.append(Case(f"collection of {n}, {where} {format}", collections, {"where": where, "format": format, "n": n},
                            f"{n} partitions of up to 2 rows, any selection in any order", budget_s=600))
        out.append(Case(f"unpartitioned, {where} {format}", unpartitioned, {"where": where, "format": format}, "7 types, up to three partitions"))
        out.append(Case(f"graph, {where} {format}", graphs, {"where": where, "format": format}, "integers, texts, lists"))
    out.append(Case("preset literals", preset, {}, "integers of two digits"))
    out.append(Case("composite objects", composite, {}, "two texts of up to 2 characters"))
    out.append(Case("any preset literals", any_literal, {}, "two texts of up to 2 characters"))
    for where in WHERE:
        out.append(Case(f"missing, {where}", missing, {"where": where}, "one partition"))
    out.append(Case("chunks", chunks, {"n": 5 if deep else 4}, "two texts of up to 4 characters (5 in the thorough tier), chunks of every size", budget_s=600))
    return out
