"""C24: Enum and Collection types accept exactly well-formed definitions."""

from __future__ import annotations

import datetime

from symex.case import Case

from arti.types import (
    Binary, Boolean, Collection, Date, Enum, Float32, Float64, Int8, Int16, Int32, Int64, List, Map, Null, Set,
    String, Struct, Timestamp, is_partitioned,
)

B64 = (-(2**63), 2**63 - 1)
NAMES = "aB"

# Kinds of items, and the types they are items of.
KINDS = ("int", "bool", "float", "text", "bytes", "date", "datetime", "none", "other")
TYPES = {
    "Int8": (Int8, {"int", "bool"}), "Int16": (Int16, {"int", "bool"}), "Int32": (Int32, {"int", "bool"}),
    "Int64": (Int64, {"int", "bool"}), "Float32": (Float32, {"float"}), "Float64": (Float64, {"float"}),
    "Boolean": (Boolean, {"bool"}), "String": (String, {"text"}), "Binary": (Binary, {"bytes"}),
    "Date": (Date, {"date", "datetime"}), "Timestamp": (Timestamp, {"datetime"}), "Null": (Null, {"none"}),
}


def item(t, name):
    kind = t.choice(f"{name}.kind", KINDS)
    if kind == "int":
        return kind, t.int(name, *B64)
    if kind == "bool":
        return kind, t.bool(name)
    if kind == "float":
        return kind, t.choice(name, (0.5, -2.25))
    if kind == "text":
        return kind, t.text(name, NAMES, 0, 1)
    if kind == "bytes":
        return kind, t.choice(name, (b"", b"a"))
    if kind == "date":
        return kind, t.date(name)
    if kind == "datetime":
        return kind, t.datetime(name, tz=t.choice(f"{name}.tz", (None, datetime.timezone.utc)))
    return kind, None if kind == "none" else ("a",)


def make(t, which):
    cls, kinds = TYPES[which]
    kw = {"precision": t.choice("precision", ("second", "microsecond"))} if cls is Timestamp else {}
    if nullable := t.bool("nullable"):
        kinds = kinds | {"none"}
    return cls(nullable=nullable, **kw), kinds


GIVEN = (list, tuple, set, frozenset, iter)


def enums(t, which, n):
    """Any items, given as any collection."""
    type_, kinds = make(t, which)
    items = [item(t, f"i{i}") for i in range(t.index("items", n + 1))]
    values = [v for _, v in items]
    for i, (kind, v) in enumerate(items):  # True and 1 are equal, hence one item of a set.
        for other, o in items[:i]:
            if {kind, other} == {"int", "bool"}:
                t.assume(v != o)
    how = t.choice("given", GIVEN if len(items) < 2 else GIVEN[:2])
    well = bool(items) and all(k in kinds for k, _ in items)
    ok, got = t.accepts(ValueError, lambda: Enum(type=type_, items=how(values), name="e"))
    t.check(t.iff(ok, well), "an enum is accepted exactly when it has items, all of its type")
    if not ok:
        t.cover("rejected")
        return
    t.check(got.type == type_, "the enum is of its type")
    kept = list(got.items)
    for v in values:
        t.check(v in got.items, "every given item is kept")
    for i, k in enumerate(kept):
        t.check(t.either(*[k == v and isinstance(k, bool) == isinstance(v, bool) for v in values]), "only given items are kept")
        for other in kept[:i]:
            t.check(k != other, "items are kept once")
    t.cover("accepted")


def not_items(t):
    """What isn't a collection of items."""
    bad = (3, None, {}, {"a": 1}, {"a": "b"}, 1.5, True, int)
    i = t.index("bad", len(bad))
    ok, _ = t.accepts(ValueError, lambda: Enum(type=make(t, t.choice("type", tuple(TYPES)))[0], items=bad[i]))
    t.check(not ok, "items must be given as a collection")
    t.cover("rejected")


FIELDS = (
    lambda n: Int64(nullable=n), lambda n: Int32(nullable=n), lambda n: String(nullable=n), lambda n: Date(nullable=n), lambda n: List(element=Int64(), nullable=n),
    lambda n: Map(key=String(), value=Int64(), nullable=n), lambda n: Set(element=Int64(), nullable=n), lambda n: Struct(fields={"a": Int64()}, nullable=n),
)


def names(t, name, n, hi):
    return [t.text(f"{name}{i}", NAMES if hi > 1 else "abc", 1, hi) for i in range(n)]


def collections(t, fields, partitions, clusters, hi, lean=False):
    """Any fields, and references to them."""
    known = names(t, "field", t.index("fields", fields + 1), hi)
    for i, k in enumerate(known):
        for other in known[:i]:
            t.assume(k != other)
    kinds = FIELDS[:2] if lean else FIELDS
    pairs = [(k, kinds[t.index(f"type{i}", len(kinds)) if i == 0 else (i + 1) % len(kinds)](i % 2 == 1)) for i, k in enumerate(known)]
    by = tuple(names(t, "partition", partitions, hi))
    cluster = tuple(names(t, "cluster", clusters, hi))
    element = Struct(name="row", fields=dict(pairs))
    kw = {}
    if by or t.bool("partition_by given"):
        kw["partition_by"] = by
    if cluster or t.bool("cluster_by given"):
        kw["cluster_by"] = cluster
    ok, got = t.accepts(ValueError, lambda: Collection(element=element, **kw))
    exist = t.both(*[t.either(*[r == k for k in known]) for r in by + cluster])
    apart = t.both(*[t.no(p == c) for p in by for c in cluster])
    t.check(t.iff(ok, t.both(exist, apart)), "a collection is accepted exactly when its references exist and do not overlap")
    if not ok:
        t.cover("rejected")
        return
    t.cover("accepted")
    t.check(got.element == element and list(got.fields) == known, "the fields of a collection are those of its struct")
    t.check(got.partition_by == by and got.cluster_by == cluster, "references are kept")
    for refs, found in ((by, got.partition_fields), (cluster, got.cluster_fields)):
        want = []
        for r in refs:
            if not any(r == w for w in want):
                want.append(r)
        t.check(list(found) == want, "the referenced fields, in order")
        for r in want:
            type_ = next(v for k, v in pairs if k == r)
            t.check(found[r] == type_ and type(found[r]) is type(type_), "the type of a referenced field")
    t.check(is_partitioned(got) == bool(by), "a collection is partitioned exactly when it names a partition field")
    again, other = t.accepts(ValueError, lambda: Collection(element=element, partition_by=cluster, cluster_by=by))
    t.check(again and is_partitioned(other) == bool(cluster), "partition and cluster fields can be swapped")


def elements(t):
    """Only structs make collections; nothing but a collection is partitioned."""
    which = t.index("element", 4)
    bad = (Int64(), List(element=Struct(fields={"a": Int64()})), Map(key=String(), value=Int64()), Collection(element=Struct(fields={"a": Int64()})))[which]
    refs = tuple(names(t, "partition", t.index("partitions", 3), 1))
    ok, _ = t.accepts(ValueError, lambda: Collection(element=bad, partition_by=refs))
    t.check(not ok, "a collection has structs as elements")
    row = Struct(fields={t.text("field", NAMES, 1, 2): Int64()})
    for plain in (row, List(element=row), Set(element=row), Map(key=String(), value=row), Int64(), List(element=bad)):
        t.check(not is_partitioned(plain), "only collections are partitioned")
    t.cover("rejected")


def CASES(tier):
    n = 2 if tier == "quick" else 3
    for which in TYPES:
        yield Case(f"enum:{which}", enums, dict(which=which, n=n), bounds=f"up to {n} items of any kind in any kind of collection", cover=("accepted", "rejected"))
    yield Case("enum:not items", not_items, bounds="values that are no collection of items", cover=("rejected",))
    for p in (0, 1, 2):
        for c in (0, 1, 2):
            fields = 2 if tier == "quick" and p + c > 3 else 3
            hi = 1 if p + c > 2 and tier == "quick" else 2
            yield Case(f"collection:{p}:{c}", collections, dict(fields=fields, partitions=p, clusters=c, hi=hi, lean=p + c > 1),
                       bounds=f"up to {fields} fields, {p} partition and {c} cluster references, names of up to {hi} characters",
                       cover=("accepted",) if p + c == 0 else ("accepted", "rejected"))
    yield Case("collection:elements", elements, bounds="elements that are no struct", cover=("rejected",))
