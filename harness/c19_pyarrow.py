"""C19: PyArrow schemas preserve Artigraph types."""

from __future__ import annotations

import pyarrow as pa
from symex.case import Case

from arti.types import (
    Binary, Boolean, Collection, Date, DateTime, Enum, Float16, Float32, Float64, Geography, Int8,
    Int16, Int32, Int64, List, Map, Null, Set, String, Struct, Time, Timestamp, UInt8, UInt16,
    UInt32, UInt64,
)
from arti.types.pyarrow import pyarrow_type_system as system

NAMES = "aB_"
UNITS = {"second": "s", "millisecond": "ms", "microsecond": "us", "nanosecond": "ns"}
PLAIN = (
    (Boolean, "bool_"), (Date, "date64"), (Float16, "float16"), (Float32, "float32"), (Float64, "float64"), (Int8, "int8"),
    (Int16, "int16"), (Int32, "int32"), (Int64, "int64"), (Null, "null"), (String, "string"), (UInt8, "uint8"), (UInt16, "uint16"),
    (UInt32, "uint32"), (UInt64, "uint64"),
)
KINDS = ("plain", "time", "binary", "list", "map", "struct")
LEAVES = ("plain", "time", "binary")


def names(t, name, n, hi=2):
    out = []
    for i in range(n):
        k = t.text(f"{name}.k{i}", NAMES, 1, hi)
        for other in out:
            t.assume(k != other)
        out.append(k)
    return out


def tree(t, name, kind, depth, lean=False, **flags):
    """(type, the PyArrow type it is), of any content."""
    def child(tail, **flags):
        inner = LEAVES if depth <= 1 else ("plain", "binary", "list", "map", "struct")
        n = f"{name}.{tail}"
        return tree(t, n, inner[t.index(f"{n}.kind", len(inner))], depth - 1, lean, **flags)

    if kind == "plain":
        cls, other = t.choice(f"{name}.is", [p for p in PLAIN if not lean or p[0] in (Int32, String)])
        if cls is Null and not flags.get("nullable", True):
            t.assume(False)  # PyArrow has no such fields
        return cls(**flags), getattr(pa, other)()
    if kind == "time":
        precision = t.choice(f"{name}.precision", list(UNITS)[:: 2 if lean else 1])
        cls = t.choice(f"{name}.is", [DateTime, Time, Timestamp])
        unit = UNITS[precision]
        want = (pa.timestamp(unit) if cls is DateTime else pa.timestamp(unit, "UTC") if cls is Timestamp
                else pa.time32(unit) if unit in ("s", "ms") else pa.time64(unit))
        return cls(precision=precision, **flags), want
    if kind == "binary":
        if lean or t.bool(f"{name}.sized"):
            size = t.int(f"{name}.size", 0, 2**31 - 1)
            return Binary(byte_size=size, **flags), pa.binary(size)
        return Binary(**flags), pa.binary()
    if kind == "list":
        e, want = child("e")
        return List(element=e, **flags), pa.list_(want)
    if kind == "map":
        (k, kw), (v, vw) = tree(t, f"{name}.key", "plain" if depth > 1 else "binary", 1, lean), child("value")
        return Map(key=k, value=v, **flags), pa.map_(kw, vw)
    if kind == "struct":
        ks = names(t, name, 2)
        nulls = [t.bool(f"{name}.null{i}") for i in range(2)]
        fields = [child("0", nullable=nulls[0]), tree(t, f"{name}.1", "binary", 1, lean, nullable=nulls[1])]
        return (Struct(fields={k: f[0] for k, f in zip(ks, fields)}, **flags),
                pa.struct([pa.field(k, f[1], nullable=null) for k, f, null in zip(ks, fields, nulls)]))
    raise AssertionError(kind)


def ordered(type_):
    """The fields of every struct, in order (equal structs may order them differently)."""
    if isinstance(type_, Struct):
        return [(k, ordered(v)) for k, v in type_.fields.items()]
    return [ordered(getattr(type_, n)) for n in ("element", "key", "value") if hasattr(type_, n)]


def same_order(a, b):
    return len(a) == len(b) and all([
        bool(x[0] == y[0]) and same_order(x[1], y[1]) if isinstance(x, tuple) else same_order(x, y) for x, y in zip(a, b)])


def equal(t, a, b, msg):
    t.check(a == b, msg)
    t.check(same_order(ordered(a), ordered(b)), f"{msg}: fields in order")


def converted(t, kind, depth, lean):
    type_, want = tree(t, "type", kind, depth, lean)
    got = system.to_system(type_, hints={})
    t.check(got == want, "the PyArrow type of a type")
    equal(t, system.to_artigraph(got, hints={}), type_, "a type is back the same")
    equal(t, system.to_artigraph(want, hints={}), type_, "the type of a PyArrow type")
    t.check(system.to_system(system.to_artigraph(want, hints={}), hints={}) == want, "a PyArrow type is back the same")
    t.cover("converted")


def collection(t, kind):
    """A schema, with what is only known about the collection."""
    if kind == "int":
        ks = names(t, "field", 3, 1)
        nulls = [False, t.bool("null")]
        first = Int32(nullable=False), pa.int32()
    else:
        ks = ["b", "a", "c"]
        nulls = [t.bool("null"), True]
        first = tree(t, "type", kind, 1, True, nullable=nulls[0])
    fields = [first, (Int64(nullable=nulls[1]), pa.int64()), (Date(), pa.date64())]
    # Any split of the fields, in any order.
    orders = [(), (0,), (1, 0), (2, 0), (0, 2, 1)] if kind == "int" else [(2, 0)]
    order = orders[t.index("order", len(orders))]
    cut = t.index("cut", len(order) + 1)
    by, cluster = tuple(ks[i] for i in order[:cut]), tuple(ks[i] for i in order[cut:])
    name = t.text("name", 'aé "\\', 0, 2) if kind == "int" else t.text("name", NAMES, 1, 1)
    type_ = Collection(name=name, element=Struct(fields={k: f[0] for k, f in zip(ks, fields)}), partition_by=by, cluster_by=cluster)
    got = system.to_system(type_, hints={})
    t.check([bool(f.name == k) and f.type == w[1] for f, k, w in zip(got, ks, fields)] == [True] * 3, "the fields of a schema")
    t.check([f.nullable for f in got] == [*nulls, False], "the nullability of a schema")
    back = system.to_artigraph(got, hints={})
    equal(t, back, type_, "a collection is back the same")
    t.check(back.name == name and list(back.partition_by) == list(by) and list(back.cluster_by) == list(cluster), "what is known about it too")
    again = system.to_system(back, hints={})
    t.check(again.equals(got, check_metadata=True), "a schema is back the same")
    plain = system.to_artigraph(got.remove_metadata(), hints={})
    equal(t, plain, Collection(element=type_.element), "a schema that is not from Artigraph")
    other = system.to_artigraph(got.with_metadata({"pandas": "{}"}), hints={})
    equal(t, other, Collection(element=type_.element), "a schema with other metadata")
    t.cover("converted")


def zone(t, n):
    """Only UTC is accepted."""
    tz = t.text("tz", "UTCutc+", 0, n) if n else t.choice("before", ("", "UTC", "utc")) + t.text("more", "UT+/", 0, 2) + t.choice("after", ("", "UTC"))
    unit = t.choice("unit", list(UNITS.values()))
    other = pa.timestamp(unit, tz)
    for i in range(t.index("depth", 3)):
        other = [pa.list_(other), pa.map_(pa.string(), other), pa.struct([pa.field("a", other)])][t.index(f"wrap{i}", 3)]
    if t.bool("schema"):
        other = pa.schema([pa.field("a", other)])
    if len(tz) and tz.upper() != "UTC":
        t.check(t.raises((ValueError,), lambda: system.to_artigraph(other, hints={})), "a time zone that is not UTC is rejected")
        t.cover("rejected")
    else:
        got = system.to_artigraph(other, hints={})
        while not isinstance(got, (DateTime, Timestamp)):
            got = (list(got.fields.values())[0] if isinstance(got, Struct) else list(got.element.fields.values())[0]
                   if isinstance(got, Collection) else got.element if isinstance(got, List) else got.value)
        t.check(isinstance(got, DateTime if not len(tz) else Timestamp) and UNITS[got.precision] == unit, "a time keeps its precision and zone")
        t.cover("accepted")


def unsupported(t, wraps):
    bad = t.choice("type", [pa.large_string(), pa.large_binary(), pa.large_list(pa.int8()), pa.list_(pa.int8(), 2), pa.duration("s")])
    for i in range(t.index("depth", wraps + 1)):
        bad = [pa.list_(bad), pa.map_(pa.string(), bad), pa.struct([pa.field("a", bad)])][t.index(f"wrap{i}", 3)]
    t.check(t.raises((NotImplementedError,), lambda: system.to_artigraph(bad, hints={})), "a PyArrow type without a counterpart is rejected")
    type_ = t.choice("artigraph", [Set(element=Int64()), Enum(type=Int64(), items=[1])])
    for i in range(t.index("adepth", wraps + 1)):
        type_ = [List(element=type_), Map(key=String(), value=type_), Struct(fields={"a": type_})][t.index(f"awrap{i}", 3)]
    t.check(t.raises((NotImplementedError,), lambda: system.to_system(type_, hints={})), "a type without a counterpart is rejected")
    t.cover("rejected")


def geography(t, n):
    """Geographies are stored as text, or bytes if they are well-known binary."""
    kind = t.text("format", "WKBT", 0, n) if t.bool("formatted") else None
    got = system.to_system(Geography(format=kind), hints={})
    t.check(got == (pa.binary() if kind is not None and kind == "WKB" else pa.string()), "the PyArrow type of a geography")
    t.cover("converted")


def CASES(tier):
    for kind in KINDS:
        for depth in (1, 2, 3) if tier == "thorough" else (1, 2):
            if depth > 1 and kind in LEAVES:
                continue
            yield Case(f"type:{kind}:{depth}", converted, dict(kind=kind, depth=depth, lean=depth > 1),
                       bounds=f"any {kind} type of depth {depth}, any field names of up to 2 characters, sizes, precisions, nullability", cover=("converted",))
    for kind in ("int", *KINDS):
        yield Case(f"collection:{kind}", collection, dict(kind=kind), bounds="any collection of three fields", cover=("converted",))
    yield Case("zone:long", zone, dict(n=0), bounds="any time zone with UTC before or after up to 2 characters", cover=("accepted", "rejected"))
    yield Case("zone", zone, dict(n=3), bounds="any time zone of up to 3 characters, in up to two others", cover=("accepted", "rejected"))
    yield Case("unsupported", unsupported, dict(wraps=1 if tier == "quick" else 2), bounds="types without a counterpart, in up to two others", cover=("rejected",))
    yield Case("geography", geography, dict(n=3), bounds="any format of up to 3 characters", cover=("converted",))
