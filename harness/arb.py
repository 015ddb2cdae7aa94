"""Arbitrary Artigraph types: (model, description of its content)."""

from __future__ import annotations

from arti.types import (
    Binary, Boolean, Collection, Date, DateTime, Enum, Float16, Float32, Float64, Geography, Int8,
    Int16, Int32, Int64, List, Map, Null, Set, String, Struct, Time, Timestamp, UInt8, UInt16,
    UInt32, UInt64,
)

B64 = (-(2**63), 2**63 - 1)
NAMES = "aB_"
PRECISIONS = ("second", "millisecond", "microsecond", "nanosecond")

PLAIN = {c.__name__: c for c in (
    Boolean, Date, Float16, Float32, Float64, Int8, Int16, Int32, Int64, Null, String, UInt8, UInt16,
    UInt32, UInt64)}
TIMES = {c.__name__: c for c in (DateTime, Time, Timestamp)}
CONTAINERS = {c.__name__: c for c in (List, Set)}
KINDS = (*PLAIN, *TIMES, *CONTAINERS, "Binary", "Geography", "Enum", "Map", "Struct", "Collection")


def small(t, name):
    """A scalar for nesting: the class, nullability and (for binaries) size vary."""
    i = t.index(f"{name}.is", 3)
    if i == 0:
        n = t.bool(f"{name}.null")
        return Int64(nullable=n), ("Int64", n)
    if i == 1:
        return Int32(), ("Int32", False)
    b = t.int(f"{name}.size", *B64)
    return Binary(byte_size=b), ("Binary", False, b)


def optional_text(t, name, hi=2):
    return t.text(name, NAMES, 0, hi) if t.bool(f"{name}?") else None


def struct(t, name, n, described):
    named = t.bool(f"{name}.named")
    sname = t.text(f"{name}.name", NAMES, 1, 1) if named else "anon"
    fields, desc = {}, []
    for i in range(n):
        k = t.text(f"{name}.f{i}", NAMES, 1, 1)
        for other in fields:
            t.assume(k != other)
        m, d = small(t, f"{name}.f{i}")
        fields[k] = m
        desc.append((k, d))
    return (lambda **kw: Struct(name=sname, fields=fields, **kw)), ("Struct", sname, tuple(desc))


def arbitrary(t, name, kind, describe=True, hi=2):
    """(model, description) for one of KINDS, with every other field arbitrary."""
    null = t.bool(f"{name}.nullable")
    base = {"nullable": null}
    described = describe and t.bool(f"{name}.described")
    if described:
        base["description"] = t.text(f"{name}.description", NAMES, 0, 2)
    if kind in PLAIN:
        return PLAIN[kind](**base), (kind, null)
    if kind in TIMES:
        p = t.choice(f"{name}.precision", PRECISIONS)
        return TIMES[kind](precision=p, **base), (kind, null, p)
    if kind in CONTAINERS:
        m, d = small(t, f"{name}.element")
        return CONTAINERS[kind](element=m, **base), (kind, null, d)
    if kind == "Binary":
        b = t.int(f"{name}.size", *B64) if t.bool(f"{name}.sized") else None
        return Binary(byte_size=b, **base), (kind, null, b)
    if kind == "Geography":
        f, s = optional_text(t, f"{name}.format", hi), optional_text(t, f"{name}.srid", hi)
        return Geography(format=f, srid=s, **base), (kind, null, f, s)
    if kind == "Enum":
        ename = t.text(f"{name}.name", NAMES, 1, 1)
        x = t.int(f"{name}.item", *B64)
        return Enum(name=ename, type=Int64(), items=[x], **base), (kind, null, ename, x)
    if kind == "Map":
        (k, dk), (v, dv) = small(t, f"{name}.key"), small(t, f"{name}.value")
        return Map(key=k, value=v, **base), (kind, null, dk, dv)
    if kind == "Struct":
        make, d = struct(t, name, 1, described)
        return make(**base), (d, null)
    make, d = struct(t, name, 1, described)
    (field,) = (k for k, _ in d[2])
    p, c = t.choice(f"{name}.by", [((), ()), ((field,), ()), ((), (field,))])
    cname = t.text(f"{name}.cname", NAMES, 1, 1)
    return (Collection(name=cname, element=make(), partition_by=p, cluster_by=c, **base),
            ("Collection", null, cname, d, p, c))
