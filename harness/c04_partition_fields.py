"""C04: partition fields survive the trip through path components."""

from __future__ import annotations

import itertools
from datetime import date

from pydantic import ValidationError

from symex.case import Case

from arti.partitions import (
    DateField,
    Int8Field,
    Int16Field,
    Int32Field,
    Int64Field,
    NullField,
    PartitionField,
    PartitionKey,
)
from arti.types import Collection, Date, Int8, Int16, Int32, Int64, Null, String, Struct

INTS = {Int8Field: 8, Int16Field: 16, Int32Field: 32, Int64Field: 64}
# Complete component sets and the format spec of each component.
COMPLETE = {
    DateField: [{"value": ""}, {"iso": ""}, {"Y": "", "m": "02", "d": "02"}, {"Y": "04", "m": "", "d": ""}],
    **{c: [{"value": ""}, {"hex": ""}, {"value": "05"}] for c in INTS},
    NullField: [{"value": ""}],
}
REJECT = (ValueError, NotImplementedError, ValidationError)


def field(t, cls):
    if cls is DateField:
        return DateField(value=t.date("date"))
    if cls is NullField:
        return NullField()
    bits = INTS[cls]
    return cls(value=t.int("value", -(2 ** (bits - 1)), 2 ** (bits - 1) - 1))


def trip(t, cls, specs):
    f = field(t, cls)
    components = {n: ("{f." + n + (":" + s if s else "") + "}").format(f=f) for n, s in specs.items()}
    back = cls.from_components(**components)
    t.check(type(back) is cls, "same class")
    t.check(t.same(back, f), "equal after the trip")
    t.check(back == f, "compares equal")
    t.cover("trip")


def trip_default(t, cls):
    """The components that default templates use are a complete set."""
    f = field(t, cls)
    components = {}
    for name, spec in cls.default_components.items():
        t.check(name in cls.components, "default components exist")
        components[name] = ("{f." + spec + "}").format(f=f)
    t.check(cls.from_components(**components) == f, "default components are complete")
    t.cover("trip")


def values(t, cls):
    f = field(t, cls)
    v = f.value
    if cls is DateField:
        t.check(t.both(f.Y == v.year, f.m == v.month, f.d == v.day), "Y, m and d are those of the date")
        t.check(date.fromisoformat(f.iso) == v, "iso is the date")
        t.check(f.iso == f"{v.year:04}-{v.month:02}-{v.day:02}", "iso format")
        t.check(cls.components == {"Y", "m", "d", "iso", "value"}, "components")
    elif cls is NullField:
        t.check(v is None, "null")
        t.check(cls.components == {"value"}, "components")
    else:
        t.check(int(f.hex, 16) == v, "hex is the value in base 16")
        t.check(int(f"{f.value}") == v, "value is the value")
        t.check(cls.components == {"hex", "value"}, "components")
    t.cover("values")


GOOD = {"value": "1", "hex": "0x1", "iso": "2021-02-03", "Y": "2021", "m": "2", "d": "3", "other": "1"}


def subsets(t, cls):
    """Only complete component sets are understood."""
    names = sorted({"value", "hex", "iso", "Y", "m", "d", "other"})
    chosen = {n: GOOD[n] for n in names if t.bool("use_" + n)}
    if cls is DateField and "value" in chosen:
        chosen["value"] = "2021-02-03"
    if cls is NullField and "value" in chosen:
        chosen["value"] = "None"
    complete = [set(s) for s in COMPLETE[cls]]
    ok, r = t.accepts(REJECT, cls.from_components, **chosen)
    t.check(ok == (set(chosen) in complete), "exactly the complete sets are accepted")
    if ok:
        t.cover("complete")
        expect = {DateField: date(2021, 2, 3), NullField: None}.get(cls, 1)
        t.check(r.value == expect, "value")
        t.check(type(r) is cls, "type")


def int_text(t, cls, component, n):
    """Arbitrary short text: parsed as the integer it spells, or rejected."""
    text = t.text("text", "019fx-+ _", 0, n)
    base = 16 if component == "hex" else 10
    want_ok, want = t.accepts(ValueError, lambda: int(text, base))
    ok, r = t.accepts(REJECT, cls.from_components, **{component: text})
    t.check(ok == want_ok, "malformed text is rejected, well-formed text accepted")
    if ok:
        t.cover("accepted")
        t.check(r.value == want, "the integer the text spells")
        t.check(type(r) is cls, "type")


def date_text(t):
    y = t.text("Y", "0123456789", 0, 4)
    m = t.text("m", "0123", 0, 2)
    d = t.text("d", "01239x", 0, 2)
    want_ok, want = t.accepts(ValueError, lambda: date(int(y), int(m), int(d)))
    ok, r = t.accepts(REJECT, DateField.from_components, Y=y, m=m, d=d)
    t.check(ok == want_ok, "exactly the valid dates are accepted")
    if ok:
        t.cover("accepted")
        t.check(r.value == want, "the date the components spell")


def iso_text(t, component):
    """yyyy-mm-dd shaped text with arbitrary digits (and one arbitrary separator)."""
    y = t.text("Y", "0123456789", 4, 4)
    m = t.text("m", "0123456789", 2, 2)
    d = t.text("d", "0123456789", 2, 2)
    sep = t.choice("sep", ["-", "/", ""])
    text = f"{y}-{m}{sep}{d}"
    want_ok, want = t.accepts(ValueError, lambda: date(int(y), int(m), int(d)))
    ok, r = t.accepts(REJECT, DateField.from_components, **{component: text})
    t.check(ok == (want_ok and sep == "-"), "exactly the valid iso dates are accepted")
    if ok:
        t.cover("accepted")
        t.check(r.value == want, "the date the text spells")


def null_text(t):
    text = t.text("text", "Noneul", 0, 4)
    ok, r = t.accepts(REJECT, NullField.from_components, value=text)
    t.check(t.iff(ok, text == "None"), "only None is accepted")
    if ok:
        t.cover("accepted")
        t.check(r.value is None, "null")


BY_TYPE = {
    "date": (Date(), DateField),
    "int8": (Int8(), Int8Field),
    "int16": (Int16(), Int16Field),
    "int32": (Int32(), Int32Field),
    "int64": (Int64(), Int64Field),
    "null": (Null(), NullField),
}


def key_types(t):
    """A collection's partition key types are its partition fields, in order."""
    n = t.index("n", 4)
    names = list(BY_TYPE)
    fields, part = {"payload": String()}, []
    for i in range(n):
        kind = t.choice(f"kind{i}", names)
        fields[f"k{i}"] = BY_TYPE[kind][0]
        part.append((f"k{i}", BY_TYPE[kind][1]))
    if t.bool("reverse"):
        part.reverse()
    got = PartitionKey.types_from(
        Collection(element=Struct(fields=fields), partition_by=tuple(p for p, _ in part))
    )
    t.check(list(got.items()) == part, "one field class per partition field, in order")
    t.check(dict(PartitionKey.types_from(Struct(fields=fields))) == {}, "not partitioned")
    t.cover("types")


def lookup(t, name):
    type_, cls = BY_TYPE[name]
    t.check(PartitionField.get_class_for(type_) is cls, "field class of the type")
    f = field(t, cls)
    g = cls(value=f.value)
    t.check(f == g, "equal values are equal fields")
    t.check(hash(f) == hash(g), "equal fields have equal hashes")
    t.check(PartitionKey(a=f) == PartitionKey(a=g), "equal keys")


def CASES(tier):
    deep = tier == "thorough"
    out = []
    for cls, sets in COMPLETE.items():
        n = cls.__name__
        for s in sets:
            tag = ",".join(f"{k}:{v}" for k, v in s.items())
            out.append(Case(f"trip:{n}:{tag}", trip, {"cls": cls, "specs": s},
                            "every value of the width / every date", cover=("trip",)))
        out.append(Case(f"default:{n}", trip_default, {"cls": cls}, "every value", cover=("trip",)))
        out.append(Case(f"values:{n}", values, {"cls": cls}, "every value", cover=("values",)))
        out.append(Case(f"subsets:{n}", subsets, {"cls": cls}, "all 2^7 component name sets",
                        cover=("complete",)))
    for cls in (Int8Field, Int64Field):
        for comp in ("value", "hex"):
            k = 5 if deep else 4 if cls is Int64Field else 3
            out.append(Case(f"text:{cls.__name__}:{comp}", int_text, {"cls": cls, "component": comp, "n": k},
                            f"texts of up to {k} characters over 019fx-+ _", cover=("accepted",)))
    out.append(Case("text:date:Ymd", date_text, {}, "Y up to 4 digits, m and d up to 2 characters",
                    cover=("accepted",)))
    for comp in ("iso", "value"):
        out.append(Case(f"text:date:{comp}", iso_text, {"component": comp}, "yyyy-mm-dd shaped text",
                        cover=("accepted",)))
    out.append(Case("text:null", null_text, {}, "texts of up to 4 letters of None/null", cover=("accepted",)))
    out.append(Case("key_types", key_types, {}, "up to 3 partition fields of every kind, both orders",
                    cover=("types",)))
    for name in BY_TYPE:
        out.append(Case(f"lookup:{name}", lookup, {"name": name}, "every value"))
    return out
