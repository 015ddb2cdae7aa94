"""C18: Python type hints and Artigraph types convert back and forth faithfully."""

from __future__ import annotations

import datetime
import typing
from collections.abc import Mapping
from decimal import Decimal
from typing import Any, Literal, Optional, TypedDict, Union, get_args, get_origin, is_typeddict

from pydantic import BaseModel, create_model
from symex.case import Case

from arti.types import (
    Binary, Boolean, Collection, Date, DateTime, Enum, Float16, Float32, Float64, Geography, Int8,
    Int16, Int32, Int64, List, Map, Null, Set, String, Struct, Time, Timestamp, UInt8, UInt16,
    UInt32, UInt64,
)
from arti.types.pydantic import pydantic_type_system
from arti.types.python import python_type_system

NoneType = type(None)
B64 = (-(2**63), 2**63 - 1)

# hint -> type, and the types that become the hint.
SCALARS = (
    (int, Int64, (Int8, Int16, Int32, Int64)), (str, String, (String,)), (bool, Boolean, (Boolean,)),
    (float, Float64, (Float16, Float32, Float64)), (bytes, Binary, (Binary,)), (None, Null, (Null,)),
    (datetime.date, Date, (Date,)), (datetime.datetime, Timestamp, (Timestamp,)),
)
SEQUENCES = ((list, List, list), (tuple, List, list), (set, Set, set), (frozenset, Set, set))
UNSUPPORTED = (
    complex, object, Any, list, dict, set, tuple, Decimal, datetime.time, datetime.timedelta, typing.Callable,
    type[int], tuple[int, str], tuple[int], tuple[()], int | str, Union[int, str, None], Union[Literal[1], int],
    Union[Literal["a"], str, None], Literal[1, "a"], Literal[1, True], Union[Literal[1], Literal["a"]], 1, ...,
)
UNMAPPED = (Geography(), DateTime(precision="second"), Time(precision="second"), UInt8(), UInt16(), UInt32(), UInt64())
NAMES = "aB_"
LEAVES = ("scalar", "null", "optional")
INNER = ("scalar", "null", "optional", "sequence", "map", "literal", "struct", "union")


def make(cls, **kw):
    return cls(precision="microsecond", **kw) if cls is Timestamp else cls(**kw)


def shape(hint):
    """What a hint says, with the names and order of fields."""
    if hint is None or hint is NoneType:
        return None
    if is_typeddict(hint):
        return ("struct", hint.__name__, [(k, shape(v)) for k, v in typing.get_type_hints(hint).items()])
    if isinstance(hint, type) and get_origin(hint) is None and issubclass(hint, BaseModel):
        return ("model", hint.__name__, [(k, shape(f.annotation)) for k, f in hint.model_fields.items()])
    origin, args = get_origin(hint), get_args(hint)
    if origin is None:
        return hint
    if origin is Literal:
        return ("literal", list(args))
    if origin is typing.Union or str(origin) == "<class 'types.UnionType'>":
        rest = [a for a in args if a is not NoneType]
        return ("optional", [shape(a) for a in rest]) if len(rest) < len(args) else ("union", [shape(a) for a in rest])
    if origin is tuple and len(args) == 2 and args[1] is ...:
        return ("tuple", shape(args[0]))
    return (origin.__name__, [shape(a) for a in args])


def like(t, a, b):
    """Shapes are the same; the values of literals in any order."""
    if not isinstance(a, tuple) or not isinstance(b, tuple) or len(a) != len(b):
        return a is b if not (isinstance(a, tuple) or isinstance(b, tuple)) else False
    if a[0] != b[0]:
        return False
    if a[0] == "literal":
        return len(a[1]) == len(b[1]) and all([any([bool(x == y) for y in b[1]]) for x in a[1]]) and {type(x) for x in a[1]} == {type(x) for x in b[1]}
    if a[0] in ("struct", "model"):
        return (a[1] == b[1] and len(a[2]) == len(b[2])
                and all([bool(k == n) and like(t, x, y) for (k, x), (n, y) in zip(a[2], b[2])]))
    return len(a[1]) == len(b[1]) and all([like(t, x, y) for x, y in zip(a[1], b[1])])


def literals(t, name):
    """Distinct values of one type."""
    kind = t.index(f"{name}.of", 3)
    two = t.bool(f"{name}.two")
    if kind == 0:
        items = [t.int(f"{name}.0", *B64)] + ([t.int(f"{name}.1", *B64)] if two else [])
        cls = Int64
    elif kind == 1:
        items = [t.text(f"{name}.0", NAMES, 0, 2)] + ([t.text(f"{name}.1", NAMES, 0, 2)] if two else [])
        cls = String
    else:
        items = [True, False] if two else [t.bool(f"{name}.0")]
        cls = Boolean
    if two:
        t.assume(items[0] != items[1])
    return items, cls


def names(t, name, n):
    out = []
    for i in range(n):
        k = t.text(f"{name}.k{i}", NAMES, 1, 2)
        for other in out:
            t.assume(k != other)
        out.append(k)
    return out


def tree(t, name, kind, depth, models=False, lean=False):
    """(hint, type, shape of the hint the type has), of any content."""
    inner = INNER if depth > 1 else LEAVES

    def child(tail):
        n = f"{name}.{tail}"
        return tree(t, n, inner[t.index(f"{n}.kind", len(inner))], depth - 1, models, lean)

    scalars = [s for s in SCALARS if s[0] in (str, None)] if lean else SCALARS
    if kind == "scalar":
        hint, cls, _ = scalars[t.index(f"{name}.is", len(scalars))]
        return hint, make(cls), hint
    if kind == "null":
        hint, cls, _ = SCALARS[0]
        return Optional[hint], make(cls, nullable=True), ("optional", [hint])
    if kind == "optional":
        # None itself has no optional form.
        hint, cls, _ = t.choice(f"{name}.is", [s for s in scalars if s[0] is not None])
        return hint | None, make(cls, nullable=True), ("optional", [hint])
    if kind == "optionals":
        hint, type_, want = tree(t, f"{name}.of", "container", depth, models, lean)
        return (Optional[hint] if t.bool(f"{name}.way") else hint | None), type_.model_copy(update={"nullable": True}), ("optional", [want])
    if kind == "sequence":
        py, cls, back = SEQUENCES[t.index(f"{name}.is", len(SEQUENCES))]
        hint, type_, want = child("e")
        return (py[hint, ...] if py is tuple else py[hint]), cls(element=type_), (back.__name__, [want])
    if kind == "map":
        k, kt, kw = child("key") if depth <= 1 else tree(t, f"{name}.key", "scalar", 1, models, lean)
        v, vt, vw = child("value")
        py = Mapping if t.bool(f"{name}.mapping") else dict
        return py[k, v], Map(key=kt, value=vt), ("dict", [kw, vw])
    if kind == "literal":
        items, cls = ([t.int(f"{name}.0", *B64)], Int64) if lean else literals(t, name)
        return Literal[tuple(items)], Enum(type=cls(), items=items), ("literal", items)
    if kind == "union":
        items = [t.int(f"{name}.{i}", *B64) for i in range(3)]
        t.assume(items[0] != items[1])
        null = t.bool(f"{name}.null")
        hint = Union[Literal[items[0], items[1]], Literal[items[2]]]
        want = ("literal", items if t.both(items[2] != items[0], items[2] != items[1]) else items[:2])
        type_ = Enum(type=Int64(), items=items, nullable=null)
        return (Optional[hint], type_, ("optional", [want])) if null else (hint, type_, want)
    if kind == "struct":
        # Fields of models are Python names.
        ks = t.choice(f"{name}.names", [["a", "b1"], ["z", "y"]]) if models else ["b", "a"] if lean else names(t, name, 2)
        children = [child(str(i)) for i in range(2)] if depth <= 1 else [child("0"), tree(t, f"{name}.1", "optional", 1, models, lean)]
        sname = "Row" if lean else t.choice(f"{name}.name", ["Row", "anon"])
        return (TypedDict(sname, {k: c[0] for k, c in zip(ks, children)}),
                Struct(name=sname, fields={k: c[1] for k, c in zip(ks, children)}),
                ("struct", sname, [(k, c[2]) for k, c in zip(ks, children)]))
    if kind == "container":
        kinds = ("sequence", "map", "literal", "struct")
        return tree(t, f"{name}.c", kinds[t.index(f"{name}.c", len(kinds))], depth, models, lean)
    raise AssertionError(kind)


def ordered(type_):
    """The fields of every struct, in order (equal structs may order them differently)."""
    if isinstance(type_, Struct):
        return [(k, ordered(v)) for k, v in type_.fields.items()]
    return [ordered(getattr(type_, n)) for n in ("element", "key", "value") if hasattr(type_, n)]


def same_order(a, b):
    return len(a) == len(b) and all([
        bool(x[0] == y[0]) and same_order(x[1], y[1]) if isinstance(x, tuple) else same_order(x, y) for x, y in zip(a, b)])


def hints(t, kind, depth, lean):
    hint, type_, want = tree(t, "h", kind, depth, lean=lean)
    got = python_type_system.to_artigraph(hint, hints={})
    t.check(got == type_, "the type of a hint")
    t.check(same_order(ordered(got), ordered(type_)), "the fields keep their order")
    back = python_type_system.to_system(got, hints={})
    t.check(like(t, shape(back), want), "the hint of the type of a hint")
    t.check(python_type_system.to_artigraph(back, hints={}) == type_, "the type of the hint of the type")
    t.cover("converted")


def narrow(t, kind):
    """Types that Python does not tell apart become the widest; nothing else changes."""
    null = t.bool("nullable")
    described = {"description": "d"} if t.bool("described") else {}
    if kind == "scalar":
        hint, cls, froms = SCALARS[t.index("is", len(SCALARS))]
        source = t.choice("from", list(froms))
        if cls is Null:
            t.assume(not null)
        if source is Timestamp:
            type_ = Timestamp(precision=t.choice("precision", ["second", "millisecond", "microsecond", "nanosecond"]), nullable=null, **described)
        elif source is Binary and t.bool("sized"):
            type_ = Binary(byte_size=t.int("size", *B64), nullable=null, **described)
        else:
            type_ = source(nullable=null, **described)
        wide, want = make(cls, nullable=null), hint
    elif kind == "enum":
        item = t.int("item", *B64)
        source = t.choice("from", [Int8, Int16, Int32, Int64])
        type_ = Enum(name=t.choice("name", ["E", "anon"]), type=source(), items=[item], nullable=null, **described)
        wide, want = Enum(type=Int64(), items=[item], nullable=null), ("literal", [item])
    else:
        k, l = names(t, "f", 2)
        source = t.choice("from", [Int8, Int16, Int32, Float16, Float32])
        hint = float if source in (Float16, Float32) else int
        fields = {k: source(**described), l: List(element=source(nullable=True), **described)}
        wfields = {k: make(Float64 if hint is float else Int64), l: List(element=make(Float64 if hint is float else Int64, nullable=True))}
        shp = [(k, hint), (l, ("list", [("optional", [hint])]))]
        if kind == "struct":
            type_ = Struct(name="R", fields=fields, nullable=null, **described)
            wide, want = Struct(name="R", fields=wfields, nullable=null), ("struct", "R", shp)
        elif kind == "collection":
            by = t.choice("by", [(), (k,)])
            type_ = Collection(name="C", element=Struct(name="R", fields=fields), partition_by=by, nullable=null, **described)
            wide, want = List(element=Struct(name="R", fields=wfields), nullable=null), ("list", [("struct", "R", shp)])
        elif kind == "map":
            type_ = Map(key=source(), value=Struct(fields=fields), nullable=null, **described)
            wide = Map(key=make(Float64 if hint is float else Int64), value=Struct(fields=wfields), nullable=null)
            want = ("dict", [hint, ("struct", "anon", shp)])
        else:
            type_ = Set(element=source(nullable=True), nullable=null, **described)
            wide, want = Set(element=make(Float64 if hint is float else Int64, nullable=True), nullable=null), ("set", [("optional", [hint])])
    got = python_type_system.to_system(type_, hints={})
    t.check(like(t, shape(got), ("optional", [want]) if null else want), "the hint of a type")
    t.check(python_type_system.to_artigraph(got, hints={}) == wide, "a type is only widened")
    t.cover("converted")


def wrapped(t, bad, wraps):
    """A hint with another one somewhere inside."""
    for i in range(t.index("depth", wraps + 1)):
        bad = t.choice(f"wrap{i}", [
            lambda h: list[h], lambda h: tuple[h, ...], lambda h: set[h], lambda h: dict[str, h], lambda h: dict[h, int],
            lambda h: TypedDict("R", {"a": int, "b": h}), lambda h: Optional[h]])(bad)
    return bad


def unsupported(t, wraps, which):
    bad = t.choice("hint", [h for i, h in enumerate(UNSUPPORTED) if i % 5 == which])
    try:
        hint = wrapped(t, bad, wraps)
    except TypeError:
        t.assume(False)  # not a hint
    # Unions absorb what they contain.
    if shape(hint) == ("optional", [shape(int)]):
        t.assume(False)
    for system in (python_type_system, pydantic_type_system):
        t.check(t.raises((NotImplementedError, ValueError, TypeError), lambda: system.to_artigraph(hint, hints={})),
                "a hint that is not supported is rejected")
    t.cover("rejected")


def unmapped(t, wraps):
    type_ = t.choice("type", list(UNMAPPED))
    for i in range(t.index("depth", wraps + 1)):
        type_ = t.choice(f"wrap{i}", [
            lambda x: List(element=x), lambda x: Set(element=x), lambda x: Map(key=x, value=Int64()), lambda x: Map(key=Int64(), value=x),
            lambda x: Struct(fields={"a": Int64(), "b": x}), lambda x: x.model_copy(update={"nullable": True})])(type_)
    for system in (python_type_system, pydantic_type_system):
        t.check(t.raises((NotImplementedError,), lambda: system.to_system(type_, hints={})), "a type without a hint is rejected")
    t.cover("rejected")


def models(t, kind, depth, lean):
    """A model with a field of any hint, on its own or nested."""
    hint, type_, want = tree(t, "h", kind, depth, models=True, lean=lean)
    nested = t.index("nested", 3)  # no model, in a field, or in a list
    optional = t.bool("optional")
    inner = create_model("Inner", x=(NoneType if hint is None else hint, ...), y=(Optional[int], None if t.bool("default") else ...))

    def field(name, ty):
        """Named types take the name of their field."""
        return ty.model_copy(update={"name": name}) if isinstance(ty, (Struct, Enum)) else ty

    itype = Struct(name="Inner", fields={"x": field("x", type_), "y": Int64(nullable=True)})
    ishape = ("model", "Inner", [("x", remodel(want, "x")), ("y", ("optional", [int]))])
    if nested == 0:
        model, mtype, mshape = inner, itype, ishape
    else:
        ref = inner if nested == 1 else list[inner]
        rtype = field("m", itype) if nested == 1 else List(element=itype)
        rshape = ("model", "m" if nested == 1 else "Inner", ishape[2])
        rshape = rshape if nested == 1 else ("list", [rshape])
        if optional:
            ref, rtype, rshape = Optional[ref], rtype.model_copy(update={"nullable": True}), ("optional", [rshape])
        model = create_model("Outer", z=(str, ...), m=(ref, ...), a=(bool, ...))
        mtype = Struct(name="Outer", fields={"z": String(), "m": rtype, "a": Boolean()})
        mshape = ("model", "Outer", [("z", str), ("m", rshape), ("a", bool)])
    got = pydantic_type_system.to_artigraph(model, hints={})
    t.check(got == mtype, "the type of a model")
    t.check(same_order(ordered(got), ordered(mtype)), "the fields keep their order")
    back = pydantic_type_system.to_system(got, hints={})
    t.check(like(t, shape(back), mshape), "the model of the type of a model")
    t.check(pydantic_type_system.to_artigraph(back, hints={}) == mtype, "the type of the model of the type")
    t.cover("converted")


class Written(TypedDict):
    z: int
    a: str | None


class More(Written):
    more: list[Written]


def written(t):
    """Hints that are spelled as text, and inherited ones."""
    texts = {"int": (int, Int64()), "str | None": (("optional", [str]), String(nullable=True)),
             "Optional[list[int]]": (("optional", [("list", [int])]), List(element=Int64(), nullable=True)),
             "Literal[1]": (("literal", [1]), Enum(type=Int64(), items=[1]))}
    row = Struct(name="Written", fields={"z": Int64(), "a": String(nullable=True)})
    wshape = ("struct", "Written", [("z", int), ("a", ("optional", [str]))])
    i = t.index("hint", len(texts) + 2)
    if i < len(texts):
        text, (want, type_) = list(texts.items())[i]
        other = t.choice("other", list(texts))
        k, l = names(t, "f", 2)
        hint = TypedDict("R", {k: text, l: other})
        type_, want = Struct(name="R", fields={k: type_, l: texts[other][1]}), ("struct", "R", [(k, want), (l, texts[other][0])])
    elif i == len(texts):
        hint, type_, want = Written, row, wshape
    else:
        hint = More
        type_ = Struct(name="More", fields={**row.fields, "more": List(element=row)})
        want = ("struct", "More", [*wshape[2], ("more", ("list", [wshape]))])
    got = python_type_system.to_artigraph(hint, hints={})
    t.check(got == type_ and same_order(ordered(got), ordered(type_)), "the type of a hint")
    t.check(like(t, shape(python_type_system.to_system(got, hints={})), want), "the hint of the type of a hint")
    t.cover("converted")


def remodel(want, name=None):
    """Structs become models when converted back, named like their field."""
    if not isinstance(want, tuple):
        return want
    if want[0] == "struct":
        return ("model", name or want[1], [(k, remodel(v, k)) for k, v in want[2]])
    if want[0] == "optional":
        return ("optional", [remodel(v, name) for v in want[1]])
    return want if want[0] == "literal" else (want[0], [remodel(v) for v in want[1]])


def CASES(tier):
    depths = (1, 2) if tier == "quick" else (1, 2, 3)
    for depth in depths:
        for kind in ("sequence", "map", "struct", "optionals") + (("scalar", "optional", "literal", "union") if depth == 1 else ()):
            yield Case(f"hints:{kind}:{depth}", hints, dict(kind=kind, depth=depth, lean=depth > 1 or kind == "optionals" and tier == "quick"),
                       bounds=f"{kind} with any hint of depth {depth} inside, any field names of up to 2 characters, any literals", cover=("converted",))
    yield Case("written", written, bounds="typed dictionaries whose hints are spelled as text or inherited", cover=("converted",))
    for kind in ("scalar", "enum", "struct", "collection", "map", "set"):
        yield Case(f"types:{kind}", narrow, dict(kind=kind), bounds="any width, precision, size, name, nullability", cover=("converted",))
    for which in range(5):
        yield Case(f"unsupported:hints:{which}", unsupported, dict(wraps=2, which=which), bounds="any of the unsupported hints in up to two others", cover=("rejected",))
    yield Case("unsupported:types", unmapped, dict(wraps=2), bounds="any of the unsupported types in up to two others", cover=("rejected",))
    for kind in ("scalar", "optional", "sequence", "map", "literal", "struct", "union"):
        yield Case(f"models:{kind}", models, dict(kind=kind, depth=1, lean=kind == "struct" or kind == "map" and tier == "quick"), bounds="models of two levels with a field of any hint of depth one", cover=("converted",))
