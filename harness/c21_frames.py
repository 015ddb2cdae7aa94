"""C21: NumPy and pandas conversions preserve Artigraph types."""

from __future__ import annotations

import numpy as np
import pandas as pd
from symex.case import Case

from arti.types import (
    Binary, Boolean, Collection, Date, DateTime, Enum, Float16, Float32, Float64, Geography, Int8,
    Int16, Int32, Int64, List, Map, Null, Set, String, Struct, Time, Timestamp, UInt8, UInt16,
    UInt32, UInt64,
)
from arti.types.numpy import numpy_type_system
from arti.types.pandas import pandas_type_system

NAMES = "aB_"
# The type, its scalar in NumPy, example values
SCALARS = (
    (Binary, np.bytes_, (b"", b"abc")), (Boolean, np.bool_, (False, True)), (String, np.str_, ("", "abc")),
    (Float16, np.float16, (0.0, -1.5)), (Float32, np.float32, (0.0, -1.5)), (Float64, np.float64, (0.0, -1.5)),
    (Int8, np.int8, (0, -7)), (Int16, np.int16, (0, -7)), (Int32, np.int32, (0, -7)), (Int64, np.int64, (0, -7)),
    (UInt8, np.uint8, (0, 7)), (UInt16, np.uint16, (0, 7)), (UInt32, np.uint32, (0, 7)), (UInt64, np.uint64, (0, 7)),
)
UNSUPPORTED = (
    lambda: Date(), lambda: DateTime(precision="second"), lambda: Time(precision="second"),
    lambda: Timestamp(precision="second"), lambda: Geography(), lambda: Null(),
    lambda: Enum(type=String(), items={"a"}), lambda: Map(key=String(), value=Int8()), lambda: Set(element=Int8()),
)


FEW = tuple(s for s in SCALARS if s[0] in (Binary, Boolean, String, Float32, Int64, UInt8))


def scalar(t, name, flags=True, of=SCALARS):
    cls, np_type, values = t.choice(f"{name}.is", of)
    kw = {}
    if flags:  # neither is kept
        kw["nullable"] = t.bool(f"{name}.nullable")
        if t.bool(f"{name}.described"):
            kw["description"] = t.text(f"{name}.description", NAMES, 0, 2)
    if cls is Binary and flags and t.bool(f"{name}.sized"):
        kw["byte_size"] = t.int(f"{name}.size", 0, 100)
    return cls(**kw), cls(), np_type, values


def nested(t, name, type_, depth):
    for i in range(depth):
        type_ = List(element=type_, nullable=t.bool(f"{name}{i}.nullable"))
    return type_


def plain(type_, depth):
    for _ in range(depth):
        type_ = List(element=type_)
    return type_


def has_dtype(series, np_type):
    if np_type is np.str_:
        return series.dtype == np.dtype("O") and all(isinstance(v, str) for v in series)
    if np_type is np.bytes_:
        return (series.dtype == np.dtype("O") or series.dtype.kind == "S") and all(isinstance(v, bytes) for v in series)
    return series.dtype == np.dtype(np_type)


def arrays(t, depth):
    """Scalars and nested lists as NumPy types and arrays."""
    type_, back, np_type, values = scalar(t, "s")
    made = numpy_type_system.to_system(nested(t, "l", type_, depth), hints={})
    if depth == 0:
        t.check(made is np_type, "representation")
    else:
        t.check(isinstance(made, np.ndarray), "is an array")
        t.check(made.ndim == depth, "dimensions")
        t.check(made.dtype.type is np_type, "element type")
        t.check(made.size > 0, "shape")
    t.check(numpy_type_system.to_artigraph(made, hints={}) == plain(back, depth), "comes back")


def any_array(t, depth):
    """Arrays of whatever shape and content, and dtypes, to Artigraph."""
    cls, np_type, values = t.choice("is", SCALARS)
    if depth == 0:
        form = t.index("form", 3)
        if form == 0:
            source = np_type
        elif form == 1:
            source = np.dtype(np_type)
        else:
            source = np.array([values[1]], dtype=np_type).dtype  # sized, for texts and bytes
    else:
        shape = tuple(1 + t.index(f"n{i}", 2) for i in range(depth))
        source = np.full(shape, values[t.index("value", 2)], dtype=np_type)
    t.check(numpy_type_system.to_artigraph(source, hints={}) == plain(cls(), depth), "type")


def unsupported_array(t, depth):
    type_ = t.choice("is", (*UNSUPPORTED, lambda: Struct(fields={t.text("k", NAMES, 1, 2): Int8()})))()
    type_ = nested(t, "l", type_, depth)
    t.raises((NotImplementedError,), lambda: numpy_type_system.to_system(type_, hints={}))


def unsupported_source(t):
    source = t.choice("source", (
        int, str, None, 5, "int8", object(), np.datetime64, np.dtype("datetime64[s]"), np.dtype([("a", int)]),
        np.array([None], dtype=object), np.array(["2020-01-01"], dtype="datetime64[D]"), np.complex128))
    t.raises((NotImplementedError,), lambda: numpy_type_system.to_artigraph(source, hints={}))


def series(t):
    type_, back, np_type, values = scalar(t, "s")
    made = pandas_type_system.to_system(List(element=type_, nullable=t.bool("nullable")), hints={})
    t.check(isinstance(made, pd.Series), "is a series")
    t.check(len(made) > 0, "has a value")
    t.check(has_dtype(made, np_type), "dtype")
    t.check(pandas_type_system.to_artigraph(made, hints={}) == List(element=back), "comes back")


def any_series(t):
    cls, np_type, values = t.choice("is", SCALARS)
    source = pd.Series([values[t.index(f"v{i}", 2)] for i in range(1 + t.index("n", 2))],
                       dtype=object if np_type in (np.str_, np.bytes_) else np_type)
    t.check(pandas_type_system.to_artigraph(source, hints={}) == List(element=cls()), "type")


def pandas_scalar(t):
    """What pandas has no adapter for is left to NumPy."""
    type_, back, np_type, values = scalar(t, "s")
    made = pandas_type_system.to_system(type_, hints={})
    t.check(made is np_type, "representation")
    t.check(pandas_type_system.to_artigraph(made, hints={}) == back, "comes back")
    t.check(pandas_type_system.to_artigraph(np.array([[values[1]]], dtype=np_type), hints={}) == plain(back, 2), "nested array")


def names(t, n):
    out = []
    for i in range(n):
        k = t.text(f"k{i}", NAMES, 1, 2)
        for other in out:
            t.assume(k != other)
        out.append(k)
    return out


def frame(t, n):
    keys = names(t, n)
    columns = [scalar(t, f"c{i}", flags=n == 1, of=SCALARS if i == 0 else FEW) for i in range(n)]
    made = pandas_type_system.to_system(
        List(element=Struct(fields={k: c[0] for k, c in zip(keys, columns)}), nullable=n == 1 and t.bool("nullable")), hints={})
    t.check(isinstance(made, pd.DataFrame), "is a frame")
    t.check(len(made.columns) == n, "columns")
    for key, column, (_, _, np_type, _) in zip(keys, made.columns, columns):
        t.check(column == key, "column name")
        t.check(isinstance(made[key], pd.Series), "column")
        t.check(has_dtype(made[key], np_type), "column dtype")
    back = pandas_type_system.to_artigraph(made, hints={})
    t.check(back == List(element=Struct(fields={k: c[1] for k, c in zip(keys, columns)})), "comes back")
    t.check(len(back.element.fields) == n, "order")
    for key, field in zip(keys, back.element.fields):
        t.check(field == key, "field name")


def any_frame(t, n):
    keys = names(t, n)
    columns = [t.choice(f"c{i}.is", SCALARS if i == 0 else FEW) for i in range(n)]
    rows = 1 + (n < 3 and t.index("rows", 2))
    source = pd.DataFrame({
        k: pd.Series([values[(i + j) % 2] for j in range(rows)], dtype=object if np_type in (np.str_, np.bytes_) else np_type)
        for i, (k, (_, np_type, values)) in enumerate(zip(keys, columns))})
    back = pandas_type_system.to_artigraph(source, hints={})
    t.check(back == List(element=Struct(fields={k: c[0]() for k, c in zip(keys, columns)})), "type")
    for key, field in zip(keys, back.element.fields):
        t.check(field == key, "field name")


def unsupported_column(t):
    """Wherever the column of another type is."""
    n = 1 + t.index("n", 2)
    keys = names(t, n)
    at = t.index("at", n)
    other = t.choice("is", (*UNSUPPORTED, lambda: List(element=String(), nullable=t.bool("nullable")), lambda: List(element=List(element=Int8())),
                            lambda: List(element=Struct(fields={"a": Int8()})), lambda: Struct(fields={"a": Int8()}),
                            lambda: Struct(fields={}), lambda: Struct(fields={"a": Struct(fields={"b": Int8()})}),
                            lambda: Collection(element=Struct(fields={"a": Int8()}))))()
    type_ = Struct(fields={k: other if i == at else Int8() for i, k in enumerate(keys)})
    t.raises((NotImplementedError,), lambda: pandas_type_system.to_system(List(element=type_), hints={}))
    t.raises((NotImplementedError,), lambda: pandas_type_system.to_system(type_, hints={}))
    if not isinstance(other, Struct):
        t.raises((NotImplementedError,), lambda: pandas_type_system.to_system(List(element=other), hints={}))


def unsupported_pandas_source(t):
    values = t.choice("values", (
        [None], [1, "a"], [{"a": 1}], [[1]], [{1}], [object()], np.array(["2020-01-01"], dtype="datetime64[s]")))
    s = pd.Series(values)
    t.raises((NotImplementedError,), lambda: pandas_type_system.to_artigraph(s, hints={}))
    t.raises((NotImplementedError,), lambda: pandas_type_system.to_artigraph(
        pd.DataFrame({t.text("k", NAMES, 1, 2): pd.Series([0] * len(values)), "zz": s}), hints={}))


def CASES(tier):
    deep = tier == "thorough"
    out = []
    for depth in range(5 if deep else 4):
        out.append(Case(f"arrays, depth {depth}", arrays, {"depth": depth}, f"all scalar types with symbolic flags and sizes; {depth} levels of lists"))
        out.append(Case(f"any array, depth {depth}", any_array, {"depth": depth}, f"all scalar types; shapes up to 2 in {depth} dimensions"))
        out.append(Case(f"unsupported types, depth {depth}", unsupported_array, {"depth": depth}, f"10 types below {depth} levels of lists"))
    out.append(Case("unsupported sources", unsupported_source, {}, "12 sources"))
    out.append(Case("series", series, {}, "all scalar types with symbolic flags and sizes"))
    out.append(Case("any series", any_series, {}, "all scalar types; up to 2 values"))
    out.append(Case("scalars in pandas", pandas_scalar, {}, "all scalar types with symbolic flags and sizes"))
    for n in range(4 if deep else 3):
        out.append(Case(f"frame of {n}", frame, {"n": n}, f"{n} columns of symbolic distinct names (1-2 characters of {NAMES!r}), all scalar types", budget_s=600))
        out.append(Case(f"any frame of {n}", any_frame, {"n": n}, f"{n} columns of symbolic distinct names; 1-2 rows", budget_s=600))
    out.append(Case("unsupported columns", unsupported_column, {}, "16 types in either of up to two columns"))
    out.append(Case("unsupported pandas sources", unsupported_pandas_source, {}, "7 kinds of values"))
    return out
