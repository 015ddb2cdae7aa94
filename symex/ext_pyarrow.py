"""Stand-in for pyarrow's type constructors (C code), so that names, sizes and time zones can be symbolic.

Every explored path is replayed on the real pyarrow, which checks this model.
"""

from __future__ import annotations

import sys
import types as _types

from .engine import Unsupported

UNITS = ("s", "ms", "us", "ns")


def _missing(name):
    if name.startswith("__"):
        raise AttributeError(name)
    raise Unsupported(f"pyarrow: {name}")


class DataType:
    bits = None

    def __init__(self, kind, *args):
        self.kind, self.args = kind, args

    def __eq__(self, other):
        return isinstance(other, DataType) and self.equals(other)

    def equals(self, other, *, check_metadata=False):
        if self.kind != other.kind or len(self.args) != len(other.args):
            return False
        return all([bool(a == b) for a, b in zip(self.args, other.args)])

    def __hash__(self):
        return hash(self.kind)

    def __str__(self):
        return self.kind

    def __repr__(self):
        return f"DataType({self.kind})"

    @property
    def num_fields(self):
        return len(self.args)

    def __getattr__(self, name):
        _missing(f"{self.kind}.{name}")


class FixedSizeBinaryType(DataType):
    byte_width = property(lambda self: self.args[0])


class TimestampType(DataType):
    unit = property(lambda self: self.args[0])
    tz = property(lambda self: self.args[1])


class Time32Type(DataType):
    unit = property(lambda self: self.args[0])


class Time64Type(DataType):
    unit = property(lambda self: self.args[0])


class DurationType(DataType):
    unit = property(lambda self: self.args[0])


class ListType(DataType):
    value_field = property(lambda self: self.args[0])
    value_type = property(lambda self: self.args[0].type)

    def equals(self, other, *, check_metadata=False):  # the name of the item does not count
        return self.kind == other.kind and self.args[0]._like(other.args[0])


class LargeListType(ListType):
    pass


class FixedSizeListType(DataType):
    value_field = property(lambda self: self.args[0])
    value_type = property(lambda self: self.args[0].type)
    list_size = property(lambda self: self.args[1])


class MapType(DataType):
    key_field = property(lambda self: self.args[0])
    key_type = property(lambda self: self.args[0].type)
    item_field = property(lambda self: self.args[1])
    item_type = property(lambda self: self.args[1].type)
    keys_sorted = property(lambda self: self.args[2])


class _Fields:
    def __iter__(self):
        return iter(self._fields)

    def __len__(self):
        return len(self._fields)

    def field(self, i):
        if isinstance(i, str):
            (found,) = [f for f in self._fields if f.name == i]
            return found
        return self._fields[i]

    __getitem__ = field

    def get_field_index(self, name):
        hits = [i for i, f in enumerate(self._fields) if f.name == name]
        return hits[0] if len(hits) == 1 else -1

    def get_all_field_indices(self, name):
        return [i for i, f in enumerate(self._fields) if f.name == name]


class StructType(_Fields, DataType):
    _fields = property(lambda self: self.args)


class Field:
    def __init__(self, name, type, nullable=True, metadata=None):
        self.name, self.type, self.nullable = name, type, bool(nullable)
        if type.kind == "null" and not self.nullable:
            raise ValueError("A null type field may not be non-nullable")
        self.metadata = _metadata(metadata)

    def _like(self, other):
        return self.nullable == other.nullable and self.type == other.type

    def __eq__(self, other):
        return isinstance(other, Field) and bool(self.name == other.name) and self._like(other)

    def equals(self, other, check_metadata=False):
        return self == other and (not check_metadata or self.metadata == other.metadata)

    def __hash__(self):
        return 0

    def with_nullable(self, nullable):
        return Field(self.name, self.type, nullable, self.metadata)

    def with_name(self, name):
        return Field(name, self.type, self.nullable, self.metadata)

    def with_type(self, type):
        return Field(self.name, type, self.nullable, self.metadata)

    def with_metadata(self, metadata):
        return Field(self.name, self.type, self.nullable, metadata)

    def remove_metadata(self):
        return self.with_metadata(None)

    def __getattr__(self, name):
        _missing(f"field.{name}")


def _encoded(x):
    return x.encode() if isinstance(x, str) else x


def _metadata(m):
    return {_encoded(k): _encoded(v) for k, v in m.items()} if m else None


class Schema(_Fields):
    def __init__(self, fields, metadata=None):
        self._fields = tuple(fields)
        self.metadata = _metadata(metadata)

    names = property(lambda self: [f.name for f in self._fields])
    types = property(lambda self: [f.type for f in self._fields])

    def __eq__(self, other):
        return isinstance(other, Schema) and self.equals(other)

    def equals(self, other, check_metadata=False):
        return (len(self) == len(other) and all([a == b for a, b in zip(self, other)])
                and (not check_metadata or self.metadata == other.metadata))

    def __hash__(self):
        return 0

    def with_metadata(self, metadata):
        return Schema(self._fields, metadata)

    def add_metadata(self, metadata):
        return self.with_metadata(metadata)

    def remove_metadata(self):
        return self.with_metadata(None)

    def append(self, f):
        return Schema((*self._fields, f), self.metadata)

    def __getattr__(self, name):
        _missing(f"schema.{name}")


def _simple(name, type_name=None):
    dt = DataType(type_name or name)

    def make():
        return dt

    make.__name__ = name
    return make


def field(name, type=None, nullable=True, metadata=None):
    if not isinstance(type, DataType):
        raise TypeError(f"DataType expected, got {type}")
    return Field(name, type, nullable, metadata)


def _item(x, name, nullable=True):
    if isinstance(x, Field):
        return x
    if not isinstance(x, DataType):
        raise TypeError("DataType or Field expected")
    return Field(name, x, nullable)


def list_(value_type, list_size=-1):
    if list_size == -1:
        return ListType("list", _item(value_type, "item"))
    return FixedSizeListType("fixed_size_list", _item(value_type, "item"), list_size)


def large_list(value_type):
    return LargeListType("large_list", _item(value_type, "item"))


def map_(key_type, item_type, keys_sorted=False):
    return MapType("map", _item(key_type, "key", False), _item(item_type, "value"), bool(keys_sorted))


def _entries(fields):
    if hasattr(type(fields), "items"):
        fields = list(fields.items())
    return tuple(f if isinstance(f, Field) else field(*f) for f in fields)


def struct(fields):
    return StructType("struct", *_entries(fields))


def schema(fields, metadata=None):
    if isinstance(fields, Schema):
        return fields if metadata is None else fields.with_metadata(metadata)
    return Schema(_entries(fields), metadata)


_BINARY = DataType("binary")


def binary(length=-1):
    if not isinstance(length, int):
        raise TypeError("an integer is required")
    if length == -1:
        return _BINARY
    if not -(2**31) <= length < 2**31:
        raise OverflowError("value too large to convert to int")
    return FixedSizeBinaryType("fixed_size_binary", length)


def timestamp(unit, tz=None):
    if unit not in UNITS:
        raise ValueError(f"Invalid time unit: {unit!r}")
    return TimestampType("timestamp", unit, tz if tz else None)


def time32(unit):
    if unit not in ("s", "ms"):
        raise ValueError(f"Invalid time unit for time32: {unit!r}")
    return Time32Type("time32", unit)


def time64(unit):
    if unit not in ("us", "ns"):
        raise ValueError(f"Invalid time unit for time64: {unit!r}")
    return Time64Type("time64", unit)


def duration(unit):
    return DurationType("duration", unit)


SIMPLE = {"string": "string", "utf8": "string", "null": "null", "bool_": "bool", "date32": "date32", "date64": "date64",
          "float16": "halffloat", "float32": "float", "float64": "double", "large_string": "large_string", "large_utf8": "large_string",
          "large_binary": "large_binary", "string_view": "string_view", "binary_view": "binary_view",
          **{f"{u}int{n}": f"{u}int{n}" for u in ("", "u") for n in (8, 16, 32, 64)}}
KINDS = {"is_boolean": ("bool",), "is_float16": ("halffloat",), "is_float32": ("float",), "is_float64": ("double",),
         "is_unicode": ("string",), "is_large_unicode": ("large_string",),
         "is_floating": ("halffloat", "float", "double"), "is_date": ("date32", "date64"), "is_time": ("time32", "time64"),
         "is_temporal": ("date32", "date64", "time32", "time64", "timestamp", "duration"),
         "is_nested": ("list", "large_list", "fixed_size_list", "map", "struct"),
         "is_signed_integer": tuple(f"int{n}" for n in (8, 16, 32, 64)), "is_unsigned_integer": tuple(f"uint{n}" for n in (8, 16, 32, 64)),
         "is_integer": tuple(f"{u}int{n}" for u in ("", "u") for n in (8, 16, 32, 64)),
         "is_decimal": (), "is_decimal128": (), "is_decimal256": (), "is_dictionary": (), "is_interval": (), "is_union": ()}


def install():
    pa = _types.ModuleType("pyarrow")
    pa.__dict__.update(
        DataType=DataType, Field=Field, Schema=Schema, FixedSizeBinaryType=FixedSizeBinaryType, TimestampType=TimestampType,
        Time32Type=Time32Type, Time64Type=Time64Type, DurationType=DurationType, ListType=ListType, LargeListType=LargeListType,
        FixedSizeListType=FixedSizeListType, MapType=MapType, StructType=StructType, field=field, list_=list_, large_list=large_list,
        map_=map_, struct=struct, schema=schema, binary=binary, timestamp=timestamp, time32=time32, time64=time64, duration=duration)
    for name, kind in SIMPLE.items():
        setattr(pa, name, _simple(name, kind))
    made = {kind: getattr(pa, name)() for name, kind in SIMPLE.items()}
    for name, kind in SIMPLE.items():  # pa.string() is pa.utf8()
        fn = (lambda k: lambda: made[k])(kind)
        fn.__name__ = name
        setattr(pa, name, fn)
    pat = _types.ModuleType("pyarrow.types")
    names = {*SIMPLE.values(), "binary", "fixed_size_binary", "timestamp", "time32", "time64", "duration", "list", "large_list",
             "fixed_size_list", "map", "struct"} - {"bool", "halffloat", "float", "double"}
    for name, kinds in {**{f"is_{n}": (n,) for n in names}, **KINDS}.items():
        fn = (lambda ks: lambda t: t.kind in ks)(kinds)
        fn.__name__ = name
        setattr(pat, name, fn)
    pa.types = pat
    pa.lib = _types.ModuleType("pyarrow.lib")
    pa.lib.__dict__.update({k: v for k, v in pa.__dict__.items() if isinstance(v, type)})
    for m, prefix in ((pa, ""), (pat, "types."), (pa.lib, "lib.")):
        m.__getattr__ = (lambda p: lambda name: _missing(p + name))(prefix)
    sys.modules.update({"pyarrow": pa, "pyarrow.types": pat, "pyarrow.lib": pa.lib})
