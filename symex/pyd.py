"""pydantic in the symbolic process: int / str / date leaves are validated by Python functions that
let proxies through (same strictness), and model hashes are constant per class, so that models holding
symbolic values can be dict keys.  Everything else is pydantic's own code."""

from __future__ import annotations

import datetime
import functools
import re
from collections.abc import Mapping

from pydantic_core import PydanticCustomError, core_schema

from . import engine
from . import values as V
from .values import SymBytes, SymDate, SymInt, SymStr, lift

_CACHED: list = []  # (instance, attribute) filled by cached_property since the last purge


class TrackedCachedProperty(functools.cached_property):
    def __get__(self, instance, owner=None):
        if instance is None:
            return self
        cache = instance.__dict__
        if self.attrname in cache:
            return cache[self.attrname]
        val = super().__get__(instance, owner)
        _CACHED.append((instance, self.attrname))
        return val


def purge_cached():
    for obj, name in _CACHED:
        obj.__dict__.pop(name, None)
    _CACHED.clear()


def _val_int(x, native):
    if not isinstance(x, int) or isinstance(x, bool):
        if not isinstance(x, V.SymBool):
            return native(x)  # ... which may convert it, unless strict
    if isinstance(x, bool) or isinstance(x, V.SymBool) or not isinstance(x, int):
        raise PydanticCustomError("int_type", "Input should be a valid integer")
    x = lift(x)
    if isinstance(x, SymInt):
        return V.mk_int(x._p) if x._p is not None else int.__index__(x)
    return int(x)


def _val_str(x, native):
    if not isinstance(x, str):
        return native(x)
    if isinstance(x, SymStr):
        return x
    return lift(str.__str__(x)) if type(x) is str else lift(str(x))


def _val_date(x, native):
    if isinstance(x, datetime.datetime) or not isinstance(x, datetime.date):
        x = native(x)
    if engine.ENGINE is not None and not isinstance(x, SymDate):
        return SymDate(x.year, x.month, x.day)
    return x


def _ser_int(x):
    return int(x) if not isinstance(x, SymInt) or x._p is None else x


def _ser_date(x):
    if isinstance(x, SymDate):
        return x.isoformat()
    return x.isoformat() if isinstance(x, datetime.date) else x


def _val_datetime(x, native):
    return x if isinstance(x, datetime.datetime) else native(x)


def _ser_datetime(x):
    if isinstance(x, V.SymDateTime):
        return x.json()
    if not isinstance(x, datetime.datetime):
        return x
    s = x.isoformat()
    return s[:-6] + "Z" if s.endswith("+00:00") else s


def datetime_schema():
    return core_schema.no_info_wrap_validator_function(
        _val_datetime,
        core_schema.datetime_schema(),
        serialization=core_schema.plain_serializer_function_ser_schema(
            _ser_datetime, when_used="json-unless-none"
        ),
    )


def int_schema():
    return core_schema.no_info_wrap_validator_function(
        _val_int, core_schema.int_schema())


def str_schema():
    return core_schema.no_info_wrap_validator_function(
        _val_str, core_schema.str_schema())


_native_date = core_schema.date_schema


def date_schema():
    return core_schema.no_info_wrap_validator_function(
        _val_date,
        _native_date(),
        serialization=core_schema.plain_serializer_function_ser_schema(
            _ser_date, when_used="json-unless-none"
        ),
    )


def install():
    # Under serialize_as_any pydantic-core infers the serializer from the value's type and reads the
    # native content of dates, so symbolic ones are swapped for their text meanwhile.
    import pydantic

    def swap(x, undo, seen):
        if id(x) in seen:
            return
        seen.add(id(x))
        if isinstance(x, pydantic.BaseModel):
            for k, v in list(x.__dict__.items()):
                if isinstance(v, V.SymDateTime):
                    undo.append((x.__dict__, k, v))
                    x.__dict__[k] = v.json()
                elif isinstance(v, SymDate):
                    undo.append((x.__dict__, k, v))
                    x.__dict__[k] = v.isoformat()
                else:
                    swap(v, undo, seen)
        elif isinstance(x, Mapping):
            for k in list(x):
                swap(k, undo, seen)
                swap(x[k], undo, seen)
        elif isinstance(x, (list, tuple, set, frozenset)):
            for v in list(x):
                swap(v, undo, seen)

    dump_json = pydantic.BaseModel.model_dump_json

    @functools.wraps(dump_json)
    def model_dump_json(self, **k):
        undo = []
        if engine.ENGINE is not None:
            swap(self, undo, set())
        try:
            return dump_json(self, **k)
        finally:
            for d, key, v in undo:
                d[key] = v

    pydantic.BaseModel.model_dump_json = model_dump_json

    from pydantic._internal import _generate_schema as gs
    from pydantic._internal import _model_construction as mc

    functools.cached_property = TrackedCachedProperty
    ignored = mc.default_ignored_types
    mc.default_ignored_types = lambda: (*ignored(), TrackedCachedProperty)

    orig_match = gs.GenerateSchema.match_type

    def match_type(self, obj):
        if obj is int:
            return int_schema()
        if obj is str:
            return str_schema()
        if obj is datetime.date:
            return date_schema()
        if obj is datetime.datetime:
            return datetime_schema()
        return orig_match(self, obj)

    gs.GenerateSchema.match_type = match_type

    core_schema.date_schema = lambda **_: date_schema()

    orig_make = mc.make_hash_func

    def make_hash_func(cls):
        fields_hash = orig_make(cls)

        def class_hash(self):
            fields_hash(self)  # still raises for unhashable fields
            return hash(type(self).__qualname__)

        return class_hash

    mc.make_hash_func = make_hash_func
