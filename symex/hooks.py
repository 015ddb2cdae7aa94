"""Runtime of the instrumented modules: what _f, _l, _in, _g, _s and _e do (see loader.py)."""

from __future__ import annotations

import builtins
import collections
import datetime
import operator
import types

from . import engine
from . import values as V
from .engine import Unsupported
from .values import SymBytes, SymDate, SymInt, SymStr, lift

_isinstance, _type, _len = isinstance, type, len
_BUILTIN_METHOD = types.BuiltinMethodType
_METHOD = types.MethodType

# id(callable) -> (callable, replacement). Consulted only while a path is being explored.
TABLE: dict = {}
# id(callable) -> (callable, replacement). Consulted always (also while modules are imported).
ALWAYS: dict = {}
# id(type) -> {method name: handler(self, *a, **k)} for bound methods of instances / classes
METHODS: dict = {}


def replace(target, *, always=False):
    def deco(fn):
        (ALWAYS if always else TABLE)[id(target)] = (target, fn)
        return fn

    return deco


def is_sym(x):
    if _isinstance(x, SymStr):
        return True
    if _isinstance(x, SymInt):
        return x._p is not None
    return _isinstance(x, (SymDate, SymBytes, V.SymBool, V.SymDateTime))


def any_sym(xs):
    return any(is_sym(x) for x in xs)


def call_func(func):
    """_f: the callable to use instead of `func`."""
    r = ALWAYS.get(id(func))
    if r is not None:
        return r[1]
    if engine.ENGINE is None:
        return func
    r = TABLE.get(id(func))
    if r is not None:
        return r[1]
    t = _type(func)
    if t is _BUILTIN_METHOD:
        return _builtin_method(func)
    if t is _METHOD:
        r = TABLE.get(id(func.__func__))
        if r is not None:
            self = func.__self__
            fn = r[1]
            return lambda *a, **k: fn(self, *a, **k)
        return func
    if t is types.GenericAlias:
        r = TABLE.get(id(func.__origin__))
        if r is not None:
            return r[1]
    return func


_STR_METHODS_WITH_STR_ARGS = frozenset(
    "count endswith find index join lstrip partition removeprefix removesuffix replace rfind rindex"
    " rpartition rsplit rstrip split startswith strip".split()
)


def _builtin_method(func):
    self, name = func.__self__, func.__name__
    t = _type(self)
    if t is str:
        if name in _STR_METHODS_WITH_STR_ARGS:

            def call(*a, **k):
                if name == "join":
                    a = (list(a[0]),)
                    if any_sym(a[0]):
                        return V.as_sym(self).join(*a)
                elif any_sym(a) or (a and _isinstance(a[0], tuple) and any_sym(a[0])):
                    return getattr(V.as_sym(self), name)(*a, **k)
                return func(*a, **k)

            return call
        return func
    if _isinstance(self, dict):
        h = _DICT.get(name)
        return (lambda *a: h(self, func, *a)) if h else func
    if _isinstance(self, (set, frozenset)):
        h = _SET.get(name)
        return (lambda *a: h(self, func, *a)) if h else func
    if self is datetime.date and name == "fromisoformat":
        return V.date_fromisoformat
    h = METHODS.get(id(t))
    if h is not None and name in h:
        fn = h[name][1]
        return lambda *a, **k: fn(self, *a, **k)
    return func


# ---- native dicts and sets with symbolic keys -------------------------------------------------
_KEYED = (str, int, datetime.date)


def _find_key(container, key):
    """The stored key equal to `key`, when hashing cannot be trusted; else _MISSING/_NATIVE."""
    if not _isinstance(key, _KEYED):
        return _NATIVE
    if not is_sym(key) and not any(is_sym(k) for k in container):
        return _NATIVE
    for k in list(container):
        if k is key or (_isinstance(k, _KEYED) and bool(k == key)):
            return k
    return _MISSING


_NATIVE, _MISSING = object(), object()


def _dict_get(self, func, key, default=None):
    k = _find_key(self, key)
    if k is _NATIVE:
        return func(key, default)
    return default if k is _MISSING else dict.__getitem__(self, k)


def _dict_setdefault(self, func, key, default=None):
    k = _find_key(self, key)
    return func(key if k is _NATIVE or k is _MISSING else k, default)


def _dict_pop(self, func, key, *default):
    k = _find_key(self, key)
    return func(key if k is _NATIVE or k is _MISSING else k, *default)


_DICT = {"get": _dict_get, "setdefault": _dict_setdefault, "pop": _dict_pop}


def _set_add(self, func, x):
    k = _find_key(self, x)
    if k is _NATIVE or k is _MISSING:
        return func(x)
    return None


def _set_discard(self, func, x):
    k = _find_key(self, x)
    return func(x if k is _NATIVE or k is _MISSING else k)


def _uniform(xs):
    """Make equal elements hash equally when some are symbolic."""
    xs = list(xs)
    if any(_isinstance(x, SymStr) for x in xs):
        return [V.as_sym(x) if _isinstance(x, str) else x for x in xs]
    if any(_isinstance(x, SymInt) and x._p is not None for x in xs):
        return [SymInt(x) if _type(x) is int else x for x in xs]
    return xs


def _set_update(self, func, *its):
    for it in its:
        for x in it:
            _set_add(self, self.add, x)


_SET = {"add": _set_add, "discard": _set_discard, "remove": _set_discard, "update": _set_update}


def contains(a, b):
    """_in"""
    if engine.ENGINE is None:
        return a in b
    if _isinstance(b, str):
        if is_sym(a) or is_sym(b):
            return V.as_sym(b).__contains__(a)
        return a in b
    if _isinstance(b, (dict, set, frozenset, type({}.keys()))):
        k = _find_key(b, a)
        if k is _NATIVE:
            return a in b
        return k is not _MISSING
    return a in b


def getitem(obj, key):
    """_g"""
    if engine.ENGINE is not None and _isinstance(obj, dict):
        k = _find_key(obj, key)
        if k is not _NATIVE and k is not _MISSING:
            return lift(obj[k])
        return lift(obj[key])
    return obj[key]


def setitem(value, obj, key):
    """_s"""
    if engine.ENGINE is not None and _isinstance(obj, dict):
        k = _find_key(obj, key)
        if k is not _NATIVE and k is not _MISSING:
            key = k
    obj[key] = value


def executed(name):
    """_e"""
    e = engine.ENGINE
    if e is not None:
        e.functions[name] = e.functions.get(name, 0) + 1


def result(x):
    """_l"""
    t = _type(x)
    if t is str or t is int or t is bytes:
        if engine.ENGINE is not None:
            return lift(x)
    return x


_COMPARE = {n: getattr(operator, n) for n in ("eq", "ne", "lt", "le", "gt", "ge")}


def compare(op, a, b):
    """_cmp"""
    if _type(a) is bool and _isinstance(b, SymInt):
        a = int(a)
    return _COMPARE[op](a, b)


NAMESPACE = {
    "_arti_cmp_": compare,
    "_arti_f_": call_func,
    "_arti_l_": result,
    "_arti_in_": contains,
    "_arti_g_": getitem,
    "_arti_s_": setitem,
    "_arti_e_": executed,
    "_arti_int_": SymInt,
}


# ---- builtins ---------------------------------------------------------------------------------
@replace(builtins.int)
def _int_call(x=0, base=None):
    if base is not None:
        if _isinstance(x, SymStr):
            return V.str_to_int(x, base)
        return builtins.int(x, base)
    if _isinstance(x, SymStr):
        return V.str_to_int(x, 10)
    if _isinstance(x, SymInt):
        return V.mk_int(x._p) if x._p is not None else builtins.int.__index__(x)
    if _isinstance(x, V.SymBool):
        return 1 if x else 0
    return builtins.int(x)


@replace(builtins.type)
def _type_call(*a, **k):
    if _len(a) == 1 and not k:
        t = _type(a[0])
        return _PLAIN.get(t, t)
    return _type(*a, **k)


_PLAIN = {SymInt: int, SymStr: str, SymDate: datetime.date, V.SymDateTime: datetime.datetime, SymBytes: bytes, V.SymBool: bool}


@replace(builtins.bool)
def _bool_call(x=False):
    return builtins.bool(x)


@replace(builtins.str)
def _str_call(x="", *a):
    if a:
        if _isinstance(x, SymBytes):
            return x.decode()
        return builtins.str(x, *a)
    if _isinstance(x, str) and _type(x) in (str, SymStr):
        return x
    return lift(builtins.str(x))


@replace(builtins.repr)
def _repr_call(x):
    return lift(builtins.repr(x))


@replace(builtins.bytes)
def _bytes_call(x=b"", *a):
    if _isinstance(x, SymStr):
        return SymBytes(x._r)
    if _isinstance(x, SymBytes):
        return x
    return builtins.bytes(x, *a)


@replace(builtins.hex)
def _hex_call(x):
    return V.int_to_hex(x) if _isinstance(x, SymInt) else builtins.hex(x)


@replace(builtins.format)
def _format_call(x, spec=""):
    return lift(builtins.format(x, spec))


@replace(builtins.hash, always=True)
def _hash_call(x):
    # Proxies hash to a constant, so anything hashed with them has to as well.
    builtins.hash(x)
    e = engine.ENGINE
    if e is not None and e.cache.get("hash model"):
        return V.mk_int(_hash_model(x))
    return 0


def _hash_model(x):
    """Hashes as formal values: equal for equal content, different otherwise (see SymT.hash)."""
    if _isinstance(x, (frozenset, type({}.items()))):
        out = V.fp_of_rope(("set",))
        for i in x:
            out = out.xor(_hash_model(i))
        return out
    if _isinstance(x, tuple):
        items = []
        for i in x:
            items.extend((",", V.Tok("fp", _hash_model(i))))
        return V.fp_of_rope(("tuple", *items))
    if _isinstance(x, str):
        return V.fp_of_rope(("str:", *V.lift_items(x)))
    if _isinstance(x, (bool, V.SymBool)) or x is None:
        return V.fp_of_rope((f"const:{x}",))
    if _isinstance(x, SymInt) and _isinstance(x._p, V.FP):
        return x._p
    if _isinstance(x, int):
        return V.fp_of_rope(("int:", *V.int_items(V.payload(x))))
    h = _type(x).__hash__(x)
    if _isinstance(h, SymInt) and _isinstance(h._p, V.FP):
        return h._p
    return V.fp_of_rope((f"const:{h}",))


@replace(builtins.range)
def _range_call(*a):
    if any_sym(a):
        raise Unsupported("symbolic range")
    return builtins.range(*a)


@replace(builtins.len)
def _len_call(x):
    return _len(x)


@replace(builtins.ord)
def _ord_call(c):
    if _isinstance(c, SymStr):
        (ch,) = V.chars_of(c._r)
        if _isinstance(ch, V.Ch):
            return V.mk_int(ch.e)
        raise Unsupported("ord of opaque text")
    return builtins.ord(c)


@replace(builtins.set)
def _set_call(it=()):
    return builtins.set(_uniform(it))


@replace(builtins.frozenset)
def _frozenset_call(it=()):
    if _type(it) is frozenset:
        return it
    return builtins.frozenset(_uniform(it))


@replace(builtins.dict)
def _dict_call(*a, **k):
    d = builtins.dict(*a)
    if any_sym(d):
        out = {}
        for key, v in d.items():
            setitem(v, out, key)
        d = out
    d.update(k)
    return d


@replace(datetime.date)
def _date_call(*a, **k):
    return SymDate(*a, **k)


@replace(isinstance)
def _isinstance_call(x, t):
    if _isinstance(x, SymBytes):
        ts = t if _isinstance(t, tuple) else (t,)
        return any(i in (bytes, object) for i in ts)
    if _isinstance(x, V.SymBool):
        ts = t if _isinstance(t, tuple) else (t,)
        return any(i in (bool, int, object) for i in ts)
    return _isinstance(x, t)


def _int_slots():
    for name in dir(int):
        f = getattr(int, name)
        g = SymInt.__dict__.get(name)
        if _type(f) is types.WrapperDescriptorType and g is not None and name not in (
            "__new__", "__init__", "__getattribute__", "__hash__",
        ):

            def call(self, *a, _f=f, _g=g):
                if any_sym((self, *a)):
                    return _g(self if _isinstance(self, SymInt) else SymInt(self), *a)
                return _f(self, *a)

            TABLE[id(f)] = (f, call)
    for name in dir(str):
        f = getattr(str, name)
        g = SymStr.__dict__.get(name)
        if _type(f) in (types.WrapperDescriptorType, types.MethodDescriptorType) and g is not None:
            if name in ("__new__", "__init__", "__getattribute__", "__hash__"):
                continue

            def scall(self, *a, _f=f, _g=g, **k):
                if any_sym((self, *a)):
                    return _g(V.as_sym(self), *a, **k)
                return _f(self, *a, **k)

            TABLE[id(f)] = (f, scall)


_int_slots()

_sorted = builtins.sorted


@replace(collections.OrderedDict)
def _od(*a, **k):
    d = collections.OrderedDict(*a, **k)
    if any_sym(d):
        raise Unsupported("OrderedDict with symbolic keys")
    return d
