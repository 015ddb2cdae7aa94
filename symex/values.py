"""Proxy values: int / str / date subclasses whose payload is symbolic.

Every proxy also carries a recognisable *sentinel* as its native content, so that when C code (json,
f-strings, str.join, pydantic-core's serializer, ...) formats it, the result can be lifted back.
"""

from __future__ import annotations

import builtins
import datetime as _dt
import re

import z3

from . import engine
from .engine import Unsupported, eng

_int, _str, _len, _type, _isinstance = int, str, len, type, isinstance
_date = _dt.date

SENT_BASE = 7771777 * 10**12  # within int64: pydantic-core's serializer takes no larger subclass
# Sentinels are spaced out, so arithmetic on a sentinel by un-encoded native code is noticed.
SENT_STEP = 1000003
SENT_RE = re.compile(r"\ue000(\d+)\ue001|(7771777\d{12})")


def _int_sentinel(n):
    """The proxy a native sentinel integer stands for."""
    i, rest = divmod(n - SENT_BASE, SENT_STEP)
    if rest:
        raise Unsupported("native arithmetic on a symbolic integer")
    return _lookup(i)
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


def mk_and(xs):
    xs = [x for x in xs if not z3.is_true(x)]
    if any(z3.is_false(x) for x in xs):
        return FALSE
    if not xs:
        return TRUE
    return xs[0] if _len(xs) == 1 else z3.And(*xs)


def mk_or(xs):
    xs = [x for x in xs if not z3.is_false(x)]
    if any(z3.is_true(x) for x in xs):
        return TRUE
    if not xs:
        return FALSE
    return xs[0] if _len(xs) == 1 else z3.Or(*xs)


def mk_not(x):
    if z3.is_true(x):
        return FALSE
    if z3.is_false(x):
        return TRUE
    return z3.Not(x)


# ---------------------------------------------------------------------------------------------
# Booleans
# ---------------------------------------------------------------------------------------------
class SymBool:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return eng().fork(self.e)

    def __and__(self, o):
        return SymBool(mk_and([self.e, to_z3bool(o)]))

    __rand__ = __and__

    def __or__(self, o):
        return SymBool(mk_or([self.e, to_z3bool(o)]))

    __ror__ = __or__

    def __xor__(self, o):
        return SymBool(z3.Xor(self.e, to_z3bool(o)))

    __rxor__ = __xor__

    def __invert__(self):
        return SymBool(mk_not(self.e))

    def __eq__(self, o):
        if _isinstance(o, (bool, SymBool)):
            return mk_bool(self.e == to_z3bool(o))
        return NotImplemented

    def __ne__(self, o):
        if _isinstance(o, (bool, SymBool)):
            return mk_bool(self.e != to_z3bool(o))
        return NotImplemented

    def __hash__(self):
        return 0

    def __repr__(self):
        return f"SymBool({self.e})"


def to_z3bool(x):
    if _isinstance(x, SymBool):
        return x.e
    if _isinstance(x, z3.BoolRef):
        return x
    if x is NotImplemented:
        return FALSE
    return TRUE if x else FALSE


def mk_bool(e):
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


# ---------------------------------------------------------------------------------------------
# Integers
# ---------------------------------------------------------------------------------------------
def _register(obj):
    e = eng()
    e.registry.append(obj)
    return _len(e.registry) - 1


def _lookup(i):
    reg = eng().registry
    if i >= _len(reg):
        raise Unsupported("stale symbolic sentinel")
    return reg[i]


class FP:
    """Formal 64-bit fingerprint: XOR of hash generators (and a constant).

    Hash values are treated as linearly independent (no two different inputs collide and no XOR of
    distinct hashes vanishes); equality is then a formula over equality of the hashed strings.
    """

    __slots__ = ("gens", "const", "_key")

    def __init__(self, gens, const=0):
        self.gens = gens  # dict: structural key -> generator rope (tuple of items)
        self.const = const
        self._key = None

    @property
    def key(self):
        if self._key is None:
            self._key = (frozenset(self.gens), self.const)
        return self._key

    def xor(self, other):
        if _isinstance(other, _int):
            return FP(self.gens, self.const ^ _int.__index__(other))
        gens = dict(self.gens)
        for k, v in other.gens.items():
            if k in gens:
                del gens[k]
            else:
                gens[k] = v
        return FP(gens, self.const ^ other.const)

    def is_zero(self):
        """z3 formula: the XOR is 0."""
        gens = list(self.gens.values())
        n = _len(gens)
        if self.const != 0 or n % 2:
            # NOTE: an odd number of non-zero hashes; or a constant unrelated to any hash.
            return FALSE
        if n == 0:
            return TRUE
        eq = {}
        for i in range(n):
            for j in range(i + 1, n):
                eq[i, j] = eq[j, i] = rope_eq(gens[i], gens[j])
        out = []
        for i in range(n):
            others = [eq[i, j] for j in range(n) if j != i and not z3.is_false(eq[i, j])]
            if not others:
                return FALSE
            acc = others[0]
            for x in others[1:]:
                acc = z3.Xor(acc, x)
            out.append(acc)
        return mk_and(out)

    def eq(self, other):
        if _isinstance(other, _int):
            other = FP({}, _int.__index__(other))
        return self.xor(other).is_zero()

    def order_var(self):
        e = eng()
        table = e.cache.setdefault("fp_order", {})
        if self.key in table:
            return table[self.key][0]
        v = z3.Int(f"fpord!{_len(table)}")
        for other_v, other in table.values():
            e.add_fact((v == other_v) == self.eq(other))
        table[self.key] = (v, self)
        return v


def fp_of_rope(rope):
    return FP({rope_key(rope): rope})


BV_EXTRA = 2


def _bv_fit(a, b):
    """Sign-extend two bit-vectors to a common width."""
    w = max(a.size(), b.size())
    if a.size() < w:
        a = z3.SignExt(w - a.size(), a)
    if b.size() < w:
        b = z3.SignExt(w - b.size(), b)
    return a, b


def _bv_const(n, like):
    need = n.bit_length() + 1
    return z3.BitVecVal(n, max(need, 8))


def _coerce(p, q):
    """Bring two payloads (z3 Int, z3 BV, FP or python int) to a common kind."""
    if _isinstance(p, FP) or _isinstance(q, FP):
        if not _isinstance(p, FP):
            if not _isinstance(p, _int):
                raise Unsupported("mixing a fingerprint with a symbolic integer")
            p = FP({}, p)
        if not _isinstance(q, FP):
            if not _isinstance(q, _int):
                raise Unsupported("mixing a fingerprint with a symbolic integer")
            q = FP({}, q)
        return "fp", p, q
    if _isinstance(p, z3.BitVecRef) or _isinstance(q, z3.BitVecRef):
        if _isinstance(p, _int):
            p = _bv_const(p, q)
        if _isinstance(q, _int):
            q = _bv_const(q, p)
        if not (_isinstance(p, z3.BitVecRef) and _isinstance(q, z3.BitVecRef)):
            raise Unsupported("mixing bit-vector and unbounded integers")
        return ("bv", *_bv_fit(p, q))
    return (
        "int",
        z3.IntVal(p) if _isinstance(p, _int) else p,
        z3.IntVal(q) if _isinstance(q, _int) else q,
    )


def payload(x):
    """Payload of an int-like: python int, or z3/FP payload."""
    if _isinstance(x, SymInt):
        return x._p if x._p is not None else _int.__index__(x)
    return _int.__index__(x)


def is_symint(x):
    return _isinstance(x, SymInt) and x._p is not None


def mk_int(p, cls=None):
    """Make an int from a payload; concrete payloads become plain ints."""
    if _isinstance(p, _int):
        return p if cls is None else cls._concrete(p)
    if _isinstance(p, FP):
        if not p.gens:
            return p.const if cls is None else cls._concrete(p.const)
    elif z3.is_int_value(p):
        return p.as_long()
    elif _isinstance(p, z3.BitVecNumRef):
        return p.as_signed_long()
    return SymInt._make(SymInt if cls is None else cls, p)


def _cmp(op):
    def f(self, other):
        if _isinstance(other, bool):
            other = _int(other)
        if not _isinstance(other, _int):
            return NotImplemented
        if self._p is None and not is_symint(other):
            return getattr(_int, op)(_int.__index__(self), _int.__index__(other))
        kind, a, b = _coerce(payload(self), payload(other))
        if kind == "fp":
            if op == "__eq__":
                return mk_bool(a.eq(b))
            if op == "__ne__":
                return mk_bool(mk_not(a.eq(b)))
            if not b.gens or not a.gens:  # against a constant: hashes are within [0, 2**63)
                c = a.const if not a.gens else b.const
                if 0 < c < 2**63 - 1:
                    raise Unsupported("ordering a fingerprint against a constant")
                fp_less = c >= 2**63 - 1  # fp < c (or fp <= c)
                lt = fp_less if not b.gens else not fp_less
                return lt if op in ("__lt__", "__le__") else not lt
            a, b = a.order_var(), b.order_var()
        return mk_bool(z3.simplify(_CMP[op](a, b)))

    f.__name__ = op
    return f


_CMP = {
    "__eq__": lambda a, b: a == b,
    "__ne__": lambda a, b: a != b,
    "__lt__": lambda a, b: a < b,
    "__le__": lambda a, b: a <= b,
    "__gt__": lambda a, b: a > b,
    "__ge__": lambda a, b: a >= b,
}


def _arith(name, fn, *, reflected=False):
    native = getattr(_int, name)

    def f(self, *args):
        if args and not _isinstance(args[0], _int):
            return NotImplemented
        if self._p is None and not (args and is_symint(args[0])):
            return native(_int.__index__(self), *[_int.__index__(a) for a in args])
        ps = [payload(self), *[payload(a) for a in args]]
        if reflected:
            ps.reverse()
        if _len(ps) == 2:
            kind, *ps = _coerce(*ps)
        else:
            kind = _kind(ps[0])
        r = fn(kind, *ps)
        if r is NotImplemented:
            raise Unsupported(f"int.{name} on symbolic {kind}")
        return mk_int(r if _isinstance(r, (FP, _int)) else z3.simplify(r))

    f.__name__ = name
    return f


def _kind(p):
    if _isinstance(p, FP):
        return "fp"
    return "bv" if _isinstance(p, z3.BitVecRef) else "int"


def _ext(n, *xs):
    return [z3.SignExt(n, x) for x in xs]


def _add(k, a, b):
    if k == "int":
        return a + b
    if k == "bv":
        a, b = _ext(1, a, b)
        return a + b
    return NotImplemented


def _sub(k, a, b):
    if k == "int":
        return a - b
    if k == "bv":
        a, b = _ext(1, a, b)
        return a - b
    return NotImplemented


def _mul(k, a, b):
    if k == "int":
        return a * b
    if k == "bv":
        w = a.size()
        a, b = _ext(w, a, b)
        return a * b
    return NotImplemented


def _neg(k, a):
    if k == "int":
        return -a
    if k == "bv":
        return -z3.SignExt(1, a)
    return NotImplemented


def _pos(k, a):
    return a


def _abs(k, a):
    if k == "int":
        return z3.If(a < 0, -a, a)
    if k == "bv":
        a = z3.SignExt(1, a)
        return z3.If(a < 0, -a, a)
    return NotImplemented


def _invert(k, a):
    if k == "int":
        return -a - 1
    if k == "bv":
        return ~a
    return NotImplemented


def _xor(k, a, b):
    if k == "fp":
        return a.xor(b)
    if k == "bv":
        return a ^ b
    if k == "int":
        if z3.is_int_value(a) and a.as_long() == 0:
            return b
        if z3.is_int_value(b) and b.as_long() == 0:
            return a
    return NotImplemented


def _and_(k, a, b):
    return a & b if k == "bv" else NotImplemented


def _or_(k, a, b):
    return a | b if k == "bv" else NotImplemented


def _nonzero(b):
    if z3.is_int_value(b):
        if b.as_long() == 0:
            raise ZeroDivisionError("integer modulo by zero")
    elif eng().fork(b == 0):
        raise ZeroDivisionError("integer division or modulo by zero")


def _floordiv(k, a, b):
    if k == "int":
        _nonzero(b)
        # z3 Int division is Euclidean; for b > 0 it is floor division.
        if eng().fork(b > 0):
            return a / b
        return (-a) / (-b)
    if k == "bv":
        q, _ = _bv_divmod(a, b)
        return q
    return NotImplemented


def _mod(k, a, b):
    if k == "int":
        _nonzero(b)
        if eng().fork(b > 0):
            return a % b
        return -((-a) % (-b))
    if k == "bv":
        _, r = _bv_divmod(a, b)
        return r
    return NotImplemented


def _bv_divmod(a, b):
    a, b = _ext(1, a, b)
    if eng().fork(b == 0):
        raise ZeroDivisionError("integer division or modulo by zero")
    q = a / b  # signed, truncating
    r = z3.SRem(a, b)
    adj = z3.And(r != 0, (r < 0) != (b < 0))
    return z3.If(adj, q - 1, q), z3.If(adj, r + b, r)


def _lshift(k, a, b):
    if k == "bv":
        if not z3.is_bv_value(z3.simplify(b)):
            n = concretize_small(b, 0, 70)
        else:
            n = z3.simplify(b).as_signed_long()
        if n < 0:
            raise ValueError("negative shift count")
        return z3.SignExt(n, a) << n if n else a
    if k == "int":
        b = z3.simplify(b)
        n = b.as_long() if z3.is_int_value(b) else concretize_small(b, 0, 70)
        if n < 0:
            raise ValueError("negative shift count")
        return a * 2**n
    return NotImplemented


def _rshift(k, a, b):
    if k == "bv":
        b = z3.simplify(b)
        n = b.as_signed_long() if z3.is_bv_value(b) else concretize_small(b, 0, 70)
        if n < 0:
            raise ValueError("negative shift count")
        if n >= a.size():
            n = a.size() - 1
        return a >> n
    if k == "int":
        b = z3.simplify(b)
        n = b.as_long() if z3.is_int_value(b) else concretize_small(b, 0, 70)
        if n < 0:
            raise ValueError("negative shift count")
        return a / z3.IntVal(2**n)
    return NotImplemented


def concretize_small(term, lo, hi):
    for i in range(lo, hi + 1):
        if eng().fork(term == i):
            return i
    raise Unsupported("value outside the concretisation range")


class SymInt(_int):
    _p = None

    def __new__(cls, x=0):
        if _isinstance(x, SymInt) and x._p is not None:
            return SymInt._make(cls, x._p)
        if _isinstance(x, SymStr):
            return SymInt.__new__(cls, str_to_int(x, 10))
        return _int.__new__(cls, x)

    @staticmethod
    def _make(cls, p):
        i = _register(None)
        obj = _int.__new__(cls, SENT_BASE + i * SENT_STEP)
        obj._p = p
        eng().registry[i] = obj
        return obj

    @classmethod
    def _concrete(cls, n):
        return _int.__new__(cls, n)

    def __hash__(self):
        return 0

    def __bool__(self):
        if self._p is None:
            return _int.__bool__(self)
        r = self.__ne__(0)
        return bool(r)

    def __index__(self):
        if self._p is None:
            return _int.__index__(self)
        raise Unsupported("symbolic int used as an index")

    def __int__(self):
        if self._p is None:
            return _int.__index__(self)
        return mk_int(self._p)

    __trunc__ = __int__

    def __ceil__(self):
        return self.__int__()

    __floor__ = __ceil__

    def __round__(self, ndigits=0):
        if self._p is None:
            return _int.__round__(_int.__index__(self), ndigits)
        if ndigits < 0:
            raise Unsupported("round(symbolic, negative)")
        return self.__int__()

    def __float__(self):
        if self._p is None:
            return _int.__float__(self)
        raise Unsupported("float(symbolic)")

    def __repr__(self):
        if self._p is None:
            return _int.__repr__(self)
        return int_to_str(self)

    def __str__(self):
        return self.__repr__()

    def __format__(self, spec):
        if self._p is None:
            return _int.__format__(self, spec)
        if _type(self).__str__ is not SymInt.__str__ and not spec:
            return self.__str__()
        return format_int(self, spec)

    def __divmod__(self, o):
        return (self // o, self % o)

    def __pow__(self, o, mod=None):
        if self._p is None and not is_symint(o):
            return _int.__pow__(_int.__index__(self), o, mod)
        raise Unsupported("pow on symbolic")

    def __truediv__(self, o):
        if self._p is None and not is_symint(o):
            return _int.__truediv__(_int.__index__(self), o)
        raise Unsupported("truediv on symbolic")

    __rtruediv__ = __truediv__

    def bit_length(self):
        if self._p is None:
            return _int.bit_length(self)
        raise Unsupported("bit_length on symbolic")

    def to_bytes(self, *a, **k):
        if self._p is None:
            return _int.to_bytes(self, *a, **k)
        raise Unsupported("to_bytes on symbolic")

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        if self._p is None:
            return super().__reduce__()
        raise Unsupported("pickling a symbolic int")

    __eq__ = _cmp("__eq__")
    __ne__ = _cmp("__ne__")
    __lt__ = _cmp("__lt__")
    __le__ = _cmp("__le__")
    __gt__ = _cmp("__gt__")
    __ge__ = _cmp("__ge__")
    __add__ = _arith("__add__", _add)
    __radd__ = _arith("__radd__", _add, reflected=True)
    __sub__ = _arith("__sub__", _sub)
    __rsub__ = _arith("__rsub__", _sub, reflected=True)
    __mul__ = _arith("__mul__", _mul)
    __rmul__ = _arith("__rmul__", _mul, reflected=True)
    __neg__ = _arith("__neg__", _neg)
    __pos__ = _arith("__pos__", _pos)
    __abs__ = _arith("__abs__", _abs)
    __invert__ = _arith("__invert__", _invert)
    __xor__ = _arith("__xor__", _xor)
    __rxor__ = _arith("__rxor__", _xor, reflected=True)
    __and__ = _arith("__and__", _and_)
    __rand__ = _arith("__rand__", _and_, reflected=True)
    __or__ = _arith("__or__", _or_)
    __ror__ = _arith("__ror__", _or_, reflected=True)
    __floordiv__ = _arith("__floordiv__", _floordiv)
    __rfloordiv__ = _arith("__rfloordiv__", _floordiv, reflected=True)
    __mod__ = _arith("__mod__", _mod)
    __rmod__ = _arith("__rmod__", _mod, reflected=True)
    __lshift__ = _arith("__lshift__", _lshift)
    __rlshift__ = _arith("__rlshift__", _lshift, reflected=True)
    __rshift__ = _arith("__rshift__", _rshift)
    __rrshift__ = _arith("__rrshift__", _rshift, reflected=True)


# ---------------------------------------------------------------------------------------------
# Strings: ropes of literal text, symbolic characters and tokens
# ---------------------------------------------------------------------------------------------
class Ch:
    """One symbolic character: z3 Int code point with a finite domain."""

    __slots__ = ("e", "dom")

    def __init__(self, e, dom):
        self.e = e
        self.dom = dom


DIGITS = frozenset("0123456789")
HEXDIGITS = frozenset("0123456789abcdef")


class Tok:
    """Text whose characters are not enumerated: kind in dec/hex/fp/hash/opq."""

    __slots__ = ("kind", "data", "pad")

    def __init__(self, kind, data, pad=0):
        self.kind = kind
        self.data = data
        self.pad = pad

    @property
    def alphabet(self):
        if self.kind in ("dec", "fp"):
            return _DEC_ALPHA
        if self.kind == "hex":
            return _HEX_ALPHA
        if self.kind == "hash":
            return HEXDIGITS
        return None  # anything


_DEC_ALPHA = DIGITS | {"-"}
_HEX_ALPHA = HEXDIGITS | {"-", "x"}


def _pkey(p):
    if _isinstance(p, FP):
        return ("fp", p.key)
    return ("z", p.get_id())


def item_key(it):
    if _isinstance(it, _str):
        return it
    if _isinstance(it, Ch):
        return ("c", it.e.get_id())
    if it.kind in ("dec", "hex"):
        return (it.kind, it.pad, _pkey(it.data))
    if it.kind == "fp":
        return ("fp", it.data.key)
    if it.kind == "hash":
        return ("hash", it.data[0], rope_key(it.data[1]))
    return ("opq", it.data[0], id(it.data[1]))


def rope_key(items):
    # Keep every keyed rope alive for the path, so z3 ast ids / python ids are not recycled.
    k = tuple(item_key(i) for i in items)
    if engine.ENGINE is not None:
        engine.ENGINE.cache.setdefault("keep", []).append(items)
    return k


def normalize(items):
    out = []
    for it in items:
        if _isinstance(it, _str):
            if not it:
                continue
            if out and _isinstance(out[-1], _str):
                out[-1] = out[-1] + it
                continue
        out.append(it)
    return tuple(out)


def lift_items(s):
    """Native str (maybe containing sentinels) -> rope items."""
    if _isinstance(s, SymStr):
        return s._r
    if "\ue000" not in s and "7771777" not in s:
        return (s,) if s else ()
    out, pos = [], 0
    for m in SENT_RE.finditer(s):
        out.append(s[pos : m.start()])
        pos = m.end()
        if m.group(1) is not None:
            out.extend(_lookup(_int(m.group(1)))._r)
        else:
            out.extend(int_items(_int_sentinel(_int(m.group(2)))._p))
    out.append(s[pos:])
    return normalize(out)


def mk_str(items):
    items = normalize(items)
    if not items:
        return ""
    if _len(items) == 1 and _isinstance(items[0], _str):
        return items[0]
    # A character pinned to one value is a literal.
    return SymStr._make(items)


def lift(x):
    t = _type(x)
    if t is _str:
        if "\ue000" in x or "7771777" in x:
            return mk_str(lift_items(x))
    elif t is _int and SENT_BASE <= x < SENT_BASE + 10**16 and engine.ENGINE is not None:
        return _int_sentinel(x)
    elif t is bytes and b"7771777" in x:
        return mk_str(lift_items(x.decode()))
    return x


def as_sym(s):
    """View any str as a SymStr (possibly fully literal)."""
    if _isinstance(s, SymStr):
        return s
    return SymStr._make(normalize(lift_items(s)))


BRACES = frozenset("{}")


def embed(s):
    """Native text for template engines: literal parts verbatim, symbolic parts as sentinels."""
    if not _isinstance(s, SymStr):
        return s
    out, run = [], []

    def flush():
        if run:
            out.append(native(tuple(run)))
            run.clear()

    for it in s._r:
        if _isinstance(it, _str):
            flush()
            out.append(it)
        else:
            al = it.dom if _isinstance(it, Ch) else it.alphabet
            if al is None or (al & BRACES):
                raise Unsupported("symbolic braces in a template")
            run.append(it)
    flush()
    return "".join(out)


def native(items):
    """The sentinel text standing for a rope, as an exact native str."""
    return _str.__getitem__(SymStr._make(items), slice(None))


def is_symstr(x):
    return _isinstance(x, SymStr)


# ---- ints <-> text ---------------------------------------------------------------------------
def int_items(p):
    if _isinstance(p, _int):
        return (_int.__repr__(p),)
    if _isinstance(p, FP):
        if not p.gens:
            return (_int.__repr__(p.const),)
        return (Tok("fp", p),)
    return (Tok("dec", p),)


def int_to_str(x):
    return mk_str(int_items(payload(x)))


def int_to_hex(x):
    p = payload(x)
    if _isinstance(p, _int):
        return builtins.hex(p)
    if _isinstance(p, FP):
        raise Unsupported("hex of a fingerprint")
    return mk_str((Tok("hex", p),))


_FORMAT = re.compile(
    r"(?:(?P<fill>.)?(?P<align>[<>=^]))?(?P<sign>[-+ ])?(?P<alt>#)?(?P<zero>0)?(?P<width>\d+)?(?P<prec>\.\d+)?(?P<type>[a-z])?",
    re.S)


def _pad(lead, body, align, fill, width):
    n = sum(_len(i) if _isinstance(i, _str) else 1 for i in (*lead, *body))
    gap = max(0, width - n)
    if align == "=":
        return (*lead, fill * gap, *body)
    left = {"<": 0, ">": gap, "^": gap // 2}[align]
    return (fill * left, *lead, *body, fill * (gap - left))


def format_int(x, spec):
    spec = _str(spec)
    if spec in ("", "d"):
        return int_to_str(x)
    m = re.fullmatch(r"0(\d+)d?", spec)
    if m:
        return mk_str((Tok("dec", x._p, _int(m.group(1))),))
    if spec == "#x":
        return int_to_hex(x)
    m = _FORMAT.fullmatch(spec)
    if m and (m["type"] or "d") in "dxob" and not m["prec"]:
        base = {"d": 10, "x": 16, "o": 8, "b": 2}[m["type"] or "d"]
        p = payload(x)
        if _isinstance(p, _int):
            return format(p, spec)
        if base == 16 and m["alt"] and m["sign"] in (None, "-") and _int(m["width"] or 0) <= 3:
            return int_to_hex(x)  # never shorter
        body = digits_of(p, base)
        sign = ""
        if body[0] == "-":
            sign, body = "-", body[1:]
        elif m["sign"] in ("+", " "):
            sign = m["sign"]
        lead = sign + ("0" + m["type"] if m["alt"] and base != 10 else "")
        align = m["align"] or ("=" if m["zero"] else ">")
        fill = m["fill"] or ("0" if m["zero"] else " ")
        return mk_str(_pad((lead,), body, align, fill, _int(m["width"] or 0)))
    raise Unsupported(f"format spec {spec!r}")


def _lt0(p):
    return p < 0


def digits_of(p, base):
    """Fork on sign and digit count; return '-'? and digit characters (no prefix)."""
    e = eng()
    if _isinstance(p, FP):
        raise Unsupported("digits of a fingerprint")
    if _isinstance(p, z3.BitVecRef):
        p = z3.BV2Int(p, is_signed=True)
    key = ("digits", base, p.get_id())
    if key in e.cache:
        return e.cache[key][1]
    neg = e.fork(p < 0)
    a = -p if neg else p
    n = 1
    while not e.fork(a < base**n):
        n += 1
        if n > 24:
            raise Unsupported("integer too large to expand")
    chars = []
    total = z3.IntVal(0)
    # Value of digit variables ties to the integer; characters are derived from the variables.
    ds = []
    for i in range(n):
        d = e.fresh_int("d")
        ds.append(d)
        total = total * base + d
    facts = [z3.And(d >= 0, d < base) for d in ds]
    if n > 1:
        facts.append(ds[0] != 0)
    facts.append(total == a)
    e.add_fact(z3.And(*facts))
    for d in ds:
        if base == 10:
            chars.append(Ch(d + 48, DIGITS))
        else:
            chars.append(Ch(z3.If(d < 10, d + 48, d + 87), HEXDIGITS))
    out = (("-",) if neg else ()) + tuple(chars)
    e.cache[key] = (p, out)
    return out


def expand_tok(t):
    """Characters of a dec/hex token (forks on sign and length)."""
    if t.kind == "dec":
        items = digits_of(t.data, 10)
        if t.pad:
            sign = items[0] == "-"
            body = items[1:] if sign else items
            width = t.pad - (1 if sign else 0)
            if _len(body) < width:
                body = ("0" * (width - _len(body)), *body)
            items = (("-",) if sign else ()) + tuple(body)
        return items
    if t.kind == "hex":
        items = digits_of(t.data, 16)
        if items[0] == "-":
            return ("-0x", *items[1:])
        return ("0x", *items)
    raise Unsupported(f"expanding a {t.kind} token")


def expand_all(items):
    out = []
    for it in items:
        if _isinstance(it, Tok):
            out.extend(expand_tok(it))
        else:
            out.append(it)
    return normalize(out)


def chars_of(s):
    """Flat list of chars: native 1-char str or Ch or (unexpandable) Tok; dec/hex expanded."""
    items = lift_items(s) if not _isinstance(s, tuple) else s
    out = []
    for it in items:
        if _isinstance(it, _str):
            out.extend(it)
        elif _isinstance(it, Tok) and it.kind in ("dec", "hex"):
            for x in expand_tok(it):
                if _isinstance(x, _str):
                    out.extend(x)
                else:
                    out.append(x)
        else:
            out.append(it)
    return out


def char_is(c, ch):
    """Decide whether item `c` is the literal character `ch` (may fork)."""
    if _isinstance(c, _str):
        return c == ch
    if _isinstance(c, Ch):
        if ch not in c.dom:
            return False
        return eng().fork(c.e == ord(ch))
    a = c.alphabet
    if a is not None and ch not in a:
        return False
    raise Unsupported("character test inside a token")


def char_in(c, chars):
    """Decide whether item `c` is in a frozenset of characters (may fork)."""
    if _isinstance(c, _str):
        return c in chars
    if _isinstance(c, Ch):
        inter = c.dom & chars
        if not inter:
            return False
        if inter == c.dom:
            return True
        return eng().fork(mk_or([c.e == ord(x) for x in sorted(inter)]))
    a = c.alphabet
    if a is not None:
        if not (a & chars):
            return False
        if a <= chars:
            return True
    raise Unsupported("character class test inside a token")


def char_eq(x, y):
    """z3 formula: two single characters are equal."""
    if _isinstance(x, _str) and _isinstance(y, _str):
        return TRUE if x == y else FALSE
    if _isinstance(x, _str):
        x, y = y, x
    if _isinstance(y, _str):
        return x.e == ord(y) if y in x.dom else FALSE
    if not (x.dom & y.dom):
        return FALSE
    if x.e.eq(y.e):
        return TRUE
    return x.e == y.e


_WS = frozenset(" \t\n\r\x0b\x0c")
_SEPS = frozenset("_")


def str_to_int(s, base=10):
    """int(text, base) over a rope, following Python's grammar for ASCII text."""
    s = as_sym(s)
    items = s._r
    if _len(items) == 1 and _isinstance(items[0], Tok):
        t = items[0]
        if t.kind == "fp" and base == 10:
            return mk_int(t.data)
        if t.kind == "dec" and base == 10:
            return mk_int(t.data)
        if t.kind == "hex" and base in (16, 0):
            return mk_int(t.data)
    if any(_isinstance(i, Tok) and i.kind == "fp" for i in items):
        raise Unsupported("int() of text around a fingerprint")
    if any(_isinstance(i, Tok) and i.kind in ("hash", "opq") for i in items):
        raise Unsupported("int() of opaque text")
    cs = chars_of(items)
    if all(_isinstance(c, _str) for c in cs):
        return _int("".join(cs), base)
    while cs and char_in(cs[0], _WS):
        cs = cs[1:]
    while cs and char_in(cs[-1], _WS):
        cs = cs[:-1]
    err = ValueError("invalid literal for int()")
    neg = False
    if cs and char_in(cs[0], frozenset("+-")):
        neg = char_is(cs[0], "-")
        cs = cs[1:]
    if base in (16, 0) and _len(cs) >= 2 and char_is(cs[0], "0") and char_in(cs[1], frozenset("xX")):
        cs = cs[2:]
        base = 16
        if cs and char_is(cs[0], "_"):
            cs = cs[1:]
    if base == 0:
        base = 10
    if not cs:
        raise err
    valid = DIGITS if base == 10 else HEXDIGITS | frozenset("ABCDEF")
    total = z3.IntVal(0)
    concrete = True
    val = 0
    prev_us = True
    for c in cs:
        if char_is(c, "_"):
            if prev_us:
                raise err
            prev_us = True
            continue
        if not char_in(c, valid):
            raise err
        prev_us = False
        if _isinstance(c, _str):
            dv = _int(c, base)
            total = total * base + dv
        else:
            concrete = False
            if base == 10:
                dv = c.e - 48
            else:
                dv = z3.If(c.e <= 57, c.e - 48, z3.If(c.e >= 97, c.e - 87, c.e - 55))
            total = total * base + dv
    if prev_us:
        raise err
    total = z3.simplify(total)
    return mk_int(-total if neg else total)


# ---- equality --------------------------------------------------------------------------------
def tok_eq(a, b):
    if a.kind in ("dec", "hex"):
        kind, x, y = _coerce(a.data, b.data)
        return x.eq(y) if kind == "fp" else z3.simplify(x == y)
    if a.kind == "fp":
        return a.data.eq(b.data)
    if a.kind == "hash":
        if a.data[0] != b.data[0]:
            return FALSE
        return rope_eq(a.data[1], b.data[1])
    if a.data[0] != b.data[0]:
        return FALSE
    return deep_eq(a.data[1], b.data[1])


def _boundary(rest, alphabet):
    """True if `rest` is empty or starts with text outside `alphabet`."""
    if not rest:
        return True
    if alphabet is None:
        return False
    h = rest[0]
    if _isinstance(h, _str):
        return h[0] not in alphabet
    if _isinstance(h, Ch):
        return not (h.dom & alphabet)
    a = h.alphabet
    return a is not None and not (a & alphabet)


def _canonical_int(text, kind):
    try:
        if kind == "dec":
            n = _int(text, 10)
            return n if _int.__repr__(n) == text else None
        n = _int(text, 16)
        return n if builtins.hex(n) == text else None
    except ValueError:
        return None


def rope_eq(a, b):
    """z3 formula: two ropes denote the same text."""
    a, b = list(normalize(a)), list(normalize(b))
    acc = []
    while a and b:
        x, y = a[0], b[0]
        if _isinstance(x, _str) and _isinstance(y, _str):
            n = min(_len(x), _len(y))
            if x[:n] != y[:n]:
                return FALSE
            a[0:1] = [x[n:]] if x[n:] else []
            b[0:1] = [y[n:]] if y[n:] else []
            continue
        if _isinstance(x, Tok) or _isinstance(y, Tok):
            if not _isinstance(x, Tok):
                x, y, a, b = y, x, b, a
            al = x.alphabet
            if _isinstance(y, Tok):
                if x.kind == y.kind and x.pad == y.pad:
                    al2 = y.alphabet
                    if item_key(x) == item_key(y) and (
                        x.kind != "opq" or (_boundary(a[1:], al) and _boundary(b[1:], al2))
                    ):
                        a, b = a[1:], b[1:]
                        continue
                    if x.kind == "opq" and not (_len(a) == 1 and _len(b) == 1):
                        raise Unsupported("opaque text inside a larger string")
                    if _boundary(a[1:], al) and _boundary(b[1:], al2):
                        q = tok_eq(x, y)
                        if z3.is_false(q):
                            return FALSE
                        acc.append(q)
                        a, b = a[1:], b[1:]
                        continue
                elif {x.kind, y.kind} <= {"fp", "dec", "hash", "hex"} and (
                    "fp" in (x.kind, y.kind) or "hash" in (x.kind, y.kind)
                ):
                    return FALSE  # a hash never equals unrelated text
                elif "opq" in (x.kind, y.kind):
                    return FALSE
            elif _isinstance(y, _str) and x.kind in ("dec", "hex") and not x.pad:
                # literal run that must be the token's text
                n = 0
                while n < _len(y) and y[n] in al:
                    n += 1
                if n == 0:
                    return FALSE
                rest_b = [y[n:], *b[1:]] if y[n:] else b[1:]
                if _boundary(rest_b, al) and _boundary(a[1:], al):
                    v = _canonical_int(y[:n], x.kind)
                    if v is None:
                        return FALSE
                    q = z3.simplify(_bvsafe_eq(x.data, v))
                    if z3.is_false(q):
                        return FALSE
                    acc.append(q)
                    a, b = a[1:], rest_b
                    continue
            elif x.kind in ("fp", "hash"):
                h = y[0] if _isinstance(y, _str) else None
                return FALSE  # a hash never equals unrelated text
            elif x.kind == "opq":
                return FALSE  # opaque serialisations never equal unrelated text
            a = list(normalize([*expand_tok(x), *a[1:]])) if x.kind in ("dec", "hex") else a
            if _isinstance(y, Tok):
                b = list(normalize([*expand_tok(y), *b[1:]]))
            continue
        cx = x[0] if _isinstance(x, _str) else x
        cy = y[0] if _isinstance(y, _str) else y
        q = char_eq(cx, cy)
        if z3.is_false(q):
            return FALSE
        acc.append(q)
        a[0:1] = [x[1:]] if _isinstance(x, _str) and x[1:] else []
        b[0:1] = [y[1:]] if _isinstance(y, _str) and y[1:] else []
    if a or b:
        return FALSE
    return mk_and(acc)


def _bvsafe_eq(p, v):
    _, x, y = _coerce(p, v)
    return x == y


def deep_eq(x, y):
    """z3 formula: structural equality of plain data."""
    if _isinstance(x, (list, tuple)) and _isinstance(y, (list, tuple)):
        if _isinstance(x, list) != _isinstance(y, list) or _len(x) != _len(y):
            return FALSE
        return mk_and([deep_eq(i, j) for i, j in zip(x, y)])
    if _isinstance(x, dict) and _isinstance(y, dict):
        if _len(x) != _len(y):
            return FALSE
        acc = []
        for (k1, v1), (k2, v2) in zip(x.items(), y.items()):
            acc += [deep_eq(k1, k2), deep_eq(v1, v2)]
        return mk_and(acc)
    if _isinstance(x, _int) and _isinstance(y, _int):
        if _isinstance(x, bool) or _isinstance(y, bool):
            return TRUE if x is y else FALSE
        return to_z3bool(SymInt.__eq__(x if _isinstance(x, SymInt) else SymInt(x), y))
    if _isinstance(x, _str) and _isinstance(y, _str):
        return rope_eq(lift_items(x), lift_items(y))
    r = x == y
    return to_z3bool(r)


# ---- the proxy -------------------------------------------------------------------------------
def _unsupported(name):
    def f(self, *a, **k):
        if all(_isinstance(i, _str) for i in self._r) and not any(
            _isinstance(x, SymStr) for x in a
        ):
            return getattr("".join(self._r), name)(*a, **k)
        raise Unsupported(f"str.{name} on symbolic text")

    f.__name__ = name
    return f


class SymStr(_str):
    _r = ()

    def __new__(cls, x=""):
        if _isinstance(x, SymStr):
            return x
        return mk_str(lift_items(_str(x)))

    @staticmethod
    def _make(items):
        i = _register(None)
        obj = _str.__new__(SymStr, f"\ue000{i}\ue001")
        obj._r = items
        eng().registry[i] = obj
        return obj

    def __hash__(self):
        return 0

    def __str__(self):
        return self

    def __repr__(self):
        return mk_str(("'", *self._r, "'"))

    def __format__(self, spec):
        if spec in ("", "s"):
            return self
        m = _FORMAT.fullmatch(spec)
        if not m or m["type"] not in (None, "s") or m["sign"] or m["alt"] or m["align"] == "=":
            raise Unsupported(f"format spec {spec!r} on text")
        cs = chars_of(self._r)
        if any(_isinstance(c, Tok) for c in cs):
            raise Unsupported(f"format spec {spec!r} on opaque text")
        if m["prec"]:
            cs = cs[: _int(m["prec"][1:])]
        return mk_str(_pad((), tuple(cs), m["align"] or "<", m["fill"] or ("0" if m["zero"] else " "), _int(m["width"] or 0)))

    def __eq__(self, other):
        if not _isinstance(other, _str):
            return NotImplemented
        return mk_bool(rope_eq(self._r, lift_items(other)))

    def __ne__(self, other):
        if not _isinstance(other, _str):
            return NotImplemented
        return mk_bool(mk_not(rope_eq(self._r, lift_items(other))))

    def _cmp(self, other, *, lt, eq):
        if not _isinstance(other, _str):
            return NotImplemented
        a, b = chars_of(self._r), chars_of(lift_items(other))
        for x, y in zip(a, b):
            if _isinstance(x, Tok) or _isinstance(y, Tok):
                if (
                    _isinstance(x, Tok)
                    and _isinstance(y, Tok)
                    and x.kind == y.kind == "fp"
                ):
                    if eng().fork(x.data.eq(y.data)):
                        continue
                    return lt == eng().fork(x.data.order_var() < y.data.order_var())
                raise Unsupported("ordering opaque text")
            q = char_eq(x, y)
            if z3.is_true(q) or (not z3.is_false(q) and eng().fork(q)):
                continue
            ex = z3.IntVal(ord(x)) if _isinstance(x, _str) else x.e
            ey = z3.IntVal(ord(y)) if _isinstance(y, _str) else y.e
            return lt == eng().fork(ex < ey)
        if _len(a) == _len(b):
            return eq
        return lt == (_len(a) < _len(b))

    def __lt__(self, o):
        return self._cmp(o, lt=True, eq=False)

    def __le__(self, o):
        return self._cmp(o, lt=True, eq=True)

    def __gt__(self, o):
        return self._cmp(o, lt=False, eq=False)

    def __ge__(self, o):
        return self._cmp(o, lt=False, eq=True)

    def __bool__(self):
        return True if self._r else False

    def __len__(self):
        return _len(chars_of(self._r))

    def __iter__(self):
        return iter([c if _isinstance(c, _str) else mk_str((c,)) for c in chars_of(self._r)])

    def __getitem__(self, i):
        cs = chars_of(self._r)
        if any(_isinstance(c, Tok) for c in cs):
            raise Unsupported("indexing opaque text")
        if is_symint(i):
            raise Unsupported("symbolic index")
        r = cs[i]
        return mk_str(tuple(r) if _isinstance(i, slice) else (r,))

    def __add__(self, o):
        if not _isinstance(o, _str):
            return NotImplemented
        return mk_str((*self._r, *lift_items(o)))

    def __radd__(self, o):
        if not _isinstance(o, _str):
            return NotImplemented
        return mk_str((*lift_items(o), *self._r))

    def __mul__(self, n):
        return mk_str(self._r * _int(n))

    __rmul__ = __mul__

    def __mod__(self, o):
        raise Unsupported("% formatting of symbolic text")

    __rmod__ = __mod__

    def __contains__(self, sub):
        return self.find(sub) >= 0

    # -- searching. Positions are over "cells": chars, or whole opaque tokens.
    def _match_at(self, cs, i, pat):
        if i + _len(pat) > _len(cs):
            return False
        # Literal mismatches first (no forking), then fork on the rest.
        for k, p in enumerate(pat):
            c = cs[i + k]
            if _isinstance(c, Tok) or _isinstance(p, Tok):
                if _isinstance(c, Tok) and _isinstance(p, Tok):
                    if c.kind != p.kind:
                        return False
                    continue
                t, o = (c, p) if _isinstance(c, Tok) else (p, c)
                al = t.alphabet
                if al is None:
                    raise Unsupported("searching opaque text")
                dom = frozenset(o) if _isinstance(o, _str) else o.dom
                if not (dom & al):
                    return False
                raise Unsupported("searching inside a token")
            if z3.is_false(char_eq(c, p)):
                return False
        q = mk_and(
            [
                tok_eq(cs[i + k], p) if _isinstance(p, Tok) else char_eq(cs[i + k], p)
                for k, p in enumerate(pat)
            ]
        )
        return eng().fork(q)

    def _find_all(self, sub, *, limit=-1, start=0):
        cs = chars_of(self._r)
        pat = chars_of(lift_items(sub))
        if not pat:
            raise ValueError("empty separator")
        out, i = [], start
        while i + _len(pat) <= _len(cs) and limit != 0:
            if self._match_at(cs, i, pat):
                out.append(i)
                i += _len(pat)
                limit -= 1
            else:
                i += 1
        return cs, pat, out

    def find(self, sub, start=0, end=None):
        if end is not None:
            raise Unsupported("find with end")
        if not sub:
            return start
        _, _, pos = self._find_all(sub, limit=1, start=start)
        return pos[0] if pos else -1

    def index(self, sub, *a):
        r = self.find(sub, *a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def rfind(self, sub):
        cs, pat = chars_of(self._r), chars_of(lift_items(sub))
        for i in range(_len(cs) - _len(pat), -1, -1):
            if self._match_at(cs, i, pat):
                return i
        return -1

    def rindex(self, sub):
        r = self.rfind(sub)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def count(self, sub):
        return _len(self._find_all(sub)[2])

    def split(self, sep=None, maxsplit=-1):
        if sep is None:
            raise Unsupported("split on whitespace")
        cs, pat, pos = self._find_all(sep, limit=maxsplit)
        out, last = [], 0
        for p in pos:
            out.append(mk_str(tuple(cs[last:p])))
            last = p + _len(pat)
        out.append(mk_str(tuple(cs[last:])))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None:
            raise Unsupported("rsplit on whitespace")
        if maxsplit < 0:
            return self.split(sep)
        cs, pat = chars_of(self._r), chars_of(lift_items(sep))
        out = []
        end = _len(cs)
        while maxsplit > 0:
            for i in range(end - _len(pat), -1, -1):
                if self._match_at(cs[:end], i, pat):
                    out.insert(0, mk_str(tuple(cs[i + _len(pat) : end])))
                    end = i
                    maxsplit -= 1
                    break
            else:
                break
        out.insert(0, mk_str(tuple(cs[:end])))
        return out

    def partition(self, sep):
        cs, pat, pos = self._find_all(sep, limit=1)
        if not pos:
            return (self, "", "")
        p = pos[0]
        return (mk_str(tuple(cs[:p])), sep, mk_str(tuple(cs[p + _len(pat) :])))

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return ("", "", self)
        cs, pat = chars_of(self._r), chars_of(lift_items(sep))
        return (mk_str(tuple(cs[:i])), sep, mk_str(tuple(cs[i + _len(pat) :])))

    def replace(self, old, new, count=-1):
        if not old:
            raise Unsupported("replace of empty text")
        cs, pat, pos = self._find_all(old, limit=count)
        out, last = [], 0
        for p in pos:
            out.extend(cs[last:p])
            out.extend(lift_items(new))
            last = p + _len(pat)
        out.extend(cs[last:])
        return mk_str(tuple(out)) if pos else self

    def startswith(self, prefix, *a):
        if a:
            raise Unsupported("startswith with bounds")
        if _isinstance(prefix, tuple):
            return any(self.startswith(p) for p in prefix)
        cs, pat = chars_of(self._r), chars_of(lift_items(prefix))
        return self._match_at(cs, 0, pat) if pat else True

    def endswith(self, suffix, *a):
        if a:
            raise Unsupported("endswith with bounds")
        if _isinstance(suffix, tuple):
            return any(self.endswith(p) for p in suffix)
        cs, pat = chars_of(self._r), chars_of(lift_items(suffix))
        if not pat:
            return True
        if _len(pat) > _len(cs):
            if any(_isinstance(c, Tok) for c in cs):
                raise Unsupported("endswith on opaque text")
            return False
        return self._match_at(cs, _len(cs) - _len(pat), pat)

    def removeprefix(self, p):
        if p and self.startswith(p):
            return mk_str(tuple(chars_of(self._r)[_len(chars_of(lift_items(p))) :]))
        return self

    def removesuffix(self, p):
        if p and self.endswith(p):
            return mk_str(tuple(chars_of(self._r)[: -_len(chars_of(lift_items(p)))]))
        return self

    def lstrip(self, chars=None):
        dom = _WS if chars is None else frozenset(_plain(chars))
        cs = chars_of(self._r)
        while cs and _strip_hit(cs[0], dom):
            cs = cs[1:]
        return mk_str(tuple(cs))

    def rstrip(self, chars=None):
        dom = _WS if chars is None else frozenset(_plain(chars))
        cs = chars_of(self._r)
        while cs and _strip_hit(cs[-1], dom):
            cs = cs[:-1]
        return mk_str(tuple(cs))

    def strip(self, chars=None):
        r = self.lstrip(chars)
        return r.rstrip(chars)

    def join(self, it):
        out, first = [], True
        for x in it:
            if not first:
                out.extend(self._r)
            first = False
            out.extend(lift_items(x))
        return mk_str(tuple(out))

    def encode(self, *a, **k):
        return SymBytes(self._r)

    def isdigit(self):
        return all(char_in(c, DIGITS) for c in chars_of(self._r)) and bool(self._r)

    isdecimal = isnumeric = isdigit

    def zfill(self, width):
        n = _len(self)
        if n >= width:
            return self
        cs = chars_of(self._r)
        if cs and char_in(cs[0], frozenset("+-")):
            return mk_str((cs[0], "0" * (width - n), *cs[1:]))
        return mk_str(("0" * (width - n), *cs))

    def _map_case(self, fn, name):
        out = []
        for it in self._r:
            if _isinstance(it, _str):
                out.append(fn(it))
            elif _isinstance(it, Ch):
                if all(fn(c) == c for c in it.dom):
                    out.append(it)
                    continue
                e = it.e
                for c in sorted(it.dom):
                    if fn(c) != c:
                        if _len(fn(c)) != 1:
                            raise Unsupported(name)
                        e = z3.If(it.e == ord(c), ord(fn(c)), e)
                out.append(Ch(e, frozenset(fn(c) for c in it.dom)))
            else:
                al = it.alphabet
                if al is None or any(fn(c) != c for c in al):
                    raise Unsupported(name)
                out.append(it)
        return mk_str(tuple(out))

    def lower(self):
        return self._map_case(_str.lower, "lower")

    def upper(self):
        return self._map_case(_str.upper, "upper")

    casefold = lower

    def __getnewargs__(self):
        raise Unsupported("pickling symbolic text")

    def __reduce_ex__(self, p):
        raise Unsupported("pickling symbolic text")

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    for _n in (
        "capitalize center expandtabs isalnum isalpha isascii isidentifier islower isprintable"
        " isspace istitle isupper ljust rjust splitlines swapcase title translate"
    ).split():
        locals()[_n] = _unsupported(_n)
    del _n
    def format(self, *a, **k):
        return lift(_str.format(embed(self), *a, **k))

    def format_map(self, m):
        return lift(_str.format_map(embed(self), m))



def _plain(s):
    if _isinstance(s, SymStr):
        raise Unsupported("symbolic strip set")
    return s


def _strip_hit(c, dom):
    if _isinstance(c, Tok):
        al = c.alphabet
        if al is None or (al & dom):
            raise Unsupported("stripping opaque text")
        return False
    return char_in(c, dom)


class SymBytes:
    """Bytes of a rope (ASCII/UTF-8 encoding is injective, so the rope itself is the payload)."""

    __slots__ = ("_r",)

    def __init__(self, items):
        self._r = items

    def decode(self, *a, **k):
        return mk_str(self._r)

    def __bool__(self):
        return bool(self._r)

    def __len__(self):
        return _len(chars_of(self._r))

    def __eq__(self, o):
        if _isinstance(o, SymBytes):
            return mk_bool(rope_eq(self._r, o._r))
        if _isinstance(o, bytes):
            return mk_bool(rope_eq(self._r, (o.decode(),) if o else ()))
        return NotImplemented

    def __hash__(self):
        return 0

    def __add__(self, o):
        return SymBytes(normalize((*self._r, *_bytes_items(o))))

    def __radd__(self, o):
        return SymBytes(normalize((*_bytes_items(o), *self._r)))

    def __getitem__(self, i):
        if not _isinstance(i, slice):
            raise Unsupported("indexing symbolic bytes")
        cs = chars_of(self._r)
        return SymBytes(normalize(tuple(cs[i])))


def _bytes_items(b):
    if _isinstance(b, SymBytes):
        return b._r
    if _isinstance(b, _str):
        return lift_items(b)
    return lift_items(bytes(b).decode())


# ---------------------------------------------------------------------------------------------
# Dates
# ---------------------------------------------------------------------------------------------
def _days_in_month(y, m):
    leap = z3.And(y % 4 == 0, z3.Or(y % 100 != 0, y % 400 == 0))
    return z3.If(
        m == 2,
        z3.If(leap, 29, 28),
        z3.If(z3.Or(m == 4, m == 6, m == 9, m == 11), 30, 31),
    )


def valid_date(y, m, d):
    return z3.And(y >= 1, y <= 9999, m >= 1, m <= 12, d >= 1, d <= _days_in_month(y, m))


def _z(x):
    p = payload(x) if _isinstance(x, _int) else x
    return z3.IntVal(p) if _isinstance(p, _int) else p


class SymDate(_date):
    """A date with symbolic components (native content is a fixed dummy)."""

    _s = None

    def __new__(cls, y, m=None, d=None):
        if m is None or d is None:
            return _date(y, m, d)  # raises the native error
        for v in (y, m, d):
            if not _isinstance(v, _int):
                raise TypeError("an integer is required")
        if not any(is_symint(v) for v in (y, m, d)):
            _date(_int(y), _int(m), _int(d))  # native validation
            return cls._make(z3.IntVal(_int(y)), z3.IntVal(_int(m)), z3.IntVal(_int(d)))
        ys, ms, ds = _z(y), _z(m), _z(d)
        if not eng().fork(valid_date(ys, ms, ds)):
            raise ValueError("day is out of range for month")
        return cls._make(ys, ms, ds)

    @staticmethod
    def _make(y, m, d):
        o = _date.__new__(SymDate, 1777, 7, 17)
        o._s = (y, m, d)
        return o

    @property
    def year(self):
        return mk_int(self._s[0])

    @property
    def month(self):
        return mk_int(self._s[1])

    @property
    def day(self):
        return mk_int(self._s[2])

    def isoformat(self):
        y, m, d = self._s
        return mk_str((*_padded(y, 4), "-", *_padded(m, 2), "-", *_padded(d, 2)))

    __str__ = isoformat

    def __repr__(self):
        return mk_str(("datetime.date(", *int_items(_c(self._s[0])), ", ",
                       *int_items(_c(self._s[1])), ", ", *int_items(_c(self._s[2])), ")"))

    def __format__(self, spec):
        if not spec:
            return self.isoformat()
        return self.strftime(spec)

    def strftime(self, fmt):
        y, m, d = self._s
        out, i = [], 0
        fmt = _str(fmt)
        while i < _len(fmt):
            if fmt[i] == "%" and i + 1 < _len(fmt):
                c = fmt[i + 1]
                if c == "Y":
                    # glibc does not pad %Y
                    out.extend((Tok("dec", y),) if not z3.is_int_value(y) else int_items(_c(y)))
                elif c == "m":
                    out.extend(_padded(m, 2))
                elif c == "d":
                    out.extend(_padded(d, 2))
                elif c == "F":
                    out.extend(lift_items(self.isoformat()))
                else:
                    raise Unsupported("strftime")
                i += 2
            else:
                out.append(fmt[i])
                i += 1
        return mk_str(tuple(out))

    def replace(self, year=None, month=None, day=None):
        return SymDate(
            self.year if year is None else year,
            self.month if month is None else month,
            self.day if day is None else day,
        )

    def __eq__(self, o):
        if not _isinstance(o, _date) or _isinstance(o, _dt.datetime):
            return NotImplemented
        a, b = self._s, date_parts(o)
        return mk_bool(z3.simplify(mk_and([x == y for x, y in zip(a, b)])))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else mk_bool(mk_not(to_z3bool(r)))

    def _key(self):
        y, m, d = self._s
        return (y * 16 + m) * 32 + d

    def _ord(op):
        def f(self, o):
            if not _isinstance(o, _date):
                return NotImplemented
            y, m, d = date_parts(o)
            return mk_bool(z3.simplify(_CMP[op](self._key(), (y * 16 + m) * 32 + d)))

        return f

    __lt__ = _ord("__lt__")
    __le__ = _ord("__le__")
    __gt__ = _ord("__gt__")
    __ge__ = _ord("__ge__")
    del _ord

    def __hash__(self):
        return 0

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise Unsupported("pickling a symbolic date")

    __reduce_ex__ = lambda self, p: self.__reduce__()  # noqa: E731

    def _uns(name):
        def f(self, *a, **k):
            raise Unsupported(f"date.{name}")

        return f

    for _n in "ctime isocalendar isoweekday timetuple toordinal weekday __add__ __radd__ __sub__ __rsub__".split():
        locals()[_n] = _uns(_n)
    del _n, _uns


class SymDateTime(_dt.datetime):
    """A datetime with symbolic components and a concrete fixed offset (or none)."""

    _s = None

    @staticmethod
    def _make(parts, tzinfo):
        o = _dt.datetime.__new__(SymDateTime, 1777, 7, 17, tzinfo=tzinfo)
        o._s = tuple(parts)
        return o

    def _part(i):
        return property(lambda self: mk_int(self._s[i]))

    year, month, day, hour = _part(0), _part(1), _part(2), _part(3)
    minute, second, microsecond = _part(4), _part(5), _part(6)
    del _part

    def micros(self):
        """Microseconds of local time since an epoch, minus the offset."""
        y, m, d, H, M, S, us = self._s
        a = z3.If(m <= 2, 1, 0)
        y2, m2 = y - a, m + 12 * a - 3
        days = d + (153 * m2 + 2) / 5 + 365 * y2 + y2 / 4 - y2 / 100 + y2 / 400
        off = self.utcoffset()
        off = 0 if off is None else _int(off.total_seconds() * 10**6)
        return (((days * 24 + H) * 60 + M) * 60 + S) * 10**6 + us - off

    def json(self):
        """pydantic's JSON rendering."""
        y, m, d, H, M, S, us = self._s
        out = [*_padded(y, 4), "-", *_padded(m, 2), "-", *_padded(d, 2), "T",
               *_padded(H, 2), ":", *_padded(M, 2), ":", *_padded(S, 2)]
        if eng().fork(us != 0):
            out += [".", *_padded(us, 6)]
        off = self.utcoffset()
        if off is not None:
            mins = _int(off.total_seconds()) // 60
            out.append("Z" if mins == 0 else f"{'-' if mins < 0 else '+'}{abs(mins) // 60:02}:{abs(mins) % 60:02}")
        return mk_str(tuple(out))

    def isoformat(self, *a, **k):
        if a or k:
            raise Unsupported("isoformat options")
        r = self.json()
        off = self.utcoffset()
        if off is not None and not off:
            r = r[:-1] + "+00:00"
        return r

    __str__ = lambda self: self.isoformat().replace("T", " ")  # noqa: E731
    __repr__ = lambda self: mk_str(("datetime(", *self.isoformat()._r, ")"))  # noqa: E731

    def replace(self, *a, **k):
        names = "year month day hour minute second microsecond".split()
        tz = k.pop("tzinfo", self.tzinfo)
        k.update(zip(names, a))
        k.pop("fold", None)
        parts = [_z(k.get(n, v)) if n in k else v for n, v in zip(names, self._s)]
        return SymDateTime._make(parts, tz)

    def astimezone(self, tz=None):
        if tz is None or self.tzinfo is None:
            raise Unsupported("the local time zone")
        e = eng()
        parts = [e.fresh_int("dt") for _ in range(7)]
        o = SymDateTime._make(parts, tz)
        e.add_fact(z3.And(valid_datetime(*parts), o.micros() == self.micros()))
        return o

    def __eq__(self, o):
        if not _isinstance(o, SymDateTime):
            return NotImplemented
        if (self.tzinfo is None) != (o.tzinfo is None):
            return False
        if self.utcoffset() == o.utcoffset():
            return mk_bool(z3.simplify(mk_and([x == y for x, y in zip(self._s, o._s)])))
        return mk_bool(z3.simplify(self.micros() == o.micros()))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else mk_bool(mk_not(to_z3bool(r)))

    def __hash__(self):
        return 0

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def _uns(name):
        def f(self, *a, **k):
            raise Unsupported(f"datetime.{name}")

        return f

    for _n in ("ctime isocalendar isoweekday timetuple utctimetuple toordinal weekday __add__ __radd__ __sub__"
               " __rsub__ __reduce__ __reduce_ex__ __format__ strftime timestamp date time timetz __lt__ __le__"
               " __gt__ __ge__").split():
        locals()[_n] = _uns(_n)
    del _n, _uns


def valid_datetime(y, m, d, H, M, S, us):
    return z3.And(valid_date(y, m, d), H >= 0, H <= 23, M >= 0, M <= 59, S >= 0, S <= 59, us >= 0, us <= 999999)


def _c(t):
    t = z3.simplify(t)
    return t.as_long() if z3.is_int_value(t) else t


def _padded(t, width):
    t = _c(t)
    if _isinstance(t, _int):
        return (format(t, f"0{width}"),)
    return _fixed_digits(t, width)


def _fixed_digits(t, width):
    """Exactly `width` digit characters of a value known to fit (no forking)."""
    e = eng()
    key = ("fixed", width, t.get_id())
    if key in e.cache:
        return e.cache[key][1]
    ds = [e.fresh_int("d") for _ in range(width)]
    total = z3.IntVal(0)
    for d in ds:
        total = total * 10 + d
    e.add_fact(z3.And(*[z3.And(d >= 0, d <= 9) for d in ds], total == t))
    out = tuple(Ch(d + 48, DIGITS) for d in ds)
    e.cache[key] = (t, out)
    return out


def date_parts(o):
    if _isinstance(o, SymDate):
        return o._s
    return (z3.IntVal(o.year), z3.IntVal(o.month), z3.IntVal(o.day))


def date_fromisoformat(s):
    if not _isinstance(s, _str):
        raise TypeError("fromisoformat: argument must be str")
    if not _isinstance(s, SymStr):
        s2 = lift(s)
        if not _isinstance(s2, SymStr):
            d = _date.fromisoformat(s2)
            return SymDate(d.year, d.month, d.day) if engine.ENGINE is not None else d
        s = s2
    cs = chars_of(s._r)
    err = ValueError("Invalid isoformat string")

    def num(xs):
        t = z3.IntVal(0)
        for c in xs:
            if not char_in(c, DIGITS):
                raise err
            t = t * 10 + (_int(c) if _isinstance(c, _str) else c.e - 48)
        return mk_int(z3.simplify(t))

    if _len(cs) == 10:
        if not (char_is(cs[4], "-") and char_is(cs[7], "-")):
            if char_is(cs[5], "W") or char_is(cs[4], "W"):
                raise Unsupported("ISO week dates")
            raise err
        return SymDate(num(cs[:4]), num(cs[5:7]), num(cs[8:10]))
    if _len(cs) == 8:
        if char_is(cs[4], "W") or char_is(cs[5], "W"):
            raise Unsupported("ISO week dates")
        return SymDate(num(cs[:4]), num(cs[4:6]), num(cs[6:8]))
    if _len(cs) == 7 and char_is(cs[4], "W"):
        raise Unsupported("ISO week dates")
    raise err


# ---------------------------------------------------------------------------------------------
# Model -> concrete value
# ---------------------------------------------------------------------------------------------
def model_int(m, p):
    v = m.eval(p, model_completion=True)
    if _isinstance(v, z3.BitVecNumRef):
        return v.as_signed_long()
    return v.as_long()


def model_str(m, items):
    out = []
    for it in items:
        if _isinstance(it, _str):
            out.append(it)
        elif _isinstance(it, Ch):
            out.append(chr(model_int(m, it.e)))
        elif it.kind == "dec":
            out.append(format(model_int(m, it.data), f"0{it.pad}" if it.pad else ""))
        elif it.kind == "hex":
            out.append(builtins.hex(model_int(m, it.data)))
        else:
            raise Unsupported("opaque text in a witness")
    return "".join(out)
