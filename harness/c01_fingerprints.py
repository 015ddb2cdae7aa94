"""C01: fingerprints are an exact signed 64-bit XOR group; int64/uint64 arithmetic and conversion."""

from __future__ import annotations

import math
import operator

from pydantic import TypeAdapter, ValidationError

from symex.case import Case

from arti.fingerprints import Fingerprint
from arti.internal.utils import int64, uint64

LO, HI, UHI = -(2**63), 2**63 - 1, 2**64 - 1
WIDE = 2**70
ADAPTER = TypeAdapter(Fingerprint)


def group(t):
    a, b, c = (Fingerprint(t.bv(n, 64)) for n in "abc")
    ab = a.combine(b)
    t.check(type(ab) is Fingerprint, "combine returns a Fingerprint")
    t.check(t.both(ab >= LO, ab <= HI), "combine stays within int64")
    t.check(ab == b.combine(a), "commutative")
    t.check(ab.combine(c) == a.combine(b.combine(c)), "associative")
    t.check(a.combine(b, c) == ab.combine(c), "combine folds over all its arguments")
    t.check(a.combine() == a, "combining nothing")
    t.check(a.combine(Fingerprint.identity()) == a, "identity")
    t.check(a.combine(a) == Fingerprint.identity(), "self inverse")
    t.check(ab.combine(b) == a, "every fingerprint is its own inverse")
    t.check(t.iff(a.is_identity, a == 0), "is_identity")
    t.check((a ^ b) == ab, "xor is combine")
    t.check(t.iff(ab == a, b == 0), "only zero leaves a fingerprint unchanged")
    t.cover("group")


def narrow(t, kind):
    """Construction from arbitrary integers: exact, or ValueError."""
    x = t.int("x", -WIDE, WIDE)
    make, lo, hi = {
        "int64": (int64, LO, HI),
        "uint64": (uint64, 0, UHI),
        "fingerprint": (Fingerprint, LO, HI),
        "from_int": (Fingerprint.from_int, LO, HI),
        "field": (ADAPTER.validate_python, LO, HI),
    }[kind]
    ok, v = t.accepts((ValueError, ValidationError), make, x)
    t.check(t.iff(ok, t.both(x >= lo, x <= hi)), "accepted exactly when it fits")
    if ok:
        t.cover("in range")
        t.check(v == x, "value kept")
        want = {"int64": int64, "uint64": uint64}.get(kind, Fingerprint)
        t.check(type(v) is want, "type")
    else:
        t.cover("out of range")


def convert(t):
    s = int64(t.bv("s", 64))
    u = uint64(s)
    t.check(type(u) is uint64, "type")
    t.check(t.both(u >= 0, u <= UHI), "range")
    t.check((int(u) - int(s)) % 2**64 == 0, "two's complement")
    t.check(t.implies(s >= 0, int(u) == int(s)), "non-negative values unchanged")
    back = int64(u)
    t.check(type(back) is int64, "type")
    t.check(back == s, "int64 -> uint64 -> int64 is lossless")
    f = Fingerprint.from_uint64(u)
    t.check(t.both(f == s, type(f) is Fingerprint), "from_uint64")
    f = Fingerprint.from_int64(s)
    t.check(t.both(f == s, type(f) is Fingerprint), "from_int64")
    t.cover("convert")


def convert_back(t):
    u = uint64(t.bv("u", 64, signed=False))
    s = int64(u)
    t.check(t.both(s >= LO, s <= HI), "range")
    t.check((int(u) - int(s)) % 2**64 == 0, "two's complement")
    t.check(uint64(s) == u, "uint64 -> int64 -> uint64 is lossless")
    t.check(int64(int64(u)) == s, "idempotent")
    t.check(uint64(u) == u, "idempotent")
    t.cover("convert")


BITWISE = {"xor": operator.xor, "and": operator.and_, "or": operator.or_}
LINEAR = {"add": operator.add, "sub": operator.sub}
DIV = {"floordiv": operator.floordiv, "mod": operator.mod}
SHIFT = {"lshift": operator.lshift, "rshift": operator.rshift}
UNARY = {
    "neg": operator.neg,
    "pos": operator.pos,
    "invert": operator.invert,
    "trunc": math.trunc,
    "floor": math.floor,
    "ceil": math.ceil,
    "round": round,
}


def _operand(t, cls, name, bits):
    if bits:
        return t.bv(name, 64, signed=cls is not uint64)
    return t.int(name, 0 if cls is uint64 else LO, UHI if cls is uint64 else HI)


def _agree(t, cls, f, native, args, wrapped):
    """cls arithmetic equals Python's, in the same type, or is out of range and raises ValueError."""
    expected = native(*args)
    ok, r = t.accepts(ValueError, f, *wrapped)
    lo, hi = (0, UHI) if cls is uint64 else (LO, HI)
    t.check(t.iff(ok, t.both(expected >= lo, expected <= hi)), "ValueError exactly when it overflows")
    if ok:
        t.cover("fits")
        t.check(type(r) is cls, "stays in the same type")
        t.check(r == expected, "agrees with Python's integers")


def arithmetic(t, cls, op, side):
    bits = op in BITWISE or op in SHIFT
    a = _operand(t, cls, "a", bits)
    if op in UNARY:
        _agree(t, cls, UNARY[op], UNARY[op], (a,), (cls(a),))
        return
    if op in BITWISE or op in LINEAR:
        b = _operand(t, cls, "b", bits)
        f = (BITWISE | LINEAR)[op]
    elif op == "mul":
        f, b = operator.mul, t.choice("b", [0, 1, 2, 3, 7, 2**31, 2**62 + 1])
        if cls is not uint64 and t.bool("negate"):
            b = -b
    elif op in DIV:
        f, b = DIV[op], t.choice("b", [1, 2, 3, 7, 10, 2**32, 2**62 + 1])
        if cls is not uint64 and t.bool("negate"):
            b = -b
    else:
        f, b = SHIFT[op], t.choice("b", [0, 1, 2, 31, 62, 63, 64])
    if side == "left":
        _agree(t, cls, f, f, (a, b), (cls(a), b))
    elif side == "both":
        _agree(t, cls, f, f, (a, b), (cls(a), cls(b)))
    else:
        _agree(t, cls, f, f, (b, a), (b, cls(a)))


def reflected_div(t, cls, op, side):
    """Constant // x and constant % x over a small symbolic divisor."""
    b = t.choice("b", [0, 1, 17, 2**62 + 1])
    a = t.choice("a", [1, 2, 3, 5, 9, 64, 2**40])
    f = (DIV | SHIFT)[op]
    if op in SHIFT and a > 64:
        a = 63
    _agree(t, cls, f, f, (b, a), (b, cls(a)))


def comparisons(t):
    a, b = t.bv("a", 64), t.bv("b", 64)
    x, y = int64(a), Fingerprint(b)
    for name in ("eq", "ne", "lt", "le", "gt", "ge"):
        f = getattr(operator, name)
        t.check(t.iff(f(x, y), f(a, b)), f"{name} agrees with Python's integers")
    t.cover("compared")


def text(t, cls):
    a = _operand(t, cls, "a", False)
    x = cls(a)
    t.check(int(str(x)) == a, "str is the decimal value")
    t.check(int(f"{x}") == a, "format is the decimal value")
    t.check(cls(int(str(x))) == x, "survives text")
    t.cover("text")


def CASES(tier):
    out = [
        Case("group", group, bounds="3 arbitrary 64-bit values", cover=("group",)),
        Case("convert", convert, bounds="all 64-bit values", cover=("convert",)),
        Case("convert_back", convert_back, bounds="all 64-bit values", cover=("convert",)),
        Case("comparisons", comparisons, bounds="all 64-bit pairs", cover=("compared",)),
    ]
    for k in ("int64", "uint64", "fingerprint", "from_int", "field"):
        out.append(
            Case(f"narrow:{k}", narrow, {"kind": k}, "integers within +-2^70",
                 cover=("in range", "out of range"))
        )
    for cls in (int64, uint64, Fingerprint):
        n = cls.__name__
        out.append(Case(f"text:{n}", text, {"cls": cls}, "full range", cover=("text",)))
        for op in UNARY:
            out.append(
                Case(f"unary:{n}:{op}", arithmetic, {"cls": cls, "op": op, "side": None}, "full range")
            )
        for op in (*BITWISE, *LINEAR, "mul", *DIV, *SHIFT):
            sides = ["left", "both"] + (["right"] if op in BITWISE or op in LINEAR or op == "mul" else [])
            for side in sides:
                out.append(
                    Case(f"binary:{n}:{op}:{side}", arithmetic, {"cls": cls, "op": op, "side": side},
                         "left operand full range; right full range (bitwise, add, sub) or listed"
                         " constants (mul, div, shift)", cover=("fits",))
                )
        for op in (*DIV, *SHIFT):
            out.append(
                Case(f"reflected:{n}:{op}", reflected_div, {"cls": cls, "op": op, "side": "right"},
                     "listed constants", cover=("fits",))
            )
    return out
