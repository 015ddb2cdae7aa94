"""C17: frozendict behaves as an immutable dict value."""

from __future__ import annotations

from symex.case import Case

from arti.internal.mappings import FrozenMapping, frozendict
from arti.internal.models import Model

KEYS = "aA.1"
B64 = (-(2**63), 2**63 - 1)


def entries(t, name, n, ints=False):
    return [
        (t.int(f"{name}.k{i}", -5, 5) if ints else t.text(f"{name}.k{i}", KEYS, 1, 1), t.int(f"{name}.v{i}", *B64))
        for i in range(n)
    ]


def expected(pairs):
    """What a dict of these pairs holds, as a list of (key, last value) in first-seen order."""
    out = []
    for k, v in pairs:
        for e in out:
            if e[0] == k:
                e[1] = v
                break
        else:
            out.append([k, v])
    return out


def check_is(t, fd, want, msg):
    t.check(len(fd) == len(want), f"{msg}: size")
    t.check(t.same([k for k in fd], [k for k, _ in want]), f"{msg}: keys in order")
    t.check(t.same([fd[k] for k, _ in want], [v for _, v in want]), f"{msg}: values")
    t.check(t.same([list(kv) for kv in fd.items()], want), f"{msg}: items")
    t.check(all(k in fd for k, _ in want), f"{msg}: membership")


def content(t, n, ints, how):
    pairs = entries(t, "a", n, ints)
    want = expected(pairs)
    if how == "pairs":
        fd = frozendict(pairs)
    elif how == "iterator":
        fd = frozendict(p for p in pairs)
    elif how == "dict":
        fd = frozendict({k: v for k, v in pairs})
    else:
        fd = frozendict(frozendict(pairs))
    check_is(t, fd, want, "content")
    other = t.int("other", -6, 6) if ints else t.text("other", KEYS, 0, 2)
    has = any(bool(other == k) for k, _ in want)
    t.check((other in fd) == has, "contains exactly its keys")
    t.check((fd.get(other) is not None) == has, "get")
    if not has:
        t.raises(KeyError, fd.__getitem__, other)
    t.cover("has" if has else "has not")


def kwargs(t):
    """Keyword entries come last."""
    x, y, z = (t.int(n, *B64) for n in "xyz")
    fd = frozendict({"p": x, "q": y}, q=z, r=x)
    check_is(t, fd, [["p", x], ["q", z], ["r", x]], "kwargs")
    check_is(t, frozendict([("p", x), ("p", y)], r=z), [["p", y], ["r", z]], "kwargs")
    check_is(t, frozendict(), [], "empty")
    t.cover("done")


def equality(t, n):
    """Equal exactly when the entries are; equal hashes whatever the order."""
    t.model_hashes()
    a = entries(t, "a", n, ints=True)
    b = [(k, v) for k, v in reversed(a)] if t.bool("permuted") else entries(t, "b", n, ints=True)
    want_a, want_b = expected(a), expected(b)
    fa, fb = frozendict(a), frozendict(b)
    same = len(want_a) == len(want_b) and all(
        any(bool(ka == kb) and bool(va == vb) for kb, vb in want_b) for ka, va in want_a)
    t.check((fa == fb) == same, "equal exactly when the entries are")
    t.check((fa != fb) != same, "!= is the opposite")
    if same:
        t.check(t.hash(fa) == t.hash(fb), "equal values have equal hashes")
        t.cover("equal")
    else:
        t.cover("different")
    t.check(t.hash(fa) == t.hash(frozendict(fa)), "a copy has the same hash")


def mapping_equality(t, n):
    """Equal to a plain dict with the same entries, on either side."""
    a, b = entries(t, "a", n), entries(t, "b", n)
    fa, db = frozendict(a), dict(b)
    same = (len(expected(a)) == len(expected(b)) and all(
        any(bool(ka == kb) and bool(va == vb) for kb, vb in expected(b)) for ka, va in expected(a)))
    t.check((fa == db) == same, "equals a dict with the same entries")
    t.check((db == fa) == same, "on either side")
    t.check(fa != 1, "not equal to something else")
    t.cover("equal" if same else "different")


def merge(t, n, m, left, right, ints=False):
    """a | b: entries of both, the right one wins; operands unchanged."""
    kinds = {"frozendict": frozendict, "dict": dict}
    a, b = entries(t, "a", n, ints), entries(t, "b", m, ints)
    wa, wb = expected(a), expected(b)
    ma, mb = kinds[left](a), kinds[right](b)
    out = ma | mb
    t.check(type(out) is frozendict, "a frozendict")
    want = expected([tuple(x) for x in wa] + [tuple(x) for x in wb])
    t.check(t.same({k: 0 for k, _ in want} and len(out), len(want)) if want else len(out) == 0, "size")
    for k, v in want:
        t.check(k in out, "keys of both")
        t.check(out[k] == v, "the right operand wins")
    t.check(t.same([list(x) for x in ma.items()], wa), "left unchanged")
    t.check(t.same([list(x) for x in mb.items()], wb), "right unchanged")
    t.cover("overlap" if len(want) < len(wa) + len(wb) else "disjoint")


class Sub(frozendict):
    pass


def merge_subclass(t):
    x, y = t.int("x", *B64), t.int("y", *B64)
    s = Sub({"a": x})
    t.check(type(s | {"b": y}) is Sub, "keeps the class")
    t.check(type({"b": y} | s) is Sub, "keeps the class")
    t.check(t.same(dict({"a": y} | s), {"a": x}), "the right operand wins")
    t.check(t.same(dict(s | {"a": y}), {"a": y}), "the right operand wins")
    t.cover("done")


def immutable(t, n):
    """No operation changes it; neither do later changes of the source."""
    a = entries(t, "a", n)
    want = expected(a)
    source = dict(a)
    fd = frozendict(source)
    k, v = t.text("k", KEYS, 1, 1), t.int("v", *B64)
    source[k] = v
    check_is(t, fd, want, "after changing the source")
    source.clear()
    check_is(t, fd, want, "after clearing the source")

    def put():
        fd[k] = v

    def drop():
        del fd[k]

    def ior():
        x = fd
        x |= {k: v}

    t.raises(TypeError, put)
    t.raises(TypeError, drop)
    for name in ("update", "pop", "popitem", "clear", "setdefault"):
        t.check(not hasattr(fd, name), f"no {name}")
    ior()
    check_is(t, fd, want, "after |=")
    t.cover("done")


def unhashable(t, kind):
    """Values that are not frozen are rejected at creation."""
    v, n = t.int("v", *B64), t.index("at", 3)
    bad = {"list": [v], "dict": {"a": v}, "set": {v}, "nested": (1, [v])}[kind]
    pairs = [(f"k{i}", bad if i == n else v) for i in range(3)]
    t.raises(TypeError, frozendict, pairs)
    t.raises(TypeError, frozendict, dict(pairs))
    t.raises(TypeError, frozendict, (), x=bad)
    fd = frozendict(a=v)
    t.raises(TypeError, lambda: fd | {"b": bad})
    t.raises(TypeError, lambda: {"b": bad} | fd)
    t.cover("done")


class Holder(Model):
    m: FrozenMapping[str, int]
    f: frozendict[str, int]


class Numbers(Model):
    m: FrozenMapping[int, int]


def field(t):
    """As a model field: any mapping is taken and frozen; the model is a value."""
    x, y, z = (t.int(n, *B64) for n in "xyz")
    source = {"a": x, "b": y}
    h = Holder(m=source, f=frozendict(source))
    source["a"] = z
    t.check(type(h.m) is frozendict and type(h.f) is frozendict, "frozen")
    t.check(t.same(dict(h.m), {"a": x, "b": y}), "content")
    t.check(t.same(dict(h.f), {"a": x, "b": y}), "content")
    t.raises(ValueError, Holder, m={"a": "1"}, f=frozendict())
    numbers = Numbers(m={t.int("k", -5, 5): x})
    t.check(type(numbers.m | {7: y}) is frozendict and t.same((numbers.m | {7: y})[7], y), "keys of any type")
    t.raises(ValueError, Holder, m={1: x}, f=frozendict())
    t.check(h == Holder(m={"b": y, "a": x}, f=frozendict({"b": y, "a": x})), "equal whatever the order")
    t.cover("done")


def CASES(tier):
    big = tier == "thorough"
    out = []
    for how in ("pairs", "iterator", "dict", "frozendict"):
        for n in (0, 2, 3) if not big else (0, 1, 2, 3, 4):
            out.append(Case(f"content:{how}:{n}", content, {"n": n, "ints": False, "how": how},
                            f"{n} entries, keys of one character over {KEYS}, 64-bit values",
                            cover=("has", "has not") if n else ("has not",)))
    out.append(Case("content:ints", content, {"n": 3, "ints": True, "how": "pairs"}, "3 entries, keys -5..5",
                    cover=("has", "has not")))
    out.append(Case("kwargs", kwargs, {}, "all 64-bit values", cover=("done",)))
    for n in (1, 2) if not big else (1, 2, 3):
        out.append(Case(f"equality:{n}", equality, {"n": n}, f"{n} against {n} entries, keys -5..5",
                        cover=("equal", "different")))
        out.append(Case(f"mapping-equality:{n}", mapping_equality, {"n": n}, f"{n} against {n} entries",
                        cover=("equal", "different")))
    for left, right in (("frozendict", "frozendict"), ("frozendict", "dict"), ("dict", "frozendict")):
        for n, m in ((1, 1), (2, 1), (1, 2), (2, 2)) if not big else ((1, 1), (2, 2), (3, 2), (2, 3)):
            out.append(Case(f"merge:{left}:{right}:{n}{m}", merge, {"n": n, "m": m, "left": left, "right": right},
                            f"{n} and {m} entries", cover=("overlap", "disjoint")))
        out.append(Case(f"merge:{left}:{right}:numbers", merge, {"n": 2, "m": 2, "left": left, "right": right, "ints": True},
                        "2 and 2 entries, keys -5..5", cover=("overlap", "disjoint")))
    out.append(Case("merge:subclass", merge_subclass, {}, "all 64-bit values", cover=("done",)))
    out.append(Case("immutable", immutable, {"n": 3}, "3 entries and one change", cover=("done",)))
    for kind in ("list", "dict", "set", "nested"):
        out.append(Case(f"unhashable:{kind}", unhashable, {"kind": kind}, "at any of 3 positions", cover=("done",)))
    out.append(Case("field", field, {}, "all 64-bit values", cover=("done",)))
    return out
