"""C15: a graph's artifact box stores each name once and freezes when sealed."""

from __future__ import annotations

from symex.case import Case

from arti import Artifact, Graph
from arti.formats.json import JSON
from arti.graphs import ArtifactBox
from arti.internal.mappings import InvalidKeyError, TypedBox, frozendict
from arti.storage.local import LocalFile
from arti.types import Int64

ALPHABET = "aA._"
ERRORS = (ValueError, AttributeError, KeyError, TypeError)


class Leaf:
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n


class Box(TypedBox[Leaf]):
    pass


def key(t, name, hi=3):
    """A (dotted) name and its parts, none of which is empty."""
    if hi == "deep":  # names of up to four levels
        parts = [t.text(f"{name} level {i}", "aA_z" if name == "set" else "aA_", 1, 1) for i in range(t.index(f"{name} levels", 4) + 1)]
        return ".".join(parts), parts
    k = t.text(name, ALPHABET, 1, hi)
    parts = k.split(".")
    t.assume(all([len(p) > 0 for p in parts]))
    return k, parts


def valid(parts):
    return not any([p.startswith("_") for p in parts])


def within(a, b):
    """Whether a names b itself or something b is in."""
    return len(a) <= len(b) and all([bool(x == y) for x, y in zip(a, b)])


def walked(box):
    return [(k.split("."), v) for k, v in box.walk()]


def contents(t, box, want, msg):
    """Walking yields exactly `want`: [(parts, value)]."""
    got = walked(box)
    t.check(len(got) == len(want), f"{msg}: every value once")
    for parts, v in want:
        hits = [w for p, w in got if within(p, parts) and len(p) == len(parts)]
        t.check(len(hits) == 1 and bool(t.same(hits[0].n, v.n)), f"{msg}: under its full name")


def spellings(box, k, parts):
    """A value read in every way."""
    out = [box[k]]
    node, attrs = box, box
    for p in parts:
        node = node[p]
        attrs = getattr(attrs, p)
    out += [node, attrs]
    for i in range(1, len(parts)):
        out.append(box[".".join(parts[:i])][".".join(parts[i:])])
        out.append(getattr(box, ".".join(parts[:i]))[".".join(parts[i:])])
    return out


def store(t, box, k, parts, v, how):
    """One way of storing a value under a name; whether it was accepted."""
    def setter():
        if how == "item":
            box[k] = v
        elif how == "attribute":
            setattr(box, k, v)
        elif how == "nested":
            node = box
            for p in parts[:-1]:
                node = node[p]
            node[parts[-1]] = v
        elif how == "attributes":
            node = box
            for p in parts[:-1]:
                node = getattr(node, p)
            setattr(node, parts[-1], v)
        else:
            m = v
            for p in reversed(parts[1:]):
                m = {p: m}
            box[parts[0]] = m

    return t.accepts(ERRORS, setter)


HOWS = ("item", "attribute", "nested", "attributes", "mapping")


def one(t, how, hi=3):
    """One value, and any name asked for."""
    box = Box()
    t.raises(TypeError, box.__setitem__, "other", "no leaf")
    t.check(not walked(box), "only values of the type are stored")
    k, parts = key(t, "stored", hi)
    v = Leaf(t.int("value"))
    ok, ex = store(t, box, k, parts, v, how)
    t.check(ok == valid(parts), "accepted unless a name starts with an underscore")
    if not ok:
        t.check(not walked(box), "nothing is stored then")
        t.cover("rejected")
        return
    other, names = key(t, "asked", hi)
    known, there = t.accepts(InvalidKeyError, lambda: other in box)
    t.check(known == valid(names) or not within(names[:-1], parts), "asking for an underscore is an error")
    if known and valid(names):
        t.check(there == within(names, parts), "membership")
    contents(t, box, [(parts, v)], "after asking")
    t.check(len(box) == 1, "nothing is added by asking")
    for got in spellings(box, k, parts):
        t.check(t.same(got.n, v.n), "read under every spelling")
    t.cover("stored")


def two(t, first, second, hi=3):
    """Two values under any names; the same or nested ones clash."""
    box = Box()
    k, parts = key(t, "one", hi)
    l, names = key(t, "two", hi)
    t.assume(valid(parts) and valid(names))
    v, w = Leaf(t.int("value one")), Leaf(t.int("value two"))
    store(t, box, k, parts, v, first)
    ok, _ = store(t, box, l, names, w, second)
    clash = within(parts, names) or within(names, parts)
    t.check(ok == (not clash), "a name is only set once")
    want = [(parts, v)] + ([] if clash else [(names, w)])
    contents(t, box, want, "both")
    for got in spellings(box, k, parts):
        t.check(t.same(got.n, v.n), "the first value stays")
    if clash:
        t.cover("clash")
        return
    for got in spellings(box, l, names):
        t.check(t.same(got.n, w.n), "the second value is read under every spelling")
    t.cover("both stored")


MAPPINGS = {"dict": dict, "frozendict": frozendict, "box": Box}


def merged(t, kind, sealed):
    """A mapping (of any kind) set twice keeps both sides; as does one given at the start."""
    make = MAPPINGS[kind]
    v, w, x = Leaf(t.int("v")), Leaf(t.int("w")), Leaf(t.int("x"))
    k, parts = key(t, "one", 3)
    l, names = key(t, "two", 2)
    t.assume(valid(parts) and valid(names))
    box = Box({"m": make({k: v})}, a=x)
    given = make({l: w})
    ok, _ = t.accepts(ERRORS, box.__setitem__, "m", given)
    clash = within(parts, names) or within(names, parts)
    t.check(ok == (not clash), "merged unless a name is set already")
    want = [(["a"], x), (["m", *parts], v)] + ([] if clash else [(["m", *names], w)])
    contents(t, box, want, "both sides")
    t.check(t.same(box.m[k].n, v.n), "the first side stays")
    if not clash:
        t.check(t.same(box["m." + l].n, w.n), "the second side is there")
    # No value in place of a mapping, and no mapping in place of a value.
    t.raises(ValueError, box.__setitem__, "m", w)
    t.raises(ValueError, box.__setitem__, "a", given)
    contents(t, box, want, "unchanged")
    # The mapping given is its own.
    t.check(len(given) == 1, "the mapping given is unchanged")
    if kind == "box":
        contents(t, given, [(names, w)], "the box given is unchanged")
        given["n.n"] = v
        contents(t, box, want, "apart from the box given")
    # Several at once, and in several steps.
    box.deep.er = make({"p": v, "q": make({"r": w})})
    box.deep = make({"er": make({"q": make({"s": x})}), "o": w})
    contents(t, box, [*want, (["deep", "er", "p"], v), (["deep", "er", "q", "r"], w), (["deep", "er", "q", "s"], x), (["deep", "o"], w)],
             "nested mappings merge")
    t.cover("clash" if clash else "merged")


def sealed(t, how, hi=3):
    """Nothing can be added or changed once sealed, at any level."""
    box = Box()
    k, parts = key(t, "stored", hi)
    t.assume(valid(parts))
    v, w = Leaf(t.int("v")), Leaf(t.int("w"))
    box[k] = v
    box["z.z"] = {"z": v}
    inner = box["z"]
    box._status.root = "closed"
    l, names = key(t, "set", hi)
    for b in (box, inner, box["z.z"]):
        ok, _ = store(t, b, l, names, w, how)
        t.check(not ok, "refused")
    t.check(not t.accepts(ERRORS, box.__setitem__, "z", {"y": w})[0], "no merging either")
    contents(t, box, [(parts, v), (["z", "z", "z"], v)], "unchanged")
    below = any([within(p, names) and len(p) < len(names) for p in (parts, ["z", "z", "z"])])  # no box to look into
    ok, got = t.accepts(ERRORS if below or not valid(names) else KeyError, lambda: box[l])
    t.check(ok == (valid(names) and within(names, parts)) or (ok and within(names, ["z", "z", "z"])), "missing names raise")
    ok, got = t.accepts(ERRORS if below else AttributeError, lambda: getattr(box, l))
    if valid(names):
        t.check(ok == (within(names, parts) or within(names, ["z", "z", "z"])), "missing attributes raise")
    contents(t, box, [(parts, v), (["z", "z", "z"], v)], "unchanged by reading")
    t.check(len(box) == (1 if bool(parts[0] == "z") else 2), "no names are added")
    t.cover("refused")


def art(t, n):
    return Artifact(type=Int64(), format=JSON(), storage=LocalFile(path="/" + t.text(n, "xX", 1, 1) + "/{names}"))


def graph(t):
    """The box of a graph: artifacts know their names, and the box seals with the graph."""
    k, parts = key(t, "one")
    l, names = key(t, "two", 2)
    t.assume(valid(parts) and valid(names) and all(bool(p != "") for p in parts + names))
    t.assume(not (within(parts, names) or within(names, parts)))
    with Graph(name="g") as g:
        a, b = art(t, "a"), art(t, "b")
        g.artifacts[k] = a
        g.artifacts[l] = b
        t.raises(ValueError, g.artifacts.__setitem__, k, b)
    for made, name, ps in ((a, k, parts), (b, l, names)):
        for got in spellings(g.artifacts, name, ps):
            t.check(t.same(got.storage.path, made.storage.path.replace("{names}", "/".join(ps))), "knows its full name")
            t.check(t.same(g.artifact_to_key[got], name), "and the graph its key")
    t.raises(ValueError, g.artifacts.__setitem__, "c", b)
    t.raises(ValueError, setattr, g.artifacts, "c", b)
    t.check([bool(t.same(x, k) or bool(t.same(x, l))) for x, _ in g.artifacts.walk()] == [True, True], "walks both")
    with g:
        g.artifacts["c.c"] = b
    t.check("c.c" in g.artifacts and g.artifacts.c.c.storage.path.endswith("/c/c"), "opened again")
    t.raises(ValueError, g.artifacts.c.__setitem__, "d", b)
    t.cover("sealed")


def CASES(tier):
    for how in HOWS:
        yield Case(f"one:{how}", one, dict(how=how), bounds="any name of up to 3 characters of 'ab._', then any other",
                   cover=("stored", "rejected"))
        yield Case(f"sealed:{how}", sealed, dict(how=how), bounds="a box of three levels, any names of up to 3 characters of 'ab._'",
                   cover=("refused",))
        for second in HOWS if tier != "quick" else ("item", "attributes", "mapping"):
            yield Case(f"two:{how}:{second}", two, dict(first=how, second=second),
                       bounds="any two names of up to 3 characters of 'ab._'", cover=("clash", "both stored"))
        deep = "any names of up to 4 one-character levels of 'aAz_'"
        yield Case(f"deep:one:{how}", one, dict(how=how, hi="deep"), bounds=deep, cover=("stored", "rejected"))
        yield Case(f"deep:sealed:{how}", sealed, dict(how=how, hi="deep"), bounds=deep, cover=("refused",))
        for second in HOWS if tier != "quick" else (how,):
            yield Case(f"deep:two:{how}:{second}", two, dict(first=how, second=second, hi="deep"), bounds=deep,
                       cover=("clash", "both stored"))
    for kind in MAPPINGS:
        yield Case(f"merged:{kind}", merged, dict(kind=kind, sealed=False), bounds="any names of up to 3 and 2 characters merged",
                   cover=("clash", "merged"))
    yield Case("graph", graph, bounds="two artifacts under any names of up to 3 and 2 characters", cover=("sealed",))
