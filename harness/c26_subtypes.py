"""C26: Subtype checks on hints agree with the documented hint semantics.

Which of the classes within the hints are subclasses of one another is symbolic."""

from __future__ import annotations

from collections.abc import Iterable, Mapping, Sequence
from typing import Annotated, Any, Literal, Optional, TypedDict, TypeVar, Union

from symex.case import Case

from arti.internal.type_hints import lenient_issubclass

NoneType = type(None)


class Unspecified(Exception):
    pass


class Meta(type):
    """Classes related as the solver likes."""

    def __subclasscheck__(cls, sub):
        return cls.above(sub) if isinstance(sub, Meta) else False


def leaves(t, n):
    """n classes, and the relation (any preorder) between them."""
    rel = [[True if i == j else t.int(f"r{i}{j}", 0, 1) == 1 for j in range(n)] for i in range(n)]
    for i in range(n):
        for j in range(n):
            for k in range(n):
                if len({i, j, k}) == 3:
                    t.assume(t.implies(t.both(rel[i][j], rel[j][k]), rel[i][k]))
    made = []
    for j in range(n):
        cls = Meta(f"L{j}", (), {})
        cls.above = staticmethod(lambda sub, j=j: rel[sub.number][j])
        cls.number = j
        made.append(cls)
    return made, rel


LIKE = {  # what the containers are subclasses of
    list: (list, Sequence, Iterable, object), tuple: (tuple, Sequence, Iterable, object), dict: (dict, Mapping, Iterable, object),
    set: (set, Iterable, object), frozenset: (frozenset, Iterable, object), Sequence: (Sequence, Iterable, object), Mapping: (Mapping, Iterable, object),
    Iterable: (Iterable, object),
}
ARITY = {list: 1, set: 1, frozenset: 1, Sequence: 1, Iterable: 1, tuple: 2, dict: 2, Mapping: 2}


class Given:
    def __init__(self, t, n, containers=(list, tuple, dict, Sequence, Mapping), lean=False):
        self.t = t
        self.containers, self.lean = containers, lean
        self.leaves, self.rel = leaves(t, n)
        self.n = n
        self.at_most = False

    def leaf(self, name):
        return ("leaf", self.t.index(f"{name}.leaf", self.n))

    def make(self, name, kinds, *inner):
        """Any hint of the kinds, as (kind, ...), with hints of the next kinds inside."""
        t = self.t
        kind = t.choice(f"{name}.is", kinds) if len(kinds) > 1 else kinds[0]
        if kind == "leaf":
            return self.leaf(name)
        if kind in ("any", "none", "object", "free", "literal", "dictionary"):
            return (kind,)
        if kind == "plain":
            return ("plain", t.choice(f"{name}.container", self.containers))
        next_, rest = (inner[0], inner[1:]) if inner else (("leaf",), ())
        if kind in ("annotated", "bound", "several"):
            return (kind, self.make(f"{name}.0", tuple(k for k in next_ if kind == "annotated" or k not in ("several", "literal")), *rest))
        if kind == "union":
            return ("union", self.make(f"{name}.0", tuple(k for k in next_ if k not in ("any", "union", "object")) or ("leaf",), *rest), self.make(f"{name}.1", ("leaf", "none")))
        if kind == "container":
            c = t.choice(f"{name}.container", self.containers)
            first = self.make(f"{name}.0", next_, *rest)
            return ("container", c, first, *([self.second(name)] if ARITY[c] == 2 and (c is not tuple or t.bool(f"{name}.two")) else []))
        if kind == "many":
            return ("many", self.make(f"{name}.0", next_, *rest))
        if kind == "typed":
            sets = ["ab", "ba", "a", "b"] if not self.lean else ["ba", "a"] if name[0] == "s" and name[2] == "p" else ["ab", "b"]
            fields = t.choice(f"{name}.fields", sets)
            return ("typed", tuple((f, self.make(f"{name}.{f}", next_, *rest) if f == fields[0] else self.second(name)) for f in fields))
        raise AssertionError(kind)

    def second(self, name):
        """The other hint of two inside a hint."""
        return ("leaf", 0) if self.lean and not name.startswith("super") else self.make(f"{name}.1", ("leaf", "any"))

    def hint(self, h):
        kind, *args = h
        if kind == "leaf":
            return self.leaves[args[0]]
        if kind == "any":
            return Any
        if kind == "none":
            return NoneType
        if kind == "None":
            return None
        if kind == "object":
            return object
        if kind == "literal":
            return Literal["a"]
        if kind == "dictionary":
            return dict
        if kind == "free":
            return TypeVar("T")
        if kind == "bound":
            return TypeVar("B", bound=self.hint(args[0]))
        if kind == "annotated":
            return Annotated[self.hint(args[0]), "note"]
        if kind == "plain":
            return args[0]
        if kind == "union":
            return Union[self.hint(args[0]), self.hint(args[1])]
        if kind == "several":
            return (self.hint(args[0]), self.leaves[0])
        if kind == "container":
            sub = tuple(self.hint(a) for a in args[1:])
            return args[0][sub if len(sub) > 1 else sub[0]]
        if kind == "many":
            return tuple[self.hint(args[0]), ...]
        if kind == "typed":
            return TypedDict("D", {k: self.hint(v) for k, v in args[0]})
        raise AssertionError(kind)

    def bare(self, h):
        while h[0] in ("annotated", "bound", "free"):
            h = ("any",) if h[0] == "free" else h[1]
        return h

    def below(self, a, b, arg=False):
        """The condition that hint a is a subtype of hint b."""
        t = self.t
        a, b = self.bare(a), self.bare(b)
        if b[0] == "several":
            return t.either(self.below(a, b[1]), self.below(a, ("leaf", 0)))
        if a[0] == "union":
            if b[0] == "any":
                return True
            return t.both(*[self.below(x, b, arg) for x in a[1:]])
        if b[0] == "any":
            return True
        if a[0] == "any":
            return t.either(*[self.below(a, x, arg) for x in b[1:]]) if b[0] == "union" else False
        if b[0] == "union":
            return t.either(*[self.below(a, x, arg) for x in b[1:]])
        if a[0] == "literal" or b[0] == "literal":
            return a == b
        if b[0] == "object":
            return True
        if a[0] == "none" or b[0] == "none":
            return a[0] == b[0]
        if a[0] == "leaf" or b[0] == "leaf":
            return self.rel[a[1]][b[1]] if a[0] == b[0] == "leaf" else False
        if a[0] == "object":
            return False
        if b[0] == "typed":
            if a[0] != "typed":
                return False
            have = dict(a[1])
            return t.both(*[k in have and self.below(have[k], v, True) for k, v in b[1]])
        plain = {"plain": lambda h: h[1], "container": lambda h: h[1], "many": lambda h: tuple, "typed": lambda h: dict, "dictionary": lambda h: dict}
        if plain[b[0]](b) not in LIKE[plain[a[0]](a)]:
            return False
        if b[0] in ("plain", "dictionary"):
            return True
        if a[0] in ("plain", "dictionary", "typed"):
            return False
        if a[0] != b[0]:  # a variable against a fixed length
            if not self.at_most:
                raise Unspecified
            if a[0] == "many":  # may have any number of elements
                return False if b[1] is tuple else self.below(a[1], b[2], True)
            return t.both(*[self.below(x, b[1], True) for x in a[2:]])
        if a[0] == "many":
            return self.below(a[1], b[1], True)
        return t.both(len(a) == len(b), *[self.below(x, y, True) for x, y in zip(a[2:], b[2:])])


LEAST = ("leaf", "any", "none")
ARGS = ("leaf", "any", "none", "union", "literal", "annotated", "bound", "free", "container", "typed", "plain")
SUBTYPES = ("leaf", "any", "none", "annotated", "bound", "free", "plain", "container", "many", "typed")
SUPERTYPES = (*SUBTYPES, "object", "union", "several")
TOP_INNER = ("leaf", "any", "container", "dictionary")


def pairs(t, kind, n, deep, containers):
    """The check of any two hints."""
    g = Given(t, n, containers, lean=not deep)
    nested = kind in ("container", "many", "typed")
    a = g.make("sub", (kind,), (ARGS if nested else TOP_INNER) if deep else ARGS[:-3] if nested else LEAST)
    b = g.make("super", SUPERTYPES, (ARGS if nested else TOP_INNER) if deep else ("leaf", "any", "none", "union", "literal") if nested else ("leaf", "any", "bound"))
    got = lenient_issubclass(g.hint(a), g.hint(b))
    t.check(got is True or got is False, "the check is a yes or no")
    try:
        want = g.below(a, b)
    except Unspecified:
        g.at_most = True
        t.check(t.implies(got, g.below(a, b)), "a tuple is a subtype at most when its elements are")
    else:
        t.check(t.iff(got, want), "a hint is a subtype exactly when it should be")
    t.cover("below" if got else "not below")


def none(t, n):
    """None as a supertype stands for NoneType."""
    g = Given(t, n)
    a = g.make("sub", SUBTYPES, TOP_INNER)
    got = lenient_issubclass(g.hint(a), None)
    t.check(got == (g.bare(a)[0] == "none"), "only NoneType is a subtype of None")
    t.cover("below" if got else "not below")


def reflexive(t, kind, n, depth):
    """Hints are below themselves, written twice."""
    g = Given(t, n)
    a = g.make("hint", (kind,), *(ARGS if kind in ("container", "many", "typed") else TOP_INNER, ("leaf", "union", "container", "literal", "none", "annotated"))[:depth])
    t.assume(g.bare(a)[0] not in ("union", "literal"))  # not classes
    one, other = g.hint(a), g.hint(a)
    t.check(lenient_issubclass(one, other), "a hint is a subtype of itself")
    t.check(lenient_issubclass(one, Annotated[other, 1]) and lenient_issubclass(Annotated[one, 2], other), "annotations do not matter")
    t.check(lenient_issubclass(one, Union[g.leaves[0], other]) and lenient_issubclass(one, Optional[other]) and lenient_issubclass(one, (int, other)), "a union is above its members")
    t.check(lenient_issubclass(one, Any) and lenient_issubclass(one, TypeVar("T")) and lenient_issubclass(one, TypeVar("T", bound=other)), "Any is above everything")
    t.check(lenient_issubclass(Any, one) == (g.bare(a)[0] == "any"), "Any is below itself only")
    t.check(lenient_issubclass(list[one], list[other]) and lenient_issubclass(dict[str, one], Mapping[str, other]), "containers are covariant")
    t.cover("related")


def transitive(t, n, kinds, containers, lean):
    """Subtypes of subtypes."""
    g = Given(t, n, containers, lean)
    a = g.make("a", kinds, ("leaf", "any"))
    b = g.make("b", kinds, ("leaf", "any"))
    c = g.make("c", kinds, ("leaf", "any"))
    a, b, c = g.hint(a), g.hint(b), g.hint(c)
    if lenient_issubclass(a, b) and lenient_issubclass(b, c):
        t.check(lenient_issubclass(a, c), "subtypes are transitive")
        t.cover("related")


def CASES(tier):
    quick = tier == "quick"
    n = 2 if quick else 3
    every = (list, tuple, dict, Sequence, Mapping) if quick else tuple(ARITY)
    for kind in SUBTYPES:
        for at in ((list, Sequence), (tuple, list), (dict, Mapping), (list, dict), (frozenset, set)) if kind == "container" else (every if kind == "plain" else (list, tuple, Mapping),):
            yield Case(f"pairs:{kind}" + (f":{at[0].__name__}:{at[1].__name__}" if kind == "container" else ""), pairs, dict(kind=kind, n=n, deep=not quick, containers=at),
                       bounds=f"two hints of depth two over {n} classes in any relation", cover=("below", "not below") if kind != "free" else ("below",))
    yield Case("none", none, dict(n=n), bounds="any hint of depth two", cover=("below", "not below"))
    for kind in SUBTYPES:
        yield Case(f"reflexive:{kind}", reflexive, dict(kind=kind, n=2, depth=1 if quick else 2), bounds=f"any hint of depth {2 if quick else 3}", cover=("related",))
    for i, (kinds, at, m) in enumerate((
        (("leaf", "any", "annotated", "bound", "none"), (), 3), (("plain",), tuple(ARITY), 2), (("leaf", "container", "plain"), (list, Sequence), 2), (("leaf", "container", "plain"), (dict, Mapping), 2),
        (("typed", "dictionary", "any"), (), 2), (("many", "plain", "any"), (tuple, Sequence), 2),
    )):
        yield Case(f"transitive:{i}", transitive, dict(n=m, kinds=kinds, containers=at, lean=quick), bounds="any three hints of depth two", cover=("related",))
