"""C27: Function dispatch always selects the most specific registered handler."""

from __future__ import annotations

from typing import Annotated, Any

from symex.case import Case

from arti.internal.dispatch import multipledispatch


class Root:
    pass


class Stranger:
    pass


def hierarchy(t, n):
    """Root and n classes below, each inheriting from any earlier ones."""
    classes = [Root]
    for i in range(1, n + 1):
        parents = [classes[j] for j in range(1, i) if t.bool(f"C{i} is a C{j}")]
        classes.append(type(f"C{i}", tuple(reversed(parents)) or (Root,), {}))
    return classes


def function(name, hints, ret, result, kinds=None):
    """A function of parameters with hints, returning the result."""
    kinds = kinds or {}
    ns = {"result": result}
    params, bare = [], False
    for n in hints:
        kind = kinds.get(n, "{n}")
        if kind.startswith("*, ") and bare:
            kind = "{n}"
        bare = bare or kind.startswith("*, ")
        params.append(kind.format(n=n))
    exec(f"def {name}({', '.join(params)}): return result({', '.join(n for n in hints)})", ns)
    fn = ns[name]
    fn.__annotations__ = {n: h for n, h in hints.items() if h is not MISSING}
    if ret is not MISSING:
        fn.__annotations__["return"] = ret
    return fn


MISSING = object()


def unimplemented(*args):
    raise NotImplementedError


def spec(name, params, ret=Any, kinds=None, **kw):
    return multipledispatch(name, **kw)(function("spec", params, ret, unimplemented, kinds))


def outcome(t, fn):
    try:
        return fn()
    except NotImplementedError:
        return "not implemented"
    except (TypeError, ValueError) as e:
        return "type error" if isinstance(e, TypeError) else "value error"


def wanted(handlers, at):
    """The most specific of the handlers for the argument classes (several, if ambiguous)."""
    fits = [h for h in handlers if all(issubclass(a, p) for a, p in zip(at, h))]
    return [h for h in fits if not any(o != h and all(issubclass(a, b) for a, b in zip(o, h)) for o in fits)]


def combinations(classes, arity):
    return [(c,) for c in classes] if arity == 1 else [(c, d) for c in classes for d in classes]


def check(t, f, handlers, classes, arity, keywords, wrap=None):
    """All calls and lookups go to the most specific handler."""
    for at in combinations(classes, arity):
        best = wanted(handlers, at)
        args = [c() for c in at]
        if wrap is not None:
            args = [wrap(a) for a in args]
        if keywords:
            got = outcome(t, lambda: f(**dict(reversed(list(zip("ab", args))))))
        else:
            got = outcome(t, lambda: f(*args))
        lookup = outcome(t, lambda: f.lookup(*[list[c] if wrap is not None else c for c in at]))
        if not best:
            outside = not all(issubclass(c, Root) for c in at)
            t.check(got == ("type error" if outside else "not implemented"), "without a handler, the base raises NotImplementedError")
            t.check(lookup == "value error", "without a handler, the lookup raises ValueError")
            t.cover("none")
        elif len(best) == 1:
            t.check(isinstance(got, tuple) and got[0] == best[0], "a call goes to the most specific handler")
            t.check(got[1] == tuple(args), "a handler gets the arguments")
            t.check(not isinstance(lookup, str) and lookup(*args)[0] == best[0], "a lookup finds the most specific handler")
            t.cover("dispatched")
        else:
            t.check(got == "type error" or got[0] in best, "an ambiguous call goes to one of the most specific handlers, or none")
            t.check(lookup == "value error" or lookup(*args)[0] in best, "an ambiguous lookup finds one of the most specific handlers, or none")


def handler(key, wrap=None):
    hints = {n: (list[c] if wrap else c) for n, c in zip("ab", key)}
    return function("handler_" + "_".join(c.__name__ for c in key), hints, Any, lambda *args: (key, args))


def dispatched(t, arity, below, n, early, discovered=False, lists=False):
    """Handlers registered in any order, also between calls."""
    classes = hierarchy(t, below)
    wrap = (lambda x: [x]) if lists else None
    keys = combinations(classes, arity)
    chosen = []
    for i in range(n):
        key = keys[t.index(f"h{i}", len(keys))]
        t.assume(key not in chosen)
        chosen.append(key)
    keywords = t.bool("keywords")
    found = []

    def discover():
        found.append(1)
        if len(found) == 1:
            for key in chosen[1:]:
                f.register(handler(key, wrap))

    f = spec("f", {k: (list[Root] if lists else Root) for k in "ab"[:arity]}, **({"discovery_func": discover} if discovered else {}))
    every = classes + ([] if lists else [Stranger])
    if discovered:
        for key in chosen[:1]:
            f.register(handler(key, wrap))
        # Anything beyond an exact match triggers the discovery.
        outcome(t, lambda: f.lookup(*[list[Stranger] if lists else Stranger] * arity))
        t.check(bool(found), "handlers are discovered")
    else:
        known = []
        for key in chosen:
            if early:
                check(t, f, known, every, arity, keywords, wrap)
            made = handler(key, wrap)
            t.check(f.register(made) is made, "registering leaves the handler as it is")
            known.append(key)
    check(t, f, chosen, every, arity, keywords, wrap)


HINTS = {"Root": (Root, True), "C": (None, True), "Any": (Any, True), "Stranger": (Stranger, False), "object": (object, False), "missing": (MISSING, False), "annotated": (Annotated[Root, 1], True), "list": (list[Root], False)}
KINDS = ("{n}", "*, {n}", "{n}=None", "*{n}", "**{n}")
NAMES = (("a", "b"), ("b", "a"), ("a",), ("a", "c"), ("a", "b", "c"), (), ("b",))


def fits(t, names, ret_any):
    """Handlers that do and don't fit."""
    class C(Root):
        pass

    ret = Any if ret_any else Root
    f = spec("f", {"a": Root, "b": Root}, ret)
    first = function("first", {"a": C, "b": Root}, ret, lambda *a: "first")
    f.register(first)
    hints, kinds, ok = {}, {}, names == ("a", "b")
    for n in names:
        # Beyond two parameters, none fit: only some vary.
        which = t.choice(f"{n}.hint", tuple(HINTS) if len(names) < 3 or n == "c" else ("Root", "C"))
        hints[n] = C if which == "C" else HINTS[which][0]
        ok = ok and HINTS[which][1]
        kinds[n] = t.choice(f"{n}.kind", KINDS) if n == names[-1] else "{n}"
        ok = ok and kinds[n] in ("{n}", "{n}=None")
    r = t.choice("return", ("Root", "C", "Any", "Stranger", "missing", "None"))
    ok = ok and (ret_any or r in ("Root", "C"))
    made = function("made", hints, {"C": C, "None": None}.get(r) if r in ("C", "None") else HINTS[r][0], lambda *a: "made", kinds)
    if ret_any and r == "None":
        ok = None  # not specified
    got, _ = t.accepts(TypeError, lambda: f.register(made))
    if ok is not None:
        t.check(got == ok, "a handler is accepted exactly when it fits the specification")
    if not got:
        t.check(outcome(t, lambda: f(C(), Root())) == "first" and f.lookup(C, Root) is first, "a rejected handler changes nothing")
        t.check(outcome(t, lambda: f(Root(), Root())) == "not implemented", "a rejected handler is not used")
        t.cover("rejected")
    else:
        t.cover("accepted")


def options(t, names):
    """Specifications with an option, that is, a keyword only parameter."""
    class C(Root):
        pass

    f = spec("f", {"a": Root, "k": int}, Any, {"k": "*, {n}"})
    hints, kinds, ok = {}, {}, names == ("a", "k")
    for n in names:
        which = t.choice(f"{n}.hint", ("Root", "C", "int", "bool", "str", "Any"))
        hints[n] = {"Root": Root, "C": C, "int": int, "bool": bool, "str": str, "Any": Any}[which]
        ok = ok and which in (("Root", "C", "Any") if n == "a" else ("int", "bool", "Any"))
        kinds[n] = "*, {n}" if n == "k" and t.bool("option") else "{n}"
        ok = ok and kinds[n] == ("*, {n}" if n == "k" else "{n}")
    made = function("made", hints, Any, lambda *a: a, kinds)
    got, _ = t.accepts(TypeError, lambda: f.register(made))
    t.check(got == ok, "a handler with options is accepted exactly when it fits the specification")
    if not got:
        t.check(outcome(t, lambda: f(C(), k=1)) == "not implemented", "a rejected handler with options is not used")
        t.cover("rejected")
    else:
        arg = C()
        # Any is broader than the specification's own hint: which of the two applies is not specified.
        t.check(outcome(t, lambda: f(arg, k=5)) in ((arg, 5), *(["not implemented"] if hints["a"] is Any else [])), "a handler gets the options")
        t.cover("accepted")


def CASES(tier):
    quick = tier == "quick"
    both = ("dispatched", "none")
    for n in (0, 1, 2, 3):
        yield Case(f"one:{n}", dispatched, dict(arity=1, below=2 if quick and n == 3 else 3, n=n, early=True), bounds=f"{n} handlers of one parameter, any hierarchy of up to four classes", cover=both if n else ("none",))
    for n in (1, 2, 3) if quick else (1, 2, 3, 4):
        yield Case(f"two:{n}", dispatched, dict(arity=2, below=1 if n > 2 and quick or n > 3 else 2, n=n, early=n < 3), bounds=f"{n} handlers of two parameters", cover=both)
    yield Case("two:deep", dispatched, dict(arity=2, below=3, n=1 if quick else 2, early=False), bounds="handlers of two parameters, any hierarchy of four classes", cover=both)
    for n in (1, 2, 3):
        yield Case(f"lists:{n}", dispatched, dict(arity=1, below=2 if n > 2 else 3, n=n, early=True, lists=True), bounds=f"{n} handlers of lists", cover=both)
    for n in (1, 2, 3):
        yield Case(f"discovered:{n}", dispatched, dict(arity=1, below=2 if n > 2 else 3, n=n, early=False, discovered=True), bounds=f"{n} handlers, some registered upon discovery", cover=both)
    for names in NAMES:
        for ret_any in (False, True):
            yield Case(f"fits:{','.join(names) or 'none'}:{'any' if ret_any else 'root'}", fits, dict(names=names, ret_any=ret_any), bounds="any hints and kinds of parameters, any return",
                       cover=("accepted", "rejected") if names == ("a", "b") else ("rejected",))
    for names in (("a",), ("k",), ("a", "k"), ("a", "j"), ("a", "k", "j"), ()):
        yield Case(f"options:{','.join(names) or 'none'}", options, dict(names=names), bounds="a keyword only parameter, any hints", cover=("accepted", "rejected") if names == ("a", "k") else ("rejected",))
