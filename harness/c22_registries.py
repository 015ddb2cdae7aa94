"""C22: registration and lookup always pick the highest-priority match."""

from __future__ import annotations

from typing import Annotated, Any, ClassVar

from symex.case import Case

from arti.artifacts import Artifact
from arti.internal.mappings import frozendict
from arti.internal.utils import register
from arti.partitions import PartitionField
from arti.types import Int8, Int64, List, String, Struct, Type, TypeAdapter, TypeSystem
from arti.types.python import python_type_system
from arti.views import View


class Value:
    __slots__ = ("name", "priority")

    def __init__(self, name, priority=0):
        self.name, self.priority = name, priority


def holds(t, registry, model, msg):
    """The registry has exactly the entries of the model, a list of (key, value)."""
    t.check(len(registry) == len(model), f"{msg}: number of entries")
    for key, value in model:
        t.check(key in registry, f"{msg}: has the key")
        t.check(registry[key] is value, f"{msg}: the value")


def find(model, key):
    for i, (k, _) in enumerate(model):
        if k == key:
            return i
    return None


def registrations(t, n, prioritized):
    """Any sequence of registrations."""
    registry, model = {}, []
    for i in range(n):
        key = t.text(f"k{i}", "aA", 0, 2) if i % 2 else t.text(f"k{i}", "aAb", 0, 1)
        if i == 2 and t.bool("the first again"):
            value = first
        else:
            value = Value(f"v{i}", t.int(f"p{i}", -3, 3) if prioritized else 0)
        if i == 0:
            first = value
        at = find(model, key)

        def add():
            if prioritized:
                return register(registry, key, value, lambda v: v.priority)
            return register(registry, key, value)

        if at is None:
            t.check(add() is value, "registering returns the value")
            model.append((key, value))
        elif not prioritized or bool(model[at][1].priority == value.priority):
            t.raises((ValueError,), add)
        else:
            t.check(add() is value, "registering returns the value")
            if value.priority > model[at][1].priority:
                model[at] = (key, value)
        holds(t, registry, model, f"after {i + 1}")
    if prioritized:
        for key, value in model:
            t.check(registry[key].priority == value.priority, "highest priority")


def any_order(t, n):
    """The same registrations in two orders."""
    entries = [(t.int(f"k{i}", 0, 2), Value(f"v{i}", t.int(f"p{i}", -50, 50))) for i in range(n)]
    for i, (k, v) in enumerate(entries):
        for l, w in entries[:i]:
            t.assume(t.either(k != l, v.priority != w.priority))
    a, b = {}, {}
    for k, v in entries:
        register(a, k, v, lambda v: v.priority)
    shift = t.index("shift", n)
    other = entries[shift:] + entries[:shift]
    if t.bool("reverse"):
        other = other[::-1]
    for k, v in other:
        register(b, k, v, lambda v: v.priority)
    t.check(len(a) == len(b), "same keys")
    for k, v in a.items():
        t.check(b[k] is v, "same value in any order")


# Type systems


class Foreign:
    __slots__ = ("items",)

    def __init__(self, *items):
        self.items = items


def adapter(name, log, priority, *, matches, fails=False, key=None, result=None, descend=False):
    class _Adapter(TypeAdapter):
        artigraph = Type
        system = Foreign

        @classmethod
        def matches_artigraph(cls, type_, *, hints):
            return matches[0]

        @classmethod
        def matches_system(cls, type_, *, hints):
            return matches[1]

        @classmethod
        def to_artigraph(cls, type_, *, hints, type_system):
            log.append((name, "artigraph", type_, hints, type_system))
            if fails:
                raise NotImplementedError()
            if descend and type_.items:
                return List(element=type_system.to_artigraph(type_.items[0], hints=hints))
            return Struct(name=name, fields={}) if result is None else result

        @classmethod
        def to_system(cls, type_, *, hints, type_system):
            log.append((name, "system", type_, hints, type_system))
            if fails:
                raise NotImplementedError()
            if descend and isinstance(type_, List):
                return Foreign(type_system.to_system(type_.element, hints=hints))
            return name if result is None else result

    _Adapter.key, _Adapter.priority = name if key is None else key, priority
    return _Adapter


def one_system(t, n, between):
    """Any adapters, registered in any order: conversions use the matching one of highest priority."""
    log = []
    system = TypeSystem(key="main")
    matches, priorities = [], []
    for i in range(n):
        matches.append((t.bool(f"m{i}"), t.bool(f"s{i}")))
        p = t.int(f"p{i}", -100, 100)
        for q in priorities:
            t.assume(p != q)
        priorities.append(p)
        a = adapter(f"a{i}", log, p, matches=matches[i], key=("m", "bb", "zzz", "a")[i])
        t.check(system.register_adapter(a) is a, "registering returns the adapter")
        if i < n - 1 and not between:
            continue
        for side, convert, source in ((0, system.to_system, Int8()), (1, system.to_artigraph, Foreign())):
            best = None
            for j in range(i + 1):
                if matches[j][side] and (best is None or priorities[j] > priorities[best]):
                    best = j
            hints = {"h": 1}
            log.clear()
            if best is None:
                t.raises((NotImplementedError,), lambda: convert(source, hints=hints))
                t.check(not log, "no adapter converts")
            else:
                got = convert(source, hints=hints)
                t.check(got == (f"a{best}" if side == 0 else Struct(name=f"a{best}", fields={})), "the result of the best match")
                (name, kind, type_, given, used), = log
                t.check(name == f"a{best}" and type_ is source and given == hints and used is system, "what it is given")


def same_key(t):
    """Adapters with one key share its priority."""
    log = []
    system = TypeSystem(key="main")
    made = []
    for i in range(3):
        k = t.choice(f"k{i}", ("x", "y"))
        made.append((k, adapter(f"a{i}", log, 7 * (i % 2), matches=(True, True), key=k)))
    held = {}
    for i, (k, a) in enumerate(made):
        if k in held:
            t.raises((ValueError,), lambda: system.register_adapter(a))
        else:
            system.register_adapter(a)
            held[k] = (a.priority, i)
    _, i = max((p, -i) for p, i in held.values())
    t.check(system.to_system(Int8(), hints={}) in {f"a{j}" for p, j in held.values() if p == max(p for p, _ in held.values())},
            "the first registered adapter stays")


SHAPES = {
    # system: the systems it extends
    "one": {"main": ("x",), "x": ()},
    "two": {"main": ("x", "y"), "x": (), "y": ()},
    "chain": {"main": ("x",), "x": ("y",), "y": ()},
    "diamond": {"main": ("x", "y"), "x": ("z",), "y": ("z",), "z": ()},
}


def extended(t, shape, late):
    """Adapters of the system itself come first, then the extended ones in order; each is given the system called."""
    log = []
    extends = SHAPES[shape]
    systems = {}
    for name in reversed(extends):
        systems[name] = TypeSystem(key=name, extends=tuple(systems[n] for n in extends[name]))
    adapters = {}
    for name in extends:
        count = 1 if name != "main" and shape in ("diamond",) else 1 + t.index(f"{name}.n", 2)
        adapters[name] = []
        for i in range(count):
            matches = t.bool(f"{name}{i}.matches")
            fails = name != "main" and i == 0 and bool(matches) and t.bool(f"{name}{i}.fails")
            p = t.int(f"{name}{i}.priority", -5, 5)
            for _, _, _, q in adapters[name]:
                t.assume(p != q)
            adapters[name].append((f"{name}{i}", matches, fails, p))
            systems[name].register_adapter(adapter(f"{name}{i}", log, p, matches=(matches, matches), fails=fails))
    if late:  # registered in an extended system, after others were made of it and used
        t.accepts((NotImplementedError,), lambda: systems["main"].to_system(Int8(), hints={}))
        t.accepts((NotImplementedError,), lambda: systems["main"].to_artigraph(Foreign(), hints={}))
        adapters["x"].append(("late", True, False, 50))
        systems["x"].register_adapter(adapter("late", log, 50, matches=(True, True)))

    def expected(name):
        """(who converts or None, those asked before)."""
        asked = []
        best = None
        for a in adapters[name]:
            if a[1] and (best is None or a[3] > best[3]):
                best = a
        if best is not None:
            if best[2]:
                return None, [best[0]]
            return best[0], [best[0]]
        for other in extends[name]:
            who, more = expected(other)
            asked += more
            if who is not None:
                return who, asked
        return None, asked

    who, asked = expected("main")
    main = systems["main"]
    hints = {"h": 1}
    for side, convert, source in ((0, main.to_system, Int8()), (1, main.to_artigraph, Foreign())):
        log.clear()
        if who is None:
            t.raises((NotImplementedError,), lambda: convert(source, hints=hints))
        else:
            t.check(convert(source, hints=hints) == (who if side == 0 else Struct(name=who, fields={})), "the first match in order")
        t.check([e[0] for e in log] == asked, "the adapters used")
        for _, _, type_, given, used in log:
            t.check(type_ is source and given == hints, "what they are given")
            t.check(used is main, "the system they are given")


def nested(t):
    """Nested conversions in an extended system start over with the original system."""
    log = []
    base = TypeSystem(key="base")
    middle = TypeSystem(key="middle", extends=(base,))
    main = TypeSystem(key="main", extends=(middle,))

    class Container(TypeAdapter):
        key = "container"

        @classmethod
        def matches_artigraph(cls, type_, *, hints):
            return isinstance(type_, List)

        @classmethod
        def matches_system(cls, type_, *, hints):
            return isinstance(type_, Foreign)

        @classmethod
        def to_artigraph(cls, type_, *, hints, type_system):
            return List(element=type_system.to_artigraph(type_.items[0], hints=hints))

        @classmethod
        def to_system(cls, type_, *, hints, type_system):
            return Foreign(type_system.to_system(type_.element, hints=hints))

    (base, middle)[t.index("container in", 2)].register_adapter(Container)

    def leaf(name):
        class Leaf(TypeAdapter):
            key = name

            @classmethod
            def matches_artigraph(cls, type_, *, hints):
                return not isinstance(type_, List)

            @classmethod
            def matches_system(cls, type_, *, hints):
                return not isinstance(type_, Foreign)

            @classmethod
            def to_artigraph(cls, type_, *, hints, type_system):
                return String(description=name)

            @classmethod
            def to_system(cls, type_, *, hints, type_system):
                return name

        return Leaf

    used = None
    for name, system in (("base", base), ("middle", middle), ("main", main)):
        if t.bool(f"leaf in {name}"):
            system.register_adapter(leaf(name))
            used = name
    depth = t.index("depth", 3)
    type_, source = Int8(), 5
    want_type, want = String(description=used), used
    for _ in range(depth):
        type_, source = List(element=type_), Foreign(source)
        want_type = List(element=want_type)
    if used is None:
        t.raises((NotImplementedError,), lambda: main.to_system(type_, hints={}))
        t.raises((NotImplementedError,), lambda: main.to_artigraph(source, hints={}))
        return
    got = main.to_system(type_, hints={})
    for _ in range(depth):
        t.check(isinstance(got, Foreign), "nested")
        (got,) = got.items
    t.check(got == want, "the system's own adapter for what is nested")
    got = main.to_artigraph(source, hints={})
    for _ in range(depth):
        t.check(isinstance(got, List), "nested")
        got = got.element
    t.check(got.description == used, "the system's own adapter for what is nested")


# Views and partition fields


class C1:
    pass


class C2:
    pass


def views(t, n, between=False):
    """The view of a Python type is the registered one of highest priority."""
    class Base(View):
        _abstract_ = True
        _by_python_type_: ClassVar[dict[Any, Any]] = {}

        type_system = python_type_system

    made = []
    model = {}
    classes = (C1, C2, list)

    def look_up():
        for cls in classes:
            for annotation in (cls, Annotated[cls, "other"]) + ((list[int], Annotated[list[str], 5]) if cls is list else ()):
                if cls in model:
                    t.check(Base.get_class_for(annotation) is model[cls], "the view of highest priority")
                else:
                    t.raises((ValueError,), lambda: Base.get_class_for(annotation))

    for i in range(n):
        cls = classes[t.index(f"c{i}", len(classes))]
        p = t.int(f"p{i}", -20, 20)
        abstract = i == 1 and t.bool("abstract")

        def make():
            ns = {"__annotations__": {}, "__module__": __name__, "python_type": cls, "priority": p}
            if abstract:
                ns["_abstract_"] = True
            return type(Base)(f"View{i}", (Base,), ns)

        if abstract:
            make()
        elif cls in model and bool(model[cls].priority == p):
            t.raises((ValueError,), make)
        else:
            view = make()
            made.append(view)
            if cls not in model or p > model[cls].priority:
                model[cls] = view
        if between:
            look_up()
    look_up()
    for view in made:  # an explicit one wins
        t.check(Base.get_class_for(Annotated[C1, view]) is view, "an explicit view")
        t.check(Base.get_class_for(Annotated[int, "x", view]) is view, "an explicit view")


def partition_fields(t):
    """One field class per type, the first one."""
    class Base(PartitionField):
        _abstract_ = True
        _by_type_: ClassVar[dict[Any, Any]] = {}

    model = {}
    types_ = (Int8, Int64, String)
    for i in range(3):
        cls = types_[t.index(f"t{i}", 3)]
        make = lambda: type(Base)(f"Field{i}", (Base,), {"__annotations__": {}, "__module__": __name__, "matching_type": cls,
                                                        "default_components": frozendict()})
        if cls in model:
            t.raises((ValueError,), make)
        else:
            model[cls] = make()
        for c in types_:
            if c in model:
                t.check(Base.get_class_for(c()) is model[c], "the field of a type")
            else:
                t.raises((KeyError,), lambda: Base.get_class_for(c()))


def CASES(tier):
    deep = tier == "thorough"
    out = [
        Case("prioritized registrations", registrations, {"n": 5 if deep else 4, "prioritized": True}, "keys of up to 2 characters, priorities -3..3"),
        Case("plain registrations", registrations, {"n": 5 if deep else 4, "prioritized": False}, "keys of up to 2 characters"),
        Case("registrations in any order", any_order, {"n": 4 if deep else 3}, "3 keys, priorities -50..50; rotations and reversals"),
        Case("adapters of one system", one_system, {"n": 4 if deep else 3, "between": False}, "all match patterns, distinct priorities -100..100", budget_s=600),
        Case("adapters registered between conversions", one_system, {"n": 3, "between": True}, "all match patterns, distinct priorities -100..100"),
        Case("adapters of one key", same_key, {}, "3 adapters of 2 keys"),
        Case("nested conversions", nested, {}, "three systems, up to 2 levels"),
        Case("views", views, {"n": 4 if deep else 3}, "3 Python types, priorities -20..20"),
        Case("views looked up between registrations", views, {"n": 4 if deep else 3, "between": True}, "3 Python types, priorities -20..20"),
        Case("partition fields", partition_fields, {}, "3 types"),
    ]
    for shape in SHAPES:
        for late in (False, True):
            out.append(Case(f"extended systems, {shape}{', registered late' if late else ''}", extended, {"shape": shape, "late": late},
                            "up to two adapters per system, symbolic matches, failures and priorities", budget_s=600))
    return out
