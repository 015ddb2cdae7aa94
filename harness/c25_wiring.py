"""C25: Producers only accept wiring that matches their build and map signatures."""

from __future__ import annotations

from typing import Annotated, Any, Literal, TypedDict

from symex.case import Case

from arti import Artifact, Producer, StoragePartitions
from arti.annotations import Annotation
from arti.formats import Format
from arti.formats.json import JSON
from arti.formats.pickle import Pickle
from arti.producers import PartitionDependencies, producer
from arti.storage.local import LocalFile
from arti.types import Collection, Date, Enum, Int32, Int64, List, String, Struct, Type
from arti.versions import SemVer
from arti.views.python import Int as IntView
from arti.views.python import List as ListView
from arti.views.python import Str as StrView

NAMES = "aB"
REJECTED = (ValueError, NotImplementedError)
MISSING = object()
NUMBERS, OPTIONAL = List(element=Int64()), List(element=Int64(nullable=True))
ROWS = List(element=Struct(name="Row", fields={"a": Int64(), "b": String(nullable=True)}))


class Row(TypedDict):
    a: int
    b: str | None



class Note(Annotation):
    text: str


class Num(Artifact):
    type: Type = Int64()
    annotations: tuple[Annotation, ...] = (Note(text="class"),)


class SubNum(Num):
    pass


class Small(Artifact):
    type: Type = Int32()


class Text(Artifact):
    type: Type = String()


class Odd(Format):
    """A format nothing is read from or written to."""

    extension: str = ".odd"
    type_system = JSON.type_system


# What a field is declared as: its hint, its default, the class it holds.
FIELDS = {
    "any": (Artifact, MISSING, Artifact), "num": (Num, MISSING, Num), "sub": (SubNum, MISSING, SubNum), "text": (Text, MISSING, Text), "small": (Small, MISSING, Small),
    "noted": (Annotated[Num, "note"], MISSING, Num), "optional": (Num | None, MISSING, None), "default": (Num, Num(), None),
    "none": (Num | None, None, None), "int": (int, MISSING, None), "either": (Num | Text, MISSING, None), "type": (type[Num], MISSING, None),
}
DEFAULT_TYPES = {Artifact: None, Num: Int64(), SubNum: Int64(), Small: Int32(), Text: String()}

# Hints: the hint, the Artifact class and Type it names, the Type it implies, the View it selects, what it may represent.
HINTS = {
    "int": (int, None, None, Int64(), IntView, (Int64, Int32)), "str": (str, None, None, String(), StrView, (String,)),
    "list": (list, None, None, None, ListView, (List,)), "list[int]": (list[int], None, None, NUMBERS, ListView, (List,)),
    "list[int?]": (list[int | None], None, None, OPTIONAL, ListView, (List,)), "list[Row]": (list[Row], None, None, ROWS, ListView, (List,)),
    "list[Row] Rows": (Annotated[list[Row], ROWS], None, ROWS, ROWS, ListView, (List,)),
    "list[Literal]": (list[Literal["a", "b"]], None, None, List(element=Enum(type=String(), items=["a", "b"])), ListView, (List,)),
    "int Num": (Annotated[int, Num], Num, None, Int64(), IntView, (Int64, Int32)),
    "int SubNum": (Annotated[int, SubNum], SubNum, None, Int64(), IntView, (Int64, Int32)),
    "int Small": (Annotated[int, Small], Small, None, Int64(), IntView, (Int64, Int32)),
    "int Artifact": (Annotated[int, Artifact], Artifact, None, Int64(), IntView, (Int64, Int32)),
    "str Text": (Annotated[str, Text], Text, None, String(), StrView, (String,)),
    "str Num": (Annotated[str, Num], Num, None, String(), StrView, (String,)),
    "int Int32": (Annotated[int, Int32()], None, Int32(), Int64(), IntView, (Int64, Int32)),
    "int Int64": (Annotated[int, "x", Int64()], None, Int64(), Int64(), IntView, (Int64, Int32)),
    "int String": (Annotated[int, String()], None, String(), Int64(), IntView, (Int64, Int32)),
    "list Numbers": (Annotated[list, NUMBERS], None, NUMBERS, None, ListView, (List,)),
    "int View": (Annotated[int, IntView], None, None, Int64(), IntView, (Int64, Int32)),
}
BAD_HINTS = {
    "none given": MISSING, "Any": Any, "bool": bool, "set[int]": set[int], "two classes": Annotated[int, Num, Text],
    "two types": Annotated[int, Int64(), Int32()], "object": object,
}


def view_of(hint, field=None):
    """(View, Artifact class, Type) a hint asks for; None if it makes no sense."""
    if hint in BAD_HINTS:
        return None
    _, cls, type_, implied, view, represents = HINTS[hint]
    cls = cls or field or Artifact
    if field is not None and cls is not field:
        return None
    default = DEFAULT_TYPES[cls]
    if type_ is not None and default is not None and type_ != default:
        return None
    type_ = type_ or default or implied
    if type_ is None or not isinstance(type_, represents):
        return None
    return view, cls, type_


def the_hint(hint):
    return BAD_HINTS[hint] if hint in BAD_HINTS else HINTS[hint][0]


KINDS = ("{n}", "{n}, /", "*, {n}", "*{n}", "**{n}", "{n}=1")
AS_KEYWORD = ("{n}", "*, {n}")
WRAPS = {"static": staticmethod, "class": classmethod, "function": lambda f: f, "plain": lambda f: f}


WRAPPED = ("static", "class", "function")


def method(name, params, ret, how="static"):
    """A method with the parameters (name, hint, kind)."""
    parts = []
    for n, _, kind in params:
        if kind == "*, {n}" and any(p.startswith("*") for p in parts):
            kind = "{n}"
        if kind == "{n}, /" and parts:
            kind = "{n}"
        parts.append(kind.format(n=n))
    if how in ("class", "function"):
        parts.insert(0, "cls")
    ns = {}
    exec(f"def {name}({', '.join(parts)}): ...", ns)
    fn = ns[name]
    fn.__annotations__ = {n: hint for n, hint, _ in params if hint is not MISSING}
    if ret is not MISSING:
        fn.__annotations__["return"] = ret
    return WRAPS[how](fn)


def declare(fields, members, base=Producer, name="P"):
    ns = {"__annotations__": {k: FIELDS[v][0] for k, v in fields.items()}, "__module__": __name__, **members}
    ns.update({k: FIELDS[v][1] for k, v in fields.items() if FIELDS[v][1] is not MISSING})
    return type(base)(name, (base,), ns)


def check_views(t, cls, inputs, outputs, maps):
    got = cls._build_inputs_
    t.check(list(got) == list(inputs), "the inputs of the build")
    for k, want in inputs.items():
        v = got[k]
        t.check((type(v), v.artifact_class, v.type, v.mode) == (*want, "READ"), "how an input is viewed")
    t.check(len(cls._outputs_) == len(outputs), "the outputs of the build")
    for v, want in zip(cls._outputs_, outputs):
        t.check((type(v), v.artifact_class, v.mode) == (want[0], want[1], "WRITE") and v.type == want[2], "how an output is viewed")
    t.check(set(cls._map_inputs_) == set(maps), "the inputs of the map")


def one_field(t, kinds, mapped):
    """Any field, as any parameter of the build (and of a map)."""
    field = t.choice("field", kinds)
    hint = t.choice("hint", (*HINTS, *BAD_HINTS))
    kind = t.choice("kind", KINDS)
    cls = FIELDS[field][2]
    ok = cls is not None and kind in AS_KEYWORD
    view = view_of(hint, cls) if ok else None
    members = {"build": method("build", [("a", the_hint(hint), kind)], int)}
    if mapped:
        mkind = t.choice("map kind", KINDS[:1] + KINDS[-1:])
        mhint = t.choice("map hint", (StoragePartitions, list, MISSING))
        members["map"] = method("map", [("a", mhint, mkind)], PartitionDependencies)
        ok = ok and mkind in AS_KEYWORD and mhint is StoragePartitions
    ok = ok and view is not None
    got, made = t.accepts(REJECTED, lambda: declare({"a": field}, members))
    t.check(got == ok, "a producer is accepted exactly when its input is")
    if got:
        check_views(t, made, {"a": view}, [(IntView, Artifact, Int64())], {"a"})
        t.cover("accepted")
    else:
        t.cover("rejected")


def use(t, fields):
    """Fields used by the build, the map, both or neither; parameters that are no field."""
    declared = {n: ("any", "num")[i] for i, n in enumerate(fields)}
    built, mapped = [], []
    for n in (*fields, "x"):
        if t.bool(f"build takes {n}"):
            built.append(n)
    with_map = t.bool("map")
    if with_map:
        for n in (*fields, "x"):
            if t.bool(f"map takes {n}"):
                mapped.append(n)
    if len(built) > 1 and t.bool("reversed"):
        built.reverse()
    how = t.choice("build is", WRAPPED + ("missing",))
    map_how = t.choice("map is", WRAPPED) if with_map else "static"
    members = {}
    if how != "missing":
        members["build"] = method("build", [(n, int, "{n}") for n in built], int, how)
    if with_map:
        members["map"] = method("map", [(n, StoragePartitions, "{n}") for n in mapped], PartitionDependencies, map_how)
    ok = how in ("static", "class") and map_how in ("static", "class")
    ok = ok and set(built) <= set(fields) and set(mapped) <= set(fields) and set(built) | set(mapped) >= set(fields)
    got, made = t.accepts(REJECTED, lambda: declare(declared, members))
    t.check(got == ok, "a producer is accepted exactly when all parameters are fields and all fields are used")
    if got:
        classes = {n: FIELDS[k][2] for n, k in declared.items()}
        check_views(t, made, {n: (IntView, classes[n], Int64()) for n in built}, [(IntView, Artifact, Int64())], mapped if with_map else built)
        t.cover("accepted")
    else:
        t.cover("rejected")


RETURNS = {
    "nothing": MISSING, "None": None, "tuple": tuple, "tuple[()]": tuple[()], "tuple[int, ...]": tuple[int, ...],
    "union": int | str,
}


def returns(t, n):
    """Any outputs."""
    if n == 0:
        which = t.choice("returns", tuple(RETURNS))
        ret, views = RETURNS[which], None
    else:
        hints = [t.choice(f"out{i}", (*HINTS, *(h for h in BAD_HINTS if h != "none given"))) for i in range(n)]
        views = [view_of(h) for h in hints]
        views = None if any(v is None for v in views) else views
        each = tuple(the_hint(h) for h in hints)
        ret = each[0] if n == 1 and t.bool("bare") else tuple[each]
    got, made = t.accepts(REJECTED, lambda: declare({}, {"build": method("build", [], ret)}))
    t.check(got == (views is not None), "a producer is accepted exactly when its outputs make sense")
    if got:
        check_views(t, made, {}, views, set())
        t.cover("accepted")
    else:
        t.cover("rejected")


KEYS = (Int64, Int32, Date)


def scheme(t, name, columns):
    """A type with any partitioning by named columns; its (column, class) keys."""
    if not t.bool(f"{name}.partitioned"):
        which = t.index(f"{name}.plain", 2)
        row = Struct(name="row", fields={"v": Int64()})
        return (List(element=row) if which == 0 else Collection(element=row)), []
    keys = []
    for i in range(columns):
        k = t.text(f"{name}.k{i}", NAMES, 1, 1)
        for other, _ in keys:
            t.assume(k != other)
        keys.append((k, t.choice(f"{name}.k{i}.type", KEYS[:2] if i else KEYS)))
    fields = {**{k: c() for k, c in keys}, "v": Int64()}
    return Collection(element=Struct(name="row", fields=fields), partition_by=tuple(k for k, _ in keys)), keys


def partitioned(t, columns, outputs):
    """Outputs of any partitioning, with and without a map."""
    types = [scheme(t, f"out{i}", columns[i]) for i in range(outputs)]
    with_map = t.bool("map")
    members = {"build": method("build", [], tuple[tuple(Annotated[list, type_] for type_, _ in types)])}
    if with_map:
        members["map"] = method("map", [], PartitionDependencies)
    first = types[0][1]
    alike = [t.both(len(keys) == len(first), *[t.either(*[t.both(k == l, c is d) for l, d in first]) for k, c in keys]) for _, keys in types]
    ok = t.both(*alike, with_map or not any(keys for _, keys in types))
    got, made = t.accepts(REJECTED, lambda: declare({}, members))
    t.check(t.iff(got, ok), "outputs share one partitioning, and a partitioned output comes with a map")
    if got:
        for v, (type_, _) in zip(made._outputs_, types):
            t.check(v.type == type_, "the type of an output")
        t.cover("accepted")
    else:
        t.cover("rejected")


def inherited(t):
    """A producer extending another, with its own build (and map)."""
    first = t.choice("first", ("static", "class"))
    base_map, sub_map = t.bool("base has a map"), t.bool("sub has a map")
    base = {"build": method("build", [("a", int, "{n}")], int, first)}
    if base_map:
        base["map"] = method("map", [("a", StoragePartitions, "{n}")], PartitionDependencies)
    Base = declare({"a": "any"}, base, name="Base")
    keyed, _ = Collection(element=Struct(fields={"k": Int64()}), partition_by=("k",)), None
    more = t.bool("another input")
    takes = [n for n in ("a", "b") if (n == "a" or more) and t.bool(f"build takes {n}")]
    partitions = t.bool("partitioned")
    ret = Annotated[list, keyed] if partitions else int
    sub = {}
    own = t.bool("own build")
    if own:
        sub["build"] = method("build", [(n, int, "{n}") for n in takes], ret)
    else:
        takes, partitions = ["a"], False
    if sub_map:
        sub["map"] = method("map", [(n, StoragePartitions, "{n}") for n in takes], PartitionDependencies)
    got, made = t.accepts(REJECTED, lambda: declare({"b": "num"} if more else {}, sub, base=Base, name="Sub"))
    has_map = base_map or sub_map
    maps = set(takes) if sub_map or not has_map else {"a"}
    fields = {"a", "b"} if more else {"a"}
    ok = set(takes) | maps >= fields and (has_map or not partitions)
    t.check(got == ok, "a producer is accepted exactly when its own build and map fit")
    if got:
        out = (ListView, Artifact, keyed) if partitions else (IntView, Artifact, Int64())
        check_views(t, made, {n: (IntView, Artifact if n == "a" else Num, Int64()) for n in takes}, [out], maps)
        t.cover("accepted")
    else:
        t.cover("rejected")


VALIDATES = {"int": (int,), "str": (str,), "Any": (int, str), "none given": (int, str), "object": (int, str), "int | str": (int, str), "bool": ()}
VALIDATE_HINTS = {"int": int, "str": str, "Any": Any, "none given": MISSING, "object": object, "int | str": int | str, "bool": bool}


def validates(t, outputs):
    """Any validate_outputs."""
    roots = [t.choice(f"out{i}", (int, str)) for i in range(outputs)]
    ret = tuple[tuple(Annotated[r, Artifact] if i == 0 else r for i, r in enumerate(roots))]
    params = []
    n = t.index("params", outputs + 2)
    for i in range(n):
        params.append((f"p{i}", t.choice(f"p{i}.hint", tuple(VALIDATES)), t.choice(f"p{i}.kind", KINDS if n == 1 else KINDS[:1])))
    fn = method("validate_outputs", [(n, VALIDATE_HINTS[h], k) for n, h, k in params], tuple[bool, str])
    got, made = t.accepts(REJECTED, lambda: declare({}, {"build": method("build", [], ret), "validate_outputs": fn}))
    if len(params) == 1 and params[0][2] == "*{n}":
        ok = all(r in VALIDATES[params[0][1]] for r in roots)
    else:
        ok = len(params) == len(roots) and all(r in VALIDATES[h] and k in ("{n}", "{n}, /") for r, (_, h, k) in zip(roots, params))
    t.check(got == ok, "a producer is accepted exactly when its validation takes its outputs")
    t.cover("accepted" if got else "rejected")


def decorated(t):
    """Producers made from functions."""
    hints = [t.choice(f"a{i}", ("int", "int Num", "str Text", "int Small", "bool", "two classes", "str Num") if i == 0 else ("int", "str Text", "bool")) for i in range(t.index("inputs", 3))]
    views = [view_of(h) for h in hints]
    params = [(f"a{i}", the_hint(h), "{n}") for i, h in enumerate(hints)]
    options = {}
    if t.bool("named"):
        options["name"] = "Other"
    if t.bool("version"):
        options["version"] = SemVer(major=t.int("major", 1, 9), minor=0, patch=0)
    if t.bool("annotated"):
        options["annotations"] = tuple(Note(text=t.text(f"note{i}", NAMES, 0, 1)) for i in range(t.index("notes", 2)))
    validated = t.bool("validated")
    if validated:
        options["validate_outputs"] = lambda out: (True, "fine")
    if t.bool("mapped"):
        options["map"] = method("map", [("a0", StoragePartitions, "{n}")] if hints else [], PartitionDependencies, "plain")
    decorate = producer(**options)
    if len(hints) < 2 and not validated and "version" not in options and t.bool("again"):  # a decorator is no different when used again
        decorate(method("other", [("a0", int, "{n}")] if hints else [], Annotated[int, Num], "plain"))
    ok, made = t.accepts(REJECTED, lambda: decorate(method("work", params, Annotated[int, Num], "plain")))
    t.check(ok == all(v is not None for v in views), "a function is accepted exactly when its inputs are")
    if not ok:
        t.cover("rejected")
        return
    maps = {n for n, _, _ in params[:1 if "map" in options else None]}
    check_views(t, made, {n: v for (n, _, _), v in zip(params, views)}, [(IntView, Num, Int64())], maps)
    t.check(made.__name__ == options.get("name", "work"), "the name of the producer")
    made = made(**{n: v[1](type=v[2]) for (n, _, _), v in zip(params, views)})
    t.check(made.version == options.get("version", SemVer(major=0, minor=0, patch=1)), "the version of the producer")
    t.check(made.annotations == options.get("annotations", ()), "the annotations of the producer")
    t.check((made.validate_outputs(1) == (True, "fine")) == validated, "the validation of the producer")
    t.cover("accepted")


# -- instances ------------------------------------------------------------------------------------
def typed(t, name, columns=1):
    """A type with arbitrary content."""
    which = t.index(f"{name}.type", 3)
    if which == 0:
        return (Int64, Int32)[t.index(f"{name}.int", 2)]()
    k = t.text(f"{name}.k", NAMES, 1, 2)
    row = Struct(name="row", fields={k: (Int64, Int32)[t.index(f"{name}.k.type", 2)](), "v": Int64()})
    return List(element=row) if which == 1 else Collection(element=row, partition_by=(k,))


def same_type(t, a, b):
    if type(a) is not type(b):
        return False
    if not isinstance(a, List):
        return True
    (k, c), (l, d) = (next(iter(x.element.fields.items())) for x in (a, b))
    return t.both(k == l, type(c) is type(d))


class Typed(Artifact):
    """An artifact of a class of its own."""


class SubTyped(Typed):
    pass


def inputs(t, mapped):
    """Any artifact as an input."""
    want, cls = typed(t, "input"), t.choice("class", (Artifact, Typed))
    hint = Annotated[int if not isinstance(want, List) else list, cls, want]
    members = {"build": method("build", [("a", hint, "{n}")] if mapped != "only" else [], int)}
    if mapped:
        members["map"] = method("map", [("a", StoragePartitions, "{n}")], PartitionDependencies)
    P = type(Producer)("P", (Producer,), {"__annotations__": {"a": cls}, "__module__": __name__, **members})
    type_ = typed(t, "given")
    which, fmt = t.choice("given.class", (Artifact, Typed, SubTyped)), t.choice("given.format", (JSON, Pickle, Odd) if not mapped else (JSON, Odd))
    given = which(type=type_, format=fmt(), annotations=(Note(text="a"),),
                  storage=LocalFile(path="/data/{partition_key_spec}/{input_fingerprint}{extension}"))
    ok, got = t.accepts(ValueError, lambda: P(a=given))
    right = issubclass(which, cls)
    if mapped != "only":
        right = t.both(right, same_type(t, want, type_), fmt is not Odd)
    t.check(t.iff(ok, right), "an input is accepted exactly when its class and type are those viewed, and it can be read")
    if not ok:
        t.cover("rejected")
        return
    t.check(list(got.inputs) == ["a"] and got.a == given and type(got.a) is which, "the input is the artifact given")
    t.check(list(got.a.annotations) == [Note(text="a")] and got.a.producer_output is None, "the input is unchanged")
    t.cover("accepted")


def missing(t):
    """Inputs given by name: all of them, and nothing else."""
    P = declare({"a": "num", "b": "text"}, {"build": method("build", [("a", int, "{n}"), ("b", str, "{n}")], int)})
    kw, expected = {}, True
    for n, right in (("a", Num), ("b", Text), ("c", None)):
        what = t.choice(n, ("missing", "num", "sub", "text", "value", "class", "producer"))
        if what != "missing":
            kw[n] = {"num": Num, "sub": SubNum, "text": Text}[what]() if what in ("num", "sub", "text") else {"value": 1, "class": Num}.get(what)
            if what == "producer":
                kw[n] = declare({}, {"build": method("build", [], Annotated[int, Num])}, name="Q")()
        expected = expected and what in {Num: ("num", "sub"), Text: ("text",), None: ("missing",)}[right]
    ok, got = t.accepts(ValueError, lambda: P(**kw))
    t.check(ok == expected, "a producer takes exactly its inputs")
    t.cover("accepted" if ok else "rejected")


def outs(t, n, given):
    """Any artifacts as outputs."""
    classes = [t.choice(f"out{i}.class", (Artifact, Typed)) for i in range(n)]
    types = [typed(t, f"out{i}") if i == 0 else (Int64(), String(), Int32())[t.index(f"out{i}.type", 2) + (i == 2)] for i in range(n)]
    if n > 1 and given > n:
        t.assume(classes[1] is Artifact)
    if n > 1:  # Outputs share their partitioning.
        t.assume(not any(isinstance(x, Collection) for x in types))
    each = tuple(Annotated[{List: list, Collection: list, String: str}.get(type(x), int), c, x] for c, x in zip(classes, types))
    P = declare({}, {"build": method("build", [], tuple[each]), "map": method("map", [], PartitionDependencies)})
    made = P()
    other = declare({}, {"build": method("build", [], int)}, name="Other")()
    passed, right = [], given == n
    for i in range(given):
        fault = t.choice(f"given{i}.is", ("as asked", "another class", "another type", "of another format", "produced"))
        want = types[i] if i < n else Int64()
        type_ = want
        if fault == "another type":
            type_ = typed(t, f"given{i}") if n == given == 1 else Date()
        cls = classes[i] if i < n else Artifact
        if fault == "another class":
            cls = Typed if cls is Artifact else Artifact
        a = cls(type=type_, format=Odd() if fault == "of another format" else JSON(), annotations=(Note(text="given"),),
                storage=LocalFile(path="/data/{partition_key_spec}/{input_fingerprint}{extension}"))
        if fault == "produced":
            a = a.model_copy(update={"producer_output": other.out().producer_output})
        passed.append((a, cls))
        if i < n:
            right = t.both(right, same_type(t, want, type_) if fault == "another type" else True, issubclass(cls, classes[i]),
                           fault not in ("of another format", "produced"))
    ok, got = t.accepts(ValueError, lambda: made.out(*(a for a, _ in passed)))
    t.check(t.iff(ok, right), "outputs are accepted exactly when their number, classes and types are those of the build, and none is produced already")
    if not ok:
        t.cover("rejected")
        return
    got = got if n > 1 else (got,)
    t.check(isinstance(got, tuple) and len(got) == n, "as many outputs as the build returns")
    for i, (o, (a, which)) in enumerate(zip(got, passed)):
        t.check(o.producer_output.position == i and o.producer_output.producer == made, "an output records its producer and position")
        t.check(type(o) is which and o.type == a.type and o.format == a.format and o.storage == a.storage and o.annotations == a.annotations, "an output is the artifact given")
        t.check(a.producer_output is None, "the artifact given is not changed")
    t.cover("accepted")


def defaults(t, n):
    """Outputs nobody gave."""
    classes = [t.choice(f"out{i}.class", (Artifact, Typed)) for i in range(n)]
    types = [typed(t, f"out{i}") for i in range(n)]
    each = tuple(Annotated[list if isinstance(x, List) else int, c, x] for c, x in zip(classes, types))
    alike = not any(isinstance(x, Collection) for x in types) if n > 1 else True
    t.assume(alike)
    P = declare({}, {"build": method("build", [], tuple[each]), "map": method("map", [], PartitionDependencies)})
    made = P()
    got = made.out()
    got = got if n > 1 else (got,)
    again = list(made)
    t.check(len(got) == n and len(again) == n, "as many outputs as the build returns")
    for outputs in (got, again):
        for i, o in enumerate(outputs):
            t.check(type(o) is classes[i] and o.type == types[i], "an output of the class and type the build says")
            t.check(o.producer_output.position == i and o.producer_output.producer == made, "an output records its producer and position")
            ok, _ = t.accepts(ValueError, lambda: made.out(*outputs))
            t.check(not ok, "outputs are produced once")
    t.cover("made")


def CASES(tier):
    quick = tier == "quick"
    good, bad = ("any", "num", "sub", "text", "small", "noted"), ("optional", "default", "none", "int", "either", "type")
    for f in good:
        yield Case(f"class:field:{f}", one_field, dict(kinds=(f,), mapped=False), bounds="any hint and kind of parameter", cover=("accepted", "rejected"))
    yield Case("class:field:bad", one_field, dict(kinds=bad, mapped=False), bounds="fields that hold no artifact", cover=("rejected",))
    yield Case("class:field:mapped", one_field, dict(kinds=("any", "num"), mapped=True), bounds="any hint and kind of parameter of build and map", cover=("accepted", "rejected"))
    for fields in ((), ("a",), ("a", "b")):
        yield Case(f"class:use:{len(fields)}", use, dict(fields=fields), bounds=f"{len(fields)} fields, taken by build and map or not", cover=("accepted", "rejected"))
    for n in (0, 1, 2):
        yield Case(f"class:returns:{n}", returns, dict(n=n), bounds=f"{n} outputs of any hint", cover=("accepted", "rejected") if n else ("rejected",))
    for columns in ((1,), (2,), (1, 1), (1, 2), (2, 2)) if not quick else ((1,), (1, 1), (1, 2)):
        yield Case(f"class:partitioned:{columns}", partitioned, dict(columns=columns, outputs=len(columns)), bounds=f"outputs of {columns} partition fields of any name", cover=("accepted", "rejected"))
    yield Case("class:inherited", inherited, bounds="a producer extending another", cover=("accepted", "rejected"))
    for n in (1, 2):
        yield Case(f"class:validates:{n}", validates, dict(outputs=n), bounds=f"validate_outputs for {n} outputs", cover=("accepted", "rejected"))
    yield Case("class:decorated", decorated, {}, bounds="functions of up to two inputs, any options", cover=("accepted", "rejected"))
    for mapped in (False, True, "only"):
        yield Case(f"inputs:{mapped}", inputs, dict(mapped=mapped), bounds="artifacts of any class, type and format", cover=("accepted", "rejected"))
    yield Case("inputs:named", missing, bounds="two inputs, present or not, of any class", cover=("accepted", "rejected"))
    for n, given in ((1, 1), (1, 2), (2, 1), (2, 2)) + (() if quick else ((2, 3), (3, 3))):
        yield Case(f"outputs:{n}:{given}", outs, dict(n=n, given=given), bounds=f"{given} artifacts for {n} outputs", cover=("accepted", "rejected") if n == given else ("rejected",))
    for n in (1, 2):
        yield Case(f"outputs:default:{n}", defaults, dict(n=n), bounds=f"{n} outputs", cover=("made",))
