"""C07: storage templates resolve to complete, per-artifact unique locations."""

from __future__ import annotations

from typing import Annotated

from symex.case import Case

from arti import Artifact, Graph, Producer
from arti.fingerprints import Fingerprint
from arti.formats.json import JSON
from arti.formats.pickle import Pickle
from arti.storage.google.cloud.storage import GCSFile
from arti.storage.literal import StringLiteral
from arti.storage.local import LocalFile
from arti.types import Collection, Date, Int64, Struct

LIT = "/x."
VALUE = "Y=_"
OTHERS = ("{k.Y}", "{k.m:02}", "{k.Y[2021]}", "{k.m[5]:02}", "{other}", "{input_fingerprint}", "{k}")


def resolved(parts, values):
    """The documented result: (placeholders are ("ph", name), everything else is text)."""
    out, dropped, skip = "", False, False
    for part in parts:
        if isinstance(part, tuple):
            v = values.get(part[1], part)
            if isinstance(v, tuple):
                out, skip = out + "{" + part[1] + "}", False
            elif v == "":
                dropped, skip = True, True
            else:
                out, skip = out + v, False
        elif part != "":
            if skip and part[0] == "/":
                part = part[1:]
            skip = False
            out += part
    return out.rstrip("/") if dropped else out


def resolve(t, kind, middle):
    """Named placeholders are substituted or dropped; everything else is kept."""
    l0, l2 = t.text("l0", LIT, 0, 2), t.text("l2", LIT, 0, 2)
    l1 = t.text("l1", LIT, 0, 1) if not middle else t.text("l1", LIT, 0, 1) + t.choice("other", OTHERS) + "/"
    a = t.text("a", VALUE, 0, 2)
    b = t.text("b", VALUE, 0, 1)
    parts = [l0, ("ph", "a"), l1, ("ph", "b"), l2]
    want = resolved(parts, {"a": a, "b": b})
    spec = l0 + "{a}" + l1 + "{b}" + l2
    if kind == "literal":
        storage, field = StringLiteral(id=spec), "id"
    elif kind == "gcs":
        storage, field = GCSFile(bucket="{a}n", path=spec), "path"
    else:
        storage, field = LocalFile(path=spec), "path"
    args = {"b": b, "a": a} if t.bool("swapped") else {"a": a, "b": b}
    ok, got = t.accepts(ValueError, lambda: storage.resolve(**args))
    if not ok:
        t.cover("empty")
        t.check(want == "", "only an empty location is rejected")
        return
    t.cover("resolved")
    t.check(getattr(got, field) == want, "as documented")
    t.check(getattr(storage, field) == spec, "the original is unchanged")
    t.check(type(got) is type(storage), "same class")
    if kind == "gcs":
        t.check(got.bucket == a + "n", "the bucket too")
    # resolving in two steps is the same, unless trailing separators were dropped in between
    if a != "" and b != "":
        two = storage.resolve(a=a).resolve(b=b)
        t.check(getattr(two, field) == want, "one at a time")
    t.check(getattr(got.resolve(zzz="1"), field) == want, "absent placeholders change nothing")


def repeated(t, kind):
    """A placeholder may be used more than once."""
    l0, l1, l2 = t.text("l0", LIT, 0, 1), t.text("l1", LIT, 0, 2), t.text("l2", LIT, 0, 1)
    order = t.choice("order", ("aa", "aba", "aab", "baa"))
    values = {"a": t.text("a", VALUE, 0, 2)}
    if "b" in order:
        values["b"] = t.text("b", VALUE, 0, 1)
    texts = [l0, l1, l2, "."]
    parts = [p for n, l in zip(order, texts[1:]) for p in (("ph", n), l)]
    parts = [l0, *parts]
    spec = "".join(["{" + p[1] + "}" if isinstance(p, tuple) else p for p in parts])
    want = resolved(parts, values)
    storage = StringLiteral(id=spec) if kind == "literal" else LocalFile(path=spec)
    ok, got = t.accepts(ValueError, lambda: storage.resolve(**values))
    if not ok:
        t.cover("empty")
        t.check(want == "", "only an empty location is rejected")
        return
    t.cover("resolved")
    t.check((got.id if kind == "literal" else got.path) == want, "as documented, every time")


def bound(t):
    """Binding a storage to a type and format fills in the partition spec and extension."""
    x, y = t.text("x", LIT, 0, 1), t.text("y", LIT, 0, 1)
    fmt = t.choice("format", [JSON, Pickle])()
    ext = fmt.extension
    keyed = t.bool("keyed")
    typ = (Collection(element=Struct(fields={"d": Date(), "n": Int64()}), partition_by=("d", "n"))
           if keyed else Int64())
    st = Artifact(type=typ, format=fmt,
                  storage=LocalFile(path="/r" + x + "{partition_key_spec}" + y + "/f{extension}")).storage
    if keyed:
        spec = "d_Y={d.Y}/d_m={d.m:02}/d_d={d.d:02}/n_value={n.value}"
        t.check(st.path == "/r" + x + spec + y + "/f" + ext, "every component")
        t.cover("keyed")
    else:
        rest = y + "/f" + ext
        t.check(st.path == "/r" + x + (rest[1:] if rest[0] == "/" else rest), "no components")
        t.cover("plain")


class Make(Producer):
    a: Artifact

    @staticmethod
    def build(a: int) -> Annotated[int, Artifact]:
        return a


STORAGES = {
    "local": lambda: LocalFile.rooted_at("/root"),
    "gcs": lambda: GCSFile(bucket="b"),
    "literal": lambda: StringLiteral(),
    "short": lambda: LocalFile.rooted_at("/r", "{graph_name}/{path_tags}/{names}/{input_fingerprint}/f"),
}


def location(storage):
    if hasattr(storage, "bucket"):
        return storage.bucket + "/" + storage.path
    return storage.path if hasattr(storage, "path") else storage.id


def one(t, name, make, produced):
    """An artifact under arbitrary names in a graph with arbitrary name and tags."""
    gname = t.text(f"{name}.graph", "aB", 1, 2)
    tags = {}
    for i in range(t.index(f"{name}.tags", 2)):
        tags[t.text(f"{name}.tag", "aB", 1, 1)] = t.text(f"{name}.value", "ab", 1, 1)
    names = [t.text(f"{name}.n{i}", "aB", 1, 1) for i in range(1 + t.index(f"{name}.depth", 2))]
    raw = Artifact(type=Int64(), format=JSON(), storage=make())
    with Graph(name=gname, path_tags=tags) as g:
        if produced:
            g.artifacts.zz = raw
            value = Make(a=g.artifacts.zz).out(Artifact(type=Int64(), format=JSON(), storage=make()))
        else:
            value = raw
        g.artifacts[".".join(names)] = value
    got = g.artifacts
    for n in names:
        got = got[n]
    return (gname, tuple(tags.items()), tuple(names)), got


def unique(t, storage, produced):
    """Locations are equal exactly when the graph name, tags and names are."""
    make = STORAGES[storage]
    da, a = one(t, "a", make, produced)
    db, b = one(t, "b", make, produced)
    fp = Fingerprint(t.int("fp", -9, 9)) if produced else None
    pa, pb = (x.storage.generate_partition(input_fingerprint=fp) for x in (a, b))
    t.check(t.iff(location(pa) == location(pb), t.same(da, db)), "one location per artifact")
    where = location(pa)
    t.check("{" not in where and "}" not in where, "complete")
    t.check("//" not in where, "no empty segments")
    if storage in ("local", "short"):
        t.check(where.startswith(("/root/" if storage == "local" else "/r/") + da[0] + "/"), "under the root")
    t.cover("compared")


def within(t, storage):
    """Artifacts of one graph never share a location."""
    make = STORAGES[storage]
    with Graph(name="g", path_tags={"t": "v"}) as g:
        names = []
        for i in range(3):
            ns = [t.text(f"n{i}{j}", "aB", 1, 1) for j in range(1 + t.index(f"d{i}", 2))]
            key = ".".join(ns)
            for old in names:  # a leaf cannot be a box as well
                t.assume(t.both(key != old, not_prefix(t, key, old), not_prefix(t, old, key)))
            names.append(key)
            g.artifacts[key] = Artifact(type=Int64(), format=JSON(), storage=make())
    where = [location(a.storage.generate_partition()) for _, a in g.artifacts.walk()]
    t.check(len(where) == 3, "three artifacts")
    for i in range(3):
        for j in range(i):
            t.check(where[i] != where[j], "different locations")
    t.cover("done")


def deep(t, how):
    """Boxes in boxes: the whole name counts, however it is spelled."""
    with Graph(name="g") as g:
        names = []
        for i in range(2):
            ns = [t.text(f"n{i}{j}", "aB", 1, 1) for j in range(1 + t.index(f"d{i}", 4))]
            key = ".".join(ns)
            if names:
                t.assume(t.both(key != names[0][0], not_prefix(t, key, names[0][0]), not_prefix(t, names[0][0], key)))
            names.append((key, ns))
            value = Artifact(type=Int64(), format=JSON(), storage=LocalFile(path="/r/{names}/x/{name}"))
            if how == "item":
                g.artifacts[key] = value
            elif how == "attribute":
                box = g.artifacts
                for n in ns[:-1]:
                    box = box[n]
                box[ns[-1]] = value
            else:
                for n in ns[:0:-1]:
                    value = {n: value}
                g.artifacts[ns[0]] = value
    for key, ns in names:
        got = g.artifacts[key].storage.path
        t.check(got == "/r/" + "/".join(ns) + "/x/" + ns[-1], "the whole name")
    t.cover("done")


def not_prefix(t, a, b):
    return t.no(b.startswith(a + "."))


def fingerprints(t):
    """Raw artifacts lose the fingerprint placeholder, produced artifacts must have it."""
    before, after = t.text("before", LIT, 0, 1), t.text("after", LIT, 0, 1)
    has = t.bool("has")
    produced = t.bool("produced")
    path = "/r" + before + ("{input_fingerprint}" if has else "") + after
    with Graph(name="g") as g:
        g.artifacts.a = Artifact(type=Int64(), format=JSON(), storage=LocalFile(path="/a"))
        x = Artifact(type=Int64(), format=JSON(), storage=LocalFile(path=path))
        if produced:
            ok, err = t.accepts(ValueError, lambda: setattr(g.artifacts, "x", Make(a=g.artifacts.a).out(x)))
            t.check(ok == has, "produced artifacts need the placeholder")
            if not ok:
                t.cover("rejected")
                return
        else:
            g.artifacts.x = x
    st = g.artifacts.x.storage
    if produced:
        t.cover("produced")
        t.check(st.path == path.rstrip("/"), "kept")  # there are no tags: separators at the end go
        t.check(st.includes_input_fingerprint_template, "kept")
        fa, fb = Fingerprint(t.int("fa", -9, 9)), Fingerprint(t.int("fb", -9, 9))
        pa, pb = st.generate_partition(input_fingerprint=fa), st.generate_partition(input_fingerprint=fb)
        t.check(t.iff(pa.path == pb.path, fa == fb), "one place per input fingerprint")
    else:
        t.cover("raw")
        t.check(t.no(st.includes_input_fingerprint_template), "dropped")
        rest = after[1:] if has and after != "" and after[0] == "/" else after
        t.check(st.path == ("/r" + before + rest).rstrip("/") , "nothing else is dropped but a separator at the end")
        t.check(st.generate_partition().path == st.path, "no fingerprint needed")


def CASES(tier):
    out = []
    for kind in ("local", "gcs", "literal"):
        for middle in (False, True):
            if kind != "local" and tier != "thorough" and middle:
                continue
            out.append(Case(f"resolve:{kind}:{'kept' if middle else 'only'}", resolve, {"kind": kind, "middle": middle},
                            "two placeholders with values of up to 2 characters, text of up to 2 characters around them",
                            cover=("resolved",) if middle else ("resolved", "empty")))
    for kind in ("local", "literal") if tier == "thorough" else ("local",):
        out.append(Case(f"repeated:{kind}", repeated, {"kind": kind}, "up to three placeholders of two names, text of up to 2 characters around them", cover=("resolved", "empty")))
    out.append(Case("bound", bound, {}, "two formats, two types, literal text of one character", cover=("keyed", "plain")))
    for st in STORAGES:
        for produced in (False, True):
            if produced and tier != "thorough" and st not in ("local", "short"):
                continue
            out.append(Case(f"unique:{st}:{'produced' if produced else 'raw'}", unique, {"storage": st, "produced": produced},
                            "graph names of up to 2 characters, up to one tag, up to two levels of names",
                            cover=("compared",)))
    out.append(Case("within:local", within, {"storage": "local"}, "three artifacts, up to two levels of names", cover=("done",)))
    for how in ("item", "attribute", "mapping"):
        out.append(Case(f"deep:{how}", deep, {"how": how}, "two artifacts, up to four levels of names", cover=("done",)))
    out.append(Case("fingerprints", fingerprints, {}, "text of one character around the placeholder",
                    cover=("raw", "produced", "rejected")))
    return out


