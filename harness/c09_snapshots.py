"""C09: the snapshot id changes exactly when the graph or its raw data changes."""

from __future__ import annotations

from typing import Annotated

from symex.case import Case

from arti import Annotation, Artifact, Graph, Producer
from arti.backends.memory import MemoryBackend
from arti.formats.json import JSON
from arti.formats.pickle import Pickle
from arti.storage.google.cloud.storage import GCSFile
from arti.storage.literal import StringLiteral
from arti.storage.local import LocalFile
from arti.types import Collection, Int64, List, Struct
from arti.versions import SemVer

KEYED = Collection(element=Struct(fields={"k": Int64()}), partition_by=("k",))


class Note(Annotation):
    text: str


class Sum(Producer):
    a: Artifact
    b: Artifact

    @staticmethod
    def build(a: int, b: int) -> Annotated[int, Artifact]:
        return a + b


class Diff(Producer):
    a: Artifact
    b: Artifact

    @staticmethod
    def build(a: int, b: int) -> Annotated[int, Artifact]:
        return a - b


class Both(Producer):
    a: Artifact

    @staticmethod
    def build(a: int) -> tuple[Annotated[int, Artifact], Annotated[int, Artifact]]:
        return a, -a


class Files:
    def __init__(self, t, where):
        self.t, self.where = t, where
        self.base = "r/" if where == "gcs" else t.root + "/r/"

    def storage(self, rel):
        return GCSFile(bucket=self.t.bucket, path=self.base + rel) if self.where == "gcs" else LocalFile(path=self.base + rel)

    def put(self, rel, text):
        (self.t.gcs_write if self.where == "gcs" else self.t.write)(self.base + rel, text)

    def drop(self, rel):
        (self.t.gcs_remove if self.where == "gcs" else self.t.remove)(self.base + rel)


def state(t, side, keys):
    """Which raw partitions there are, and what is in them."""
    plain = t.text(f"{side}.plain", "01", 1, 1) if t.bool(f"{side}.has plain") else None
    parts = {k: t.text(f"{side}.{k}", "01", 1, 1) for k in keys if t.bool(f"{side}.has {k}")}
    return plain, parts


def partitions(backend, snapshot, name):
    with backend.connect() as conn:
        return conn.read_snapshot_partitions(snapshot, name, snapshot.artifacts[name])


def data(t, where, n, fresh):
    """Snapshots of one graph before and after an arbitrary change of its raw data."""
    files = Files(t, where)
    keys = range(5, 5 + n)
    with Graph(name="g") as g:
        g.artifacts.plain = Artifact(type=Int64(), format=JSON(), storage=files.storage("plain"))
        g.artifacts.parts = Artifact(type=KEYED, format=JSON(), storage=files.storage("parts/{k.value}"))
        g.artifacts.out = Sum(a=g.artifacts.plain, b=g.artifacts.plain)
    there = {}

    def snapshot(now):
        plain, parts = now
        want = {f"parts/{k}": v for k, v in parts.items()}
        if plain is not None:
            want["plain"] = plain
        for rel in list(there):
            if rel not in want:
                files.drop(rel)
                del there[rel]
        for rel, v in want.items():
            files.put(rel, v)
            there[rel] = v
        ok, s = t.accepts(ValueError, g.snapshot)
        t.check(ok == (plain is not None and bool(parts)), "fails exactly if a raw artifact has no data")
        if not ok:
            return None
        linked = partitions(g.backend, s, "parts")
        t.check(len(linked) == len(parts), "exactly the partitions present")
        t.check(sorted(p.partition_key["k"].value for p in linked) == sorted(parts), "exactly the partitions present")
        for p in linked:
            t.check(p.content_fingerprint == p.storage_partition.compute_content_fingerprint(), "with their contents")
        t.check(len(partitions(g.backend, s, "plain")) == 1, "also unpartitioned")
        t.check(len(partitions(g.backend, s, "out")) == 0, "nothing is built yet")
        return s

    one = state(t, "one", keys)
    a = snapshot(one)
    if fresh:
        g = g.model_copy(update={"backend": MemoryBackend()})
        with g:
            pass
    two = state(t, "two", keys)
    b = snapshot(two)
    if a is None or b is None:
        t.cover("no data")
        return
    t.check(t.iff(a.id == b.id, t.same(one, two)), "the id changes exactly when the data does")
    if not fresh:  # snapshots of different backends are not compared
        t.check(t.iff(a == b, t.same(one, two)), "snapshots are equal exactly then")
    c = snapshot(one)
    t.check(c.id == a.id, "the same data has the same id again")
    t.cover("compared")


def swapped(t):
    """Contents moved between partitions, and partitions moved between artifacts, show."""
    files = Files(t, "local")
    v, w = t.text("v", "01", 1, 2), t.text("w", "01", 1, 2)
    with Graph(name="g") as g:
        for n in "ab":
            g.artifacts[n] = Artifact(type=KEYED, format=JSON(), storage=files.storage(n + "/{k.value}"))

    def snapshot(contents):
        for rel, x in contents.items():
            files.put(rel, x)
        s = g.snapshot()
        for rel in contents:
            files.drop(rel)
        return s

    a = snapshot({"a/1": v, "a/2": w, "b/1": v})
    b = snapshot({"a/1": w, "a/2": v, "b/1": v})
    t.check(t.iff(a.id == b.id, v == w), "between partitions")
    c = snapshot({"a/1": v, "b/1": w})
    d = snapshot({"a/1": w, "b/1": v})
    t.check(t.iff(c.id == d.id, v == w), "between artifacts")
    t.check(a.id != c.id, "fewer partitions")
    e = snapshot({"a/2": v, "b/1": w})
    t.check(e.id != c.id, "other keys")
    f = snapshot({"a/1": v, "b/2": v})
    h = snapshot({"a/2": v, "b/1": v})
    t.check(f.id != h.id, "swapped keys")
    t.cover("done")


def shared(t):
    """Two artifacts over the same (or overlapping) partitions."""
    files = Files(t, "local")
    v, w = t.text("v", "01", 1, 2), t.text("w", "01", 1, 2)
    third = t.bool("third")
    with Graph(name="g") as g:
        g.artifacts.a = Artifact(type=Int64(), format=JSON(), storage=files.storage("x"))
        g.artifacts.b = Artifact(type=Int64(nullable=True), format=JSON(), storage=files.storage("x"))
        if third:
            g.artifacts.c = Artifact(type=List(element=Int64()), format=JSON(), storage=files.storage("x"))
    files.put("x", v)
    a = g.snapshot()
    files.put("x", w)
    b = g.snapshot()
    t.check(t.iff(a.id == b.id, v == w), "changes of shared data show")
    t.cover("done")


def literals(t):
    """Raw values given in the definition are part of the data."""
    v, w = t.int("v", -99, 99), t.int("w", -99, 99)
    x, y = t.text("x", "ab{}", 0, 2), t.text("y", "ab{}", 0, 2)

    def make(n, s):
        with Graph(name="g") as g:
            g.artifacts.n = Artifact(type=Int64(), format=JSON(), storage=StringLiteral(value=n))
            g.artifacts.s = Artifact(type=Int64(), format=JSON(), storage=StringLiteral(value=s))
        return g.snapshot()

    t.check(t.iff(make(str(v), x).id == make(str(w), y).id, t.both(v == w, x == y)), "values")
    t.check(t.iff(make(x, y).id == make(y, x).id, x == y), "swapped")
    with Graph(name="g") as g:
        g.artifacts.n = Artifact(type=Int64(), format=JSON(), storage=StringLiteral())
    t.raises(ValueError, g.snapshot)
    t.cover("done")


def structure(t, part, bare=False):
    """Graphs that differ in any part of their definition, over the same data; bare: of which no storage tells."""
    files = Files(t, "local")
    for n in "pq":
        files.put(n, "1")

    def make(side):
        opt = lambda k, options: t.choice(f"{side}.{k}", options) if k in part else options[0]
        txt = lambda k, default: t.text(f"{side}.{k}", "aB", 1, 1) if k in part else default
        cls, ins = opt("class", ["Sum", "Diff"]), opt("inputs", ["ab", "ba", "aa", "bb"])
        major, minor = (t.int(f"{side}.{k}", 0, 9) if "version" in part else 0 for k in ("major", "minor"))
        graph, tag, out = txt("graph", "g"), txt("tag", "t"), txt("out", "a")
        first, swap = opt("first", ["p", "q"]), opt("swap", [False, True])
        fmt, rev, nested = opt("format", ["JSON", "Pickle"]), opt("order", [False, True]), opt("nested", [False, True])
        noted = opt("noted", [False, True])
        second = "q" if first == "p" else "p"
        kw = {"annotations": (Note(text="x"),)} if noted else {}
        with Graph(name=graph, path_tags={"tag": tag}) as g:
            raws = {"a": first, "b": second}
            for n in ("ba" if rev else "ab"):
                g.artifacts.raw[n] = Artifact(type=Int64(), format={"JSON": JSON, "Pickle": Pickle}[fmt](),
                                              storage=files.storage(raws[n]))
            p = {"Sum": Sum, "Diff": Diff}[cls](a=g.artifacts.raw[ins[0]], b=g.artifacts.raw[ins[1]],
                                               version=SemVer(major=major, minor=minor, patch=0), **kw)
            spot = g.artifacts.made if not nested else g.artifacts.made.deep
            made = lambda: [Artifact(type=Int64(), format=JSON(), storage=StringLiteral(id="{input_fingerprint}"))] if bare else []
            spot[out] = p.out(*made())
            x, y = Both(a=spot[out]).out(*made(), *made())
            g.artifacts.two.x, g.artifacts.two.y = (y, x) if swap else (x, y)
        return (cls, ins, major, 0 if major > 0 else minor, graph, tag, out, first, swap, fmt, nested), g

    (da, a), (db, b) = make("a"), make("b")
    sa, sb = a.snapshot(), b.snapshot()
    t.check(t.iff(sa.id == sb.id, t.same(da, db)), "the id changes exactly when the definition does")
    t.check(t.iff(a.fingerprint == b.fingerprint, t.same(da, db)), "and so does the graph's fingerprint")
    t.check(a.snapshot().id == sa.id, "again")
    t.cover("compared")


def CASES(tier):
    deep = tier == "thorough"
    out = []
    for where in ("local", "gcs"):
        for fresh in (False, True):
            n = 3 if deep and where == "local" else 2 if where == "local" and not fresh or deep else 1
            out.append(Case(f"data:{where}:{'fresh' if fresh else 'same'}", data, {"where": where, "n": n, "fresh": fresh},
                            f"a plain and a partitioned raw artifact with up to {n} partitions, three states",
                            cover=("compared", "no data")))
    out.append(Case("swapped", swapped, {}, "contents of up to 2 characters", cover=("done",)))
    out.append(Case("shared", shared, {}, "up to three artifacts", cover=("done",)))
    out.append(Case("literals", literals, {}, "values of up to 2 characters", cover=("done",)))
    parts = [("class", "inputs"), ("version", "tag"), ("graph", "tag", "out"), ("first", "inputs"), ("swap", "out", "nested"),
             ("format", "order", "noted", "version"), ("class", "swap", "order")]
    if deep:
        parts += [("class", "inputs", "first", "swap"), ("version", "graph", "tag", "out", "noted"),
                  ("nested", "swap", "out", "inputs", "order"), ("first", "format", "class", "version")]
    for p in [("graph", "tag"), ("out", "nested", "swap")]:
        out.append(Case("structure:bare:" + "+".join(p), structure, {"part": p, "bare": True}, "names of one character",
                        cover=("compared",)))
    for p in parts:
        out.append(Case("structure:" + "+".join(p), structure, {"part": p}, "names of one character, versions 0-9",
                        cover=("compared",)))
    return out
