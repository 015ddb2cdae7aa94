"""C02: a model's fingerprint identifies exactly its class and content."""

from __future__ import annotations

from typing import Annotated, Any

from symex.case import Case

from arti import Annotation, Artifact, Graph, PartitionKey, Producer, Statistic, StoragePartitionSnapshot
from arti.backends.memory import MemoryBackend
from arti.fingerprints import Fingerprint, SkipFingerprint
from arti.formats.json import JSON
from arti.formats.pickle import Pickle
from arti.internal.models import Model
from arti.partitions import DateField, Int8Field, Int64Field
from arti.storage.literal import StringLiteral, StringLiteralPartition
from arti.storage.local import LocalFile, LocalFilePartition
from arti.types import Collection, Enum, Int64, List, String, Struct, Type
from arti.versions import SemVer
from arti.versions import String as StringVersion

from . import arb
from .arb import B64

TEXT = "aZ0 /{}:,[]=."
PLAIN = "aZ0 /:,[]=."


def check_iff(t, a, b, same, msg):
    t.check(t.iff(a.fingerprint == b.fingerprint, same), msg)


def types(t, kind):
    """A type of this class against a type of any class."""
    a, da = arb.arbitrary(t, "a", kind)
    b, db = arb.arbitrary(t, "b", t.choice("other", [k for k in arb.KINDS if k >= kind]))
    check_iff(t, a, b, t.same(da, db), "same fingerprint exactly when class and content agree")
    t.cover("same class" if type(a) is type(b) else "other class")


def types_self(t, kind):
    """A type of this class against another of the same class, description included."""
    a, da = arb.arbitrary(t, "a", kind, describe=False, hi=1)
    b, db = arb.arbitrary(t, "b", kind, describe=kind not in ("Map", "Collection", "Geography"), hi=1)
    check_iff(t, a, b, t.same(da, db), "same fingerprint exactly when content agrees")
    la, lb = List(element=a), List(element=b)
    check_iff(t, la, lb, t.same(da, db), "also nested")
    t.cover("done")


def struct_fields(t):
    """Structs: names, field names and field types."""
    ma, da = arb.struct(t, "a", 2, False)
    mb, db = arb.struct(t, "b", 2, False)
    check_iff(t, ma(), mb(), t.same(da, db), "structs")
    t.cover("done")


def enum_order(t, n, hi):
    """The order of an enum's items never matters (a and a+8 collide in CPython's sets)."""
    a = t.int("a", 0, hi)
    items = [a + 8 * i for i in range(n)]
    x = Enum(type=Int64(), items=items)
    y = Enum(type=Int64(), items=list(reversed(items)))
    t.check(x == y, "equal")
    t.check(x.fingerprint == y.fingerprint, "order of items")
    t.check(List(element=x).fingerprint == List(element=y).fingerprint, "order of nested items")
    z = Enum(type=Int64(), items=[*items[:-1], t.int("z", 0, hi)])
    t.check(t.iff(z.fingerprint == x.fingerprint, t.same(sorted(z.items), sorted(x.items))), "exactly the items")
    t.cover("done")


def storages(t):
    a, b = t.text("a", TEXT, 0, 2), t.text("b", TEXT, 0, 2)
    va = t.text("va", PLAIN, 0, 1) if t.bool("va?") else None
    vb = t.text("vb", PLAIN, 0, 1) if t.bool("vb?") else None
    check_iff(t, LocalFile(path=a), LocalFile(path=b), a == b, "local files")
    check_iff(t, StringLiteral(id=a, value=va), StringLiteral(value=vb, id=b), t.both(a == b, t.same(va, vb)), "literals")
    t.check(LocalFile(path=a).fingerprint != StringLiteral(id=b).fingerprint, "classes")
    t.check(JSON().fingerprint != Pickle().fingerprint, "formats")
    ja, jb = t.text("ja", PLAIN, 0, 1), t.text("jb", PLAIN, 0, 1)
    check_iff(t, JSON(extension=ja), JSON(extension=jb), ja == jb, "format extension")
    t.cover("done")


def partitions(t):
    storage = LocalFile(path="/x")
    a, b = t.text("a", PLAIN, 0, 1), t.text("b", PLAIN, 0, 1)
    fa, fb = (Fingerprint(t.int(n, *B64)) if t.bool(n + "?") else None for n in ("fa", "fb"))
    ca, cb = (Fingerprint(t.int(n, *B64)) for n in ("ca", "cb"))
    ka, kb = t.int("ka", *B64), t.int("kb", *B64)

    def part(p, f, k):
        return LocalFilePartition(path=p, input_fingerprint=f, storage=storage,
                                  partition_key=PartitionKey(k=Int64Field(value=k)))

    pa, pb = part(a, fa, ka), part(b, fb, kb)
    same = t.both(a == b, t.same(fa, fb), ka == kb)
    check_iff(t, pa, pb, same, "partitions")
    check_iff(t, StoragePartitionSnapshot(content_fingerprint=ca, storage_partition=pa),
              StoragePartitionSnapshot(content_fingerprint=cb, storage_partition=pb),
              t.both(same, ca == cb), "snapshots")
    lit = StringLiteralPartition(id=a, value=b, storage=StringLiteral())
    other = StringLiteralPartition(id=b, value=a, storage=StringLiteral())
    check_iff(t, lit, other, a == b, "literal partitions")
    t.check(lit.fingerprint != pa.fingerprint, "classes")
    t.cover("done")


def fields(t):
    """Partition fields: class and value."""
    x, y = t.int("x", -128, 127), t.int("y", -128, 127)
    check_iff(t, Int8Field(value=x), Int8Field(value=y), x == y, "integers")
    t.check(Int8Field(value=x).fingerprint != Int64Field(value=y).fingerprint, "classes")
    d, e = t.date("d"), t.date("e")
    check_iff(t, DateField(value=d), DateField(value=e), d == e, "dates")
    t.cover("done")


class Note(Annotation):
    text: str


class Tag(Note):
    extra: int = 0


class Stat(Statistic):
    n: int


def annotations(t):
    """Subclass fields count, whatever class the field is declared with."""
    a, b = t.text("a", PLAIN, 0, 1), t.text("b", PLAIN, 0, 1)
    x, y = t.int("x", *B64), t.int("y", *B64)

    def art(*notes, stats=()):
        return Artifact(type=Int64(), format=JSON(), storage=LocalFile(path="/x"), annotations=notes, statistics=stats)

    check_iff(t, art(Note(text=a)), art(Note(text=b)), a == b, "annotations")
    check_iff(t, art(Tag(text=a, extra=x)), art(Tag(extra=y, text=b)), t.both(a == b, x == y), "subclass fields")
    t.check(art(Note(text=a)).fingerprint != art(Tag(text=a)).fingerprint, "classes")
    t.check(art(Note(text=a)).fingerprint != art().fingerprint, "number")
    t.check(t.iff(art(Note(text=a), Note(text=b)).fingerprint == art(Note(text=b), Note(text=a)).fingerprint, a == b),
            "order of annotations")
    check_iff(t, art(stats=(Stat(n=x),)), art(stats=(Stat(n=y),)), x == y, "statistics")
    t.cover("done")


def artifacts(t):
    """Type, format and storage count; the producer does not."""
    na, nb = t.bool("na"), t.bool("nb")
    pa, pb = t.text("pa", "aZ0 .", 1, 1), t.text("pb", "aZ0 .", 1, 1)
    fa, fb = (t.choice(n, [JSON, Pickle]) for n in ("fa", "fb"))
    fp = "/{input_fingerprint}"
    a = Artifact(type=Int64(nullable=na), format=fa(), storage=LocalFile(path=pa + fp))
    b = Artifact(storage=LocalFile(path=pb + fp), format=fb(), type=Int64(nullable=nb))
    check_iff(t, a, b, t.both(na == nb, fa is fb, pa == pb), "artifacts")
    t.cover("done")


class Sum(Producer):
    a: Artifact
    b: Artifact

    @staticmethod
    def build(a: int, b: int) -> Annotated[int, Artifact]:
        return a + b


class Diff(Producer):
    a: Artifact
    b: Artifact

    @staticmethod
    def build(a: int, b: int) -> Annotated[int, Artifact]:
        return a - b


def raw(path):
    return Artifact(type=Int64(), format=JSON(), storage=LocalFile(path=path))


def producers(t):
    """Class, version and inputs count; annotations do not."""
    pa, pb, qa, qb = (t.text(n, "aZ0 .", 1, 1) for n in ("pa", "pb", "qa", "qb"))
    va, vb = (SemVer(major=t.int(n, 1, 2**63 - 1), minor=0, patch=0) for n in ("va", "vb"))
    note = Note(text=t.text("note", PLAIN, 0, 1))
    x = Sum(a=raw(pa), b=raw(qa), version=va)
    y = Sum(version=vb, b=raw(qb), a=raw(pb), annotations=(note,))
    same = t.both(pa == pb, qa == qb, va.major == vb.major)
    check_iff(t, x, y, same, "producers")
    t.check(x.fingerprint != Diff(a=raw(pa), b=raw(qa), version=va).fingerprint, "classes")
    out = x.out()
    made = out.model_copy(update={"storage": LocalFile(path="/{input_fingerprint}")})
    plain = Artifact(type=Int64(), format=out.format, storage=LocalFile(path="/{input_fingerprint}"))
    t.check(made.fingerprint == plain.fingerprint, "what produces an artifact is not part of it")
    t.check(Sum(a=made, b=raw(qa)).fingerprint == Sum(a=plain, b=raw(qa)).fingerprint, "also nested")
    t.cover("done")


def graphs(t):
    """Name, path tags and artifacts count; the backend and the order of definition do not."""
    na, nb = t.text("na", "ab", 1, 1), t.text("nb", "ab", 1, 1)
    ta, tb = t.text("ta", "ab", 1, 1), t.text("tb", "ab", 1, 1)
    pa, pb = t.text("pa", "ab", 1, 1), t.text("pb", "ab", 1, 1)
    other = t.bool("other")
    with Graph(name=na, path_tags={"t": ta}) as ga:
        ga.artifacts.x = raw(pa)
        ga.artifacts.y.z = raw("q")
    with Graph(path_tags={"t": tb}, name=nb, backend=MemoryBackend()) as gb:
        gb.artifacts.y.z = raw("q")
        if other:
            gb.artifacts.w = raw(pb)
        else:
            gb.artifacts.x = raw(pb)
    same = t.both(na == nb, ta == tb, pa == pb, not other)
    check_iff(t, ga, gb, same, "graphs")
    t.cover("other" if other else "same names")


def graph_order(t):
    """Artifacts count by their full names, in whatever order they are assigned."""
    def names(k):
        out = []
        for i in range(2):
            ns = [t.text(f"{k}{i}{j}", "ab", 1, 1) for j in range(1 + t.index(f"{k}d{i}", 2))]
            name = ".".join(ns)
            for old in out:  # a leaf cannot be a box as well
                t.assume(t.both(name != old, t.no(name.startswith(old + ".")), t.no(old.startswith(name + "."))))
            out.append(name)
        return out

    def make(order, names):
        with Graph(name="g") as g:
            for i in order:
                g.artifacts[names[i]] = Artifact(type=(Int64(), String())[i], format=JSON(), storage=LocalFile(path="/x"))
        return g

    na, nb = names("a"), names("b")
    a = make((0, 1), na)
    check_iff(t, a, make((1, 0), na), True, "order")
    check_iff(t, a, make((1, 0), nb), t.both(na[0] == nb[0], na[1] == nb[1]), "names")
    t.cover("done")


class Plain(Model):
    x: int
    y: Annotated[int, SkipFingerprint()]
    z: Any = None
    w: tuple[int, ...] = ()


class Base(Model):
    pass


class Left(Base):
    v: int


class Right(Base):
    v: int


class Deep(Left):
    more: str = ""


class Owner(Model):
    b: Base
    bs: tuple[Base, ...] = ()


def generic(t):
    """Any model: every field but the skipped ones."""
    a, b = ({n: t.int(f"{n}{i}", *B64) for n in "xyzw"} for i in "01")
    ma = Plain(x=a["x"], y=a["y"], z=a["z"], w=(a["w"], 1))
    mb = Plain(w=(b["w"], 1), z=b["z"], y=b["y"], x=b["x"])
    check_iff(t, ma, mb, t.both(a["x"] == b["x"], a["z"] == b["z"], a["w"] == b["w"]), "all but skipped")
    t.check(Plain(x=a["x"], y=0, w=(a["w"],)).fingerprint != Plain(x=a["x"], y=0, z=a["w"]).fingerprint, "fields do not mix")
    t.check(Plain(x=a["x"], y=0, w=(1, 2)).fingerprint != Plain(x=a["x"], y=0, w=(12,)).fingerprint, "boundaries")
    t.check(t.iff(Plain(x=0, y=0, w=(a["x"], a["z"])).fingerprint == Plain(x=0, y=0, w=(a["z"], a["x"])).fingerprint,
                  a["x"] == a["z"]), "order of a tuple")
    s = t.text("s", "0123456789-", 1, 2)
    t.check(Plain(x=0, y=0, z=s).fingerprint != Plain(x=0, y=0, z=a["x"]).fingerprint, "text is no number")
    t.cover("done")


def polymorphic(t):
    """The class and all the fields of a nested model count, whatever the field is declared as."""
    x, y = t.int("x", *B64), t.int("y", *B64)
    s = t.text("s", PLAIN, 0, 2)
    check_iff(t, Owner(b=Left(v=x)), Owner(b=Left(v=y)), x == y, "nested content")
    t.check(Owner(b=Left(v=x)).fingerprint != Owner(b=Right(v=x)).fingerprint, "nested class")
    t.check(t.no(Owner(b=Left(v=x)).fingerprint == Owner(b=Deep(v=x, more=s)).fingerprint), "nested class")
    check_iff(t, Owner(b=Deep(v=x)), Owner(b=Deep(v=x, more=s)), s == "", "nested subclass fields")
    check_iff(t, Owner(b=Left(v=x), bs=(Deep(v=x, more=s), Left(v=y))),
              Owner(b=Left(v=x), bs=(Deep(v=y, more=s), Left(v=x))), x == y, "in tuples")
    t.cover("done")


def copies(t):
    """A copy with updates has the fingerprint of its own content."""
    x, y = t.int("x", *B64), t.int("y", *B64)
    a = Left(v=x)
    if t.bool("read first"):
        a.fingerprint
    check_iff(t, a.model_copy(), a, True, "plain copy")
    b = a.model_copy(update={"v": y})
    check_iff(t, b, a, x == y, "updated copy")
    t.check(b.fingerprint == Left(v=y).fingerprint, "as built directly")
    st = LocalFile(path="/{name}/x")
    st.fingerprint
    p, q = t.text("p", "ab", 1, 1), t.text("q", "ab", 1, 1)
    check_iff(t, st.resolve(name=p), st.resolve(name=q), p == q, "resolved storage")
    art = Artifact(type=String(), format=JSON(), storage=LocalFile(path="/{name}/x"))
    art.fingerprint
    with Graph(name="g") as g:
        g.artifacts.a = art
        g.artifacts.b = art
    t.check(g.artifacts.a.fingerprint != g.artifacts.b.fingerprint, "in a graph")
    t.cover("done")


def collections(t):
    """Partitioning and clustering are ordered."""
    st = Struct(fields={n: Int64() for n in "abc"})
    orders = [(), ("a",), ("b",), ("a", "b"), ("b", "a"), ("a", "b", "c")]
    pa, pb = t.choice("pa", orders), t.choice("pb", orders)
    ca, cb = t.choice("ca", [(), ("c",)]), t.choice("cb", [(), ("c",)])
    t.assume("c" not in pa or not ca)
    t.assume("c" not in pb or not cb)
    na, nb = t.text("na", "ab", 1, 1), t.text("nb", "ab", 1, 1)
    a = Collection(element=st, partition_by=pa, cluster_by=ca, name=na)
    b = Collection(name=nb, cluster_by=cb, partition_by=pb, element=st)
    check_iff(t, a, b, t.both(pa == pb, ca == cb, na == nb), "collections")
    t.cover("done")


def CASES(tier):
    out = []
    for kind in arb.KINDS:
        out.append(Case(f"types:{kind}", types if tier == "thorough" else types_self, {"kind": kind},
                        "nesting 2, names of up to 2 characters, 64-bit sizes",
                        cover=("same class",) if tier == "thorough" else ("done",)))
    out.append(Case("types:classes", types_plain, {}, "every pair of classes", cover=("same", "different")))
    out.append(Case("types:struct", struct_fields, {}, "2 fields each", cover=("done",)))
    for n in (2, 3):
        hi = 2**61 - 100 if tier == "thorough" else 1000 if n == 2 else 100
        out.append(Case(f"enum:order:{n}", enum_order, {"n": n, "hi": hi}, f"{n} integer items up to {hi}", cover=("done",)))
    for fn in (storages, partitions, fields, annotations, artifacts, producers, generic, polymorphic, copies,
               collections):
        out.append(Case(fn.__name__, fn, {}, "texts of up to 2 characters, 64-bit integers", cover=("done",)))
    out.append(Case("graphs:order", graph_order, {}, "two artifacts, names of up to two levels", cover=("done",)))
    out.append(Case("graphs", graphs, {}, "names and tags of one character, two artifacts", cover=("other", "same names")))
    return out


def types_plain(t):
    """Types of any two classes with everything else fixed."""
    def make(name):
        k = t.choice(name, arb.KINDS)
        if k in arb.PLAIN:
            return k, arb.PLAIN[k]()
        if k in arb.TIMES:
            return k, arb.TIMES[k](precision="second")
        if k in arb.CONTAINERS:
            return k, arb.CONTAINERS[k](element=Int64())
        return k, {"Binary": arb.Binary(), "Geography": arb.Geography(), "Enum": Enum(type=Int64(), items=[1]),
                   "Map": arb.Map(key=Int64(), value=Int64()), "Struct": Struct(fields={"a": Int64()}),
                   "Collection": Collection(element=Struct(fields={"a": Int64()}))}[k]

    (ka, a), (kb, b) = make("a"), make("b")
    t.check(isinstance(a, Type), "a type")
    check_iff(t, a, b, ka == kb, "classes")
    t.cover("same" if ka == kb else "different")
