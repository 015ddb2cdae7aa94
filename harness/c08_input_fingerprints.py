"""C08: a producer's input fingerprint tracks exactly its code and input contents."""

from __future__ import annotations

from itertools import permutations
from typing import Annotated

from symex.case import Case

from arti import Annotation, Artifact, PartitionKey, Producer, StoragePartitions
from arti.fingerprints import Fingerprint
from arti.formats.json import JSON
from arti.internal.mappings import frozendict
from arti.partitions import Int64Field
from arti.producers import PartitionDependencies
from arti.storage.literal import StringLiteral, StringLiteralPartition
from arti.storage.local import LocalFile, LocalFilePartition
from arti.types import Collection, Int64, List, Struct
from arti.versions import SemVer
from arti.versions import String as StringVersion

B64 = (-(2**63), 2**63 - 1)
KEYED = Collection(element=Struct(fields={"k": Int64()}), partition_by=("k",))


class Note(Annotation):
    text: str


class Sum(Producer):
    a: Artifact
    b: Artifact

    @staticmethod
    def build(a: int, b: int) -> Annotated[int, Artifact]:
        return a + b


class Diff(Producer):
    a: Artifact
    b: Artifact

    @staticmethod
    def build(a: int, b: int) -> Annotated[int, Artifact]:
        return a - b


class Own(Producer):
    """The build of `Sum` under another name, with a version of its own."""

    a: Artifact
    b: Artifact
    version: StringVersion = StringVersion(value="v")

    build = staticmethod(Sum.build)


CLASSES = {"Sum": Sum, "Diff": Diff}


def raw(path):
    return Artifact(type=Int64(), format=JSON(), storage=LocalFile(path=path))


def stored(t, storage, path, content, key=()):
    """The snapshot of a partition with this content."""
    kw = {"partition_key": PartitionKey(key), "input_fingerprint": None}
    if storage == "literal":
        return StringLiteralPartition(id=path, value=content, storage=StringLiteral(id=path), **kw).snapshot()
    where = t.root + "/" + path
    t.write(where, content)
    return LocalFilePartition(path=where, storage=LocalFile(path=where), **kw).snapshot()


def same_bag(t, a, b):
    if len(a) != len(b):
        return False
    return t.either(*[t.both(*[x == y for x, y in zip(a, p)]) for p in permutations(b)])


def contents(t, side, sizes, hi):
    return {n: [t.text(f"{side}.{n}{i}", "01a", 1, hi) for i in range(k)] for n, k in sizes.items()}


def dependencies(t, side, storage, values):
    return {n: tuple(stored(t, storage, f"{side}/{n}/{i}", v) for i, v in enumerate(vs)) for n, vs in values.items()}


def content(t, storage, na, nb):
    """The contents per input count; where they are stored and in what order does not."""
    x = contents(t, "x", {"a": na[0], "b": na[1]}, 2)
    y = contents(t, "y", {"a": nb[0], "b": nb[1]}, 2)
    p, q = Sum(a=raw("/p"), b=raw("/q")), Sum(a=raw("/r"), b=raw("/s"))
    dx, dy = dependencies(t, "x", storage, x), dependencies(t, "y", storage, y)
    fx = p.compute_input_fingerprint(frozendict(dx))
    fy = q.compute_input_fingerprint(frozendict({"b": dy["b"], "a": dy["a"]}))
    same = t.both(same_bag(t, x["a"], y["a"]), same_bag(t, x["b"], y["b"]))
    t.check(t.implies(same, fx == fy), "the same code and contents have the same fingerprint")
    t.check(t.implies(fx == fy, same), "other contents have another fingerprint")
    t.cover("compared")


def single(t, storage):
    """A single changed, added or removed partition always shows (nothing can cancel)."""
    v, w = t.text("v", "01a", 1, 3), t.text("w", "01a", 1, 3)
    p = Sum(a=raw("/p"), b=raw("/q"))
    other = stored(t, storage, "o", "x")
    deps = lambda *a: frozendict(a=tuple(a), b=(other,))
    fv = p.compute_input_fingerprint(deps(stored(t, storage, "v", v)))
    fw = p.compute_input_fingerprint(deps(stored(t, storage, "w", w)))
    t.check(t.iff(fv == fw, v == w), "content")
    t.check(fv != p.compute_input_fingerprint(deps()), "added or removed")
    t.cover("done")


def code(t):
    """Name and version count; annotations do not."""
    na, nb = t.choice("na", list(CLASSES)), t.choice("nb", list(CLASSES))

    def version(side):
        if t.bool(f"{side}.text"):
            s = t.text(f"{side}.s", "01a.", 0, 2)
            return ("s", s), StringVersion(value=s)
        m, n = t.int(f"{side}.m", *B64), t.int(f"{side}.n", *B64)
        return ("v", m, 0 if m > 0 else n), SemVer(major=m, minor=n, patch=0)

    (da, va), (db, vb) = version("a"), version("b")
    notes = (Note(text=t.text("note", "aB", 0, 1)),) if t.bool("noted") else ()
    a = CLASSES[na](a=raw("/p"), b=raw("/q"), version=va)
    b = CLASSES[nb](a=raw("/p"), b=raw("/q"), version=vb, annotations=notes)
    x, y = (stored(t, "literal", n, n) for n in "xy")
    deps = frozendict(a=(x,), b=(y,))
    t.check(t.iff(a.compute_input_fingerprint(deps) == b.compute_input_fingerprint(deps),
                  t.both(na == nb, t.same(da, db))), "exactly the name and version")
    t.check(Own(a=raw("/p"), b=raw("/q")).compute_input_fingerprint(deps)
            != Sum(a=raw("/p"), b=raw("/q"), version=StringVersion(value="v")).compute_input_fingerprint(deps), "name")
    t.cover("done")


def names(t):
    """Dependencies name exactly the build inputs."""
    p = Sum(a=raw("/p"), b=raw("/q"))
    x = stored(t, "literal", "x", "x")
    deps = {n: (x,) for n in ("a", "b", "c", "") if t.bool(f"with {n}")}
    if t.bool("other"):
        deps[t.text("name", "abc", 1, 2)] = (x,)
    ok, _ = t.accepts(ValueError, lambda: p.compute_input_fingerprint(frozendict(deps)))
    t.check(ok == (set(deps) == {"a", "b"}), "exactly the inputs")
    t.cover("accepted" if ok else "rejected")


class Keyed(Producer):
    """Maps each partition of `a` to one of the output; `only` is used for mapping alone."""

    a: Artifact
    b: Artifact
    only: Artifact

    @staticmethod
    def map(a: StoragePartitions, b: StoragePartitions, only: StoragePartitions) -> PartitionDependencies:
        return PartitionDependencies({
            s.partition_key: frozendict(a=frozendict_tuple(s), b=b) for s in a if only
        })

    @staticmethod
    def build(a: Annotated[list[dict], KEYED], b: int) -> Annotated[list[dict], KEYED]:
        return a


def frozendict_tuple(x):
    return (x,)


def mapped(t, storage):
    """One fingerprint per partition the map names, of exactly the inputs mapped to it."""
    n = t.index("n", 3)
    keys = [t.int(f"k{i}", -99, 99) for i in range(n)]
    for i in range(n):
        for j in range(i):
            t.assume(keys[i] != keys[j])
    values = [t.text(f"v{i}", "01", 1, 1) for i in range(n)]
    b = stored(t, storage, "b", t.text("b", "aB", 1, 1))
    parts = tuple(stored(t, storage, f"a/{i}", v, {"k": Int64Field(value=k)}) for i, (k, v) in enumerate(zip(keys, values)))
    only = (b,) if t.bool("only") else ()
    p = Keyed(a=keyed("/a/{k.value}"), b=raw("/b"), only=raw("/o"))
    deps, fps = p.compute_dependencies(frozendict(a=parts, b=(b,), only=only))
    if not only:
        t.check(t.both(len(deps) == 0, len(fps) == 0), "nothing is mapped")
        t.cover("nothing")
        return
    t.check(t.both(len(deps) == n, len(fps) == n), "one each")
    for k, part in zip(keys, parts):
        key = PartitionKey(k=Int64Field(value=k))
        want = frozendict(a=(part,), b=(b,))
        t.check(t.same(dict(deps[key]), dict(want)), "the mapped inputs")
        t.check(fps[key] == p.compute_input_fingerprint(want), "their fingerprint")
    t.cover("mapped")


def keyed(path):
    return Artifact(type=KEYED, format=JSON(), storage=LocalFile(path=path))


def unmapped(t, storage):
    """Without a map, one output partition depends on all partitions of every build input."""
    x = contents(t, "x", {"a": t.index("na", 3), "b": t.index("nb", 2)}, 1)
    deps = dependencies(t, "x", storage, x)
    p = Sum(a=raw("/p"), b=raw("/q"))
    got, fps = p.compute_dependencies(frozendict(deps))
    t.check(list(got) == [PartitionKey()], "one partition")
    t.check(t.same(dict(got[PartitionKey()]), deps), "everything")
    t.check(fps[PartitionKey()] == p.compute_input_fingerprint(frozendict(deps)), "its fingerprint")
    t.cover("done")


def CASES(tier):
    out = []
    sizes = [((1, 1), (1, 1)), ((2, 1), (2, 1)), ((1, 1), (2, 0)), ((2, 0), (0, 0)), ((2, 1), (1, 0)), ((0, 1), (1, 0)), ((2, 1), (1, 1)), ((1, 2), (1, 0)), ((3, 1), (2, 1)), ((3, 0), (3, 0))]
    if tier == "thorough":
        sizes += [((2, 2), (2, 2)), ((3, 1), (3, 1)), ((3, 1), (1, 1)), ((2, 2), (1, 1)), ((3, 0), (1, 0))]
    for storage in ("literal", "local"):
        for na, nb in sizes if storage == "literal" or tier == "thorough" else [(x, y) for x, y in sizes if sum(x) + sum(y) < 6]:
            out.append(Case(f"content:{storage}:{na[0]}{na[1]}-{nb[0]}{nb[1]}", content, {"storage": storage, "na": na, "nb": nb},
                            f"{na} against {nb} partitions of two inputs, contents of up to 2 characters", cover=("compared",)))
        out.append(Case(f"single:{storage}", single, {"storage": storage}, "contents of up to 3 characters", cover=("done",)))
        out.append(Case(f"mapped:{storage}", mapped, {"storage": storage}, "up to 2 partitions, keys -99 to 99",
                        cover=("mapped", "nothing")))
        out.append(Case(f"unmapped:{storage}", unmapped, {"storage": storage}, "up to 2 and 1 partitions", cover=("done",)))
    out.append(Case("code", code, {}, "two names, 64-bit and text versions", cover=("done",)))
    out.append(Case("names", names, {}, "all sets of four names and one other", cover=("accepted", "rejected")))
    return out
