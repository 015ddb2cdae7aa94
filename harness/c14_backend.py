"""C14: the backend returns exactly what was recorded for each key."""

from __future__ import annotations

import copy
from typing import Annotated

from symex.case import Case

from arti import Artifact, Fingerprint, Graph, GraphSnapshot, InputFingerprints, PartitionKey, producer
from arti.backends.memory import MemoryBackend
from arti.formats.json import JSON
from arti.partitions import Int64Field
from arti.storage import StoragePartitionSnapshot
from arti.storage.local import LocalFile
from arti.types import Collection, Int64, Struct

KEYED = Collection(element=Struct(fields={"k": Int64()}), partition_by=("k",))


def make_graph(t, n, backend=None):
    """A graph of arbitrary name and content."""
    with Graph(name=t.text(f"graph {n}", "aA", 1, 1), backend=backend or MemoryBackend()) as g:
        g.artifacts.a = Artifact(type=Int64(), format=JSON(), storage=LocalFile(path="/" + t.text(f"path {n}", "xX", 1, 1)))
    return g


def make_snapshot(t, n, graph):
    return GraphSnapshot(graph=graph, id=Fingerprint.from_int(t.int(f"id {n}", 0, 3)))


def again(t, what):
    """The same graph or snapshot, of another backend: the one recorded last is the one read."""
    backend = MemoryBackend()
    first, other = [make_graph(t, n, MemoryBackend()) for n in range(2)]
    with Graph(name=first.name, backend=MemoryBackend()) as last:
        last.artifacts.a = Artifact(type=Int64(), format=JSON(), storage=LocalFile(path=first.artifacts.a.storage.path))
    write, read = ("write_graph", "read_graph") if what == "graph" else ("write_snapshot", "read_snapshot")
    if what == "snapshot":
        first, other = [make_snapshot(t, n, g) for n, g in enumerate((first, other))]
        last = GraphSnapshot(graph=last, id=first.id)
    order = t.choice("order", [(first, last), (first, other, last), (other, first, last), (first, last, other), (last, first, last)])
    for step, x in enumerate(order):
        getattr(connected(t, backend, step), write)(x)
    got = getattr(connected(t, backend, 1), read)(first.name, first.fingerprint)
    same = equal_graphs(t, first, other) if what == "graph" else equal_snapshots(t, first, other)
    want = other if order[-1] is other and bool(same) else last
    t.check(got.backend is want.backend, "the one recorded last")
    t.cover("read")


def equal_graphs(t, a, b):
    return t.both(t.same(a.name, b.name), t.same(a.artifacts.a.storage.path, b.artifacts.a.storage.path))


def equal_snapshots(t, a, b):
    return t.both(equal_graphs(t, a.graph, b.graph), t.same(a.id, b.id))


def connected(t, backend, step):
    """However one gets at the backend, it is the same one."""
    how = step % 3
    if how == 0:
        with backend.connect() as conn:
            return conn
    if how == 1:
        with backend.connect() as conn, conn.connect() as again:
            return again
    with copy.deepcopy(backend).connect() as conn:
        return conn


def graphs(t, n):
    """write_graph / write_snapshot, read under every name and fingerprint."""
    backend = MemoryBackend()
    made = [make_graph(t, i) for i in range(n)]
    snaps = [make_snapshot(t, i, g) for i, g in enumerate(made)]
    kept, kept_snaps = [], []
    conn = connected(t, backend, 0)
    for i in range(n):
        if t.bool(f"write graph {i}"):
            conn.write_graph(made[i])
            kept.append(made[i])
        if t.bool(f"write snapshot {i}"):
            conn.write_snapshot(snaps[i])
            kept_snaps.append(snaps[i])
    conn = connected(t, backend, 1)
    for i, g in enumerate(made):
        known = any(bool(equal_graphs(t, g, k)) for k in kept)
        ok, got = t.accepts(LookupError, conn.read_graph, g.name, g.fingerprint)
        t.check(ok == known, "exactly the graphs written are known")
        t.check(not ok or equal_graphs(t, got, g), "and read as written")
        s = snaps[i]
        known = any(bool(equal_snapshots(t, s, k)) for k in kept_snaps)
        ok, got = t.accepts(LookupError, conn.read_snapshot, s.name, s.fingerprint)
        t.check(ok == known, "exactly the snapshots written are known")
        t.check(not ok or equal_snapshots(t, got, s), "and read as written")
        # A graph of another name does not answer.
        for other in made:
            if not bool(t.same(other.name, g.name)):
                t.check(not t.accepts(LookupError, conn.read_graph, other.name, g.fingerprint)[0], "names are apart")
    t.cover("read")


def tags(t, n, api):
    """Any sequence of taggings."""
    backend = MemoryBackend()
    g = make_graph(t, 0, backend)
    h = make_graph(t, 1, backend)
    snaps = [make_snapshot(t, 0, g), make_snapshot(t, 1, g), make_snapshot(t, 2, h)]
    model = []  # (graph name, tag, snapshot)

    def find(name, tag):
        for entry in model:
            if bool(t.both(t.same(entry[0], name), t.same(entry[1], tag))):
                return entry
        return None

    def read(name, tag, step=1):
        if api:
            return t.accepts(ValueError, GraphSnapshot.from_tag, name, tag, connectable=backend)
        return t.accepts(ValueError, connected(t, backend, step).read_snapshot_tag, name, tag)

    for i in range(n):
        s = t.choice(f"snapshot {i}", snaps)
        tag = t.text(f"tag {i}", "uU", 1, 1)
        if not i:
            t.check(not read(s.name, tag)[0], "an unknown tag is an error")
        overwrite = t.bool(f"overwrite {i}")
        if api:
            ok, _ = t.accepts(ValueError, s.tag, tag, **(dict(overwrite=overwrite) if overwrite or i % 2 else {}))
        else:
            ok, _ = t.accepts(ValueError, connected(t, backend, i).write_snapshot_tag, s, tag, *((overwrite,) if overwrite or not i % 2 else ()))
        entry = find(s.name, tag)
        t.check(ok == (entry is None or overwrite), "a tag is only moved when asked to overwrite")
        if ok:
            if entry is not None:
                model.remove(entry)
                t.cover("moved")
            model.append((s.name, tag, s))
        else:
            t.cover("refused")
    for name in (g.name, h.name):
        for tag in "uU":
            entry = find(name, tag)
            ok, got = read(name, tag, 2)
            t.check(ok == (entry is not None), "exactly the tags given are known")
            if ok:
                t.check(equal_snapshots(t, got, entry[2]), "and read the snapshot last tagged")


def part(t, n, storage, keyed, raw=False):
    """An arbitrary stored partition."""
    key = PartitionKey(k=Int64Field(value=t.int(f"key {n}", 1, 2))) if keyed else PartitionKey()
    fp = None if raw else Fingerprint.from_int(t.int(f"input {n}", 5, 7))
    return StoragePartitionSnapshot(
        content_fingerprint=Fingerprint.from_string("c" + t.text(f"content {n}", "01", 1, 1)),
        storage_partition=storage.generate_partition(input_fingerprint=fp, partition_key=key))


def facts(p):
    return [p.content_fingerprint, p.input_fingerprint, p.storage_partition.path,
            [v.value for v in p.partition_key.values()]]


def holds_exactly(t, got, want, msg):
    """As sets."""
    for p in got:
        t.check(t.either(*[t.same(facts(p), facts(q)) for q in want]), f"{msg}: nothing else")
    for q in want:
        t.check(t.either(*[t.same(facts(p), facts(q)) for p in got]), f"{msg}: all of it")
    for i, p in enumerate(got):
        for q in got[:i]:
            t.check(t.no(t.same(facts(p), facts(q))), f"{msg}: once")


def record(t, entries, entry):
    """A produced partition that is written again replaces the one of its key and input fingerprint."""
    *where, p = entry
    if p.input_fingerprint is not None:
        entries[:] = [e for e in entries if not bool(t.both(
            t.same(facts(e[-1])[1:], facts(p)[1:]),
            *[equal_snapshots(t, x, y) if isinstance(x, GraphSnapshot) else t.same(x, y) for x, y in zip(e, where)]))]
    entries.append(entry)


def partitions(t, n, keyed, what, raw=False):
    """Any sequence of recorded partitions, by storage and by snapshot and artifact key."""
    backend = MemoryBackend()
    tail = "/".join(["{k.value}"] * keyed + ["{input_fingerprint}"] * (not raw)) or "value"
    stores = [LocalFile(path=f"{t.root}/{t.text(f'store {i}', 'xy', 1, 1)}/" + tail) for i in range(2)]
    arts = [Artifact(type=KEYED if keyed else Int64(), format=JSON(), storage=s)
            for s in stores]
    graph = make_graph(t, 0, backend)
    snaps = [make_snapshot(t, i, graph) for i in range(2)]
    by_store, by_key = [], []
    for i in range(n):
        at = t.index(f"artifact {i}", 2) if what != "snapshots" else 0
        p = part(t, i, arts[at].storage, keyed, raw)
        if what == "storage":
            s, key, how = snaps[0], "a", t.choice(f"write {i}", (0, 2))
        else:
            s, key = t.choice(f"snapshot {i}", snaps), t.text(f"name {i}", "aA", 1, 1)
            how = t.index(f"write {i}", 3) if what == "both" else t.choice(f"write {i}", (1, 2))
        conn = connected(t, backend, i)
        if how == 0:
            conn.write_artifact_partitions(arts[at], (p,))
        elif how == 1:
            conn.write_snapshot_partitions(s, key, arts[at], (p,))
        else:
            conn.write_artifact_and_graph_partitions(s, key, arts[at], (p,))
        if how != 1:
            record(t, by_store, (arts[at].storage.path, p))
        if how != 0:
            record(t, by_key, (s, key, p))
    for i, a in enumerate(arts if what != "snapshots" else ()):
        want = [p for path, p in by_store if bool(t.same(path, a.storage.path))]
        holds_exactly(t, conn.read_artifact_partitions(a), want, "all partitions of a storage")
        asked = {PartitionKey(k=Int64Field(value=k)) if keyed else PartitionKey(): t.int(f"asked {i} {k}", 5, 7)
                 for k in ((1, 2)[:1 if n > 1 else 2] if keyed else (0,))}
        fps = InputFingerprints({k: None if raw and k and t.bool(f"none asked {i}") else Fingerprint.from_int(v) for k, v in asked.items()})
        got = conn.read_artifact_partitions(a, fps)
        hits = []
        for p in want:  # a raw partition has no fingerprint: it is left out if one is asked for its key
            given = [fp for k, fp in fps.items() if bool(t.same([v.value for v in k.values()], facts(p)[3]))]
            if bool(t.same(given[0] if given else None, p.input_fingerprint)):
                hits.append(p)
        holds_exactly(t, got, hits, "those with the requested input fingerprints")
        holds_exactly(t, conn.read_artifact_partitions(a), want, "unchanged by reading")
    for s in snaps if what != "storage" else ():
        for key in "aA":
            want = [p for q, k, p in by_key if bool(t.both(equal_snapshots(t, q, s), t.same(k, key)))]
            holds_exactly(t, conn.read_snapshot_partitions(s, key, arts[0]), want, "the partitions of a snapshot's artifact")
    t.cover("read")


@producer()
def copied(a: Annotated[int, Int64()]) -> Annotated[int, Int64()]:
    return a


def through(t, n):
    """What is done through a given connection is recorded in, and read from, that one alone."""
    own, given = MemoryBackend(), MemoryBackend()
    with Graph(name="g", backend=own) as g:
        g.artifacts.a = Artifact(type=Int64(), format=JSON(), storage=LocalFile(path=t.root + "/a.json"))
        g.artifacts.b = copied(a=g.artifacts.a).out(
            Artifact(type=Int64(), format=JSON(), storage=LocalFile(path=t.root + "/b/{input_fingerprint}.json")))
    a, b = g.artifacts.a, g.artifacts.b
    value = t.int("value", 0, 1 << 60)
    t.write(t.root + "/a.json", "7")
    known = {0: dict(snapshot=False, tags=[], written={}, of_snapshot={}), 1: dict(snapshot=False, tags=[], written={}, of_snapshot={})}
    with given.connect() as conn:
        w = t.index("snapshot through", 2)
        s = g.snapshot(connection=conn if w else None)
        known[w]["snapshot"] = True
        for i in range(n):
            op, w = t.choice(f"op {i}", ("snapshot", "tag", "write", "write plain", "write raw", "read", "read plain")), t.index(f"through {i}", 2)
            k, c = known[w], conn if w else None
            fp = Fingerprint.from_int(5 + i)
            if op == "snapshot":
                t.check(t.same(g.snapshot(connection=c).id, s.id), "the same snapshot through any connection")
                k["snapshot"] = True
            elif op == "tag":
                tag = t.text(f"tag {i}", "uU", 1, 1)
                taken = t.either(False, *[t.same(x, tag) for x in k["tags"]])
                ok, _ = t.accepts(ValueError, s.tag, tag, connection=c)
                t.check(t.iff(ok, t.no(taken)), "a tag is taken by those of the same backend only")
                if ok:
                    k["tags"].append(tag)
            elif op == "write raw":
                g.write(7, artifact=a, connection=c)
            elif op in ("write", "write plain"):
                (s if op == "write" else g).write(value + i, artifact=b, input_fingerprint=fp, connection=c)
                k["written"][i] = value + i
                if op == "write":
                    k["of_snapshot"][i] = value + i
            else:
                if op == "read plain":
                    k["snapshot"] = True
                want = k["of_snapshot"]
                if len(want) == 1:
                    got = (s if op == "read" else g).read(b, annotation=int, connection=c)
                    t.check(t.same(got, *want.values()), "what was written through the same connection")
                    t.cover("read")
                else:
                    ok, _ = t.accepts(Exception, (s if op == "read" else g).read, b, annotation=int, connection=c)
                    t.check(not ok, "nothing, or several, cannot be read as one")
    for backend, k in ((own, known[0]), (given, known[1])):
        with backend.connect() as conn:
            ok, got = t.accepts(LookupError, conn.read_snapshot, s.name, s.fingerprint)
            t.check(ok == k["snapshot"], "the snapshot is known where it was made")
            t.check(t.accepts(LookupError, conn.read_graph, g.name, g.fingerprint)[0] == k["snapshot"], "and its graph")
            for tag in "uU":
                ok, got = t.accepts(ValueError, GraphSnapshot.from_tag, "g", tag, connectable=conn)
                t.check(t.iff(ok, t.either(False, *[t.same(x, tag) for x in k["tags"]])), "tags are where they were given")
            t.check(len(conn.read_snapshot_partitions(s, "a", a)) == k["snapshot"], "so is the raw data of the snapshot")
            for got, want in ((conn.read_snapshot_partitions(s, "b", b), k["of_snapshot"]), (conn.read_artifact_partitions(b), k["written"])):
                got = {int(p.input_fingerprint) - 5 for p in got}
                t.check(got == set(want), "written partitions are recorded where they were written")
    t.cover("recorded")


def stored_outside(t, keyed, first):
    """Partitions in storage that were never recorded are found, whatever was recorded or read before."""
    backend = MemoryBackend()
    tail = "{k.value}/{input_fingerprint}" if keyed else "{input_fingerprint}"
    a = Artifact(type=KEYED if keyed else Int64(), format=JSON(), storage=LocalFile(path=t.root + "/s/" + tail))
    keys = (1, 2) if keyed else (0,)
    pk = {k: PartitionKey(k=Int64Field(value=k)) if keyed else PartitionKey() for k in keys}
    there, known = {}, None
    for k in keys:
        for f in (5, 6):
            if t.bool(f"file {k} {f}"):
                p = a.storage.generate_partition(input_fingerprint=Fingerprint.from_int(f), partition_key=pk[k])
                t.write(p.path, "1")
                there[k, f] = p.snapshot()
    with backend.connect() as conn:
        if first == "write":
            known = part(t, "w", a.storage, keyed)
            conn.write_artifact_partitions(a, (known,))
        elif first == "read":
            conn.read_artifact_partitions(a, InputFingerprints({pk[keys[0]]: Fingerprint.from_int(5)}))
        asked = {k: t.int(f"asked {k}", 5, 6) for k in keys if t.bool(f"ask {k}")}
        if not asked:
            return
        got = conn.read_artifact_partitions(a, InputFingerprints({pk[k]: Fingerprint.from_int(v) for k, v in asked.items()}))
        for k, f in there:
            want = k in asked and bool(asked[k] == f)
            if known is not None and bool(t.same(facts(known)[1:], facts(there[k, f])[1:])):
                continue  # recorded already, maybe of other content
            hit = t.either(*[t.same(facts(p), facts(there[k, f])) for p in got])
            t.check(t.iff(hit, want), "exactly the stored partitions asked for")
        if known is None:
            t.check(len(got) == sum([1 for k, f in there if k in asked and bool(asked[k] == f)]), "nothing else")
        t.cover("asked")


def CASES(tier):
    quick = tier == "quick"
    for n in (2,) if quick else (2, 3):
        yield Case(f"graphs:{n}", graphs, dict(n=n), bounds=f"{n} graphs and snapshots of any name, content and id, any of them written",
                   cover=("read",), budget_s=240 if quick else 600)
    for what in ("graph", "snapshot"):
        yield Case(f"again:{what}", again, dict(what=what), bounds=f"any {what} written up to three times, of any backend",
                   cover=("read",))
    for api in (True, False):
        for n in (2,) if quick else (2, 3):
            yield Case(f"tags:{'api' if api else 'connection'}:{n}", tags, dict(n=n, api=api),
                       bounds=f"any {n} taggings of three snapshots of two graphs, any names and tags",
                       cover=("moved", "refused"), budget_s=240 if quick else 900)
    n = 2 if quick else 3
    yield Case(f"through:{n}", through, dict(n=n), bounds=f"any {n} snapshots, tags, reads and writes, each through either of two backends, after a first snapshot",
               cover=("read", "recorded"), budget_s=240 if quick else 900)
    for keyed in (False, True):
        sizes = [(1, "both"), (2, "storage"), (2, "snapshots")]
        for n, what in sizes if quick else [*sizes, (2, "both"), (3, "storage"), (3, "snapshots")]:
            yield Case(f"partitions:{'keyed' if keyed else 'plain'}:{what}:{n}", partitions, dict(n=n, keyed=keyed, what=what),
                       bounds=f"any {n} writes of partitions to two storages, two snapshots and two keys, any fingerprints, then every read",
                       cover=("read",), budget_s=300 if quick else 1200)
        for what in ("storage", "snapshots"):
            yield Case(f"partitions:{'keyed' if keyed else 'plain'}:raw:{what}", partitions, dict(n=2, keyed=keyed, what=what, raw=True),
                       bounds="any 2 writes of raw partitions to two storages, two snapshots and two keys, then every read",
                       cover=("read",), budget_s=300 if quick else 1200)
        for first in ("", "write", "read"):
            yield Case(f"found:{'keyed' if keyed else 'plain'}:{first or 'new'}", stored_outside, dict(keyed=keyed, first=first),
                       bounds="any of two stored files per key, any requested fingerprints" + (f", after another {first}" if first else ""),
                       cover=("asked",))
