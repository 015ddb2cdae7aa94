"""C06: partition discovery returns exactly the stored partitions asked for."""

from __future__ import annotations

from symex.case import Case

from arti.fingerprints import Fingerprint
from arti.partitions import InputFingerprints, PartitionKey
from arti.storage.google.cloud.storage import GCSFile
from arti.storage.literal import StringLiteral
from arti.storage.local import LocalFile

from .c05_paths import FIELDS, bind
from .c05_paths import key as any_key

NUM = "017+-_ x"


def key(t, name, kinds, lo=-2, hi=10):
    return PartitionKey({
        f"k{i}": FIELDS[k][1](value=t.date(f"{name}{i}")) if k == "D" else FIELDS[k][1]() if k == "N"
        else FIELDS[k][1](value=t.int(f"{name}{i}", lo, hi)) for i, k in enumerate(kinds)})


def fingerprint(t, name, template, wide=False):
    if "{input_fingerprint}" not in template:
        return None
    hi = 2**63 - 1 if wide else 9
    return Fingerprint(t.int(name, -hi - 1, hi))


class Local:
    """A directory."""

    def __init__(self, t, literal=""):
        self.t, self.base = t, f"{t.root}/r{literal}"

    def storage(self, template, kinds):
        return bind(LocalFile(path=self.base + template), kinds)

    def put(self, rel, text):
        self.t.write(self.base + rel, text)

    def drop(self, rel):
        self.t.remove(self.base + rel)

    def rel(self, partition):
        return partition.path[len(self.base):]


class GCS:
    """A bucket."""

    def __init__(self, t, literal=""):
        self.t, self.base = t, "r" + literal

    def storage(self, template, kinds):
        return bind(GCSFile(bucket=self.t.bucket, path=self.base + template), kinds)

    def put(self, rel, text):
        self.t.gcs_write(self.base + rel, text)

    def drop(self, rel):
        self.t.gcs_remove(self.base + rel)

    def rel(self, partition):
        return partition.path[len(self.base):]


WHERE = {"local": Local, "gcs": GCS}


def stored(t, where, kinds, template, n, m, wide):
    """n stored partitions, m requested fingerprints: found are exactly those asked for."""
    w = WHERE[where](t)
    storage = w.storage(template, kinds)
    have = []
    for i in range(n):
        k, fp = key(t, f"s{i}.", kinds), fingerprint(t, f"fp{i}", template, wide and i == 0)
        for ok, ofp, _ in have:
            t.assume(t.no(t.both(t.same(k, ok), fp == ofp)))
        p = storage.generate_partition(partition_key=k, input_fingerprint=fp)
        w.put(w.rel(p), t.text(f"text{i}", "aB", 0, 1))
        have.append((k, fp, p))
    want, request = [], {}
    for j in range(m):
        k, fp = key(t, f"w{j}.", kinds), fingerprint(t, f"wfp{j}", "{input_fingerprint}", wide)
        for ok, _ in want:
            t.assume(t.no(t.same(k, ok)))
        want.append((k, fp))
        request[k] = fp
    found = storage.discover_partitions(InputFingerprints(request))
    number = 0
    for k, fp, p in have:
        if m:
            asked = t.either(False, *(t.both(t.same(k, wk), fp == wfp) if fp is not None else False for wk, wfp in want))
            if fp is None:
                asked = t.no(t.either(False, *(t.same(k, wk) for wk, _ in want)))
        else:
            asked = fp is None
        if not asked:
            t.cover("left out")
            continue
        t.cover("found")
        number += 1
        mine = [s for s in found if s.storage_partition.path == p.path]
        t.check(len(mine) == 1, "found exactly once")
        s = mine[0]
        t.check(t.same(s.partition_key, k), "its key")
        t.check(s.input_fingerprint == fp, "its fingerprint")
        t.check(s.content_fingerprint == p.compute_content_fingerprint(), "its current content")
        t.check(s.storage_partition.storage == storage, "its storage")
        t.check(t.same(s.storage_partition, p), "as generated")
    t.check(len(found) == number, "nothing else")
    if n > 1 and len(found) == n:
        a, b = found[0], found[1]
        t.check(t.iff(a.content_fingerprint == b.content_fingerprint,
                      w_read(t, w, a) == w_read(t, w, b)), "contents are told apart")


def w_read(t, w, s):
    return t.read(s.storage_partition.path) if isinstance(w, Local) else t.gcs_read(s.storage_partition.path)


def canonical(text, lo, hi):
    """The number this text denotes as storages write it, None if it denotes none, or "odd"."""
    try:
        x = int(text)
    except ValueError:
        return None
    if not (lo <= x <= hi):
        return None
    return x if str(x) == text else "odd"


def other_names(t, where, template, size):
    """Any other file name next to a partition: a partition, another spelling of one, or no value."""
    w = WHERE[where](t)
    storage = w.storage(template, "B")
    k = any_key(t, "k", "B")
    p = storage.generate_partition(partition_key=k)
    w.put(w.rel(p), "1")
    text = t.text("name", NUM, 1, size)
    other = template.replace("{k0.value}", text)
    t.assume(other != w.rel(p))
    w.put(other, "22")
    x = canonical(text, -(10**6), 10**6)
    ok, found = t.accepts(ValueError, storage.discover_partitions)
    if not ok:
        t.cover("rejected")
        t.check(x is None, "only a name that is no value is rejected")
        return
    mine = [s for s in found if s.storage_partition.path == p.path]
    t.check(len(mine) == 1, "the partition is found once")
    t.check(t.same(mine[0].partition_key, k), "its key")
    t.check(mine[0].content_fingerprint == p.compute_content_fingerprint(), "its content")
    if x is None or x == "odd":
        t.cover("odd" if x is not None else "no value")
        t.check(len(found) == 1, "other names are no partition")
    else:
        t.cover("another")
        t.check(len(found) == 2, "both are found")
        (s,) = (s for s in found if s.storage_partition.path != p.path)
        t.check(s.partition_key["k0"].value == x, "its value")
        t.check(w.rel(s.storage_partition) == other, "its path")


def other_fingerprints(t, where, size):
    """Other spellings of a fingerprint are not that fingerprint's partition."""
    template = "/{input_fingerprint}.json"
    w = WHERE[where](t)
    storage = w.storage(template, "")
    fp = Fingerprint(t.int("fp", -99, 99))
    text = t.text("name", NUM, 1, size)
    there = t.bool("there")
    p = storage.generate_partition(input_fingerprint=fp)
    if there:
        w.put(w.rel(p), "1")
        t.assume("/" + text + ".json" != w.rel(p))
    w.put("/" + text + ".json", "22")
    ok, found = t.accepts(ValueError, lambda: storage.discover_partitions(InputFingerprints({PartitionKey(): fp})))
    x = canonical(text, -999999, 999999)
    if not ok:
        t.cover("rejected")
        t.check(x is None, "only a name that is no fingerprint is rejected")
        return
    want = 1 if there else 0
    if x is not None and x != "odd" and x == fp:
        t.cover("same")
        want += 1
    t.check(len(found) == want, "exactly the fingerprint's own file")
    for s in found:
        t.check(s.storage_partition.path == p.path, "at its path")
        t.check(s.input_fingerprint == fp, "its fingerprint")
        t.check(s.content_fingerprint == p.compute_content_fingerprint(), "its content")
    t.cover("there" if there else "absent")


def elsewhere(t, where, template, kinds):
    """Files at other paths of the same directory tree are no partitions."""
    w = WHERE[where](t)
    storage = w.storage(template, kinds)
    k, fp = key(t, "k", kinds), fingerprint(t, "fp", template)
    p = storage.generate_partition(partition_key=k, input_fingerprint=fp)
    w.put(w.rel(p), "1")
    i = t.index("where", 6)
    rel = w.rel(p)
    extra = t.text("extra", "a~_", 1, 2)
    if i == 0:
        w.put(rel + extra, "22")
    elif i == 1:
        w.put("/" + extra + rel[1:], "22")
    elif i == 2:
        w.put(rel + extra + "/f.json", "22")
    elif i == 3:
        w.put("/" + extra + rel, "22")
    elif i == 4:
        w.put("/." + extra, "22")
    else:
        head, _, tail = rel.rpartition("/")
        w.put(head + "/." + extra + tail, "22")
    fps = InputFingerprints({k: fp}) if fp is not None else InputFingerprints()
    ok, found = t.accepts(ValueError, lambda: storage.discover_partitions(fps))
    if not ok:
        t.check(i in (1, 4, 5) and not (template.startswith("/k=") and i == 1), "only names in the place of a value are rejected")
        t.cover("rejected")
        return
    t.check(len(found) == 1, "found once")
    t.check(found[0].storage_partition.path == p.path, "its path")
    t.check(t.same(found[0].partition_key, k), "its key")
    t.check(found[0].input_fingerprint == fp, "its fingerprint")
    t.cover("found")


def literal_text(t, where, template, kinds, alphabet):
    """Text of the path that is special to globs or patterns only matches itself."""
    literal = t.text("literal", alphabet, 1, 2)
    w = WHERE[where](t, literal)
    storage = w.storage(template, kinds)
    k, fp = key(t, "k", kinds), fingerprint(t, "fp", template)
    p = storage.generate_partition(partition_key=k, input_fingerprint=fp)
    decoy = t.text("decoy", alphabet, 1, 1)
    t.assume(decoy != literal)
    WHERE[where](t, decoy).put(w.rel(p), "22")
    fps = InputFingerprints({k: fp}) if fp is not None else InputFingerprints()
    t.check(len(storage.discover_partitions(fps)) == 0, "nothing stored yet")
    w.put(w.rel(p), "1")
    found = storage.discover_partitions(fps)
    t.check(len(found) == 1, "found once")
    t.check(found[0].storage_partition.path == p.path, "its path")
    t.check(t.same(found[0].partition_key, k), "its key")
    t.check(found[0].input_fingerprint == fp, "its fingerprint")
    t.check(found[0].content_fingerprint == p.compute_content_fingerprint(), "its content")
    t.cover("found")


def overwritten(t, where):
    """Discovery sees the current content, and no partition that is gone."""
    w = WHERE[where](t)
    storage = w.storage("/{k0.value}.json", "B")
    ka, kb = key(t, "a", "B"), key(t, "b", "B")
    t.assume(t.no(t.same(ka, kb)))
    pa, pb = (storage.generate_partition(partition_key=k) for k in (ka, kb))
    w.put(w.rel(pa), "1")
    x, y = t.text("x", "aB", 0, 2), t.text("y", "aB", 0, 2)
    w.put(w.rel(pb), x)
    before = {s.storage_partition.path: s for s in storage.discover_partitions()}
    t.check(len(before) == 2, "both")
    w.put(w.rel(pb), y)
    w.drop(w.rel(pa))
    after = storage.discover_partitions()
    t.check(len(after) == 1, "only what is left")
    t.check(after[0].storage_partition.path == pb.path, "the one left")
    t.check(t.iff(after[0].content_fingerprint == before[pb.path].content_fingerprint, x == y), "current content")
    t.cover("done")


def literals(t):
    """A literal with a value is one partition with that value; without one there is nothing to find."""
    value = t.text("v", "a{}/", 0, 2) if t.bool("preset") else None
    fp = Fingerprint(t.int("fp", -(2**63), 2**63 - 1))
    produced = t.bool("produced")
    storage = bind(StringLiteral(id="/x/{input_fingerprint}" if produced else "/x", value=value), "")
    fps = InputFingerprints({PartitionKey(): fp}) if produced else InputFingerprints()
    ok, found = t.accepts(ValueError, lambda: storage.discover_partitions(fps))
    t.check(ok == (value is None or not produced), "a preset value cannot be produced")
    if not ok:
        t.cover("rejected")
        return
    t.check(len(found) == (0 if value is None else 1), "one partition if there is a value")
    for s in found:
        t.cover("value")
        t.check(s.storage_partition.value == value, "its value")
        t.check(s.input_fingerprint is None, "no fingerprint")
        t.check(s.content_fingerprint == s.storage_partition.compute_content_fingerprint(), "its content")
    keyed = bind(StringLiteral(id="/{k0.value}", value=value), "B")
    t.raises(ValueError, keyed.discover_partitions)


STORED = {  # kinds, template, stored, requested
    "flat": ("", "/f.json", 1, 0),
    "flat-fp": ("", "/{input_fingerprint}/f.json", 2, 1),
    "flat-fp-none": ("", "/{input_fingerprint}.json", 2, 0),
    "int": ("B", "/{k0.value}.json", 2, 0),
    "int-asked": ("B", "/k={k0.value}/f.json", 1, 1),
    "int-fp": ("B", "/{k0.value}/{input_fingerprint}/f.json", 2, 1),
    "int-fp2": ("B", "/{k0.value}/{input_fingerprint}/f.json", 1, 2),
    "hex-fp": ("B", "/{input_fingerprint}/x{k0.hex}.json", 2, 1),
    "date": ("D", "/{k0.Y}/{k0.m:02}/{k0.d:02}.json", 1, 0),
    "date-fp": ("D", "/Y={k0.Y}/m={k0.m:02}/d={k0.d:02}/{input_fingerprint}.json", 1, 1),
    "spec": ("B", "/{partition_key_spec}/{input_fingerprint}/f{extension}", 2, 1),
    "two": ("BB", "/{k0.value}/{k1.value}/f.json", 2, 0),
    "null-fp": ("N", "/{k0.value}/{input_fingerprint}", 2, 1),
}
DEEP = {
    "int3": ("B", "/{k0.value}.json", 3, 0),
    "int-fp22": ("B", "/{k0.value}/{input_fingerprint}/f.json", 2, 2),
    "int-fp31": ("B", "/{k0.value}/{input_fingerprint}/f.json", 3, 1),
    "flat-fp3": ("", "/{input_fingerprint}/f.json", 3, 1),
    "two-fp": ("BL", "/{k1.value}/{input_fingerprint}/{k0.hex}.json", 2, 1),
    "date2-fp": ("D", "/{k0.iso}/{input_fingerprint}.json", 2, 1),
}


def CASES(tier):
    out = []
    deep = tier == "thorough"
    for where in ("local", "gcs"):
        for name, (kinds, template, n, m) in ({**STORED, **DEEP} if deep else STORED).items():
            if where == "gcs" and not deep and name in ("date", "date-fp", "two", "int-fp2"):
                continue
            out.append(Case(f"stored:{where}:{name}", stored,
                            {"where": where, "kinds": kinds, "template": template, "n": n, "m": m, "wide": deep},
                            f"{n} stored and {m} requested partitions, integers -2..10, all dates,"
                            f" fingerprints {'of 64 bits' if deep else '-10..9'}, contents of up to one character",
                            cover=("left out",) if (m and ("fp" not in template)) or (not m and "fp" in name) or m else ("found",)))
        for i, template in enumerate(("/{k0.value}.json", "/{k0.value}/f.json", "/k_{k0.value}")):
            if i and not deep and where == "gcs":
                continue
            out.append(Case(f"names:{where}:{i}", other_names, {"where": where, "template": template, "size": 4 if deep else 3},
                            f"every 8-bit key, names of up to {4 if deep else 3} characters of {NUM!r}",
                            cover=("odd", "another", "rejected")))
        out.append(Case(f"fingerprints:{where}", other_fingerprints, {"where": where, "size": 3},
                        f"fingerprints -99..99, names of up to 3 characters of {NUM!r}",
                        cover=("rejected", "same", "there", "absent")))
        for i, (template, kinds) in enumerate((("/{k0.value}/f.json", "B"), ("/k={k0.value}/{input_fingerprint}.json", "B"),
                                               ("/f.json", ""))):
            out.append(Case(f"elsewhere:{where}:{i}", elsewhere, {"where": where, "template": template, "kinds": kinds},
                            "six places, names of up to 2 characters", cover=("found",)))
        # (gcsfs treats "#" and "?" in object names specially)
        alphabet = "[]*?!-^$.+(|a" if where == "local" else "[]*!-^$.+(|a"
        for i, (template, kinds) in enumerate((("/f.json", ""), ("/{k0.value}.json", "B"),
                                               ("/{k0.value}/{input_fingerprint}.json", "B"))):
            if i and not deep and where == "gcs":
                continue
            out.append(Case(f"literal:{where}:{i}", literal_text,
                            {"where": where, "template": template, "kinds": kinds, "alphabet": alphabet},
                            f"path text of up to 2 characters of {alphabet}", cover=("found",)))
        out.append(Case(f"overwritten:{where}", overwritten, {"where": where}, "contents of up to 2 characters",
                        cover=("done",)))
    out.append(Case("literals", literals, {}, "values of up to 2 characters", cover=("value", "rejected")))
    return out
