"""C05: storage paths encode partition key and input fingerprint without loss."""

from __future__ import annotations

from symex.case import Case

from arti import Artifact
from arti.fingerprints import Fingerprint
from arti.formats.json import JSON
from arti.partitions import (
    DateField,
    InputFingerprints,
    Int8Field,
    Int32Field,
    Int64Field,
    NullField,
    PartitionKey,
)
from arti.storage.google.cloud.storage import GCSFile
from arti.storage.literal import StringLiteral
from arti.storage.local import LocalFile
from arti.types import Collection, Date, Int8, Int32, Int64, Null, String, Struct

FIELDS = {"D": (Date(), DateField), "B": (Int8(), Int8Field), "W": (Int32(), Int32Field),
          "L": (Int64(), Int64Field), "N": (Null(), NullField)}

# (kinds of the partition fields k0, k1, ...; template)
LAYOUTS = {
    "flat": ("", "/f.json"),
    "flat-fp": ("", "/{input_fingerprint}/f.json"),
    "flat-fp-name": ("", "/f_{input_fingerprint}.json"),
    "int": ("L", "/{k0.value}/f.json"),
    "int-fp": ("L", "/{k0.value}/{input_fingerprint}.json"),
    "int-fp-first": ("W", "/{input_fingerprint}/i={k0.value}.json"),
    "hex-fp": ("L", "/x{k0.hex}/{input_fingerprint}/f.json"),
    "pad": ("B", "/{k0.value:04}/f.json"),
    "date": ("D", "/{k0.Y}/{k0.m}/{k0.d}/f.json"),
    "date-pad-fp": ("D", "/Y={k0.Y}/m={k0.m:02}/d={k0.d:02}/{input_fingerprint}/f.json"),
    "date-order": ("D", "/{k0.d:02}.{k0.m:02}.{k0.Y:04}_{input_fingerprint}"),
    "iso-fp": ("D", "/{k0.iso}/{input_fingerprint}/f.json"),
    "date-value": ("D", "/{k0.value}/f.json"),
    "null-fp": ("N", "/{k0.value}/{input_fingerprint}/f.json"),
    "int-int": ("LL", "/{k0.value}/{k1.value}.json"),
    "int-int-name": ("BB", "/{k0.value}_{k1.value}.json"),
    "int-int-swapped": ("LL", "/{k1.value}/{k0.hex}/{input_fingerprint}.json"),
    "date-int-fp": ("DL", "/{k0.iso}/{k1.value}/{input_fingerprint}/f.json"),
    "spec": ("DL", "/{partition_key_spec}/{input_fingerprint}/f.json"),
    "spec-nofp": ("LDN", "/{partition_key_spec}/f{extension}"),
    "twice": ("L", "/{k0.value}/{k0.value}/f.json"),
}


def collection(kinds):
    fields = {"payload": String()}
    for i, k in enumerate(kinds):
        fields[f"k{i}"] = FIELDS[k][0]
    return Collection(element=Struct(fields=fields),
                      partition_by=tuple(f"k{i}" for i in range(len(kinds))))


def bind(storage, kinds):
    """The storage as an artifact of that type gets it."""
    return Artifact(type=collection(kinds), format=JSON(), storage=storage).storage


def value(t, name, kind, wide=True):
    cls = FIELDS[kind][1]
    if kind == "D":
        return cls(value=t.date(name))
    if kind == "N":
        return cls()
    bits = {"B": 8, "W": 32, "L": 64}[kind]
    if not wide:
        return cls(value=t.int(name, -12, 12))
    return cls(value=t.int(name, -(2 ** (bits - 1)), 2 ** (bits - 1) - 1))


def key(t, name, kinds, wide=True):
    return PartitionKey({f"k{i}": value(t, f"{name}{i}", k, wide) for i, k in enumerate(kinds)})


def fingerprint(t, name, template):
    if "{input_fingerprint}" not in template:
        return None
    return Fingerprint(t.int(name, -(2**63), 2**63 - 1))


def round_trip(t, kinds, template, gcs=False):
    """The generated path is found again, with exactly its key and fingerprint."""
    literal = t.text("literal", "aZ-_.=+0 ", 0, 2)
    storage = (GCSFile(bucket=t.bucket, path="r" + literal + template) if gcs else LocalFile(path=t.root + "/r" + literal + template))
    storage = bind(storage, kinds)
    k, fp = key(t, "k", kinds), fingerprint(t, "fp", template)
    p = storage.generate_partition(input_fingerprint=fp, partition_key=k)
    t.check(t.same(p.partition_key, k), "the partition has the key")
    t.check(p.input_fingerprint == fp, "the partition has the fingerprint")
    (t.gcs_write if gcs else t.write)(p.path, "[]")
    fps = InputFingerprints({k: fp}) if fp is not None else InputFingerprints()
    found = storage.discover_partitions(fps)
    t.check(len(found) == 1, "found exactly once")
    (s,) = found
    t.check(t.same(s.partition_key, k), "parses back to the key")
    t.check(s.input_fingerprint == fp, "parses back to the fingerprint")
    t.check(s.storage_partition.path == p.path, "at the same path")
    t.cover("found")


MAKE = {
    "local": lambda s: LocalFile(path="/root" + s),
    "gcs": lambda s: GCSFile(bucket="b", path="root" + s),
    "literal": lambda s: StringLiteral(id="root" + s),
}


def distinct(t, kinds, template, storage_class):
    """Two partitions that differ in key or fingerprint never share a path."""
    make = MAKE[storage_class]
    storage = bind(make(template), kinds)
    ka, kb = key(t, "a", kinds), key(t, "b", kinds)
    fa, fb = fingerprint(t, "fa", template), fingerprint(t, "fb", template)
    pa = storage.generate_partition(input_fingerprint=fa, partition_key=ka)
    pb = storage.generate_partition(input_fingerprint=fb, partition_key=kb)
    text = (lambda p: p.id) if storage_class == "literal" else (lambda p: p.path)
    same = t.both(t.same(ka, kb), True if fa is None else fa == fb)
    t.check(t.iff(text(pa) == text(pb), same), "paths are equal exactly when key and fingerprint are")
    t.cover("compared")


HARD = {
    "year": ("D", "/{k0.Y[2021]}/{k0.m:02}/{k0.d:02}/f.json", {"k0.y": 2021}),
    "month": ("D", "/{k0.Y}/{k0.m[5]:02}/{k0.d:02}/{input_fingerprint}", {"k0.m": 5}),
    "year-month": ("D", "/{k0.Y[1999]}-{k0.m[12]}-{k0.d}/{input_fingerprint}/f.json", {"k0.y": 1999, "k0.m": 12}),
    "iso": ("DL", "/{k0.iso[2020-02-29]}/{k1.value}/f.json", {"k0.y": 2020, "k0.m": 2, "k0.d": 29}),
    "value": ("LL", "/{k0.value[7]}/{k1.value}/{input_fingerprint}.json", {"k0": 7}),
    "negative": ("LL", "/{k0.value[-7]}/{k1.value}/f.json", {"k0": -7}),
    "hex": ("LL", "/{k0.hex[0x1f]}/{k1.hex}/{input_fingerprint}/f.json", {"k0": 31}),
}


def hard_coded(t, kinds, template, fixed):
    """Hard-coded component values select exactly the partitions that have them."""
    from datetime import date

    values = {}
    for i, kind in enumerate(kinds):
        n = f"k{i}"
        if kind == "D":
            d = t.date(n)
            for part in "ymd":
                if f"{n}.{part}" in fixed:
                    attr = {"y": "year", "m": "month", "d": "day"}[part]
                    t.assume(getattr(d, attr) == fixed[f"{n}.{part}"])
            values[n] = DateField(value=d)
        else:
            values[n] = Int64Field(value=fixed[n]) if n in fixed else value(t, n, kind)
    k, fp = PartitionKey(values), fingerprint(t, "fp", template)
    storage = bind(LocalFile(path=t.root + template), kinds)
    p = storage.generate_partition(input_fingerprint=fp, partition_key=k)
    t.write(p.path, "[]")
    fps = InputFingerprints({k: fp}) if fp is not None else InputFingerprints()
    found = storage.discover_partitions(fps)
    t.check(len(found) == 1, "found exactly once")
    t.check(t.same(found[0].partition_key, k), "parses back to the key")
    t.check(found[0].input_fingerprint == fp, "parses back to the fingerprint")
    t.cover("found")
    assert date


def hard_coded_other(t):
    """Partitions with another value of a hard-coded component are not part of the storage."""
    storage = bind(LocalFile(path=t.root + "/{k0.value[7]}/{k1.value}.json"), "LL")
    a, b = t.int("a", -20, 99), t.int("b", -20, 99)
    t.write(f"{t.root}/{a}/{b}.json", "[]")
    found = storage.discover_partitions()
    t.check(t.iff(len(found) == 1, a == 7), "only the hard-coded value is found")
    if found:
        t.cover("seven")
        t.check(t.same(found[0].partition_key,
                       PartitionKey(k0=Int64Field(value=7), k1=Int64Field(value=b))), "key")
    else:
        t.cover("other")


def required(t, storage_class):
    """A key exactly when partitioned, a fingerprint exactly when the template asks for one."""
    partitioned, templated = t.bool("partitioned"), t.bool("templated")
    give_key, give_fp = t.bool("give_key"), t.bool("give_fp")
    path = "/a" + ("/{k0.value}" if partitioned else "") + ("/{input_fingerprint}" if templated else "")
    storage = bind(MAKE[storage_class](path), "L" if partitioned else "")
    kwargs = {}
    if give_key:
        kwargs["partition_key"] = PartitionKey(k0=Int64Field(value=t.int("k", -(2**63), 2**63 - 1)))
    if give_fp:
        kwargs["input_fingerprint"] = Fingerprint(t.int("fp", -(2**63), 2**63 - 1))
    ok, p = t.accepts(ValueError, lambda: storage.generate_partition(**kwargs))
    t.check(ok == (partitioned == give_key and templated == give_fp), "rejected otherwise")
    if ok:
        t.cover("accepted")
        t.check(p.storage == storage, "the partition names its storage")


def CASES(tier):
    out = []
    for name, (kinds, template) in LAYOUTS.items():
        out.append(Case(f"trip:{name}", round_trip, {"kinds": kinds, "template": template},
                        "every key and fingerprint; 0-2 arbitrary literal characters over aZ-_.=+0 and space",
                        cover=("found",), max_paths=4000))
        if tier == "thorough" or name == "flat-fp":
            out.append(Case(f"trip:gcs:{name}", round_trip, {"kinds": kinds, "template": template, "gcs": True},
                            "every key and fingerprint; 0-2 arbitrary literal characters over aZ-_.=+0 and space",
                            cover=("found",), max_paths=4000))
        for sc in MAKE if tier == "thorough" else ("local", "gcs") if name in ("flat-fp", "date-int-fp") else ("local",):
            out.append(Case(f"distinct:{sc}:{name}", distinct,
                            {"kinds": kinds, "template": template, "storage_class": sc},
                            "every pair of keys and fingerprints", cover=("compared",), max_paths=4000))
    for name, (kinds, template, fixed) in HARD.items():
        out.append(Case(f"hard:{name}", hard_coded, {"kinds": kinds, "template": template, "fixed": fixed},
                        "every key with the hard-coded values", cover=("found",)))
    out.append(Case("hard:other", hard_coded_other, {}, "component values -20..99", cover=("seven", "other")))
    for sc in MAKE:
        out.append(Case(f"required:{sc}", required, {"storage_class": sc}, "all 16 combinations, every value",
                        cover=("accepted",)))
    return out
