"""C20: BigQuery schemas preserve Artigraph types."""

from __future__ import annotations

import copy
import warnings

from google.cloud import bigquery
from google.cloud.bigquery import SchemaField
from symex.case import Case

from arti.types import (
    Binary, Boolean, Collection, Date, DateTime, Enum, Float16, Float32, Float64, Geography, Int8,
    Int16, Int32, Int64, List, Map, Null, Set, String, Struct, Time, Timestamp, UInt8, UInt64,
)
from arti.types.bigquery import BIGQUERY_HINT_FIELD_NAME, bigquery_type_system as system

warnings.simplefilter("ignore")

NAMES = "aBc_"
PRECISIONS = ("second", "millisecond", "microsecond", "nanosecond")
SCALARS = (
    (Binary, "BYTES", Binary), (Boolean, "BOOLEAN", Boolean), (Date, "DATE", Date), (Geography, "GEOGRAPHY", Geography),
    (String, "STRING", String), (Int8, "INTEGER", Int64), (Int16, "INTEGER", Int64), (Int32, "INTEGER", Int64),
    (Int64, "INTEGER", Int64), (Float16, "FLOAT", Float64), (Float32, "FLOAT", Float64), (Float64, "FLOAT", Float64),
)
TIMES = ((DateTime, "DATETIME"), (Time, "TIME"), (Timestamp, "TIMESTAMP"))


def distinct(t, name, n, hi=2):
    out = []
    for i in range(n):
        k = t.text(f"{name}.k{i}", NAMES, 1, hi)
        for other in out:
            t.assume(k != other)
        out.append(k)
    return out


def flags(t, name, full):
    """Nullability and description."""
    out = {"nullable": t.bool(f"{name}.nullable")}
    if full and t.bool(f"{name}.described"):
        out["description"] = t.text(f"{name}.description", NAMES, 0, 2)
    return out


def field(name, sql, f, **kw):
    if "description" in f:
        kw["description"] = f["description"]
    return SchemaField(name, sql, mode="NULLABLE" if f["nullable"] else "REQUIRED", **kw)


def tree(t, name, kind, depth, as_, lean):
    """(type, its field named `as_`, the type of that), of any content."""
    if kind == "plain":
        f = flags(t, name, not lean)
        cls, sql, back = t.choice(f"{name}.is", [s for s in SCALARS if not lean or s[0] in (Int32, String)])
        return cls(**f), field(as_, sql, f), back(**f)
    if kind == "time":
        f = flags(t, name, not lean)
        cls, sql = t.choice(f"{name}.is", TIMES)
        return cls(precision=t.choice(f"{name}.precision", PRECISIONS), **f), field(as_, sql, f), cls(precision="microsecond", **f)
    inner = ("plain", "time") if depth <= 1 else ("plain", "struct") if kind == "list" else ("plain", "struct", "list")
    if kind == "list":
        # Neither arrays nor what is in them can be nullable, and the description is the array's.
        f = flags(t, name, True)
        e, ef, eb = tree(t, f"{name}.e", inner[t.index(f"{name}.e.kind", len(inner))], depth - 1, as_, True)
        described = {"description": f["description"]} if "description" in f else {}
        made = SchemaField(as_, ef.field_type, mode="REPEATED", fields=ef.fields, **described)
        return List(element=e, **f), made, List(element=eb.model_copy(update={"nullable": False}), **described)
    if kind == "struct":
        f = flags(t, name, not lean)
        ks = ["b", "a"] if lean else distinct(t, name, 2)
        first = tree(t, f"{name}.0", inner[t.index(f"{name}.0.kind", len(inner))], depth - 1, ks[0], True)
        second = String(nullable=True, description="d"), SchemaField(ks[1], "STRING", description="d"), String(nullable=True, description="d")
        parts = [first, second]
        return (Struct(fields={k: p[0] for k, p in zip(ks, parts)}, **f), field(as_, "RECORD", f, fields=[p[1] for p in parts]),
                Struct(fields={k: p[2] for k, p in zip(ks, parts)}, **f))
    raise AssertionError(kind)


def ordered(type_):
    """The fields of every struct, in order (equal structs may order them differently)."""
    if isinstance(type_, Struct):
        return [(k, ordered(v)) for k, v in type_.fields.items()]
    return [ordered(type_.element)] if isinstance(type_, List) else []


def same_order(a, b):
    return len(a) == len(b) and all([
        bool(x[0] == y[0]) and same_order(x[1], y[1]) if isinstance(x, tuple) else same_order(x, y) for x, y in zip(a, b)])


def like(a, b):
    """Fields (and those below) are the same."""
    return (bool(a.name == b.name) and a.field_type == b.field_type and a.mode == b.mode and same_text(a.description, b.description)
            and a.is_nullable == b.is_nullable and len(a.fields) == len(b.fields) and all([like(x, y) for x, y in zip(a.fields, b.fields)]))


def same_text(a, b):
    return a is b if a is None or b is None else bool(a == b)


def equal(t, a, b, msg):
    t.check(a == b, msg)
    t.check(same_order(ordered(a), ordered(b)), f"{msg}: fields in order")


def converted(t, kind, depth, lean):
    as_ = t.text("name", NAMES, 1, 2)
    type_, want, back = tree(t, "type", kind, depth, as_, lean)
    got = system.to_system(type_, hints={BIGQUERY_HINT_FIELD_NAME: as_})
    t.check(like(got, want), "the field of a type")
    before = copy.deepcopy(got)
    found = system.to_artigraph(got, hints={})
    equal(t, found, back, "the type of a field")
    t.check(like(got, before), "the field is not changed")
    again = system.to_system(found, hints={BIGQUERY_HINT_FIELD_NAME: as_})
    t.check(like(again, got), "a field is back the same")
    anonymous = system.to_system(type_, hints={})
    t.check(anonymous.name == "anon", "a field without a name")
    t.cover("converted")


def table(t, kind):
    """A table of four fields, partitioned and clustered by any of them."""
    ks = distinct(t, "field", 4, 1) if kind == "named" else ["b", "d", "a", "c"]
    few = kind != "named"
    head = (Date, "DATE") if few else t.choice("head", [(Date, "DATE"), (DateTime, "DATETIME"), (Timestamp, "TIMESTAMP")])
    made = head[0]() if head[0] is Date else head[0](precision="microsecond")
    if kind == "named":
        first = Int64(), SchemaField(ks[0], "INTEGER", mode="REQUIRED"), Int64()
    else:
        first = tree(t, "type", kind, 1, ks[0], True)
    fields = [first, (made, SchemaField(ks[1], head[1], mode="REQUIRED"), made),
              (Int64(nullable=True), SchemaField(ks[2], "INTEGER"), Int64(nullable=True)), (String(), SchemaField(ks[3], "STRING", mode="REQUIRED"), String())]
    # Partitioned by the time first.
    by = t.choice("by", [(), (1, 3)] if few else [(), (1,), (1, 3), (1, 3, 2)])
    cluster = t.choice("cluster", [c for c in [(), (2,), (3,), (3, 2), (2, 3), (2, 0)] if not set(c) & set(by) and (not few or c in ((), (2,)))])
    parts = [t.text(f"part{i}", "ab-", 1, 1) for i in range(3)] if few or t.bool("qualified") else ["project", "dataset", "table"]
    named = {} if parts == ["project", "dataset", "table"] else {"name": ".".join(parts)}
    null = not few and t.bool("nullable")
    type_ = Collection(element=Struct(fields={k: f[0] for k, f in zip(ks, fields)}), partition_by=tuple([ks[i] for i in by]),
                       cluster_by=tuple([ks[i] for i in cluster]), nullable=null, **named)
    got = system.to_system(type_, hints={})
    t.check(len(got.schema) == 4 and all([like(a, f[1]) for a, f in zip(got.schema, fields)]), "the fields of a table")
    t.check(all([bool(a == b) for a, b in zip((got.project, got.dataset_id, got.table_id), parts)]), "the name of a table")
    if by:
        t.check(got.time_partitioning.field == ks[1] and got.time_partitioning.type_ == "DAY", "the partitioning of a table")
    else:
        t.check(got.time_partitioning is None, "a table that is not partitioned")
    clustered = [ks[i] for i in (*by[1:], *cluster)]
    t.check(list(got.clustering_fields or ()) == clustered, "further partitions lead the clustering")
    before = copy.deepcopy(got)
    back = system.to_artigraph(got, hints={})
    wide = Collection(name=".".join(parts), element=Struct(fields={k: f[2] for k, f in zip(ks, fields)}),
                      partition_by=tuple([ks[i] for i in by[:1]]), cluster_by=tuple(clustered))
    equal(t, back, wide, "the type of a table")
    t.check(all([like(a, b) for a, b in zip(got.schema, before.schema)]) and got.clustering_fields == before.clustering_fields, "the table is not changed")
    again = system.to_system(back, hints={})
    t.check(all([like(a, b) for a, b in zip(again.schema, got.schema)]) and again.clustering_fields == got.clustering_fields
            and again.time_partitioning == got.time_partitioning and bool(again.table_id == got.table_id)
            and bool(again.project == got.project) and bool(again.dataset_id == got.dataset_id), "a table is back the same")
    t.cover("converted")


def partitioned(t, n):
    """What tables cannot be partitioned by."""
    ks = distinct(t, "field", 2, 1)
    cls = t.choice("by", [Int8, Int16, Int32, Int64, UInt8, UInt64, String, Boolean, Binary, Float64, Geography, Date, Timestamp])
    made = cls(precision="second") if cls is Timestamp else cls()
    second = t.bool("second")
    fields = {ks[0]: made, ks[1]: Date()}
    by = (ks[1], ks[0]) if second else (ks[0], ks[1])[: 1 + t.index("more", 2)]
    type_ = Collection(name="p.d.t", element=Struct(fields=fields), partition_by=by)
    if cls in (UInt8, UInt64):
        t.check(t.raises((NotImplementedError,), lambda: system.to_system(type_, hints={})), "a type without a counterpart is rejected")
        t.cover("rejected")
    elif second or cls in (Date, Timestamp):
        got = system.to_system(type_, hints={})
        t.check(got.time_partitioning.field == by[0], "the first field partitions")
        t.check(list(got.clustering_fields or ()) == list(by[1:]), "further partitions lead the clustering")
        t.cover("accepted")
    else:
        t.check(t.raises((NotImplementedError, ValueError), lambda: system.to_system(type_, hints={})), "other partitions are rejected")
        t.cover("rejected")


def tables(t, n):
    """Tables with what Artigraph types cannot express."""
    k = t.text("field", NAMES, 1, 2)
    made = bigquery.Table("p.d.t", schema=[SchemaField(k, "DATE", mode="REQUIRED"), SchemaField("other", "INTEGER")])
    how = t.index("how", 4)
    if how == 0:
        made.time_partitioning = bigquery.TimePartitioning(field=k, type_=t.choice("type", ["HOUR", "MONTH", "YEAR"]))
    elif how == 1:
        made.range_partitioning = bigquery.RangePartitioning(field="other")
    elif how == 2:
        made.time_partitioning = bigquery.TimePartitioning()  # by the time of ingestion
    else:
        made.time_partitioning = bigquery.TimePartitioning(field=k)
        got = system.to_artigraph(made, hints={})
        t.check(list(got.partition_by) == [k] and not got.cluster_by and got.name == "p.d.t", "a table partitioned by day")
        t.cover("accepted")
        return
    t.check(t.raises((NotImplementedError, ValueError), lambda: system.to_artigraph(made, hints={})), "other tables are rejected")
    t.cover("rejected")


def unsupported(t, wraps):
    bad = t.choice("type", [List(element=List(element=Int64())), List(element=List(element=Int64(), nullable=True), nullable=True), Set(element=Int64()),
                            Map(key=String(), value=Int64()), Null(), UInt8(), Enum(type=Int64(), items=[1])])
    for i in range(t.index("depth", wraps + 1)):
        bad = [List(element=bad), Struct(fields={"a": Int64(), "b": bad}), bad.model_copy(update={"nullable": True})][t.index(f"wrap{i}", 3)]
    if t.bool("table"):
        bad = Collection(name="a.b.c", element=Struct(fields={"a": bad}))
    t.check(t.raises((NotImplementedError, ValueError), lambda: system.to_system(bad, hints={})), "a type without a counterpart is rejected")
    other = SchemaField("a", t.choice("sql", ["NUMERIC", "BIGNUMERIC", "JSON", "INTERVAL"]), mode=t.choice("mode", ["REQUIRED", "NULLABLE", "REPEATED"]))
    if t.bool("nested"):
        other = SchemaField("b", "RECORD", fields=[other], mode=t.choice("outer", ["REQUIRED", "REPEATED"]))
    t.check(t.raises((NotImplementedError,), lambda: system.to_artigraph(other, hints={})), "a field without a counterpart is rejected")
    t.cover("rejected")


def CASES(tier):
    for kind in ("plain", "time", "list", "struct"):
        for depth in (1, 2) if tier == "quick" else (1, 2, 3):
            if depth > 1 and kind in ("plain", "time"):
                continue
            yield Case(f"field:{kind}:{depth}", converted, dict(kind=kind, depth=depth, lean=depth > 1),
                       bounds=f"any {kind} type of depth {depth}, any names, descriptions, nullability", cover=("converted",))
    for kind in ("named", "plain", "time", "list", "struct"):
        yield Case(f"table:{kind}", table, dict(kind=kind), bounds="any table of four fields, partitioned and clustered in any way", cover=("converted",))
    yield Case("partitioned", partitioned, dict(n=2), bounds="tables partitioned by a field of any type", cover=("accepted", "rejected"))
    yield Case("tables", tables, dict(n=2), bounds="tables partitioned in any way", cover=("accepted", "rejected"))
    yield Case("unsupported", unsupported, dict(wraps=1 if tier == "quick" else 2), bounds="types without a counterpart inside others", cover=("rejected",))
