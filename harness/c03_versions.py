"""C03: versions invalidate exactly when documented."""

from __future__ import annotations

from datetime import UTC, timedelta, timezone

from symex.case import Case

from arti.versions import GitCommit, SemVer, String, Timestamp, Version

B64 = (-(2**63), 2**63 - 1)
TEXT = "az09AZ -_.:/{}[],'"
ZONES = {
    "utc": UTC,
    "+05:30": timezone(timedelta(hours=5, minutes=30)),
    "-08:00": timezone(timedelta(hours=-8)),
    "+14:00": timezone(timedelta(hours=14)),
}


def semver(t, lo, hi):
    a = [t.int(f"a.{n}", lo, hi) for n in ("major", "minor", "patch")]
    b = [t.int(f"b.{n}", lo, hi) for n in ("major", "minor", "patch")]
    va = SemVer(major=a[0], minor=a[1], patch=a[2])
    vb = SemVer(patch=b[2], minor=b[1], major=b[0])
    same = a[0] == b[0] and (a[0] > 0 or (a[1] == b[1] and a[2] == b[2]))
    t.check((va.fingerprint == vb.fingerprint) == same, "same fingerprint exactly when documented")
    t.check(t.same([va.major, va.minor, va.patch], a), "components kept")
    t.check((va == vb) == t.same(a, b), "equality is on all three components")
    t.cover("same" if same else "different")


def semver_sequence(t):
    """The fingerprint is the version's own: making other versions in between changes nothing."""
    first = SemVer(major=1, minor=2, patch=3)
    before = first.fingerprint
    x = SemVer(major=t.int("x", *B64), minor=t.int("y", *B64), patch=t.int("z", *B64))
    x.fingerprint
    again, zero = SemVer(major=1, minor=2, patch=3), SemVer(major=0, minor=2, patch=3)
    t.check(first.fingerprint == before, "cached")
    t.check(again.fingerprint == before, "recomputed")
    t.check(zero.fingerprint != SemVer(major=0, minor=2, patch=4).fingerprint, "0.x versions differ by patch")
    t.cover("done")


def texts(t, cls, field):
    a, b = t.text("a", TEXT, 0, 3), t.text("b", TEXT, 0, 3)
    va, vb = cls(**{field: a}), cls(**{field: b})
    t.check(t.iff(va.fingerprint == vb.fingerprint, a == b), "same fingerprint exactly when the value is")
    t.check(getattr(va, field) == a, "value kept")
    t.cover("done")


def kinds(t):
    """Versions of different kinds are different even with the same value."""
    s = t.text("s", TEXT, 0, 4)
    a, b = String(value=s), GitCommit(sha=s)
    t.check(a.fingerprint != b.fingerprint, "kinds differ")
    v = SemVer(major=t.int("major", *B64), minor=0, patch=0)
    t.check(v.fingerprint != a.fingerprint, "kinds differ")
    t.cover("done")


def timestamps(t, za, zb):
    a, b = t.datetime("a", ZONES[za]), t.datetime("b", ZONES[zb])
    va, vb = Timestamp(dt=a), Timestamp(dt=b)
    t.check(t.implies(va.fingerprint == vb.fingerprint, a == b), "different instants differ")
    if za == zb:
        t.check(t.implies(a == b, va.fingerprint == vb.fingerprint), "same timestamps are the same")
    t.check(va.dt == a, "value kept")
    t.cover("done")


def naive(t):
    t.raises(ValueError, Timestamp, dt=t.datetime("a", None))
    t.cover("done")


def rejected(t):
    """Versions are strictly typed and complete."""
    n = t.int("n", *B64)
    for kw in ({"major": n, "minor": n}, {"major": n, "minor": n, "patch": "1"}, {"major": n, "minor": n, "patch": None},
               {"major": n, "minor": n, "patch": n, "extra": n}):
        t.raises(ValueError, SemVer, **kw)
    t.raises(ValueError, String, value=n)
    t.raises(TypeError, Version)
    v = SemVer(major=n, minor=n, patch=n)
    t.raises(ValueError, setattr, v, "major", 1)
    t.cover("done")


def CASES(tier):
    out = [
        Case("semver", semver, {"lo": B64[0], "hi": B64[1]}, "all triples of 64-bit components", cover=("same", "different")),
        Case("semver:sequence", semver_sequence, {}, "one version of any 64-bit components in between", cover=("done",)),
        Case("string", texts, {"cls": String, "field": "value"}, "text of 0-3 characters", cover=("done",)),
        Case("commit", texts, {"cls": GitCommit, "field": "sha"}, "text of 0-3 characters", cover=("done",)),
        Case("kinds", kinds, {}, "text of 0-4 characters, 64-bit major", cover=("done",)),
        Case("timestamp:naive", naive, {}, "every naive datetime", cover=("done",)),
        Case("rejected", rejected, {}, "every 64-bit integer", cover=("done",)),
    ]
    zones = list(ZONES)
    pairs = [(a, b) for a in zones for b in zones if a <= b] if tier == "thorough" else [
        ("utc", "utc"), ("+05:30", "+05:30"), ("+05:30", "utc"), ("-08:00", "+14:00")]
    for a, b in pairs:
        out.append(Case(f"timestamp:{a}:{b}", timestamps, {"za": a, "zb": b},
                        "every pair of datetimes, years 1-9999, microseconds", cover=("done",)))
    return out
