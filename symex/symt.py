"""The harness context of the symbolic process: every input is a solver variable."""

from __future__ import annotations

import contextlib

import z3

from . import engine, vfs as F
from . import values as V
from .case import Known, leaf_pairs
from .engine import eng
from .vfs import CrashError


class SymT:
    symbolic = True
    root = "/scratch"

    def __init__(self, covered):
        self._covered = covered
        self._names: set = set()

    # -- inputs
    def _name(self, name):
        name = str(name)
        if name in self._names:
            raise RuntimeError(f"harness input {name} declared twice")
        self._names.add(name)
        return name

    def int(self, name, lo=None, hi=None):
        name = self._name(name)
        v = z3.Int(name)
        e = eng()
        e.inputs[name] = lambda m: V.model_int(m, v)
        if lo is not None:
            e.add_fact(v >= lo)
        if hi is not None:
            e.add_fact(v <= hi)
        return V.mk_int(v)

    def bv(self, name, bits, signed=True):
        """A fixed-width integer over its full range."""
        name = self._name(name)
        v = z3.BitVec(name, bits)
        if not signed:
            v = z3.ZeroExt(1, v)
        eng().inputs[name] = lambda m: V.model_int(m, v)
        return V.mk_int(v)

    def bool(self, name):
        name = self._name(name)
        v = z3.Bool(name)
        eng().inputs[name] = lambda m: z3.is_true(m.eval(v, model_completion=True))
        return eng().fork(v)

    def index(self, name, n):
        """A value in range(n), decided by forking."""
        name = self._name(name)
        v = z3.Int(name)
        e = eng()
        e.inputs[name] = lambda m: V.model_int(m, v)
        e.add_fact(z3.And(v >= 0, v < n))
        for i in range(n - 1):
            if e.fork(v == i):
                return i
        return n - 1

    def choice(self, name, options):
        options = list(options)
        return options[self.index(name, len(options))]

    def text(self, name, alphabet, lo, hi):
        """Text of lo..hi characters, each a solver variable over `alphabet`."""
        name = self._name(name)
        n = lo + self.index(name + ".len", hi - lo + 1)
        dom = frozenset(alphabet)
        items = []
        e = eng()
        codes = sorted(map(ord, dom))
        for i in range(n):
            c = z3.Int(f"{name}[{i}]")
            e.add_fact(_in_ranges(c, codes))
            items.append(V.Ch(c, dom))
        items = tuple(items)
        e.inputs[name] = lambda m: V.model_str(m, items)
        if not items:
            return ""
        return V.mk_str(items)

    def date(self, name, lo=1, hi=9999):
        name = self._name(name)
        y, m, d = (z3.Int(f"{name}.{p}") for p in "ymd")
        e = eng()
        e.add_fact(z3.And(y >= lo, y <= hi, V.valid_date(y, m, d)))
        e.inputs[name] = lambda mod: [V.model_int(mod, x) for x in (y, m, d)]
        return V.SymDate._make(y, m, d)

    def datetime(self, name, tz, lo=1, hi=9999):
        name = self._name(name)
        parts = [z3.Int(f"{name}.{p}") for p in ("y", "m", "d", "H", "M", "S", "us")]
        e = eng()
        e.add_fact(z3.And(parts[0] >= lo, parts[0] <= hi, V.valid_datetime(*parts)))
        e.inputs[name] = lambda mod: [V.model_int(mod, x) for x in parts]
        return V.SymDateTime._make(parts, tz)

    # -- statements
    def check(self, cond, msg, known=()):
        if isinstance(msg, bool) or not isinstance(msg, str):
            raise TypeError("check(condition, message)")
        e = eng()
        pairs = []
        for kid, p in known:
            if kid in Known.listed:
                pairs.append((kid, _cond(p)))
        e.check(_cond(cond), msg, pairs)

    def assume(self, cond):
        eng().assume(_cond(cond))

    def fail(self, msg):
        self.check(False, msg)

    def same(self, a, b):
        """Structural equality with types, as a condition."""
        return V.mk_bool(same(a, b))

    def model_hashes(self):
        """From here on hash() returns formal values (no native container may rely on them)."""
        eng().cache["hash model"] = True

    def hash(self, x):
        from . import hooks

        h = type(x).__hash__(x)
        return h if eng().cache.get("hash model") else hooks._hash_call(x)

    def raises(self, excs, fn, *a, **k):
        try:
            fn(*a, **k)
        except excs as e:
            self.check(True, "raises")
            return e
        self.fail(f"expected {_names(excs)} from {getattr(fn, '__name__', fn)}")

    def accepts(self, excs, fn, *a, **k):
        """(True, result) or (False, exception)."""
        try:
            return True, fn(*a, **k)
        except excs as e:
            return False, e

    def both(self, *cs):
        return V.mk_bool(V.mk_and([_cond(c) for c in cs]))

    def either(self, *cs):
        return V.mk_bool(V.mk_or([_cond(c) for c in cs]))

    def no(self, c):
        return V.mk_bool(V.mk_not(_cond(c)))

    def iff(self, a, b):
        return V.mk_bool(_cond(a) == _cond(b))

    def implies(self, a, b):
        return V.mk_bool(V.mk_or([V.mk_not(_cond(a)), _cond(b)]))

    def cover(self, label):
        self._covered.add(label)

    # -- files
    def write(self, path, text):
        F.vfs().create(path).items = V.lift_items(text)

    def remove(self, path):
        F.vfs().unlink(path)

    def files(self):
        """Paths of the files under the scratch root."""
        return [V.mk_str(f.path._r) for f in F.vfs().files]

    def read(self, path):
        f = F.vfs().find(path)
        return None if f is None else V.mk_str(f.items)

    # -- Google Cloud Storage (harnesses of properties with "gcs": True)
    bucket = "bkt"

    def gcs_write(self, path, text):
        F.vfs().create("/gcs/bkt/" + path).items = V.lift_items(text)

    def gcs_composite(self):
        """From here on objects have no MD5 hash (as those composed of several uploads)."""
        F.vfs().composite = True

    def gcs_remove(self, path):
        F.vfs().unlink("/gcs/bkt/" + path)

    def gcs_read(self, path):
        f = F.vfs().find("/gcs/bkt/" + path)
        return None if f is None else V.mk_str(f.items)

    @contextlib.contextmanager
    def crash(self, name, stages):
        """The process dies at a symbolic point of at most `stages` file-system stages (or never).

        Yields a list that holds one entry if it died.
        """
        name = self._name(name)
        k = z3.Int(name)
        e = eng()
        e.inputs[name] = lambda m: V.model_int(m, k)
        e.add_fact(z3.And(k >= 0, k <= stages))
        fs = F.vfs()
        count = [0]

        def fault(kind, path):
            count[0] += 1
            if count[0] > stages:
                raise engine.Unsupported("more file-system stages than the stated bound")
            if eng().fork(k == count[0] - 1):
                raise CrashError(kind)

        fs.fault = fault
        died = []
        try:
            yield died
        except CrashError as ex:
            died.append(str(ex))
        finally:
            fs.fault = None
            fs.dead = False


def _in_ranges(c, codes):
    parts, start, prev = [], codes[0], codes[0]
    for x in [*codes[1:], None]:
        if x is not None and x == prev + 1:
            prev = x
            continue
        parts.append(c == start if start == prev else z3.And(c >= start, c <= prev))
        start = prev = x
    return V.mk_or(parts)


def _names(excs):
    return "/".join(e.__name__ for e in (excs if isinstance(excs, tuple) else (excs,)))


def _cond(c):
    return V.to_z3bool(c)


def same(a, b):
    acc = []
    for pair in leaf_pairs(a, b):
        if pair is None:
            return V.FALSE
        c = V.deep_eq(*pair)
        if z3.is_false(c):
            return c
        acc.append(c)
    return V.mk_and(acc)
