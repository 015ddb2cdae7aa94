"""The harness context of the replay process: concrete inputs, the unpatched code, a real directory."""

from __future__ import annotations

import builtins
import contextlib
import datetime
import io
import os
import pathlib

from symex.case import Known, leaf_pairs


class Refuted(BaseException):
    """An assertion of the harness is false on the real code."""


class Listed(BaseException):
    """... and it is the listed known finding args[0]."""


class Skip(BaseException):
    """An assumption does not hold for these inputs."""


class CrashError(BaseException):
    pass


class RealT:
    symbolic = False

    def __init__(self, inputs, root):
        self.inputs = inputs
        self.root = root
        self.checks = 0

    def _get(self, name, default):
        return self.inputs.get(str(name), default)

    def int(self, name, lo=None, hi=None):
        return int(self._get(name, lo if lo is not None else 0 if hi is None else hi))

    def bv(self, name, bits, signed=True):
        return int(self._get(name, 0))

    def bool(self, name):
        return bool(self._get(name, False))

    def index(self, name, n):
        return int(self._get(name, 0))

    def choice(self, name, options):
        return list(options)[self.index(name, 0)]

    def text(self, name, alphabet, lo, hi):
        return self._get(name, "".join(sorted(alphabet))[:1] * lo)

    def date(self, name, lo=1, hi=9999):
        return datetime.date(*self._get(name, [max(lo, 1), 1, 1]))

    def datetime(self, name, tz, lo=1, hi=9999):
        return datetime.datetime(*self._get(name, [max(lo, 1), 1, 1, 0, 0, 0, 0]), tzinfo=tz)

    # -- statements
    def check(self, cond, msg, known=()):
        if isinstance(msg, bool) or not isinstance(msg, str):
            raise TypeError("check(condition, message)")
        self.checks += 1
        if not cond:
            for kid, p in known:
                if kid in Known.listed and p:
                    raise Listed(kid)
            raise Refuted(msg)

    def assume(self, cond):
        if not cond:
            raise Skip()

    def fail(self, msg):
        self.check(False, msg)

    def same(self, a, b):
        return all(p is not None and p[0] == p[1] for p in leaf_pairs(a, b))

    def model_hashes(self):
        pass

    def hash(self, x):
        return hash(x)

    def raises(self, excs, fn, *a, **k):
        try:
            fn(*a, **k)
        except excs as e:
            return e
        es = excs if isinstance(excs, tuple) else (excs,)
        self.fail(
            f"expected {'/'.join(e.__name__ for e in es)} from {getattr(fn, '__name__', fn)}"
        )

    def accepts(self, excs, fn, *a, **k):
        try:
            return True, fn(*a, **k)
        except excs as e:
            return False, e

    def both(self, *cs):
        return all(cs)

    def either(self, *cs):
        return any(cs)

    def no(self, c):
        return not c

    def iff(self, a, b):
        return bool(a) == bool(b)

    def implies(self, a, b):
        return not a or bool(b)

    def cover(self, label):
        pass

    # -- files
    def write(self, path, text):
        assert os.path.realpath(os.path.dirname(path)).startswith(os.path.realpath(self.root)), path
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "wb" if isinstance(text, bytes) else "w") as f:
            f.write(text)

    def remove(self, path):
        assert os.path.realpath(path).startswith(os.path.realpath(self.root)), path
        os.unlink(path)

    def files(self):
        found = [os.path.join(d, f) for d, _, fs in os.walk(self.root) for f in fs]
        if self._bucket is not None:
            gcs().invalidate_cache()
            found += gcs().find(self._bucket)
        return sorted(found)

    def read(self, path):
        try:
            with open(path) as f:
                return f.read()
        except FileNotFoundError:
            return None

    # -- Google Cloud Storage: a local emulator
    _bucket = None

    @property
    def bucket(self):
        if self._bucket is None:
            fs = gcs()
            RealT._buckets = getattr(RealT, "_buckets", 0) + 1
            self._bucket = f"bkt{RealT._buckets}"
            fs.mkdir(self._bucket)
        return self._bucket

    def gcs_write(self, path, text):
        gcs().pipe_file(f"{self.bucket}/{path}", text if isinstance(text, bytes) else text.encode())

    def gcs_composite(self):
        fs = gcs()  # (instances are cached)
        real = self._info = fs.info
        fs.info = lambda *a, **k: {key: v for key, v in real(*a, **k).items() if key != "md5Hash"}

    _info = None

    def gcs_remove(self, path):
        gcs().rm(f"{self.bucket}/{path}")

    def gcs_read(self, path):
        fs = gcs()
        fs.invalidate_cache()
        try:
            return fs.cat_file(f"{self.bucket}/{path}").decode()
        except FileNotFoundError:
            return None

    def close(self):
        if self._info is not None:
            gcs().info = self._info
        if self._bucket is not None:
            gcs().rm(self._bucket, recursive=True)

    @contextlib.contextmanager
    def crash(self, name, stages):
        k = int(self._get(name, stages))
        died = []
        with _Crasher(k):
            try:
                yield died
            except CrashError as e:
                died.append(str(e))


_SERVER = None


def gcs():
    """gcsfs talking to an emulator in this process."""
    global _SERVER
    import gcsfs

    if _SERVER is None:
        from gcp_storage_emulator.server import create_server

        for name in list(os.environ):
            if name.lower().endswith("_proxy"):
                del os.environ[name]
        _SERVER = create_server("localhost", 0, in_memory=True)
        _SERVER.start()
        host, port = _SERVER._api._httpd.socket.getsockname()
        os.environ["STORAGE_EMULATOR_HOST"] = f"http://{host}:{port}"
    return gcsfs.GCSFileSystem()


class _Crasher:
    """Make the process 'die' at the k-th file-system stage: nothing later reaches the disk."""

    def __init__(self, k):
        self.k, self.n, self.dead = k, 0, False

    def stage(self, kind):
        if self.dead:
            raise CrashError("dead")
        self.n += 1
        if self.n - 1 == self.k:
            self.dead = True
            raise CrashError(kind)

    def __enter__(self):
        self.saved = (builtins.open, io.open, os.replace, os.rename, os.unlink, os.remove)
        real_open, _, real_replace, real_rename, real_unlink, real_remove = self.saved

        def opener(file, mode="r", *a, **kw):
            if not any(c in mode for c in "wxa+"):
                return real_open(file, mode, *a, **kw)
            self.stage("open")
            return _Handle(self, real_open(file, mode, *a, **kw))

        def ren(real):
            def f(src, dst, **kw):
                self.stage("rename")
                out = real(src, dst, **kw)
                self.stage("renamed")
                return out

            return f

        def unl(real):
            def f(p, **kw):
                if self.dead:
                    raise CrashError("dead")
                return real(p, **kw)

            return f

        builtins.open = io.open = opener
        os.replace, os.rename = ren(real_replace), ren(real_rename)
        os.unlink, os.remove = unl(real_unlink), unl(real_remove)
        self.gcs = None
        import sys

        if "gcsfs" in sys.modules:
            from fsspec.spec import AbstractBufferedFile as B

            self.gcs = (B, B.close)
            real_close = B.close

            def close(f):
                if f.mode != "rb" and not f.closed:
                    if self.dead:
                        f.closed = True
                        return
                    try:
                        self.stage("close")
                    except CrashError:
                        f.closed = True
                        raise
                    real_close(f)
                    self.stage("closed")
                    return
                real_close(f)

            B.close = close
        return self

    def __exit__(self, *exc):
        builtins.open, io.open, os.replace, os.rename, os.unlink, os.remove = self.saved
        if self.gcs is not None:
            self.gcs[0].close = self.gcs[1]


class _Handle:
    def __init__(self, owner, f):
        self._o, self._f, self._w = owner, f, 0
        owner.stage("created")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def write(self, data):
        if self._o.dead:
            raise CrashError("dead")
        n = self._f.write(data)
        self._f.flush()
        self._w += 1
        if self._w == 1:
            self._o.stage("write")
        return n

    def close(self):
        if not self._f.closed:
            self._f.close()
            if not self._o.dead:
                self._o.stage("close")

    def __getattr__(self, name):
        return getattr(self._f, name)
