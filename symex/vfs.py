"""A virtual file system over symbolic text, standing in for open/os/pathlib/glob/gcsfs while a path
is explored.  Semantics assumed: the usual POSIX ones (listed in DESIGN.md); replay runs the same
harness on the real ones."""

from __future__ import annotations

import re
import types

from . import engine
from . import values as V
from .engine import Unsupported, eng
from .values import SymBytes, SymStr


class CrashError(BaseException):
    """The process dies here: nothing after this point reaches the file system."""


class File:
    __slots__ = ("path", "items", "generation")

    def __init__(self, path, items):
        self.path = path  # SymStr
        self.items = items  # rope
        self.generation = 0


class VFS:
    def __init__(self):
        self.composite = False
        self.files: list[File] = []
        self.dirs: list = []
        self.dead = False
        self.fault = None  # callable(kind, path) invoked before each mutation stage
        self.tmp = 0

    # -- faults
    def stage(self, kind, path):
        if self.dead:
            raise CrashError()
        if self.fault is not None:
            try:
                self.fault(kind, path)
            except CrashError:
                self.dead = True
                raise

    # -- lookup
    def find(self, path):
        path = norm(path)
        for f in self.files:
            if f.path is path or bool(f.path == path):
                return f
        return None

    def exists(self, path):
        return self.find(path) is not None or self.isdir(path)

    def isdir(self, path):
        cs = V.chars_of(norm(path)._r)
        if any(bool(d == norm(path)) for d in self.dirs):
            return True
        for f in self.files:
            fs = V.chars_of(f.path._r)
            if len(fs) > len(cs) and V.char_is(fs[len(cs)], "/"):
                if eng().fork(V.rope_eq(tuple(fs[: len(cs)]), tuple(cs))):
                    return True
        return False

    def create(self, path):
        f = self.find(path)
        if f is None:
            f = File(norm(path), ())
            self.files.append(f)
        else:
            f.items = ()
        f.generation += 1
        return f

    def unlink(self, path):
        f = self.find(path)
        if f is None:
            raise FileNotFoundError(2, "No such file or directory")
        self.files.remove(f)

    def rename(self, src, dst):
        f = self.find(src)
        if f is None:
            raise FileNotFoundError(2, "No such file or directory")
        old = self.find(dst)
        if old is f:
            return
        if old is not None:
            self.files.remove(old)
        f.path = norm(dst)

    def open(self, path, mode="r"):
        binary = "b" in mode
        if "r" in mode and "+" not in mode:
            f = self.find(path)
            if f is None:
                raise FileNotFoundError(2, "No such file or directory")
            return Handle(self, f, binary, read=True)
        if "w" in mode or "x" in mode:
            if "x" in mode and self.find(path) is not None:
                raise FileExistsError(17, "File exists")
            self.stage("open", path)
            h = Handle(self, self.create(path), binary, read=False)
            self.stage("created", path)
            return h
        raise Unsupported(f"open mode {mode}")


def vfs() -> VFS:
    c = eng().cache
    if "vfs" not in c:
        c["vfs"] = VFS()
    return c["vfs"]


def norm(path):
    p = V.as_sym(as_text(path))
    if any(isinstance(i, str) and "//" in i for i in p._r):
        p = V.as_sym(V.mk_str(tuple(
            re.sub("/+", "/", i) if isinstance(i, str) else i for i in p._r)))
    return p


def as_text(p):
    if isinstance(p, VPath):
        return p.text
    if isinstance(p, str):
        return p
    if hasattr(p, "__fspath__"):
        return V.lift(p.__fspath__())
    raise TypeError(f"expected str, bytes or os.PathLike object, not {type(p).__name__}")


class Handle:
    staged_writes = True

    def __init__(self, fs, f, binary, *, read):
        self.fs, self.f, self.binary, self.reading = fs, f, binary, read
        self.closed = False
        self.writes = 0
        self.rest = None
        self.name = f.path

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        if not self.closed:
            self.closed = True
            if not self.reading and not self.fs.dead:
                self.fs.stage("close", self.f.path)

    def flush(self):
        pass

    def fileno(self):
        return ("vfd", self)

    def readable(self):
        return self.reading

    def writable(self):
        return not self.reading

    def write(self, data):
        if self.reading:
            raise OSError("not writable")
        if self.binary:
            if isinstance(data, str) and not isinstance(data, SymStr):
                raise TypeError("a bytes-like object is required, not 'str'")
            if isinstance(data, SymStr):
                raise TypeError("a bytes-like object is required, not 'str'")
            items = V._bytes_items(data)
        else:
            if not isinstance(data, str):
                raise TypeError("write() argument must be str")
            items = V.lift_items(data)
        if self.fs.dead:
            raise CrashError()
        self.f.items = V.normalize((*self.f.items, *items))
        self.writes += 1
        if self.writes == 1 and self.staged_writes:
            self.fs.stage("write", self.f.path)
        return len(items)

    def _all(self):
        if not self.reading:
            raise OSError("not readable")
        if self.rest is None:
            self.rest = self.f.items
        return self.rest

    def _out(self, items):
        if self.binary:
            return SymBytes(items)
        return V.mk_str(items)

    def read(self, size=-1):
        items = self._all()
        if size is None or (not isinstance(size, V.SymInt) and size < 0):
            self.rest = ()
            return self._out(items)
        if isinstance(size, V.SymInt) and size._p is not None:
            raise Unsupported("symbolic read size")
        if size >= 4096 or not items:
            # Longer than any content within the bounds.
            self.rest = ()
            return self._out(items)
        cs = V.chars_of(items)
        if any(isinstance(c, V.Tok) for c in cs[:size]):
            raise Unsupported("short read of opaque content")
        self.rest = V.normalize(tuple(cs[size:]))
        return self._out(V.normalize(tuple(cs[:size])))

    def __iter__(self):
        raise Unsupported("iterating a file")


# ---- glob -------------------------------------------------------------------------------------
def split_segments(path):
    segs, cur = [], []
    for it in path._r:
        for c in it if isinstance(it, str) else (it,):
            if isinstance(c, V.Ch):
                if "/" in c.dom and V.char_is(c, "/"):
                    c = "/"
            elif isinstance(c, V.Tok) and c.alphabet is None:
                raise Unsupported("opaque path")
            if isinstance(c, str) and c == "/":
                segs.append(cur)
                cur = []
            else:
                cur.append(c)
    segs.append(cur)
    return segs


MAGIC = frozenset("*?[")


def parse_segment(cells):
    """-> (has_magic, tokens)."""
    magic = False
    toks = []
    i, n = 0, len(cells)

    def lit(c, ch):
        return not isinstance(c, V.Tok) and V.char_is(c, ch)

    while i < n:
        c = cells[i]
        i += 1
        if isinstance(c, V.Tok) or (isinstance(c, V.Ch) and not (c.dom & MAGIC)):
            toks.append(("lit", c))
        elif lit(c, "*"):
            magic = True
            if not (toks and toks[-1][0] == "star"):
                toks.append(("star",))
        elif lit(c, "?"):
            magic = True
            toks.append(("any",))
        elif lit(c, "["):
            magic = True
            j = i
            if j < n and lit(cells[j], "!"):
                j += 1
            if j < n and lit(cells[j], "]"):
                j += 1
            while j < n and not lit(cells[j], "]"):
                j += 1
            if j >= n:
                toks.append(("lit", "["))
            else:
                stuff = cells[i:j]
                i = j + 1
                neg = bool(stuff) and lit(stuff[0], "!")
                if neg:
                    stuff = stuff[1:]
                if any(lit(x, "-") for x in stuff[1:-1]):
                    raise Unsupported("range in a glob set")
                if any(isinstance(x, V.Tok) for x in stuff):
                    raise Unsupported("token in a glob set")
                toks.append(("set", stuff, neg))
        else:
            toks.append(("lit", c))
    return magic, toks


def _first_is_dot(cells):
    return bool(cells) and not isinstance(cells[0], V.Tok) and V.char_is(cells[0], ".")


def match_segment(toks, cells):
    def test(c, tok):
        if tok[0] == "any":
            return True
        if tok[0] == "lit":
            q = V.char_eq(c, tok[1])
        else:
            q = V.mk_or([V.char_eq(c, x) for x in tok[1]])
            if tok[2]:
                q = V.mk_not(q)
        return eng().fork(q)

    def m(i, cells):
        if i == len(toks):
            return not cells
        tok = toks[i]
        if tok[0] == "star":
            if i + 1 == len(toks):
                return True
            return any(m(i + 1, cells[k:]) for k in range(len(cells) + 1))
        if not cells:
            return False
        c = cells[0]
        if isinstance(c, V.Tok) or (tok[0] == "lit" and isinstance(tok[1], V.Tok)):
            p = tok[1] if tok[0] == "lit" else None
            if isinstance(c, V.Tok) and isinstance(p, V.Tok):
                if c.kind != p.kind:
                    if c.kind in ("dec", "hex") and p.kind in ("dec", "hex"):
                        raise Unsupported("glob across number tokens")
                    return False
                if not eng().fork(V.tok_eq(c, p)):
                    return False
                return m(i + 1, cells[1:])
            if isinstance(c, V.Tok):
                al = c.alphabet
                if tok[0] == "lit" and al is not None:
                    dom = frozenset(p) if isinstance(p, str) else p.dom
                    if not (dom & al):
                        return False
                if c.kind in ("dec", "hex"):
                    return m(i, [*V.chars_of((c,)), *cells[1:]])
                if c.kind in ("fp", "hash") and tok[0] == "lit":
                    return False  # unrelated text is never (part of) a hash
                raise Unsupported("glob inside opaque text")
            # literal cell against a token of the pattern
            if p.kind in ("dec", "hex"):
                exp = [("lit", x) for x in V.chars_of((p,))]
                return match_segment([*exp, *toks[i + 1 :]], cells)
            return False
        return test(c, tok) and m(i + 1, cells[1:])

    return m(0, list(cells))


def glob_paths(pattern, paths, *, hide_dots=True):
    """Paths (files and implied directories) matching a glob pattern."""
    psegs = split_segments(V.as_sym(pattern))
    parsed = [parse_segment(s) for s in psegs]
    out = []
    for path in paths:
        segs = split_segments(path)
        if len(segs) < len(psegs):
            continue
        segs = segs[: len(psegs)]
        ok = True
        for (magic, toks), raw, seg in zip(parsed, psegs, segs):
            if not magic:
                if not eng().fork(V.rope_eq(tuple(raw), tuple(seg))):
                    ok = False
                    break
                continue
            if not seg:
                ok = False
                break
            if hide_dots and not _first_is_dot(raw) and _first_is_dot(seg):
                ok = False
                break
            if not match_segment(toks, seg):
                ok = False
                break
        if ok:
            cells = []
            for i, s in enumerate(segs):
                if i:
                    cells.append("/")
                cells.extend(s)
            p = V.SymStr._make(V.normalize(tuple(cells)))
            if not any(bool(p == q) for q in out):
                out.append(p)
    return out


def glob_escape(pathname):
    out = []
    for c in V.chars_of(V.lift_items(pathname)):
        if not isinstance(c, V.Tok) and V.char_in(c, MAGIC):
            out.extend(("[", c, "]"))
        else:
            out.append(c)
    return V.mk_str(tuple(out))


# ---- paths ------------------------------------------------------------------------------------
class VPath:
    """pathlib.Path over symbolic text."""

    __slots__ = ("text",)

    def __init__(self, *parts):
        t = ""
        for p in parts:
            t = join(t, as_text(p))
        self.text = norm(t) if t else V.as_sym(".")

    def __fspath__(self):
        return self.text

    def __str__(self):
        return self.text

    def __repr__(self):
        return f"VPath({self.text!r})"

    def __eq__(self, o):
        return self.text == o.text if isinstance(o, VPath) else NotImplemented

    def __hash__(self):
        return 0

    def __truediv__(self, o):
        return VPath(self, o)

    def __rtruediv__(self, o):
        return VPath(o, self)

    def joinpath(self, *o):
        return VPath(self, *o)

    @property
    def parent(self):
        return VPath(dirname(self.text))

    @property
    def name(self):
        return basename(self.text)

    @property
    def suffix(self):
        return splitext(self.name)[1]

    @property
    def stem(self):
        return splitext(self.name)[0]

    @property
    def parts(self):
        return tuple(V.mk_str(tuple(s)) for s in split_segments(self.text))

    def with_name(self, name):
        return VPath(self.parent, name)

    def with_suffix(self, suffix):
        return self.with_name(self.stem + suffix)

    def mkdir(self, *a, **k):
        vfs().dirs.append(self.text)

    def exists(self, **k):
        return vfs().exists(self.text)

    def is_file(self):
        return vfs().find(self.text) is not None

    def is_dir(self):
        return vfs().isdir(self.text)

    def open(self, mode="r", *a, **k):
        return vfs().open(self.text, mode)

    def touch(self, mode=0o666, exist_ok=True):
        if self.exists():
            if not exist_ok:
                raise FileExistsError(str(self.text))
            return
        self.open("w").close()

    def stat(self, **k):
        f = vfs().find(self.text)
        if f is None:
            raise FileNotFoundError(str(self.text))
        return types.SimpleNamespace(st_size=len(V.chars_of(f.items)))

    def write_text(self, data, *a, **k):
        with self.open("w") as f:
            return f.write(data)

    def write_bytes(self, data):
        with self.open("wb") as f:
            return f.write(data)

    def read_text(self, *a, **k):
        with self.open("r") as f:
            return f.read()

    def read_bytes(self):
        with self.open("rb") as f:
            return f.read()

    def replace(self, target):
        replace(self, target)
        return VPath(target)

    rename = replace

    def unlink(self, missing_ok=False):
        unlink(self, missing_ok=missing_ok)

    def absolute(self):
        return self

    resolve = expanduser = absolute

    def as_posix(self):
        return self.text

    def glob(self, pattern):
        for p in glob_paths(join(self.text, pattern), [f.path for f in vfs().files], hide_dots=False):
            yield VPath(p)

    def __getattr__(self, name):
        raise Unsupported(f"Path.{name}")


def replace(src, dst, **k):
    fs = vfs()
    fs.stage("rename", dst)
    fs.rename(as_text(src), as_text(dst))
    fs.stage("renamed", dst)


def unlink(path, missing_ok=False, **k):
    fs = vfs()
    if fs.dead:
        raise CrashError()
    if missing_ok and fs.find(as_text(path)) is None:
        return
    fs.unlink(as_text(path))


def join(a, *rest):
    t = V.as_sym(as_text(a)) if as_text(a) else ""
    for b in rest:
        b = as_text(b)
        if not t or (b and V.as_sym(b).startswith("/")):
            t = b
        elif V.as_sym(t).endswith("/"):
            t = t + b
        else:
            t = t + "/" + b
    return t


def dirname(p):
    p = V.as_sym(as_text(p))
    i = p.rfind("/")
    if i < 0:
        return ""
    return V.mk_str(tuple(V.chars_of(p._r)[:i])) or "/"


def basename(p):
    p = V.as_sym(as_text(p))
    i = p.rfind("/")
    return V.mk_str(tuple(V.chars_of(p._r)[i + 1 :]))


def splitext(p):
    p = V.as_sym(as_text(p))
    base = V.as_sym(basename(p))
    cells = V.chars_of(p._r)
    nb = len(V.chars_of(base._r))
    i = base.rfind(".")
    if i <= 0:
        return (p, "")
    cut = len(cells) - nb + i
    return (V.mk_str(tuple(cells[:cut])), V.mk_str(tuple(cells[cut:])))
