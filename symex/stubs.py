"""Symbolic stand-ins for the C / library functions the code under test calls with symbolic values."""

from __future__ import annotations

import builtins
import glob
import hashlib
import io
import json
import logging
import os
import pathlib
import pickle
import re
import string
import tempfile

from . import engine, symre, vfs as F
from . import values as V
from .engine import Unsupported, eng
from .hooks import METHODS, TABLE, any_sym, is_sym, replace
from .values import SymBytes, SymDate, SymInt, SymStr, Tok

_BytesIO = io.BytesIO

# ---- files ------------------------------------------------------------------------------------
replace(builtins.open)(lambda p, mode="r", *a, **k: _open(p, mode))
replace(io.open)(lambda p, mode="r", *a, **k: _open(p, mode))


def _open(p, mode="r", *a, **k):
    return F.vfs().open(F.as_text(p), mode)


replace(pathlib.Path)(F.VPath)
replace(pathlib.PosixPath)(F.VPath)
replace(pathlib.PurePath)(F.VPath)
replace(pathlib.PurePosixPath)(F.VPath)
replace(os.replace)(F.replace)
replace(os.rename)(F.replace)
replace(os.unlink)(F.unlink)
replace(os.remove)(F.unlink)
replace(os.makedirs)(lambda p, *a, **k: F.vfs().dirs.append(V.as_sym(F.as_text(p))))
replace(os.mkdir)(lambda p, *a, **k: F.vfs().dirs.append(V.as_sym(F.as_text(p))))
replace(os.fspath)(F.as_text)
replace(os.fsync)(lambda fd: None)
replace(os.close)(lambda fd: None)
replace(os.path.join)(F.join)
replace(os.path.dirname)(F.dirname)
replace(os.path.basename)(F.basename)
replace(os.path.split)(lambda p: (F.dirname(p), F.basename(p)))
replace(os.path.splitext)(F.splitext)
replace(os.path.exists)(lambda p: F.vfs().exists(F.as_text(p)))
replace(os.path.lexists)(lambda p: F.vfs().exists(F.as_text(p)))
replace(os.path.isfile)(lambda p: F.vfs().find(F.as_text(p)) is not None)
replace(os.path.isdir)(lambda p: F.vfs().isdir(F.as_text(p)))
replace(os.path.abspath)(lambda p: F.as_text(p))
replace(os.path.realpath)(lambda p: F.as_text(p))
replace(os.path.normpath)(lambda p: F.norm(p))


@replace(os.fdopen)
def _fdopen(fd, mode="r", *a, **k):
    if isinstance(fd, tuple) and fd and fd[0] == "vfd":
        h = fd[1]
        h.binary = "b" in mode
        return h
    raise Unsupported("os.fdopen")


@replace(glob.glob)
def _glob(pattern, *, root_dir=None, recursive=False, include_hidden=False, **k):
    if root_dir is not None:
        raise Unsupported("glob(root_dir=)")
    fs = F.vfs()
    return F.glob_paths(pattern, [f.path for f in fs.files], hide_dots=not include_hidden)


replace(glob.iglob)(lambda *a, **k: iter(_glob(*a, **k)))
replace(glob.escape)(F.glob_escape)


def _tmp_name(dir, prefix, suffix):
    fs = F.vfs()
    fs.tmp += 1
    return F.join(dir or "/vtmp", (prefix if prefix is not None else "tmp") + f"t{fs.tmp}" + (suffix or ""))


@replace(tempfile.mkstemp)
def _mkstemp(suffix=None, prefix=None, dir=None, text=False):
    p = _tmp_name(dir, prefix, suffix)
    h = F.vfs().open(p, "w" if text else "wb")
    return ("vfd", h), p


@replace(tempfile.NamedTemporaryFile)
def _ntf(mode="w+b", buffering=-1, encoding=None, newline=None, suffix=None, prefix=None, dir=None,
         delete=True, **k):
    p = _tmp_name(dir, prefix, suffix)
    h = F.vfs().open(p, "wb" if "b" in mode else "w")
    h.name = p
    if delete:
        close = h.close

        def close_and_delete():
            close()
            if F.vfs().find(p) is not None:
                F.vfs().unlink(p)

        h.close = close_and_delete
        h.__class__ = type("TempHandle", (F.Handle,), {"__exit__": lambda self, *a: self.close()})
    return h


replace(tempfile.gettempdir)(lambda: "/vtmp")
replace(tempfile.mktemp)(lambda suffix="", prefix="tmp", dir=None: _tmp_name(dir, prefix, suffix))

# ---- hashing ----------------------------------------------------------------------------------


class SymHash:
    def __init__(self, name, data=b""):
        self.name_ = name
        self.items = V._bytes_items(data) if data else ()

    @property
    def name(self):
        return self.name_

    def update(self, data):
        self.items = V.normalize((*self.items, *V._bytes_items(data)))

    def hexdigest(self):
        return V.mk_str((Tok("hash", (self.name_, self.items)),))

    def digest(self):
        return SymBytes((Tok("hash", (self.name_ + "-raw", self.items)),))

    def copy(self):
        return SymHash(self.name_, SymBytes(self.items))


for _n in ("sha256", "sha1", "md5", "sha512", "blake2b", "sha3_256"):
    replace(getattr(hashlib, _n))(lambda data=b"", *, _n=_n, **k: SymHash(_n, data))


@replace(hashlib.new)
def _hash_new(name, data=b"", **k):
    return SymHash(name, data)


@replace(hashlib.file_digest)
def _file_digest(f, digest, **k):
    h = SymHash(digest) if isinstance(digest, str) else digest()
    h.update(f.read())
    return h


import farmhash  # noqa: E402


@replace(farmhash.fingerprint64)
def _fp64(x):
    if not isinstance(x, (str, SymBytes, bytes)):
        raise TypeError("fingerprint64 expects text")
    items = V._bytes_items(x) if not isinstance(x, str) else V.lift_items(x)
    return V.mk_int(V.fp_of_rope(items))


# ---- json -------------------------------------------------------------------------------------
_ESC = {'"': '\\"', "\\": "\\\\", "\n": "\\n", "\r": "\\r", "\t": "\\t", "\b": "\\b", "\f": "\\f"}


def _json_char(c):
    """Items for one character inside a JSON string (ensure_ascii)."""
    if isinstance(c, str):
        return [json.dumps(c)[1:-1]]
    if isinstance(c, Tok):
        if c.alphabet is None:
            raise Unsupported("JSON text of opaque content")
        return [c]
    special = frozenset(x for x in c.dom if json.dumps(x)[1:-1] != x)
    if not special or not V.char_in(c, special):
        return [V.Ch(c.e, c.dom - special)] if special else [c]
    for x in sorted(special):
        if V.char_is(c, x):
            return [json.dumps(x)[1:-1]]
    raise Unsupported("unreachable")


def json_text(s):
    out = ['"']
    for it in V.lift_items(s):
        if isinstance(it, str):
            out.append(json.dumps(it)[1:-1])
        else:
            out.extend(_json_char(it))
    out.append('"')
    return out


def _jkey(k):
    if isinstance(k, str):
        return k
    if k is True:
        return "true"
    if k is False:
        return "false"
    if k is None:
        return "null"
    if isinstance(k, int):
        return V.int_to_str(k)
    if isinstance(k, float):
        return float.__repr__(k)
    raise TypeError(f"keys must be str, int, float, bool or None, not {type(k).__name__}")


def json_chunks(o, default=None, item_sep=", ", key_sep=": ", sort_keys=False, skipkeys=False, indent=None, level=0):
    rest = (default, item_sep, key_sep, sort_keys, skipkeys, indent)
    start = "" if indent is None else "\n" + indent * (level + 1)
    end = "" if indent is None else "\n" + indent * level
    if o is None:
        yield ["null"]
    elif isinstance(o, V.SymBool):
        yield ["true" if o else "false"]
    elif o is True:
        yield ["true"]
    elif o is False:
        yield ["false"]
    elif isinstance(o, str):
        yield json_text(o)
    elif isinstance(o, int):
        yield list(V.int_items(V.payload(o)))
    elif isinstance(o, float):
        yield [json.dumps(o)]
    elif isinstance(o, (list, tuple)):
        if not o:
            yield ["[]"]
            return
        first = True
        for x in o:
            head = ["[" + start] if first else [item_sep + start]
            first = False
            for ch in json_chunks(x, *rest, level + 1):
                yield [*head, *ch]
                head = []
        yield [end + "]"]
    elif isinstance(o, dict):
        if not o:
            yield ["{}"]
            return
        first = True
        items = o.items()
        if sort_keys:
            items = sorted(items, key=lambda kv: kv[0])
        yield ["{"]
        for k, v in items:
            if skipkeys and not (k is None or isinstance(k, (str, int, float, V.SymBool))):
                continue
            head = [start] if first else [item_sep + start]
            first = False
            yield [*head, *json_text(_jkey(k)), key_sep]
            yield from json_chunks(v, *rest, level + 1)
        yield ["}" if first else end + "}"]
    elif default is not None:
        yield from json_chunks(default(o), *rest, level)
    else:
        raise TypeError(f"Object of type {type(o).__name__} is not JSON serializable")


def _opts(k):
    k = dict(k)
    opts = {}
    if k.pop("cls", None) is not None:
        raise Unsupported("json options")
    indent = k.pop("indent", None)
    if indent is not None:
        opts["indent"] = indent if isinstance(indent, str) else " " * indent
        opts["item_sep"] = ","
    opts["skipkeys"] = k.pop("skipkeys", False)
    sep = k.pop("separators", None)
    if sep is not None:
        opts["item_sep"], opts["key_sep"] = sep
    opts["default"] = k.pop("default", None)
    opts["sort_keys"] = k.pop("sort_keys", False)
    k.pop("ensure_ascii", None)
    k.pop("allow_nan", None)
    k.pop("check_circular", None)
    if k:
        raise Unsupported(f"json options {k}")
    return opts


@replace(json.dumps)
def _dumps(obj, **k):
    out = []
    for c in json_chunks(obj, **_opts(k)):
        out.extend(c)
    return V.mk_str(tuple(out))


@replace(json.dump)
def _dump(obj, fp, **k):
    for c in json_chunks(obj, **_opts(k)):
        fp.write(V.mk_str(tuple(c)))


class _JParser:
    def __init__(self, items):
        self.cs = []
        for it in items:
            if isinstance(it, str):
                self.cs.extend(it)
            else:
                self.cs.append(it)
        self.i = 0

    def err(self, msg="Expecting value"):
        raise json.JSONDecodeError(msg, "", self.i)

    def peek_in(self, chars):
        if self.i >= len(self.cs):
            return False
        c = self.cs[self.i]
        if isinstance(c, Tok):
            al = c.alphabet
            if al is not None and not (al & chars):
                return False
            if c.kind in ("dec", "fp") and not (chars - frozenset("0123456789-")):
                return True
            if c.kind in ("dec", "fp", "hash", "hex"):
                return False
        return V.char_in(c, chars)

    def is_(self, ch):
        if self.i >= len(self.cs):
            return False
        c = self.cs[self.i]
        if isinstance(c, Tok):
            return False
        return V.char_is(c, ch)

    def ws(self):
        while self.i < len(self.cs) and self.peek_in(frozenset(" \t\n\r")):
            self.i += 1

    def value(self):
        self.ws()
        if self.i >= len(self.cs):
            self.err()
        c = self.cs[self.i]
        if isinstance(c, Tok) and c.kind in ("dec", "fp") and not c.pad:
            nxt = self.cs[self.i + 1] if self.i + 1 < len(self.cs) else None
            ok = nxt is None or (isinstance(nxt, str) and nxt in ",]} \n:")
            if ok:
                self.i += 1
                return V.mk_int(c.data)
        if isinstance(c, Tok) and c.kind in ("dec", "hex"):
            self.cs[self.i : self.i + 1] = V.chars_of((c,))
            c = self.cs[self.i]
        if self.is_('"'):
            self.i += 1
            return self.string()
        if self.is_("["):
            self.i += 1
            out = []
            self.ws()
            if self.is_("]"):
                self.i += 1
                return out
            while True:
                out.append(self.value())
                self.ws()
                if self.is_("]"):
                    self.i += 1
                    return out
                if not self.is_(","):
                    self.err("Expecting ',' delimiter")
                self.i += 1
        if self.is_("{"):
            self.i += 1
            out = {}
            self.ws()
            if self.is_("}"):
                self.i += 1
                return out
            from .hooks import setitem

            while True:
                self.ws()
                if not self.is_('"'):
                    self.err("Expecting property name")
                self.i += 1
                k = self.string()
                self.ws()
                if not self.is_(":"):
                    self.err("Expecting ':' delimiter")
                self.i += 1
                setitem(self.value(), out, k)
                self.ws()
                if self.is_("}"):
                    self.i += 1
                    return out
                if not self.is_(","):
                    self.err("Expecting ',' delimiter")
                self.i += 1
        # a literal or number
        start = self.i
        while self.i < len(self.cs) and self.peek_in(
            frozenset("0123456789+-.eEtrufalsnINity")
        ):
            self.i += 1
        tok = self.cs[start : self.i]
        if not tok:
            self.err()
        if all(isinstance(t, str) for t in tok):
            return json.loads("".join(tok))
        digits = tok[1:] if not isinstance(tok[0], Tok) and V.char_is(tok[0], "-") else tok
        if not digits or not all(V.char_in(t, V.DIGITS) for t in digits):
            raise Unsupported("symbolic JSON number")
        if len(digits) > 1 and V.char_is(digits[0], "0"):
            self.i = start + 1
            self.err("Extra data")
        return V.str_to_int(V.mk_str(tuple(tok)))

    def string(self):
        out = []
        while True:
            if self.i >= len(self.cs):
                self.err("Unterminated string")
            c = self.cs[self.i]
            if isinstance(c, Tok):
                out.append(c)
                self.i += 1
                continue
            if V.char_is(c, '"'):
                self.i += 1
                return V.mk_str(tuple(out))
            if V.char_is(c, "\\"):
                n = 6 if self.i + 1 < len(self.cs) and self.cs[self.i + 1] == "u" else 2
                esc = self.cs[self.i : self.i + n]
                if not all(isinstance(e, str) for e in esc):
                    raise Unsupported("symbolic JSON escape")
                out.append(json.loads('"' + "".join(esc) + '"'))
                self.i += n
                continue
            if V.char_in(c, frozenset(chr(i) for i in range(32))):
                self.err("Invalid control character")
            out.append(c)
            self.i += 1


@replace(json.loads)
def _loads(s, **k):
    if k:
        raise Unsupported("json.loads options")
    if not isinstance(s, (str, SymBytes, bytes)):
        raise TypeError("the JSON object must be str, bytes or bytearray")
    items = V._bytes_items(s) if not isinstance(s, str) else V.lift_items(s)
    p = _JParser(items)
    v = p.value()
    p.ws()
    if p.i < len(p.cs):
        p.err("Extra data")
    return v


replace(json.load)(lambda fp, **k: _loads(fp.read(), **k))


# ---- pickle -----------------------------------------------------------------------------------
def _snapshot(x):
    if isinstance(x, list):
        return [_snapshot(i) for i in x]
    if isinstance(x, tuple):
        return tuple(_snapshot(i) for i in x)
    if isinstance(x, dict):
        return {_snapshot(k): _snapshot(v) for k, v in x.items()}
    if x is None or isinstance(x, (bool, str, int, float, SymDate, bytes, V.SymBool, SymBytes)):
        return x
    if isinstance(x, (set, frozenset)):
        return type(x)(_snapshot(i) for i in x)
    return _Pickled.load(x) if isinstance(x, _Pickled) else _Pickled(x)


class _Pickled:
    """An object as the real pickle leaves it (its own methods are run), with the symbolic values kept aside."""

    def __init__(self, x):
        kept = self.kept = []
        LEAVES = (V.SymInt, SymStr, SymDate, V.SymDateTime, V.SymBool, SymBytes)

        class Pickler(pickle.Pickler):
            def persistent_id(self, obj):
                if isinstance(obj, LEAVES):
                    kept.append(obj)
                    return len(kept) - 1
                return None

        out = _BytesIO()
        Pickler(out).dump(x)  # raises what the real one raises
        self.data = out.getvalue()

    def load(self):
        kept = self.kept

        class Unpickler(pickle.Unpickler):
            def persistent_load(self, pid):
                return kept[pid]

        return Unpickler(_BytesIO(self.data)).load()


@replace(pickle.dumps)
def _pdumps(obj, *a, **k):
    return SymBytes((Tok("opq", ("pickle", _snapshot(obj))),))


@replace(pickle.dump)
def _pdump(obj, fp, *a, **k):
    fp.write(_pdumps(obj))


@replace(pickle.loads)
def _ploads(data, **k):
    items = V._bytes_items(data)
    if not items:
        raise EOFError("Ran out of input")
    if len(items) == 1 and isinstance(items[0], Tok) and items[0].kind == "opq":
        return _snapshot(items[0].data[1])
    if all(isinstance(i, str) for i in items):
        raise pickle.UnpicklingError("invalid load key")
    if isinstance(items[0], Tok) and items[0].kind == "opq":
        return _snapshot(items[0].data[1])  # trailing data is ignored by pickle
    raise pickle.UnpicklingError("invalid load key")


replace(pickle.load)(lambda fp, **k: _ploads(fp.read(), **k))

# ---- regular expressions and parse ------------------------------------------------------------
import parse as _parse  # noqa: E402


@replace(_parse.compile)
def _pcompile(fmt, extra_types=None, case_sensitive=False):
    return _parse.Parser(V.embed(fmt), extra_types, case_sensitive)


@replace(_parse.Parser)
def _parser(fmt, extra_types=None, case_sensitive=False):
    return _parse.Parser(V.embed(fmt), extra_types, case_sensitive)


@replace(_parse.Parser.parse)
def _pparse(self, s, evaluate_result=True):
    m = symre.run(r"\A%s\Z" % self._expression, self._re_flags, s, mode="match")
    if m is None:
        return None
    return self.evaluate_result(m) if evaluate_result else _parse.Match(self, m)


@replace(_parse.Parser.search)
def _psearch(self, s, pos=0, endpos=None, evaluate_result=True):
    if pos or endpos is not None:
        raise Unsupported("parse.search with bounds")
    m = symre.run(self._expression, self._re_flags, s, mode="search")
    if m is None:
        return None
    return self.evaluate_result(m) if evaluate_result else _parse.Match(self, m)


@replace(_parse.parse)
def _parse_parse(fmt, s, extra_types=None, evaluate_result=True, case_sensitive=False):
    return _pparse(_pcompile(fmt, extra_types, case_sensitive), s, evaluate_result)


class SymPattern:
    def __init__(self, pattern, flags):
        self.pattern, self.flags = pattern, flags

    def _run(self, s, mode):
        return symre.run(self.pattern, self.flags, s, mode=mode)

    def match(self, s):
        return self._run(s, "match")

    def fullmatch(self, s):
        return self._run(s, "fullmatch")

    def search(self, s):
        return self._run(s, "search")

    def sub(self, repl, s, count=0):
        out, pos = [], 0
        cells = V.chars_of(V.lift_items(s))
        while pos <= len(cells):
            m = symre.run(self.pattern, self.flags, V.mk_str(tuple(cells[pos:])), mode="search")
            if m is None or (count and count <= 0):
                break
            a, b = m.span()
            if a == b:
                raise Unsupported("re.sub of an empty match")
            out.extend(cells[pos : pos + a])
            if callable(repl):
                out.extend(V.lift_items(repl(m)))
            else:
                if "\\" in repl:
                    raise Unsupported("re.sub template")
                out.extend(V.lift_items(repl))
            pos += b
        out.extend(cells[pos:])
        return V.mk_str(tuple(out))

    def __getattr__(self, name):
        raise Unsupported(f"re.Pattern.{name}")


def _re_fn(name):
    native = getattr(re, name)

    def f(pattern, *a, **k):
        if isinstance(pattern, (SymPattern,)) or is_sym(pattern) or any_sym(a):
            flags = k.get("flags", 0)
            if isinstance(pattern, re.Pattern):
                pattern, flags = pattern.pattern, pattern.flags
            if not isinstance(pattern, SymPattern):
                pattern = SymPattern(V.embed(pattern), flags)
            return getattr(pattern, name)(*a)
        return native(pattern, *a, **k)

    TABLE[id(native)] = (native, f)


for _n in ("match", "fullmatch", "search", "sub"):
    _re_fn(_n)


@replace(re.compile)
def _recompile(pattern, flags=0):
    if is_sym(pattern):
        return SymPattern(V.embed(pattern), int(flags))
    return re.compile(pattern, flags)


@replace(re.escape)
def _reescape(s):
    if not is_sym(s):
        return re.escape(s)
    out = []
    for it in s._r:
        out.append(re.escape(it) if isinstance(it, str) else V.native((it,)))
    return "".join(out)


def _pat_method(name):
    def f(self, s, *a, **k):
        if is_sym(s) or any_sym(a):
            return getattr(SymPattern(self.pattern, self.flags), name)(
                *((s, *a) if name != "sub" else (s, *a)), **k
            )
        return getattr(self, name)(s, *a, **k)

    return f


METHODS[id(re.Pattern)] = {n: (None, _pat_method(n)) for n in ("match", "fullmatch", "search", "sub")}


@replace(string.Formatter.vformat)
def _vformat(self, spec, args, kwargs):
    return V.lift(string.Formatter.vformat(self, V.embed(spec), args, kwargs))


@replace(string.Formatter.format)
def _fformat(self, spec, /, *args, **kwargs):
    return _vformat(self, spec, args, kwargs)


def _parsed_field(x):
    return None if x is None else V.lift(x)


@replace(string.Formatter.parse)
def _fparse(self, spec):
    for lit, field, fmt, conv in string.Formatter.parse(self, V.embed(spec)):
        yield V.lift(lit), _parsed_field(field), _parsed_field(fmt), conv


# ---- logging ----------------------------------------------------------------------------------
for _n in ("debug", "info", "warning", "error", "exception", "critical", "log"):
    replace(getattr(logging, _n))(lambda *a, **k: None)
    replace(getattr(logging.Logger, _n))(lambda *a, **k: None)


# ---- google cloud storage ---------------------------------------------------------------------
class _Info(dict):
    """What is known of an object; its size only once asked for."""

    def __init__(self, file, known):
        super().__init__(known)
        self._file = file

    def __missing__(self, key):
        if key == "size":
            return len(V.chars_of(self._file.items))
        raise KeyError(key)

    def get(self, key, default=None):
        return self[key] if key == "size" or key in self else default


class FakeGCS:
    """gcsfs.GCSFileSystem over the VFS; objects live under '/gcs/<bucket>/<path>'."""

    ROOT = "/gcs/"

    def __init__(self, *a, **k):
        pass

    def _p(self, path):
        return V.as_sym(self.ROOT + F.as_text(path))

    def open(self, path, mode="r", *a, **k):
        return GCSHandle(self._p(path), mode)

    def _file(self, path):
        f = F.vfs().find(self._p(path))
        if f is None:
            raise FileNotFoundError("no such object")
        return f

    def info(self, path, **k):
        f = self._file(path)
        md5 = {"md5Hash": V.mk_str((Tok("hash", ("md5", f.items)),))}
        return _Info(f, {
            "name": path,
            "type": "file",
            **({} if F.vfs().composite else md5),
            "crc32c": V.mk_str((Tok("hash", ("crc32c", f.items)),)),
            "generation": f.generation,
        })

    def exists(self, path, **k):
        return F.vfs().find(self._p(path)) is not None

    def glob(self, pattern, **k):
        out = []
        for p in F.glob_paths(self.ROOT + pattern, [f.path for f in F.vfs().files], hide_dots=False):
            cells = V.chars_of(p._r)[len(self.ROOT) :]
            out.append(SymStr._make(V.normalize(tuple(cells))))
        return out

    def cat_file(self, path, **k):
        return SymBytes(self._file(path).items)

    cat = cat_file

    def pipe_file(self, path, value, **k):
        with self.open(path, "wb") as f:
            f.write(value)

    pipe = pipe_file

    def mkdir(self, *a, **k):
        pass

    mkdirs = makedirs = mkdir

    def rm(self, path, *a, **k):
        F.vfs().unlink(self._p(path))

    def __getattr__(self, name):
        raise Unsupported(f"GCSFileSystem.{name}")


class GCSHandle(F.Handle):
    """Objects become visible on close (also when closing because of an exception)."""

    staged_writes = False

    def __init__(self, path, mode):
        fs = F.vfs()
        if "r" in mode:
            f = fs.find(path)
            if f is None:
                raise FileNotFoundError("no such object")
            super().__init__(fs, f, "b" in mode, read=True)
        else:
            super().__init__(fs, F.File(path, ()), "b" in mode, read=False)

    def close(self):
        if not self.closed:
            if not self.reading and not self.fs.dead:
                self.fs.stage("close", self.f.path)
                self.fs.create(self.f.path).items = self.f.items
                self.fs.stage("closed", self.f.path)
            self.closed = True


def install_gcs():
    import gcsfs

    replace(gcsfs.GCSFileSystem)(FakeGCS)
