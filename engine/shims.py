"""Contracts of library dependencies that must accept symbolic values (trusted base)."""
import gzip as _gzip
import io as _io
import json as _json
import pathlib as _pathlib
import struct as _struct
import types
import z3
from . import core
from .core import Unsupported, cur
from .symval import SymInt, SymBool, SymStr, mk_int, zi, Z, is_sym
from .containers import SymBytes, SymFile, SymSeq, SDict


class _Shim(types.ModuleType):
    def __init__(self, real, **over):
        super().__init__(real.__name__)
        self.__dict__["_real"] = real
        self.__dict__.update(over)

    def __getattr__(self, n):
        return getattr(self.__dict__["_real"], n)


# ---- struct.unpack on symbolic bytes (little-endian host assumed for native formats)
_SIZES = {"x": 1, "b": 1, "B": 1, "h": 2, "H": 2, "i": 4, "I": 4, "l": 4, "L": 4, "q": 8, "Q": 8, "s": 1, "c": 1, "?": 1}


def _parse(f):
    if isinstance(f, bytes):
        f = f.decode()
    order = "@"
    if f and f[0] in "<>=!@":
        order, f = f[0], f[1:]
    items, num = [], ""
    for ch in f:
        if ch.isdigit():
            num += ch
            continue
        if ch.isspace():
            continue
        items.append((ch, int(num) if num else 1))
        num = ""
    return order, items


def unpack(f, b):
    if not isinstance(b, SymBytes):
        return _struct.unpack(f, b)
    size = _struct.calcsize(f)
    if not bool(b.sx_len() == size):
        raise _struct.error(f"unpack requires a buffer of {size} bytes")
    return _unpack_at(f, b, 0)


def _unpack_at(f, b, base):
    order, items = _parse(f)
    if order == "@" and len(items) > 1:
        raise Unsupported("native struct alignment")
    big = order in (">", "!")
    out, off = [], base
    for ch, cnt in items:
        if ch not in _SIZES or ch in "?":
            raise Unsupported(f"struct format {ch}")
        if ch == "x":
            off += cnt
            continue
        if ch == "s":
            out.append(SymBytes(b.content, b.off + off, cnt))
            off += cnt
            continue
        n = _SIZES[ch] if not (order == "@" and ch in "lL") else 8
        for _ in range(cnt):
            bs = [b.byte(Z(off + i)) for i in range(n)]
            if big:
                bs = bs[::-1]
            v = 0
            for i, x in enumerate(bs):
                v = x * (1 << (8 * i)) + v
            if isinstance(v, SymInt):
                v = SymInt(v.t, 0, (1 << (8 * n)) - 1)
            if ch in "bhilq":
                v = mk_int(z3.If(zi(v) >= (1 << (8 * n - 1)), zi(v) - (1 << (8 * n)), zi(v)))
            if ch == "c":
                v = SymBytes(b.content, b.off + off, 1)
            out.append(v)
            off += n
    return tuple(out)


def unpack_from(f, b, offset=0):
    if not isinstance(b, SymBytes):
        return _struct.unpack_from(f, b, offset)
    size = _struct.calcsize(f)
    if not bool(b.sx_len() >= size + offset):
        raise _struct.error("unpack_from requires a larger buffer")
    return _unpack_at(f, b, offset)


class Struct:
    def __init__(self, f):
        self.format, self.size = f, _struct.calcsize(f)

    def unpack(self, b):
        return unpack(self.format, b)

    def unpack_from(self, b, offset=0):
        return unpack_from(self.format, b, offset)

    def pack(self, *a):
        return _struct.pack(self.format, *a)


struct = _Shim(_struct, unpack=unpack, unpack_from=unpack_from, Struct=Struct)


class _IntBytes:
    pass


def int_from_bytes(b, byteorder="big", *, signed=False):
    if not isinstance(b, SymBytes):
        if isinstance(b, tuple) and any(is_sym(x) for x in b):
            bs = list(b)
        else:
            return int.from_bytes(b, byteorder, signed=signed)
    else:
        bs = [b.byte(Z(i)) for i in range(len(b))]
    if byteorder == "big":
        bs = bs[::-1]
    v = 0
    for i, x in enumerate(bs):
        v = x * (1 << (8 * i)) + v
    n = len(bs)
    if isinstance(v, SymInt):
        v = SymInt(v.t, 0, (1 << (8 * n)) - 1)
    if signed and n:
        v = mk_int(z3.If(zi(v) >= (1 << (8 * n - 1)), zi(v) - (1 << (8 * n)), zi(v)))
    return v


# ---- gzip
def gzip_open(f, mode="rb", *a, **k):
    ex = core.CUR
    hook = getattr(ex, "gzip_hook", None) if ex is not None else None
    if ex is None:
        return _gzip.open(f, mode, *a, **k)
    if hook is None:
        raise Unsupported("gzip.open outside a stubbed environment")
    return hook(f, mode)


class GzipFile:
    def __new__(cls, filename=None, mode=None, compresslevel=9, fileobj=None, mtime=None):
        return gzip_open(fileobj if fileobj is not None else filename, mode or "rb")


gzip = _Shim(_gzip, open=gzip_open, GzipFile=GzipFile)


# ---- json: encoding is given by what the encoder class does with objects, the text is opaque
def _json_hook():
    ex = core.CUR
    if ex is None:
        return None
    return getattr(ex, "json_hook", None)


class JSONEncoder(_json.JSONEncoder):
    def encode(self, o):
        h = _json_hook()
        return _json.JSONEncoder.encode(self, o) if h is None else h(o, self)

    def iterencode(self, o, _one_shot=False):
        h = _json_hook()
        return _json.JSONEncoder.iterencode(self, o, _one_shot) if h is None else iter([h(o, self)])


def json_dumps(obj, *, skipkeys=False, ensure_ascii=True, check_circular=True, allow_nan=True, cls=None, indent=None, separators=None,
               default=None, sort_keys=False, **kw):
    return (cls or JSONEncoder)(skipkeys=skipkeys, ensure_ascii=ensure_ascii, check_circular=check_circular, allow_nan=allow_nan, indent=indent,
                                separators=separators, default=default, sort_keys=sort_keys, **kw).encode(obj)


def json_dump(obj, fp, *, skipkeys=False, ensure_ascii=True, check_circular=True, allow_nan=True, cls=None, indent=None, separators=None,
              default=None, sort_keys=False, **kw):
    for chunk in (cls or JSONEncoder)(skipkeys=skipkeys, ensure_ascii=ensure_ascii, check_circular=check_circular, allow_nan=allow_nan, indent=indent,
                                      separators=separators, default=default, sort_keys=sort_keys, **kw).iterencode(obj):
        fp.write(chunk)


_encoder = _Shim(_json.encoder, JSONEncoder=JSONEncoder)
json = _Shim(_json, JSONEncoder=JSONEncoder, dumps=json_dumps, dump=json_dump, encoder=_encoder)

# ---- pathlib: a path made from a symbolic name can be opened
class SymPath:
    def __init__(self, name):
        self.__dict__["name_"] = name

    def open(self, mode="r", **k):
        from .runtime import open_
        return open_(self.name_, mode, **k)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"Path.{n} of a symbolic name")


class _PathMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (SymPath, _pathlib.PurePath))

    def __getattr__(cls, n):
        return getattr(_pathlib.Path, n)


class Path(metaclass=_PathMeta):
    def __new__(cls, *a, **k):
        if len(a) == 1 and not k and isinstance(a[0], (SymStr, SymPath)):
            return a[0] if isinstance(a[0], SymPath) else SymPath(a[0])
        return _pathlib.Path(*a, **k)


pathlib = _Shim(_pathlib, Path=Path)

SHIMS = {"pathlib": pathlib, "struct": struct, "gzip": gzip, "json": json, "json.encoder": _encoder}
