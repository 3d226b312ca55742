"""Run-time support of instrumented code: CPython semantics, extended to symbolic values."""
import builtins as _b
import enum as _enum
import functools as _functools
import os as _os
import sys as _sys
import types as _types
import z3 as _z3
from . import core as _core
from .core import Unsupported, PathCut, Budget, cur
from .symval import (SymInt, SymBool, SymReal, SymStr, SymEnum, is_sym, is_intlike, mk_int, mk_bool, zi, zb, Z,
                     fmt as _fmt, pystr as _pystr)
from .containers import SymSeq, SRange, SDict, SSet, SymBytes, SymTuple, SymFile, Poison
from . import loops as _loops
from .loops import LazyGen, SymIter, source_of

Engine = (PathCut, Unsupported, Budget)
_MISSING = object()


# ------------------------------------------------------------------ literals & operators
def fstr(*parts):
    out = []
    for p in parts:
        if isinstance(p, str):
            out.append(p)
        else:
            v, spec, conv = p
            r = _fmt(v, spec, conv)
            out.extend(r.pieces if isinstance(r, SymStr) else [r])
    return SymStr.make(out)


def mkdict(*items):
    d = SDict()
    for it in items:
        if len(it) == 1:
            d.update(it[0])
        else:
            hash_check(it[0])
            d[it[0]] = it[1]
    return d


def hash_check(k):
    from .containers import hash_ok
    hash_ok(k)


def mkdict_from(seq):
    if isinstance(seq, SymSeq) and not seq.is_concrete():
        raise Unsupported("dict comprehension over symbolic data")
    return SDict(list(seq))


def mkset(seq):
    if isinstance(seq, SymSeq) and not seq.is_concrete():
        raise Unsupported("set comprehension over symbolic data")
    return SSet(list(seq))


def unpack(x, n):
    if isinstance(x, SymSeq):
        x = list(x)
    x = tuple(x)
    if len(x) != n:
        raise ValueError("not enough values to unpack" if len(x) < n else "too many values to unpack")
    return x


def slice(a, b, c):
    return _b.slice(a, b, c)


def getitem(o, i):
    if isinstance(i, (SymInt, SymBool)):
        if isinstance(i, SymBool):
            i = i._i()
        if isinstance(o, (list, tuple)):
            ex = cur()
            n = len(o)
            if ex.branch(_z3.And(i.t >= -n, i.t < n)):
                return o[ex.concretize(i.t)]
            raise IndexError(("list" if isinstance(o, list) else "tuple") + " index out of range")
        if isinstance(o, dict):
            for k, v in o.items():
                if is_intlike(k) and bool(i == k):
                    return v
            raise KeyError("<symbolic>")
        if isinstance(o, (str, bytes)):
            ex = cur()
            n = len(o)
            if ex.branch(_z3.And(i.t >= -n, i.t < n)):
                return o[ex.concretize(i.t)]
            raise IndexError("index out of range")
        if isinstance(o, range):
            return SRange(o.start, o.stop, o.step).sx_getitem(i)
    elif isinstance(i, SymEnum):
        i = i.concrete()
    elif isinstance(i, _b.slice) and any(is_sym(x) for x in (i.start, i.stop, i.step)):
        if isinstance(o, (list, tuple, bytes, str)):
            i = _b.slice(*[cur().concretize(x.t) if isinstance(x, SymInt) else x for x in (i.start, i.stop, i.step)])
    elif isinstance(i, SymStr) and isinstance(o, dict):
        raise Unsupported("symbolic string key")
    return o[i]


def is_(a, b):
    if isinstance(a, SymEnum) or isinstance(b, SymEnum):
        x, y = (a, b) if isinstance(a, SymEnum) else (b, a)
        if isinstance(y, SymEnum) or isinstance(y, _enum.Enum):
            return x == y
        return False
    if isinstance(a, SymBool) and isinstance(b, (bool, SymBool)) or isinstance(b, SymBool) and isinstance(a, bool):
        return a == b
    if isinstance(a, SymInt) and is_intlike(b) or isinstance(b, SymInt) and is_intlike(a):
        raise Unsupported("identity of integers")
    a, b = _REAL.get(id(a), a), _REAL.get(id(b), b)
    return a is b


def in_(x, c):
    return contains(c, x)


def contains(c, x):
    if isinstance(x, (SymInt, SymBool, SymEnum, SymStr)) or isinstance(c, (SymSeq, SRange, SDict, SSet, SymEnum)):
        if isinstance(c, (dict, set, frozenset, list, tuple)) and not isinstance(c, (SDict, SSet)):
            if is_intlike(x) and all(is_intlike(k) for k in c):
                return mk_bool(_z3.Or(*[zi(x) == zi(k) for k in c])) if len(c) else False
            return any(bool(x == k) for k in list(c))
        if isinstance(c, range):
            return SRange(c.start, c.stop, c.step).__contains__(x)
        if isinstance(c, (bytes, str)):
            if isinstance(c, bytes) and is_intlike(x):
                return mk_bool(_z3.Or(*[zi(x) == k for k in c])) if c else False
            raise Unsupported("membership of a symbolic string")
        if isinstance(c, SDict):
            return c.__contains__(x)
        if isinstance(c, SSet):
            return c.__contains__(x)
        if isinstance(c, SymSeq):
            def hit(i, c=c, x=x):
                return c.sx_getitem(mk_int(i, 0)) == x
            r = _loops.find_first(c.len_term(), hit)
            return r is not None
    return x in c


def strcall(o, name, *a, **k):
    if name == "join" and isinstance(o, (str, SymStr)):
        (seq,) = a
        if isinstance(seq, SymSeq) and not seq.is_concrete():
            h = getattr(cur(), "join_hook", None)
            raise Unsupported("join over a symbolic sequence")
        xs = list(iter(seq)) if not isinstance(seq, list) else seq
        if not any(isinstance(x, SymStr) for x in xs) and isinstance(o, str):
            return o.join(xs)
        out = []
        for i, x in enumerate_real(xs):
            if not isinstance(x, (str, SymStr)):
                raise TypeError(f"sequence item {i}: expected str instance, {type(x).__name__} found")
            if i:
                out += SymStr.lift(o)
            out += SymStr.lift(x)
        return SymStr.make(out)
    if name == "format" and isinstance(o, str):
        if not any(is_sym(x) for x in list(a) + list(k.values())) and not any(hasattr(x, "__dict__") for x in list(a) + list(k.values())):
            return o.format(*a, **k)
        import string
        out, auto = [], 0
        for lit, field, spec, conv in string.Formatter().parse(o):
            out.append(lit)
            if field is None:
                continue
            if "{" in (spec or ""):
                raise Unsupported("nested format spec")
            if field == "":
                v = a[auto]
                auto += 1
            elif field.isdigit():
                v = a[int(field)]
            elif field.isidentifier():
                v = k[field]
            else:
                raise Unsupported("format field expression")
            r = _fmt(v, spec or "", conv)
            out += SymStr.lift(r)
        return SymStr.make(out)
    return getattr(o, name)(*a, **k)


enumerate_real = _b.enumerate


def mod(a, b):
    if isinstance(a, str):
        xs = b if isinstance(b, tuple) else (b,)
        if any(is_sym(x) for x in xs):
            import re
            pieces, pos, idx = [], 0, 0
            for m in re.finditer(r"%(%|[0-9]*[sdXxc])", a):
                pieces.append(a[pos:m.start()])
                pos = m.end()
                f = m.group(1)
                if f == "%":
                    pieces.append("%")
                    continue
                if idx >= len(xs):
                    raise TypeError("not enough arguments for format string")
                v = xs[idx]
                idx += 1
                spec = f[:-1] + (f[-1] if f[-1] != "s" else "")
                pieces += SymStr.lift(_fmt(v, "" if spec == "d" else spec, None))
            tail = a[pos:]
            if "%" in tail or any("%" in p for p in pieces if isinstance(p, str) and p != "%"):
                raise Unsupported("printf-style format")
            if idx != len(xs):
                raise TypeError("not all arguments converted during string formatting")
            return SymStr.make(pieces + [tail])
    return a % b


def mul(a, b):
    for x, y in ((a, b), (b, a)):
        if isinstance(x, list) and isinstance(y, SymInt):
            n = mk_int(_z3.If(y.t > 0, y.t, Z(0)), 0)
            if isinstance(n, int):
                return x * n
            if len(x) == 1:
                v = x[0]
                s = SymSeq(n.t, lambda i: v, tag="repeat", scalar=True)
                s.repeated = v
                return s
            raise Unsupported("repetition of a list a symbolic number of times")
    return a * b


# ------------------------------------------------------------------ loops & comprehensions
def for_(site, it):
    return _loops.for_(site, it, _sys._getframe(1))


def while_(site):
    return _loops.while_(site, _sys._getframe(1))


def listcomp(site, it, elt, cond):
    return _loops.listcomp(site, it, elt, cond)


def flatcomp(site, it, elt, cond):
    r = _loops.listcomp(site, it, elt, cond)
    out = []
    for x in r:
        out.extend(x)
    return out


def genexp(site, it, elt, cond):
    return LazyGen(it, elt, cond)


def lazy(thunk):
    return LazyGen(thunk(), lambda x: x, None)


def concrete_iter(it):
    if isinstance(it, LazyGen):
        if it.src is not None:
            raise Unsupported("iteration over symbolic data outside a verified loop")
        return list(it)
    return list(iter(it))


# ------------------------------------------------------------------ builtins
_REAL = {}


class TypeProxy:
    """Stands for a builtin type inside instrumented modules (callable, subscriptable, usable as a base)."""

    def __init__(self, real, call, also=()):
        self.real, self.call, self.also = real, call, tuple(also)
        self.__name__ = real.__name__
        _REAL[id(self)] = real

    def __call__(self, *a, **k):
        return self.call(*a, **k)

    def __getattr__(self, n):
        return getattr(self.real, n)

    def __getitem__(self, i):
        return self.real[i]

    def __or__(self, o):
        return self.real | unproxy(o)

    def __ror__(self, o):
        return unproxy(o) | self.real

    def __mro_entries__(self, bases):
        return (self.real,)

    def __eq__(self, o):
        return unproxy(o) is self.real

    def __hash__(self):
        return hash(self.real)

    def __instancecheck__(self, x):
        return isinstance_(x, self)

    def __repr__(self):
        return repr(self.real)


def unproxy(t):
    return _REAL.get(id(t), t)


_ALSO = {int: (SymInt, SymBool), bool: (SymBool,), float: (SymReal,), str: (SymStr,), list: (SymSeq,), dict: (SDict,), set: (SSet,),
         bytes: (SymBytes,), range: (SRange,)}


def isinstance_(x, t):
    if isinstance(t, tuple):
        return any(isinstance_(x, y) for y in t)
    t = unproxy(t)
    if isinstance(t, _types.UnionType):
        return any(isinstance_(x, y) for y in t.__args__)
    if isinstance(x, SymEnum):
        return issubclass(x._cls, t)
    if hasattr(t, "__origin__") and not isinstance(t, type):
        t = t.__origin__
    if t in _ALSO and isinstance(x, _ALSO[t]):
        return True
    if isinstance(x, (SymInt, SymBool, SymReal, SymStr, SymSeq, SDict, SSet, SymBytes, SRange)):
        base = {SymInt: int, SymBool: bool, SymReal: float, SymStr: str, SymSeq: list, SDict: dict, SSet: set, SymBytes: bytes, SRange: range}
        for k, v in base.items():
            if isinstance(x, k):
                return issubclass(v, t)
    return _b.isinstance(x, t)


def issubclass_(c, t):
    if isinstance(t, tuple):
        return any(issubclass_(c, y) for y in t)
    return _b.issubclass(unproxy(c), unproxy(t))


def type_(*a):
    if len(a) != 1:
        return type(*a)
    x = a[0]
    if isinstance(x, SymEnum):
        return x._cls
    for s, r in ((SymInt, int), (SymBool, bool), (SymReal, float), (SymStr, str), (SymSeq, list), (SDict, dict), (SSet, set), (SymBytes, bytes), (SRange, range)):
        if isinstance(x, s):
            return PROXY[r]
    return PROXY.get(type(x), type(x))


def len_(x):
    f = getattr(type(x), "sx_len", None)
    if f:
        return f(x)
    return _b.len(x)


def range_(*a):
    if any(isinstance(x, (SymInt, SymBool)) for x in a):
        s = a[2] if len(a) > 2 else 1
        if not isinstance(s, int):
            s = s.__index__()
        if s == 0:
            raise ValueError("range() arg 3 must not be zero")
        lo, hi = (0, a[0]) if len(a) == 1 else (a[0], a[1])
        return SRange(lo, hi, s)
    return _b.range(*a)


def int_(x=0, *base, **k):
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymBool):
        return x._i()
    if isinstance(x, SymReal):
        q = x.whole("the whole part")
        fl = _z3.ToInt(q)
        return mk_int(_z3.If(q >= 0, fl, -_z3.ToInt(-q)))
    if isinstance(x, SymStr):
        raise Unsupported("int() of a symbolic string")
    return _b.int(x, *base, **k)


def bool_(x=False):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, SymInt):
        return mk_bool(x.t != 0)
    return _b.bool(x)


def str_(x="", *a, **k):
    if a or k:
        return _b.str(x, *a, **k)
    return _pystr(x)


def float_(x=0.0):
    if is_intlike(x) and is_sym(x):
        return SymReal.of(x)
    if isinstance(x, SymReal):
        return x
    return _b.float(x)


def list_(x=()):
    s = source_of(x)
    if s is None:
        if isinstance(x, SSet) and x.base_has is not None:
            return _loops.enum_of_set(x, ordered=False)
        return _b.list(x)
    return _loops.materialise(x)


def tuple_(x=()):
    s = source_of(x)
    if s is None:
        return _b.tuple(x)
    return _loops.materialise(x)


def set_(x=()):
    if isinstance(x, SSet):
        return x.copy()
    if source_of(x) is not None:
        raise Unsupported("set() of symbolic data")
    return SSet(_b.list(x))


def dict_(*a, **k):
    d = SDict()
    for x in a:
        if source_of(x) is not None:
            raise Unsupported("dict() of symbolic data")
        d.update(x)
    for kk, v in k.items():
        d[kk] = v
    return d


def frozenset_(x=()):
    return set_(x)


def bytes_(x=b"", *a, **k):
    if isinstance(x, SymBytes):
        return x
    if isinstance(x, (list, SymTuple)) and any(is_sym(e) for e in x):
        arr = _z3.K(_z3.IntSort(), Z(0))
        for i, e in enumerate_real(x):
            arr = _z3.Store(arr, i, zi(e))
        return SymBytes(lambda t: _z3.Select(arr, t), 0, len(x))
    return _b.bytes(x, *a, **k)


def sorted_(x, *, key=None, reverse=False):
    if isinstance(x, SSet) and x.base_has is not None:
        x = _loops.enum_of_set(x, ordered=False)
    if source_of(x) is None:
        xs = _b.list(x)
        if any(is_sym(e) for e in xs) and key is None:
            return _loops.sort_concrete(xs, None, reverse)
        return _b.sorted(xs, key=key, reverse=reverse) if not any(is_sym(e) for e in xs) else _loops.sort_concrete(xs, key, reverse)
    return _loops.sorted_sym(x, key, reverse)


def _minmax(which):
    def f(*a, key=None, default=_MISSING):
        if len(a) == 1:
            if source_of(a[0]) is not None:
                return _loops.extremum(a[0], key, which, default, _MISSING)
            xs = _b.list(a[0])
        else:
            xs = _b.list(a)
        if not xs:
            if default is not _MISSING:
                return default
            raise ValueError(f"{which}() iterable argument is empty")
        best = xs[0]
        bk = key(best) if key else best
        for x in xs[1:]:
            k = key(x) if key else x
            if key is None and is_intlike(k) and is_intlike(bk) and (is_sym(k) or is_sym(bk)):
                lo = None
                c = zi(k) < zi(bk) if which == "min" else zi(k) > zi(bk)
                best = bk = mk_int(_z3.If(c, zi(k), zi(bk)))
                continue
            if bool(k < bk) if which == "min" else bool(k > bk):
                best, bk = x, k
        return best
    return f


min_ = _minmax("min")
max_ = _minmax("max")


def sum_(x, start=0):
    if source_of(x) is not None:
        raise Unsupported("sum of symbolic data")
    for e in x:
        start = start + e
    return start


def any_(x):
    if source_of(x) is not None:
        return _loops.find_in(x) is not None
    for e in x:
        if e:
            return True
    return False


def all_(x):
    if source_of(x) is not None:
        return _loops.find_in(x, negate=True) is None
    for e in x:
        if not e:
            return False
    return True


def iter_(x, *a):
    if a:
        return _b.iter(x, *a)
    if isinstance(x, (LazyGen, SymIter)):
        return x
    if source_of(x) is not None:
        return SymIter(x)
    if type(x) in (list, tuple):
        return _loops.ConcIter(x)
    return _b.iter(x)


def next_(x, *d):
    if isinstance(x, (LazyGen, SymIter)) and source_of(x) is not None:
        return _loops.next_sym(x, *d)
    return _b.next(x, *d)


def enumerate_(x, start=0):
    if source_of(x) is not None:
        return _loops.map_seq(x, lambda i, v: (start + mk_int(i, 0), v), "enumerate")
    return _b.enumerate(x, start)


def zip_(*xs, strict=False):
    if any(source_of(x) is not None for x in xs):
        return _loops.zip_sym(xs)
    return _b.zip(*xs, strict=strict)


def map_(f, *xs):
    if len(xs) == 1 and source_of(xs[0]) is not None:
        return LazyGen(xs[0], f, None)
    return _b.map(f, *xs)


def filter_(f, x):
    if source_of(x) is not None:
        return LazyGen(x, lambda v: v, f if f is not None else (lambda v: v))
    return _b.filter(lambda v: bool(v if f is None else f(v)), x)


def reversed_(x):
    s = source_of(x)
    if s is not None:
        n = s.n
        return SymSeq(n, lambda i: s.at(_z3.simplify(n - 1 - i)), tag="reversed", scalar=True)
    return _b.reversed(x)


def print_(*a, **k):
    ex = _core.CUR
    for x in a:
        _pystr(x) if not isinstance(x, (SymStr, SymInt, SymBool, SymReal)) else None
    if ex is not None:
        hook = getattr(ex, "on_print", None)
        if hook:
            hook(a, k)
    return None


def hex_(x):
    if isinstance(x, SymInt):
        return SymStr([("fmt", "#x", None, x)])
    return _b.hex(x)


def repr_(x):
    if isinstance(x, SymInt):
        return _fmt(x)
    if isinstance(x, SymStr):
        raise Unsupported("repr of a symbolic string")
    return _b.repr(x)


def chr_(x):
    return _b.chr(x.__index__() if is_sym(x) else x)


def abs_(x):
    return x.__abs__() if is_sym(x) else _b.abs(x)


def as_bool(f):
    @_functools.wraps(f)
    def g(*a, **k):
        r = f(*a, **k)
        return _b.bool(r) if isinstance(r, SymBool) else r
    return g


def as_len(f):
    @_functools.wraps(f)
    def g(*a, **k):
        r = f(*a, **k)
        return _core.cur().concretize(r.t) if isinstance(r, SymInt) else r
    return g


def divmod_(a, b):
    if is_sym(a) or is_sym(b):
        return (a // b, a % b)
    return _b.divmod(a, b)


def round_(x, *n):
    if isinstance(x, SymReal):
        if n and n[0]:
            raise Unsupported("round of a symbolic real to digits")
        q = x.whole("rounding")
        f = _z3.ToInt(q)
        d = q - _z3.ToReal(f)
        half = _z3.RealVal("1/2")
        return mk_int(_z3.If(d < half, f, _z3.If(d > half, f + 1, _z3.If(f % 2 == 0, f, f + 1))))
    return _b.round(x, *n)


def pow_(a, b, *m):
    return a ** b if not m else _b.pow(a, b, *m)


def open_(*a, **k):
    ex = _core.CUR
    hook = getattr(ex, "open_hook", None) if ex is not None else None
    if ex is None:
        return _b.open(*a, **k)
    if hook is None:
        raise Unsupported("open() outside a stubbed environment")
    if a and type(a[0]).__name__ == "SymPath":
        a = (a[0].name_,) + a[1:]
    elif a and _b.isinstance(a[0], _os.PathLike):
        a = (_os.fspath(a[0]),) + a[1:]
    return hook(*a, **k)


def locals_():
    raise Unsupported("locals()")


def callable_(x):
    return _b.callable(x)


PROXY = {}


def _mk(real, call):
    p = TypeProxy(real, call)
    PROXY[real] = p
    return p


def import_(name, globals=None, locals=None, fromlist=(), level=0):
    from . import shims
    s = shims.SHIMS.get(name)
    if s is not None and level == 0:
        if fromlist or "." not in name:
            return s
        top = name.split(".")[0]
        return shims.SHIMS.get(top) or _b.__import__(name, globals, locals, fromlist, level)
    return _b.__import__(name, globals, locals, fromlist, level)


BUILTINS = dict(_b.__dict__)
BUILTINS.update({
    "int": _mk(int, int_), "bool": _mk(bool, bool_), "str": _mk(str, str_), "float": _mk(float, float_), "list": _mk(list, list_),
    "tuple": _mk(tuple, tuple_), "set": _mk(set, set_), "dict": _mk(dict, dict_), "frozenset": _mk(frozenset, frozenset_),
    "bytes": _mk(bytes, bytes_), "range": _mk(range, range_),
    "isinstance": isinstance_, "issubclass": issubclass_, "type": type_, "len": len_, "sorted": sorted_, "min": min_, "max": max_,
    "sum": sum_, "any": any_, "all": all_, "iter": iter_, "next": next_, "enumerate": enumerate_, "zip": zip_, "map": map_,
    "filter": filter_, "reversed": reversed_, "print": print_, "hex": hex_, "repr": repr_, "chr": chr_, "abs": abs_,
    "divmod": divmod_, "round": round_, "pow": pow_, "open": open_, "__import__": import_,
})


def _wire():
    from . import shims
    PROXY[int].__dict__["from_bytes"] = shims.int_from_bytes


class _TypeFn:
    """`type` must stay usable as a metaclass / annotation as well as a call"""

    def __call__(self, *a, **k):
        return type_(*a) if not k else type(*a, **k)

    def __mro_entries__(self, b):
        return (type,)

    def __getattr__(self, n):
        return getattr(type, n)


BUILTINS["type"] = _TypeFn()
_REAL[id(BUILTINS["type"])] = type

# Enum(value) with a symbolic value
_enum_call = _enum.EnumType.__call__


def _sx_enum_call(cls, value=_MISSING, *a, **k):
    if isinstance(value, SymBool):
        value = value._i()
    if isinstance(value, SymInt) and not a and not k and cls.__members__:
        ex = cur()
        if _b.issubclass(cls, _enum.Flag):
            m = 0
            for x in cls:
                m |= x.value
            ok = _z3.And(value.t >= 0, value.t <= m) if (m & (m + 1)) == 0 else None
            if ok is None:
                return _enum_call(cls, ex.concretize(value.t))
        else:
            ok = _z3.Or(*[value.t == x.value for x in cls])
        if ex.branch(ok):
            return SymEnum(cls, value.t)
        raise ValueError(f"<symbolic> is not a valid {cls.__name__}")
    if isinstance(value, SymEnum) and value._cls is cls and not a:
        return value
    if value is _MISSING:
        return _enum_call(cls, *a, **k)
    return _enum_call(cls, value, *a, **k)


_enum.EnumType.__call__ = _sx_enum_call

_wire()
