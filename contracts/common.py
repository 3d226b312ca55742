"""Helpers shared by the contracts."""
import re
import enum
import z3
from engine import core, heap
from engine.core import Unsupported, PathCut
from engine.containers import SymBytes, SymFile, SymSeq, Poison
from engine.symval import (SymInt, SymBool, SymReal, SymStr, SymEnum, is_sym, is_intlike, mk_int, mk_bool, zi, zb, Z, values_equal)


def sym_byte(ex, name):
    t = ex.fresh_int(name)
    ex.assume(z3.And(t >= 0, t <= 255))
    return SymInt(t, 0, 255)


def sym_range(ex, name, lo, hi):
    t = ex.fresh_int(name)
    if lo is not None:
        ex.assume(t >= lo)
    if hi is not None:
        ex.assume(t <= hi)
    return SymInt(t, lo, hi)


def sym_file(ex, name, minlen=0):
    c = ex.fresh_fn(f"{name}_content", z3.IntSort(), z3.IntSort())
    n = ex.fresh_int(f"{name}_len")
    ex.assume(n >= minlen)
    return SymFile(c, n, 0, name)


def model_int(m, t, default=0):
    v = m.eval(zi(t), model_completion=True)
    try:
        return v.as_long()
    except AttributeError:
        return default


def model_bytes(m, f, limit=4096):
    n = min(model_int(m, f.length), limit)
    out = bytearray()
    for i in range(max(0, n)):
        out.append(model_int(m, f.content(Z(i))) % 256)
    return bytes(out)


def eq(a, b):
    """== of two results, as z3 Bool; values compared like Python compares them"""
    if isinstance(a, enum.Enum) and not isinstance(b, (enum.Enum, SymEnum)):
        return z3.BoolVal(bool(a == b)) if not is_sym(b) else zb(a == b) if isinstance(a, int) else z3.BoolVal(False)
    if isinstance(a, SymEnum) or isinstance(b, SymEnum):
        r = (a == b) if isinstance(a, SymEnum) else (b == a)
        return zb(r) if r is not NotImplemented else z3.BoolVal(False)
    if is_intlike(a) and is_intlike(b):
        return zi(a) == zi(b)
    if isinstance(a, SymReal) or isinstance(b, SymReal):
        r = (a == b)
        return zb(r)
    if isinstance(a, SymStr) or isinstance(b, SymStr):
        s, o = (a, b) if isinstance(a, SymStr) else (b, a)
        if not isinstance(o, (str, SymStr)):
            return z3.BoolVal(False)
        t = s.eq_term(o)
        if t is None:
            raise Unsupported(f"strings of different shape: {s!r} {o!r}"[:300])
        return t
    if is_sym(a) or is_sym(b):
        return z3.BoolVal(False)
    return z3.BoolVal(bool(a == b))


def outcome(fn):
    """('val', x) | ('exc', e); engine signals pass through"""
    try:
        return "val", fn()
    except Exception as e:
        engine_trouble(e)
        return "exc", e


SYM_NAMES = ("SymInt", "SymBool", "SymReal", "SymStr", "SymEnum", "SymBytes", "SymFile", "SymSeq", "SDict", "SSet", "SRange", "SymIter", "LazyGen", "Poison", "SymTuple")


def stand_ins():
    """names of the classes the engine and the contracts define: they stand in for real objects"""
    if not _STAND_INS:
        import ast
        import os
        here = os.path.dirname(os.path.abspath(__file__))
        for d in (here, os.path.join(os.path.dirname(here), "engine")):
            for f in os.listdir(d):
                if f.endswith(".py"):
                    with _open(os.path.join(d, f)) as fh:
                        _STAND_INS.update(n.name for n in ast.walk(ast.parse(fh.read())) if isinstance(n, ast.ClassDef))
    return _STAND_INS


_STAND_INS = set()
_open = open            # contracts put a stub in the place of open()


def engine_trouble(e):
    """an exception caused by a symbolic stand-in meeting code that wants the real type is no verdict"""
    if isinstance(e, (TypeError, AttributeError)) and set(re.findall(r"'([A-Za-z_]\w*)'", str(e))) & stand_ins():
        raise Unsupported(f"a stand-in in unsupported use: {type(e).__name__}: {e}")
    if isinstance(e, AttributeError) and type(getattr(e, "obj", None)).__module__.split(".")[0] in ("engine", "contracts"):
        raise Unsupported(f"a stand-in in unsupported use: {e}")
    if isinstance(e, (TypeError, AttributeError, ValueError, NotImplementedError)) and any(n in str(e) for n in SYM_NAMES):
        raise Unsupported(f"symbolic value in unsupported use: {type(e).__name__}: {e}")


def frame(ex, name, snap, allowed=(), info=None):
    """nothing in the snapshot changed, except what `allowed(path, label, obj)` admits"""
    def dec(c):
        return ex._check(z3.Not(c)) == z3.unsat
    bad = [(p, l, o, n) for p, l, o, n, obj in snap.diff(dec) if not (allowed and allowed(p, l, obj))]
    if not bad:
        ex.prove(name, True)
        return True
    if any(l == "memo" for p, l, o, n in bad):
        raise Unsupported("a memoising function is used: what it depends on is not tracked")
    if name.endswith(".shared-state-untouched") and not name.startswith("C19."):
        info = dict(info or {}, over=True)          # storing something is a breach of C19 alone
    for p, l, o, n in bad:
        ex.fail(name, f"{p}{l} changes from {show(o)} to {show(n)}", info)
    return False


def show(v):
    if is_sym(v):
        return str(getattr(v, "t", v))[:80]
    return repr(v)[:80]


def bytes_are(ex, name, payload, content, start, length, info=None):
    """payload denotes content[start .. start+length)"""
    L = zi(length)
    if payload is None:
        return ex.prove(name, L == 0, info)
    if isinstance(payload, SymBytes):
        if payload.content is content or (isinstance(content, z3.FuncDeclRef) and isinstance(payload.content, z3.FuncDeclRef) and payload.content.eq(content)):
            if ex._check(z3.Not(z3.And(payload.length == L, z3.Or(L == 0, payload.off == zi(start))))) == z3.unsat:
                return ex.prove(name, z3.And(payload.length == L, z3.Or(L == 0, payload.off == zi(start))), info)
        i = ex.fresh_int("i")
        return ex.prove(name, z3.And(payload.length == L, z3.Implies(z3.And(i >= 0, i < L), payload.content(z3.simplify(payload.off + i)) == content(z3.simplify(zi(start) + i)))), info)
    if isinstance(payload, (bytes, bytearray, tuple, list)):
        xs = list(payload)
        if not all(is_intlike(x) for x in xs):
            return ex.fail(name, f"payload {payload!r}", info)
        return ex.prove(name, z3.And(L == len(xs), *[zi(x) == content(z3.simplify(zi(start) + i)) for i, x in enumerate(xs)]), info)
    if hasattr(payload, "__dict__") or isinstance(payload, (int, str)):
        ex.fail(name, f"payload is {type(payload).__name__}", info)
        return False
    raise Unsupported(f"payload of type {type(payload).__name__}")


def _refuse(n):
    def f(self, *a, **k):
        raise Unsupported(f"{type(self).__name__}: {n}")
    return f


class Opaque:
    """a stand-in that only the operations its class defines can be applied to"""


for _n in "str format bool len iter getitem contains eq ne lt le gt ge add radd mod mul int index bytes".split():
    setattr(Opaque, f"__{_n}__", _refuse(_n))
Opaque.__hash__ = object.__hash__


class OutFile:
    """a file opened for writing that records what it is given"""

    def __init__(self, name, mode):
        self.name, self.mode, self.closed, self.parts, self.late = name, mode, 0, [], False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed += 1

    def close(self):
        self.closed += 1

    def flush(self):
        pass

    def write(self, s):
        if self.closed:
            self.late = True
        if not isinstance(s, (str, SymStr)):
            raise TypeError("write() argument must be str")
        self.parts.append(s)
        return len(s) if isinstance(s, str) else 0

    def writelines(self, xs):
        for x in xs:
            self.write(x)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"file method {n}")


def written_text(f):
    """pieces of the text written to an OutFile"""
    out = []
    for p in f.parts:
        for q in (p.pieces if isinstance(p, SymStr) else [p]):
            if isinstance(q, str) and out and isinstance(out[-1], str):
                out[-1] += q
            elif q != "":
                out.append(q)
    return out
