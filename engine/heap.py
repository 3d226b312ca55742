"""Heap snapshots: frame conditions and effect detection for the loop rule."""
import enum
import types
import sys
from . import core
from .core import Unsupported
from .symval import is_sym, values_equal, SymEnum
from .containers import SymSeq, SDict, SSet, SymBytes, SymFile, SRange, Poison, SymTuple

import functools
import operator
_MEMO = type(functools.lru_cache(lambda: 0))
import dataclasses
_PARAMS = getattr(dataclasses, "_DataclassParams", ())
_ITERS = tuple({type(iter(x)) for x in ([], (), {}, set(), "", b"", range(0), range(1 << 70), {}.items(), {}.values())} | {type(reversed([]))})
_WRAPS = (enumerate, zip, map, filter)

# (what the dataclass decorator notes about a class - its options and its fields - is written once, when the class is made)
ATOMS = (int, float, str, bytes, type(None), enum.Enum, range, complex, _PARAMS, dataclasses.Field)
REPO_PREFIX = "/repo/src"


def is_atom(v):
    return isinstance(v, ATOMS) or is_sym(v) or isinstance(v, (SymBytes, Poison, SRange))


def is_repo_class(c):
    m = sys.modules.get(c.__module__)
    return m is not None and (getattr(m, "__sx__", None) is not None)


class Leaf:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


def state_of(o):
    """[(label, value)] of one mutable object, or None for opaque objects"""
    if isinstance(o, (list, tuple)):
        return [("len", len(o))] + [(f"[{i}]", x) for i, x in enumerate(o)]
    if isinstance(o, (dict, types.MappingProxyType)):
        return [("len", len(o))] + [(f"key{i}", k) for i, k in enumerate(o)] + [(f"[{k!r}]" if is_atom(k) and not is_sym(k) else f"val{i}", v) for i, (k, v) in enumerate(o.items())]
    if isinstance(o, (set, frozenset)):
        try:
            xs = sorted(o)
        except TypeError:
            xs = sorted(o, key=repr)
        return [("len", len(o))] + [(f"<{i}>", x) for i, x in enumerate(xs)]
    if isinstance(o, SymSeq):
        return [("base", (id(o.base_elem), o.base_len if isinstance(o.base_len, int) else o.base_len.hash()).__repr__()),
                ("len", len(o.tail)), ("nset", len(o.log))] + [(f"[n+{i}]", x) for i, x in enumerate(o.tail)] + [
            (f"set{i}", x[-1]) for i, x in enumerate(o.log)]
    if isinstance(o, SDict):
        es = o.over if o.over is not None else [[k, v] for k, v in o.conc.items()]
        return [("base", repr(id(o.base_has)) if o.base_has else "-"), ("len", len(es))] + [
            (f"key{i}", e[0]) for i, e in enumerate(es)] + [
            ((f"[{e[0]!r}]" if not is_sym(e[0]) else f"val{i}"), e[1]) for i, e in enumerate(es)]
    if isinstance(o, SSet):
        return [("base", repr(id(o.base_has)) if o.base_has else "-"), ("len", len(o.elems))] + [(f"<{i}>", x) for i, x in enumerate(o.elems)]
    if isinstance(o, SymFile):
        return [("pos", o.pos), ("closed", o.closed)]
    if hasattr(type(o), "_sx_heap"):
        return o._sx_heap()
    if isinstance(o, _ITERS):
        try:
            return [("remaining", operator.length_hint(o))]
        except TypeError:
            return None
    if isinstance(o, _WRAPS):
        r = o.__reduce__()[1]
        return [(f"arg{i}", x) for i, x in enumerate(r)]
    if isinstance(o, types.GeneratorType):
        fr = o.gi_frame
        if fr is None:
            return [("at", -1)]
        if o.gi_running:
            return [("at", "running")]
        return [("at", fr.f_lasti)] + [("local " + k, v) for k, v in fr.f_locals.items() if not k.startswith("__")]
    if isinstance(o, types.ModuleType):
        if getattr(o, "__sx__", None) is not None:
            return [(k, v) for k, v in sorted(o.__dict__.items()) if not (k.startswith("__") and k.endswith("__"))]
        return None
    if isinstance(o, type):
        if is_repo_class(o):
            return [(k, v) for k, v in sorted(o.__dict__.items(), key=lambda kv: kv[0])
                    if k not in ("__dict__", "__weakref__", "__doc__", "__module__", "__qualname__", "__firstlineno__", "__static_attributes__",
                                 "_member_map_", "_value2member_map_", "_unhashable_values_", "_hashable_values_")]
        return None
    if isinstance(o, (types.FunctionType,)):
        if o.__module__ and getattr(sys.modules.get(o.__module__), "__sx__", None) is not None:
            out = [("__defaults__", o.__defaults__), ("__kwdefaults__", o.__kwdefaults__)]
            memo = ("_clear_cache",) if _is_dispatcher(o) else ()
            out += [("attr " + k, v) for k, v in o.__dict__.items() if k != "__wrapped__" and k not in memo]
            for i, c in enumerate(o.__closure__ or ()):
                try:
                    out.append((f"cell{i}", c.cell_contents))
                except ValueError:
                    pass
            return out
        return None
    if isinstance(o, _MEMO):
        return [("memo", repr(o.cache_info())), ("__wrapped__", getattr(o, "__wrapped__", None))]
    if isinstance(o, functools.partial):
        return [("func", o.func), ("args", o.args), ("keywords", o.keywords)]
    if isinstance(o, (classmethod, staticmethod)):
        return [("__func__", o.__func__)]
    if isinstance(o, property):
        return [("fget", o.fget), ("fset", o.fset)]
    if isinstance(o, types.MethodType):
        return [("__self__", o.__self__), ("__func__", o.__func__)]
    d = attrs(o) if not isinstance(o, type) else None
    if isinstance(d, dict):
        out = [("." + k, v) for k, v in d.items()]
        if isinstance(o, BaseException):
            return None
        return [("len", len(d))] + out
    return None


def _is_dispatcher(o):
    """a functools.singledispatch function: its cache is a memo of the registry, which is tracked; the registry itself stays"""
    return o.__code__.co_filename == functools.__file__ and "registry" in o.__dict__ and "_clear_cache" in o.__dict__


def _slots(t):
    """names of the slots of instances of class t of the repository"""
    r = _SLOTS.get(t)
    if r is None:
        r = []
        for c in t.__mro__:
            if not is_repo_class(c):
                continue
            for n, d in c.__dict__.items():
                if isinstance(d, types.MemberDescriptorType) and n not in ("__dict__", "__weakref__"):
                    r.append(n)
        _SLOTS[t] = r
    return r


_SLOTS = {}


def attrs(o):
    """the attributes an object holds, in its dictionary or in slots; None: it holds none that can be seen"""
    try:
        d = object.__getattribute__(o, "__dict__")
    except AttributeError:
        d = None
    sl = _slots(type(o))
    if not sl:
        return d if isinstance(d, dict) else None
    out = dict(d) if isinstance(d, dict) else {}
    for n in sl:
        try:
            out[n] = object.__getattribute__(o, n)
        except AttributeError:
            pass
    return out


def put(o, k, v):
    """sets an attribute of an object, whatever its class says about it"""
    if k in _slots(type(o)):
        object.__setattr__(o, k, v)
    else:
        object.__getattribute__(o, "__dict__")[k] = v


class Snapshot:
    def __init__(self, roots=(), deep_modules=False):
        self.objs = {}          # id -> (obj, path, [(label, value)])
        for path, r in roots:
            self.add(r, path)

    def add(self, root, path):
        work = [(root, path)]
        while work:
            o, p = work.pop()
            if is_atom(o) or id(o) in self.objs:
                continue
            st = state_of(o)
            self.objs[id(o)] = (o, p, st)
            if st is None:
                continue
            for label, v in st:
                if not is_atom(v):
                    work.append((v, p + (label if label.startswith((".", "[")) else "." + label)))

    def diff(self, decide=None):
        """[(path, label, old, new)] of all changed slots.  decide(old,new)->True if proved equal."""
        out = []
        for o, p, st in list(self.objs.values()):
            if st is None:
                continue
            now = state_of(o)
            a, b = dict(st), dict(now)
            for k in a:
                if k == "len" and not isinstance(o, (list, tuple, set, SymSeq, SSet)) and set(a) == set(b):
                    continue
                if k not in b:
                    out.append((p, k, a[k], None, o))
                elif not same(a[k], b[k], decide):
                    out.append((p, k, a[k], b[k], o))
            for k in b:
                if k not in a:
                    out.append((p, k, None, b[k], o))
        return out


def same(a, b, decide=None):
    if a is b:
        return True
    if is_atom(a) or is_atom(b):
        if isinstance(a, Poison) or isinstance(b, Poison):
            return False
        if not (is_atom(a) and is_atom(b)):
            return False
        if isinstance(a, SymBytes) or isinstance(b, SymBytes):
            return False
        c = values_equal(a, b)
        if c is True or c is False:
            return c
        import z3
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return bool(decide and decide(c))
    if isinstance(a, types.MethodType) and isinstance(b, types.MethodType):
        return a == b
    return False


def materialised(ex, owner, entry, v):
    """A lazily created element of a symbolic container came into being on this path."""
    ex.notes.setdefault("mat", []).append((owner, entry))
    for snap, tag in ex.notes.get("snaps", ()):
        if id(owner) in snap.objs or getattr(owner, "tag", None):
            snap.add(v, f"{getattr(owner, 'tag', 'seq')}[elem]")


def repo_modules():
    return [(n, m) for n, m in sorted(sys.modules.items()) if getattr(m, "__sx__", None) is not None]


def global_roots():
    return [(n, m) for n, m in repo_modules()]


def frame_roots():
    """locals of all active instrumented frames (innermost first)"""
    out = []
    f = sys._getframe(1)
    while f is not None:
        if f.f_globals.get("__sx__") is not None and f.f_code.co_filename.startswith(REPO_PREFIX):
            for k, v in f.f_locals.items():
                if not k.startswith("__") and "__sx_" not in k:
                    out.append((f"{f.f_code.co_name}:{k}", v))
        f = f.f_back
    return out


class GlobalState:
    """Restores module globals / class attributes / function defaults between paths."""

    def __init__(self):
        import copy as _c
        self.saved = []
        seen = set()
        work = [m for _, m in repo_modules()]
        while work:
            o = work.pop()
            if is_atom(o) or id(o) in seen:
                continue
            seen.add(id(o))
            st = state_of(o)
            if st is None:
                continue
            self.saved.append((o, self._grab(o)))
            for _, v in st:
                if not is_atom(v):
                    work.append(v)

    def _grab(self, o):
        if isinstance(o, list):
            return list(o)
        if isinstance(o, (dict, set)):
            return o.copy()
        if isinstance(o, (SDict, SSet)):
            return o._sx_save()
        if isinstance(o, types.ModuleType):
            return dict(o.__dict__)
        if isinstance(o, type):
            return {k: v for k, v in o.__dict__.items()}
        if isinstance(o, types.FunctionType):
            return (o.__defaults__, dict(o.__kwdefaults__) if o.__kwdefaults__ else None, dict(o.__dict__))
        d = attrs(o)
        if isinstance(d, dict):
            return dict(d)
        return None

    def restore(self):
        for o, g in self.saved:
            if isinstance(o, list):
                if len(o) != len(g) or any(x is not y for x, y in zip(o, g)):
                    o[:] = g
            elif isinstance(o, dict):
                if o.keys() != g.keys() or any(o[k] is not g[k] for k in g):
                    o.clear()
                    o.update(g)
            elif isinstance(o, set):
                if o != g:
                    o.clear()
                    o.update(g)
            elif isinstance(o, (SDict, SSet)):
                o._sx_load(g)
            elif isinstance(o, types.ModuleType):
                if o.__dict__.keys() != g.keys() or any(o.__dict__[k] is not g[k] for k in g):
                    for k in list(o.__dict__):
                        if k not in g:
                            del o.__dict__[k]
                    o.__dict__.update(g)
            elif isinstance(o, type):
                cur = o.__dict__
                for k in list(cur):
                    if k not in g and k not in ("__dict__", "__weakref__"):
                        try:
                            type.__delattr__(o, k)
                        except (AttributeError, TypeError):
                            pass
                for k, v in g.items():
                    if k in ("__dict__", "__weakref__"):
                        continue
                    if o.__dict__.get(k) is not v:
                        try:
                            type.__setattr__(o, k, v)
                        except (AttributeError, TypeError):
                            pass
            elif isinstance(o, _MEMO):
                o.cache_clear()
            elif isinstance(o, types.FunctionType):
                if o.__defaults__ is not g[0]:
                    o.__defaults__ = g[0]
            elif g is not None and _slots(type(o)):
                d = attrs(o)
                for k in d:
                    if k not in g:
                        object.__delattr__(o, k)
                for k in g:
                    if k not in d or d[k] is not g[k]:
                        put(o, k, g[k])
            elif g is not None and isinstance(getattr(o, "__dict__", None), dict):
                d = o.__dict__
                if d.keys() != g.keys() or any(d[k] is not g[k] for k in g):
                    d.clear()
                    d.update(g)
